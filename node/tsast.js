// Reads generated TypeScript files into plain syntax records (JSON).
// usage: node tsast.js <typescript module> <list.json> <out.json>; list: [{root, files: [relative paths]}]
const fs = require("fs"), path = require("path");
const ts = require(process.argv[2]);
const list = JSON.parse(fs.readFileSync(process.argv[3], "utf8"));
const K = ts.SyntaxKind;
const squeeze = s => s.replace(/\s+/g, "");

function file(root, rel) {
  const text = fs.readFileSync(path.join(root, rel), "utf8");
  const sf = ts.createSourceFile(rel, text, ts.ScriptTarget.ES2020, true, ts.ScriptKind.TS);
  const imports = {};   // alias -> file (relative to root, with .ts)
  const out = { file: rel, head: text.split("\n").slice(0, 2).join("\n"), imports: [], decls: [], errors: (sf.parseDiagnostics || []).map(d => ts.flattenDiagnosticMessageText(d.messageText, "\n")) };
  const local = {};
  for (const st of sf.statements) if (st.name) local[st.name.text] = true;

  function ref(name, args) {   // an entity name
    if (ts.isIdentifier(name)) {
      const n = name.text;
      if (n === "Array" && args.length === 1) return { k: "arr", e: type(args[0]) };
      if (n === "Record" && args.length === 2) return { k: "rec", key: type(args[0]), e: type(args[1]) };
      if (n === "Partial" && args.length === 1) return { k: "partial", e: type(args[0]) };
      if (n === "Promise" && args.length === 1) return { k: "promise", e: type(args[0]) };
      return { k: "ref", m: "", n };
    }
    if (ts.isQualifiedName(name) && ts.isIdentifier(name.left)) return { k: "ref", m: name.left.text, n: name.right.text };
    return { k: "raw", n: squeeze(name.getText(sf)) };
  }
  function alts(t) {
    if (ts.isParenthesizedTypeNode(t)) return alts(t.type);
    if (ts.isUnionTypeNode(t)) return [].concat(...t.types.map(alts));
    return [type(t)];
  }
  function type(t) {
    if (ts.isParenthesizedTypeNode(t)) return type(t.type);
    switch (t.kind) {
      case K.StringKeyword: return { k: "kw", n: "string" };
      case K.NumberKeyword: return { k: "kw", n: "number" };
      case K.BooleanKeyword: return { k: "kw", n: "boolean" };
      case K.AnyKeyword: return { k: "kw", n: "any" };
      case K.UnknownKeyword: return { k: "kw", n: "unknown" };
      case K.VoidKeyword: return { k: "kw", n: "void" };
      case K.UndefinedKeyword: return { k: "kw", n: "undefined" };
      case K.LiteralType:
        if (t.literal.kind === K.NullKeyword) return { k: "kw", n: "null" };
        if (ts.isStringLiteral(t.literal)) return { k: "lit", n: t.literal.text };
        return { k: "raw", n: squeeze(t.getText(sf)) };
      case K.UnionType: { const a = alts(t); return a.length === 1 ? a[0] : { k: "or", ts: a }; }
      case K.ArrayType: return { k: "arr", e: type(t.elementType) };
      case K.TypeReference: return ref(t.typeName, t.typeArguments || []);
      case K.ExpressionWithTypeArguments: return exref(t);
      case K.TypeLiteral: return { k: "obj", ext: [], props: props(t.members) };
      case K.IntersectionType: {
        const a = t.types.map(type), o = a.pop();
        return o.k === "obj" ? { k: "obj", ext: a.concat(o.ext), props: o.props } : { k: "raw", n: squeeze(t.getText(sf)) };
      }
      case K.TypeQuery: { const r = ref(t.exprName, []); return { k: "typeof", n: r.n }; }
    }
    return { k: "raw", n: squeeze(t.getText(sf)) };
  }
  function exref(t) {
    const e = t.expression, args = t.typeArguments || [];
    if (ts.isIdentifier(e)) return ref(e, args);
    if (ts.isPropertyAccessExpression(e) && ts.isIdentifier(e.expression)) return { k: "ref", m: e.expression.text, n: e.name.text };
    return { k: "raw", n: squeeze(t.getText(sf)) };
  }
  const pname = n => ts.isStringLiteral(n) || ts.isNumericLiteral(n) || ts.isIdentifier(n) ? n.text : squeeze(n.getText(sf));
  function props(ms) {
    return ms.map(m => ts.isPropertySignature(m)
      ? { n: pname(m.name), opt: !!m.questionToken, t: m.type ? type(m.type) : { k: "raw", n: "" }, src: m.type ? squeeze(m.type.getText(sf)) : "" }
      : { n: "?" + squeeze(m.getText(sf)), opt: false, t: { k: "raw", n: "" }, src: "" });
  }
  function lit(e) {
    if (!e) return { j: "none", v: "" };
    if (ts.isStringLiteral(e) || e.kind === K.NoSubstitutionTemplateLiteral) return { j: "str", v: e.text };
    if (ts.isNumericLiteral(e)) return { j: "num", v: String(Number(e.text)) };
    if (ts.isPrefixUnaryExpression(e) && e.operator === K.MinusToken && ts.isNumericLiteral(e.operand)) return { j: "num", v: String(-Number(e.operand.text)) };
    return { j: "raw", v: squeeze(e.getText(sf)) };
  }
  for (const st of sf.statements) {
    const exported = !!(st.modifiers || []).find(m => m.kind === K.ExportKeyword);
    if (ts.isImportDeclaration(st)) {
      const b = st.importClause && st.importClause.namedBindings;
      const f = path.normalize(path.join(path.dirname(rel), st.moduleSpecifier.text)) + ".ts";
      out.imports.push({ alias: b && ts.isNamespaceImport(b) ? b.name.text : squeeze(st.getText(sf)), file: f, exists: fs.existsSync(path.join(root, f)) });
    } else if (ts.isInterfaceDeclaration(st)) {
      const ext = [].concat(...(st.heritageClauses || []).map(h => h.types.map(exref)));
      out.decls.push({ n: st.name.text, k: "interface", exported, ext, props: props(st.members) });
    } else if (ts.isTypeAliasDeclaration(st)) {
      out.decls.push({ n: st.name.text, k: "alias", exported, t: type(st.type) });
    } else if (ts.isEnumDeclaration(st)) {
      out.decls.push({ n: st.name.text, k: "enum", exported, members: st.members.map(m => ({ n: pname(m.name), v: lit(m.initializer) })) });
    } else if (ts.isVariableStatement(st)) {
      for (const d of st.declarationList.declarations) {
        const spread = [];
        if (d.initializer && ts.isObjectLiteralExpression(d.initializer))
          for (const p of d.initializer.properties)
            spread.push(ts.isSpreadAssignment(p) && ts.isPropertyAccessExpression(p.expression) && ts.isIdentifier(p.expression.expression)
              ? { k: "ref", m: p.expression.expression.text, n: p.expression.name.text }
              : ts.isSpreadAssignment(p) && ts.isIdentifier(p.expression) ? { k: "ref", m: "", n: p.expression.text } : { k: "raw", n: squeeze(p.getText(sf)) });
        out.decls.push({ n: d.name.getText(sf), k: "const", exported, spread });
      }
    } else if (ts.isClassDeclaration(st)) {
      let ep = { j: "none", v: "" };
      const methods = [];
      for (const m of st.members) {
        if (ts.isPropertyDeclaration(m) && pname(m.name) === "defaultEndpoint") ep = lit(m.initializer);
        if (ts.isMethodDeclaration(m))
          methods.push({ n: pname(m.name), params: m.parameters.map(p => ({ n: p.name.getText(sf), opt: !!p.questionToken, t: p.type ? type(p.type) : { k: "raw", n: "" } })), t: m.type ? type(m.type) : { k: "raw", n: "" } });
      }
      out.decls.push({ n: st.name ? st.name.text : "?", k: "class", exported, ep, methods });
    } else if (st.kind !== K.EmptyStatement) {
      out.decls.push({ n: squeeze(st.getText(sf)).slice(0, 80), k: "other", exported });
    }
  }
  return out;
}
const res = list.map(p => p.files.filter(f => fs.existsSync(path.join(p.root, f))).map(f => file(p.root, f)));
fs.writeFileSync(process.argv[4], JSON.stringify(res));
