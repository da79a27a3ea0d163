// Runs generated TypeScript clients with a transport that records.
// usage: node tsrun.js <typescript module> <list.json> <out.json>; list: [{client, files: [all TypeScript files of the program]}]
// out: [{errors: [...], classes: [{n, endpoint, functions: [{n, params}], runs: [...]}]}]
const fs = require("fs"), vm = require("vm");
const ts = require(process.argv[2]);
const list = JSON.parse(fs.readFileSync(process.argv[3], "utf8"));
const text = d => (d.file ? d.file.fileName + ":" + (d.file.getLineAndCharacterOfPosition(d.start).line + 1) + ": " : "") + ts.flattenDiagnosticMessageText(d.messageText, "\n");

// the values calls are made with and transports answer; tok tells them apart
const odd = [0, "", false, null, NaN, "s", 1.5];
const tok = v => v === undefined ? "undefined" : typeof v === "number" ? "n" + String(v) : typeof v === "function" ? "function" : JSON.stringify(v);
let count = 0;
const value = kind => { count++; return kind === "odd" ? odd[count % odd.length] : kind === "list" ? ["v" + count, { "0": "w" }] : "v" + count; };

function load(file) {
  const js = ts.transpileModule(fs.readFileSync(file, "utf8"), { compilerOptions: { module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2020 } }).outputText;
  const module = { exports: {} };
  vm.runInThisContext("(function (module, exports, require) {" + js + "\n})", { filename: file })(module, module.exports, () => ({}));
  return module.exports;
}

async function run(C, fn, kind) {
  const calls = [], reply = [];
  for (let i = 0; i < 6; i++) reply.push(value(kind));
  const failure = new Error("transport");
  const c = new C((m, data, ...more) => {
    calls.push({ m: String(m), data: (data || []).concat(more).map(tok) });
    return new Promise((ok, no) => setTimeout(() => kind === "fails" ? no(failure) : ok(reply), 0));
  });
  const args = [];
  const r = { e: "function", fn, kind: "nothing", one: "", object: [], calls, reply: reply.map(tok) };
  try {
    const f = c[fn];
    for (let i = 0; i < f.length; i++) args.push(value(kind));
    r.args = args.map(tok);
    const res = await f.apply(c, args);
    if (res !== null && typeof res === "object" && !Array.isArray(res)) {
      r.kind = "object";
      r.object = Object.keys(res).map(n => ({ n, v: tok(res[n]) }));
    } else if (res !== undefined || reply[0] === undefined) {
      r.kind = "one";
      r.one = tok(res);
    }
  } catch (e) {
    r.kind = e === failure ? "failed" : "broken: " + e;
  }
  r.reply = kind === "fails" ? [] : r.reply;
  return r;
}

async function client(file) {
  const exp = load(file), classes = [];
  for (const n of Object.keys(exp).filter(n => typeof exp[n] === "function")) {
    const C = exp[n], fns = Object.getOwnPropertyNames(C.prototype).filter(p => p !== "constructor" || C.prototype.constructor !== C);
    const c = { n, endpoint: String(C.defaultEndpoint), functions: fns.map(p => ({ n: p, params: C.prototype[p].length })), runs: [] };
    for (const f of fns) for (const kind of ["text", "odd", "odd", "list", "fails"]) c.runs.push(await run(C, f, kind));
    classes.push(c);
  }
  return classes;
}

(async () => {
  const all = [].concat(...list.map(x => x.files));
  const program = ts.createProgram(all, { module: ts.ModuleKind.ESNext, moduleResolution: ts.ModuleResolutionKind.Bundler, target: ts.ScriptTarget.ESNext, lib: ["lib.dom.d.ts", "lib.esnext.d.ts"],
    strict: true, noImplicitAny: false, noEmit: true, types: [], skipLibCheck: true });
  const errors = {};
  for (const d of ts.getPreEmitDiagnostics(program)) { const f = d.file ? d.file.fileName : ""; (errors[f] = errors[f] || []).push(text(d)); }
  const out = [];
  for (const x of list) {
    const o = { errors: [].concat(errors[""] || [], ...x.files.map(f => errors[f] || [])), classes: [] };
    if (x.client) try { o.classes = await client(x.client); } catch (e) { o.errors.push("running " + x.client + ": " + e); }
    out.push(o);
  }
  fs.writeFileSync(process.argv[4], JSON.stringify(out));
})().catch(e => { console.error(e); process.exit(2); });
