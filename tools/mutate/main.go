// mutate lists small source changes of a Go file as JSON lines: {"line","what","start","end","text"} (byte offsets).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

func main() {
	file := os.Args[1]
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	out := json.NewEncoder(os.Stdout)
	emit := func(what string, a, b token.Pos, text string) {
		out.Encode(map[string]any{"line": fset.Position(a).Line, "what": what, "start": off(a), "end": off(b), "text": text})
	}
	str := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	del := func(n ast.Stmt, what string) { emit("delete "+what, n.Pos(), n.End(), "") }
	ops := map[token.Token]string{token.EQL: "!=", token.NEQ: "==", token.LSS: "<=", token.GTR: ">=", token.LEQ: "<", token.GEQ: ">",
		token.LAND: "||", token.LOR: "&&", token.ADD: "-", token.SUB: "+", token.QUO: "*", token.MUL: "/"}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.IfStmt:
			emit("negate if", n.Cond.Pos(), n.Cond.End(), "!("+str(n.Cond)+")")
			emit("if false", n.Cond.Pos(), n.Cond.End(), "false && ("+str(n.Cond)+")")
			emit("if true", n.Cond.Pos(), n.Cond.End(), "true || ("+str(n.Cond)+")")
		case *ast.BinaryExpr:
			if o, ok := ops[n.Op]; ok {
				emit(n.Op.String()+" to "+o, n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o)
			}
			if n.Op == token.LAND || n.Op == token.LOR {
				emit("only left operand", n.Pos(), n.End(), str(n.X))
				emit("only right operand", n.Pos(), n.End(), str(n.Y))
			}
		case *ast.ExprStmt:
			del(n, "call")
		case *ast.AssignStmt:
			if n.Tok != token.DEFINE {
				del(n, "assignment")
			}
		case *ast.IncDecStmt:
			del(n, "inc/dec")
		case *ast.DeferStmt:
			del(n, "defer")
		case *ast.BranchStmt:
			del(n, "branch")
		case *ast.ReturnStmt:
			if len(n.Results) == 0 {
				del(n, "return")
			}
		case *ast.CaseClause:
			if len(n.List) > 1 {
				for i := range n.List[1:] {
					emit("drop case value", n.List[i].End(), n.List[i+1].End(), "")
				}
			}
			for _, s := range n.Body {
				_ = s
			}
			if len(n.Body) > 0 {
				emit("empty case", n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "")
			}
		case *ast.BasicLit:
			switch n.Kind {
			case token.STRING:
				if s, err := strconv.Unquote(n.Value); err == nil {
					emit("string changed", n.Pos(), n.End(), strconv.Quote(s+"x"))
					if s != "" {
						emit("string emptied", n.Pos(), n.End(), `""`)
					}
				}
			case token.INT:
				emit("int+1", n.Pos(), n.End(), "("+n.Value+"+1)")
			}
		case *ast.Ident:
			if n.Name == "true" {
				emit("true to false", n.Pos(), n.End(), "false")
			} else if n.Name == "false" {
				emit("false to true", n.Pos(), n.End(), "true")
			}
		case *ast.SliceExpr:
			if n.Low != nil {
				emit("drop low", n.Low.Pos(), n.Low.End(), "")
			}
		case *ast.RangeStmt:
			emit("empty range body", n.Body.Lbrace+1, n.Body.Rbrace, "")
		case *ast.UnaryExpr:
			if n.Op == token.NOT {
				emit("drop !", n.OpPos, n.OpPos+1, "")
			}
		case *ast.KeyValueExpr:
			emit("drop field "+fmt.Sprint(str(n.Key)), n.Pos(), n.End(), "")
		}
		return true
	})
}
