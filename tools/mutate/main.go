// Command mutate lists small changes of Go files: one JSON object per line {file, off, old, new, line, kind}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

func main() {
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			continue
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			continue
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		enc := json.NewEncoder(os.Stdout)
		emit := func(kind string, a, b token.Pos, repl string) {
			x, y := off(a), off(b)
			enc.Encode(map[string]any{"file": f, "off": x, "old": string(src[x:y]), "new": repl, "line": fs.Position(a).Line, "kind": kind})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		ops := map[token.Token][]string{
			token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
			token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.AND: {"|"}, token.SHL: {">>"}, token.SHR: {"<<"},
		}
		ast.Inspect(af, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				return x.Tok != token.IMPORT
			case *ast.BinaryExpr:
				for _, o := range ops[x.Op] {
					emit("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o)
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						emit("int", x.Pos(), x.End(), fmt.Sprint(v+1))
						if v > 0 {
							emit("int", x.Pos(), x.End(), fmt.Sprint(v-1))
						}
					}
				case token.CHAR:
					emit("char", x.Pos(), x.End(), "'~'")
				}
			case *ast.IfStmt:
				emit("if-true", x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true")
				emit("if-false", x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false")
			case *ast.BlockStmt:
				for _, s := range x.List {
					switch y := s.(type) {
					case *ast.ExprStmt, *ast.DeferStmt, *ast.IncDecStmt:
						emit("drop", s.Pos(), s.End(), "{}")
					case *ast.AssignStmt:
						if y.Tok != token.DEFINE {
							emit("drop", s.Pos(), s.End(), "{}")
						}
					case *ast.BranchStmt:
						emit("drop", s.Pos(), s.End(), "{}")
					}
				}
			case *ast.CaseClause:
				if len(x.Body) > 0 {
					emit("drop-case", x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "{}")
				}
			case *ast.Ident:
				switch x.Name {
				case "true":
					emit("bool", x.Pos(), x.End(), "false")
				case "false":
					emit("bool", x.Pos(), x.End(), "true")
				}
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.SelectorExpr); ok && (id.Sel.Name == "Clip" || id.Sel.Name == "Clone" || id.Sel.Name == "Resolve") {
					if len(x.Args) == 1 {
						emit("unwrap", x.Pos(), x.End(), text(x.Args[0]))
					} else if len(x.Args) == 0 {
						emit("unwrap", x.Pos(), x.End(), text(id.X))
					}
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 1 {
					if id, ok := x.Results[0].(*ast.Ident); ok && id.Name == "err" {
						emit("noerr", x.Results[0].Pos(), x.Results[0].End(), "nil")
					}
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit("not", x.OpPos, x.OpPos+1, "")
				}
			}
			return true
		})
	}
}
