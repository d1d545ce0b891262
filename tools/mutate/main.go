// Command mutate lists mutants of Go files, one JSON object a line: {"file","from","to","new","op"} in byte offsets.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
)

type mutant struct {
	File     string `json:"file"`
	From, To int
	New      string `json:"new"`
	Op       string `json:"op"`
	Line     int    `json:"line"`
}

func main() {
	out := json.NewEncoder(os.Stdout)
	out.SetEscapeHTML(false)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		put := func(n ast.Node, s, op string) {
			if text(n) != s {
				out.Encode(mutant{name, off(n.Pos()), off(n.End()), s, op, fs.Position(n.Pos()).Line})
			}
		}
		swap := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
			token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.AND: {"|"}, token.OR: {"&"}}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BinaryExpr:
				for _, o := range swap[x.Op] {
					p := off(x.OpPos)
					out.Encode(mutant{name, p, p + len(x.Op.String()), o, "operator", fs.Position(x.Pos()).Line})
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					put(x, text(x.X), "left only")
					put(x, text(x.Y), "right only")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					put(x, text(x.X), "not")
				}
			case *ast.IfStmt:
				put(x.Cond, "("+text(x.Cond)+") && false", "never")
				put(x.Cond, "("+text(x.Cond)+") || true", "always")
				if x.Else != nil {
					put(x.Else, "{}", "no else")
				}
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.BranchStmt:
				put(x, "", "delete")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					put(x, "", "delete")
				}
			case *ast.ReturnStmt:
				if len(x.Results) > 0 {
					l := x.Results[len(x.Results)-1]
					if id, ok := l.(*ast.Ident); !ok || id.Name != "nil" {
						put(l, "nil", "return nil")
					}
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					put(x, x.Value+"+1", "int")
					put(x, "("+x.Value+"-1)", "int")
				case token.STRING:
					if len(x.Value) > 2 {
						put(x, `""`, "string")
					} else {
						put(x, `"x"`, "string")
					}
				}
			case *ast.CallExpr:
				for i, a := range x.Args {
					if i < 2 {
						put(x, text(a), "unwrap")
					}
				}
				if len(x.Args) == 2 {
					out.Encode(mutant{name, off(x.Args[0].Pos()), off(x.Args[1].End()), text(x.Args[1]) + ", " + text(x.Args[0]), "swap", fs.Position(x.Pos()).Line})
				}
			case *ast.RangeStmt:
				put(x.X, text(x.X)+"[:0]", "no iteration")
			case *ast.KeyValueExpr:
				put(x, "", "no field")
			}
			return true
		})
	}
	fmt.Fprintln(os.Stderr, "done")
}
