package instr

import (
	"go/ast"
	"go/token"
)

// purity knows which statements of a package touch nothing but local variables. No point is needed before those: they
// commute with everything that other goroutines do.
type purity struct {
	globals map[string]bool // package-level variables
	funcs   map[string]bool // functions (not methods) whose bodies are pure
}

// standard functions that only look at their arguments
var pureCalls = map[string]map[string]bool{
	"strings":  nil,
	"path":     nil,
	"errors":   nil,
	"filepath": {"Dir": true, "Base": true, "Join": true, "Clean": true, "ToSlash": true, "FromSlash": true, "Ext": true},
}

// fields of plain values (here.Path); they are never assigned through a pointer
var plainFields = map[string]bool{"Pkg": true, "Name": true}

var builtins = map[string]bool{"len": true, "cap": true, "string": true, "int": true, "int64": true, "make": true, "new": true, "min": true, "max": true}

func newPurity(files []*ast.File) *purity {
	p := &purity{globals: map[string]bool{}, funcs: map[string]bool{}}
	bodies := map[string]*ast.BlockStmt{}
	for _, f := range files {
		goes := false
		ast.Inspect(f, func(n ast.Node) bool {
			if _, ok := n.(*ast.GoStmt); ok {
				goes = true
			}
			return true
		})
		if goes {
			return nil // locals may be shared
		}
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.GenDecl:
				if x.Tok == token.VAR {
					for _, s := range x.Specs {
						for _, id := range s.(*ast.ValueSpec).Names {
							p.globals[id.Name] = true
						}
					}
				}
			case *ast.FuncDecl:
				if x.Recv == nil && x.Body != nil {
					bodies[x.Name.Name] = x.Body
					p.funcs[x.Name.Name] = true
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for n, b := range bodies {
			if p.funcs[n] && !p.body(b) {
				delete(p.funcs, n)
				changed = true
			}
		}
	}
	return p
}

func (p *purity) body(b *ast.BlockStmt) bool {
	ok := true
	ast.Inspect(b, func(n ast.Node) bool {
		if s, is := n.(ast.Stmt); is && !p.stmt(s) {
			ok = false
		}
		return ok
	})
	return ok
}

// stmt tells whether the statement itself, without the statements in it, is pure.
func (p *purity) stmt(s ast.Stmt) bool {
	if p == nil {
		return false
	}
	switch x := s.(type) {
	case nil:
		return true
	case *ast.BlockStmt, *ast.BranchStmt, *ast.EmptyStmt, *ast.CommClause:
		return true
	case *ast.LabeledStmt:
		return p.stmt(x.Stmt)
	case *ast.ExprStmt:
		return p.expr(x.X)
	case *ast.AssignStmt:
		for _, l := range x.Lhs {
			if id, ok := l.(*ast.Ident); !ok || p.globals[id.Name] && x.Tok != token.DEFINE {
				return false
			}
		}
		return p.exprs(x.Rhs)
	case *ast.IncDecStmt:
		id, ok := x.X.(*ast.Ident)
		return ok && !p.globals[id.Name]
	case *ast.IfStmt:
		return p.stmt(x.Init) && p.expr(x.Cond)
	case *ast.ForStmt:
		return p.stmt(x.Init) && (x.Cond == nil || p.expr(x.Cond)) && p.stmt(x.Post)
	case *ast.RangeStmt:
		return p.expr(x.X)
	case *ast.SwitchStmt:
		if !p.stmt(x.Init) || x.Tag != nil && !p.expr(x.Tag) {
			return false
		}
		for _, c := range x.Body.List {
			if !p.exprs(c.(*ast.CaseClause).List) {
				return false
			}
		}
		return true
	case *ast.CaseClause:
		return true
	case *ast.ReturnStmt:
		return p.exprs(x.Results)
	case *ast.DeclStmt:
		for _, s := range x.Decl.(*ast.GenDecl).Specs {
			if v, ok := s.(*ast.ValueSpec); ok && !p.exprs(v.Values) {
				return false
			}
		}
		return true
	}
	return false
}

func (p *purity) exprs(es []ast.Expr) bool {
	for _, e := range es {
		if !p.expr(e) {
			return false
		}
	}
	return true
}

func (p *purity) expr(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.BasicLit, *ast.FuncLit, *ast.ArrayType, *ast.MapType, *ast.StructType, *ast.InterfaceType, *ast.FuncType:
		return true
	case *ast.Ident:
		return !p.globals[x.Name]
	case *ast.ParenExpr:
		return p.expr(x.X)
	case *ast.UnaryExpr:
		return x.Op != token.ARROW && x.Op != token.AND && p.expr(x.X) || x.Op == token.AND && isComposite(x.X) && p.expr(x.X)
	case *ast.BinaryExpr:
		return p.expr(x.X) && p.expr(x.Y)
	case *ast.KeyValueExpr:
		return p.expr(x.Value)
	case *ast.CompositeLit:
		return p.exprs(x.Elts)
	case *ast.SelectorExpr:
		id, ok := x.X.(*ast.Ident)
		return ok && !p.globals[id.Name] && (plainFields[x.Sel.Name] || isPackage(id) && x.Sel.Name[:1] != "_")
	case *ast.IndexExpr:
		id, ok := x.X.(*ast.Ident)
		return ok && !p.globals[id.Name] && p.expr(x.Index)
	case *ast.CallExpr:
		if !p.exprs(x.Args) {
			return false
		}
		switch f := x.Fun.(type) {
		case *ast.Ident:
			return builtins[f.Name] || p.funcs[f.Name]
		case *ast.SelectorExpr:
			id, ok := f.X.(*ast.Ident)
			if !ok || !isPackage(id) {
				return false
			}
			fs, ok := pureCalls[id.Name]
			return ok && (fs == nil || fs[f.Sel.Name])
		}
	}
	return false
}

func isComposite(e ast.Expr) bool {
	_, ok := e.(*ast.CompositeLit)
	return ok
}

// isPackage tells whether the name is that of an imported package: it is declared nowhere in the file.
func isPackage(id *ast.Ident) bool {
	if id.Obj != nil {
		return false
	}
	switch id.Name {
	case "os", "io", "time", "filepath", "strings", "path", "errors", "here", "pkging", "embed", "json", "fmt", "http":
		return true
	}
	return false
}
