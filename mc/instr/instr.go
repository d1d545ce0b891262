// Package instr rewrites Go packages for package sched: a scheduling point before every statement, package vsync in place
// of sync. The text is otherwise unchanged, line by line.
package instr

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	from, to int
	text     string
}

// File rewrites one file.
func File(name string, src []byte, pure *purity) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.PositionFor(p, false).Offset }
	var es []edit
	points := 0
	list := func(ss []ast.Stmt) {
		for _, s := range ss {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause: // the body of a switch is a block of clauses
				continue
			}
			if pure.stmt(s) {
				continue
			}
			es = append(es, edit{off(s.Pos()), off(s.Pos()), "mcsched.Point();"})
			points++
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.GoStmt:
			es = append(es, edit{off(x.Pos()), off(x.Call.Pos()), "mcsched.Go(func(){"}, edit{off(x.Call.End()), off(x.Call.End()), "})"})
		}
		return true
	})
	changed := points > 0
	for _, im := range f.Imports {
		if p, _ := strconv.Unquote(im.Path.Value); p == "sync" {
			t := `"verif.local/mc/vsync"`
			if im.Name == nil {
				t = "sync " + t
			}
			es = append(es, edit{off(im.Path.Pos()), off(im.Path.End()), t})
			changed = true
		}
	}
	if !changed {
		return nil, nil
	}
	at := off(f.Name.End())
	es = append(es, edit{at, at, "; import mcsched \"verif.local/mc/sched\""})
	sort.SliceStable(es, func(i, j int) bool { return es[i].from < es[j].from })
	var w strings.Builder
	at = 0
	for _, e := range es {
		if e.from < at {
			return nil, fmt.Errorf("%s: overlapping edits", name)
		}
		w.Write(src[at:e.from])
		w.WriteString(e.text)
		at = e.to
	}
	w.Write(src[at:])
	w.WriteString("\n\nvar _ = mcsched.Point\n")
	return []byte(w.String()), nil
}

// Overlay rewrites the packages in the directories (relative to repo) into out, and writes out/overlay.json for go build.
// Without directories, it takes all packages that run in a program.
func Overlay(repo, out string, dirs []string) error {
	if len(dirs) == 0 {
		err := filepath.Walk(repo, func(p string, i os.FileInfo, err error) error {
			if err != nil || !i.IsDir() {
				return err
			}
			rel, err := filepath.Rel(repo, p)
			if err != nil {
				return err
			}
			switch base := filepath.Base(p); {
			case rel == ".":
			case rel == "cmd" || rel == "examples" || rel == "parser" || rel == "here" || rel == "pkging/pkgtest" || rel == "pkging/pkgutil",
				base == "testdata" || base == "vendor" || base[0] == '.' || base[0] == '_':
				return filepath.SkipDir
			}
			dirs = append(dirs, rel)
			return nil
		})
		if err != nil {
			return err
		}
	}
	rep := map[string]string{}
	for _, d := range dirs {
		names, err := filepath.Glob(filepath.Join(repo, d, "*.go"))
		if err != nil {
			return err
		}
		var files []*ast.File
		for _, n := range names {
			if strings.HasSuffix(n, "_test.go") {
				continue
			}
			f, err := parser.ParseFile(token.NewFileSet(), n, nil, 0)
			if err != nil {
				return err
			}
			files = append(files, f)
		}
		pure := newPurity(files)
		for _, n := range names {
			if strings.HasSuffix(n, "_test.go") {
				continue
			}
			src, err := os.ReadFile(n)
			if err != nil {
				return err
			}
			b, err := File(n, src, pure)
			if err != nil {
				return err
			}
			if b == nil {
				continue
			}
			to := filepath.Join(out, strings.ReplaceAll(filepath.Join(d, filepath.Base(n)), "/", "__"))
			if err := os.WriteFile(to, b, 0644); err != nil {
				return err
			}
			rep[n] = to
		}
	}
	if err := reset(repo, out, rep); err != nil {
		return err
	}
	b, err := json.Marshal(map[string]any{"Replace": rep})
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(out, "overlay.json"), b, 0644)
}

// reset adds a file to the root package that can restore its variables.
func reset(repo, out string, rep map[string]string) error {
	fset := token.NewFileSet()
	names, err := filepath.Glob(filepath.Join(repo, "*.go"))
	if err != nil {
		return err
	}
	var vars []string
	pkg := ""
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fset, n, nil, 0)
		if err != nil {
			return err
		}
		pkg = f.Name.Name
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				for _, id := range s.(*ast.ValueSpec).Names {
					if id.Name != "_" {
						vars = append(vars, id.Name)
					}
				}
			}
		}
	}
	var w strings.Builder
	fmt.Fprintf(&w, "package %s\n\nimport mcsched \"verif.local/mc/sched\"\n\nfunc init() {\n", pkg)
	for _, v := range vars {
		fmt.Fprintf(&w, "\tmcsched.Keep(&%s)\n", v)
	}
	fmt.Fprintf(&w, "}\n")
	to := filepath.Join(out, "mcreset.go")
	rep[filepath.Join(repo, "mcreset.go")] = to
	return os.WriteFile(to, []byte(w.String()), 0644)
}
