package props

import (
	"encoding/json"
	"fmt"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/parser"

	"verif.local/mc/fsx"
	"verif.local/mc/kit"
)

// want is a declaration that must be reported.
type want struct {
	Kind  string `json:"kind"`
	Value string `json:"value"`
	File  string `json:"file"` // source file below the module
	Text  string `json:"text"` // the call
	Pkg   string `json:"pkg"`
	Name  string `json:"name"`
}

// program is a set of source files (below the module directory) with the declarations in them.
type program struct {
	Files map[string]string `json:"files"`
	Want  []want            `json:"want"`
	Root  string            `json:"root,omitempty"` // directory name of the module
}

var declKinds = []string{"Open", "Stat", "Walk", "Dir", "Include", "Create", "MkdirAll"}

// call writes a declaring call.
func call(kind, arg string) string {
	switch kind {
	case "Walk":
		return "pkger.Walk(" + arg + ", nil)"
	case "MkdirAll":
		return "pkger.MkdirAll(" + arg + ", 0755)"
	}
	return "pkger." + kind + "(" + arg + ")"
}

// argForm is a way to write the path. E is the expression, Top and Local are constants it needs.
type argForm struct {
	Name, E, Top, Local, Val string
}

func argForms(v string) []argForm {
	q := fmt.Sprintf("%q", v)
	var esc strings.Builder
	for _, b := range []byte(v) {
		fmt.Fprintf(&esc, "\\x%02x", b)
	}
	return []argForm{
		{"literal", q, "", "", v},
		{"raw literal", "`" + v + "`", "", "", v},
		{"escaped literal", `"` + esc.String() + `"`, "", "", v},
		{"constant", "kPath", "const kPath = " + q, "", v},
		{"typed constant", "kPath", "const kPath string = " + q, "", v},
		{"raw constant", "kPath", "const kPath = `" + v + "`", "", v},
		{"constant in a group", "kPath", "const (\n\tkOther = \"/wrong\"\n\tkPath = " + q + "\n\tkLast = \"/wrong2\"\n)", "", v},
		{"first of two names", "kPath", "const kPath, kOther = " + q + ", \"/wrong\"", "", v},
		{"second of two names", "kPath", "const kOther, kPath = \"/wrong\", " + q, "", v},
		{"third of three names", "kPath", "const kA, kB, kPath = \"/wrong\", \"/wrong2\", " + q, "", v},
		{"local constant", "kPath", "", "const kPath = " + q, v},
		{"local constant that shadows", "kPath", "const kPath = \"/wrong\"", "const kPath = " + q, v},
		{"constant of a constant", "kPath", "const kBase = " + q + "\nconst kPath = kBase", "", v},
		{"constant of a constant of a constant", "kPath", "const kPath = kMid\nconst kMid = kBase\nconst kBase = " + q, "", v},
	}
}

// context is a syntactic position. Top-level ones stand outside of functions. $E is the expression, $L local constants.
type context struct {
	Name, T string
	Top     bool
}

var contexts = []context{
	{"statement", "$E", false},
	{"assignment", "x = $E", false},
	{"definition", "x, err := $E\n_, _ = x, err", false},
	{"second of two values", "x, y = 1, $E", false},
	{"operator assignment", "x += $E", false},
	{"local variable", "var x = $E", false},
	{"local variable group", "var (\n\ta = 1\n\tb = $E\n)", false},
	{"if initialiser", "if _, err := $E; err != nil {\n}", false},
	{"if condition", "if $E == nil {\n}", false},
	{"if body", "if true {\n\t$E\n}", false},
	{"else body", "if true {\n} else {\n\t$E\n}", false},
	{"else if", "if true {\n} else if $E == nil {\n}", false},
	{"for initialiser", "for i := $E; ; {\n}", false},
	{"for condition", "for $E {\n}", false},
	{"for post", "for ; ; x = $E {\n}", false},
	{"for body", "for {\n\t$E\n}", false},
	{"range expression", "for range $E {\n}", false},
	{"range body", "for _, v := range vs {\n\t_ = $E\n}", false},
	{"switch tag", "switch $E {\n}", false},
	{"switch initialiser", "switch x := $E; x {\n}", false},
	{"case", "switch {\ncase $E == nil:\n}", false},
	{"case body", "switch {\ncase true:\n\t$E\n}", false},
	{"default body", "switch {\ndefault:\n\t$E\n}", false},
	{"type switch", "switch x := interface{}($E).(type) {\ncase int:\n\t_ = x\n}", false},
	{"type switch body", "switch x.(type) {\ncase int:\n\t$E\n}", false},
	{"select send", "select {\ncase ch <- $E:\n}", false},
	{"select body", "select {\ncase <-ch:\n\t$E\ndefault:\n}", false},
	{"send", "ch <- $E", false},
	{"receive", "<-f($E)", false},
	{"defer", "defer $E", false},
	{"deferred function", "defer func() {\n\t$E\n}()", false},
	{"go", "go $E", false},
	{"go function", "go func(x int) {\n\t$E\n}(1)", false},
	{"return", "return $E", false},
	{"second returned", "return nil, $E", false},
	{"function literal", "f := func() interface{} {\n\treturn $E\n}\n_ = f", false},
	{"literal in literal", "f := func() func() {\n\treturn func() {\n\t\t$E\n\t}\n}\n_ = f", false},
	{"block", "{\n\t{\n\t\t$E\n\t}\n}", false},
	{"label", "loop:\n\tfor {\n\t\t$E\n\t\tbreak loop\n\t}", false},
	{"argument", "f($E)", false},
	{"last argument", "f(1, \"/no\", $E)", false},
	{"spread argument", "f(1, $E...)", false},
	{"argument of an argument", "f(g(h($E)))", false},
	{"argument of another package", "http.Handle(\"/no\", http.FileServer($E))", false},
	{"argument of another function of the package", "pkger.Remove($E)", false},
	{"called method", "x = $E.Close()", false},
	{"called method with argument", "x = $E.Open(\"/no\")", false},
	{"field", "x = $E.Field", false},
	{"chain", "$E.A().B(1).C(\"/no\")", false},
	{"parentheses", "x = (($E))", false},
	{"unary", "x = !$E", false},
	{"dereference", "x = *$E", false},
	{"address", "x = &T{$E}", false},
	{"left of a binary", "x = $E + 1", false},
	{"right of a binary", "x = 1 + (2 * $E)", false},
	{"right of and", "x = a && $E == nil || b", false},
	{"index", "x = m[$E]", false},
	{"indexed", "x = $E[0]", false},
	{"slice bound", "x = s[1:$E]", false},
	{"sliced", "x = $E[1:2]", false},
	{"three-index slice", "x = s[1:2:$E]", false},
	{"conversion", "x = string($E)", false},
	{"type assertion", "x = interface{}($E).(string)", false},
	{"slice literal", "x = []string{\"/no\", $E}", false},
	{"array literal key", "x = [...]string{2: $E}", false},
	{"map value", "x = map[string]interface{}{\"/no\": $E}", false},
	{"map key", "x = map[interface{}]int{$E: 1}", false},
	{"struct literal", "x = T{1, $E}", false},
	{"struct field", "x = T{A: 1, B: $E}", false},
	{"nested literal", "x = []T{{A: []interface{}{$E}}}", false},
	{"left side", "m[$E] = 1", false},
	{"increment", "m[$E]++", false},
	{"local constant", "const n = len($E)", false},
	{"array length", "var a [len($E)]int", false},
	{"make", "x = make([]int, $E)", false},
	{"generic call", "x = f[int, string]($E)", false},
	{"local function type", "type t struct{ a [len($E)]int }", false},
	{"several lines", "x = f(\n\t1,\n\t$E,\n)", false},
	{"one line with others", "a(); $E; b()", false},
	{"after a comment", "/* pkger.Open(\"/no\") */ x = $E // pkger.Open(\"/no\")", false},
	{"after a string", "_ = \"pkger.Open(\\\"/no\\\")\"; x = $E", false},
	{"package variable", "var v = $E", true},
	{"second package variable", "var v, w = 1, $E", true},
	{"package variable group", "var (\n\ta int\n\tv = $E\n)", true},
	{"blank package variable", "var _ = $E", true},
	{"package variable of a literal", "var v = []interface{}{map[string]interface{}{\"k\": $E}}", true},
	{"package function variable", "var v = func() interface{} {\n\treturn $E\n}", true},
	{"called package function", "var v = func() interface{} { return $E }()", true},
	{"package constant", "const n = len($E)", true},
	{"package array type", "type t [len($E)]int", true},
	{"method", "type T struct{}\n\nfunc (t *T) M() {\n\t$L\n\t$E\n}", true},
	{"init", "func init() {\n\t$L\n\t$E\n}", true},
	{"second init", "func init() {}\n\nfunc init() {\n\t$L\n\t$E\n}", true},
	{"named result", "func r() (x interface{}, err error) {\n\t$L\n\tx, err = $E\n\treturn\n}", true},
	{"generic function", "func gen[T any](t T) {\n\t$L\n\t$E\n}", true},
	{"generic method", "type G[T any] struct{}\n\nfunc (g G[T]) M() {\n\t$L\n\t_ = $E\n}", true},
	{"function after a declaration without body", "func asm(int) int\n\nfunc last() {\n\t$L\n\t$E\n}", true},
}

// source puts pieces together. Each piece is a context with its expression.
func source(pkg string, tops []string, bodies []string) string {
	var w strings.Builder
	fmt.Fprintf(&w, "package %s\n\nimport (\n\t\"net/http\"\n\n\t\"github.com/markbates/pkger\"\n)\n\n", pkg)
	for _, t := range tops {
		w.WriteString(t + "\n\n")
	}
	for i, b := range bodies {
		fmt.Fprintf(&w, "func body%d() {\n\t%s\n}\n\n", i, strings.ReplaceAll(b, "\n", "\n\t"))
	}
	w.WriteString("var _ = http.ErrAbortHandler\n")
	return w.String()
}

// place writes one declaration in a context; ok is false if they do not go together.
func place(cx context, a argForm, e string) (top, body string, ok bool) {
	t := strings.ReplaceAll(cx.T, "$E", e)
	if cx.Top {
		if a.Local != "" && !strings.Contains(t, "$L") {
			return "", "", false
		}
		return a.Top + "\n\n" + strings.ReplaceAll(t, "$L", a.Local), "", true
	}
	if a.Local != "" {
		t = a.Local + "\n" + t
	}
	return a.Top, t, true
}

// denote tells the package and name a path value denotes.
func denote(v string) (string, string) {
	v = strings.ReplaceAll(v, "\\", "/")
	if g, n, ok := strings.Cut(v, ":/"); ok {
		if g == "" {
			g = fsx.Main
		}
		return g, path.Clean("/" + n)
	}
	return fsx.Main, path.Clean("/" + v)
}

func mkWant(kind, value, file, text string) want {
	g, n := denote(value)
	return want{kind, value, file, text, g, n}
}

// progSkel is the module programs are written into.
func progSkel(c *kit.Ctx, root string, more ...string) *skel {
	base := map[string]string{}
	if root == "" {
		root = "app"
	}
	r := "src/" + root
	top := filepath.Join(c.Work, "skel")
	base[r+"/go.mod"] = strings.Replace(goMod(fsx.Main, fsx.Ext+"="+top+"/ext"), "../pkger", top+"/pkger", 1)
	base[r+"/main.go"] = "package main\n\nfunc main() {}\n"
	base["ext/go.mod"] = "module " + fsx.Ext + "\n\ngo 1.13\n"
	base["ext/ext.go"] = "package ext\n"
	for _, d := range goDirs {
		base[r+"/"+d+"/x.go"] = "package x\n"
	}
	base[r+"/plain/readme.txt"] = "no Go files here"
	base[r+"/tagged/x.go"] = neverBuilt + "package x\n"
	base[r+"/two/a.go"] = "package a\n"
	base[r+"/two/b.go"] = "package b\n"
	base[r+"/three/a.go"] = "package a\n"
	base[r+"/three/b.go"] = "package b\n"
	base[r+"/three/c.go"] = "package c\n"
	base[r+"/dir.go/x.go"] = "package x\n"
	for _, d := range more {
		base[r+"/"+d+"/x.go"] = "package x\n"
	}
	s := newSkel(c, r, base)
	c.Beat()
	return s
}

// neverBuilt keeps a file out of every build.
const neverBuilt = "//go:build never\n\n"

// goDirs are the sub-directories of the program module that hold Go files.
var goDirs = []string{"sub", "sub/deep", "internal/x", "plain/go"}

type declJSON struct {
	Type  string `json:"type"`
	Value string `json:"value"`
	File  *struct {
		Abs  string
		Path here.Path
	} `json:"file"`
}

// judge compares what the parser reports with what must be reported.
func (s *skel) judge(decls parser.Decls, files map[string]string, ws []want) error {
	dirs := map[string]string{fsx.Main: s.dir, fsx.Ext: filepath.Join(s.root, "ext")}
	left := append([]want{}, ws...)
	for _, d := range decls {
		b, err := json.Marshal(d)
		if err != nil {
			return err
		}
		var j declJSON
		if err := json.Unmarshal(b, &j); err != nil {
			return err
		}
		v, err := d.Value()
		if err != nil || v != j.Value {
			return fmt.Errorf("%s has the value %q, %v", b, v, err)
		}
		f, err := d.File()
		if err != nil {
			return fmt.Errorf("%s has no file: %v", b, err)
		}
		pos, err := d.Position()
		if err != nil {
			return err
		}
		if j.File == nil || j.File.Abs != f.Abs || j.File.Path != f.Path {
			return fmt.Errorf("%s: its file is %s %v", b, f.Abs, f.Path)
		}
		found := -1
		for i, w := range left {
			if "pkger."+w.Kind != j.Type || w.Value != v || filepath.Join(s.dir, w.File) != pos.Filename {
				continue
			}
			src := files[w.File]
			at := strings.Index(src, w.Text)
			if pos.Offset < at || pos.Offset >= at+len(w.Text) {
				continue
			}
			found = i
			if line := 1 + strings.Count(src[:pos.Offset], "\n"); pos.Line != line {
				return fmt.Errorf("%s is said to be in line %d, not %d", b, pos.Line, line)
			}
			if f.Path.Pkg != w.Pkg || f.Path.Name != w.Name || f.Abs != filepath.Join(dirs[w.Pkg], w.Name) {
				return fmt.Errorf("%s in %s denotes %s = %v, want %s:%s", w.Text, w.File, f.Abs, f.Path, w.Pkg, w.Name)
			}
			break
		}
		if found < 0 {
			return fmt.Errorf("reported, but not (or no more) declared: %s at %v", b, pos)
		}
		left = append(left[:found], left[found+1:]...)
	}
	if len(left) > 0 {
		return fmt.Errorf("declared, but not reported: %s in %s", left[0].Text, left[0].File)
	}
	return nil
}

// runProgram parses one program.
func (s *skel) runProgram(c *kit.Ctx, p program) error {
	more := map[string]string{}
	for f, src := range p.Files {
		more[s.rel(f)] = src
	}
	s.sync(more)
	decls, err := parser.Parse(s.info)
	if err != nil {
		return fmt.Errorf("Parse: %v", err)
	}
	c.Traces.Add(1)
	if err := s.judge(decls, p.Files, p.Want); err != nil {
		return err
	}
	return s.otherWays(decls, p)
}

// otherWays asks in the other ways the parser offers: a parser of its own, asked again and by kind, and file by file.
func (s *skel) otherWays(decls parser.Decls, p program) error {
	all := declText(decls)
	pr, err := parser.New(s.info)
	if err != nil {
		return err
	}
	for i := 0; i < 2; i++ {
		m, err := pr.DeclsMap()
		if err != nil {
			return fmt.Errorf("DeclsMap: %v", err)
		}
		var l parser.Decls
		for k, ds := range m {
			for _, d := range ds {
				if t := declText(parser.Decls{d}); !strings.Contains(t, `"type":"pkger.`+k+`"`) {
					return fmt.Errorf("among the declarations of kind %s is %s", k, t)
				}
			}
			l = append(l, ds...)
		}
		if got := declText(l); got != all {
			return fmt.Errorf("DeclsMap gives %.300s, but Parse %.300s", got, all)
		}
		if l, err = pr.Decls(); err != nil || declText(l) != all {
			return fmt.Errorf("asked again: %.300s, %v, but Parse %.300s", declText(l), err, all)
		}
	}
	for f := range p.Files {
		if ignored(path.Dir(f)) {
			continue
		}
		src, err := pr.ParseFile(filepath.Join(s.dir, f), 0)
		if err != nil {
			return fmt.Errorf("ParseFile %s: %v", f, err)
		}
		m, err := src.DeclsMap()
		if err != nil {
			return fmt.Errorf("declarations of %s: %v", f, err)
		}
		var l, of parser.Decls
		for _, ds := range m {
			l = append(l, ds...)
		}
		for _, d := range decls {
			if pos, err := d.Position(); err == nil && pos.Filename == filepath.Join(s.dir, f) {
				of = append(of, d)
			}
		}
		if got, w := declText(l), declText(of); got != w {
			return fmt.Errorf("%s alone: %.300s, but Parse %.300s", f, got, w)
		}
	}
	return nil
}

// declText is what a set of declarations says, in some fixed order.
func declText(ds parser.Decls) string {
	var t []string
	for _, d := range ds {
		b, err := json.Marshal(d)
		if err != nil {
			return err.Error()
		}
		t = append(t, string(b))
	}
	sort.Strings(t)
	return strings.Join(t, "\n")
}

var values = []string{"/f.txt", "/dir/sub/file.html", ":/f.txt", fsx.Main + ":/f.txt", fsx.Ext + ":/e.txt", "/", "/../up.txt", "/with space.txt", "/dir/", "//x//y", "/é.txt", `/a\b.txt`}

// singles are all programs with one declaration.
func singles(c *kit.Ctx) (out []program) {
	add := func(kind string, a argForm, cx context, file string) {
		e := call(kind, a.E)
		top, body, ok := place(cx, a, e)
		if !ok {
			return
		}
		pkg := "x"
		if !strings.Contains(file, "/") {
			pkg = "main"
		}
		if strings.HasSuffix(file, "_test.go") {
			pkg += "_test"
		}
		var bodies []string
		if body != "" {
			bodies = []string{body}
		}
		src := source(pkg, []string{top}, bodies)
		if !strings.Contains(file, "/") && file == "main.go" {
			src += "\nfunc main() {}\n"
		}
		if strings.HasPrefix(file, "tagged/") {
			src = neverBuilt + src
		}
		out = append(out, program{Files: map[string]string{file: src}, Want: []want{mkWant(kind, a.Val, file, e)}})
		if ai := a.Name; ai == "literal" && !strings.Contains(e, "\n") && kind == "Open" {
			for _, alt := range []string{strings.ReplaceAll(src, "\n", "\r\n"), "\ufeff" + src, strings.TrimSpace(src), "// Copyright\n\n/* x */\n" + src} {
				out = append(out, program{Files: map[string]string{file: alt}, Want: []want{mkWant(kind, a.Val, file, e)}})
			}
		}
	}
	for ki, k := range declKinds {
		for _, cx := range contexts {
			for ai, a := range argForms("/f.txt") {
				if !c.Thorough() && ai > 0 && (ai+ki)%4 != 0 && cx.Name != "statement" && cx.Name != "init" {
					continue
				}
				add(k, a, cx, "main.go")
			}
		}
		for _, v := range values {
			for ai, a := range argForms(v) {
				if strings.Contains(v, `\`) && a.Name != "literal" {
					continue
				}
				if ai < 4 || c.Thorough() {
					add(k, a, contexts[1], "main.go")
				}
			}
		}
		for _, f := range []string{"other.go", "z_linux.go", "z_windows.go", "main_test.go", "sub/x.go", "sub/y.go", "sub/deep/x.go", "internal/x/x.go", "plain/go/x.go", "sub/y_test.go", "tagged/x.go", "two/a.go", "two/b.go", "three/a.go", "three/b.go", "three/c.go", "dir.go/x.go", "dir.go/y.go"} {
			for _, cx := range []context{contexts[0], contexts[30], contexts[81], contexts[85]} {
				for _, a := range argForms("/f.txt")[:4] {
					add(k, a, cx, f)
				}
			}
		}
	}
	return
}

// pairs are programs with two declarations: in every two contexts of one file, nested, and across files.
func pairs(c *kit.Ctx) (out []program) {
	n := 0
	for i, cx := range contexts {
		for j, cy := range contexts {
			if !c.Thorough() && (i*7+j)%3 != 0 {
				continue
			}
			k1, k2 := declKinds[n%7], declKinds[(n/7)%7]
			n++
			e1, e2 := call(k1, `"/one"`), call(k2, `"/two"`)
			ex := strings.ReplaceAll(strings.ReplaceAll(cx.T, "$E", e1), "$L", "")
			ey := strings.ReplaceAll(strings.ReplaceAll(cy.T, "$E", e2), "$L", "")
			ws := []want{mkWant(k1, "/one", "other.go", e1), mkWant(k2, "/two", "other.go", e2)}
			var tops, bodies []string
			if cx.Top {
				tops = append(tops, ex)
			} else {
				bodies = append(bodies, ex)
			}
			if cy.Top {
				tops = append(tops, ey)
			} else {
				bodies = append(bodies, ey)
			}
			out = append(out, program{Files: map[string]string{"other.go": source("main", tops, bodies)}, Want: ws})
		}
	}
	// nested
	for _, k := range declKinds {
		in := call(k, `"/in"`)
		for _, outer := range []string{
			"pkger.Walk(\"/out\", func(p string, i os.FileInfo, err error) error {\n\t%s\n\treturn nil\n})",
			"pkger.MkdirAll(\"/out\", perm(%s))",
			"pkger.Walk(\"/out\", visit(1, %s))",
			"pkger.Open(\"/out\", %s)",
		} {
			e := fmt.Sprintf(outer, in)
			kind := strings.TrimPrefix(e[:strings.Index(e, "(")], "pkger.")
			for _, cx := range contexts {
				if !c.Thorough() && len(cx.Name)%3 != 0 && cx.Name != "statement" {
					continue
				}
				x := strings.ReplaceAll(strings.ReplaceAll(cx.T, "$E", e), "$L", "")
				ws := []want{mkWant(kind, "/out", "sub/y.go", `"/out"`), mkWant(k, "/in", "sub/y.go", in)}
				pr := program{Want: ws}
				if cx.Top {
					pr.Files = map[string]string{"sub/y.go": source("x", []string{x}, nil)}
				} else {
					pr.Files = map[string]string{"sub/y.go": source("x", nil, []string{x})}
				}
				out = append(out, pr)
			}
		}
	}
	// the same path declared twice, in one file and in two
	for _, k1 := range declKinds {
		for _, k2 := range declKinds {
			for _, f1 := range []string{"main.go", "sub/x.go", "plain/go/x.go"} {
				for _, f2 := range []string{"other.go", "sub/y.go", "sub/deep/x.go"} {
					e1, e2 := "  "+call(k1, `"/same"`), call(k2, "`/same`")
					mk := func(f, e string) string {
						if strings.Contains(f, "/") {
							return source("x", nil, []string{e})
						}
						s := source("main", nil, []string{e})
						if f == "main.go" {
							s += "\nfunc main() {}\n"
						}
						return s
					}
					out = append(out, program{Files: map[string]string{f1: mk(f1, e1), f2: mk(f2, e2)}, Want: []want{mkWant(k1, "/same", f1, e1), mkWant(k2, "/same", f2, e2)}})
				}
			}
		}
	}
	return
}

// nothing are programs whose calls are no declarations.
func nothing() (out []program) {
	for _, e := range []string{`other.Open("/no")`, `Open("/no")`, `pkger.Remove("/no")`, `pkger.RemoveAll("/no")`, `pkger.Parse("/no")`, `pkger.Info("no")`, `pkger.Current()`, `pkger.open("/no")`, `pkger.OPEN("/no")`, `pkger.Opener("/no")`, `xpkger.Open("/no")`, `pkgerx.Open("/no")`, `x.pkger.Open("/no")`, `pkger.x.Open("/no")`, `pkger.New().Open("/no")`, `f(pkger.Open, "/no")`, `pkger.Apply(nil, nil)`, `Pkger.Open("/no")`, `os.Open("/no")`} {
		for _, cx := range contexts {
			x := strings.ReplaceAll(strings.ReplaceAll(cx.T, "$E", e), "$L", "")
			if cx.Top {
				out = append(out, program{Files: map[string]string{"other.go": source("main", []string{x}, nil)}})
			} else {
				out = append(out, program{Files: map[string]string{"other.go": source("main", nil, []string{x})}})
			}
		}
	}
	return
}

// bulky are programs beyond whatever somebody may think enough: large sources, many declarations, files and directories, deep nesting; and files of peculiar names.
func bulky() (out []program) {
	file := func(n int) string { return fmt.Sprintf("/n/%d.txt", n) }
	one := func(f, src string, ws []want) {
		out = append(out, program{Files: map[string]string{f: src}, Want: ws})
	}
	for _, f := range []string{"other.go", "sub/y.go"} {
		pkg := "main"
		if f != "other.go" {
			pkg = "x"
		}
		e := call("Open", `"/f.txt"`)
		ws := []want{mkWant("Open", "/f.txt", f, e)}
		for _, size := range []int{1 << 16, 1 << 20, 1<<20 + 1, 3 << 20} { // far down, and far up
			pad := "// " + strings.Repeat(strings.Repeat("comment ", 16)+"\n// ", size/131+1) + "\n"
			one(f, source(pkg, []string{pad}, []string{e}), ws)
			one(f, source(pkg, nil, []string{e})+pad, ws)
		}
		one(f, source(pkg, []string{"var long = \"" + strings.Repeat("x", 1<<17) + "\""}, []string{e}), ws)
		for _, n := range []int{100, 300, 1100, 4500} {
			var bodies, tops []string
			var w1, w2, w3 []want
			for i := 0; i < n; i++ {
				k := declKinds[i%7]
				e := call(k, fmt.Sprintf("%q", file(i)))
				bodies = append(bodies, e)
				tops = append(tops, fmt.Sprintf("var _, _ = pkger.Open(%q)", file(i)))
				w1 = append(w1, mkWant(k, file(i), f, e))
				w2 = append(w2, mkWant("Open", file(i), f, fmt.Sprintf("pkger.Open(%q)", file(i))))
				w3 = append(w3, mkWant("Include", file(i), f, fmt.Sprintf("pkger.Include(%q)", file(i))))
			}
			one(f, source(pkg, nil, bodies), w1)
			one(f, source(pkg, nil, []string{strings.Join(bodies, "\n")}), w1)
			one(f, source(pkg, tops, nil), w2)
			in := "vars := []string{\n"
			for i := 0; i < n; i++ {
				in += fmt.Sprintf("pkger.Include(%q),\n", file(i))
			}
			one(f, source(pkg, nil, []string{in + "}\n_ = vars"}), w3)
		}
		for _, n := range []int{10, 40, 150} {
			e := call("Open", `"/f.txt"`)
			for _, around := range [][2]string{{"{\n", "\n}"}, {"if true {\n", "\n}"}, {"func() {\n", "\n}()"}, {"go func() {\nfor {\n", "\n}\n}()"}} {
				one(f, source(pkg, nil, []string{strings.Repeat(around[0], n) + e + strings.Repeat(around[1], n)}), ws)
			}
			one(f, source(pkg, nil, []string{"_ = " + strings.Repeat("f(1, ", n) + "pkger.Include(\"/f.txt\")" + strings.Repeat(")", n)}), []want{mkWant("Include", "/f.txt", f, `pkger.Include("/f.txt")`)})
			var w []want
			at := ""
			for i := 0; i < n; i++ {
				at += fmt.Sprintf("pkger.MkdirAll(%q, f(", file(i))
				w = append(w, mkWant("MkdirAll", file(i), f, fmt.Sprintf("pkger.MkdirAll(%q", file(i))))
			}
			one(f, source(pkg, nil, []string{at + "0" + strings.Repeat("))", n)}), w)
			deep := strings.Repeat("/directory", n) + "/f.txt"
			e = call("Stat", fmt.Sprintf("%q", deep))
			one(f, source(pkg, nil, []string{e}), []want{mkWant("Stat", deep, f, e)})
		}
	}
	for _, n := range []int{60, 300, 1200} { // many files
		p := program{Files: map[string]string{}}
		for i := 0; i < n; i++ {
			k := declKinds[i%7]
			f := fmt.Sprintf("sub/f%d.go", i)
			e := call(k, fmt.Sprintf("%q", file(i)))
			p.Files[f] = strings.ReplaceAll(source("x", nil, []string{e}), "body0", fmt.Sprint("body_", i))
			p.Want = append(p.Want, mkWant(k, file(i), f, e))
		}
		out = append(out, p)
	}
	p := program{Files: map[string]string{}}
	for i, d := range bulkyDirs() {
		k := declKinds[i%7]
		e := call(k, fmt.Sprintf("%q", file(i)))
		p.Files[d+"/x.go"] = source("x", nil, []string{e})
		p.Want = append(p.Want, mkWant(k, file(i), d+"/x.go", e))
	}
	out = append(out, p)
	for _, n := range []string{"x.pb.go", "zz_generated.go", "zz_generated.deepcopy.go", "doc.go", "mock_x.go", "mocks.go", "x.gen.go", "x_gen.go", "bindata.go", "x_string.go", "embed.go", "pkger.go", "my_pkged.go", "pkged2.go", "apkged.go", "a-b.go", "A.go", "x.y.z.go", "0.go", "with space.go", "é.go", "x_test.go.go", "test.go", "tests.go", "main_linux_amd64.go", "x_plan9.go", "x_js_wasm.go", "x_cgo.go", strings.Repeat("n", 250) + ".go", "go.go", ".go.go"} {
		if strings.HasPrefix(n, ".") {
			continue
		}
		for _, head := range []string{"", "// Code generated by hand. DO NOT EDIT.\n\n", "// +build ignore\n\n", "//go:build tools\n\n", "/*\nPackage x is one.\n*/\n"} {
			for i, d := range []string{"", "sub/"} {
				pkg := []string{"main", "x"}[i]
				e := call("Include", `"/f.txt"`)
				one(d+n, head+source(pkg, nil, []string{e}), []want{mkWant("Include", "/f.txt", d+n, e)})
			}
		}
	}
	return
}

// bulkyDirs are source directories: a deep chain, and many beside each other.
func bulkyDirs() (out []string) {
	at := "far"
	for i := 0; i < 25; i++ {
		at += "/down"
		out = append(out, at)
	}
	for i := 0; i < 40; i++ {
		out = append(out, fmt.Sprint("beside/d", i))
	}
	return
}

func runPrograms(c *kit.Ctx, s *skel, ps []program) {
	c.Set("programs", len(ps))
	c.Each(len(ps), func(i int) {
		p := ps[i]
		c.States.Add(1)
		c.Transitions.Add(int64(len(p.Want)))
		c.Outcome("declarations_per_program", fmt.Sprint(len(p.Want)))
		c.Check(int64(i), progKey(p), p, func() error { return s.runProgram(c, p) })
		if i%2503 == 2500 && c.WantSample() {
			c.Sample(p)
		}
	})
}

func progKey(p program) string {
	var k []string
	for f, s := range p.Files {
		k = append(k, f+"\n"+s)
	}
	sort.Strings(k)
	return strings.Join(k, "\n---\n")
}

func replayProgram(c *kit.Ctx, raw json.RawMessage) error {
	var p program
	if err := json.Unmarshal(raw, &p); err != nil {
		return err
	}
	return progSkel(c, p.Root, moreDirs()...).runProgram(c, p)
}

// C16 is finding declarations.
func C16() *kit.Prop {
	p := &kit.Prop{ID: "C16", Level: "model_checking", Shards: true,
		Rule: "all programs of a grammar - declaring function x way to write the path x syntactic context x source file, alone, in pairs of contexts, nested in each other, and across files; calls that are no declarations; sources of up to 3 MB, 4,500 declarations, 1,200 files, 25 levels of directories and 150 of syntax, and peculiar file names and headers - written into a real module and parsed by the real parser; the reported multiset of kind, value, file and position is compared with what the generator wrote"}
	p.Run = func(c *kit.Ctx) {
		s := progSkel(c, "", bulkyDirs()...)
		ps := append(append(append(singles(c), pairs(c)...), nothing()...), bulky()...)
		runPrograms(c, s, ps)
	}
	p.Replay = replayProgram
	return p
}
