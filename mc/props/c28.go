package props

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/parser"
	"github.com/markbates/pkger/pkging/mem"

	goparser "go/parser"
	"go/token"

	"verif.local/mc/fsx"
	"verif.local/mc/kit"
)

// Library prints what the library says in this directory, in the form of the commands: parse, path, info. It runs in a process of its own,
// since the library remembers what the go command said.
func Library(args []string) error {
	enc := json.NewEncoder(os.Stdout)
	switch args[0] {
	case "parse":
		m := map[string]parser.Decls{}
		for _, a := range args[1:] {
			in, err := here.Package(a)
			if a == "." {
				in, err = here.Dir(a)
			}
			if err != nil {
				return err
			}
			if m[a], err = parser.Parse(in); err != nil {
				return err
			}
		}
		return enc.Encode(m)
	case "path":
		m := map[string]here.Path{}
		for _, a := range args[1:] {
			p, err := pkger.Parse(a)
			if err != nil {
				return err
			}
			m[a] = p
		}
		return enc.Encode(m)
	}
	return fmt.Errorf("what?")
}

// reportCase is a module, and how the command is run in it.
type reportCase struct {
	Shape    string   `json:"shape"`
	Decls    []dcl    `json:"decls"`
	Includes []string `json:"includes,omitempty"`
	Out      string   `json:"out,omitempty"`
	Cwd      string   `json:"cwd,omitempty"`
	Old      bool     `json:"old_output,omitempty"`
	Bad      []string `json:"bad,omitempty"` // arguments that are an error
	Root     string   `json:"dir,omitempty"` // name of the module's directory
}

// moduleShapes are kinds of modules: where the declarations are, and the entries besides the data.
var moduleShapes = map[string]struct {
	at   []string // files that get the declarations in turn
	pkg  map[string]string
	more map[string]string
}{
	"main":     {[]string{"main.go"}, map[string]string{"main.go": "main"}, nil},
	"noroot":   {[]string{"cmd/tool/main.go", "internal/x/x.go"}, map[string]string{"cmd/tool/main.go": "main", "internal/x/x.go": "x"}, nil},
	"excluded": {[]string{"gen.go", "lib/lib.go"}, map[string]string{"gen.go": "main", "lib/lib.go": "lib"}, map[string]string{"gen.go": neverBuilt}},
	"library":  {[]string{"lib.go", "lib2.go", "cmd/tool/main.go", "deep/er/x.go", "lib_test.go"}, map[string]string{"lib.go": "lib", "lib2.go": "lib", "cmd/tool/main.go": "main", "deep/er/x.go": "er", "lib_test.go": "lib_test"}, nil},
}

var reportShapes = []string{"main", "noroot", "excluded", "library"}

func (rc reportCase) dir() string {
	if rc.Root == "" {
		return "app"
	}
	return rc.Root
}

// tidyMod are go.mod and go.sum as every run leaves them.
var tidyMod = [2]string{realModule(fsx.Main, fsx.Ext+"=../ext"), ""}

func tidied(c *kit.Ctx) {
	tidyMod[1] = goSum()
	root := filepath.Join(c.Work, "tidy")
	plant(root, reportCase{Shape: "main"}.files())
	for i := 0; i < 2; i++ {
		if r := tool(root+"/app", "list"); r.code != 0 {
			panic("harness: " + r.String())
		}
	}
	for i, n := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(root, "app", n))
		if err != nil {
			panic(err)
		}
		tidyMod[i] = string(b)
	}
}

// files is the whole tree, with the modules in app and ext.
func (rc reportCase) files() map[string]string {
	a := rc.dir() + "/"
	m := map[string]string{
		a + "go.mod":         tidyMod[0],
		a + "go.sum":         tidyMod[1],
		a + "uses/uses.go":   "package uses\n\nimport (\n\t_ \"github.com/markbates/pkger\"\n\t_ \"" + fsx.Ext + "\"\n)\n",
		a + "a.txt":          "content of a",
		a + "a.txt.bak":      "another a",
		a + "di/x.txt":       "x",
		a + "dir/b.txt":      "b",
		a + "dir/in/c.txt":   "",
		a + "dir/in/d e.txt": "\x00\xff",
		a + "dir/empty/":     "",
		a + "sub/x.go":       "package subpkg\n",
		a + "plain/p.txt":    "p",
		a + "my-dir/q.txt":   "q",
		a + "2 type/r.txt":   "r",
		a + "type/s.txt":     "s",
		"ext/go.mod":         "module " + fsx.Ext + "\n\ngo 1.13\n",
		"ext/ext.go":         "package ext\n",
		"ext/e.txt":          "of another module",
		"ext/edir/f.txt":     "f",
	}
	sh := moduleShapes[rc.Shape]
	bodies := make([][]string, len(sh.at))
	for i, d := range rc.Decls {
		bodies[i%len(sh.at)] = append(bodies[i%len(sh.at)], call(d.K, fmt.Sprintf("%q", d.V)))
	}
	for i, f := range sh.at {
		src := source(sh.pkg[f], nil, bodies[i])
		if sh.pkg[f] == "main" && !strings.Contains(src, "func main()") {
			src += "\nfunc main() {}\n"
		}
		m[a+f] = sh.more[f] + src
	}
	return m
}

type reported struct {
	rc   reportCase
	root string
	dir  string
}

func (r *reported) abs(v string) string {
	pkg, name := denote(v)
	if pkg == fsx.Ext {
		return filepath.Join(r.root, "ext", name)
	}
	if pkg == fsx.Main {
		return filepath.Join(r.dir, name)
	}
	return ""
}

// want is what the declarations and includes denote: locations that must be listed, the created ones, and whether something is missing.
func (r *reported) want() (must map[string]bool, made []string, missing string) {
	must = map[string]bool{}
	ds := append([]dcl{}, r.rc.Decls...)
	for _, i := range r.rc.Includes {
		ds = append(ds, dcl{"Include", i})
	}
	for _, d := range ds {
		if d.K == "Create" || d.K == "MkdirAll" {
			made = append(made, r.abs(d.V))
		}
	}
	for _, d := range ds {
		if d.K == "Create" || d.K == "MkdirAll" {
			continue
		}
		a := r.abs(d.V)
		if _, err := os.Stat(a); err != nil {
			ok := false
			for _, m := range made {
				ok = ok || m == a
			}
			if !ok {
				missing = d.V
			}
			continue
		}
		filepath.Walk(a, func(p string, i os.FileInfo, err error) error {
			if err != nil {
				panic(err)
			}
			must[p] = true
			return nil
		})
	}
	return
}

func (r *reported) name(abs string) string {
	if beneath(abs, r.dir) {
		return fsx.Main + ":" + strings.TrimPrefix(abs+"/", r.dir)
	}
	return fsx.Ext + ":" + strings.TrimPrefix(abs+"/", filepath.Join(r.root, "ext"))
}

func trimName(s string) string {
	if t := strings.TrimSuffix(s, "/"); !strings.HasSuffix(t, ":") {
		return t
	}
	return s
}

func changes(was, now map[string]string, ignore ...string) (out []string) {
	for p, s := range was {
		if t, ok := now[p]; !ok {
			out = append(out, p+" is gone")
		} else if s != t {
			out = append(out, p+" changed")
		}
	}
	for p := range now {
		if _, ok := was[p]; !ok {
			out = append(out, p+" appeared")
		}
	}
	var rest []string
	for _, o := range out {
		skip := false
		for _, i := range ignore {
			skip = skip || strings.HasPrefix(o, i+" ")
		}
		if !skip {
			rest = append(rest, o)
		}
	}
	sort.Strings(rest)
	return rest
}

// run judges the reports and the pack of a case.
func (rc reportCase) run(c *kit.Ctx, root string) error {
	os.RemoveAll(root)
	plant(root, rc.files())
	r := &reported{rc: rc, root: root, dir: filepath.Join(root, rc.dir())}
	cwd := filepath.Join(r.dir, rc.Cwd)
	must, made, missing := r.want()
	may := func(p string) bool {
		for _, m := range made {
			if beneath(p, m) || beneath(m, p) && p != r.dir {
				return true
			}
		}
		return false
	}
	out := filepath.Join(r.dir, rc.Out, "pkged.go")
	args := []string{}
	for _, i := range rc.Includes {
		args = append(args, "-include", i)
	}
	gomod := []string{rc.dir() + "/go.mod", rc.dir() + "/go.sum"}
	listed := must
	if len(rc.Bad) == 0 && (rc.Out == "" || c.Thorough()) {
		was := snapshot(root)
		plain := tool(cwd, append([]string{"list"}, args...)...)
		js := tool(cwd, append([]string{"list", "-json"}, args...)...)
		if ch := changes(was, snapshot(root), gomod...); len(ch) > 0 {
			return fmt.Errorf("listing changes files: %v", ch)
		}
		if missing != "" {
			if plain.code == 0 || js.code == 0 {
				return fmt.Errorf("%s does not exist, but list says: %s / %s", missing, plain, js)
			}
			c.Outcome("list", "error")
		} else {
			if plain.code != 0 || js.code != 0 {
				return fmt.Errorf("list: %s / %s", plain, js)
			}
			names := map[string]bool{}
			lines := strings.Split(strings.TrimSuffix(plain.out, "\n"), "\n")
			if len(lines) == 0 {
				return fmt.Errorf("list prints nothing")
			}
			for _, l := range lines[1:] {
				n, ok := strings.CutPrefix(l, " > ")
				if !ok {
					return fmt.Errorf("list prints %q", l)
				}
				if names[n] {
					return fmt.Errorf("list names %s twice", n)
				}
				names[n] = true
			}
			var j struct {
				ImportPath string
				Files      []*parser.File
			}
			if err := json.Unmarshal([]byte(js.out), &j); err != nil {
				return fmt.Errorf("list -json prints %.200q: %v", js.out, err)
			}
			if j.ImportPath != strings.TrimSpace(lines[0]) {
				return fmt.Errorf("list: import path %q, in JSON %q", lines[0], j.ImportPath)
			}
			listed = map[string]bool{}
			for _, f := range j.Files {
				if listed[f.Abs] {
					return fmt.Errorf("list -json names %s twice", f.Abs)
				}
				listed[f.Abs] = true
				if n := trimName(r.name(f.Abs)); f.Path.String() != n || !names[n] {
					return fmt.Errorf("list -json: %s is %s, and in plain form %v", f.Abs, f.Path, names[n])
				}
				if !must[f.Abs] && !may(f.Abs) {
					return fmt.Errorf("list names %s, which is not declared", f.Abs)
				}
			}
			if len(names) != len(listed) {
				return fmt.Errorf("list: %d names, in JSON %d", len(names), len(listed))
			}
			for m := range must {
				if !listed[m] && !may(m) {
					return fmt.Errorf("list does not name %s", m)
				}
			}
			c.Outcome("list", fmt.Sprint(len(listed)/5*5, "+"))
		}
		if len(rc.Includes) == 0 || c.Thorough() {
			if err := rc.reports(c, cwd, r); err != nil {
				return err
			}
		}
	}
	if _, err := os.Stat(filepath.Dir(out)); rc.Old && err == nil {
		plant(filepath.Dir(out), map[string]string{"pkged.go": "package " + outPackage(rc) + "\n\n// from before\n"})
	}
	was := snapshot(root)
	if rc.Out != "" {
		args = append([]string{"-o", rc.Out}, args...)
	}
	p := tool(cwd, append(args, rc.Bad...)...)
	_, derr := os.Stat(filepath.Dir(out))
	now := snapshot(root)
	o, _ := filepath.Rel(root, out)
	if missing != "" || len(rc.Bad) > 0 || derr != nil {
		c.Outcome("pack", "error")
		if p.code == 0 {
			return fmt.Errorf("missing %q, arguments %v, output directory %v, but packing says: %s", missing, rc.Bad, derr, p)
		}
		if strings.TrimSpace(p.err) == "" {
			return fmt.Errorf("the failing pack says nothing")
		}
		if ch := changes(was, now, append(gomod, o)...); len(ch) > 0 {
			return fmt.Errorf("the failing pack leaves: %v", ch)
		}
		if s, ok := now[o]; ok && !strings.Contains(s, "from before") {
			return fmt.Errorf("the failing pack leaves output: %.100q", s)
		}
		return nil
	}
	if p.code != 0 {
		return fmt.Errorf("pack: %s", p)
	}
	c.Traces.Add(1)
	if ch := changes(was, now, append(gomod, o)...); len(ch) > 0 {
		return fmt.Errorf("the pack leaves: %v", ch)
	}
	b, err := os.ReadFile(out)
	if err != nil {
		return fmt.Errorf("no output: %v", err)
	}
	f, err := goparser.ParseFile(token.NewFileSet(), out, b, 0)
	if err != nil {
		return fmt.Errorf("the output is no Go file: %v", err)
	}
	if want := outPackage(rc); want != "" && f.Name.Name != want {
		return fmt.Errorf("the output is in package %s, want %s", f.Name.Name, want)
	}
	c.Outcome("package", f.Name.Name)
	lit, err := literal(b)
	if err != nil {
		return err
	}
	fs, err := mem.UnmarshalEmbed([]byte(lit))
	if err != nil {
		return fmt.Errorf("the output can not be loaded: %v", err)
	}
	for a := range listed {
		n := trimName(r.name(a))
		if base := filepath.Base(a); base == "go.mod" || base == "go.sum" {
			continue
		}
		if may(a) {
			continue
		}
		i, err := os.Stat(a)
		if err != nil {
			return err
		}
		if i.IsDir() { // times change when the output is written into it
			st, err := fs.Stat(n)
			if err != nil || !st.IsDir() {
				return fmt.Errorf("%s is listed, but not packed: %v", n, err)
			}
			continue
		}
		if err := sameFile(fs, n, a); err != nil {
			return err
		}
	}
	n := 0
	for _, pkg := range []string{fsx.Main, fsx.Ext} {
		err := fs.Walk(pkg+":/", func(p string, i os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			n++
			if a := r.abs(p); !listed[a] && !may(a) {
				return fmt.Errorf("%s is packed, but not listed", p)
			}
			return nil
		})
		if err != nil && !os.IsNotExist(err) {
			return err
		}
	}
	c.Transitions.Add(int64(n))
	return nil
}

// outPackage is the name of the package of the output directory.
func outPackage(rc reportCase) string {
	switch rc.Out {
	case "":
		switch rc.Shape {
		case "main":
			return "main"
		case "library":
			return "lib"
		}
	case "sub":
		return "subpkg"
	case "plain", "dir", "dir/in":
		return filepath.Base(rc.Out)
	case "cmd/tool":
		return "main"
	case "./uses/", "uses":
		return "uses"
	}
	return ""
}

// reports compares parse and path with the library.
func (rc reportCase) reports(c *kit.Ctx, cwd string, r *reported) error {
	self, _ := os.Executable()
	args := [][]string{{"parse", "."}, {"parse", fsx.Main + "/uses"}, {"path", "/a.txt", fsx.Ext + ":/e.txt", "x.txt", "/dir/../b", fsx.Main + ":/sub"}}
	if rc.Cwd != "" {
		args = args[:1]
	}
	for _, a := range args {
		got := tool(cwd, a...)
		want := runIn(cwd, nil, append([]string{self, "--library"}, a...)...)
		if (got.code == 0) != (want.code == 0) {
			return fmt.Errorf("%v: %s, but the library %s", a, got, want)
		}
		if want.code != 0 {
			c.Outcome(a[0], "error")
			continue
		}
		var g, w map[string]any
		if err := json.Unmarshal([]byte(got.out), &g); err != nil {
			return fmt.Errorf("%v prints %.200q: %v", a, got.out, err)
		}
		if err := json.Unmarshal([]byte(want.out), &w); err != nil {
			return err
		}
		unordered(g)
		unordered(w)
		if !reflect.DeepEqual(g, w) {
			return fmt.Errorf("%v: %.600s, but the library %.600s", a, got.out, want.out)
		}
		if a[0] == "parse" && a[1] == "." && rc.Cwd == "" {
			ds, _ := g["."].([]any)
			if len(ds) != len(rc.Decls) {
				return fmt.Errorf("parse names %d of %d declarations", len(ds), len(rc.Decls))
			}
			seen := map[string]int{}
			for _, d := range ds {
				m, _ := d.(map[string]any)
				seen[fmt.Sprint(m["type"], " ", m["value"])]++
			}
			for _, d := range rc.Decls {
				k := "pkger." + d.K + " " + d.V
				if seen[k] == 0 {
					return fmt.Errorf("parse does not name %s: %v", k, seen)
				}
				seen[k]--
			}
			for _, d := range ds {
				if err := rc.located(d, r); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

// located checks the file and the position of a reported declaration.
func (rc reportCase) located(d any, r *reported) error {
	b, err := json.Marshal(d)
	if err != nil {
		return err
	}
	var j struct {
		Value string `json:"value"`
		File  struct {
			Abs  string
			Path here.Path
		} `json:"file"`
		Pos token.Position `json:"pos"`
	}
	if err := json.Unmarshal(b, &j); err != nil {
		return fmt.Errorf("parse reports %s: %v", b, err)
	}
	pkg, name := denote(j.Value)
	if j.File.Abs != r.abs(j.Value) || j.File.Path != (here.Path{Pkg: pkg, Name: name}) {
		return fmt.Errorf("parse: %s is said to denote %s, %v", j.Value, j.File.Abs, j.File.Path)
	}
	src, err := os.ReadFile(j.Pos.Filename)
	if err != nil || !beneath(j.Pos.Filename, r.dir) || j.Pos.Offset < 0 || j.Pos.Offset > len(src) {
		return fmt.Errorf("parse: %s is said to be at %v: %v", j.Value, j.Pos, err)
	}
	before := string(src[:j.Pos.Offset])
	if !strings.HasPrefix(string(src[j.Pos.Offset:]), fmt.Sprintf("%q", j.Value)) || j.Pos.Line != 1+strings.Count(before, "\n") || j.Pos.Column != len(before)-strings.LastIndex(before, "\n") {
		return fmt.Errorf("parse: %s is not at %v", j.Value, j.Pos)
	}
	return nil
}

// unordered sorts the lists: the order of declarations of several files means nothing.
func unordered(m map[string]any) {
	for _, v := range m {
		if l, ok := v.([]any); ok {
			text := func(i int) string { b, _ := json.Marshal(l[i]); return string(b) }
			sort.Slice(l, func(a, b int) bool { return text(a) < text(b) })
		}
	}
}

func reportCases(c *kit.Ctx) (out []reportCase) {
	sets := [][]dcl{
		nil,
		{{"Include", "/a.txt"}},
		{{"Walk", "/dir"}, {"Open", "/dir/b.txt"}},
		{{"Open", fsx.Ext + ":/e.txt"}, {"Stat", "/dir/in"}, {"Include", fsx.Main + ":/a.txt"}},
		{{"Include", "/"}},
		{{"Create", "/made/x.txt"}, {"MkdirAll", "/dir/new"}, {"Open", "/made/x.txt"}, {"Dir", "/dir"}},
		{{"Dir", fsx.Ext + ":/edir"}, {"Stat", "/a.txt"}, {"Open", "/a.txt"}, {"Walk", "/a.txt"}, {"Include", "/dir/in"}, {"Include", "/2 type/r.txt"}},
		{{"Open", "/missing.txt"}},
		{{"Include", "/a.txt"}, {"Walk", fsx.Ext + ":/nothing"}},
	}
	incs := [][]string{nil, {"/a.txt"}, {"/dir"}, {fsx.Ext + ":/edir"}, {"/dir/in", "/a.txt", "/dir/in", "/plain/p.txt", fsx.Ext + ":/e.txt"}, {fsx.Main + ":/plain/p.txt"}, {"/"}, {"/none"}, {"/a.txt", "/dir/none"}}
	near := []string{"/dir", "/dir/in", "/di", "/a.txt", "/a.txt.bak", "/"} // the texts begin with each other
	for _, a := range near {
		for _, b := range near {
			if a != b && a != "/" {
				out = append(out, reportCase{Shape: "main", Includes: []string{a, b}})
			}
		}
	}
	out = append(out, reportCase{Shape: "main", Includes: []string{"/di/x.txt", "/dir/b.txt", "/dir/in/c.txt", "/dir/in/d e.txt", "/sub", "/plain", "/my-dir/q.txt", "/2 type", "/type", "/a.txt", "/a.txt.bak", fsx.Ext + ":/e.txt", fsx.Ext + ":/edir"}})
	for _, s := range reportShapes {
		for i, d := range sets {
			for j, n := range incs {
				// each with each; in the quick tier only one of the two is special
				if !c.Thorough() && i > 1 && j > 1 && ((i+j)%3 != 0 || s != "main") {
					continue
				}
				out = append(out, reportCase{Shape: s, Decls: d, Includes: n, Old: (i+j)%2 == 1})
			}
		}
		outs := []string{"", "sub", "plain", "dir", "dir/in", "uses", "./uses/", "cmd/tool", "nowhere", "my-dir", "2 type", "type"}
		for _, o := range outs {
			for _, cwd := range []string{"", "dir", "sub"} {
				for k, set := range [][]dcl{sets[2], sets[3], sets[4], sets[7]} {
					if !c.Thorough() && (k != 1 && (cwd != "" || s != "main") || cwd == "sub" || cwd != "" && s != "main") {
						continue
					}
					out = append(out, reportCase{Shape: s, Decls: set, Out: o, Cwd: cwd, Old: k == 1 && o != "nowhere"})
				}
			}
		}
		for _, bad := range [][]string{{"nonsense"}, {"lists"}, {"-nonsense"}, {"-include"}, {"/a.txt"}, {"pack"}, {"-o", "nowhere/at/all"}, {"-include", "example.com/unknown:/x.txt"}, {"-include", "/missing"}, {"-include", "a.txt"}, {"-include", fsx.Ext + ":/missing"}} {
			if c.Thorough() || s == "main" {
				out = append(out, reportCase{Shape: s, Decls: sets[1], Bad: bad})
			}
			out = append(out, reportCase{Shape: s, Decls: sets[1], Bad: bad, Old: true})
		}
		for _, root := range []string{"my-app", "func", "7up", "with blank", "a.b"} {
			out = append(out, reportCase{Shape: s, Decls: sets[3], Root: root})
		}
	}
	return
}

// C28 is the command-line tool's reports.
func C28() *kit.Prop {
	return &kit.Prop{ID: "C28", Level: "model_checking",
		Rule: "module shapes (package in the root, none, an excluded one, a library with sub-packages and tests; directory names that are no identifiers) x declaration sets x includes x output directories x working directories x an older output or none x failing inputs; in each the real command lists in both forms, reports declarations and paths, and packs; lists are compared with a walk of the disk and with each other, reports with the library in a process of its own, and the output (place, package, content) with the list and a snapshot of the tree",
		Run: func(c *kit.Ctx) {
			toolEnv(c)
			tidied(c)
			cs := reportCases(c)
			c.Set("cases", len(cs))
			var mu sync.Mutex
			n := 0
			c.Par(len(cs), func(i, w int) {
				if c.Expired() {
					return
				}
				rc := cs[i]
				c.States.Add(1)
				c.Check(int64(i), fmt.Sprintf("%+v", rc), rc, func() error {
					c.Beat()
					return rc.run(c, filepath.Join(c.Work, "m"+itoa(w)))
				})
				mu.Lock()
				n++
				mu.Unlock()
				if i%61 == 7 && c.WantSample() {
					c.Sample(rc)
				}
			})
			c.Set("modules_run", n)
		},
		Replay: func(c *kit.Ctx, raw json.RawMessage) error {
			var rc reportCase
			if err := json.Unmarshal(raw, &rc); err != nil {
				return err
			}
			toolEnv(c)
			tidied(c)
			return rc.run(c, filepath.Join(c.Work, "m"))
		}}
}
