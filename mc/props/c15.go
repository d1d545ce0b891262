package props

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"verif.local/mc/fsx"
	"verif.local/mc/kit"
)

// probe is a program that prints what every operation says of the paths it is given. It must print the same whether its files are
// packed or on disk.
const probe = `package main

import (
	"crypto/sha256"
	"fmt"
	"io"
	"io/ioutil"
	"net/http"
	"net/http/httptest"
	"os"
	"path"
	"sort"
	"strings"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/pkging"
USES
)

func info(i os.FileInfo) string {
	DIRS
	return fmt.Sprintf("%q %d %v %v %v", i.Name(), i.Size(), i.Mode(), i.ModTime().UTC().UnixNano(), i.IsDir())
}

func bad(err error) string {
	return fmt.Sprintf("error(missing=%v)", os.IsNotExist(err))
}

func content(r io.Reader) string {
	b, err := ioutil.ReadAll(r)
	if err != nil {
		return "unreadable"
	}
	n := len(b)
	if n > 40 {
		n = 40
	}
	return fmt.Sprintf("%d %x %q", len(b), sha256.Sum256(b), b[:n])
}

func handle(f pkging.File, p string) {
	i, err := f.Stat()
	if err != nil {
		fmt.Println(p, "fstat", bad(err))
		return
	}
	fmt.Println(p, "handle", f.Path(), info(i))
	OF
	if !i.IsDir() {
		b := make([]byte, 3)
		n, err := f.Read(b)
		fmt.Printf("%s first %d %q %v\n", p, n, b[:n], err)
		o, err := f.Seek(0, io.SeekStart)
		fmt.Println(p, "seek", o, err)
		fmt.Println(p, "content", content(f))
		return
	}
	is, err := f.Readdir(-1)
	fmt.Println(p, "entries", len(is), err)
	sort.Slice(is, func(i, j int) bool { return is[i].Name() < is[j].Name() }) // a directory on disk has an order of its own
	for _, i := range is {
		fmt.Println(p, "entry", info(i))
	}
}

func open(p string) {
	f, err := pkger.Open(p)
	if err != nil {
		fmt.Println(p, "open", bad(err))
		return
	}
	handle(f, p)
	if err := f.Close(); err != nil {
		fmt.Println(p, "close", err)
	}
}

func through(p string, names []string) {
	d := pkger.Dir(p)
	for _, n := range names {
		f, err := d.Open(n)
		if err != nil {
			fmt.Println(p, "dir", n, bad(err))
			continue
		}
		i, err := f.Stat()
		if err != nil {
			fmt.Println(p, "dir", n, "fstat", bad(err))
			continue
		}
		fmt.Println(p, "dir", n, info(i))
		if !i.IsDir() {
			fmt.Println(p, "dir", n, content(f))
		}
		f.Close()
	}
	h := http.FileServer(d)
	for _, n := range append([]string{"/", "/nothing/here"}, names...) {
		r := httptest.NewRequest("GET", "http://x/", nil)
		r.URL.Path = n
		w := httptest.NewRecorder()
		h.ServeHTTP(w, r)
		a := w.Result()
		at := a.Header.Get("Last-Modified")
		AT
		fmt.Println(p, "http", n, a.StatusCode, a.Header.Get("Content-Type"), a.Header.Get("Content-Length"), at, a.Header.Get("Location"), content(a.Body))
	}
}

func main() {
	in, err := pkger.Current()
	fmt.Println("current", in.Module.Path, in.Module.Dir, in.ImportPath, in.Name, err)
	for _, p := range os.Args[1:] {
		pt, err := pkger.Parse(p)
		fmt.Println(p, "parse", pt, err)
		mod, err := pkger.Info(pt.Pkg)
		fmt.Println(p, "info", mod.Module.Path, mod.Module.Dir, err)
		i, err := pkger.Stat(p)
		if err != nil {
			fmt.Println(p, "stat", bad(err))
		} else {
			fmt.Println(p, "stat", info(i))
		}
		open(p)
		var names []string
		err = pkger.Walk(p, func(q string, i os.FileInfo, err error) error {
			if err != nil {
				fmt.Println(p, "walk", q, bad(err))
				return err
			}
			fmt.Println(p, "walk", q, info(i))
			if j := strings.Index(q, ":"); j >= 0 {
				names = append(names, strings.TrimPrefix(path.Clean(q[j+1:]), strings.TrimSuffix(pt.Name, "/")))
			}
			return nil
		})
		if i != nil { // what walking nothing says is not claimed
			fmt.Println(p, "walk", err)
		}
		if i != nil && i.IsDir() {
			through(p, names)
			for _, n := range names {
				if n != "" {
					open(pt.Pkg + ":" + path.Join(pt.Name, n))
				}
			}
		}
	}
}
`

// packedCase is a program that is built and run with and without its files packed.
type packedCase struct {
	Shape string   `json:"shape"`
	Set   string   `json:"set"`
	Name  string   `json:"module,omitempty"` // module path
	Dir   string   `json:"dir,omitempty"`    // name of the directory
	From  string   `json:"from,omitempty"`   // working directory of the tool
	Again bool     `json:"again,omitempty"`  // packed before, with other contents
	args  []string // of the tool
}

// progShape is where the program, the declarations and the output are.
type progShape struct {
	main  string // directory of the program
	decls []string
	out   string // -o
	uses  []string
	extra map[string]string
}

var progShapes = map[string]progShape{
	"root":     {main: ".", decls: []string{"decl.go"}},
	"cmd":      {main: "cmd/tool", decls: []string{"cmd/tool/decl.go"}, out: "cmd/tool"},
	"assets":   {main: "cmd/tool", decls: []string{"internal/assets/decl.go", "store/decl.go"}, out: "internal/assets", uses: []string{"internal/assets", "store"}},
	"library":  {main: "cmd/tool", decls: []string{"decl.go", "sub/deep/decl.go"}, uses: []string{"", "sub/deep"}, extra: map[string]string{"other.go": "package lib\n"}},
	"generate": {main: ".", decls: []string{"sub/deep/decl.go"}, out: "embedded", uses: []string{"embedded", "sub/deep"}, extra: map[string]string{"embedded/doc.go": "package embedded\n"}},
}

var progOrder = []string{"root", "cmd", "assets", "library", "generate"}

// dataSets are declarations (or includes), and the paths that are asked for.
type dataSet struct {
	decls    []dcl
	includes []string
	paths    []string // asked for besides the declared ones
}

var dataSets = map[string]dataSet{
	"file":     {decls: []dcl{{"Open", "/a.txt"}}},
	"dir":      {decls: []dcl{{"Walk", "/dir"}}, paths: []string{"/dir/b.txt", "/dir/in", "/dir//in/./c.txt", "/dir/none"}},
	"empty":    {decls: []dcl{{"Include", "/empty.txt"}, {"Dir", "/dir/empty"}, {"Stat", "/dir/in/c.txt"}}},
	"other":    {decls: []dcl{{"Open", fsx.Ext + ":/e.txt"}, {"Include", fsx.Ext + ":/edir"}, {"Include", "/e.txt"}}, paths: []string{fsx.Ext + ":/edir/f.txt"}},
	"allother": {decls: []dcl{{"Dir", fsx.Ext + ":/"}}, paths: []string{fsx.Ext + ":/e.txt"}},
	"includes": {includes: []string{"/dir", "/a.txt", fsx.Ext + ":/edir"}, paths: []string{"/dir/in/d e.txt"}},
	"mixed":    {decls: []dcl{{"Include", "/a.txt"}, {"Dir", "/dir/in"}, {"Open", "/a.txt"}}, includes: []string{"/dir/in", fsx.Ext + ":/e.txt"}},
	"whole":    {decls: []dcl{{"Include", "/"}}, paths: []string{"/a.txt", "/dir", "/sp"}},
	"special":  {decls: []dcl{{"Include", "/sp"}, {"Include", "/sp/100%.txt"}, {"Include", "/big.bin"}}},
	"nested":   {decls: []dcl{{"Include", "/nested"}}, paths: []string{"/nested/n.txt"}},
	"inner":    {decls: []dcl{{"Open", nestedMod + ":/n.txt"}, {"Include", nestedMod + ":/deep"}}, paths: []string{nestedMod + ":/deep/m.txt"}},
	"layered":  {decls: []dcl{{"Include", "/a.txt"}, {"Include", "/dir"}}, paths: []string{fsx.Ext + ":/e.txt", fsx.Ext + ":/edir", "/dir/b.txt"}},
	"unused":   {paths: nil},
}

var dataOrder = []string{"file", "dir", "empty", "other", "allother", "includes", "mixed", "whole", "special", "nested", "inner", "layered", "unused"}

func (pc packedCase) module() string {
	if pc.Name == "" {
		return fsx.Main
	}
	return pc.Name
}

func (pc packedCase) dir() string {
	if pc.Dir == "" {
		return "app"
	}
	return pc.Dir
}

func allBytes() string {
	var b [256]byte
	for i := range b {
		b[i] = byte(i)
	}
	return strings.Repeat(string(b[:]), 300)
}

func pkgName(dir string) string {
	switch dir {
	case ".":
		return "lib"
	default:
		return filepath.Base(dir)
	}
}

// files is the tree, in which ext lies beside the module.
func (pc packedCase) files() map[string]string {
	a := pc.dir() + "/"
	sh, ds := progShapes[pc.Shape], dataSets[pc.Set]
	mod := pc.module()
	neighbours := []string{fsx.Ext + "=../ext"}
	if pc.Set == "nested" || pc.Set == "inner" {
		neighbours = append(neighbours, nestedMod+"=./nested")
	}
	m := map[string]string{
		a + "go.mod":         realModule(mod, neighbours...),
		a + "go.sum":         goSum(),
		a + "a.txt":          "content of a",
		a + "e.txt":          "not the other's",
		a + "empty.txt":      "",
		a + "dir/b.txt":      "b",
		a + "dir/in/c.txt":   "",
		a + "dir/in/d e.txt": "\x00\xff\xfe`'\"\\",
		a + "dir/index.html": "<p>index</p>",
		a + "dir/empty/":     "",
		a + "big.bin":        allBytes(),
		"ext/go.mod":         "module " + fsx.Ext + "\n\ngo 1.13\n",
		"ext/ext.go":         "package ext\n",
		"ext/e.txt":          "of another module",
		"ext/edir/f.txt":     "f",
		"ext/edir/sub/g.txt": "g",
	}
	for _, n := range packGroups["special"] {
		if !strings.Contains(n, ".tmp") || strings.HasSuffix(n, "/") {
			m[a+n] = bodyOf(n)
		}
	}
	if pc.Set == "nested" || pc.Set == "inner" {
		m[a+"nested/go.mod"] = "module " + nestedMod + "\n\ngo 1.13\n"
		m[a+"nested/mod.go"] = "package nested\n"
		m[a+"nested/n.txt"] = "n"
		m[a+"nested/deep/m.txt"] = "m"
	}
	if pc.Set == "layered" {
		m["ext/go.mod"] = strings.Replace(realModule(fsx.Ext), "../ext", ".", 1)
		m["ext/go.sum"] = goSum()
		m["ext/ext.go"] = "package ext\n\nimport \"github.com/markbates/pkger\"\n\nfunc init() {\n\tpkger.Include(\"/e.txt\")\n\tpkger.Include(\"/edir\")\n}\n"
	}
	uses := "\t_ \"" + fsx.Ext + "\"\n"
	if pc.Set == "nested" || pc.Set == "inner" {
		uses += "\t_ \"" + nestedMod + "\"\n"
	}
	for _, u := range sh.uses {
		uses += "\t_ \"" + strings.TrimSuffix(mod+"/"+u, "/") + "\"\n"
	}
	of, dirs, at := `in := f.Info(); fmt.Println(p, "of", in.Module.Path, in.Module.Dir)`, "", ""
	if pc.Set == "nested" { // which of the two modules a file in both belongs to is not claimed
		of = ""
	}
	if pc.Set == "whole" { // packing changes the directory that the output is in
		dirs = `if i.IsDir() { return fmt.Sprintf("%q %v", i.Name(), i.Mode()) }`
		at = `if strings.HasSuffix(n, "/") { at = "" }`
	}
	main := strings.NewReplacer("USES\n", uses, "OF\n", of+"\n", "DIRS\n", dirs+"\n", "AT\n", at+"\n").Replace(probe)
	m[a+filepath.Join(sh.main, "main.go")] = main
	for k, v := range sh.extra {
		m[a+k] = v
	}
	bodies := make([]string, len(sh.decls))
	for i, d := range ds.decls {
		b := call(d.K, fmt.Sprintf("%q", d.V))
		if d.K == "Dir" {
			b = "_ = " + b
		}
		bodies[i%len(sh.decls)] += "\t" + b + "\n"
	}
	for i, f := range sh.decls {
		dir := filepath.Dir(f)
		n := pkgName(dir)
		if dir == sh.main {
			n = "main"
		}
		m[a+f] = "package " + n + "\n\nimport \"github.com/markbates/pkger\"\n\n// Use holds the declarations.\nfunc Use() {\n" + bodies[i] + "}\n\nvar _ = pkger.Include\n"
	}
	return m
}

// paths are those the program is asked for.
func (pc packedCase) paths() []string {
	ds := dataSets[pc.Set]
	var out []string
	for _, d := range ds.decls {
		out = append(out, d.V)
	}
	out = append(out, ds.includes...)
	out = append(out, ds.paths...)
	if pc.Name != "" {
		for i, p := range out {
			out[i] = strings.Replace(p, fsx.Main, pc.Name, 1)
		}
	}
	return out
}

func diffLine(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) {
			return fmt.Sprintf("%.300q is missing", x[i])
		}
		if x[i] != y[i] {
			return fmt.Sprintf("%.400q instead of %.400q", y[i], x[i])
		}
	}
	return fmt.Sprintf("%.300q in addition", y[len(x)])
}

func (pc packedCase) run(c *kit.Ctx, root string) error {
	os.RemoveAll(root)
	src := filepath.Join(root, "src")
	sh, ds := progShapes[pc.Shape], dataSets[pc.Set]
	plant(src, pc.files())
	at := time.Unix(1500000000, 123456789)
	filepath.Walk(src, func(p string, i os.FileInfo, err error) error {
		if i.Mode().IsRegular() {
			at = at.Add(1234567891)
			os.Chtimes(p, at, at)
		}
		return nil
	})
	dir := filepath.Join(src, pc.dir())
	pack := func(dir string, cwd string, args ...string) error {
		if r := tool(filepath.Join(dir, cwd), args...); r.code != 0 {
			return fmt.Errorf("pack: %s", r)
		}
		return nil
	}
	var args []string
	if sh.out != "" {
		args = append(args, "-o", sh.out)
	}
	for _, i := range ds.includes {
		args = append(args, "-include", strings.Replace(i, fsx.Main, pc.module(), 1))
	}
	build := func(to string) error {
		r := runIn(dir, []string{"GOGC=off", "GOMAXPROCS=4"}, "go", "build", "-o", filepath.Join(root, to), "./"+sh.main)
		if r.code != 0 {
			return fmt.Errorf("build: %s", r)
		}
		return nil
	}
	if pc.Again { // an earlier output, of other contents, is in the way
		plant(dir, map[string]string{"a.txt": "older", "dir/old.txt": "gone by now"})
		if err := pack(dir, "", args...); err != nil {
			return err
		}
		os.Remove(filepath.Join(dir, "dir/old.txt"))
		plant(dir, map[string]string{"a.txt": "content of a"})
	}
	out := filepath.Join(dir, sh.out, "pkged.go")
	os.Rename(out, filepath.Join(root, "earlier"))
	if err := build("unpacked"); err != nil {
		return fmt.Errorf("harness: %v", err)
	}
	paths := pc.paths()
	want := runIn(dir, nil, append([]string{filepath.Join(root, "unpacked")}, paths...)...)
	if want.code != 0 {
		return fmt.Errorf("the unpacked program: %s", want)
	}
	if pc.From != "" {
		sub := runIn(filepath.Join(dir, pc.From), nil, append([]string{filepath.Join(root, "unpacked")}, paths...)...)
		if sub.code != 0 || sub.out != want.out {
			return fmt.Errorf("the unpacked program, started in %s: %s", pc.From, diffLine(want.out, sub.out))
		}
	}
	if pc.Again {
		os.Rename(filepath.Join(root, "earlier"), out)
	}
	if pc.Set == "layered" {
		if err := pack(filepath.Join(src, "ext"), ""); err != nil {
			return err
		}
	}
	if err := pack(dir, pc.From, args...); err != nil {
		return err
	}
	first, err := os.ReadFile(out)
	if err != nil {
		return fmt.Errorf("no output: %v", err)
	}
	if err := build("packed"); err != nil {
		return fmt.Errorf("packed: %v", err)
	}
	if pc.Set != "whole" {
		if err := pack(dir, "", args...); err != nil {
			return err
		}
		if again, err := os.ReadFile(out); err != nil || string(again) != string(first) {
			return fmt.Errorf("packing again gives %d bytes instead of %d (%v)", len(again), len(first), err)
		}
	}
	c.Beat()
	c.Transitions.Add(int64(strings.Count(want.out, "\n")))
	ask := func(when, cwd string) error {
		got := runIn(cwd, []string{"PATH=/nonexistent", "GOFLAGS=", "HOME=/nonexistent"}, append([]string{filepath.Join(root, "packed")}, paths...)...)
		if got.code != 0 {
			return fmt.Errorf("the packed program, %s: %s", when, got)
		}
		if got.out != want.out {
			return fmt.Errorf("the packed program, %s, says %s", when, diffLine(want.out, got.out))
		}
		c.Traces.Add(1)
		return nil
	}
	// other contents at the same place
	filepath.Walk(src, func(p string, i os.FileInfo, err error) error {
		if i.Mode().IsRegular() {
			os.WriteFile(p, []byte("not what was packed"), 0644)
		}
		return nil
	})
	if err := ask("with other contents in the source tree", dir); err != nil {
		return err
	}
	if err := os.RemoveAll(src); err != nil {
		return err
	}
	os.Mkdir(filepath.Join(root, "elsewhere"), 0755)
	if err := ask("without the source tree", filepath.Join(root, "elsewhere")); err != nil {
		return err
	}
	os.RemoveAll(root)
	c.Outcome("lines", fmt.Sprint(strings.Count(want.out, "\n")/20*20, "+"))
	return nil
}

func packedCases(c *kit.Ctx) (out []packedCase) {
	for i, s := range progOrder {
		for j, d := range dataOrder {
			if c.Thorough() || s == "root" || (i+j)%3 == 0 {
				out = append(out, packedCase{Shape: s, Set: d, Again: j%2 == 1})
			}
			if c.Thorough() {
				out = append(out, packedCase{Shape: s, Set: d, Again: j%2 == 0, From: "dir"})
				out = append(out, packedCase{Shape: s, Set: d, Again: j%2 == 0, Name: "example.com/some-app/v2", Dir: "my-app"})
			}
		}
		if s != "root" {
			out = append(out, packedCase{Shape: s, Set: "dir", From: "dir"}, packedCase{Shape: s, Set: "other", Name: "example.com/some-app/v2", Dir: "my-app"})
		}
	}
	return
}

// C15 is packed programs.
func C15() *kit.Prop {
	return &kit.Prop{ID: "C15", Level: "model_checking",
		Rule:   "program shapes (program in the root, in a sub-directory, declarations in libraries and sub-packages, output in the root, beside the program, in a package of its own) x data (files, directories, empty ones, other modules, a module inside the module, command-line includes, the whole module, special names, a second packed module) x module and directory names x an earlier output; each program is built and run in its source tree, packed by the real command, built again, and run with other contents in the source tree and without it and without the go command: for every declared path, and everything beneath, all operations, walks, handles, directory types and HTTP answers must be the same; and packing again gives the same bytes",
		Assume: []string{"the go command and its linker"},
		Run: func(c *kit.Ctx) {
			toolEnv(c)
			os.Setenv("GOGC", "200")
			cs := packedCases(c)
			c.Set("cases", len(cs))
			try := func(i, w int) {
				if c.Expired() {
					return
				}
				pc := cs[i]
				c.States.Add(1)
				key := fmt.Sprintf("%+v", pc)
				once := func() error {
					c.Beat()
					return pc.run(c, filepath.Join(c.Work, "p"+itoa(w)))
				}
				if pc.Set == "layered" && pc.Shape != "root" && pc.Shape != "cmd" { // the output is initialised before that of the other module
					if err := once(); err == nil {
						return
					} else if strings.Contains(err.Error(), "says \"current "+fsx.Ext) {
						key = "layered-init-order"
					}
				}
				c.Check(int64(i), key, pc, once)
				if i%13 == 2 && c.WantSample() {
					c.Sample(pc)
				}
			}
			try(0, 0) // fills the build cache
			c.Par(len(cs)-1, func(i, w int) { try(i+1, w) })
		},
		Replay: func(c *kit.Ctx, raw json.RawMessage) error {
			var pc packedCase
			if err := json.Unmarshal(raw, &pc); err != nil {
				return err
			}
			toolEnv(c)
			return pc.run(c, filepath.Join(c.Work, "p"))
		}}
}
