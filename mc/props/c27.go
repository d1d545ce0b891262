package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/parser"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/mem"
	"github.com/markbates/pkger/pkging/pkgutil"
	"github.com/markbates/pkger/pkging/stdos"

	"verif.local/mc/fsx"
	"verif.local/mc/kit"
)

// bareMod is a module whose root holds no package.
const bareMod = "example.com/bare"

// otherMod is a module whose path ends as another one's does, in a directory that does, too.
const otherMod = "other.example.org/ext"

// pkgMods are the modules, and their directories below the scratch directory.
var pkgMods = []struct{ path, dir string }{{fsx.Main, "app"}, {fsx.Ext, "ext"}, {nestedMod, "app/nested"}, {bareMod, "bare"}, {otherMod, "other/ext"}}

// pkgTree is the same names, of different content and kind, in the modules.
func pkgTree(mod int) map[string]string {
	t := []string{"app", "ext", "nested", "bare", "other"}[mod]
	m := map[string]string{
		"both.txt": "both of " + t, "dir/both.txt": "dir/both of " + strings.Repeat(t, 3), "dir/sub/both.txt": t, "dir/only-" + t + ".txt": "only " + t, t + "-only.txt": t, t + "dir/x.txt": "x " + t,
		"empty/": "",
	}
	if mod%2 == 0 { // the kinds differ
		m["mixed"] = "a file of " + t
		m["mixed2/in.txt"] = "in " + t
	} else {
		m["mixed/in.txt"] = "in " + t
		m["mixed2"] = "a file of " + t
	}
	return m
}

var pkgNames = []string{"/", "/both.txt", "/dir", "/dir/both.txt", "/dir/sub", "/dir/only-app.txt", "/dir/only-ext.txt", "/app-only.txt", "/ext-only.txt", "/nested-only.txt", "/bare-only.txt", "/other-only.txt",
	"/appdir", "/extdir", "/mixed", "/mixed/in.txt", "/mixed2", "/none", "/none/x", "/empty", "/dir/../both.txt", "/../both.txt", "/dir/sub/../../mixed"}

// pkgQuals are the qualifiers, with the module each denotes; -1: none.
var pkgQuals = []struct {
	q   string
	mod int
}{{"", 0}, {fsx.Main + ":", 0}, {fsx.Ext + ":", 1}, {nestedMod + ":", 2}, {bareMod + ":", 3}, {otherMod + ":", 4}, {"ext:", -1}, {"example.com/unknown:", -1}, {"nodots:", -1}, {"example.com/ex:", -1}, {"example.com/ext/none:", -1}}

type pkgCase struct {
	Packed bool     `json:"packed,omitempty"`
	Op     string   `json:"op,omitempty"`
	Qual   int      `json:"qualifier"`
	Name   string   `json:"name,omitempty"`
	Below  string   `json:"below,omitempty"`
	Ops    []fsx.Op `json:"history,omitempty"`
}

// pkgWorld is the modules on disk, and packed.
type pkgWorld struct {
	root   string
	info   here.Info
	disk   *stdos.Pkger
	packed []byte
	mem    *mem.Pkger
}

func newPkgWorld(c *kit.Ctx) *pkgWorld {
	top := filepath.Join(c.Work, "skel")
	fix := func(s string) string { return strings.Replace(s, "../pkger", top+"/pkger", 1) }
	s := newSkel(c, "app", map[string]string{
		"app/go.mod":         fix(goMod(fsx.Main, fsx.Ext+"="+top+"/ext", nestedMod+"="+top+"/app/nested", bareMod+"="+top+"/bare", otherMod+"="+top+"/other/ext")),
		"app/main.go":        "package main\n\nfunc main() {}\n",
		"app/nested/go.mod":  "module " + nestedMod + "\n\ngo 1.13\n",
		"app/nested/mod.go":  "package nested\n",
		"ext/go.mod":         "module " + fsx.Ext + "\n\ngo 1.13\n",
		"ext/ext.go":         "package ext\n",
		"other/ext/go.mod":   "module " + otherMod + "\n\ngo 1.13\n",
		"other/ext/ext.go":   "package ext\n",
		"bare/go.mod":        "module " + bareMod + "\n\ngo 1.13\n",
		"bare/sub/sub.go":    "package sub\n",
		"beside/outside.txt": "of no module",
		"both.txt":           "above all modules",
	})
	w := &pkgWorld{root: s.root, info: s.info}
	w.reset()
	c.Beat()
	// everything is declared
	var b strings.Builder
	b.WriteString("package main\n\nimport \"github.com/markbates/pkger\"\n\nfunc use() {\n")
	for _, m := range pkgMods {
		fmt.Fprintf(&b, "\tpkger.Include(%q)\n", m.path+":/")
	}
	b.WriteString("}\n")
	src := filepath.Join(s.dir, "decl.go")
	os.WriteFile(src, []byte(b.String()), 0644)
	ds, err := parser.Parse(w.info)
	var o bytes.Buffer
	os.Remove(src)
	if err == nil {
		err = pkgutil.Stuff(&o, w.info, ds)
	}
	if err != nil {
		c.Check(-1, "pack", pkgCase{Packed: true}, func() error { return fmt.Errorf("packing all modules: %v", err) })
	}
	w.packed = o.Bytes()
	c.Beat()
	if w.disk, err = stdos.New(w.info); err != nil {
		panic(err)
	}
	return w
}

func (w *pkgWorld) dir(mod int) string { return filepath.Join(w.root, pkgMods[mod].dir) }

// reset makes the trees as they were.
func (w *pkgWorld) reset() {
	for i := range pkgMods {
		t := pkgTree(i)
		dirs := map[string]bool{}
		have := map[string]bool{"go.mod": true, "main.go": true, "mod.go": true, "ext.go": true, "sub": true, "sub/sub.go": true, "nested": true}
		for n := range t {
			for d := strings.TrimSuffix(n, "/"); d != "."; d = path.Dir(d) {
				have[d] = true
				dirs[d] = dirs[d] || d != n
			}
		}
		d := w.dir(i)
		for _, top := range []string{d, d + "/dir", d + "/dir/sub", d + "/empty"} {
			es, _ := os.ReadDir(top)
			for _, e := range es {
				r, _ := filepath.Rel(d, filepath.Join(top, e.Name()))
				if _, isFile := t[r]; !have[r] || isFile && e.IsDir() || dirs[r] && !e.IsDir() {
					os.RemoveAll(filepath.Join(d, r))
				}
			}
		}
		plant(d, t)
	}
	at := time.Unix(1400000000, 987654321)
	filepath.Walk(w.root, func(p string, i os.FileInfo, err error) error {
		os.Chtimes(p, at, at)
		return nil
	})
}

// load hydrates the packed modules.
func (w *pkgWorld) load() pkging.Pkger {
	if len(w.packed) == 0 {
		return nil
	}
	fs, err := mem.UnmarshalEmbed(w.packed)
	if err != nil {
		panic(err)
	}
	return fs
}

func entryOf(i os.FileInfo) string {
	return fmt.Sprintf("%q dir=%v %d %v %d", i.Name(), i.IsDir(), sizeOf(i), i.Mode(), i.ModTime().UnixNano())
}

func sizeOf(i os.FileInfo) int64 {
	if i.IsDir() {
		return 0
	}
	return i.Size()
}

func entriesOf(is []os.FileInfo) string {
	var out []string
	for _, i := range is {
		out = append(out, entryOf(i))
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

// handleOf is what a handle says.
func handleOf(f http.File) string {
	defer f.Close()
	i, err := f.Stat()
	if err != nil {
		return "error"
	}
	s := "is "
	if i.IsDir() {
		is, err := f.Readdir(-1)
		if err != nil {
			return "Readdir: error"
		}
		return s + entryOf(i) + " with " + entriesOf(is)
	}
	b, err := io.ReadAll(f)
	if err != nil {
		return "Read: error"
	}
	return s + entryOf(i) + fmt.Sprintf(" %q", b)
}

// theRoot gives the root of a module the name that it has there.
func (w *pkgWorld) answer(fs pkging.Pkger, pc pkgCase) string {
	q := pkgQuals[pc.Qual]
	p := q.q + pc.Name
	inPkg := func(f pkging.File, name string) string {
		if q.mod < 0 {
			return "a handle"
		}
		want := here.Path{Pkg: pkgMods[q.mod].path, Name: name}
		if f.Path() != want || f.Name() != want.String() {
			return fmt.Sprintf("handle of %s, %s instead of %s: ", f.Path(), f.Name(), want)
		}
		if in, err := fs.Info(want.Pkg); err != nil || f.Info().Module != in.Module {
			return fmt.Sprintf("handle that belongs to module %+v instead of %+v, %v: ", f.Info().Module, in.Module, err)
		}
		return ""
	}
	switch pc.Op {
	case "parse":
		pt, err := fs.Parse(p)
		if err != nil {
			return "error"
		}
		return pt.String()
	case "info":
		in, err := fs.Info(strings.TrimSuffix(q.q, ":"))
		if err != nil {
			return "error"
		}
		return in.Module.Path + " " + in.Dir
	case "stat":
		i, err := fs.Stat(p)
		if err != nil {
			return "error"
		}
		return "is " + entryOf(i)
	case "open":
		f, err := fs.Open(p)
		if err != nil {
			return "error"
		}
		return inPkg(f, path.Clean(pc.Name)) + handleOf(f)
	case "walk":
		var s strings.Builder
		err := fs.Walk(p, func(q string, i os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			fmt.Fprintf(&s, "%s %s\n", q, entryOf(i))
			return nil
		})
		if err != nil {
			return "error"
		}
		return s.String()
	case "below", "dir":
		var f http.File
		if pc.Op == "dir" {
			useGlobally(fs)
			g, err := pkger.Dir(p).Open(pc.Below)
			if err != nil {
				return "error"
			}
			f = g
		} else {
			d, err := fs.Open(p)
			if err != nil {
				return "error"
			}
			defer d.Close()
			g, err := d.Open(pc.Below)
			if err != nil {
				return "error"
			}
			f = g
		}
		s := ""
		if g, ok := f.(pkging.File); ok {
			s = inPkg(g, path.Join(pc.Name, path.Join("/", pc.Below)))
		}
		return s + handleOf(f)
	case "http":
		useGlobally(fs)
		r := httptest.NewRequest("GET", "http://host/", nil)
		r.URL.Path = pc.Below
		a := httptest.NewRecorder()
		http.FileServer(pkger.Dir(p)).ServeHTTP(a, r)
		if a.Code/100 > 3 {
			return "error"
		}
		return fmt.Sprint(a.Code, a.Header().Get("Location"), a.Body)
	}
	panic(pc.Op)
}

// disk is what the operating system says of the module's own directory.
func (w *pkgWorld) truth(pc pkgCase, packed bool) string {
	q := pkgQuals[pc.Qual]
	if q.mod < 0 {
		if pc.Op == "parse" {
			return q.q + path.Clean(pc.Name)
		}
		return "error"
	}
	root, mod := w.dir(q.mod), pkgMods[q.mod].path
	name := path.Clean(pc.Name)
	switch pc.Op {
	case "parse":
		return mod + ":" + name
	case "info":
		return mod + " " + root
	case "stat":
		i, err := os.Stat(root + name)
		if err != nil {
			return "error"
		}
		return "is " + entryOf(i)
	case "open":
		f, err := os.Open(root + name)
		if err != nil {
			return "error"
		}
		return handleOf(f)
	case "walk":
		var s strings.Builder
		err := filepath.Walk(filepath.Join(root, name), func(p string, i os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			r, _ := filepath.Rel(root, p)
			fmt.Fprintf(&s, "%s:%s %s\n", mod, path.Join("/", r), entryOf(i))
			return nil
		})
		if err != nil {
			return "error"
		}
		return s.String()
	case "below", "dir":
		if i, err := os.Stat(root + name); err != nil || !i.IsDir() && path.Join("/", pc.Below) != "/" {
			return "error"
		}
		f, err := os.Open(root + path.Join(name, path.Join("/", pc.Below)))
		if err != nil {
			return "error"
		}
		return handleOf(f)
	case "http":
		r := httptest.NewRequest("GET", "http://host/", nil)
		r.URL.Path = pc.Below
		a := httptest.NewRecorder()
		http.FileServer(http.Dir(root+name)).ServeHTTP(a, r)
		if a.Code/100 > 3 {
			return "error"
		}
		return fmt.Sprint(a.Code, a.Header().Get("Location"), a.Body)
	}
	panic(pc.Op)
}

func (w *pkgWorld) read(c *kit.Ctx, pc pkgCase) error {
	var fs pkging.Pkger = w.disk
	if pc.Packed {
		if w.mem == nil {
			w.mem = w.load().(*mem.Pkger)
		}
		fs = w.mem
	}
	c.Transitions.Add(1)
	got, want := w.answer(fs, pc), w.truth(pc, pc.Packed)
	k := "answer"
	if got == "error" {
		k = "error"
	}
	c.Outcome(pc.Op, k)
	if got == want || pc.Op == "walk" && pc.Packed && pkgQuals[pc.Qual].mod < 0 && got == "" { // walking nothing need not be an error
		return nil
	}
	return fmt.Errorf("%s of %s%s %s: %.500s; but it is %.500s", pc.Op, pkgQuals[pc.Qual].q, pc.Name, pc.Below, got, want)
}

// twin is where the expected trees are.
func (w *pkgWorld) twin(mod int) string { return filepath.Join(w.root, "twin", itoa(mod)) }

// apply does the operation through the file system.
func applyTo(fs pkging.Pkger, o fsx.Op) error {
	p := o.G + o.P
	switch o.K {
	case "create":
		f, err := fs.Create(p)
		if err != nil {
			return err
		}
		if _, err := f.Write([]byte(o.D)); err != nil {
			return err
		}
		return f.Close()
	case "mkdir":
		return fs.MkdirAll(p, 0755)
	case "remove":
		return fs.Remove(p)
	case "removeall":
		return fs.RemoveAll(p)
	}
	panic(o.K)
}

// onTwin does it with the operating system.
func onTwin(dir string, o fsx.Op) error {
	p := dir + path.Clean(o.P)
	switch o.K {
	case "create":
		return os.WriteFile(p, []byte(o.D), 0644)
	case "mkdir":
		return os.MkdirAll(p, 0755)
	case "remove":
		return os.Remove(p)
	case "removeall":
		return os.RemoveAll(p)
	}
	panic(o.K)
}

// tree is all entries of a directory: name -> kind and content.
func treeOf(dir string, skip func(string) bool) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		n := path.Join("/", strings.TrimPrefix(p, dir))
		if skip(n) {
			if i.IsDir() {
				return filepath.SkipDir
			}
			return nil
		}
		m[n] = "dir"
		if !i.IsDir() {
			b, _ := os.ReadFile(p)
			m[n] = fmt.Sprintf("file %q", b)
		}
		return nil
	})
	return m
}

func diffTrees(what string, got, want map[string]string) error {
	var out []string
	for k, v := range want {
		if got[k] == "" {
			out = append(out, k+" is missing")
		} else if got[k] != v {
			out = append(out, k+" is "+got[k]+" instead of "+v)
		}
	}
	for k, v := range got {
		if want[k] == "" {
			out = append(out, k+" is there: "+v)
		}
	}
	sort.Strings(out)
	if len(out) > 5 {
		out = out[:5]
	}
	if len(out) > 0 {
		return fmt.Errorf("%s: %s", what, strings.Join(out, "; "))
	}
	return nil
}

// history applies the operations to the modules and to the twins.
func (w *pkgWorld) history(c *kit.Ctx, pc pkgCase) error {
	defer func() {
		os.RemoveAll(filepath.Join(w.root, "twin"))
		if !pc.Packed {
			w.reset()
		}
	}()
	os.RemoveAll(filepath.Join(w.root, "twin"))
	skip := func(mod int) func(string) bool {
		return func(n string) bool { return mod == 0 && n == "/nested" }
	}
	for i := range pkgMods {
		os.MkdirAll(w.twin(i), 0755)
		for n, v := range treeOf(w.dir(i), skip(i)) {
			if v == "dir" {
				os.MkdirAll(w.twin(i)+n, 0755)
			}
		}
		for n, v := range treeOf(w.dir(i), skip(i)) {
			if v != "dir" {
				b, _ := os.ReadFile(w.dir(i) + n)
				os.WriteFile(w.twin(i)+n, b, 0644)
			}
		}
	}
	var fs pkging.Pkger
	if pc.Packed {
		fs = w.load()
	} else {
		fs = w.disk
	}
	outside := snapshot(filepath.Join(w.root, "beside"))
	for _, o := range pc.Ops {
		c.Transitions.Add(1)
		mod := -1
		for _, q := range pkgQuals {
			if q.q == o.G {
				mod = q.mod
			}
		}
		err := applyTo(fs, o)
		if mod < 0 {
			if err == nil && !(pc.Packed && o.K == "removeall") { // there is nothing to remove
				return fmt.Errorf("%s succeeded in an unknown package", o)
			}
			continue
		}
		werr := onTwin(w.twin(mod), o)
		if (err == nil) != (werr == nil) {
			return fmt.Errorf("%s: %v instead of %v", o, err, werr)
		}
		c.Outcome(o.K, fmt.Sprint(err == nil))
	}
	for i, m := range pkgMods {
		want := treeOf(w.twin(i), skip(i))
		if !pc.Packed {
			if err := diffTrees("on disk, "+m.path, treeOf(w.dir(i), skip(i)), want); err != nil {
				return err
			}
		}
		got := map[string]string{}
		err := fs.Walk(m.path+":/", func(p string, i os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			n := strings.TrimPrefix(p, m.path+":")
			if m.path == fsx.Main && beneath(n, "/nested") {
				return nil
			}
			got[n] = "dir"
			if !i.IsDir() {
				f, err := fs.Open(p)
				if err != nil {
					return err
				}
				b, err := io.ReadAll(f)
				f.Close()
				if err != nil {
					return err
				}
				got[n] = fmt.Sprintf("file %q", b)
			}
			return nil
		})
		if err != nil {
			return fmt.Errorf("walking %s: %v", m.path, err)
		}
		if err := diffTrees("in "+m.path, got, want); err != nil {
			return err
		}
	}
	if s := snapshot(filepath.Join(w.root, "beside")); fmt.Sprint(s) != fmt.Sprint(outside) {
		return fmt.Errorf("outside of all modules: %v instead of %v", s, outside)
	}
	if b, _ := os.ReadFile(filepath.Join(w.root, "both.txt")); string(b) != "above all modules" {
		return fmt.Errorf("above all modules: %q", b)
	}
	return nil
}

func (pc pkgCase) try(c *kit.Ctx, w *pkgWorld) error {
	if pc.Ops != nil {
		return w.history(c, pc)
	}
	return w.read(c, pc)
}

// C27 is other packages.
func C27() *kit.Prop {
	return &kit.Prop{ID: "C27", Level: "model_checking", Shards: true,
		Rule:   "five modules of one build (the current one, one beside it, one inside its directory, one without a package in its root, one whose path and directory end as another one's) that hold the same names with different contents and kinds; all operations (parse, info, stat, open, list, walk, opening through directory handles, the declared-directory type, serving) x qualifiers (none, each module, unknown ones, prefixes of known ones) x names that exist in all, some or none, on disk and packed, against the operating system on the module's own directory; and all histories of creating, making and removing to depth 2 over two names, all qualifiers, on disk and packed, each against the same operations on copies of the module directories",
		Assume: []string{"the go command's idea of where the modules are"},
		Run: func(c *kit.Ctx) {
			w := newPkgWorld(c)
			if len(w.packed) == 0 {
				return
			}
			var order int64
			try := func(pc pkgCase) {
				order++
				c.States.Add(1)
				c.Traces.Add(1)
				c.Check(order, fmt.Sprintf("%+v", pc), pc, func() error { return pc.try(c, w) })
				if order%1999 == 7 && c.WantSample() {
					c.Sample(pc)
				}
			}
			n := 0
			for _, packed := range []bool{false, true} {
				for q, qu := range pkgQuals {
					names := pkgNames
					if qu.mod < 0 && !packed {
						names = pkgNames[:4] // the go command is asked every time
					}
					for _, name := range names {
						if n++; !c.Mine(n) {
							continue
						}
						if c.Expired() {
							return
						}
						c.Beat()
						for _, op := range []string{"parse", "stat", "open", "walk"} {
							if i, err := os.Stat(w.dir(max(qu.mod, 0)) + path.Clean(name)); op == "walk" && (qu.mod >= 0 && (err != nil || !i.IsDir())) {
								continue // what walking nothing says is not claimed
							}
							try(pkgCase{Packed: packed, Op: op, Qual: q, Name: name})
						}
						if name == "/" && qu.q != "" {
							try(pkgCase{Packed: packed, Op: "info", Qual: q})
						}
						for i, b := range pkgNames {
							if qu.mod < 0 && i > 1 {
								break
							}
							try(pkgCase{Packed: packed, Op: "below", Qual: q, Name: name, Below: b})
							try(pkgCase{Packed: packed, Op: "dir", Qual: q, Name: name, Below: b})
							try(pkgCase{Packed: packed, Op: "http", Qual: q, Name: name, Below: b})
							try(pkgCase{Packed: packed, Op: "http", Qual: q, Name: name, Below: b + "/"})
						}
					}
				}
			}
			// histories
			var ops []fsx.Op
			names := []string{"/both.txt", "/dir/new.txt", "/dir", "/mixed", "/new"}
			if c.Thorough() {
				names = append(names, "/dir/sub", "/none/x", "/dir/../both.txt", "/../new")
			}
			for _, q := range pkgQuals[:6] {
				for _, n := range names {
					for _, k := range []string{"create", "mkdir", "remove", "removeall"} {
						if q.mod < 0 && n != "/both.txt" {
							continue
						}
						ops = append(ops, fsx.Op{K: k, G: q.q, P: n, D: "made " + q.q})
					}
				}
			}
			c.Set("history_operations", len(ops))
			for _, packed := range []bool{true, false} {
				c.Each(len(ops), func(i int) {
					a := ops[i]
					c.Beat()
					try(pkgCase{Packed: packed, Ops: []fsx.Op{a}})
					for _, b := range ops {
						if c.Expired() {
							return
						}
						if b.G == pkgQuals[5].q && !packed {
							continue
						}
						if !c.Thorough() && path.Clean(a.P) != path.Clean(b.P) && a.P != "/dir" && b.P != "/dir" {
							continue
						}
						try(pkgCase{Packed: packed, Ops: []fsx.Op{a, b}})
					}
				})
			}
		},
		Replay: func(c *kit.Ctx, raw json.RawMessage) error {
			var pc pkgCase
			if err := json.Unmarshal(raw, &pc); err != nil {
				return err
			}
			w := newPkgWorld(c)
			if len(w.packed) == 0 || pc.Op == "" && pc.Ops == nil {
				return nil
			}
			return pc.try(c, w)
		}}
}
