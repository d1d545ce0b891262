package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/markbates/pkger/parser"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/embed"
	"github.com/markbates/pkger/pkging/mem"
	"github.com/markbates/pkger/pkging/pkgutil"

	"verif.local/mc/fsx"
	"verif.local/mc/kit"
)

// nestedMod is a module inside the module's directory.
const nestedMod = "example.com/nested"

// dcl is a declaration: a function (or "-include") and a path.
type dcl struct {
	K string `json:"k"`
	V string `json:"v"`
}

// packCase is a tree with declarations.
type packCase struct {
	Tree []string `json:"tree"` // groups of optional entries
	D    []dcl    `json:"decls"`
}

// packGroups are the optional entries, below app/ unless they start with ext/.
var packGroups = map[string][]string{
	"file":   {"a.txt"},
	"dir":    {"a/b.txt"},
	"empty":  {"a/c/"},
	"deep":   {"a/c/d.txt", "a/c.txt", "a-b.txt", "a/c/e/f/g.txt", "a/bb/"},
	"nested": {"nested/n.txt", "nested/deep/m.txt", "nested/a.txt"},
	"ext":    {"ext/e.txt", "ext/edir/f.txt", "ext/a.txt", "ext/a/b.txt"},
	"special": {"sp/a b.txt", "sp/.hidden", "sp/_u/x", "sp/vendor/v.txt", "sp/node_modules/m.js", "sp/testdata/broken.go", "sp/testdata/t.json", "sp/é.txt", "sp/.git/config", "sp/go.sum", "sp/pkged.txt", "sp/x.tmp.txt",
		"sp/x.tmpl", "sp/d.tmp/in.txt", "sp/100%.txt", "sp/q\"uo'te.txt", "sp/`b`.txt", "sp/$HOME", "sp/<&>.html", "sp/Caps.TXT", "sp/caps.txt", "sp/~x#", "sp/x,y;z=1.txt", "sp/" + strings.Repeat("long", 60) + ".txt"},
	"gen": {"gen/old.txt", "gen/x/y.txt"},
	"big": bigGroup(),
}

var packTargets = []string{
	"/a.txt", "/a", "/a/b.txt", "/a/c", "/a/c/d.txt", "/", "/sub", "/sub/x.go", "/nested", "/nested/n.txt", "/nested/deep",
	fsx.Ext + ":/e.txt", fsx.Ext + ":/edir", fsx.Ext + ":/", fsx.Ext + ":/a.txt", nestedMod + ":/n.txt", nestedMod + ":/", nestedMod + ":/deep",
	"/sp", "/sp/a b.txt", "/sp/testdata", "/sp/vendor/v.txt", "/gen", "/gen/x", "/gen/new.txt", "/missing.txt", "/missing/dir/", fsx.Ext + ":/missing.txt",
	fsx.Main + ":/a.txt", "/./a/b.txt", "//a//b.txt", "/a/../a.txt", ":/a.txt", "/main.go", fsx.Main + ":/gen/new.txt", "/gen//new.txt", fsx.Ext + ":/gen/new.txt",
	"/tagged", "/two/a.go",
}

func packSkel(c *kit.Ctx) *skel {
	top := filepath.Join(c.Work, "skel")
	fix := func(s string) string {
		return strings.Replace(s, "../pkger", top+"/pkger", 1)
	}
	base := map[string]string{
		"app/go.mod":         fix(goMod(fsx.Main, fsx.Ext+"="+top+"/ext", nestedMod+"="+top+"/app/nested")),
		"app/main.go":        "package main\n\nfunc main() {}\n",
		"app/prog.go":        "package main\n",
		"app/sub/x.go":       "package sub\n",
		"app/tagged/x.go":    neverBuilt + "package x\n",
		"app/two/a.go":       "package a\n",
		"app/two/b.go":       "package b\n",
		"app/nested/go.mod":  "module " + nestedMod + "\n\ngo 1.13\n",
		"app/nested/mod.go":  "package nested\n",
		"ext/go.mod":         "module " + fsx.Ext + "\n\ngo 1.13\n",
		"ext/ext.go":         "package ext\n",
		"beside/outside.txt": "not in any module",
	}
	s := newSkel(c, "app", base)
	c.Beat()
	return s
}

// bigGroup are large files, a wide directory and a deep one.
func bigGroup() (out []string) {
	out = []string{"big/1m", "big/4m", "big/18m", "big/" + strings.Repeat("deep/", 40) + "f"}
	for i := 0; i < 1300; i++ {
		out = append(out, fmt.Sprintf("big/wide/%d", i))
	}
	return
}

// bodyOf is the content of an optional entry.
func bodyOf(name string) string {
	switch {
	case strings.HasSuffix(name, "big/1m"):
		return string(blob(1<<20+1, 1))
	case strings.HasSuffix(name, "big/18m"):
		return string(blob(18<<20-1, 3))
	case strings.HasSuffix(name, "big/4m"):
		return string(blob(4<<20+3, 2))
	}
	h := fnv.New32a()
	h.Write([]byte(name))
	switch h.Sum32() % 6 {
	case 0:
		return ""
	case 1:
		return "x"
	case 2:
		return "`back`\x00\xff\xfe\r\n" + name
	case 3:
		return strings.Repeat(name+"\n", 400)
	}
	return "contents of " + name
}

var modes = []os.FileMode{0644, 0600, 0755, 0444, 0640, 0666 | os.ModeSetuid, 0711}
var dirModes = []os.FileMode{0755, 0700, 0750, 0777 | os.ModeSticky, 0755 | os.ModeSetgid}
var mtimes = []time.Time{time.Unix(1500000000, 123456789), time.Unix(0, 0), time.Unix(-5, 7), time.Unix(2000000000, 1), time.Unix(951782400, 999999999)}

// grow makes the tree of a case.
func (s *skel) grow(groups []string) {
	more := map[string]string{}
	var names []string
	for _, g := range groups {
		for _, n := range packGroups[g] {
			if !strings.HasPrefix(n, "ext/") {
				n = "app/" + n
			}
			if strings.HasSuffix(n, "/") {
				n = strings.TrimSuffix(n, "/")
				if _, ok := more[n]; !ok {
					more[n] = isDir
				}
			} else {
				more[n] = bodyOf(n)
			}
			names = append(names, n)
			for d := path.Dir(n); d != "app" && d != "ext"; d = path.Dir(d) {
				names = append(names, d)
			}
		}
	}
	key := fmt.Sprint(groups)
	if s.grown == key {
		return
	}
	// make everything writable again
	filepath.Walk(s.root, func(p string, i os.FileInfo, err error) error {
		if err == nil && i.IsDir() {
			os.Chmod(p, 0755)
		}
		return nil
	})
	s.sync(more)
	sort.Sort(sort.Reverse(sort.StringSlice(names)))
	for _, n := range names {
		h := fnv.New32()
		h.Write([]byte(n))
		v := int(h.Sum32() >> 3)
		p := filepath.Join(s.root, n)
		m := modes[v%len(modes)]
		if i, err := os.Stat(p); err != nil {
			panic(err)
		} else if i.IsDir() {
			m = dirModes[v%len(dirModes)]
		}
		os.Chmod(p, m)
		os.Chtimes(p, mtimes[v%len(mtimes)], mtimes[(v/7)%len(mtimes)])
	}
	s.grown = key
}

// decls writes the declarations as a program and parses it. spread puts them into two files.
func (s *skel) decls(ds []dcl) (parser.Decls, error) {
	var bodies, inc []string
	for _, d := range ds {
		if d.K == "-include" {
			inc = append(inc, d.V)
			continue
		}
		bodies = append(bodies, call(d.K, fmt.Sprintf("%q", d.V)))
	}
	src := source("main", nil, bodies)
	f := filepath.Join(s.dir, "prog.go")
	if s.prog != src {
		if err := os.WriteFile(f, []byte(src), 0644); err != nil {
			panic(err)
		}
		s.prog = src
		s.have[s.rel("prog.go")] = src
	}
	return parser.Parse(s.info, inc...)
}

func (s *skel) modDirs() map[string]string {
	return map[string]string{fsx.Main: s.dir, fsx.Ext: filepath.Join(s.root, "ext"), nestedMod: filepath.Join(s.dir, "nested")}
}

// absOf is the location a declared path denotes.
func (s *skel) absOf(v string) (pkg, name, abs string) {
	pkg, name = denote(v)
	return pkg, name, filepath.Join(s.modDirs()[pkg], name)
}

func beneath(p, dir string) bool {
	return p == dir || strings.HasPrefix(p, strings.TrimSuffix(dir, "/")+"/")
}

// expectation is what the declarations of a case denote.
type expectation struct {
	fail  string            // a declared path that does not exist
	maybe bool              // whether that is an error is left open
	must  map[string]bool   // locations
	may   func(string) bool // locations that may be listed or not
	paths map[string]string // package-qualified path as declared -> location
}

func (s *skel) expect(ds []dcl) expectation {
	e := expectation{must: map[string]bool{}, paths: map[string]string{}}
	var virt, mkdirs []string
	for _, d := range ds {
		_, _, abs := s.absOf(d.V)
		switch d.K {
		case "Create":
			virt = append(virt, abs)
		case "MkdirAll":
			virt = append(virt, abs)
			mkdirs = append(mkdirs, abs)
		}
	}
	e.may = func(p string) bool {
		for _, v := range virt {
			if beneath(p, v) {
				return true
			}
		}
		for _, v := range mkdirs {
			if beneath(v, p) && p != s.dir {
				return true
			}
		}
		return false
	}
	for _, d := range ds {
		if d.K == "Create" || d.K == "MkdirAll" {
			continue
		}
		pkg, name, abs := s.absOf(d.V)
		if _, err := os.Lstat(abs); err != nil {
			exact := false
			for _, v := range virt {
				exact = exact || v == abs
			}
			switch {
			case exact:
			case e.may(abs) || d.K == "Walk" && false:
				e.maybe = true
			default:
				e.fail = d.V
			}
			continue
		}
		filepath.Walk(abs, func(p string, i os.FileInfo, err error) error {
			if err != nil {
				panic(err)
			}
			e.must[p] = true
			r, _ := filepath.Rel(abs, p)
			e.paths[pkg+":"+path.Join(name, r)] = p
			return nil
		})
	}
	return e
}

// listed checks the files of the declarations.
func (s *skel) listed(files []*parser.File, err error, e expectation) error {
	if e.fail != "" {
		if err == nil {
			return fmt.Errorf("%s does not exist, but there is no error", e.fail)
		}
		return nil
	}
	if err != nil {
		if e.maybe {
			return nil
		}
		return fmt.Errorf("Files: %v", err)
	}
	seen := map[string]bool{}
	last := ""
	dirs := s.modDirs()
	for _, f := range files {
		if seen[f.Abs] {
			return fmt.Errorf("%s is listed twice", f.Abs)
		}
		seen[f.Abs] = true
		if !e.must[f.Abs] && !e.may(f.Abs) {
			return fmt.Errorf("%s is listed, but not declared", f.Abs)
		}
		md, ok := dirs[f.Path.Pkg]
		if !ok || filepath.Join(md, f.Path.Name) != f.Abs || path.Clean(f.Path.Name) != f.Path.Name {
			return fmt.Errorf("%s is listed as %s", f.Abs, f.Path)
		}
		if f.Path.String() < last {
			return fmt.Errorf("%s is listed after %s", f.Path, last)
		}
		last = f.Path.String()
	}
	for p := range e.must {
		if !seen[p] && !e.may(p) {
			return fmt.Errorf("%s is declared, but not listed", p)
		}
	}
	return nil
}

func (s *skel) list(c *kit.Ctx, pc packCase) error {
	s.grow(pc.Tree)
	decls, err := s.decls(pc.D)
	if err != nil {
		for _, d := range pc.D {
			if d.K == "-include" {
				if _, _, abs := s.absOf(d.V); abs == "" {
					return nil
				}
			}
		}
		return fmt.Errorf("Parse: %v", err)
	}
	c.Traces.Add(1)
	e := s.expect(pc.D)
	files, err := decls.Files()
	if e.fail != "" {
		c.Outcome("files", "error")
	} else {
		c.Outcome("files", fmt.Sprint(len(files)/10*10, "+"))
	}
	return s.listed(files, err, e)
}

func sig(files []*parser.File) string {
	var w strings.Builder
	for _, f := range files {
		fmt.Fprintln(&w, f.Abs, f.Path)
	}
	return w.String()
}

// stuff packs declarations as the command does.
func (s *skel) stuff(decls parser.Decls) ([]byte, error) {
	var w bytes.Buffer
	err := pkgutil.Stuff(&w, s.info, decls)
	return w.Bytes(), err
}

// sameFile compares an entry of the packed file system with the one on disk.
func sameFile(fs pkging.Pkger, p, abs string) error {
	want, err := os.Stat(abs)
	if err != nil {
		return err
	}
	st, err := fs.Stat(p)
	if err != nil {
		return fmt.Errorf("packed Stat(%s): %v", p, err)
	}
	if err := sameInfo(st, want); err != nil {
		return fmt.Errorf("packed Stat(%s): %v", p, err)
	}
	f, err := fs.Open(p)
	if err != nil {
		return fmt.Errorf("packed Open(%s): %v", p, err)
	}
	defer f.Close()
	if f.Path().String() != p {
		return fmt.Errorf("the handle of %s is named %s", p, f.Path())
	}
	if st, err = f.Stat(); err != nil {
		return err
	}
	if err := sameInfo(st, want); err != nil {
		return fmt.Errorf("packed Open(%s).Stat: %v", p, err)
	}
	if !want.IsDir() {
		b, err := io.ReadAll(f)
		if err != nil {
			return fmt.Errorf("packed read of %s: %v", p, err)
		}
		d, err := os.ReadFile(abs)
		if err != nil {
			return err
		}
		if !bytes.Equal(b, d) {
			return fmt.Errorf("%s holds %d bytes %.40q, on disk %d bytes %.40q", p, len(b), b, len(d), d)
		}
	}
	return nil
}

func sameInfo(a, b os.FileInfo) error {
	if a.Name() != b.Name() || a.Size() != b.Size() || a.Mode() != b.Mode() || !a.ModTime().Equal(b.ModTime()) || a.IsDir() != b.IsDir() {
		return fmt.Errorf("got %s, want %s", infoString(a), infoString(b))
	}
	return nil
}

func infoString(i os.FileInfo) string {
	return fmt.Sprintf("{%s %d %v %v}", i.Name(), i.Size(), i.Mode(), i.ModTime().UTC())
}

func (s *skel) pack(c *kit.Ctx, pc packCase) error {
	s.grow(pc.Tree)
	decls, err := s.decls(pc.D)
	if err != nil {
		return fmt.Errorf("Parse: %v", err)
	}
	e := s.expect(pc.D)
	files, err := decls.Files()
	if err != nil {
		return s.listed(files, err, e)
	}
	b, err := s.stuff(decls)
	if err != nil {
		return fmt.Errorf("Stuff: %v", err)
	}
	c.Traces.Add(1)
	raw, err := embed.Decode(b)
	if err != nil {
		return fmt.Errorf("Decode: %v", err)
	}
	if !json.Valid(raw) {
		return fmt.Errorf("packed text is no JSON")
	}
	fs, err := mem.UnmarshalEmbed(b)
	if err != nil {
		return fmt.Errorf("UnmarshalEmbed: %v", err)
	}
	// everything listed, under its own path
	allowed := map[string]bool{}
	paths := map[string]string{}
	for _, f := range files {
		paths[f.Path.String()] = f.Abs
		allowed[f.Abs] = true
	}
	for p, abs := range e.paths {
		if allowed[abs] {
			paths[p] = abs
		}
	}
	for p, abs := range paths {
		if err := sameFile(fs, p, abs); err != nil {
			return err
		}
	}
	for p, abs := range paths {
		st, err := os.Stat(abs)
		if err != nil {
			return err
		}
		if !st.IsDir() {
			continue
		}
		filepath.Walk(abs, func(q string, _ os.FileInfo, err error) error { allowed[q] = true; return err })
		if err := s.sameDir(fs, p, abs); err != nil {
			return err
		}
	}
	// and nothing else
	n := 0
	for pkg, dir := range s.modDirs() {
		if err := fs.Walk(pkg+":/", func(p string, i os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			g, name, _ := strings.Cut(p, ":")
			if g != pkg {
				return fmt.Errorf("walking %s yields %s", pkg, p)
			}
			if !allowed[filepath.Join(dir, name)] {
				return fmt.Errorf("%s is embedded, but not listed", p)
			}
			n++
			return nil
		}); err != nil && !os.IsNotExist(err) {
			return err
		}
	}
	c.Outcome("embedded", fmt.Sprint(n/10*10, "+"))
	return nil
}

// sameDir compares listing and walk of a directory with the disk.
func (s *skel) sameDir(fs pkging.Pkger, p, abs string) error {
	f, err := fs.Open(p)
	if err != nil {
		return err
	}
	defer f.Close()
	is, err := f.Readdir(-1)
	if err != nil {
		return fmt.Errorf("packed Readdir(%s): %v", p, err)
	}
	ds, err := os.ReadDir(abs)
	if err != nil {
		return err
	}
	sort.Slice(is, func(i, j int) bool { return is[i].Name() < is[j].Name() })
	if len(is) != len(ds) {
		return fmt.Errorf("packed %s has %d entries %v, on disk %d %v", p, len(is), infoNames(is), len(ds), ds)
	}
	for i := range is {
		di, err := ds[i].Info()
		if err != nil {
			return err
		}
		if err := sameInfo(is[i], di); err != nil {
			return fmt.Errorf("packed Readdir(%s): %v", p, err)
		}
	}
	var got, want []string
	if err := fs.Walk(p, func(q string, i os.FileInfo, err error) error {
		got = append(got, q+" "+infoString(i))
		return err
	}); err != nil {
		return fmt.Errorf("packed Walk(%s): %v", p, err)
	}
	pkg, name, _ := strings.Cut(p, ":")
	if err := filepath.Walk(abs, func(q string, i os.FileInfo, err error) error {
		r, _ := filepath.Rel(abs, q)
		want = append(want, pkg+":"+path.Join(name, r)+" "+infoString(i))
		return err
	}); err != nil {
		return err
	}
	for i := range got {
		if i >= len(want) || got[i] != want[i] {
			return fmt.Errorf("packed Walk(%s) yields %s at %d, on disk %v", p, got[i], i, want)
		}
	}
	if len(got) < len(want) {
		return fmt.Errorf("packed Walk(%s) misses %s", p, want[len(got)])
	}
	return nil
}

func infoNames(is []os.FileInfo) (out []string) {
	for _, i := range is {
		out = append(out, i.Name())
	}
	return
}

// order checks that neither order nor repetition matters.
func (s *skel) order(c *kit.Ctx, pc packCase) error {
	s.grow(pc.Tree)
	e := s.expect(pc.D)
	decls, err := s.decls(pc.D)
	if err != nil {
		return fmt.Errorf("Parse: %v", err)
	}
	files, err0 := decls.Files()
	want := sig(files)
	if err0 == nil {
		if !sort.SliceIsSorted(files, func(i, j int) bool { return files[i].Path.String() < files[j].Path.String() }) {
			return fmt.Errorf("not sorted: %s", want)
		}
		seen := map[string]bool{}
		for _, f := range files {
			if seen[f.Abs] || seen[f.Path.String()] {
				return fmt.Errorf("%s %s is listed twice", f.Abs, f.Path)
			}
			seen[f.Abs], seen[f.Path.String()] = true, true
		}
	}
	same := func(how string, d parser.Decls) error {
		fs, err := d.Files()
		c.Traces.Add(1)
		if (err == nil) != (err0 == nil) {
			return fmt.Errorf("%s: %v, before %v", how, err, err0)
		}
		if err == nil && sig(fs) != want {
			return fmt.Errorf("%s: listed are\n%s before\n%s", how, sig(fs), want)
		}
		return nil
	}
	orders := [][]int{}
	if len(decls) <= 6 {
		orders = perms(len(decls))
	} else {
		o := make([]int, len(decls))
		for i := range o {
			o[i] = len(o) - 1 - i
		}
		orders = append(orders, o)
	}
	for _, o := range orders {
		d := make(parser.Decls, len(decls))
		for i, j := range o {
			d[i] = decls[j]
		}
		if err := same(fmt.Sprint("order ", o), d); err != nil {
			return err
		}
		if err := same(fmt.Sprint("order ", o, " twice"), append(append(parser.Decls{}, decls...), d...)); err != nil {
			return err
		}
	}
	if err0 != nil {
		c.Outcome("order", "error")
		return nil
	}
	c.Outcome("order", "listed")
	// in another order in the source, with repetitions
	rev := []dcl{}
	for i := len(pc.D) - 1; i >= 0; i-- {
		rev = append(rev, pc.D[i], pc.D[i])
	}
	d2, err := s.decls(rev)
	if err != nil {
		return err
	}
	if err := same("reversed and doubled in the source", d2); err != nil {
		return err
	}
	// again and again
	b0, err := s.stuff(decls)
	if err != nil {
		return fmt.Errorf("Stuff: %v", err)
	}
	for i := 0; i < 2; i++ {
		d, err := s.decls(pc.D)
		if err != nil {
			return err
		}
		b, err := s.stuff(d)
		if err != nil {
			return fmt.Errorf("Stuff: %v", err)
		}
		// the program itself was rewritten in between: it is the same text, but not of the same time
		if !bytes.Equal(b, b0) && !e.must[filepath.Join(s.dir, "prog.go")] {
			x, _ := embed.Decode(b0)
			y, _ := embed.Decode(b)
			n := 0
			for n < len(x) && n < len(y) && x[n] == y[n] {
				n++
			}
			return fmt.Errorf("packed again, the result is different: ...%.300s instead of ...%.300s", y[max(0, n-100):], x[max(0, n-100):])
		}
	}
	return nil
}

// perms are all permutations of n.
func perms(n int) (out [][]int) {
	if n == 0 {
		return [][]int{{}}
	}
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return
}

// packCases are all trees with sets of declarations. The order is by tree.
func packCases(c *kit.Ctx, cheap bool) (out []packCase) {
	names := []string{"file", "dir", "empty", "deep", "nested", "ext", "special", "gen"}
	all := append([]string{"-include"}, declKinds...)
	for m := 0; m < 1<<len(names); m++ {
		var t []string
		for i, n := range names {
			if m>>i&1 == 1 {
				t = append(t, n)
			}
		}
		full, edge := len(t) == len(names), len(t) <= 1 || len(t) >= len(names)-1
		if !c.Thorough() && !edge {
			continue
		}
		out = append(out, packCase{Tree: t})
		for _, k := range all {
			for _, v := range packTargets {
				out = append(out, packCase{Tree: t, D: []dcl{{k, v}}})
			}
		}
		// every entry by itself
		for _, g := range t {
			for _, n := range packGroups[g] {
				v := "/" + strings.TrimSuffix(n, "/")
				if strings.HasPrefix(n, "ext/") {
					v = fsx.Ext + ":" + strings.TrimPrefix(v, "/ext")
				}
				if strings.Contains(n, ".tmp") && strings.HasSuffix(n, "/") {
					continue
				}
				for _, k := range []string{"-include", "Open", "Walk"} {
					out = append(out, packCase{Tree: t, D: []dcl{{k, v}}})
				}
			}
		}
		// pairs
		kinds := []string{}
		switch {
		case full && (cheap || c.Thorough()):
			kinds = all
		case full:
			kinds = []string{"-include", "Open", "Walk", "Create", "MkdirAll"}
		case c.Thorough() && (cheap || edge):
			kinds = []string{"Open", "Walk", "Create", "MkdirAll"}
		}
		for _, k := range kinds {
			for _, l := range kinds {
				for _, v := range packTargets {
					for _, w := range packTargets {
						if k < l || k == l && v <= w {
							out = append(out, packCase{Tree: t, D: []dcl{{k, v}, {l, w}}})
						}
					}
				}
			}
		}
		// triples, one of them creating something
		targets := []string{"/a.txt", "/a", "/a/b.txt", "/", "/nested", "/nested/n.txt", fsx.Ext + ":/e.txt", fsx.Ext + ":/", "/gen", "/gen/new.txt", "/missing.txt", "/sp"}
		switch {
		case full && c.Thorough():
			targets = packTargets
		case full || c.Thorough() && len(t) >= len(names)-1:
		default:
			continue
		}
		for _, u := range targets {
			for _, v := range targets {
				for _, w := range []string{"/gen", "/gen/new.txt", "/missing.txt", fsx.Ext + ":/missing.txt", "/missing/dir", "/a.txt", "/a", fsx.Ext + ":/a.txt", "/nested/n.txt"} {
					for _, k := range []string{"Open", "Walk"} {
						for _, l := range []string{"Create", "MkdirAll"} {
							out = append(out, packCase{Tree: t, D: []dcl{{"Stat", u}, {k, v}, {l, w}}})
						}
					}
				}
			}
		}
	}
	for _, v := range []string{"/big/1m", "/big/4m", "/big", "/", "/big/wide"} {
		out = append(out, packCase{Tree: []string{"big"}, D: []dcl{{"Open", v}}}, packCase{Tree: []string{"file", "big"}, D: []dcl{{"Walk", v}, {"-include", "/a.txt"}}})
	}
	// a program which names each file itself, one or two declarations to a file
	for _, n := range []int{300, 1300} {
		var one, two []dcl
		for i := 0; i < n; i++ {
			v := fmt.Sprintf("/big/wide/%d", i)
			one = append(one, dcl{"Open", v})
			if i%2 == 0 {
				two = append(two, dcl{"Stat", v}, dcl{"Open", v})
			}
		}
		out = append(out, packCase{Tree: []string{"big"}, D: one}, packCase{Tree: []string{"big"}, D: two})
	}
	return
}

func runPacks(c *kit.Ctx, f func(s *skel, c *kit.Ctx, pc packCase) error, cheap bool) {
	s := packSkel(c)
	cs := packCases(c, cheap)
	c.Set("cases", len(cs))
	// neighbouring cases share the tree: hand out blocks
	lo, hi := len(cs)*c.Nth/c.Of, len(cs)*(c.Nth+1)/c.Of
	for i := lo; i < hi; i++ {
		if c.Expired() || c.Enough() {
			return
		}
		pc := cs[i]
		c.States.Add(1)
		c.Transitions.Add(int64(len(pc.D)))
		c.Check(int64(i), fmt.Sprint(pc), pc, func() error { return f(s, c, pc) })
		if i%1009 == 7 && c.WantSample() {
			c.Sample(pc)
		}
	}
}

func replayPack(f func(s *skel, c *kit.Ctx, pc packCase) error) func(c *kit.Ctx, raw json.RawMessage) error {
	return func(c *kit.Ctx, raw json.RawMessage) error {
		var pc packCase
		if err := json.Unmarshal(raw, &pc); err != nil {
			return err
		}
		return f(packSkel(c), c, pc)
	}
}

const packRule = "trees (subsets of groups of entries: files, directories, empty ones, another module, a module inside the module, names that are special elsewhere) x sets of up to three declarations (function or command-line include x target: existing, missing, created, in other modules, in several spellings), written as a program and parsed by the real parser; "

// C18 is expanding declarations.
func C18() *kit.Prop {
	return &kit.Prop{ID: "C18", Level: "model_checking", Shards: true,
		Rule:   packRule + "the listed files are compared with a walk of the disk",
		Run:    func(c *kit.Ctx) { runPacks(c, (*skel).list, true) },
		Replay: replayPack((*skel).list)}
}

// C12 is packing what is listed.
func C12() *kit.Prop {
	return &kit.Prop{ID: "C12", Level: "model_checking", Shards: true,
		Rule:   packRule + "they are packed by the real code, the result is loaded, and every listed entry, listing and walk is compared with the disk, and the whole packed file system with the list",
		Run:    func(c *kit.Ctx) { runPacks(c, (*skel).pack, false) },
		Replay: replayPack((*skel).pack)}
}

// C14 is packing deterministically.
func C14() *kit.Prop {
	return &kit.Prop{ID: "C14", Level: "model_checking", Shards: true,
		Rule:   packRule + "the files are listed for every permutation, repetition and source order of the declarations, and packed three times from fresh parses",
		Run:    func(c *kit.Ctx) { runPacks(c, (*skel).order, false) },
		Replay: replayPack((*skel).order)}
}
