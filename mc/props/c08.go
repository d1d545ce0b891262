package props

import (
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"net/http"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/embed"
	"github.com/markbates/pkger/pkging/mem"
	"github.com/markbates/pkger/pkging/stdos"

	"verif.local/mc/fsx"
	"verif.local/mc/kit"
)

// entry is one file or directory of a prepared tree, recognisable by its modification time.
type entry struct {
	Name string
	Dir  bool
	Data string
	At   time.Time
}

// memFrom makes an in-memory file system with the given entries per package.
func memFrom(infos map[string]here.Info, main string, trees map[string][]entry) pkging.Pkger {
	d := embed.Data{Infos: infos, Files: map[string]embed.File{}, Here: infos[main]}
	for g, es := range trees {
		for _, e := range es {
			mode := fs.FileMode(0644)
			if e.Dir {
				mode = 0755 | fs.ModeDir
			}
			ef := embed.File{Here: infos[g], Path: here.Path{Pkg: g, Name: e.Name}, Info: &pkging.FileInfo{Details: pkging.Details{
				Name: path.Base(e.Name), Size: int64(len(e.Data)), Mode: mode, IsDir: e.Dir, ModTime: pkging.ModTime(e.At)}}}
			if !e.Dir {
				ef.Data = []byte(e.Data)
			}
			d.Files[g+":"+e.Name] = ef
		}
	}
	j, err := json.Marshal(d)
	if err != nil {
		panic(err)
	}
	p := &mem.Pkger{}
	if err := p.UnmarshalJSON(j); err != nil {
		panic(err)
	}
	return p
}

// jail is a module directory surrounded by files that nobody may touch.
type jail struct {
	n    int
	top  string            // the watched region
	dirs map[string]string // package -> directory
	tree map[string][]entry
	at   map[string]map[int64]bool // package -> modification times of its entries
	fx   pkging.Pkger
	kind string
	out  string // snapshot of the surroundings
	in   map[string]string
}

func jailTree(base int64) []entry {
	es := []entry{{Name: "/", Dir: true}, {Name: "/a", Dir: true}, {Name: "/a/a", Data: "IN-aa"}, {Name: "/a/b", Dir: true}, {Name: "/a/b/a", Data: "IN-aba"}, {Name: "/ab", Data: "IN-ab"}, {Name: "/b", Dir: true}, {Name: "/b/a", Data: "IN-ba"}}
	for i := range es {
		es[i].At = time.Unix(base+int64(i)*10, 0)
	}
	return es
}

func extName(n int) string { return fmt.Sprintf("example.com/ext%d", n) }

func newJail(c *kit.Ctx, n int) *jail {
	top := filepath.Join(c.Work, fmt.Sprintf("w%d", n))
	outer := filepath.Join(top, "d1", "d2", "d3", "d4", "d5", "outer")
	j := &jail{n: n, top: top, kind: "os", dirs: map[string]string{fsx.Main: filepath.Join(outer, "app"), extName(n): filepath.Join(outer, "a", "ext")},
		tree: map[string][]entry{fsx.Main: jailTree(1000000000), extName(n): append(jailTree(1100000000), entry{Name: "/ext.go", Data: "package ext\n", At: time.Unix(1100000900, 0)}, entry{Name: "/go.mod", Data: "module " + extName(n) + "\n\ngo 1.13\n", At: time.Unix(1100000910, 0)})},
		at:   map[string]map[int64]bool{}, in: map[string]string{}}
	os.RemoveAll(top)
	for _, f := range []string{"b", "a/a", "a/b/a", "appa", "ab", "app-/a", "secret/a"} {
		for d := outer; len(d) > len(c.Work); d = filepath.Dir(d) {
			p := filepath.Join(d, f)
			if _, err := os.Lstat(p); err != nil {
				os.MkdirAll(filepath.Dir(p), 0755)
				os.WriteFile(p, []byte("OUTSIDE"), 0644)
			}
		}
	}
	for g, es := range j.tree {
		j.at[g] = map[int64]bool{}
		for _, e := range es {
			j.at[g][e.At.Unix()] = true
		}
		j.plant(g)
		j.in[g] = snap(j.dirs[g], "")
	}
	j.out = j.around("")
	fx, err := stdos.New(fsx.Info(j.dirs[fsx.Main]))
	if err != nil {
		panic(err)
	}
	j.fx = fx
	return j
}

// plant (re)makes the module directory of a package.
func (j *jail) plant(g string) {
	dir := j.dirs[g]
	des, _ := os.ReadDir(dir)
	for _, de := range des {
		os.RemoveAll(filepath.Join(dir, de.Name()))
	}
	es := j.tree[g]
	for _, e := range es {
		p := filepath.Join(dir, e.Name)
		if e.Dir {
			os.MkdirAll(p, 0755)
			continue
		}
		if err := os.WriteFile(p, []byte(e.Data), 0644); err != nil {
			panic(err)
		}
	}
	for i := len(es) - 1; i >= 0; i-- {
		os.Chtimes(filepath.Join(dir, es[i].Name), es[i].At, es[i].At)
	}
	// the root last: the entries written changed its time
	for i := range es {
		if es[i].Dir {
			os.Chtimes(filepath.Join(dir, es[i].Name), es[i].At, es[i].At)
		}
	}
}

// snap lists everything below dir except the subtree skip.
func snap(dir string, skip ...string) string {
	var w strings.Builder
	var rec func(d string)
	rec = func(d string) {
		des, err := os.ReadDir(d)
		if err != nil {
			fmt.Fprintf(&w, "%s: %v\n", d, err)
			return
		}
		for _, de := range des {
			p := d + "/" + de.Name()
			sk := false
			for _, s := range skip {
				sk = sk || p == s
			}
			if sk {
				continue
			}
			if de.IsDir() {
				w.WriteString(p)
				w.WriteByte('\n')
				rec(p)
				continue
			}
			if fi, err := de.Info(); err == nil {
				fmt.Fprintf(&w, "%s %d %d %v\n", p, fi.Size(), fi.ModTime().UnixNano(), fi.Mode())
			}
		}
	}
	if fi, err := os.Lstat(dir); err != nil || !fi.IsDir() {
		return "gone"
	}
	rec(dir)
	return w.String()
}

// around lists what lies around the module directories.
func (j *jail) around(g string) string {
	var skip []string
	for _, d := range j.dirs {
		skip = append(skip, d)
	}
	return snap(j.top, skip...)
}

// settle checks that only package g changed, and restores it.
func (j *jail) settle(g, what string) error {
	out := j.around(g)
	bad := out != j.out
	for o, d := range j.dirs {
		if in := snap(d); in != j.in[o] {
			if o != g {
				bad = true
				out = in
			}
			j.plant(o)
		}
	}
	if bad {
		*j = *newJail(&kit.Ctx{Work: filepath.Dir(j.top)}, j.n)
		return fmt.Errorf("%s changed something outside of the directory of %s:\n%s", what, g, out)
	}
	return nil
}

// within tells whether an info is one of an entry of the package.
func (j *jail) inside(g string, fi os.FileInfo, under string) error {
	if fi == nil {
		return nil
	}
	for _, e := range j.tree[g] {
		if e.At.Unix() == fi.ModTime().Unix() && (under == "/" || e.Name == under || strings.HasPrefix(e.Name, under+"/")) {
			return nil
		}
	}
	return fmt.Errorf("shows an entry (%q, dir %v, modified %v) that is not beneath %s:%s", fi.Name(), fi.IsDir(), fi.ModTime().UTC(), g, under)
}

// peek reads everything a handle gives.
func (j *jail) peek(g, under string, h http.File, depth int) error {
	fi, err := h.Stat()
	if err != nil {
		return nil
	}
	if err := j.inside(g, fi, under); err != nil {
		return err
	}
	if !fi.IsDir() {
		b, err := io.ReadAll(h)
		if err == nil && len(b) > 0 && !strings.HasPrefix(string(b), "IN-") && !strings.HasPrefix(string(b), "package ext") && !strings.HasPrefix(string(b), "module ") {
			return fmt.Errorf("reads %q", b)
		}
		return nil
	}
	fis, _ := h.Readdir(-1)
	for _, fi := range fis {
		if err := j.inside(g, fi, under); err != nil {
			return fmt.Errorf("lists: %v", err)
		}
	}
	return nil
}

type pathCase struct {
	Kind string `json:"fs"`
	Pkg  string `json:"package"`
	Dir  string `json:"through_handle_of,omitempty"`
	Path string `json:"path"`
}

// path spells a case's path: $DIR and $PKG stand for scratch names.
func (j *jail) path(s string) string {
	s = strings.ReplaceAll(s, "$EXT", extName(j.n))
	return strings.ReplaceAll(s, "$DIR", j.dirs[fsx.Main])
}

// runPath runs every operation of the on-disk file system on one path.
func (j *jail) runPath(c *kit.Ctx, t pathCase) error {
	g := fsx.Main
	if t.Pkg == "ext" {
		g = extName(j.n)
	}
	s := j.path(t.Path)
	if rest := strings.TrimPrefix(t.Path, "$EXT:"); g != fsx.Main && !strings.HasPrefix(rest, "/") && !strings.HasPrefix(rest, "\\") {
		// not a qualified path: it may denote something in the current module
		if pt, err := j.fx.Parse(s); err == nil && pt.Pkg == fsx.Main {
			g = fsx.Main
		}
	}
	ok := 0
	if fi, err := j.fx.Stat(s); err == nil {
		ok++
		if err := j.inside(g, fi, "/"); err != nil {
			return fmt.Errorf("Stat(%q) %v", s, err)
		}
	}
	if h, err := j.fx.Open(s); err == nil {
		ok++
		err := j.peek(g, "/", h, 1)
		h.Close()
		if err != nil {
			return fmt.Errorf("Open(%q) %v", s, err)
		}
		if h.Path().Pkg != g {
			return fmt.Errorf("Open(%q) is in package %q", s, h.Path().Pkg)
		}
	}
	var bad error
	j.fx.Walk(s, func(p string, fi os.FileInfo, err error) error {
		if e := j.inside(g, fi, "/"); e != nil {
			bad = fmt.Errorf("Walk(%q) %v", s, e)
			return bad
		}
		if !strings.HasPrefix(p, g+":/") {
			bad = fmt.Errorf("Walk(%q) visits %q", s, p)
			return bad
		}
		return err
	})
	if bad != nil {
		return bad
	}
	if h, err := j.fx.Create(s); err == nil {
		ok++
		h.Write([]byte("NEW"))
		h.Close()
	}
	if err := j.settle(g, fmt.Sprintf("Create(%q)", s)); err != nil {
		return err
	}
	if j.fx.MkdirAll(s, 0755) == nil {
		ok++
	}
	if err := j.settle(g, fmt.Sprintf("MkdirAll(%q)", s)); err != nil {
		return err
	}
	if j.fx.Remove(s) == nil {
		ok++
	}
	if err := j.settle(g, fmt.Sprintf("Remove(%q)", s)); err != nil {
		return err
	}
	if j.fx.RemoveAll(s) == nil {
		ok++
	}
	if err := j.settle(g, fmt.Sprintf("RemoveAll(%q)", s)); err != nil {
		return err
	}
	c.Transitions.Add(7)
	c.Traces.Add(7)
	c.Outcome("operations_that_took_effect_per_path", fmt.Sprint(ok))
	return nil
}

// runHandle opens one name through a directory handle.
func (j *jail) runHandle(c *kit.Ctx, t pathCase, fx pkging.Pkger) error {
	g := fsx.Main
	if t.Pkg == "ext" {
		g = extName(j.n)
	}
	d, err := fx.Open(g + ":" + t.Dir)
	if err != nil {
		return nil // C01
	}
	defer d.Close()
	s := j.path(t.Path)
	h, err := d.Open(s)
	c.Transitions.Add(1)
	c.Traces.Add(1)
	if err != nil {
		c.Outcome("handle_open", "error")
		return nil
	}
	defer h.Close()
	c.Outcome("handle_open", "opened")
	if err := j.peek(g, t.Dir, h, 1); err != nil {
		return fmt.Errorf("%s: Open(%q) through a handle of %s:%s %v", t.Kind, s, g, t.Dir, err)
	}
	// and once more through what was returned
	o, ok := h.(interface {
		Open(string) (http.File, error)
	})
	if !ok {
		return nil
	}
	for _, s2 := range []string{"..", "/..", "../a", "../../a", `..\a`, "a/../../a", "/a"} {
		h2, err := o.Open(s2)
		if err != nil {
			continue
		}
		err = j.peek(g, t.Dir, h2, 1)
		h2.Close()
		if err != nil {
			return fmt.Errorf("%s: Open(%q) of Open(%q) through a handle of %s:%s %v", t.Kind, s2, s, g, t.Dir, err)
		}
	}
	return nil
}

// jails makes one jail per worker and lets the go command know all their modules.
func jails(c *kit.Ctx, n int) []*jail {
	var js []*jail
	mod := "module " + fsx.Main + "\n\ngo 1.13\n"
	for i := 0; i < n; i++ {
		j := newJail(c, i)
		js = append(js, j)
		mod += fmt.Sprintf("require %s v0.0.0\nreplace %s => %s\n", extName(i), extName(i), j.dirs[extName(i)])
	}
	root := filepath.Join(c.Work, "main")
	os.MkdirAll(root, 0755)
	os.WriteFile(filepath.Join(root, "go.mod"), []byte(mod), 0644)
	os.WriteFile(filepath.Join(root, "main.go"), []byte("package main\nfunc main() {}\n"), 0644)
	os.Chdir(root)
	for i, j := range js {
		in, err := j.fx.Info(extName(i))
		if err != nil || in.Dir != j.dirs[extName(i)] {
			out, _ := exec.Command("go", "list", "-json", "-find", extName(i)).CombinedOutput()
			panic(fmt.Sprintf("harness: Info(%s) = %v, %v\n%s", extName(i), in.Dir, err, out))
		}
		c.Beat()
	}
	os.Setenv("PATH", "/nonexistent") // other packages are unknown from here on
	return js
}

// pathStrings enumerates all strings of up to n tokens.
func pathStrings(tokens []string, n int) []string {
	seen := map[string]bool{"": true}
	out := []string{""}
	lo := 0
	for i := 0; i < n; i++ {
		hi := len(out)
		for k := lo; k < hi; k++ {
			for _, t := range tokens {
				s := out[k] + t
				if !seen[s] {
					seen[s] = true
					out = append(out, s)
				}
			}
		}
		lo = hi
	}
	return out
}

func c08Paths(c *kit.Ctx) (main, ext, names []string) {
	chars := pathStrings([]string{"/", ".", "\\", ":", "a"}, c.Pick(6, 7))
	tokens := pathStrings([]string{"/", "..", ".", "\\", ":", "a", "/..", "\\..", "ab", " "}, c.Pick(4, 5))
	short := pathStrings([]string{"/", "..", ".", "\\", ":", "a"}, c.Pick(4, 6))
	set := map[string]bool{}
	add := func(s string) {
		if !set[s] {
			set[s] = true
			main = append(main, s)
		}
	}
	for _, s := range append(chars, tokens...) {
		add(s)
	}
	names = append([]string{}, main...)
	for _, s := range short {
		add("$DIR" + s)
		add(fsx.Main + ":" + s)
		add(fsx.Main + ":$DIR" + s)
		add(s + "$DIR")
		add(s + ":/../../secret/a")
		ext = append(ext, "$EXT:"+s, "$EXT:/"+s)
	}
	// one long ladder upwards in several writings
	for _, up := range []string{"/..", "/./..", "\\..", "/../.", "//..", "/a/../.."} {
		for n := 1; n < 9; n++ {
			for _, tail := range []string{"", "/a", "\\a", "/a/a", "/secret/a", "/app-/a", "a", "/outer/a"} {
				s := strings.Repeat(up, n) + tail
				add(s)
				add(":" + s)
				add(fsx.Main + ":" + s)
				add("$DIR" + s)
				add("/a" + s)
				names = append(names, s, "a"+s, strings.TrimPrefix(s, "/"))
				ext = append(ext, "$EXT:"+s, "$EXT:/a"+s)
			}
		}
	}
	sort.SliceStable(main, func(a, b int) bool { return len(main[a]) < len(main[b]) })
	return
}

// C08 is confinement.
func C08() *kit.Prop {
	p := &kit.Prop{ID: "C08", Level: "model_checking",
		Rule: "every string up to a length over separators, dots, backslashes, colons and a name (plus longer token strings, qualified and absolute prefixes, and ladders of dot-dot segments) is given to every operation of the real on-disk file system in a module directory surrounded by marked files; nothing outside may change or be shown. The same strings are opened through directory handles, on disk and in memory, and must stay beneath the directory"}
	p.Assume = []string{"no symbolic links", "runs as an unprivileged user in a scratch directory: an escape that needs more rights than that shows up as a failed operation"}
	p.Run = func(c *kit.Ctx) {
		js := jails(c, kit.Workers())
		mems := memJails(js)
		main, ext, names := c08Paths(c)
		c.Set("paths_current_module", len(main))
		c.Set("paths_other_package", len(ext))
		c.Set("names_through_handles", len(names))
		var cases []pathCase
		for _, s := range main {
			cases = append(cases, pathCase{"os", "main", "", s})
		}
		for _, s := range ext {
			cases = append(cases, pathCase{"os", "ext", "", s})
		}
		for _, k := range kinds {
			for _, g := range []string{"main", "ext"} {
				for _, d := range []string{"/a", "/a/b", "/"} {
					for _, s := range names {
						cases = append(cases, pathCase{k, g, d, s})
					}
				}
			}
		}
		c.States.Store(int64(len(cases)))
		c.Par(len(cases), func(i, w int) {
			t := cases[i]
			c.Check(int64(i), fmt.Sprint(t), t, func() error { return runC08(c, t, js[w], mems[w]) })
			if i%9973 == 9000 && c.WantSample() {
				c.Sample(t)
			}
		})
	}
	p.Replay = func(c *kit.Ctx, raw json.RawMessage) error {
		var t pathCase
		if err := json.Unmarshal(raw, &t); err != nil {
			return err
		}
		js := jails(c, 1)
		return runC08(c, t, js[0], memJails(js)[0])
	}
	return p
}

func memJails(js []*jail) (out []pkging.Pkger) {
	for i, j := range js {
		infos := map[string]here.Info{fsx.Main: fsx.Info(j.dirs[fsx.Main]), extName(i): {Dir: j.dirs[extName(i)], ImportPath: extName(i), Name: "ext", Module: here.Module{Path: extName(i), Dir: j.dirs[extName(i)]}}}
		out = append(out, memFrom(infos, fsx.Main, j.tree))
	}
	return
}

func runC08(c *kit.Ctx, t pathCase, j *jail, m pkging.Pkger) error {
	if t.Dir == "" {
		return j.runPath(c, t)
	}
	if t.Kind == "mem" {
		return j.runHandle(c, t, m)
	}
	return j.runHandle(c, t, j.fx)
}
