package props

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"

	"github.com/markbates/pkger/here"

	"verif.local/mc/fsx"
	"verif.local/mc/kit"
)

// lookupTree is several modules side by side and inside each other. The same names of directories are in all of them.
var lookupTree = map[string]string{
	"app/go.mod":             "module " + fsx.Main + "\n\ngo 1.13\n\nrequire (\n\t" + fsx.Ext + " v0.0.0\n\texample.com/bare v0.0.0\n)\n\nreplace " + fsx.Ext + " => ../ext\n\nreplace example.com/bare => ../bare\n",
	"app/main.go":            "package main\n\nimport (\n\t_ \"" + fsx.Ext + "\"\n\t_ \"example.com/bare/lib\"\n)\n\nfunc main() {}\n",
	"app/sub/s.go":           "package subpkg\n",
	"app/sub/deep/d.go":      "package deep\n",
	"app/plain/in/a.txt":     "a",
	"app/testonly/x_test.go": "package testonly\n",
	"app/excluded/x.go":      neverBuilt + "package excluded\n",
	"app/broken/x.go":        "package x\n",
	"app/broken/y.go":        "package y\n",
	"app/sub/plain/a.txt":    "a",
	"app/nested/go.mod":      "module example.com/nested\n\ngo 1.13\n",
	"app/nested/n.go":        "package nested\n",
	"app/nested/plain/a":     "a",
	"app/nested/sub/s.go":    "package sub\n",
	"ext/go.mod":             "module " + fsx.Ext + "\n\ngo 1.13\n",
	"ext/e.go":               "package ext\n",
	"ext/plain/a.txt":        "a",
	"ext/sub/s.go":           "package sub\n",
	"bare/go.mod":            "module example.com/bare\n\ngo 1.13\n",
	"bare/lib/l.go":          "package lib\n",
	"bare/plain/a.txt":       "a",
	"other/go.mod":           "module example.com/other\n\ngo 1.13\n",
	"other/plain/a.txt":      "a",
	"out/plain/a.txt":        "a",
	"out/sub/s.go":           "package sub\n",
}

// fact is what has to be true of an Info.
type fact struct {
	Dir, Module string // below the tree, and the module's directory
	Import      string // of packages
	Name        string // if it says more than the directory's
}

var modulePaths = map[string]string{"app": fsx.Main, "app/nested": "example.com/nested", "ext": fsx.Ext, "bare": "example.com/bare", "other": "example.com/other"}

var lookupDirs = []fact{
	{"app", "app", fsx.Main, "main"}, {"app/sub", "app", fsx.Main + "/sub", "subpkg"}, {"app/plain", "app", "", "plain"}, {"app/nested/plain", "app/nested", "", "plain"},
	{"ext/plain", "ext", "", "plain"}, {"out/plain", "", "", "plain"}, {"ext", "ext", fsx.Ext, "ext"}, {"bare", "bare", "", "bare"}, {"app/nested", "app/nested", "example.com/nested", "nested"},
	{"app/sub/plain", "app", "", "plain"}, {"app/broken", "app", "", ""}, {"app/excluded", "app", "", ""}, {"app/testonly", "app", "", ""}, {"app/plain/in", "app", "", "in"},
	{"app/sub/deep", "app", fsx.Main + "/sub/deep", "deep"}, {"ext/sub", "ext", fsx.Ext + "/sub", "sub"}, {"app/nested/sub", "app/nested", "example.com/nested/sub", "sub"},
	{"bare/lib", "bare", "example.com/bare/lib", "lib"}, {"bare/plain", "bare", "", "plain"}, {"other", "other", "", ""}, {"other/plain", "other", "", "plain"}, {"out/sub", "", "", "sub"}, {"out", "", "", ""}, {".", "", "", ""},
}

var lookupPkgs = []fact{
	{"app", "app", fsx.Main, "main"}, {"ext", "ext", fsx.Ext, "ext"}, {"bare", "bare", "example.com/bare", ""}, {"app/sub", "app", fsx.Main + "/sub", "subpkg"},
	{"bare/lib", "bare", "example.com/bare/lib", "lib"}, {"ext/sub", "ext", fsx.Ext + "/sub", "sub"},
}

// lookupCase is some lookups of a program in directory Cwd: in turn, or at a time.
type lookupCase struct {
	Cwd     string   `json:"cwd"`
	Ask     []string `json:"ask,omitempty"` // $T is the tree
	At      []string `json:"at_a_time,omitempty"`
	Choices []int    `json:"events,omitempty"`
}

type lookupSpec struct {
	Ask     []string
	At      []string
	Choices []int
	Sock    string
}

type lookupAnswer struct {
	Info here.Info
	Err  string
	Cwd  string
}

type lookupResult struct {
	Answers         []lookupAnswer
	Options, Chosen []int
	Cwds, Log       []string
	Stuck           bool
}

type lookups struct {
	c    *kit.Ctx
	tree string
	env  []string
	seq  atomic.Int64
	// first is what a question was answered by a program that asked nothing else
	first map[string]lookupAnswer
}

func newLookups(c *kit.Ctx) *lookups {
	toolEnv(c)
	l := &lookups{c: c, tree: filepath.Join(c.Work, "t"), first: map[string]lookupAnswer{}}
	plant(l.tree, lookupTree)
	bin, ans := filepath.Join(c.Work, "fake"), filepath.Join(c.Work, "answers")
	for _, d := range []string{bin, ans} {
		if err := os.MkdirAll(d, 0755); err != nil {
			panic(err)
		}
	}
	if err := os.Symlink(filepath.Join(os.Getenv("MC_BIN"), "fakego"), filepath.Join(bin, "go")); err != nil {
		panic(err)
	}
	l.env = []string{"PATH=" + bin + ":/usr/bin:/bin", "MC_GO_ANSWERS=" + ans, "MC_GO_REAL=" + os.Getenv("MC_GO")}
	return l
}

func (l *lookups) in(s []string) []string {
	var o []string
	for _, x := range s {
		o = append(o, strings.ReplaceAll(x, "$T", l.tree))
	}
	return o
}

func (l *lookups) run(lc lookupCase) (r lookupResult, err error) {
	s := lookupSpec{Ask: l.in(lc.Ask), At: l.in(lc.At), Choices: lc.Choices}
	if s.At != nil {
		s.Sock = filepath.Join(l.c.Work, fmt.Sprint("s", l.seq.Add(1)))
		defer os.Remove(s.Sock)
	}
	b, _ := json.Marshal(s)
	x := runIn(filepath.Join(l.tree, lc.Cwd), l.env, filepath.Join(os.Getenv("MC_BIN"), "lookup"), string(b))
	if x.code != 0 {
		return r, fmt.Errorf("the program that looks up ended: %v", x)
	}
	return r, json.Unmarshal([]byte(x.out), &r)
}

// right is what has to be true of the answer to a question asked in directory cwd, whatever else happens.
func (l *lookups) right(cwd, q string, a lookupAnswer) error {
	k, v, _ := strings.Cut(q, " ")
	home := cwd
	for home != "." && modulePaths[home] == "" {
		home = filepath.Dir(home)
	}
	var f *fact
	abs := true
	switch k {
	case "chdir":
		if a.Err != "" {
			return fmt.Errorf("harness: chdir: %s", a.Err)
		}
		return nil
	case "dir":
		abs = strings.HasPrefix(v, "$T/")
		d := filepath.Clean(strings.TrimPrefix(v, "$T/"))
		if !abs {
			d = filepath.Join(cwd, v)
		}
		if _, ok := lookupTree[d]; ok { // a file: its directory
			d = filepath.Dir(d)
		}
		for i := range lookupDirs {
			if lookupDirs[i].Dir == d {
				f = &lookupDirs[i]
			}
		}
		if f == nil { // it does not exist
			if a.Err == "" {
				return fmt.Errorf("found a directory that is not there: %+v", a.Info)
			}
			return nil
		}
	case "pkg":
		for i := range lookupPkgs {
			if lookupPkgs[i].Import == v {
				f = &lookupPkgs[i]
			}
		}
		if f == nil || home != "app" {
			if f == nil && a.Err == "" {
				return fmt.Errorf("found a package that is not there: %+v", a.Info)
			}
			return nil
		}
	case "current":
		for i := range lookupDirs {
			if home != "." && lookupDirs[i].Dir == home {
				f = &lookupDirs[i]
			}
		}
		if f == nil {
			return nil
		}
	}
	if a.Err != "" {
		return fmt.Errorf("fails: %s", a.Err)
	}
	dir := a.Info.Dir
	if !filepath.IsAbs(dir) && !abs {
		dir = filepath.Join(l.tree, cwd, dir)
	}
	if dir != filepath.Join(l.tree, f.Dir) {
		return fmt.Errorf("directory %q, want $T/%s", a.Info.Dir, f.Dir)
	}
	wantDir := ""
	if f.Module != "" {
		wantDir = filepath.Join(l.tree, f.Module)
	}
	if f.Module != "" && a.Info.Module.Path != modulePaths[f.Module] || a.Info.Module.Dir != wantDir {
		return fmt.Errorf("module %q in %q, want %q in $T/%s", a.Info.Module.Path, a.Info.Module.Dir, modulePaths[f.Module], f.Module)
	}
	if f.Import != "" && a.Info.ImportPath != f.Import && f.Name != "" {
		return fmt.Errorf("import path %q, want %q", a.Info.ImportPath, f.Import)
	}
	if f.Name != "" && a.Info.Name != f.Name && abs {
		return fmt.Errorf("name %q, want %q", a.Info.Name, f.Name)
	}
	return nil
}

// alike compares an answer with the one given to a program that asked nothing else.
func (l *lookups) alike(cwd, q string, a lookupAnswer) error {
	w, ok := l.first[cwd+" "+q]
	if !ok {
		r, err := l.run(lookupCase{Cwd: cwd, Ask: []string{q}})
		if err != nil {
			return err
		}
		w = r.Answers[0]
	}
	if (a.Err != "") != (w.Err != "") {
		return fmt.Errorf("error %q; when nothing else is asked: %q", a.Err, w.Err)
	}
	// how it was matched, and what it imports, is only gathered for some
	say := func(i here.Info) string {
		return fmt.Sprintf("directory %s, import path %q, name %q, module %+v, Go files %q", i.Dir, i.ImportPath, i.Name, i.Module, i.GoFiles)
	}
	if a.Err == "" && say(a.Info) != say(w.Info) {
		return fmt.Errorf("%s; when nothing else is asked: %s", say(a.Info), say(w.Info))
	}
	return nil
}

func (l *lookups) judge(lc lookupCase, r lookupResult) error {
	if r.Stuck {
		return fmt.Errorf("no lookup goes on after %s", strings.Join(r.Log, ", "))
	}
	if lc.At != nil {
		start := filepath.Join(l.tree, lc.Cwd)
		for i, d := range r.Cwds {
			if d != start {
				return fmt.Errorf("the program is in directory %s instead of %s before step %d of: %s", d, start, i+1, strings.Join(r.Log, ", "))
			}
		}
		for i, a := range r.Answers {
			err := l.right(lc.Cwd, lc.At[i], a)
			if err == nil {
				err = l.alike(lc.Cwd, lc.At[i], a)
			}
			if err == nil && a.Cwd != start {
				err = fmt.Errorf("the program is in directory %s instead of %s", a.Cwd, start)
			}
			if err != nil {
				return fmt.Errorf("%s: %v, when looked up at the same time in this order: %s", lc.At[i], err, strings.Join(r.Log, ", "))
			}
		}
		return nil
	}
	cwd, moved := lc.Cwd, false
	for i, a := range r.Answers {
		q := lc.Ask[i]
		if t := strings.TrimPrefix(q, "chdir $T/"); t != q {
			cwd, moved = t, true
		}
		if moved && strings.HasPrefix(q, "pkg ") {
			continue // what a package means in another module is not claimed
		}
		err := l.right(cwd, q, a)
		if err == nil && !strings.HasPrefix(q, "chdir ") {
			err = l.alike(cwd, q, a)
		}
		if err == nil && a.Cwd != filepath.Join(l.tree, cwd) {
			err = fmt.Errorf("the program is in directory %s instead of $T/%s", a.Cwd, cwd)
		}
		if err != nil {
			return fmt.Errorf("%s, looked up after %v: %v", q, lc.Ask[:i], err)
		}
	}
	return nil
}

func (l *lookups) one(lc lookupCase) (lookupResult, error) {
	r, err := l.run(lc)
	if err == nil {
		err = l.judge(lc, r)
	}
	return r, err
}

// all is every question; the first n of directories and m of packages.
func lookupAsks(n, m int) []string {
	q := []string{"current"}
	for i, f := range lookupDirs {
		if i < n && f.Dir != "." {
			q = append(q, "dir $T/"+f.Dir)
		}
	}
	for i, f := range lookupPkgs {
		if i < m {
			q = append(q, "pkg "+f.Import)
		}
	}
	return q
}

// C29 is the lookup property.
func C29() *kit.Prop {
	p := &kit.Prop{ID: "C29", Level: "model_checking",
		Rule:   "all sequences, to the depth, of lookups of directories (packages, directories without Go files, with files of two packages, excluded or test files only, in nested, required and unrelated modules and in none), packages and the current module, from several working directories, also changing it; and all orders of the starts of two and three lookups at a time and of the go commands they run, each in a fresh process of the real package with a go command that gives the real one's answers and is let go on by the explorer; every answer is compared with the tree and with the one given when nothing else is asked, and the working directory at every step",
		Assume: []string{"what the go command says of a directory that does not change is always the same"}}
	p.Run = func(c *kit.Ctx) {
		l := newLookups(c)
		cwds := []string{"app", "app/sub", "app/plain", "app/nested/plain", "bare", "out"}
		wide := append(lookupAsks(99, 99), "dir .", "dir $T/app/missing", "dir $T/app/plain/in/a.txt", "dir $T/app/nested/plain/a", "dir $T/ext/sub/s.go", "dir $T/app/sub/../plain/", "pkg example.com/missing", "dir sub", "dir plain", "dir ..")
		// alone
		type q struct{ cwd, ask string }
		var alone []q
		for _, d := range cwds {
			for _, a := range wide {
				alone = append(alone, q{d, a})
			}
		}
		got := make([]lookupAnswer, len(alone))
		c.Par(len(alone), func(i, w int) {
			lc := lookupCase{Cwd: alone[i].cwd, Ask: []string{alone[i].ask}}
			c.Transitions.Add(1)
			c.Traces.Add(1)
			c.Check(int64(i), "ask"+fmt.Sprint(lc), lc, func() error {
				r, err := l.run(lc)
				if err != nil {
					return err
				}
				got[i] = r.Answers[0]
				if got[i].Cwd != filepath.Join(l.tree, lc.Cwd) {
					return fmt.Errorf("the program is in directory %s instead of $T/%s", got[i].Cwd, lc.Cwd)
				}
				return l.right(lc.Cwd, lc.Ask[0], got[i])
			})
		})
		for i, x := range alone {
			l.first[x.cwd+" "+x.ask] = got[i]
		}
		if c.Enough() {
			return
		}
		// in turn
		var cases []lookupCase
		for _, d := range cwds {
			for _, a := range wide {
				for _, b := range wide {
					if d == "app" || c.Thorough() || (a != b && strings.HasPrefix(b, "dir $T/app")) || b == "current" {
						cases = append(cases, lookupCase{Cwd: d, Ask: []string{a, b}})
					}
				}
			}
		}
		few := lookupAsks(c.Pick(6, 14), c.Pick(3, 5))
		for _, a := range few {
			for _, b := range few {
				for _, x := range few {
					cases = append(cases, lookupCase{Cwd: "app", Ask: []string{a, b, x}})
				}
			}
		}
		for _, d := range cwds {
			for _, e := range cwds {
				for _, a := range []string{"dir .", "current", "dir sub", "dir plain", "dir .."} {
					for _, b := range []string{"dir .", "current", "dir sub", "dir plain", "dir .."} {
						cases = append(cases, lookupCase{Cwd: d, Ask: []string{a, "chdir $T/" + e, b, a}})
					}
				}
			}
		}
		c.Par(len(cases), func(i, w int) {
			c.Transitions.Add(int64(len(cases[i].Ask)))
			c.Traces.Add(1)
			c.Check(int64(1000+i), "ask"+fmt.Sprint(cases[i]), cases[i], func() error { _, err := l.one(cases[i]); return err })
		})
		c.Set("sequences", len(cases))
		if c.Enough() {
			return
		}
		// at a time
		var at [][]string
		pairs := lookupAsks(c.Pick(10, 99), c.Pick(3, 99))
		for _, a := range pairs {
			for _, b := range pairs {
				at = append(at, []string{a, b})
			}
		}
		three := lookupAsks(c.Pick(4, 8), c.Pick(1, 3))
		for i, a := range three {
			for j, b := range three {
				for k, x := range three {
					if c.Thorough() || i <= j && j <= k && i < k {
						at = append(at, []string{a, b, x})
					}
				}
			}
		}
		var n atomic.Int64
		c.Par(len(at), func(i, w int) {
			lc := lookupCase{Cwd: []string{"app", "app/plain"}[i%2], At: at[i]}
			c.Check(int64(100000+i), "at"+fmt.Sprint(lc), lc, func() error {
				todo := [][]int{nil}
				for len(todo) > 0 {
					lc.Choices = todo[len(todo)-1]
					todo = todo[:len(todo)-1]
					c.Beat()
					n.Add(1)
					c.Traces.Add(1)
					r, err := l.one(lc)
					if err != nil {
						return fmt.Errorf("events %v: %v", lc.Choices, err)
					}
					c.Transitions.Add(int64(len(r.Options)))
					for s := len(lc.Choices); s < len(r.Options); s++ {
						for o := 1; o < r.Options[s]; o++ {
							todo = append(todo, append(append([]int{}, r.Chosen[:s]...), o))
						}
					}
					if c.WantSample() {
						c.Sample(strings.Join(r.Log, ", "))
					}
				}
				return nil
			})
		})
		c.States.Store(int64(len(alone)))
		c.Set("orders_of_events", n.Load())
		c.Set("lookups_at_a_time", len(at))
	}
	p.Replay = func(c *kit.Ctx, raw json.RawMessage) error {
		var lc lookupCase
		if err := json.Unmarshal(raw, &lc); err != nil {
			return err
		}
		l := newLookups(c)
		if lc.At == nil || lc.Choices != nil {
			_, err := l.one(lc)
			return err
		}
		todo := [][]int{nil}
		for len(todo) > 0 {
			lc.Choices = todo[len(todo)-1]
			todo = todo[:len(todo)-1]
			r, err := l.one(lc)
			if err != nil {
				return fmt.Errorf("events %v: %v", lc.Choices, err)
			}
			for s := len(lc.Choices); s < len(r.Options); s++ {
				for o := 1; o < r.Options[s]; o++ {
					todo = append(todo, append(append([]int{}, r.Chosen[:s]...), o))
				}
			}
		}
		return nil
	}
	return p
}
