package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/http"
	"path"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/pkgutil"

	"verif.local/mc/fsx"
	"verif.local/mc/kit"
	"verif.local/mc/ref"
)

// treeCheck observes every tree of a universe.
type treeCheck struct {
	u     uni
	depth int
	see   func(c *kit.Ctx, b *fsx.Back, f *ref.FS, ps []ref.Path, more json.RawMessage) error
}

type treeCase struct {
	Back string          `json:"fs"`
	Init string          `json:"init,omitempty"`
	Ops  []fsx.Op        `json:"ops"`
	More json.RawMessage `json:"observe,omitempty"`
}

func (t *treeCheck) one(c *kit.Ctx, h treeCase, worker int) error {
	b, f := start(c, hist{Back: h.Back, Init: h.Init}, worker)
	var pkgs []string
	if h.Init == "multi" {
		pkgs = []string{fsx.Ext}
	}
	if err := play(b, f, h.Ops, func(fsx.Op, bool) bool { return false }); err != nil {
		return foreign(c, err)
	}
	return t.see(c, b, f, append(t.u.paths(pkgs...), ref.Path{Pkg: fsx.Main, Name: "/"}, ref.Path{Pkg: fsx.Ext, Name: "/"}), h.More)
}

func (t *treeCheck) run(c *kit.Ctx) {
	states := explore(c, ref.New(fsx.Main), t.u.mk(), 14, 200000)
	c.Set("trees", len(states))
	_, mf := fsx.NewMulti()
	var mops []fsx.Op
	for _, o := range append(t.u.mk(), t.u.rm()...) {
		mops = append(mops, o)
		o.G = fsx.Ext
		mops = append(mops, o)
	}
	mst := explore(c, mf, mops, c.Pick(1, 2), 5000)
	c.Set("trees_two_packages", len(mst))
	var jobs []treeCase
	for i := range states {
		for _, k := range kinds {
			jobs = append(jobs, treeCase{Back: k, Ops: states[i].ops})
		}
		if len(states[i].ops) > 0 {
			jobs = append(jobs, treeCase{Back: "mem", Ops: append(append([]fsx.Op{}, states[i].ops...), fsx.Op{K: "reload", P: "/"})})
		}
	}
	for i := range mst {
		jobs = append(jobs, treeCase{Back: "mem", Init: "multi", Ops: mst[i].ops})
	}
	c.Par(len(jobs), func(i, w int) {
		c.States.Add(1)
		c.Traces.Add(1)
		b, _ := json.Marshal(jobs[i])
		if len(jobs[i].Ops) > 4 && c.WantSample() {
			c.Sample(string(b))
		}
		c.Check(int64(i), string(b), jobs[i], func() error { return t.one(c, jobs[i], w) })
	})
}

func (t *treeCheck) replay(c *kit.Ctx, raw json.RawMessage) error {
	var h treeCase
	if err := json.Unmarshal(raw, &h); err != nil {
		return err
	}
	return t.one(c, h, 0)
}

// walkAnswers enumerates callback behaviours for a walk of n visits: always continue; SkipDir or an error at each position; and
// every pair of SkipDir followed by SkipDir or an error.
func walkAnswers(n int, f func(name string, a func(i int) int)) {
	at := func(m map[int]int) func(int) int { return func(i int) int { return m[i] } }
	f("continue", fsx.Continue)
	for i := 0; i < n; i++ {
		for v := 1; v <= 2; v++ {
			f(fmt.Sprintf("%d at %d", v, i), at(map[int]int{i: v}))
			if v == 2 {
				continue
			}
			for j := i + 1; j < n; j++ {
				f(fmt.Sprintf("skip at %d, skip at %d", i, j), at(map[int]int{i: 1, j: 1}))
				f(fmt.Sprintf("skip at %d, error at %d", i, j), at(map[int]int{i: 1, j: 2}))
				for k := j + 1; k < n; k++ {
					f(fmt.Sprintf("skip at %d, %d and %d", i, j, k), at(map[int]int{i: 1, j: 1, k: 1}))
				}
			}
		}
	}
}

func walks(c *kit.Ctx, b *fsx.Back, f *ref.FS, ps []ref.Path, _ json.RawMessage) error {
	for _, p := range ps {
		if p.Pkg != fsx.Main && len(f.Names(p.Pkg)) == 0 {
			continue
		}
		_, ok := f.Get(p)
		if !ok {
			// nothing must be visited but descendants (whose directories may not be entries of their own)
			if b.Kind == "mem" {
				if err := b.WalkIs(f, p, p.String(), fsx.Continue); err != nil {
					return err
				}
			}
			continue
		}
		rooted := f.Root[p.Pkg] || b.Kind == "os" || p.Name != "/"
		all, _ := f.Walk(p, rooted, fsx.Continue)
		var bad error
		spelled := p.String()
		walkAnswers(len(all), func(name string, a func(int) int) {
			if bad != nil || !rooted && name != "continue" {
				return
			}
			c.Transitions.Add(1)
			if err := b.WalkIs(f, p, spelled, a); err != nil {
				bad = fmt.Errorf("%v [callback: %s]", err, name)
			}
		})
		if bad != nil {
			return bad
		}
	}
	return dumped(b, f)
}

// dumped compares the dump of the file system with the model: the walk of its root, with the information of the entries.
func dumped(b *fsx.Back, f *ref.FS) error {
	root := ref.Path{Pkg: fsx.Main, Name: "/"}
	rooted := f.Root[fsx.Main] || b.Kind == "os"
	if !rooted && len(f.Names(fsx.Main)) == 0 {
		return nil // nothing to walk
	}
	var w bytes.Buffer
	if err := pkgutil.Dump(&w, b.FS); err != nil {
		return fmt.Errorf("%s: Dump: %v", b.Kind, err)
	}
	var d struct {
		Type  string
		Info  here.Info
		Paths map[string]*pkging.FileInfo
	}
	if err := json.Unmarshal(w.Bytes(), &d); err != nil {
		return fmt.Errorf("%s: Dump writes %.200q: %v", b.Kind, w.Bytes(), err)
	}
	cur, err := b.FS.Current()
	if err != nil || d.Info.ImportPath != cur.ImportPath || d.Info.Dir != cur.Dir || d.Info.Module != cur.Module || d.Type != fmt.Sprintf("%T", b.FS) {
		return fmt.Errorf("%s: Dump says it is a %s of %+v: %v", b.Kind, d.Type, d.Info, err)
	}
	seen, _ := f.Walk(root, rooted, fsx.Continue)
	n := len(d.Paths)
	if _, ok := d.Paths[root.String()]; ok && !rooted {
		n--
	}
	if n != len(seen) {
		return fmt.Errorf("%s: Dump shows %d paths of %q", b.Kind, n, seen)
	}
	for _, s := range seen {
		q := ref.Path{Pkg: fsx.Main, Name: s}
		i, ok := d.Paths[q.String()]
		if !ok || i == nil {
			return fmt.Errorf("%s: Dump does not show %s", b.Kind, q)
		}
		node, _ := f.Get(q)
		if err := fsx.InfoIs(i, q, node); err != nil {
			return fmt.Errorf("%s: Dump: %v", b.Kind, err)
		}
	}
	return nil
}

func c04Check(c *kit.Ctx) *treeCheck {
	u := uni{names: []string{"/a", "/a b", "/a.x", "/a/b", "/a/b!", "/a/b/c", "/ab", "/ab/b"}, data: []string{"x"}, perms: []uint32{0755}}
	if c.Thorough() {
		u.names = append(u.names, "/a/b/c/d", "/A", "/a/bé")
		u.data = []string{"x", ""}
	}
	return &treeCheck{u: u, see: walks}
}

// C04 is the walk property.
func C04() *kit.Prop {
	p := &kit.Prop{ID: "C04", Level: "model_checking",
		Rule: "all trees over the name universe (every reachable state of the model) x every walk root x every callback behaviour (continue; SkipDir, an error, or two or three SkipDirs, at every position), on the real in-memory (also re-hydrated, two packages) and on-disk file systems, compared with the model's callback sequence, order, file information and result"}
	p.Run = func(c *kit.Ctx) {
		runLarge(c, kinds, []string{""}, largeWalks)
		c04Check(c).run(c)
	}
	p.Replay = func(c *kit.Ctx, raw json.RawMessage) error {
		if ok, err := asLarge(c, raw, largeWalks); ok {
			return err
		}
		return c04Check(c).replay(c, raw)
	}
	return p
}

// countSeqs enumerates the sequences of Readdir counts.
func countSeqs(max int, f func([]int)) {
	var rec func(pre []int)
	rec = func(pre []int) {
		if len(pre) > 0 {
			f(append([]int{}, pre...))
		}
		if len(pre) == max {
			return
		}
		for _, n := range []int{-1, 0, 1, 2, 5} {
			rec(append(pre, n))
		}
	}
	rec(nil)
}

func readdirs(c *kit.Ctx, b *fsx.Back, f *ref.FS, ps []ref.Path, _ json.RawMessage) error {
	for _, p := range ps {
		n, ok := f.Get(p)
		if p.Pkg != fsx.Main && len(f.Names(p.Pkg)) == 0 {
			continue
		}
		if !ok || !n.Dir || p.Name == "/" && !f.Root[p.Pkg] && b.Kind == "mem" {
			continue
		}
		var bad error
		max := c.Pick(3, 4)
		countSeqs(max, func(counts []int) {
			if bad != nil || len(counts) < max {
				return // shorter ones are prefixes
			}
			c.Transitions.Add(1)
			h, err := b.FS.Open(p.String())
			if err != nil {
				bad = errForeign{fmt.Errorf("open %v: %v", p, err)}
				return
			}
			defer h.Close()
			bad = b.ReaddirIs(f, p, h, counts)
		})
		if bad != nil {
			return foreign(c, bad)
		}
		// the same through a handle on every ancestor, and two listings of the same directory interleaved
		for up := p.Name; ; up = path.Dir(up) {
			if un, ok := f.Get(ref.Path{Pkg: p.Pkg, Name: up}); ok && un.Dir && (up != "/" || f.Root[p.Pkg] || b.Kind == "os") {
				rel := p.Name[len(up):]
				if up == "/" {
					rel = p.Name
				}
				for _, name := range []string{"/" + rel, rel} {
					if name == "" {
						name = "/"
					}
					for _, counts := range [][]int{{-1, -1}, {1, 1, 1, 1}, {1, -1, 1}, {2, 2, 0}, {0, 1}} {
						c.Transitions.Add(1)
						h, err := b.FS.Open(p.Pkg + ":" + up)
						if err != nil {
							return foreign(c, errForeign{fmt.Errorf("open %v on the way: %v", up, err)})
						}
						var sub http.File
						sub, err = h.Open(name)
						if err != nil {
							h.Close()
							return foreign(c, errForeign{fmt.Errorf("open %q through %q: %v", name, up, err)})
						}
						err = b.ReaddirIs(f, p, sub, counts)
						if err == nil {
							err = b.ReaddirIs(f, ref.Path{Pkg: p.Pkg, Name: up}, h, []int{1, -1})
						}
						sub.Close()
						h.Close()
						if err != nil {
							return fmt.Errorf("through a handle on %q: %v", up, err)
						}
					}
				}
			}
			if up == "/" {
				break
			}
		}
	}
	return nil
}

func c06Check(c *kit.Ctx) *treeCheck {
	u := uni{names: []string{"/a", "/ab", "/a/b", "/a/bc", "/a/b/c", "/a/b/b", "/a/a", "/b"}, data: []string{"x"}, perms: []uint32{0755}}
	if c.Thorough() {
		u.names = append(u.names, "/a/b/c/d", "/a/a/a")
		u.data = []string{"x"}
	}
	return &treeCheck{u: u, see: readdirs}
}

// C06 is the directory listing property.
func C06() *kit.Prop {
	p := &kit.Prop{ID: "C06", Level: "model_checking",
		Rule: "all trees over the name universe x every directory x every sequence of Readdir counts from {-1,0,1,2,5} up to the length bound, on handles opened by path and through a handle on every ancestor directory, on the real in-memory (also re-hydrated, two packages) and on-disk file systems; wide directories by ladder"}
	p.Run = func(c *kit.Ctx) {
		runLarge(c, kinds, []string{""}, largeListings)
		c06Check(c).run(c)
		type wide struct {
			Back string `json:"fs"`
			N    int    `json:"entries"`
			K    int    `json:"count"`
		}
		var ws []wide
		ns := []int{0, 1, 2, 99, 100, 101, 300}
		if c.Thorough() {
			ns = append(ns, 1000, 2049)
		}
		for _, k := range kinds {
			for _, n := range ns {
				for _, q := range []int{1, 3, 99, 100, 101, -1} {
					ws = append(ws, wide{k, n, q})
				}
			}
		}
		c.Par(len(ws), func(i, w int) {
			c.Evals.Add(1)
			c.Check(int64(i), fmt.Sprint("wide", ws[i]), ws[i], func() error {
				x := ws[i]
				ops := []fsx.Op{{K: "mkdir", P: "/d", M: 0755}}
				for j := 0; j < x.N; j++ {
					ops = append(ops, fsx.Op{K: "create", P: fmt.Sprintf("/d/%d", j), D: "x"})
				}
				b := newBack(c, x.Back, w)
				f := ref.New(fsx.Main)
				if err := play(b, f, ops, func(fsx.Op, bool) bool { return false }); err != nil {
					return foreign(c, err)
				}
				h, err := b.FS.Open("/d")
				if err != nil {
					return nil
				}
				defer h.Close()
				var counts []int
				for j := 0; j <= x.N+1; j += 1 {
					counts = append(counts, x.K)
				}
				return b.ReaddirIs(f, ref.Path{Pkg: fsx.Main, Name: "/d"}, h, counts)
			})
		})
	}
	p.Replay = func(c *kit.Ctx, raw json.RawMessage) error { return c06Check(c).replay(c, raw) }
	return p
}
