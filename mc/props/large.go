package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"path"
	"slices"
	"strings"

	"verif.local/mc/fsx"
	"verif.local/mc/kit"
	"verif.local/mc/ref"
)

// Large trees: whatever a limit somebody builds in (a depth, a number of entries, a length of names or of contents), one of these is beyond it.

var largeTrees = []string{"deep", "wide", "long", "many", "big"}

// largeCase is a tree, on a file system, and what is done to it.
type largeCase struct {
	Large string `json:"large"`
	Back  string `json:"fs"`
	Again bool   `json:"reload,omitempty"`
	What  string `json:"what,omitempty"`
}

// largeOps builds a tree.
func largeOps(name string) (ops []fsx.Op) {
	mk := func(p string) { ops = append(ops, fsx.Op{K: "mkdir", P: p, M: 0755}) }
	put := func(p, d string) { ops = append(ops, fsx.Op{K: "create", P: p, D: d}) }
	switch name {
	case "deep":
		at := ""
		for i := 0; i < 40; i++ {
			mk(at + "/d")
			put(at+"/c", itoa(i))
			mk(at + "/d!")
			put(at+"/d!/x", "!"+itoa(i))
			put(at+"/d.x", "")
			at += "/d"
		}
	case "wide":
		mk("/w")
		for i := 0; i < 5100; i++ {
			put(fmt.Sprintf("/w/f%d", i), itoa(i))
		}
		for i := 0; i < 70; i++ {
			mk(fmt.Sprintf("/w/d%d", i))
			put(fmt.Sprintf("/w/d%d/x", i), "")
		}
		mk("/w!")
		put("/w!/x", "y")
		put("/w.x", "z")
	case "long":
		at := ""
		for i := 0; i < 12; i++ {
			n := strings.Repeat("n", 253)
			mk(at + "/" + n + "aa")
			mk(at + "/" + n + "ab")
			put(at+"/"+n+"ac", itoa(i))
			put(at+"/"+n+"ab/é", "e")
			at += "/" + n + "aa"
		}
	case "many":
		for i := 0; i < 18; i++ {
			for j := 0; j < 18; j++ {
				d := fmt.Sprintf("/%d/%d", i, j)
				mk(d)
				for k := 0; k < 16; k++ {
					put(fmt.Sprintf("%s/%d", d, k), fmt.Sprint(i, j, k))
				}
			}
		}
	case "big":
		mk("/b")
		for i, n := range []int{1<<16 - 1, 1 << 16, 1<<16 + 1, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1 << 22, 5<<20 + 3, 17 << 20} {
			put("/b/"+itoa(n), string(blob(n, byte(i))))
		}
	}
	return
}

// grow builds the tree in both.
func (l largeCase) grow(c *kit.Ctx, worker int) (*fsx.Back, *ref.FS, error) {
	b, f := newBack(c, l.Back, worker), ref.New(fsx.Main)
	for _, o := range largeOps(l.Large) {
		if !o.Model(f) {
			panic("harness: " + o.String())
		}
		if err := b.Do(o); err != nil {
			return nil, nil, fmt.Errorf("%s: %.300s: %v", l.Back, o, err)
		}
	}
	if l.Again {
		if err := b.Reload(); err != nil {
			return nil, nil, err
		}
	}
	c.Beat()
	return b, f, nil
}

// largePaths are the entries, and neighbours that are missing.
func largePaths(f *ref.FS) (ps []ref.Path) {
	for i, n := range f.Names(fsx.Main) {
		ps = append(ps, ref.Path{Pkg: fsx.Main, Name: n})
		if i%50 == 0 && len(path.Base(n)) < 250 {
			ps = append(ps, ref.Path{Pkg: fsx.Main, Name: n + "~"}, ref.Path{Pkg: fsx.Main, Name: path.Dir(n) + "/none"})
		}
	}
	return
}

// largeDirs are directories to look at: the first few of every level, and the last.
func largeDirs(f *ref.FS, per int) (ps []ref.Path) {
	ps = append(ps, ref.Path{Pkg: fsx.Main, Name: "/"})
	level := map[int]int{}
	for _, n := range f.Names(fsx.Main) {
		p := ref.Path{Pkg: fsx.Main, Name: n}
		if k := strings.Count(n, "/"); f.M[p].Dir && level[k] < per {
			level[k]++
			ps = append(ps, p)
		}
	}
	return
}

// positions are those of a list of n where something is tried.
func positions(n int) (out []int) {
	for _, i := range []int{0, 1, 2, 3, 7, 8, 9, 63, 64, 65, 99, 100, 101, 127, 128, 255, 256, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 5000, n / 2, n - 2, n - 1} {
		if i >= 0 && i < n && !slices.Contains(out, i) {
			out = append(out, i)
		}
	}
	return
}

// runLarge runs the large trees; try judges one of them.
func runLarge(c *kit.Ctx, backs []string, whats []string, try func(c *kit.Ctx, l largeCase, worker int) error) {
	var ls []largeCase
	for _, n := range largeTrees {
		for _, b := range backs {
			for _, w := range whats {
				ls = append(ls, largeCase{Large: n, Back: b, What: w})
				if b == "mem" {
					ls = append(ls, largeCase{Large: n, Back: b, What: w, Again: true})
				}
			}
		}
	}
	c.Set("large_trees", len(ls))
	c.Par(len(ls), func(i, w int) {
		c.States.Add(1)
		c.Traces.Add(1)
		c.Check(int64(i), fmt.Sprintf("large %+v", ls[i]), ls[i], func() error { return try(c, ls[i], w) })
	})
}

// asLarge replays a large case.
func asLarge(c *kit.Ctx, raw json.RawMessage, try func(c *kit.Ctx, l largeCase, worker int) error) (bool, error) {
	var l largeCase
	if err := json.Unmarshal(raw, &l); err != nil || l.Large == "" {
		return false, nil
	}
	return true, try(c, l, 0)
}

// largeContents is for C01: everything reads back, also when some is written again.
func largeContents(c *kit.Ctx, l largeCase, worker int) error {
	b, f, err := l.grow(c, worker)
	if err != nil {
		return err
	}
	for round := 0; ; round++ {
		for _, p := range largePaths(f) {
			if err := b.Content(f, p, p.String()); err != nil {
				return err
			}
			c.Transitions.Add(1)
		}
		if round == 1 {
			return nil
		}
		for i, n := range f.Names(fsx.Main) {
			p := ref.Path{Pkg: fsx.Main, Name: n}
			if f.M[p].Dir || i%3 != 0 {
				continue
			}
			o := fsx.Op{K: "create", P: n, D: f.M[p].Data[len(f.M[p].Data)/2:]}
			if err := b.Step(o, f); err != nil {
				return err
			}
		}
	}
}

// largeRemovals is for C03: a subtree goes, and nothing else.
func largeRemovals(c *kit.Ctx, l largeCase, worker int) error {
	if l.What == "dismantle" {
		return dismantle(c, l, worker)
	}
	b, f, err := l.grow(c, worker)
	if err != nil {
		return err
	}
	b.Lax = true
	all := largePaths(f)
	ds := largeDirs(f, 1)[1:]
	slices.Reverse(ds) // the deepest first
	var ops []fsx.Op
	for i, d := range ds {
		ops = append(ops, fsx.Op{K: "rm", P: d.Name}, fsx.Op{K: "rm", P: d.Name + "/none"})
		if i%4 == 3 || i == len(ds)-1 {
			ops = append(ops, fsx.Op{K: "rmall", P: d.Name})
		}
	}
	for _, o := range ops {
		kids := f.Kids(o.Path())
		if err := b.Step(o, f); err != nil {
			return err
		}
		c.Transitions.Add(1)
		if o.K == "rm" && !kids && len(all) > 500 {
			continue
		}
		for _, p := range all {
			if err := b.Content(f, p, p.String()); err != nil {
				return fmt.Errorf("after %.300s: %.600s", o, err)
			}
		}
		if err := b.Strays(f); err != nil {
			return err
		}
	}
	return nil
}

// dismantle is for C03: every entry is removed, the deepest first, and its ancestors stay.
func dismantle(c *kit.Ctx, l largeCase, worker int) error {
	b, f, err := l.grow(c, worker)
	if err != nil {
		return err
	}
	b.Lax = true
	ns := f.Names(fsx.Main)
	slices.SortStableFunc(ns, func(a, b string) int { return strings.Count(b, "/") - strings.Count(a, "/") })
	full := positions(len(ns))
	for i, n := range ns {
		if n == "/" || len(ns) > 1000 && i%16 != 5 && !slices.Contains(full, i) {
			continue
		}
		if err := b.Step(fsx.Op{K: "rm", P: n}, f); err != nil {
			return err
		}
		c.Transitions.Add(1)
		at := []string{n}
		for d := path.Dir(n); d != "/"; d = path.Dir(d) {
			at = append(at, d)
		}
		if len(ns) < 300 || slices.Contains(full, i) {
			at = ns
			c.Beat()
		}
		for _, m := range at {
			p := ref.Path{Pkg: fsx.Main, Name: m}
			if m == "/" {
				continue
			}
			if err := b.Content(f, p, p.String()); err != nil {
				return fmt.Errorf("after removing %.300s: %.600s", n, err)
			}
		}
	}
	return b.Strays(f)
}

// largeWalks is for C04.
func largeWalks(c *kit.Ctx, l largeCase, worker int) error {
	b, f, err := l.grow(c, worker)
	if err != nil {
		return err
	}
	for i, p := range largeDirs(f, 2) {
		all, _ := f.Walk(p, true, fsx.Continue)
		if err := b.WalkIs(f, p, p.String(), fsx.Continue); err != nil {
			return fmt.Errorf("%.900s", err)
		}
		if i > 3 && i%8 != 0 {
			continue
		}
		c.Beat()
		for _, at := range positions(len(all)) {
			for v := 1; v <= 2; v++ {
				c.Transitions.Add(1)
				err := b.WalkIs(f, p, p.String(), func(i int) int {
					if i == at {
						return v
					}
					return 0
				})
				if err != nil {
					return fmt.Errorf("answer %d at %d: %.900s", v, at, err)
				}
			}
		}
	}
	return dumped(b, f)
}

// largeListings is for C06.
func largeListings(c *kit.Ctx, l largeCase, worker int) error {
	b, f, err := l.grow(c, worker)
	if err != nil {
		return err
	}
	for _, p := range largeDirs(f, 2) {
		n := len(f.Children(p))
		lists := [][]int{{-1, 1, -1}, {0, 0}, {1, -1, 1}, {2, 3, 0, 2}}
		for _, k := range positions(n + 3) {
			if k == 0 || n > 200 && k < 7 {
				continue
			}
			var l []int
			for got := 0; got < n; got += k {
				l = append(l, k)
			}
			lists = append(lists, append(l, k, k, -1, 1))
		}
		for _, counts := range lists {
			c.Transitions.Add(1)
			h, err := b.FS.Open(p.String())
			if err != nil {
				return err
			}
			err = b.ReaddirIs(f, p, h, counts)
			h.Close()
			if err != nil {
				return fmt.Errorf("%.900s", err)
			}
		}
	}
	return nil
}

// largeDiff is for C07.
func largeDiff(c *kit.Ctx, l largeCase, worker int) error {
	m, f, err := l.grow(c, worker)
	if err != nil {
		return err
	}
	l.Back, l.Again = "os", false
	o, _, err := l.grow(c, worker)
	if err != nil {
		return err
	}
	ps := largeDirs(f, 2)
	for i, n := range f.Names(fsx.Main) {
		if i%97 == 0 {
			ps = append(ps, ref.Path{Pkg: fsx.Main, Name: n}, ref.Path{Pkg: fsx.Main, Name: path.Dir(n) + "/none"})
		}
	}
	for _, p := range ps {
		if s := diff(look(m, []ref.Path{p}, true), look(o, []ref.Path{p}, true)); s != "" {
			return fmt.Errorf("the two differ:\n%.900s", s)
		}
		c.Transitions.Add(1)
	}
	return nil
}

// largeTrip is for C11.
func largeTrip(c *kit.Ctx, l largeCase, worker int) error {
	b, f, err := l.grow(c, worker)
	if err != nil {
		return err
	}
	was := b.Snap(largePaths(f), true)
	j, err := json.Marshal(b.FS)
	if err != nil {
		return err
	}
	if err := b.Reload(); err != nil {
		return err
	}
	if now := b.Snap(largePaths(f), true); now != was {
		return fmt.Errorf("re-hydrating changes it: %.900s", diff(now, was))
	}
	if k, err := json.Marshal(b.FS); err != nil || !bytes.Equal(j, k) {
		return fmt.Errorf("a second round trip gives %d bytes instead of %d, or others: %v", len(k), len(j), err)
	}
	for _, p := range largeDirs(f, 1) {
		if err := b.WalkIs(f, p, p.String(), fsx.Continue); err != nil {
			return fmt.Errorf("%.900s", err)
		}
		h, err := b.FS.Open(p.String())
		if err != nil {
			return err
		}
		if err := b.ReaddirIs(f, p, h, []int{-1}); err != nil {
			return fmt.Errorf("%.900s", err)
		}
		c.Transitions.Add(2)
	}
	return nil
}
