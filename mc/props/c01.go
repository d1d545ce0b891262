package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"time"

	"verif.local/mc/fsx"
	"verif.local/mc/kit"
	"verif.local/mc/ref"
)

var kinds = []string{"mem", "os"}

// start makes the initial file system of a history.
func start(c *kit.Ctx, h hist, worker int) (*fsx.Back, *ref.FS) {
	if h.Init == "multi" {
		return fsx.NewMulti()
	}
	return newBack(c, h.Back, worker), ref.New(fsx.Main)
}

// fsUni is the name universe of the file-system checks: nested names, names sharing prefixes, names that sort differently as
// strings and as paths.
func fsUni(c *kit.Ctx, small bool) uni {
	u := uni{names: []string{"/a", "/ab", "/a-", "/a/b", "/a/b/c", "/a/bc", "/ab/b"}, data: []string{"", "x"}, perms: []uint32{0755}}
	if small {
		u.names = []string{"/a", "/ab", "/a/b", "/a/b/c", "/a/bc"}
		u.data = []string{"x"}
	}
	if c.Thorough() {
		u.data = []string{"", "x", "yz"}
		if small {
			u.data = []string{"", "x"}
		}
	}
	return u
}

// obs is what an exploration does with each history.
type fsCheck struct {
	u     uni
	watch []string // further names that are observed
	// pkgs are further packages that are observed (multi states)
	judge func(o fsx.Op, want bool) bool
	// see observes the state reached; last is the last operation (nil in a start state)
	see func(c *kit.Ctx, b *fsx.Back, f *ref.FS, ps []ref.Path, h hist) error
	// full: the histories explored without merging states
	full []fsx.Op
	// last operations tried in every state
	last []fsx.Op
	// pre observes before the last operation
	pre func(b *fsx.Back, f *ref.FS, ps []ref.Path) any
	// post compares with what pre saw; ok tells whether the last operation must succeed
	post func(b *fsx.Back, f *ref.FS, ps []ref.Path, o fsx.Op, ok bool, before any) error
}

// one runs one history.
func (k *fsCheck) one(c *kit.Ctx, h hist, worker int) error {
	b, f := start(c, h, worker)
	var pkgs []string
	if h.Init == "multi" {
		pkgs = []string{fsx.Ext}
	}
	ps := uni{names: append(append([]string{}, k.u.names...), k.watch...)}.paths(pkgs...)
	ops := h.Ops
	if k.pre != nil && len(ops) > 0 {
		if err := play(b, f, ops[:len(ops)-1], k.judge); err != nil {
			return foreign(c, err)
		}
		before := k.pre(b, f, ps)
		o := ops[len(ops)-1]
		ok := o.Model(f.Clone())
		if err := play(b, f, ops[len(ops)-1:], k.judge); err != nil {
			return foreign(c, err)
		}
		if err := k.post(b, f, ps, o, ok, before); err != nil {
			return err
		}
	} else if err := play(b, f, ops, k.judge); err != nil {
		return foreign(c, err)
	}
	return k.see(c, b, f, ps, h)
}

// run explores: every reachable model state x every last operation, and all histories to a depth without merging states.
func (k *fsCheck) run(c *kit.Ctx) {
	type job struct {
		back, init string
		st         *state
		seq        int
	}
	var jobs []job
	states := explore(c, ref.New(fsx.Main), k.u.mk(), 12, 60000)
	c.Set("model_states_single_package", len(states))
	for _, kind := range kinds {
		for i := range states {
			jobs = append(jobs, job{back: kind, st: &states[i]})
		}
	}
	// multi-package states as left by packing, and two steps from there
	var mops []fsx.Op
	for _, o := range append(k.u.mk(), k.u.rm()...) {
		if o.K == "create" && o.D == "" {
			continue
		}
		mops = append(mops, o)
		o.G = fsx.Ext
		mops = append(mops, o)
	}
	_, mf := fsx.NewMulti()
	mdepth := 1
	if c.Thorough() {
		mdepth = 2
	}
	mst := explore(c, mf, mops, mdepth, 20000)
	c.Set("model_states_multi_package", len(mst))
	for i := range mst {
		jobs = append(jobs, job{back: "mem", init: "multi", st: &mst[i]})
	}
	depth := c.Pick(3, 4)
	nseq := pow(len(k.full), depth)
	const chunk = 64
	for _, kind := range kinds {
		for i := 0; i < nseq; i += chunk {
			jobs = append(jobs, job{back: kind, seq: i + 1})
		}
	}
	c.Set("unmerged_histories", fmt.Sprintf("%d operations to depth %d on %v", len(k.full), depth, kinds))
	c.Par(len(jobs), func(i, w int) {
		j := jobs[i]
		do := func(h hist) {
			c.Transitions.Add(1)
			c.Traces.Add(1)
			c.Check(int64(i), histKey(h), h, func() error { return k.one(c, h, w) })
		}
		if j.st != nil {
			c.States.Add(1)
			base := hist{Back: j.back, Init: j.init, Ops: j.st.ops}
			do(base)
			last := k.last
			if j.init == "multi" {
				last = nil
				for _, o := range k.last {
					last = append(last, o)
					if o.K != "reload" {
						o.G = fsx.Ext
						last = append(last, o)
					}
				}
			}
			for _, o := range last {
				if o.P == "/" && j.back == "os" {
					continue // would remove the module directory itself
				}
				if o.P == "/" && o.K == "rm" && !j.st.f.Kids(o.Path()) {
					continue // removing an empty root: not claimed
				}
				h := base
				h.Ops = append(append([]fsx.Op{}, j.st.ops...), o)
				do(h)
			}
			if c.WantSample() && len(j.st.ops) > 3 {
				c.Sample(histKey(base))
			}
			return
		}
		for s := j.seq - 1; s < j.seq-1+chunk && s < nseq; s++ {
			do(hist{Back: j.back, Ops: sequences(k.full, depth, s)})
		}
	})
}

func seqOps() []fsx.Op {
	return []fsx.Op{
		{K: "mkdir", P: "/a", M: 0755}, {K: "mkdir", P: "/a/b", M: 0700}, {K: "mkdir", P: "/ab", M: 0755},
		{K: "create", P: "/a", D: "x"}, {K: "create", P: "/ab", D: ""}, {K: "create", P: "/a/b", D: "yz"}, {K: "create", P: "/a/b/c", D: "x"},
		{K: "rm", P: "/a"}, {K: "rm", P: "/a/b"}, {K: "rm", P: "/ab"}, {K: "rmall", P: "/a"}, {K: "rmall", P: "/a/b"},
		{K: "create", P: "/a/b", D: "", S: 4}, {K: "mkdir", P: "/a/b/c", M: 0755, S: 4},
		{K: "reload", P: "/"},
	}
}

// contents is the C01 observation.
func contents(c *kit.Ctx, b *fsx.Back, f *ref.FS, ps []ref.Path, h hist) error {
	for _, p := range ps {
		if err := b.Content(f, p, fsx.Spell(0, b.Dir, p)); err != nil {
			return err
		}
	}
	return nil
}

func c01Check(c *kit.Ctx) *fsCheck {
	u := fsUni(c, false)
	var last []fsx.Op
	last = append(u.mk(), u.rm()...)
	last = append(last, fsx.Op{K: "reload", P: "/"})
	return &fsCheck{u: u, last: last, full: seqOps(), see: contents,
		judge: func(o fsx.Op, want bool) bool { return want && o.K == "create" }}
}

// blob is deterministic content of a size.
func blob(n int, salt byte) []byte {
	b := make([]byte, n)
	x := uint32(salt) + 7
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

// writeCase is one file written in pieces.
type writeCase struct {
	Back  string `json:"fs"`
	Sizes []int  `json:"sizes"` // successive rewrites of the same file
	Split string `json:"split"`
	Read  int    `json:"read_chunk"`
}

func splits(n int, how string) (out []int) {
	switch how {
	case "one":
		return []int{n}
	case "bytes":
		for i := 0; i < n; i++ {
			out = append(out, 1)
		}
		return
	case "first":
		if n == 0 {
			return []int{0}
		}
		return []int{1, n - 1}
	case "last":
		if n == 0 {
			return []int{0, 0}
		}
		return []int{n - 1, 1}
	case "zeros":
		return []int{0, n / 2, 0, n - n/2, 0}
	case "512":
		for n > 512 {
			out = append(out, 512)
			n -= 512
		}
		return append(out, n)
	case "none":
		return nil
	}
	panic(how)
}

func runWrite(c *kit.Ctx, w writeCase, worker int) error {
	b := newBack(c, w.Back, worker)
	if err := b.FS.MkdirAll("/d", 0755); err != nil {
		return nil // C02
	}
	for ri, size := range w.Sizes {
		data := blob(size, byte(ri))
		h, err := b.FS.Create("/d/f")
		if err != nil {
			return fmt.Errorf("%s: create: %v", b.Kind, err)
		}
		off := 0
		buf := make([]byte, size+1)
		for _, n := range splits(size, w.Split) {
			copy(buf, data[off:off+n])
			k, err := h.Write(buf[:n])
			if err != nil || k != n {
				return fmt.Errorf("%s: Write of %d bytes: %d, %v", b.Kind, n, k, err)
			}
			for i := range buf[:n] {
				buf[i] = 0xEE // the caller may reuse its buffer
			}
			off += n
		}
		if err := h.Close(); err != nil {
			return fmt.Errorf("%s: close: %v", b.Kind, err)
		}
		want := data[:off]
		fi, err := b.FS.Stat("/d/f")
		if err != nil {
			return err
		}
		if fi.Size() != int64(len(want)) {
			return fmt.Errorf("%s: size %d after writing %d bytes", b.Kind, fi.Size(), len(want))
		}
		if d := time.Since(fi.ModTime()); d > 5*time.Minute || d < -5*time.Minute {
			return fmt.Errorf("%s: modification time %v of a file written now", b.Kind, fi.ModTime())
		}
		r, err := b.FS.Open("/d/f")
		if err != nil {
			return err
		}
		var got []byte
		if w.Read == 0 {
			got, err = io.ReadAll(r)
		} else {
			rb := make([]byte, w.Read)
			for zero := 0; ; {
				n, e := r.Read(rb)
				got = append(got, rb[:n]...)
				if e == io.EOF {
					break
				}
				if n == 0 {
					zero++
				}
				if e != nil || zero > 100 {
					err = fmt.Errorf("read: %d, %v", n, e)
					break
				}
			}
		}
		r.Close()
		if err != nil {
			return fmt.Errorf("%s: %v", b.Kind, err)
		}
		if !bytes.Equal(got, want) {
			return fmt.Errorf("%s: read back %d bytes that differ from the %d written", b.Kind, len(got), len(want))
		}
	}
	return nil
}

// twoCase interleaves the creation of two files.
type twoCase struct {
	Back  string `json:"fs"`
	Order []int  `json:"two_files_order"` // which file takes its next step (create, write, write, close)
}

func runTwo(c *kit.Ctx, t twoCase, worker int) error {
	b := newBack(c, t.Back, worker)
	name := []string{"/f", "/fg"}
	type file interface {
		Write([]byte) (int, error)
		Close() error
	}
	var h [2]file
	step := [2]int{}
	for _, i := range t.Order {
		switch step[i] {
		case 0:
			f, err := b.FS.Create(name[i])
			if err != nil {
				return err
			}
			h[i] = f
		case 1, 2:
			if _, err := h[i].Write([]byte{byte('A' + i), byte('0' + step[i])}); err != nil {
				return err
			}
		case 3:
			if err := h[i].Close(); err != nil {
				return err
			}
		}
		step[i]++
		for j := range name {
			if step[j] == 4 {
				got, err := fsx.ReadFile(b.FS, name[j])
				want := string([]byte{byte('A' + j), '1', byte('A' + j), '2'})
				if err != nil || string(got) != want {
					return fmt.Errorf("%s: %s reads %q, %v, want %q", b.Kind, name[j], got, err, want)
				}
			}
		}
	}
	return nil
}

func orders(n0, n1 int, pre []int, f func([]int)) {
	if n0 == 0 && n1 == 0 {
		f(append([]int{}, pre...))
		return
	}
	if n0 > 0 {
		orders(n0-1, n1, append(pre, 0), f)
	}
	if n1 > 0 {
		orders(n0, n1-1, append(pre, 1), f)
	}
}

// C01 is the read-back property.
func C01() *kit.Prop {
	p := &kit.Prop{ID: "C01", Level: "model_checking",
		Rule:   "explicit-state exploration of the reference model (all reachable trees over the name universe x every operation) and all unmerged histories to the depth, each replayed on the real in-memory and on-disk file systems and every path of the universe observed; plus all rewrites x sizes x write splits x read sizes of the ladder and all interleavings of writing two files",
		Assume: []string{"scratch files live on a local file system; names contain no ':' or '\\' and no leading or trailing blanks"}}
	p.Run = func(c *kit.Ctx) {
		runLarge(c, kinds, []string{""}, largeContents)
		var ws []writeCase
		sizes := []int{0, 1, 2, 511, 512, 513, 4095, 4096, 4097, 32767, 32768, 32769, 65537}
		if c.Thorough() {
			sizes = append(sizes, 3, 7, 8, 9, 63, 64, 65, 255, 256, 257, 1023, 1024, 1025, 8191, 8192, 8193, 1<<20-1, 1<<20, 1<<20+1, 5<<20+3)
		}
		for _, k := range kinds {
			for _, s := range sizes {
				for _, how := range []string{"one", "bytes", "first", "last", "zeros", "512", "none"} {
					if how == "bytes" && s > 5000 {
						continue
					}
					for _, r := range []int{0, 1, 512, 4096, s, s + 1} {
						if r == 1 && s > 5000 {
							continue
						}
						ws = append(ws, writeCase{k, []int{s}, how, r})
					}
					for _, s2 := range []int{0, 1, s / 2, s + 1} {
						ws = append(ws, writeCase{k, []int{s, s2, s}, how, 0})
					}
				}
			}
		}
		// beyond any buffer
		big := []int{1<<20 + 1, 4<<20 + 3}
		if c.Thorough() {
			big = append(big, 65<<20+1)
		}
		for _, k := range kinds {
			for _, s := range big {
				for _, how := range []string{"one", "first", "last", "zeros"} {
					ws = append(ws, writeCase{k, []int{s}, how, 0}, writeCase{k, []int{s, 1, s}, how, 1 << 16}, writeCase{k, []int{s}, how, s + 1})
				}
			}
		}
		c.Par(len(ws), func(i, w int) {
			c.Evals.Add(1)
			b, _ := json.Marshal(ws[i])
			c.Check(int64(i), "write"+string(b), map[string]any{"write": ws[i]}, func() error { return runWrite(c, ws[i], w) })
		})
		var ts []twoCase
		for _, k := range kinds {
			orders(4, 4, nil, func(o []int) { ts = append(ts, twoCase{k, o}) })
		}
		c.Par(len(ts), func(i, w int) {
			c.Evals.Add(1)
			c.Check(int64(i), fmt.Sprint("two", ts[i]), map[string]any{"two": ts[i]}, func() error { return runTwo(c, ts[i], w) })
		})
		c01Check(c).run(c)
	}
	p.Replay = func(c *kit.Ctx, raw json.RawMessage) error {
		if ok, err := asLarge(c, raw, largeContents); ok {
			return err
		}
		var m struct {
			Write *writeCase
			Two   *twoCase
		}
		json.Unmarshal(raw, &m)
		if m.Write != nil {
			return runWrite(c, *m.Write, 0)
		}
		if m.Two != nil {
			return runTwo(c, *m.Two, 0)
		}
		return replayHist(c01Check(c).one)(c, raw)
	}
	return p
}
