package props

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging"

	"verif.local/mc/fsx"
	"verif.local/mc/kit"
	"verif.local/mc/ref"
)

// stub is a layer whose answers are given.
type stub struct {
	id    int
	ans   int // 0 fails, 1 answers, 2 fails and holds the path
	bad   []string
	runs  int      // times a change took effect
	ents  []string // what Walk visits
	walks bool     // Walk is asked for: a layer without entries does not have the path, whatever Walk answers
}

type stubErr struct{ id int }

func (e stubErr) Error() string { return fmt.Sprint("layer ", e.id, " says no") }

type stubInfo struct {
	os.FileInfo
	id int
}

type stubFile struct {
	pkging.File
	id int
}

const stubPath = "example.com/app:/the/path"

func (s *stub) got(p string) error {
	if p != stubPath {
		s.bad = append(s.bad, fmt.Sprintf("layer %d is asked for %q", s.id, p))
	}
	if s.ans == 1 {
		return nil
	}
	return stubErr{s.id}
}
func (s *stub) change(p string) error {
	err := s.got(p)
	if err == nil {
		s.runs++
	}
	return err
}
func (s *stub) Parse(p string) (here.Path, error) {
	return here.Path{Pkg: fmt.Sprint("parsed", s.id), Name: "/"}, s.got(p)
}
func (s *stub) Current() (here.Info, error) {
	return here.Info{Name: fmt.Sprint("current", s.id)}, s.got(stubPath)
}
func (s *stub) Info(p string) (here.Info, error) {
	return here.Info{Name: fmt.Sprint("info", s.id)}, s.got(p)
}
func (s *stub) Open(p string) (pkging.File, error) {
	err := s.got(p)
	return &stubFile{id: s.id}, err
}
func (s *stub) Create(p string) (pkging.File, error) {
	err := s.change(p)
	return &stubFile{id: s.id}, err
}
func (s *stub) Stat(p string) (os.FileInfo, error) {
	err := s.got(p)
	if s.ans == 2 {
		err = nil
	}
	if s.walks && len(s.ents) == 0 {
		err = stubErr{s.id}
	}
	return &stubInfo{id: s.id}, err
}
func (s *stub) MkdirAll(p string, perm os.FileMode) error {
	if perm != 0751 {
		s.bad = append(s.bad, fmt.Sprint("MkdirAll is given the permissions ", perm))
	}
	return s.change(p)
}
func (s *stub) RemoveAll(p string) error { return s.change(p) }

// Remove makes the layer forget the path.
func (s *stub) Remove(p string) error {
	if err := s.change(p); err != nil {
		return err
	}
	s.ans = 0
	return nil
}
func (s *stub) Walk(p string, wf filepath.WalkFunc) error {
	if err := s.got(p); err != nil {
		return err
	}
	for _, e := range s.ents {
		if err := wf(e, &stubInfo{id: s.id}, nil); err != nil {
			return err
		}
	}
	return nil
}

// shapes are all ways to nest n layers: the positions at which the layers, from the top, are split.
type shape struct {
	Leaf int    `json:"leaf"`
	Top  *shape `json:"top,omitempty"`
	Rest *shape `json:"rest,omitempty"`
}

func shapes(lo, hi int) (out []*shape) {
	if hi-lo == 1 {
		return []*shape{{Leaf: lo}}
	}
	for m := lo + 1; m < hi; m++ {
		for _, a := range shapes(lo, m) {
			for _, b := range shapes(m, hi) {
				out = append(out, &shape{-1, a, b})
			}
		}
	}
	return
}

// wrap builds the layering. The lowest layer may stand alone or be wrapped around nothing, as Apply does it.
func (s *shape) wrap(ls []pkging.Pkger, bare bool) pkging.Pkger {
	if s.Top == nil {
		if s.Leaf == len(ls)-1 && !bare {
			return pkging.Wrap(nil, ls[s.Leaf])
		}
		return ls[s.Leaf]
	}
	return pkging.Wrap(s.Rest.wrap(ls, bare), s.Top.wrap(ls, true))
}

type stubCase struct {
	Shape *shape `json:"shape"`
	Bare  bool   `json:"bare"`
	Ans   []int  `json:"answers"`
	Op    string `json:"op"`
	Ents  []int  `json:"entries,omitempty"`
	Stop  int    `json:"stop,omitempty"`
}

func (t stubCase) build() ([]*stub, pkging.Pkger) {
	var ss []*stub
	var ls []pkging.Pkger
	for i, a := range t.Ans {
		s := &stub{id: i, ans: a, walks: t.Op == "walk"}
		if i < len(t.Ents) {
			for j := 0; j < t.Ents[i]; j++ {
				s.ents = append(s.ents, fmt.Sprintf("layer%d/entry%d", i, j))
			}
		}
		ss = append(ss, s)
		ls = append(ls, s)
	}
	return ss, t.Shape.wrap(ls, t.Bare)
}

// runStub asks layered stubs one question.
func runStub(c *kit.Ctx, t stubCase) error {
	ss, fs := t.build()
	c.Traces.Add(1)
	top := -1
	for i := len(t.Ans) - 1; i >= 0; i-- {
		if t.Ans[i] == 1 {
			top = i
		}
	}
	tag := func(what string, got any, want string, err error) error {
		if top < 0 {
			if err == nil {
				return fmt.Errorf("%s: every layer fails, but there is no error", what)
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("%s: layer %d answers, but the error is %v", what, top, err)
		}
		if fmt.Sprint(got) != want {
			return fmt.Errorf("%s: got %v, layer %d says %s", what, got, top, want)
		}
		return nil
	}
	var err error
	switch t.Op {
	case "parse":
		pt, e := fs.Parse(stubPath)
		err = tag("Parse", pt, fmt.Sprintf("parsed%d:/", top), e)
	case "current":
		in, e := fs.Current()
		err = tag("Current", in.Name, fmt.Sprint("current", top), e)
	case "info":
		in, e := fs.Info(stubPath)
		err = tag("Info", in.Name, fmt.Sprint("info", top), e)
	case "open":
		f, e := fs.Open(stubPath)
		id := ""
		if x, ok := f.(*stubFile); ok && e == nil {
			id = fmt.Sprint(x.id)
		}
		err = tag("Open", id, fmt.Sprint(top), e)
	case "stat":
		f, e := fs.Stat(stubPath)
		id := ""
		if x, ok := f.(*stubInfo); ok && e == nil {
			id = fmt.Sprint(x.id)
		}
		err = tag("Stat", id, fmt.Sprint(top), e)
	case "walk":
		err = walkStub(t, ss, fs)
	case "create":
		err = createStub(t, ss, fs)
	case "mkdir", "rmall":
		var e error
		if t.Op == "mkdir" {
			e = fs.MkdirAll(stubPath, 0751)
		} else {
			e = fs.RemoveAll(stubPath)
		}
		all := true
		for i, s := range ss {
			all = all && t.Ans[i] == 1
			if e == nil && s.runs == 0 {
				return fmt.Errorf("%s succeeds, but it had no effect in layer %d", t.Op, i)
			}
		}
		if all && e != nil {
			return fmt.Errorf("%s: every layer accepts, but the error is %v", t.Op, e)
		}
		if !all && e == nil {
			return fmt.Errorf("%s: a layer fails, but there is no error", t.Op)
		}
	case "rm":
		have, stuck := false, false
		for _, a := range t.Ans {
			have = have || a == 1
			stuck = stuck || a == 2
		}
		e := fs.Remove(stubPath)
		_, se := fs.Stat(stubPath)
		switch {
		case !stuck && have && e != nil:
			return fmt.Errorf("Remove fails with %v", e)
		case (stuck || !have) && e == nil:
			return fmt.Errorf("Remove succeeds, but no layer has the path, or one cannot remove it")
		case e == nil && se == nil:
			return fmt.Errorf("Remove succeeds, but the path can still be reached")
		}
	}
	if err != nil {
		return err
	}
	for _, s := range ss {
		if len(s.bad) > 0 {
			return fmt.Errorf("%s: %v", t.Op, s.bad)
		}
	}
	return nil
}

// createStub expects the first layer that accepts, unless one above it holds the path.
func createStub(t stubCase, ss []*stub, fs pkging.Pkger) error {
	want := -1
	for i, a := range t.Ans {
		if a == 1 {
			want = i
		}
		if a != 0 {
			break
		}
	}
	f, err := fs.Create(stubPath)
	if want < 0 {
		if err == nil {
			return fmt.Errorf("Create succeeds, but no layer accepts it, or one above holds the path")
		}
		for _, s := range ss {
			if s.runs > 0 {
				return fmt.Errorf("Create fails, but layer %d has the file", s.id)
			}
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("Create fails with %v, but layer %d accepts it", err, want)
	}
	for _, s := range ss {
		n := 0
		if s.id == want {
			n = 1
		}
		if s.runs != n {
			return fmt.Errorf("layer %d was told to create the file %d times; layer %d is the first to accept", s.id, s.runs, want)
		}
	}
	if x, ok := f.(*stubFile); !ok || x.id != want {
		return fmt.Errorf("Create returns %v, not the handle of layer %d", f, want)
	}
	return nil
}

func walkStub(t stubCase, ss []*stub, fs pkging.Pkger) error {
	var want, got []string
	missing := 0
	for _, s := range ss {
		if s.ans == 1 {
			want = append(want, s.ents...)
		} else {
			missing++
		}
	}
	stop := stubErr{99}
	err := fs.Walk(stubPath, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		got = append(got, p)
		if si, ok := i.(*stubInfo); !ok || !strings.HasPrefix(p, fmt.Sprintf("layer%d/", si.id)) {
			return fmt.Errorf("%s comes with the information %v", p, i)
		}
		if len(got) == t.Stop {
			return stop
		}
		return nil
	})
	stopped := t.Stop > 0 && t.Stop <= len(want)
	if stopped {
		want = want[:t.Stop]
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return fmt.Errorf("Walk visits %v, want %v", got, want)
	}
	switch {
	case stopped && err != error(stop):
		return fmt.Errorf("Walk returns %v, not the callback's error", err)
	case missing == len(ss) && err == nil:
		return fmt.Errorf("Walk succeeds, but every layer fails")
	case !stopped && missing == 0 && err != nil:
		return fmt.Errorf("Walk fails: %v", err)
	case !stopped && len(want) > 0 && err != nil:
		return fmt.Errorf("Walk visits everything, but returns %v", err)
	}
	return nil
}

// vectors are all vectors of n numbers below k.
func vectors(n, k int, f func(v []int)) {
	v := make([]int, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(append([]int{}, v...))
			return
		}
		for v[i] = 0; v[i] < k; v[i]++ {
			rec(i + 1)
		}
	}
	rec(0)
}

func stubCases(c *kit.Ctx, ops map[string]int) (out []stubCase) {
	for n := 1; n <= c.Pick(4, 6); n++ {
		for _, sh := range shapes(0, n) {
			for _, bare := range []bool{true, false} {
				for _, op := range []string{"parse", "current", "info", "open", "stat", "create", "mkdir", "rm", "rmall", "walk"} {
					k, ok := ops[op]
					if !ok {
						continue
					}
					vectors(n, k, func(a []int) {
						if op != "walk" {
							out = append(out, stubCase{Shape: sh, Bare: bare, Ans: a, Op: op})
							return
						}
						if n > 4 {
							return
						}
						vectors(n, 3, func(e []int) {
							all := 0
							for i, x := range e {
								if a[i] == 1 {
									all += x
								} else if x > 0 {
									return
								}
							}
							for s := 0; s <= all; s++ {
								out = append(out, stubCase{Shape: sh, Bare: bare, Ans: a, Op: op, Ents: e, Stop: s})
							}
						})
					})
				}
			}
		}
	}
	// stacks higher than anybody builds: one layer has it, or all, or none
	const high = 40
	tower := func(split func(lo, hi int) int) *shape {
		var rec func(lo, hi int) *shape
		rec = func(lo, hi int) *shape {
			if hi-lo == 1 {
				return &shape{Leaf: lo}
			}
			m := split(lo, hi)
			return &shape{-1, rec(lo, m), rec(m, hi)}
		}
		return rec(0, high)
	}
	for _, sh := range []*shape{tower(func(lo, hi int) int { return lo + 1 }), tower(func(lo, hi int) int { return hi - 1 }), tower(func(lo, hi int) int { return (lo + hi) / 2 })} {
		for op := range ops {
			for at := -2; at < high; at++ {
				a := make([]int, high)
				for i := range a {
					if at == -2 || i == at {
						a[i] = 1
					}
				}
				t := stubCase{Shape: sh, Bare: at%2 == 0, Ans: a, Op: op}
				if op == "walk" {
					t.Ents = append([]int{}, a...)
					for i := range t.Ents {
						t.Stop += t.Ents[i]
					}
				}
				out = append(out, t)
			}
		}
	}
	return
}

// ---- real layers ----

type layerCase struct {
	Shape *shape   `json:"shape"`
	Bare  bool     `json:"bare"`
	Kinds []string `json:"kinds"`
	Init  []int    `json:"init"` // initial state of each layer
	Ops   []fsx.Op `json:"ops,omitempty"`
}

// layerInit are the initial states. DATA becomes the layer's own content.
var layerInit = [][]fsx.Op{
	{},
	{{K: "create", P: "/a"}},
	{{K: "mkdir", P: "/a", M: 0755}},
	{{K: "mkdir", P: "/d", M: 0755}},
	{{K: "mkdir", P: "/d", M: 0755}, {K: "create", P: "/d/a"}},
	{{K: "create", P: "/d"}},
	{{K: "create", P: "/a"}, {K: "mkdir", P: "/d/a", M: 0755}},
	{{K: "mkdir", P: "/d/e", M: 0755}, {K: "create", P: "/d/e/a"}, {K: "create", P: "/d/a"}, {K: "create", P: "/dd"}},
}

var layerPaths = []ref.Path{{Pkg: fsx.Main, Name: "/a"}, {Pkg: fsx.Main, Name: "/d"}, {Pkg: fsx.Main, Name: "/d/a"}, {Pkg: fsx.Main, Name: "/d/e"}, {Pkg: fsx.Main, Name: "/d/e/a"}, {Pkg: fsx.Main, Name: "/dd"}, {Pkg: fsx.Main, Name: "/x"}}

type layers struct {
	bs  []*fsx.Back
	fs  []*ref.FS
	top pkging.Pkger
}

func (t layerCase) build(c *kit.Ctx, worker int) (*layers, error) {
	l := &layers{}
	var ps []pkging.Pkger
	for i, k := range t.Kinds {
		b := newBack(c, k, worker*10+i)
		f := ref.New(fsx.Main)
		for _, o := range layerInit[t.Init[i]] {
			if o.K == "create" {
				o.D = strings.Repeat("x", i) + fmt.Sprintf("made in layer %d: %s", i, o.P)
			}
			if err := b.Step(o, f); err != nil {
				return nil, errForeign{err}
			}
		}
		l.bs, l.fs, ps = append(l.bs, b), append(l.fs, f), append(ps, b.FS)
	}
	l.top = t.Shape.wrap(ps, t.Bare)
	return l, nil
}

// merged is what reads through the layers see.
func (l *layers) merged() *ref.FS {
	m := ref.New(fsx.Main)
	for i := len(l.fs) - 1; i >= 0; i-- {
		for k, v := range l.fs[i].M {
			m.M[k] = v
		}
	}
	return m
}

// reads compares Stat and Open through the layers.
func (l *layers) reads() error {
	b := &fsx.Back{Kind: "layers", FS: l.top, Lax: true}
	m := l.merged()
	for _, p := range layerPaths {
		for _, s := range []string{p.Name, p.String()} {
			if err := b.Content(m, p, s); err != nil {
				return err
			}
		}
	}
	return nil
}

// own compares every layer with its model.
func (l *layers) own() error {
	for i, b := range l.bs {
		for _, p := range layerPaths {
			if err := b.Content(l.fs[i], p, p.String()); err != nil {
				return fmt.Errorf("layer %d: %v", i, err)
			}
		}
		if err := b.Strays(l.fs[i]); err != nil {
			return fmt.Errorf("layer %d: %v", i, err)
		}
	}
	return nil
}

// walks compares walks through the layers; they stop after every number of callbacks.
func (l *layers) walks(c *kit.Ctx) error {
	for _, p := range layerPaths {
		type visit struct {
			name  string
			layer int
		}
		var want []visit
		for i, f := range l.fs {
			seen, _ := f.Walk(p, true, fsx.Continue)
			for _, s := range seen {
				want = append(want, visit{s, i})
			}
		}
		if len(want) == 0 {
			continue
		}
		for stop := -1; stop < len(want); stop++ {
			b := &fsx.Back{Kind: "layers", FS: l.top}
			v, err := b.Walk(p.Name, func(i int) int {
				if i == stop {
					return 2
				}
				return 0
			})
			w := want
			if stop >= 0 {
				w = want[:stop+1]
				if err != fsx.ErrStop {
					return fmt.Errorf("Walk(%s) stopped at %d returns %v", p.Name, stop, err)
				}
			} else if err != nil {
				return fmt.Errorf("Walk(%s): %v", p.Name, err)
			}
			if len(v) != len(w) {
				return fmt.Errorf("Walk(%s) visits %d entries, want %v", p.Name, len(v), w)
			}
			for i := range v {
				q := ref.Path{Pkg: p.Pkg, Name: w[i].name}
				if v[i].Path != q.String() {
					return fmt.Errorf("Walk(%s) visits %s at %d, want %v", p.Name, v[i].Path, i, w)
				}
				n, _ := l.fs[w[i].layer].Get(q)
				if err := fsx.InfoIs(v[i].Info, q, n); err != nil {
					return fmt.Errorf("Walk(%s) at %d, layer %d: %v", p.Name, i, w[i].layer, err)
				}
			}
			c.Add("walks", 1)
		}
	}
	return nil
}

// step performs an operation through the layers. done is true when the history ends here.
func (l *layers) step(o fsx.Op) (done bool, err error) {
	p := o.Path()
	before := make([]*ref.FS, len(l.fs))
	after := make([]*ref.FS, len(l.fs))
	oks := make([]bool, len(l.fs))
	free := false
	for i, f := range l.fs {
		before[i], after[i] = f.Clone(), f.Clone()
		free = free || o.K == "rmall" && fsx.ParentIsFile(f, p)
		oks[i] = o.Model(after[i])
		if !oks[i] {
			after[i] = f.Clone()
		}
	}
	b := &fsx.Back{Kind: "layers", FS: l.top}
	got := b.Do(o)
	if got != nil && strings.Contains(got.Error(), "BAD ") {
		return true, got
	}
	any, all, has := false, true, -1
	for i := range l.fs {
		any, all = any || oks[i], all && oks[i]
	}
	// each of the layers may be as before or as after
	either := func() error {
		for i, lb := range l.bs {
			var e1, e2 error
			l.fs[i] = before[i]
			e1 = (&layers{bs: []*fsx.Back{lb}, fs: []*ref.FS{before[i]}}).own()
			if e1 != nil {
				e2 = (&layers{bs: []*fsx.Back{lb}, fs: []*ref.FS{after[i]}}).own()
			}
			if e1 != nil && e2 != nil {
				return fmt.Errorf("after a failed %v layer %d is neither as before nor changed: %v; %v", o, i, e1, e2)
			}
		}
		return nil
	}
	want := true
	switch o.K {
	case "create":
		want = false
		for i := range l.fs {
			if oks[i] {
				want, has = true, i
				break
			}
			if _, ok := before[i].Get(p); ok {
				break
			}
		}
		for i := range l.fs {
			if i != has {
				after[i] = before[i]
			}
		}
	case "mkdir":
		want = all
	case "rm":
		for i := range l.fs {
			if _, ok := before[i].Get(p); ok && !oks[i] {
				want = false
			}
		}
		want = want && any
	}
	if free {
		if got != nil {
			return true, either()
		}
	}
	if want != (got == nil) {
		return true, fmt.Errorf("%v through the layers returns %v, but must succeed: %v", o, got, want)
	}
	if !want && o.K != "create" {
		return true, either()
	}
	copy(l.fs, after)
	if o.K == "rm" || o.K == "rmall" {
		if _, err := l.top.Stat(p.Name); err == nil {
			return true, fmt.Errorf("after %v the path can still be reached", o)
		}
	}
	return false, nil
}

func runLayers(c *kit.Ctx, t layerCase, worker int, full bool) error {
	l, err := t.build(c, worker)
	if err != nil {
		return foreign(c, err)
	}
	c.Traces.Add(1)
	if len(t.Ops) == 0 {
		if err := l.reads(); err != nil {
			return err
		}
		if !full {
			return nil
		}
		return l.walks(c)
	}
	for i, o := range t.Ops {
		done, err := l.step(o)
		if err != nil {
			return fmt.Errorf("step %d: %v", i, err)
		}
		if done {
			c.Outcome("steps", o.K+" refused")
			return nil
		}
		c.Outcome("steps", o.K)
		if err := l.own(); err != nil {
			return fmt.Errorf("step %d, %v: %v", i, o, err)
		}
		if err := l.reads(); err != nil {
			return fmt.Errorf("step %d, %v: %v", i, o, err)
		}
	}
	return nil
}

// kindVectors are the kinds of n layers.
func kindVectors(n int) (out [][]string) {
	vectors(n, 2, func(v []int) {
		var k []string
		for _, x := range v {
			k = append(k, []string{"mem", "os"}[x])
		}
		out = append(out, k)
	})
	return
}

type anyLayerCase struct {
	Stub  *stubCase  `json:"stub,omitempty"`
	Layer *layerCase `json:"layer,omitempty"`
}

func runAnyLayer(c *kit.Ctx, cases []anyLayerCase) {
	c.Set("cases", len(cases))
	c.Par(len(cases), func(i, worker int) {
		t := cases[i]
		c.States.Add(1)
		n := 1
		if t.Layer != nil && len(t.Layer.Ops) > 1 {
			n = len(t.Layer.Ops)
		}
		c.Transitions.Add(int64(n))
		b, _ := json.Marshal(t)
		c.Check(int64(i), string(b), t, func() error {
			if t.Stub != nil {
				return runStub(c, *t.Stub)
			}
			return runLayers(c, *t.Layer, worker, true)
		})
		if i%9001 == 17 && c.WantSample() {
			c.Sample(t)
		}
	})
}

func replayAnyLayer(c *kit.Ctx, raw json.RawMessage) error {
	var t anyLayerCase
	if err := json.Unmarshal(raw, &t); err != nil {
		return err
	}
	if t.Stub != nil {
		return runStub(c, *t.Stub)
	}
	return runLayers(c, *t.Layer, 0, true)
}

// C19 is reading through layers.
func C19() *kit.Prop {
	p := &kit.Prop{ID: "C19", Level: "model_checking",
		Rule: "all nestings of up to four (six) layers x all combinations of answers of stub layers (answer, failure) x every read operation, with walks stopped at every callback; and all combinations of real in-memory and on-disk layers in eight states, read through every nesting of two and three layers; the oracle is the topmost layer's own answer"}
	p.Run = func(c *kit.Ctx) {
		var cs []anyLayerCase
		for _, s := range stubCases(c, map[string]int{"parse": 2, "current": 2, "info": 2, "open": 2, "stat": 2, "walk": 2}) {
			cs = append(cs, anyLayerCase{Stub: &s})
		}
		for n := 1; n <= 3; n++ {
			for _, sh := range shapes(0, n) {
				for _, bare := range []bool{true, false} {
					for _, k := range kindVectors(n) {
						if n == 3 && !c.Thorough() && !bare {
							continue
						}
						vectors(n, len(layerInit), func(in []int) {
							cs = append(cs, anyLayerCase{Layer: &layerCase{Shape: sh, Bare: bare, Kinds: k, Init: in}})
						})
					}
				}
			}
		}
		runAnyLayer(c, cs)
	}
	p.Replay = replayAnyLayer
	return p
}

// C20 is changing through layers.
func C20() *kit.Prop {
	p := &kit.Prop{ID: "C20", Level: "model_checking",
		Rule: "all nestings of up to four (six) stub layers x all combinations of answers (accepts, does not have it, has it and refuses) x every changing operation; and all operation sequences (two, thorough: three) over three nested paths on real in-memory and on-disk layers in eight initial states each, every layer compared with its own model after each step, and read through the layers"}
	p.Run = func(c *kit.Ctx) {
		var cs []anyLayerCase
		for _, s := range stubCases(c, map[string]int{"create": 3, "mkdir": 2, "rm": 3, "rmall": 2}) {
			cs = append(cs, anyLayerCase{Stub: &s})
		}
		var ops []fsx.Op
		for _, p := range []string{"/a", "/d", "/d/a"} {
			ops = append(ops, fsx.Op{K: "create", P: p, D: "new"}, fsx.Op{K: "mkdir", P: p, M: 0755}, fsx.Op{K: "rm", P: p}, fsx.Op{K: "rmall", P: p})
		}
		for n := 1; n <= 3; n++ {
			for si, sh := range shapes(0, n) {
				for _, k := range kindVectors(n) {
					depth := c.Pick(2, 3)
					if n == 3 {
						depth--
					}
					vectors(n, len(layerInit), func(in []int) {
						for i := 0; i < pow(len(ops), depth); i++ {
							cs = append(cs, anyLayerCase{Layer: &layerCase{Shape: sh, Bare: si%2 == 0, Kinds: k, Init: in, Ops: sequences(ops, depth, i)}})
						}
					})
				}
			}
		}
		runAnyLayer(c, cs)
	}
	p.Replay = replayAnyLayer
	return p
}
