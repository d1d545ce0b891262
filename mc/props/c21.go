package props

import (
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"path"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/mem"

	"verif.local/mc/fsx"
	"verif.local/mc/kit"
	"verif.local/mc/sched"
)

// cop is an operation of a thread.
type cop struct {
	K string `json:"k"`
	P string `json:"p,omitempty"`
	D string `json:"d,omitempty"`
}

func (o cop) String() string { return strings.TrimSpace(o.K + " " + o.P) }

// scenario is a set of threads that run at once.
type scenario struct {
	Start   string  `json:"start"`
	Threads [][]cop `json:"threads"`
	Bound   int     `json:"bound"`
}

// schedCase is one execution of a scenario.
type schedCase struct {
	scenario
	Variant  int            `json:"variant"`
	Schedule []sched.Choice `json:"schedule"`
}

// instance is a scenario that is set up: its threads, and the judgement of what they did.
type instance struct {
	bodies []func()
	judge  func() error
}

func raceText(c *kit.Ctx) string {
	ms, _ := filepath.Glob(filepath.Join(c.Work, "race.*"))
	for _, m := range ms {
		b, err := os.ReadFile(m)
		if err != nil {
			continue
		}
		parts := strings.Split(string(b), "WARNING: DATA RACE")
		t := parts[len(parts)-1]
		if len(t) > 1500 {
			t = t[:1500]
		}
		return t
	}
	return ""
}

// execute runs a scenario under one schedule.
func execute(c *kit.Ctx, sc schedCase, set func(scenario) instance) (sched.Outcome, error) {
	sched.Variant = sc.Variant
	n0 := sched.Races()
	in := set(sc.scenario)
	o := sched.Run(in.bodies, sc.Schedule)
	c.Beat()
	if o.Fail != "" {
		return o, fmt.Errorf("%s", o.Fail)
	}
	if sched.Races() > n0 {
		return o, fmt.Errorf("data race: %s", raceText(c))
	}
	if err := kit.Guard(in.judge); err != nil {
		return o, err
	}
	return o, nil
}

// schedules runs the scenarios under all schedules.
func schedules(c *kit.Ctx, scs []scenario, variants []int, set func(scenario) instance) {
	if !sched.RaceDetector && os.Getenv("MC_TWIN") == "" {
		panic("harness: built without the race detector")
	}
	debug.SetGCPercent(1000)
	race := func(bound int) int { // preemptions with the race detector
		if bound = bound - c.Pick(1, 0); bound < 1 {
			bound = 1
		}
		return bound
	}
	c.Set("scenarios", len(scs))
	c.Set("preemption_bounds", bounds(scs))
	order := int64(0)
	for i, s := range scs {
		for _, v := range variants {
			if v != 0 && !ranging(s) {
				continue
			}
			dead := false
			most := 0
			before, began := order, time.Now()
			bound := s.Bound
			if sched.RaceDetector {
				bound = race(bound)
			}
			sched.Explore(bound, (c.Nth+i)%c.Of, c.Of, func(choices []sched.Choice) (sched.Outcome, bool) {
				order++
				sc := schedCase{s, v, choices}
				var o sched.Outcome
				var first error
				ran := false
				c.Check(int64(i)<<32|order, fmt.Sprint(s), sc, func() error {
					if ran { // the race detector reports each race once; a deadlock leaves the process unusable
						if first != nil && (o.Dead || strings.HasPrefix(first.Error(), "data race")) {
							return first
						}
						_, err := execute(c, sc, set)
						return err
					}
					ran = true
					o, first = execute(c, sc, set)
					return first
				})
				switch {
				case len(choices) == 0 && c.Nth != 0:
				case sched.RaceDetector:
					c.Add("executions_under_race_detector", 1)
				default:
					// the nodes that this execution adds to the tree of schedules
					n := int64(o.Switches)
					if len(choices) > 0 {
						n -= int64(choices[len(choices)-1].At)
					}
					c.States.Add(n)
					c.Traces.Add(1)
					c.Transitions.Add(int64(o.Steps))
				}
				if o.Switches > most {
					most = o.Switches
				}
				if len(choices) == s.Bound && order%3001 == 5 && c.WantSample() {
					c.Sample(sc)
				}
				if o.Stuck {
					c.Add("executions_outside_the_scheduler", 1)
					c.Capped()
				}
				dead = dead || o.Dead
				return o, !o.Dead && !c.Expired() && !c.Enough()
			})
			if os.Getenv("MC_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "SC %v v%d: %d points, %d executions in shard %d, %v\n", s, v, most, order-before, c.Nth, time.Since(began).Round(time.Millisecond))
			}
			if !sched.RaceDetector {
				c.Outcome("decision_points", fmt.Sprintf("%d0-%d9", most/10, most/10))
			}
			if dead || c.Expired() || c.Enough() {
				return
			}
		}
	}
}

// ranging tells whether a scenario goes over the entries of a map.
func ranging(s scenario) bool {
	for _, t := range s.Threads {
		for _, o := range t {
			switch o.K {
			case "walk", "list", "marshal", "remove", "removeall":
				return true
			}
		}
	}
	return false
}

func bounds(scs []scenario) map[string]int {
	m := map[string]int{}
	for _, s := range scs {
		m[fmt.Sprintf("%d threads, %d preemptions", len(s.Threads), s.Bound)]++
	}
	return m
}

func replaySched(set func(scenario) instance) func(c *kit.Ctx, raw json.RawMessage) error {
	return func(c *kit.Ctx, raw json.RawMessage) error {
		var sc schedCase
		if err := json.Unmarshal(raw, &sc); err != nil {
			return err
		}
		_, err := execute(c, sc, set)
		return err
	}
}

// threads makes bodies that run do for each operation and record what it answers.
func threads(ts [][]cop, do func(t, i int, o cop) string) (bodies []func(), got [][]string, span [][][2]int) {
	got = make([][]string, len(ts))
	span = make([][][2]int, len(ts))
	for t := range ts {
		got[t] = make([]string, len(ts[t]))
		span[t] = make([][2]int, len(ts[t]))
		bodies = append(bodies, func() {
			for i, o := range ts[t] {
				span[t][i][0] = sched.Stamp()
				got[t][i] = do(t, i, o)
				span[t][i][1] = sched.Stamp()
			}
		})
	}
	return
}

var memInfo = here.Info{Dir: "/nowhere/app", ImportPath: fsx.Main, Name: "main", Module: here.Module{Path: fsx.Main, Main: true, Dir: "/nowhere/app"}}

func newMem() *mem.Pkger {
	p, err := mem.New(memInfo)
	if err != nil {
		panic(err)
	}
	return p
}

func put(p pkging.Pkger, name, data string) {
	if err := p.MkdirAll(path.Dir(name), 0755); err != nil {
		panic(err)
	}
	f, err := p.Create(name)
	if err != nil {
		panic(err)
	}
	if data != "" {
		f.Write([]byte(data))
	}
	if err := f.Close(); err != nil {
		panic(err)
	}
}

// ---- C21: installing layers

func layerN(n string) *mem.Pkger {
	p := newMem()
	put(p, "/w/f"+n, "file "+n)
	put(p, "/w/g"+n, "more "+n)
	put(p, "/w/same", "layer "+n)
	return p
}

// stack is the model of the installed layers, topmost first, and of the files created through them.
type stack struct {
	layers  string // names
	created string
}

// model is what an operation answers, and the layers after it.
func (s stack) model(o cop) (string, stack) {
	switch o.K {
	case "apply":
		return "ok", stack{o.P + s.layers, s.created}
	case "applybad":
		return "panic", s
	}
	if s.layers == "" {
		return "error", s
	}
	switch o.K {
	case "stat": // /w/f<P> and /w/g<P>
		if strings.Contains(s.layers, o.P) {
			return "ok", s
		}
		return "error", s
	case "same", "dir":
		return "layer " + s.layers[:1], s
	case "create", "mkdir":
		return "ok", stack{s.layers, s.created + o.P}
	case "created", "made":
		if strings.Contains(s.created, o.P) {
			return "ok", s
		}
		return "error", s
	case "walk":
		var out []string
		for _, l := range strings.Split(s.layers, "") {
			out = append(out, "f"+l, "g"+l)
		}
		sort.Strings(out)
		return strings.Join(out, " "), s
	case "parse", "info", "current":
		return fsx.Main, s
	}
	panic(o.K)
}

func doGlobal(layers map[string]*mem.Pkger, o cop) string {
	short := func(err error) string {
		if err != nil {
			return "error"
		}
		return "ok"
	}
	switch o.K {
	case "apply":
		return short(pkger.Apply(layers[o.P], nil))
	case "applybad":
		ans := "no panic"
		func() {
			defer func() {
				if recover() != nil {
					ans = "panic"
				}
			}()
			pkger.Apply(nil, fmt.Errorf("failed to load"))
		}()
		return ans
	case "stat":
		_, err := pkger.Stat("/w/f" + o.P)
		return short(err)
	case "same":
		f, err := pkger.Open("/w/same")
		if err != nil {
			return "error"
		}
		defer f.Close()
		b, err := io.ReadAll(f)
		if err != nil {
			return "error"
		}
		return string(b)
	case "dir": // through the declared-directory type
		f, err := pkger.Dir("/w").Open("/same")
		if err != nil {
			return "error"
		}
		defer f.Close()
		b, err := io.ReadAll(f)
		if err != nil {
			return "error"
		}
		return string(b)
	case "mkdir":
		return short(pkger.MkdirAll("/w/m"+o.P, 0755))
	case "made":
		i, err := pkger.Stat("/w/m" + o.P)
		if err == nil && !i.IsDir() {
			return "a file"
		}
		return short(err)
	case "create":
		f, err := pkger.Create("/w/n" + o.P)
		if err != nil {
			return "error"
		}
		return short(f.Close())
	case "created":
		_, err := pkger.Stat("/w/n" + o.P)
		return short(err)
	case "walk":
		var out []string
		err := pkger.Walk("/w", func(p string, i os.FileInfo, err error) error {
			if n := i.Name(); err == nil && (n[0] == 'f' || n[0] == 'g') {
				out = append(out, n)
			}
			return err
		})
		if err != nil {
			return "error"
		}
		sort.Strings(out)
		return strings.Join(out, " ")
	case "parse":
		p, err := pkger.Parse("/w/x")
		if err != nil || p.Pkg != fsx.Main {
			return "error"
		}
		return p.Pkg
	case "info":
		p, err := pkger.Info(fsx.Main)
		if err != nil {
			return "error"
		}
		return p.ImportPath
	case "current":
		p, err := pkger.Current()
		if err != nil || p.ImportPath == "" {
			return "error"
		}
		return p.ImportPath
	}
	panic(o.K)
}

// setLayers sets up a scenario on the global functions. Start names the layers installed before.
func setLayers(s scenario) instance {
	sched.Restore()
	layers := map[string]*mem.Pkger{}
	for _, l := range strings.Split(s.Start, "") {
		layers[l] = layerN(l)
	}
	for _, t := range s.Threads {
		for _, o := range t {
			if o.K == "apply" {
				layers[o.P] = layerN(o.P)
			}
		}
	}
	first := stack{}
	for _, l := range strings.Split(s.Start, "") {
		if l == "" {
			continue
		}
		pkger.Apply(layers[l], nil)
		first.layers = l + first.layers
	}
	bodies, got, span := threads(s.Threads, func(_, _ int, o cop) string { return doGlobal(layers, o) })
	return instance{bodies, func() error {
		// everything is over: look at the result
		last := []cop{{K: "same"}, {K: "walk"}}
		var after []string
		for _, o := range last {
			after = append(after, doGlobal(layers, o))
		}
		next := make([]int, len(got))
		var search func(st stack) bool
		search = func(st stack) bool {
			over := true
			for t := range got {
				if next[t] == len(got[t]) {
					continue
				}
				over = false
				i := next[t]
				// no operation that has not been placed ended before this one began
				ok := true
				for u := range got {
					if u != t && next[u] < len(got[u]) && span[u][next[u]][1] < span[t][i][0] {
						ok = false
					}
				}
				if !ok {
					continue
				}
				ans, st2 := st.model(s.Threads[t][i])
				if ans != got[t][i] {
					continue
				}
				next[t]++
				if search(st2) {
					return true
				}
				next[t]--
			}
			if !over {
				return false
			}
			for i, o := range last {
				if ans, _ := st.model(o); ans != after[i] {
					return false
				}
			}
			return true
		}
		if !search(first) {
			return fmt.Errorf("no order of the operations explains the answers %v (begun and ended at %v) and the final state %v", got, span, after)
		}
		return nil
	}}
}

func layerScenarios(c *kit.Ctx) (out []scenario) {
	a := func(l string) cop { return cop{K: "apply", P: l} }
	reads := []cop{{K: "stat", P: "A"}, {K: "same"}, {K: "walk"}, {K: "parse"}, {K: "info"}, {K: "current"}, {K: "create", P: "1"}, {K: "dir"}, {K: "mkdir", P: "2"}}
	two, three := c.Pick(2, 3), c.Pick(1, 2)
	for _, st := range []string{"", "Z", "ZY"} {
		add := func(b int, ts ...[]cop) { out = append(out, scenario{st, ts, b}) }
		add(two, []cop{a("A")}, []cop{a("B")})
		add(two, []cop{a("A"), {K: "stat", P: "A"}}, []cop{a("B"), {K: "stat", P: "B"}})
		add(two, []cop{a("A"), a("B")}, []cop{a("C")})
		for _, r := range reads {
			if r.K == "mkdir" && st == "" {
				continue // on the disk
			}
			add(two, []cop{a("A")}, []cop{r})
			add(two, []cop{a("A")}, []cop{r, r})
			switch r.K {
			case "create":
				add(two, []cop{a("A")}, []cop{r, {K: "created", P: "1"}})
				continue
			case "mkdir":
				add(two, []cop{a("A")}, []cop{r, {K: "made", P: "2"}})
				add(three, []cop{a("A")}, []cop{r, {K: "made", P: "2"}}, []cop{a("B"), {K: "same"}})
				continue
			}
			add(two, []cop{a("A"), a("B")}, []cop{r, {K: "same"}})
			add(three, []cop{a("A")}, []cop{a("B")}, []cop{r})
		}
		add(three, []cop{a("A")}, []cop{a("B")}, []cop{a("C")})
		add(three, []cop{a("A")}, []cop{{K: "same"}, {K: "walk"}}, []cop{{K: "walk"}, {K: "same"}})
		add(two, []cop{{K: "applybad"}}, []cop{{K: "same"}, {K: "walk"}})
		add(two, []cop{{K: "applybad"}, a("A")}, []cop{a("B")})
		add(two, []cop{{K: "applybad"}, {K: "walk"}}, []cop{a("B"), {K: "stat", P: "B"}})
		add(three, []cop{{K: "applybad"}}, []cop{a("A"), {K: "stat", P: "A"}}, []cop{a("B")})
		if c.Thorough() {
			for _, r := range reads[:3] {
				add(three, []cop{a("A"), r}, []cop{a("B"), r}, []cop{r})
			}
			add(1, []cop{a("A")}, []cop{a("B")}, []cop{a("C")}, []cop{{K: "walk"}, {K: "same"}})
		}
	}
	return
}

const schedRule = "the code under test is rewritten at check time, with a scheduling point before every statement and a model of package sync; every schedule of each scenario within the preemption bound is executed under the race detector; "

// C21 is installing layers while others use them.
func C21() *kit.Prop {
	return &kit.Prop{ID: "C21", Level: "model_checking", Shards: true,
		Rule:   schedRule + "the answers must be those of some order of the operations that respects which one ended before which began (linearizability), on a stack of layers",
		Run:    func(c *kit.Ctx) { schedules(c, layerScenarios(c), []int{0}, setLayers) },
		Replay: replaySched(setLayers)}
}

// ---- C22: readers

var library = func() []byte {
	p := newMem()
	put(p, "/a.txt", "the first file")
	put(p, "/d/b.txt", strings.Repeat("0123456789", 60))
	put(p, "/d/e.html", "<html>") // text order and tree order differ
	put(p, "/d/empty", "")
	put(p, "/d/e/index.html", "<p>index")
	b, err := p.MarshalJSON()
	if err != nil {
		panic(err)
	}
	return b
}

var (
	embeddedJSON    []byte
	embeddedPicture string
	judged          int
)

// readers is an embedded file system with some handles and servers that the threads share.
type readers struct {
	fs   *mem.Pkger
	root pkging.File // directories
	d    pkging.File
	srv  http.Handler
}

func newReaders() *readers {
	if embeddedJSON == nil {
		embeddedJSON = library()
	}
	p := &mem.Pkger{}
	if err := p.UnmarshalJSON(embeddedJSON); err != nil {
		panic(err)
	}
	open := func(n string) pkging.File {
		f, err := p.Open(n)
		if err != nil {
			panic(err)
		}
		return f
	}
	r := &readers{fs: p, root: open("/"), d: open("/d")}
	r.srv = http.FileServer(r.root)
	if embeddedPicture == "" {
		embeddedPicture = picture(p)
	}
	return r
}

func entries(is []os.FileInfo) string {
	var w strings.Builder
	for _, i := range is {
		fmt.Fprintf(&w, "%s;", infoString(i))
	}
	return w.String()
}

func readWhole(f http.File, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	defer f.Close()
	st, err := f.Stat()
	if err != nil {
		return "error: " + err.Error()
	}
	b, err := io.ReadAll(f)
	return fmt.Sprintf("%s %q %v", infoString(st), b, err)
}

func (r *readers) do(o cop) string {
	switch o.K {
	case "read":
		f, err := r.fs.Open(o.P)
		if err != nil {
			return readWhole(nil, err)
		}
		return readWhole(f, nil)
	case "bits": // with two handles, and seeking
		f, err := r.fs.Open(o.P)
		if err != nil {
			return err.Error()
		}
		g, err := r.fs.Open(o.P)
		if err != nil {
			return err.Error()
		}
		b := make([]byte, 4)
		var w strings.Builder
		n, err := f.Read(b)
		fmt.Fprintf(&w, "%q %v;", b[:n], err)
		at, err := g.Seek(-3, io.SeekEnd)
		fmt.Fprintf(&w, "%d %v;", at, err)
		n, err = g.Read(b)
		fmt.Fprintf(&w, "%q %v;", b[:n], err)
		n, err = f.Read(b)
		fmt.Fprintf(&w, "%q %v;", b[:n], err)
		f.Close()
		g.Close()
		return w.String()
	case "stat":
		i, err := r.fs.Stat(o.P)
		if err != nil {
			return "error: " + err.Error()
		}
		return infoString(i)
	case "list":
		f, err := r.fs.Open(o.P)
		if err != nil {
			return err.Error()
		}
		defer f.Close()
		is, err := f.Readdir(2)
		js, err2 := f.Readdir(-1)
		return fmt.Sprintf("%s %v %s %v", entries(is), err, entries(js), err2)
	case "walk":
		var w strings.Builder
		err := r.fs.Walk(o.P, func(p string, i os.FileInfo, err error) error {
			fmt.Fprintf(&w, "%s %s %v;", p, infoString(i), err)
			return nil
		})
		return fmt.Sprintf("%s %v", w.String(), err)
	case "via": // through a directory handle that the threads share
		f, err := r.d.Open(o.P)
		return readWhole(f, err)
	case "vialist":
		f, err := r.root.Open(o.P)
		if err != nil {
			return err.Error()
		}
		defer f.Close()
		is, err := f.Readdir(-1)
		return fmt.Sprintf("%s %v", entries(is), err)
	case "info":
		i, err := r.fs.Info(fsx.Main)
		return fmt.Sprint(i.ImportPath, err)
	case "current":
		i, err := r.fs.Current()
		return fmt.Sprint(i.ImportPath, err)
	case "parse":
		i, err := r.fs.Parse(o.P)
		return fmt.Sprint(i, err)
	case "about":
		i, err := r.d.Stat()
		return fmt.Sprint(r.d.Name(), r.d.Path(), r.d.Info().ImportPath, i.Name(), err)
	case "marshal":
		b, err := r.fs.MarshalJSON()
		return fmt.Sprintf("%s %v", b, err)
	case "get":
		req := httptest.NewRequest("GET", o.P, nil)
		if o.D != "" {
			req.Header.Set("Range", o.D)
		}
		w := httptest.NewRecorder()
		r.srv.ServeHTTP(w, req)
		return fmt.Sprintf("%d %q %q %q", w.Code, w.Header().Get("Content-Type"), w.Header().Get("Content-Range"), w.Body.String())
	}
	panic(o.K)
}

var alone = map[string]string{}

func setReaders(s scenario) instance {
	r := newReaders()
	bodies, got, _ := threads(s.Threads, func(_, _ int, o cop) string { return r.do(o) })
	return instance{bodies, func() error {
		for t, ops := range s.Threads {
			for i, o := range ops {
				k := fmt.Sprint(o) + o.D
				if _, ok := alone[k]; !ok {
					alone[k] = newReaders().do(o)
				}
				if got[t][i] != alone[k] {
					return fmt.Errorf("thread %d: %s answers %.400s, alone it answers %.400s", t, o, got[t][i], alone[k])
				}
			}
		}
		if p := picture(r.fs); p != embeddedPicture {
			return fmt.Errorf("the file system was changed by reading, from %s to %s", embeddedPicture, p)
		}
		if judged++; judged%64 == 1 {
			b, err := r.fs.MarshalJSON()
			if err != nil || string(b) != string(embeddedJSON) {
				return fmt.Errorf("the file system was changed by reading: %v", err)
			}
		}
		return nil
	}}
}

func readerScenarios(c *kit.Ctx) (out []scenario) {
	ops := []cop{{K: "read", P: "/d/b.txt"}, {K: "bits", P: "/d/b.txt"}, {K: "stat", P: "/d/b.txt"}, {K: "list", P: "/d"}, {K: "walk", P: "/d"}, {K: "via", P: "/b.txt"}, {K: "vialist", P: "/d"}, {K: "read", P: "/missing"},
		{K: "info"}, {K: "current"}, {K: "parse", P: "/d/x"}, {K: "about"}, {K: "marshal"}, {K: "read", P: "/a.txt"}, {K: "get", P: "/d/b.txt"}, {K: "get", P: "/d/"}, {K: "get", P: "/d/b.txt", D: "bytes=3-12"}, {K: "get", P: "/d/e/"}, {K: "get", P: "/nothing"}}
	heavy := map[string]bool{"walk": true, "list": true, "vialist": true, "get": true, "marshal": true}
	for i, o := range ops {
		for _, p := range ops[i:] {
			b := c.Pick(2, 3)
			if heavy[o.K] || heavy[p.K] {
				b = c.Pick(1, 2)
			}
			out = append(out, scenario{"", [][]cop{{o}, {p}}, b})
		}
	}
	for _, o := range ops {
		out = append(out, scenario{"", [][]cop{{o}, {o}, {o}}, 1})
	}
	for _, o := range ops[:8] {
		for _, p := range ops[:8] {
			if c.Thorough() || o.K < p.K {
				out = append(out, scenario{"", [][]cop{{o}, {p}, {{K: "via", P: "/b.txt"}}}, 1})
			}
		}
	}
	return
}

// C22 is reading at once.
func C22() *kit.Prop {
	return &kit.Prop{ID: "C22", Level: "model_checking", Shards: true,
		Rule:   schedRule + "every operation must answer exactly what it answers alone, and leave the file system unchanged",
		Run:    func(c *kit.Ctx) { schedules(c, readerScenarios(c), []int{0}, setReaders) },
		Replay: replaySched(setReaders)}
}

// ---- C23: changes

// startFS is the file system that a scenario begins with.
func startFS(kind string) (*mem.Pkger, map[string]string) {
	p := newMem()
	have := map[string]string{}
	switch kind {
	case "new":
	case "full":
		for n, d := range map[string]string{"/old": "old content", "/d/keep": "kept", "/dir/x": "xx", "/dir/s/y": "yy", "/dir/s.z": "z", "/over": "to be replaced"} {
			have[n] = d
		}
	}
	var names []string
	for n := range have {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		put(p, n, have[n])
	}
	return p, have
}

// steps are the operations that a thread's operation consists of.
func steps(o cop) []string {
	if o.K == "put" {
		return []string{"create", "write", "close"}
	}
	return []string{o.K}
}

// changer runs the changing operations.
type changer struct {
	fs pkging.Pkger
	h  map[[2]int]pkging.File
}

func (x *changer) step(t, i int, o cop, k string) string {
	short := func(err error) string {
		if err != nil {
			return "error"
		}
		return "ok"
	}
	switch k {
	case "create":
		f, err := x.fs.Create(o.P)
		if err == nil {
			x.h[[2]int{t, i}] = f
		}
		return short(err)
	case "write":
		f := x.h[[2]int{t, i}]
		if f == nil {
			return ""
		}
		half := len(o.D) / 2
		if n, err := f.Write([]byte(o.D[:half])); err != nil || n != half {
			return "error"
		}
		n, err := f.Write([]byte(o.D[half:]))
		if n != len(o.D)-half {
			return "error"
		}
		return short(err)
	case "close":
		f := x.h[[2]int{t, i}]
		if f == nil {
			return ""
		}
		return short(f.Close())
	case "mkdir":
		return short(x.fs.MkdirAll(o.P, 0755))
	case "remove":
		return short(x.fs.Remove(o.P))
	case "removeall":
		return short(x.fs.RemoveAll(o.P))
	}
	return ""
}

func changing(o cop) bool {
	switch o.K {
	case "put", "mkdir", "remove", "removeall":
		return true
	}
	return false
}

// picture is everything in the file system, without times.
func picture(fs pkging.Pkger) string {
	var w strings.Builder
	err := fs.Walk("/", func(p string, i os.FileInfo, err error) error {
		fmt.Fprintf(&w, "%s %v %v %d", p, i.IsDir(), i.Mode(), i.Size())
		if !i.IsDir() {
			f, err := fs.Open(p)
			if err != nil {
				fmt.Fprintf(&w, " %v", err)
			} else {
				b, err := io.ReadAll(f)
				fmt.Fprintf(&w, " %q %v", b, err)
			}
		}
		fmt.Fprintf(&w, "; ")
		return nil
	})
	return fmt.Sprintf("%s%v", w.String(), err)
}

var outcomesOf = map[string]map[string]bool{}

// sequential is the set of answers and final states of all orders of the steps.
func sequential(s scenario) map[string]bool {
	key := fmt.Sprint(s.Start, s.Threads)
	if m, ok := outcomesOf[key]; ok {
		return m
	}
	type st struct {
		t, i int
		o    cop
		k    string
	}
	var lists [][]st
	for t, ops := range s.Threads {
		var l []st
		for i, o := range ops {
			if !changing(o) {
				continue
			}
			for _, k := range steps(o) {
				l = append(l, st{t, i, o, k})
			}
		}
		lists = append(lists, l)
	}
	m := map[string]bool{}
	next := make([]int, len(lists))
	var seq []st
	var rec func()
	rec = func() {
		over := true
		for t := range lists {
			if next[t] == len(lists[t]) {
				continue
			}
			over = false
			seq = append(seq, lists[t][next[t]])
			next[t]++
			rec()
			next[t]--
			seq = seq[:len(seq)-1]
		}
		if !over {
			return
		}
		fs, _ := startFS(s.Start)
		x := &changer{fs, map[[2]int]pkging.File{}}
		ans := make([][]string, len(lists))
		for _, q := range seq {
			ans[q.t] = append(ans[q.t], x.step(q.t, q.i, q.o, q.k))
		}
		m[fmt.Sprint(ans, picture(fs))] = true
	}
	rec()
	outcomesOf[key] = m
	return m
}

// view is what may be seen of the files while a scenario runs.
type view struct {
	contents map[string]map[string]bool // path -> contents; "\x00" absent
	dirs     map[string]bool            // directories that may be there
	fixed    map[string]bool            // paths that are there throughout
}

func newView(s scenario) view {
	_, have := startFS(s.Start)
	v := view{map[string]map[string]bool{}, map[string]bool{"/": true}, map[string]bool{}}
	up := func(p string) {
		for ; p != "/"; p = path.Dir(p) {
			v.dirs[p] = true
		}
	}
	if len(have) > 0 {
		v.fixed["/"] = true
	}
	for p, d := range have {
		v.contents[p] = map[string]bool{d: true}
		for q := p; q != "/"; q = path.Dir(q) {
			v.fixed[q] = true
		}
		up(path.Dir(p))
	}
	for _, ops := range s.Threads {
		for _, o := range ops {
			switch o.K {
			case "put":
				if v.contents[o.P] == nil {
					v.contents[o.P] = map[string]bool{"\x00": true}
				}
				v.contents[o.P][""] = true
				v.contents[o.P][o.D] = true
			case "mkdir":
				up(o.P)
			case "remove", "removeall":
				for p := range v.fixed {
					if p == o.P || strings.HasPrefix(p, o.P+"/") {
						delete(v.fixed, p)
					}
				}
				for p := range v.contents {
					if p == o.P || strings.HasPrefix(p, o.P+"/") {
						v.contents[p]["\x00"] = true
					}
				}
			}
		}
	}
	return v
}

func (v view) size(p string, n int64) error {
	for d := range v.contents[p] {
		if d != "\x00" && int64(len(d)) == n {
			return nil
		}
	}
	return fmt.Errorf("%s is seen with size %d", p, n)
}

func (v view) entry(p string, i os.FileInfo) error {
	if i == nil {
		return fmt.Errorf("%s has no file information", p)
	}
	if i.IsDir() {
		if !v.dirs[p] {
			return fmt.Errorf("%s is seen as a directory", p)
		}
		return nil
	}
	if v.contents[p] == nil {
		return fmt.Errorf("%s is seen", p)
	}
	if i.Name() != path.Base(p) {
		return fmt.Errorf("%s is seen as %s", p, i.Name())
	}
	return v.size(p, i.Size())
}

func (v view) content(p string, st os.FileInfo, b []byte) error {
	if !v.contents[p][string(b)] {
		return fmt.Errorf("%s is read as %q", p, b)
	}
	if st.Size() != int64(len(b)) {
		return fmt.Errorf("%s is read as %q, its size is %d", p, b, st.Size())
	}
	return nil
}

// look runs a reading operation and checks what it sees. mine is the content the same thread published before, if any.
func (v view) look(fs *mem.Pkger, o cop, mine *string) error {
	gone := func(err error) error {
		if !os.IsNotExist(err) {
			return fmt.Errorf("%s: %v", o, err)
		}
		if v.fixed[o.P] || mine != nil {
			return fmt.Errorf("%s: %v, but it is there", o, err)
		}
		return nil
	}
	switch o.K {
	case "read":
		f, err := fs.Open(o.P)
		if err != nil {
			return gone(err)
		}
		defer f.Close()
		st, err := f.Stat()
		if err != nil {
			return err
		}
		b, err := io.ReadAll(f)
		if err != nil {
			return fmt.Errorf("%s: %v", o, err)
		}
		if mine != nil && string(b) != *mine {
			return fmt.Errorf("%s reads %q, the same goroutine wrote %q", o, b, *mine)
		}
		return v.content(o.P, st, b)
	case "stat":
		i, err := fs.Stat(o.P)
		if err != nil {
			return gone(err)
		}
		if mine != nil && i.Size() != int64(len(*mine)) {
			return fmt.Errorf("%s: size %d, the same goroutine wrote %q", o, i.Size(), *mine)
		}
		return v.entry(o.P, i)
	case "walk":
		seen := map[string]bool{}
		last := ""
		err := fs.Walk(o.P, func(q string, i os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			p := strings.TrimPrefix(q, fsx.Main+":")
			if seen[p] {
				return fmt.Errorf("%s visits %s twice", o, p)
			}
			k := strings.ReplaceAll(p, "/", "\x00")
			if k < last {
				return fmt.Errorf("%s visits %s too late", o, p)
			}
			last = k
			seen[p] = true
			return v.entry(p, i)
		})
		if err != nil {
			return err
		}
		for p := range v.fixed {
			if beneath(p, o.P) && !seen[p] {
				return fmt.Errorf("%s misses %s", o, p)
			}
		}
		return nil
	case "list":
		f, err := fs.Open(o.P)
		if err != nil {
			return gone(err)
		}
		is, err := f.Readdir(-1)
		if err != nil {
			return err
		}
		seen := map[string]bool{}
		for _, i := range is {
			p := path.Join(o.P, i.Name())
			if seen[p] {
				return fmt.Errorf("%s has %s twice", o, p)
			}
			seen[p] = true
			if err := v.entry(p, i); err != nil {
				return err
			}
		}
		for p := range v.fixed {
			if path.Dir(p) == o.P && p != "/" && !seen[p] {
				return fmt.Errorf("%s misses %s", o, p)
			}
		}
		return nil
	case "marshal":
		b, err := fs.MarshalJSON()
		if err != nil {
			return err
		}
		g := &mem.Pkger{}
		if err := g.UnmarshalJSON(b); err != nil {
			return err
		}
		if err := v.look(g, cop{K: "walk", P: "/"}, nil); err != nil {
			return fmt.Errorf("%s: %v", o, err)
		}
		for p := range v.contents {
			if err := v.look(g, cop{K: "read", P: p}, nil); err != nil {
				return fmt.Errorf("%s: %v", o, err)
			}
		}
		return nil
	}
	panic(o.K)
}

func setChanges(s scenario) instance {
	fs, _ := startFS(s.Start)
	v := newView(s)
	type box struct {
		ans []string
		err error
		x   *changer
	}
	boxes := make([]*box, len(s.Threads))
	var bodies []func()
	for t, ops := range s.Threads {
		b := &box{x: &changer{fs, map[[2]int]pkging.File{}}}
		boxes[t] = b
		bodies = append(bodies, func() {
			mine := map[string]*string{}
			for i, o := range ops {
				if !changing(o) {
					if err := v.look(fs, o, mine[o.P]); err != nil && b.err == nil {
						b.err = err
					}
					continue
				}
				for _, k := range steps(o) {
					b.ans = append(b.ans, b.x.step(t, i, o, k))
				}
				if o.K == "put" && b.ans[len(b.ans)-1] == "ok" {
					d := o.D
					mine[o.P] = &d
				}
			}
		})
	}
	return instance{bodies, func() error {
		var ans [][]string
		for t, b := range boxes {
			if b.err != nil {
				return fmt.Errorf("thread %d: %v", t, b.err)
			}
			ans = append(ans, b.ans)
		}
		got := fmt.Sprint(ans, picture(fs))
		if all := sequential(s); !all[got] {
			var one string
			for one = range all {
				break
			}
			return fmt.Errorf("answers and final state %s are those of none of the %d orders, as %s", got, len(all), one)
		}
		return nil
	}}
}

func changeScenarios(c *kit.Ctx) (out []scenario) {
	A, B := "content of a", "b's content, which is longer"
	two, three := c.Pick(2, 3), c.Pick(1, 2)
	heavy := func(o cop) bool { return o.K == "walk" || o.K == "list" || o.K == "marshal" }
	add := func(st string, b int, ts ...[]cop) { out = append(out, scenario{st, ts, b}) }
	read := func(p string) cop { return cop{K: "read", P: p} }
	// first operations on a new file system
	fresh := []cop{{"put", "/a", A}, {"mkdir", "/x/y", ""}, {"mkdir", "/x", ""}, {"mkdir", "/z", ""}, {"remove", "/none", ""}, {"removeall", "/none", ""}}
	see := []cop{{K: "read", P: "/a"}, {K: "stat", P: "/a"}, {K: "walk", P: "/"}, {K: "list", P: "/"}, {K: "marshal"}}
	for i, o := range fresh {
		for _, p := range fresh[i:] {
			if o == p && o.K == "put" {
				p = cop{"put", "/b", B}
			}
			add("new", two, []cop{o}, []cop{p})
		}
	}
	for _, r := range see {
		b := two
		if heavy(r) {
			b = c.Pick(1, 2)
		}
		add("new", two, []cop{{"put", "/a", A}}, []cop{r})
		add("new", b, []cop{{"put", "/a", A}, {K: "read", P: "/a"}}, []cop{{"put", "/b", B}, r})
		add("new", b, []cop{{"mkdir", "/x/y", ""}, {"put", "/x/y/b", B}}, []cop{{"put", "/a", A}, r})
	}
	add("new", two, []cop{{"mkdir", "/x/y", ""}, {"put", "/x/y/a", A}, read("/x/y/a")}, []cop{{"mkdir", "/x/z", ""}, {"put", "/x/z/b", B}, read("/x/z/b")})
	// on existing files
	ws := []cop{{"put", "/a", A}, {"put", "/d/b", B}, {"mkdir", "/d/e/f", ""}, {"remove", "/old", ""}, {"removeall", "/dir", ""}, {"put", "/over", A}, {"put", "/dir/s/n", B}, {"mkdir", "/dir/s/m", ""}, {"remove", "/dir/x", ""}, {"removeall", "/dir/s", ""}}
	rs := []cop{read("/a"), read("/over"), read("/old"), read("/dir/x"), read("/d/keep"), {K: "stat", P: "/over"}, {K: "stat", P: "/a"}, {K: "walk", P: "/"}, {K: "walk", P: "/dir"}, {K: "list", P: "/"}, {K: "list", P: "/dir"}, {K: "list", P: "/d"}, {K: "marshal"}}
	for i, o := range ws {
		for _, p := range ws[i:] {
			if o.P == p.P {
				continue
			}
			add("full", two, []cop{o}, []cop{p})
		}
		for _, r := range rs {
			b := two
			if heavy(r) {
				b = c.Pick(1, 2)
			}
			add("full", b, []cop{o}, []cop{r})
			if (!heavy(r) || r.K == "marshal") && !c.Thorough() {
				continue
			}
			add("full", 1, []cop{o}, []cop{r, r})
		}
	}
	// three at once
	for i, o := range ws[:6] {
		for _, p := range ws[i+1 : 6] {
			add("full", three, []cop{o}, []cop{p}, []cop{{K: "stat", P: "/over"}, read("/a")})
		}
	}
	add("new", three, []cop{{"put", "/a", A}}, []cop{{"put", "/b", B}}, []cop{{"put", "/c", ""}})
	add("new", three, []cop{{"mkdir", "/x/1", ""}}, []cop{{"mkdir", "/x/2", ""}}, []cop{{"mkdir", "/x/3", ""}})
	add("new", three, []cop{{"put", "/a", A}}, []cop{{"put", "/b", B}}, []cop{{K: "walk", P: "/"}})
	again := []cop{{"removeall", "/dir", ""}, {"mkdir", "/dir", ""}, {"put", "/dir/x", A}, read("/dir/x")}
	add("full", three, []cop{{"put", "/a", A}, read("/a")}, []cop{{"remove", "/old", ""}, {"put", "/old", B}, read("/old")}, []cop{{"removeall", "/dir", ""}, read("/dir/x")})
	add("full", two, []cop{{"put", "/a", A}, read("/a")}, again)
	add("full", two, []cop{{"remove", "/old", ""}, {"put", "/old", B}, read("/old")}, again)
	return
}

// C23 is changing at once.
func C23() *kit.Prop {
	return &kit.Prop{ID: "C23", Level: "model_checking", Shards: true,
		Rule:   schedRule + "the answers and the final state must be those of some order of the creations, writes, closes and removals run one after the other; everything a reader sees must have been there, whole",
		Run:    func(c *kit.Ctx) { schedules(c, changeScenarios(c), []int{0, 3}, setChanges) },
		Replay: replaySched(setChanges)}
}
