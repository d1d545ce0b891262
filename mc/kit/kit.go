// Package kit is the frame every check runs in: case bookkeeping, parallel
// enumeration, violations, replay artefacts, known findings and evidence.
package kit

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Prop is one check.
type Prop struct {
	ID     string
	Level  string // evidence level
	Rule   string
	Root   bool // child needs root (runs the go command on real modules); default: unprivileged
	Shards bool // run in one process per core; Run takes the cases for which Mine is true
	Assume []string
	Run    func(c *Ctx)
	Replay func(c *Ctx, raw json.RawMessage) error
}

// Violation of the property by one concrete case.
type Violation struct {
	Key   string          `json:"key"`
	What  string          `json:"what"`
	Case  json.RawMessage `json:"case"`
	Order int64           `json:"order"`
}

// Result is what a child hands to its parent.
type Result struct {
	Property   string                      `json:"property"`
	Counts     map[string]int64            `json:"counts"`
	Sums       map[string]int64            `json:"sums"`
	Facts      map[string]any              `json:"facts"`
	Outcomes   map[string]map[string]int64 `json:"outcomes"`
	Samples    []any                       `json:"samples"`
	Violations []Violation                 `json:"violations"`
	Exhaustive bool                        `json:"exhaustive"`
}

// Merge adds the result of another shard.
func (r *Result) Merge(o *Result) {
	for k, v := range o.Counts {
		r.Counts[k] += v
	}
	for k, v := range o.Sums {
		r.Sums[k] += v
	}
	for k, v := range o.Facts {
		if _, ok := r.Facts[k]; !ok {
			r.Facts[k] = v
		}
	}
	for g, m := range o.Outcomes {
		if r.Outcomes[g] == nil {
			r.Outcomes[g] = map[string]int64{}
		}
		for k, v := range m {
			r.Outcomes[g][k] += v
		}
	}
	if len(r.Samples) < 6 {
		r.Samples = append(r.Samples, o.Samples...)
	}
	if len(r.Samples) > 6 {
		r.Samples = r.Samples[:6]
	}
	r.Violations = append(r.Violations, o.Violations...)
	sort.SliceStable(r.Violations, func(i, j int) bool { return r.Violations[i].Order < r.Violations[j].Order })
	r.Exhaustive = r.Exhaustive && o.Exhaustive
}

// Coverage is the evidence of the result.
func (r *Result) Coverage(p *Prop) map[string]any {
	cov := map[string]any{}
	for k, v := range r.Facts {
		cov[k] = v
	}
	for k, v := range r.Sums {
		cov[k] = v
	}
	for g, m := range r.Outcomes {
		cov["outcomes_"+g] = m
	}
	n := r.Counts
	switch p.Level {
	case "model_checking":
		cov["states"] = n["states"]
		cov["transitions"] = n["transitions"]
		cov["traces_validated_against_impl"] = n["traces"]
		if n["evals"] > 0 {
			cov["evaluations"] = n["evals"]
		}
	default:
		cov["evaluations"] = n["evals"]
		cov["distinct_nontrivial"] = n["distinct"]
		for k, as := range map[string]string{"states": "states", "transitions": "transitions", "traces": "traces_validated_against_impl"} {
			if n[k] > 0 {
				cov[as] = n[k]
			}
		}
	}
	cov["rule"] = p.Rule
	if r.Samples == nil {
		r.Samples = []any{}
	}
	cov["samples"] = r.Samples
	cov["exhaustive"] = r.Exhaustive
	return cov
}

// Ctx is the state of one run.
type Ctx struct {
	P        *Prop
	Tier     string
	Seed     int64
	Work     string // scratch directory of this run
	Start    time.Time
	Deadline time.Time

	States, Transitions, Traces, Evals, Distinct atomic.Int64
	Replaying                                    bool
	Nth, Of                                      int // this shard, of how many
	order                                        atomic.Int64
	capped                                       atomic.Bool
	mu                                           sync.Mutex
	viol                                         []Violation
	keys                                         map[string]int
	extra                                        map[string]any
	sums                                         map[string]int64
	outcomes                                     map[string]map[string]int64
	samples                                      []any
	beat                                         atomic.Int64
}

// Thorough tells the tier.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier.
func (c *Ctx) Pick(q, t int) int {
	if c.Thorough() {
		return t
	}
	return q
}

// Expired tells whether the internal deadline passed; the run is then no longer exhaustive.
func (c *Ctx) Expired() bool {
	if time.Now().After(c.Deadline) {
		c.capped.Store(true)
		return true
	}
	return false
}

// Capped marks the run as not exhaustive.
func (c *Ctx) Capped() { c.capped.Store(true) }

// Enough is true when no further violations need to be looked for.
func (c *Ctx) Enough() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.viol) >= 40
}

// Set records an extra number or fact in the evidence.
func (c *Ctx) Set(k string, v any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.extra[k] = v
}

// Add adds to an extra number.
func (c *Ctx) Add(k string, n int64) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.sums[k] += n
}

// Outcome counts an observed outcome (evidence against vacuity).
func (c *Ctx) Outcome(group, k string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	m := c.outcomes[group]
	if m == nil {
		m = map[string]int64{}
		c.outcomes[group] = m
	}
	if len(m) < 200 || m[k] > 0 {
		m[k]++
	}
}

// Sample keeps a few cases for the evidence.
func (c *Ctx) Sample(x any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.samples) < 6 {
		c.samples = append(c.samples, x)
	}
}

// WantSample tells whether Sample still keeps something.
func (c *Ctx) WantSample() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.samples) < 6
}

// Violate records a violation. key identifies the failing input for the known-findings file.
func (c *Ctx) Violate(order int64, key, what string, cs any) {
	raw, err := json.Marshal(cs)
	if err != nil {
		raw, _ = json.Marshal(fmt.Sprintf("%+v", cs))
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.keys[key] >= 3 {
		return
	}
	c.keys[key]++
	c.viol = append(c.viol, Violation{Key: key, What: what, Case: raw, Order: order})
}

// Guard runs f and turns a panic into an error.
func Guard(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i > 0 {
				st = st[i:]
			}
			if len(st) > 1500 {
				st = st[:1500]
			}
			err = fmt.Errorf("panic: %v\n%s", r, st)
		}
	}()
	return f()
}

// Check runs one case; a returned error is a violation, confirmed by re-running it.
func (c *Ctx) Check(order int64, key string, cs any, f func() error) bool {
	c.beat.Add(1)
	err := Guard(f)
	if err == nil {
		return true
	}
	n := 0
	for i := 0; i < 5; i++ {
		if e := Guard(f); e != nil {
			n++
			err = e
		}
	}
	if n == 0 { // keep trying: the outcome may depend on map iteration order
		for i := 0; i < 40 && n == 0; i++ {
			if e := Guard(f); e != nil {
				n++
				err = e
			}
		}
		if n == 0 {
			c.Add("unconfirmed_failures", 1)
			c.Set("unconfirmed_last", err.Error())
			return true
		}
	}
	c.Violate(order, key, fmt.Sprintf("%v (failed %d of 5 re-runs)", err, n), cs)
	return false
}

// Par runs f(i) for i in [0,n) on all cores, in index order as far as possible. It stops early at the deadline or
// when enough violations were seen.
func (c *Ctx) Par(n int, f func(i, worker int)) {
	w := runtime.GOMAXPROCS(0)
	if w > n {
		w = n
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				if i&15 == 0 && (c.Expired() || c.Enough()) {
					return
				}
				f(i, k)
			}
		}(k)
	}
	wg.Wait()
}

// Mine tells whether this shard takes case i.
func (c *Ctx) Mine(i int) bool { return i%c.Of == c.Nth }

// Each runs f(i) for the cases of this shard, one after the other.
func (c *Ctx) Each(n int, f func(i int)) {
	for i := 0; i < n; i++ {
		if !c.Mine(i) {
			continue
		}
		if c.Expired() || c.Enough() {
			return
		}
		f(i)
	}
}

// Workers is the number of parallel workers Par uses.
func Workers() int { return runtime.GOMAXPROCS(0) }

// NewCtx makes the context of one run.
func NewCtx(p *Prop, tier string, seed int64, work string, budget time.Duration) *Ctx {
	return &Ctx{P: p, Tier: tier, Seed: seed, Work: work, Start: time.Now(), Deadline: time.Now().Add(budget),
		sums: map[string]int64{}, Nth: 0, Of: 1, extra: map[string]any{}, outcomes: map[string]map[string]int64{}, keys: map[string]int{}}
}

// Watch ends the process with code 9 when no case was finished for a long time: a hang.
func (c *Ctx) Watch(limit time.Duration) {
	go func() {
		last, at := int64(-1), time.Now()
		for {
			time.Sleep(time.Second)
			if b := c.beat.Load(); b != last {
				last, at = b, time.Now()
				continue
			}
			if time.Since(at) > limit {
				buf := make([]byte, 1<<20)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "HANG: no case finished for %v\n%s\n", limit, buf[:n])
				os.Exit(9)
			}
		}
	}()
}

// Beat tells the watchdog that work goes on.
func (c *Ctx) Beat() { c.beat.Add(1) }

// Finish makes the result.
func (c *Ctx) Finish() *Result {
	sort.SliceStable(c.viol, func(i, j int) bool { return c.viol[i].Order < c.viol[j].Order })
	return &Result{Property: c.P.ID, Sums: c.sums, Facts: c.extra, Outcomes: c.outcomes, Samples: c.samples, Violations: c.viol, Exhaustive: !c.capped.Load(),
		Counts: map[string]int64{"states": c.States.Load(), "transitions": c.Transitions.Load(), "traces": c.Traces.Load(), "evals": c.Evals.Load(), "distinct": c.Distinct.Load()}}
}

// WriteJSON writes v to path.
func WriteJSON(path string, v any) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Dir(path), 0755); err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0644)
}
