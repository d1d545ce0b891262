// Package sched runs a few tasks under a cooperative scheduler: only one of them runs at a time, and at every point the
// scheduler decides which one goes on. A schedule is the list of those decisions; all of them, up to a number of
// preemptions, can be enumerated.
//
// The code under test is rewritten at check time (package instr): a call of Point before every statement, and package
// vsync in place of package sync. The hand-over between tasks is invisible to the race detector, so that it only sees the
// synchronisation that the code under test does by itself.
package sched

import (
	"fmt"
	"runtime/debug"
	"strings"
	"sync"
	"time"
	"unsafe"
)

//go:linkname semacquire sync.runtime_Semacquire
func semacquire(s *uint32)

//go:linkname semrelease sync.runtime_Semrelease
func semrelease(s *uint32, handoff bool, skipframes int)

//go:linkname getLabel runtime/pprof.runtime_getProfLabel
func getLabel() unsafe.Pointer

//go:linkname setLabel runtime/pprof.runtime_setProfLabel
func setLabel(p unsafe.Pointer)

const (
	ready = iota
	blocked
	done
)

type task struct {
	ex    *exec
	id    int
	sema  uint32
	state int
	on    unsafe.Pointer
	fail  string
}

// Choice is a decision that differs from the default: at decision point At, alternative To.
type Choice struct {
	At int `json:"at"`
	To int `json:"to"`
}

type decision struct {
	n          int16 // alternatives
	preemptive bool  // all but the default preempt the running task
}

type exec struct {
	tasks    []*task
	cur      *task
	steps    int
	stamp    int
	choices  []Choice
	ci       int
	trace    []decision
	sema     uint32
	over     bool
	deadlock bool
	stuck    bool
	long     bool
	free     bool // the scheduler gave up: everything runs freely
	diverged bool
	wg       sync.WaitGroup
}

// Variant selects how unordered things are ordered: bit 0: entries that are stored while a sync.Map is ranged over are
// visited too; bit 1: maps are ranged over in reverse order.
var Variant int

var running *exec

// maxSteps bounds one execution.
const maxSteps = 1 << 20

//go:norace
func self() *task {
	p := getLabel()
	if p == nil || running == nil {
		return nil
	}
	t := (*task)(p)
	if t.ex != running {
		return nil
	}
	return t
}

// Controlled tells whether the caller is a task.
//
//go:norace
func Controlled() bool { t := self(); return t != nil && !t.ex.free }

// Point lets the scheduler decide who goes on.
//
//go:norace
func Point() {
	t := self()
	if t == nil {
		return
	}
	e := t.ex
	if e.free {
		return
	}
	e.steps++
	if e.steps > maxSteps {
		e.long = true
		e.finish()
		var never uint32
		semacquire(&never)
	}
	if len(e.tasks) == 1 {
		return
	}
	next := e.choose(t)
	if next != t {
		e.cur = next
		semrelease(&next.sema, false, 0)
		semacquire(&t.sema)
	}
}

// choose picks the next task; t is the running one if it can go on, else nil.
//
//go:norace
func (e *exec) choose(t *task) *task {
	n := 0
	if t != nil {
		n = 1
	}
	for _, o := range e.tasks {
		if o != t && o.state == ready {
			n++
		}
	}
	if n == 0 {
		return nil
	}
	c := 0
	if n > 1 {
		at := len(e.trace)
		e.trace = append(e.trace, decision{int16(n), t != nil})
		if e.ci < len(e.choices) && e.choices[e.ci].At == at {
			c = e.choices[e.ci].To
			e.ci++
			if c >= n {
				e.diverged = true
				c = 0
			}
		}
	}
	if t != nil {
		if c == 0 {
			return t
		}
		c--
	}
	for _, o := range e.tasks {
		if o != t && o.state == ready {
			if c == 0 {
				return o
			}
			c--
		}
	}
	panic("sched: no such choice")
}

//go:norace
func (e *exec) finish() {
	if !e.over {
		e.over = true
		semrelease(&e.sema, false, 0)
	}
}

// Block suspends the running task until Wake is called for the same object.
//
//go:norace
func Block(on unsafe.Pointer) {
	t := self()
	e := t.ex
	t.state, t.on = blocked, on
	next := e.choose(nil)
	if next == nil {
		e.deadlock = true
		e.finish()
	} else {
		e.cur = next
		semrelease(&next.sema, false, 0)
	}
	semacquire(&t.sema)
}

// Wake makes the tasks that are blocked on an object ready.
//
//go:norace
func Wake(on unsafe.Pointer) {
	t := self()
	if t == nil {
		return
	}
	for _, o := range t.ex.tasks {
		if o.state == blocked && o.on == on {
			o.state = ready
		}
	}
}

// Stamp is a number that grows with every call.
//
//go:norace
func Stamp() int {
	if running == nil {
		return 0
	}
	running.stamp++
	return running.stamp
}

// Go starts another task.
//
//go:norace
func Go(f func()) {
	t := self()
	if t == nil || t.ex.free {
		go f()
		return
	}
	t.ex.start(f)
}

//go:norace
func (e *exec) start(f func()) {
	t := &task{ex: e, id: len(e.tasks)}
	e.tasks = append(e.tasks, t)
	e.wg.Add(1)
	go t.run(f)
}

//go:norace
func (t *task) run(f func()) {
	defer t.ex.wg.Done()
	setLabel(unsafe.Pointer(t))
	semacquire(&t.sema)
	t.call(f)
	e := t.ex
	t.state = done
	if e.free {
		return
	}
	next := e.choose(nil)
	if next != nil {
		e.cur = next
		semrelease(&next.sema, false, 0)
		return
	}
	for _, o := range e.tasks {
		if o.state != done {
			e.deadlock = true
		}
	}
	e.finish()
}

func (t *task) call(f func()) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i > 0 {
				st = st[i:]
			}
			t.fail = fmt.Sprintf("panic: %v\n%.1500s", r, st)
		}
	}()
	f()
}

// Outcome of one execution.
type Outcome struct {
	Steps    int
	Switches int // decision points
	Fail     string
	Stuck    bool // something blocked outside the scheduler; the execution ended without it
	Dead     bool // some task is lost: do not run more in this process
	trace    []decision
}

var watchOnce sync.Once

//go:norace
func progress() (*exec, int) {
	e := running
	if e == nil {
		return nil, 0
	}
	return e, e.steps
}

func watch() {
	var last *exec
	at, same := 0, 0
	for {
		time.Sleep(time.Second)
		e, n := progress()
		if e == nil || e != last || n != at {
			last, at, same = e, n, 0
			continue
		}
		if same++; same == 15 {
			giveUp(e)
		}
	}
}

//go:norace
func giveUp(e *exec) {
	e.stuck = true
	e.finish()
}

// Run executes the bodies under a schedule.
//
//go:norace
func Run(bodies []func(), choices []Choice) Outcome {
	watchOnce.Do(func() { go watch() })
	e := &exec{choices: choices}
	running = e
	for _, f := range bodies {
		e.start(f)
	}
	next := e.choose(nil)
	e.cur = next
	semrelease(&next.sema, false, 0)
	semacquire(&e.sema)
	o := Outcome{Steps: e.steps, Switches: len(e.trace), trace: e.trace}
	switch {
	case e.deadlock:
		o.Fail, o.Dead = "deadlock: every goroutine that is left waits for a lock", true
	case e.long:
		o.Fail, o.Dead = fmt.Sprintf("no end after %d steps", maxSteps), true
	case e.stuck:
		o.Stuck, o.Dead = true, true
		e.free = true
		for _, t := range e.tasks {
			semrelease(&t.sema, false, 0)
		}
		over := make(chan bool)
		go func() { e.wg.Wait(); close(over) }()
		select {
		case <-over:
		case <-time.After(20 * time.Second):
			o.Fail = "some goroutine never goes on"
		}
	default:
		e.wg.Wait()
	}
	for _, t := range e.tasks {
		if t.fail != "" && o.Fail == "" {
			o.Fail = t.fail
		}
	}
	if e.diverged && o.Fail == "" {
		o.Stuck = true
	}
	running = nil
	return o
}

// Explore enumerates all schedules with at most bound preemptions. run executes one and tells whether to go on.
// Shard nth of of takes its part of them.
func Explore(bound, nth, of int, run func(choices []Choice) (Outcome, bool)) {
	type job struct {
		choices []Choice
		used    int
	}
	stack := []job{{}}
	branch := 0
	for len(stack) > 0 {
		j := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		o, ok := run(j.choices)
		if !ok {
			return
		}
		from := 0
		if n := len(j.choices); n > 0 {
			from = j.choices[n-1].At + 1
		}
		for k := len(o.trace) - 1; k >= from; k-- {
			d := o.trace[k]
			u := j.used
			if d.preemptive {
				u++
			}
			if u > bound {
				continue
			}
			for a := 1; a < int(d.n); a++ {
				if len(j.choices) == 0 {
					branch++
					if branch%of != nth {
						continue
					}
				}
				stack = append(stack, job{append(append([]Choice{}, j.choices...), Choice{k, a}), u})
			}
		}
	}
}
