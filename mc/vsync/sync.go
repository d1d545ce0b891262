// Package sync stands in for the standard library's package in the code under test: its types tell the scheduler when
// they block, and do the real synchronisation as well, for the race detector.
package sync

import (
	"fmt"
	"sort"
	"sync"
	"unsafe"

	"verif.local/mc/sched"
)

type (
	Locker = sync.Locker
	Pool   = sync.Pool
	Cond   = sync.Cond
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// Mutex is sync.Mutex.
type Mutex struct {
	real sync.Mutex
	held bool
}

//go:norace
func (m *Mutex) Lock() {
	if sched.Controlled() {
		for m.held {
			sched.Block(unsafe.Pointer(m))
		}
	}
	m.held = true
	m.real.Lock()
}

//go:norace
func (m *Mutex) TryLock() bool {
	if m.held || !m.real.TryLock() {
		return false
	}
	m.held = true
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	sched.Point()
	m.held = false
	m.real.Unlock()
	sched.Wake(unsafe.Pointer(m))
}

// RWMutex is sync.RWMutex.
type RWMutex struct {
	real    sync.RWMutex
	w       bool
	r       int
	waiting int
}

//go:norace
func (m *RWMutex) Lock() {
	if sched.Controlled() {
		m.waiting++
		for m.w || m.r > 0 {
			sched.Block(unsafe.Pointer(m))
		}
		m.waiting--
	}
	m.w = true
	m.real.Lock()
}

//go:norace
func (m *RWMutex) TryLock() bool {
	if m.w || m.r > 0 || !m.real.TryLock() {
		return false
	}
	m.w = true
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	sched.Point()
	m.w = false
	m.real.Unlock()
	sched.Wake(unsafe.Pointer(m))
}

//go:norace
func (m *RWMutex) RLock() {
	if sched.Controlled() {
		for m.w || m.waiting > 0 {
			sched.Block(unsafe.Pointer(m))
		}
	}
	m.r++
	m.real.RLock()
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if m.w || m.waiting > 0 || !m.real.TryRLock() {
		return false
	}
	m.r++
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	sched.Point()
	m.r--
	m.real.RUnlock()
	sched.Wake(unsafe.Pointer(m))
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is the read side as a Locker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is sync.Once.
type Once struct {
	real  sync.Once
	state int
}

//go:norace
func (o *Once) Do(f func()) {
	if sched.Controlled() {
		for o.state == 1 {
			sched.Block(unsafe.Pointer(o))
		}
	}
	if o.state == 2 {
		o.real.Do(f)
		return
	}
	o.state = 1
	o.real.Do(func() {
		defer o.over()
		f()
	})
}

//go:norace
func (o *Once) over() {
	o.state = 2
	sched.Wake(unsafe.Pointer(o))
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues is sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var w U
	return func() (T, U) {
		o.Do(func() { v, w = f() })
		return v, w
	}
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	real sync.WaitGroup
	n    int
}

//go:norace
func (w *WaitGroup) Add(n int) {
	w.n += n
	w.real.Add(n)
	if w.n == 0 {
		sched.Wake(unsafe.Pointer(w))
	}
}

// Done is Add(-1).
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	if sched.Controlled() {
		for w.n > 0 {
			sched.Block(unsafe.Pointer(w))
		}
	}
	w.real.Wait()
}

// Go runs f.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	sched.Go(func() {
		defer w.Done()
		f()
	})
}

// Map is sync.Map; it is ranged over in the order of its keys' texts, or the reverse.
type Map struct {
	real sync.Map
	keys []any
}

func text(k any) string {
	if s, ok := k.(string); ok {
		return s
	}
	return fmt.Sprintf("%#v", k)
}

//go:norace
func (m *Map) in(k any) {
	for _, x := range m.keys {
		if x == k {
			return
		}
	}
	t := text(k)
	i := sort.Search(len(m.keys), func(i int) bool { return text(m.keys[i]) > t })
	ks := make([]any, len(m.keys)+1)
	for j := range ks { // not copy: the race detector must not see it
		switch {
		case j < i:
			ks[j] = m.keys[j]
		case j == i:
			ks[j] = k
		default:
			ks[j] = m.keys[j-1]
		}
	}
	m.keys = ks
}

//go:norace
func (m *Map) out(k any) {
	ks := make([]any, len(m.keys))
	n := 0
	for _, x := range m.keys {
		if x != k {
			ks[n] = x
			n++
		}
	}
	m.keys = ks[:n]
}

func (m *Map) Load(k any) (any, bool) { return m.real.Load(k) }

func (m *Map) Store(k, v any) {
	m.real.Store(k, v)
	m.in(k)
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	a, ok := m.real.LoadOrStore(k, v)
	m.in(k)
	return a, ok
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	a, ok := m.real.LoadAndDelete(k)
	m.out(k)
	return a, ok
}

func (m *Map) Delete(k any) {
	m.real.Delete(k)
	m.out(k)
}

func (m *Map) Swap(k, v any) (any, bool) {
	a, ok := m.real.Swap(k, v)
	m.in(k)
	return a, ok
}

func (m *Map) CompareAndSwap(k, o, n any) bool { return m.real.CompareAndSwap(k, o, n) }

func (m *Map) CompareAndDelete(k, o any) bool {
	ok := m.real.CompareAndDelete(k, o)
	if ok {
		m.out(k)
	}
	return ok
}

//go:norace
func (m *Map) Clear() {
	m.real.Clear()
	m.keys = nil
}

//go:norace
func (m *Map) snapshot() []any { return m.keys }

func (m *Map) Range(f func(k, v any) bool) {
	seen := map[any]bool{}
	first := m.snapshot()
	for {
		ks := first
		if sched.Variant&1 != 0 {
			ks = m.snapshot()
		}
		found := false
		for i := range ks {
			k := ks[i]
			if sched.Variant&2 != 0 {
				k = ks[len(ks)-1-i]
			}
			if seen[k] {
				continue
			}
			seen[k] = true
			v, ok := m.real.Load(k)
			if !ok {
				continue
			}
			found = true
			if !f(k, v) {
				return
			}
			break
		}
		if !found {
			return
		}
	}
}
