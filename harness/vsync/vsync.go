// Package vsync stands in for package sync in an instrumented build of the
// code under test (see overlay.go): locks and pools are then under the control
// of a scheduler that decides which goroutine goes on at every operation, and
// of a pool that hands out what it likes.
//
// Outside a controlled run everything behaves like package sync.
package vsync

import (
	"bytes"
	"sync"
	"time"
)

type (
	Locker    = sync.Locker
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
	Map       = sync.Map
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

func OnceFunc(f func()) func()                           { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T               { return sync.OnceValue(f) }
func OnceValues[T, U any](f func() (T, U)) func() (T, U) { return sync.OnceValues(f) }

// Sched runs goroutines one at a time.
type Sched struct {
	mu    sync.Mutex
	wake  []chan bool
	order []int // which goroutine is to go on at each step
	at    int
	cur   int          // the one that is running, -1 none
	ready map[int]bool // that could go on
	wait  map[int]func() bool
	moved uint64 // steps made
	ops   uint64 // steps made by the code under test
	free  bool   // control was given up
	stuck bool   // nobody can go on
	used  []int  // the schedule that was used
	pick  func(n int) int
	items map[*Pool][]any
}

type running struct {
	s *Sched
	i int
}

var gids sync.Map // of running goroutines

// Run runs the functions under control: order says who goes on at each step, pick which
// of n pooled items is handed out (none for a new one). It tells whether all of them finished.
func Run(order []int, pick func(n int) int, fns ...func()) (s *Sched, finished bool) {
	s = &Sched{order: order, cur: -1, ready: map[int]bool{}, wait: map[int]func() bool{}, pick: pick, items: map[*Pool][]any{}}
	s.wake = make([]chan bool, len(fns))
	for i := range s.wake {
		s.wake[i] = make(chan bool, 1)
	}
	done := make(chan bool, len(fns))
	s.mu.Lock()
	for i, fn := range fns {
		i, fn := i, fn
		s.ready[i] = true
		go func() {
			id := goid()
			gids.Store(id, running{s, i})
			defer func() {
				gids.Delete(id)
				s.mu.Lock()
				delete(s.ready, i)
				s.next()
				s.mu.Unlock()
				done <- true
			}()
			s.turn(i)
			fn()
		}()
	}
	s.next()
	s.mu.Unlock()
	last, since := uint64(0), time.Now()
	tick := time.NewTicker(200 * time.Microsecond)
	defer tick.Stop()
	for n := 0; n < len(fns); {
		select {
		case <-done:
			n++
		case <-tick.C:
			s.mu.Lock()
			if s.stuck {
				s.next() // it may be for a lock that another run holds
			}
			if s.moved != last {
				last, since = s.moved, time.Now()
			} else if d := time.Since(since); d > 10*time.Second {
				s.mu.Unlock()
				return s, false
			} else if d > time.Second && !s.free && !s.stuck {
				// the running goroutine waits for something that is not under control
				s.free = true
				for i := range s.wake {
					s.tell(i)
				}
			}
			s.mu.Unlock()
		}
	}
	return s, true
}

// Lost tells if control was given up.
func (s *Sched) Lost() bool { s.mu.Lock(); defer s.mu.Unlock(); return s.free }

// Used is the schedule that was used, Ops the number of steps of the code under test in it.
func (s *Sched) Used() ([]int, uint64) { s.mu.Lock(); defer s.mu.Unlock(); return s.used, s.ops }

// next picks who goes on. s.mu is held.
func (s *Sched) next() {
	s.cur = -1
	s.stuck = false
	n := -1
	can := func(i int) bool {
		if !s.ready[i] {
			return false
		}
		w := s.wait[i]
		return w == nil || w()
	}
	for s.at < len(s.order) && n < 0 {
		if i := s.order[s.at]; can(i) {
			n = i
		}
		s.at++
	}
	for i := 0; n < 0 && i < 64; i++ {
		if can(i) {
			n = i
		}
	}
	if n < 0 {
		s.stuck = len(s.ready) > 0 && !s.free
	} else {
		s.moved++
		s.used = append(s.used, n)
	}
	s.cur = n
	if n >= 0 {
		s.tell(n)
	}
}

func (s *Sched) tell(i int) {
	select {
	case s.wake[i] <- true:
	default:
	}
}

// turn waits for the turn of i.
func (s *Sched) turn(i int) {
	s.mu.Lock()
	s.await(i)
	s.mu.Unlock()
}

// await waits for the turn of i. s.mu is held.
func (s *Sched) await(i int) {
	for s.cur != i && !s.free {
		s.mu.Unlock()
		<-s.wake[i]
		s.mu.Lock()
	}
}

// self returns the scheduler and the number of the calling goroutine.
func self() (*Sched, int) {
	if x, ok := gids.Load(goid()); ok {
		r := x.(running)
		return r.s, r.i
	}
	return nil, 0
}

// Yield lets another goroutine go on.
func Yield() { until(nil) }

// step is a Yield of the code under test.
func step() {
	if s, _ := self(); s != nil {
		s.mu.Lock()
		s.ops++
		s.mu.Unlock()
		until(nil)
	}
}

// until lets others go on and comes back when the condition holds.
// It reports false when there is no control.
func until(w func() bool) bool {
	s, i := self()
	if s == nil {
		return false
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.free {
		return false
	}
	s.wait[i] = w
	s.next()
	s.await(i)
	delete(s.wait, i)
	return !s.free
}

// Once does something once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Mutex is a mutual exclusion lock.
type Mutex struct{ rw RWMutex }

func (m *Mutex) Lock()         { m.rw.Lock() }
func (m *Mutex) Unlock()       { m.rw.Unlock() }
func (m *Mutex) TryLock() bool { return m.rw.TryLock() }

// RWMutex is a reader/writer lock.
type RWMutex struct {
	mu sync.RWMutex
}

func (m *RWMutex) Lock() {
	step()
	for !m.mu.TryLock() {
		if !until(func() bool {
			if m.mu.TryLock() {
				m.mu.Unlock()
				return true
			}
			return false
		}) {
			m.mu.Lock()
			return
		}
	}
}

func (m *RWMutex) RLock() {
	step()
	for !m.mu.TryRLock() {
		if !until(func() bool {
			if m.mu.TryRLock() {
				m.mu.RUnlock()
				return true
			}
			return false
		}) {
			m.mu.RLock()
			return
		}
	}
}

func (m *RWMutex) Unlock()         { step(); m.mu.Unlock() }
func (m *RWMutex) RUnlock()        { step(); m.mu.RUnlock() }
func (m *RWMutex) TryLock() bool   { step(); return m.mu.TryLock() }
func (m *RWMutex) TryRLock() bool  { step(); return m.mu.TryRLock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Pool hands out pooled items or new ones as it likes.
type Pool struct {
	New  func() any
	real sync.Pool
}

func (p *Pool) new() any {
	if p.New != nil {
		return p.New()
	}
	return nil
}

func poison(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] = 0xDB
	}
}

// Put returns an item. The bytes of a buffer are nobody's from then on.
func (p *Pool) Put(x any) {
	s, _ := self()
	if s == nil {
		p.real.Put(x)
		return
	}
	step()
	switch b := x.(type) {
	case nil:
		return
	case []byte:
		poison(b)
	case *[]byte:
		poison(*b)
	case *bytes.Buffer:
		poison(b.Bytes())
	}
	s.mu.Lock()
	s.items[p] = append(s.items[p], x)
	s.mu.Unlock()
	step()
}

// Get returns an item.
func (p *Pool) Get() any {
	s, _ := self()
	if s == nil {
		if x := p.real.Get(); x != nil {
			return x
		}
		return p.new()
	}
	step()
	s.mu.Lock()
	items := s.items[p]
	k := s.pick(len(items))
	if k < 0 || k >= len(items) {
		s.mu.Unlock()
		return p.new()
	}
	x := items[k]
	s.items[p] = append(items[:k:k], items[k+1:]...)
	s.mu.Unlock()
	return x
}
