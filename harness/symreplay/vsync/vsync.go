// Package vsync runs the threads of a concurrent harness one at a time, with
// the switches chosen at random.  In a replay the repository's code uses its
// locks in place of those of package sync, and calls Point between statements.
package vsync

import (
	"fmt"
	"math/rand"
	"os"
	"sync"
	"unsafe"
)

type thread struct {
	resume chan struct{}
	done   bool
	block  func() bool
}

var (
	ts      []*thread
	cur     *thread
	rng     = rand.New(rand.NewSource(1))
	left    int
	gap     = 1
	Points  int
	Aborted bool
	joined  int
)

// Abort is what a thread panics with to end a run whose assumptions fail.
type Abort struct{}

// Reset starts a run with up to n preemptions, about one in gap points.
func Reset(seed int64, n, g int) {
	ts, cur, Aborted, Points = nil, nil, false, 0
	rng = rand.New(rand.NewSource(seed))
	left, gap = n, g
	if gap < 1 {
		gap = 1
	}
}

func pick(me *thread) *thread {
	var r []*thread
	for _, t := range ts {
		if t != me && !t.done && (t.block == nil || t.block()) {
			r = append(r, t)
		}
	}
	if len(r) == 0 {
		return nil
	}
	return r[rng.Intn(len(r))]
}

func switchTo(t *thread) {
	me := cur
	cur = t
	disable()
	t.resume <- struct{}{}
	<-me.resume
	enable()
}

// Go starts a thread.
func Go(f func()) {
	if len(ts) == 0 {
		cur = &thread{resume: make(chan struct{}, 1)}
		ts = append(ts, cur)
	}
	t := &thread{resume: make(chan struct{}, 1)}
	ts = append(ts, t)
	go func() {
		disable()
		<-t.resume
		enable()
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(Abort); !ok {
					panic(r)
				}
				Aborted = true
			}
			t.done = true
			release(unsafe.Pointer(&joined))
			n := pick(t)
			if n == nil {
				deadlock()
			}
			cur = n
			disable()
			n.resume <- struct{}{}
			enable()
		}()
		f()
	}()
	Point()
}

// Wait waits for every other thread.
func Wait() {
	Block(func() bool {
		for _, t := range ts[1:] {
			if !t.done {
				return false
			}
		}
		return true
	})
	acquire(unsafe.Pointer(&joined))
	ts = nil
}

// Point is where another thread may go on.
func Point() {
	if len(ts) < 2 {
		return
	}
	Points++
	if left > 0 && rng.Intn(gap) == 0 {
		if t := pick(cur); t != nil {
			left--
			switchTo(t)
		}
	}
}

// Block waits until ok.
func Block(ok func() bool) {
	if ok() {
		return
	}
	if cur == nil {
		deadlock()
	}
	me := cur
	me.block = ok
	for !ok() {
		t := pick(me)
		if t == nil {
			deadlock()
		}
		switchTo(t)
	}
	me.block = nil
}

func deadlock() {
	fmt.Println("deadlock")
	os.Exit(5)
}

// Mutex stands in for sync.Mutex.
type Mutex struct{ l bool }

func (m *Mutex) Lock() {
	Point()
	Block(func() bool { return !m.l })
	m.l = true
	acquire(unsafe.Pointer(m))
}

func (m *Mutex) TryLock() bool {
	Point()
	if m.l {
		return false
	}
	m.l = true
	acquire(unsafe.Pointer(m))
	return true
}

func (m *Mutex) Unlock() {
	if !m.l {
		panic("sync: unlock of unlocked mutex")
	}
	m.l = false
	release(unsafe.Pointer(m))
	Point()
}

// RWMutex stands in for sync.RWMutex.
type RWMutex struct {
	w bool
	r int
}

func (m *RWMutex) Lock() {
	Point()
	Block(func() bool { return !m.w && m.r == 0 })
	m.w = true
	acquire(unsafe.Pointer(m))
	acquire(unsafe.Pointer(&m.r))
}

func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	release(unsafe.Pointer(m))
	Point()
}

func (m *RWMutex) RLock() {
	Point()
	Block(func() bool { return !m.w })
	m.r++
	acquire(unsafe.Pointer(m))
}

func (m *RWMutex) RUnlock() {
	if m.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	release(unsafe.Pointer(&m.r))
	Point()
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once stands in for sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		acquire(unsafe.Pointer(o))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true; release(unsafe.Pointer(o)) }()
		f()
	}
}

type (
	Locker    = sync.Locker
	WaitGroup = sync.WaitGroup
	Map       = sync.Map
	Pool      = sync.Pool
	Cond      = sync.Cond
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }
