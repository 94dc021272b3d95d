//go:build go1.21

// Package vsync stands in for package sync: its locks let the scheduler run the other goroutine instead of blocking.
package vsync

import (
	"sync"
	"sync/atomic"

	"github.com/twuillemin/modes/pkg/verifsched"
)

type (
	Locker    = sync.Locker
	WaitGroup = sync.WaitGroup
	Map       = sync.Map
	Cond      = sync.Cond
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	verifsched.Y()
	for !m.m.TryLock() {
		verifsched.Blocked()
	}
}
func (m *Mutex) Unlock()       { verifsched.Y(); m.m.Unlock() }
func (m *Mutex) TryLock() bool { verifsched.Y(); return m.m.TryLock() }

// RWMutex keeps new readers waiting when a writer waits, as sync.RWMutex does.
type RWMutex struct {
	m       sync.RWMutex
	writers atomic.Int32 // which wait
}

func (m *RWMutex) Lock() {
	verifsched.Y()
	if m.m.TryLock() {
		return
	}
	m.writers.Add(1)
	defer m.writers.Add(-1)
	for !m.m.TryLock() {
		verifsched.Blocked()
	}
}
func (m *RWMutex) RLock() {
	verifsched.Y()
	for m.writers.Load() > 0 || !m.m.TryRLock() {
		verifsched.Blocked()
	}
}
func (m *RWMutex) Unlock()       { verifsched.Y(); m.m.Unlock() }
func (m *RWMutex) RUnlock()      { verifsched.Y(); m.m.RUnlock() }
func (m *RWMutex) TryLock() bool { verifsched.Y(); return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool {
	verifsched.Y()
	return m.writers.Load() == 0 && m.m.TryRLock()
}
func (m *RWMutex) RLocker() Locker {
	return (*rlocker)(m)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once lets the second caller wait for the end of the first call, as sync.Once does.
type Once struct {
	done atomic.Bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	verifsched.Y()
	if o.done.Load() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var r T
	return func() T {
		o.Do(func() { r = f() })
		return r
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var r1 T1
	var r2 T2
	return func() (T1, T2) {
		o.Do(func() { r1, r2 = f() })
		return r1, r2
	}
}

// Pool keeps what is put into it, last in first out.
type Pool struct {
	New   func() any
	m     sync.Mutex
	items []any
}

func (p *Pool) Get() any {
	verifsched.Y()
	p.m.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.m.Unlock()
		return x
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	verifsched.Y()
	if x != nil {
		p.m.Lock()
		p.items = append(p.items, x)
		p.m.Unlock()
	}
}
