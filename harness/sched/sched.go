// Package sched is imported by the instrumented copy of the code under test
// (see cmd/instrument). It owns the schedule: P is a scheduling point placed
// before every statement, and Mutex, RWMutex and Once are channel-based
// stand-ins for the ones in package sync, so that a goroutine waiting for a
// lock is durably blocked in the sense of testing/synctest (a deadlock through
// locks is then reported, and fake time can pass while a lock is held).
package sched

import (
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

// Config of the schedule perturbation of one case. The zero value is off.
type Config struct {
	// Seed of the perturbation.
	Seed uint64 `json:"seed,omitempty"`
	// Prob is the probability (in 1/1024) that a scheduling point yields.
	Prob int `json:"prob,omitempty"`
	// Max is the longest delay in microseconds (virtual time inside a bubble).
	Max int `json:"max,omitempty"`
}

const nsites = 1 << 12

// budget bounds the delays added to one case (microseconds), so that waiting
// for longer than that is enough for everything in progress to be done.
const budget = 15e6

var (
	on     atomic.Bool
	cfg    Config
	counts [nsites]atomic.Uint32
	points atomic.Uint64
	spent  atomic.Int64
)

// Start turns the perturbation on. No goroutine may be in P meanwhile.
func Start(c Config) {
	on.Store(false)
	for i := range counts {
		counts[i].Store(0)
	}
	points.Store(0)
	spent.Store(0)
	cfg = c
	if c.Prob > 0 && c.Max > 0 {
		on.Store(true)
	}
}

// Stop turns the perturbation off and returns the number of points that yielded.
func Stop() uint64 {
	on.Store(false)
	return points.Load()
}

// Mix is a 64 bit mixing function.
func Mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// P is a scheduling point.
func P(site uint32) {
	if !on.Load() {
		return
	}
	k := counts[site%nsites].Add(1)
	h := Mix(cfg.Seed ^ uint64(site)<<32 ^ uint64(k))
	if int(h&1023) >= cfg.Prob {
		return
	}
	points.Add(1)
	h >>= 10
	d := int(h>>4) % (cfg.Max + 1)
	if h&15 < 4 {
		d = d % 4
	}
	if d == 0 || spent.Add(int64(d)) > budget {
		runtime.Gosched()
		return
	}
	time.Sleep(time.Duration(d) * time.Microsecond)
}

// Mutex is a sync.Mutex whose waiters are durably blocked.
type Mutex struct {
	mu      sync.Mutex
	locked  bool
	waiters []chan struct{}
}

// Lock locks m.
func (m *Mutex) Lock() {
	m.mu.Lock()
	if !m.locked {
		m.locked = true
		m.mu.Unlock()
		return
	}
	ch := make(chan struct{})
	m.waiters = append(m.waiters, ch)
	m.mu.Unlock()
	<-ch
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	m.mu.Lock()
	if !m.locked {
		m.mu.Unlock()
		panic("sync: unlock of unlocked mutex")
	}
	if len(m.waiters) != 0 {
		ch := m.waiters[0]
		m.waiters = m.waiters[1:]
		m.mu.Unlock()
		close(ch)
		return
	}
	m.locked = false
	m.mu.Unlock()
}

type rwWaiter struct {
	ch    chan struct{}
	write bool
}

// RWMutex is a sync.RWMutex whose waiters are durably blocked.
type RWMutex struct {
	mu      sync.Mutex
	writer  bool
	readers int
	waiters []rwWaiter
}

// Lock locks m for writing.
func (m *RWMutex) Lock() {
	m.mu.Lock()
	if !m.writer && m.readers == 0 {
		m.writer = true
		m.mu.Unlock()
		return
	}
	ch := make(chan struct{})
	m.waiters = append(m.waiters, rwWaiter{ch, true})
	m.mu.Unlock()
	<-ch
}

// TryLock tries to lock m for writing.
func (m *RWMutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || m.readers != 0 {
		return false
	}
	m.writer = true
	return true
}

// RLock locks m for reading.
func (m *RWMutex) RLock() {
	m.mu.Lock()
	if !m.writer && len(m.waiters) == 0 {
		m.readers++
		m.mu.Unlock()
		return
	}
	ch := make(chan struct{})
	m.waiters = append(m.waiters, rwWaiter{ch, false})
	m.mu.Unlock()
	<-ch
}

// TryRLock tries to lock m for reading.
func (m *RWMutex) TryRLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || len(m.waiters) != 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) wake() {
	for len(m.waiters) != 0 {
		w := m.waiters[0]
		if w.write {
			if m.writer || m.readers != 0 {
				return
			}
			m.writer = true
		} else {
			if m.writer {
				return
			}
			m.readers++
		}
		m.waiters = m.waiters[1:]
		close(w.ch)
	}
}

// Unlock unlocks m for writing.
func (m *RWMutex) Unlock() {
	m.mu.Lock()
	if !m.writer {
		m.mu.Unlock()
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	m.wake()
	m.mu.Unlock()
}

// RUnlock undoes a single RLock.
func (m *RWMutex) RUnlock() {
	m.mu.Lock()
	if m.readers == 0 {
		m.mu.Unlock()
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.wake()
	m.mu.Unlock()
}

// RLocker returns a Locker for the read lock.
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once is a sync.Once whose waiters are durably blocked.
type Once struct {
	m    Mutex
	done atomic.Bool
}

// Do calls f once.
func (o *Once) Do(f func()) {
	if o.done.Load() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues is sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}
