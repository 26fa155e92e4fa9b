// Package vsync stands in for the standard sync package in the instrumented
// builds of the library (see cmd/vinstr): the locks are the real ones, with a
// hook before each acquisition and after each release. The hooks either
// perturb the schedule (free running) or hand control to a cooperative
// scheduler that runs one goroutine at a time (controlled running).
package vsync

import (
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

// The rest of the standard package.
type (
	Locker    = sync.Locker
	Once      = sync.Once
	Map       = sync.Map
	Pool      = sync.Pool
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
)

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() { return sync.OnceFunc(f) }

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T { return sync.OnceValue(f) }

// OnceValues is sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) { return sync.OnceValues(f) }

var ctl atomic.Pointer[Sched]

// Noise is the chance, in 1/1000, of a perturbation at a hook. It is set
// before goroutines are started.
var Noise uint32

func perturb() {
	if Noise == 0 {
		return
	}
	// The top-level generator needs no synchronisation, which would hide races.
	n := rand.Uint32()
	if n%1000 >= Noise {
		return
	}
	switch n >> 28 {
	case 0:
		time.Sleep(time.Duration(n>>20&63) * time.Microsecond)
	case 1, 2, 3, 4:
		for i := 0; i < int(n>>16&1023); i++ {
			_ = i
		}
	default:
		runtime.Gosched()
	}
}

// RWMutex is sync.RWMutex with hooks.
type RWMutex struct {
	mu      sync.RWMutex
	writers int // writers waiting, under control
}

// Lock is sync.RWMutex.Lock.
func (m *RWMutex) Lock() {
	if s := ctl.Load(); s != nil && s.acquire(m, true) {
		return
	}
	perturb()
	m.mu.Lock()
}

// RLock is sync.RWMutex.RLock.
func (m *RWMutex) RLock() {
	if s := ctl.Load(); s != nil && s.acquire(m, false) {
		return
	}
	perturb()
	m.mu.RLock()
}

// TryLock is sync.RWMutex.TryLock.
func (m *RWMutex) TryLock() bool { return m.mu.TryLock() }

// TryRLock is sync.RWMutex.TryRLock.
func (m *RWMutex) TryRLock() bool { return m.mu.TryRLock() }

// Unlock is sync.RWMutex.Unlock.
func (m *RWMutex) Unlock() {
	m.mu.Unlock()
	if s := ctl.Load(); s != nil && s.point() {
		return
	}
	perturb()
}

// RUnlock is sync.RWMutex.RUnlock.
func (m *RWMutex) RUnlock() {
	m.mu.RUnlock()
	if s := ctl.Load(); s != nil && s.point() {
		return
	}
	perturb()
}

// RLocker is sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// Mutex is sync.Mutex with hooks.
type Mutex struct{ rw RWMutex }

// Lock is sync.Mutex.Lock.
func (m *Mutex) Lock() { m.rw.Lock() }

// Unlock is sync.Mutex.Unlock.
func (m *Mutex) Unlock() { m.rw.Unlock() }

// TryLock is sync.Mutex.TryLock.
func (m *Mutex) TryLock() bool { return m.rw.TryLock() }
