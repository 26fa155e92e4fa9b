package vsync

import (
	"sync/atomic"
	"time"
)

// Sched runs its goroutines one at a time and decides at every hook who goes
// on. A lock is modelled by trying the real one; a reader is not let in while
// a writer waits, as in the real lock. It finds deadlocks of its goroutines.
type Sched struct {
	ws    []*task
	cur   int
	rnd   func(n int) int
	p     int // chance of a switch at a hook, in percent
	done  chan string
	off   atomic.Bool // control given up
	beat  atomic.Int64
	Clock int64 // logical time, advanced by Tick
	// What happened.
	Trace    []byte // the goroutine chosen at every point with a choice
	Points   int    // hooks passed
	Switches int
	Blocked  int // acquisitions that had to wait
}

type task struct {
	run  chan struct{}
	st   int // 0 ready, 1 blocked, 2 finished
	lock *RWMutex
	wr   bool
}

// Tick gives the next logical time.
func (s *Sched) Tick() int64 { s.Clock++; return s.Clock }

// Run executes the functions under control. It returns "" or what went wrong:
// "deadlock" when all of them wait for each other, "lost" when one got stuck
// outside of the hooks.
func Run(rnd func(n int) int, percent int, fs ...func(s *Sched)) (*Sched, string) {
	s := &Sched{rnd: rnd, p: percent, done: make(chan string, 1)}
	for range fs {
		s.ws = append(s.ws, &task{run: make(chan struct{}, 1)})
	}
	for i, f := range fs {
		go func(i int, f func(*Sched)) {
			<-s.ws[i].run
			f(s)
			s.finish(s.ws[i])
		}(i, f)
	}
	ctl.Store(s)
	defer ctl.Store(nil)
	s.cur = s.rnd(len(fs))
	s.Trace = append(s.Trace, byte(s.cur))
	s.ws[s.cur].run <- struct{}{}
	t := time.NewTicker(2 * time.Second)
	defer t.Stop()
	last, still := int64(-1), 0
	for {
		select {
		case how := <-s.done:
			return s, how
		case <-t.C:
			if b := s.beat.Load(); b != last {
				last, still = b, 0
			} else if still++; still >= 10 {
				s.off.Store(true)
				return s, "lost"
			}
		}
	}
}

func (s *Sched) can(w *task) bool {
	switch {
	case w.st == 0:
		return true
	case w.st == 2:
		return false
	case w.wr:
		if w.lock.mu.TryLock() {
			w.lock.mu.Unlock()
			return true
		}
	default:
		if w.lock.writers == 0 && w.lock.mu.TryRLock() {
			w.lock.mu.RUnlock()
			return true
		}
	}
	return false
}

// next picks who runs now, -1 when nobody can.
func (s *Sched) next() int {
	var l []int
	for i, w := range s.ws {
		if s.can(w) {
			l = append(l, i)
		}
	}
	switch len(l) {
	case 0:
		return -1
	case 1:
		return l[0]
	}
	n := l[s.rnd(len(l))]
	s.Trace = append(s.Trace, byte(n))
	return n
}

// hand gives control to goroutine n and waits for its turn.
func (s *Sched) hand(me *task, n int) {
	if n == -1 {
		s.done <- "deadlock"
		select {}
	}
	if s.ws[n] == me {
		return
	}
	s.Switches++
	s.cur = n
	s.ws[n].run <- struct{}{}
	<-me.run
}

// Point is a scheduling point.
func (s *Sched) Point() { s.point() }

func (s *Sched) point() bool {
	if s.off.Load() {
		return false
	}
	s.beat.Add(1)
	s.Points++
	if s.rnd(100) < s.p {
		s.hand(s.ws[s.cur], s.next())
	}
	return true
}

func (s *Sched) acquire(m *RWMutex, write bool) bool {
	if !s.point() {
		return false
	}
	w := s.ws[s.cur]
	try := func() bool {
		if write {
			return m.mu.TryLock()
		}
		return m.writers == 0 && m.mu.TryRLock()
	}
	for first := true; !try(); first = false {
		if first {
			s.Blocked++
		}
		w.st, w.lock, w.wr = 1, m, write
		if write {
			m.writers++
		}
		s.hand(w, s.next())
		if write {
			m.writers--
		}
		w.st, w.lock = 0, nil
		if s.off.Load() {
			return false
		}
	}
	// Others may find the lock taken.
	s.point()
	return true
}

func (s *Sched) finish(w *task) {
	w.st = 2
	n := s.next()
	if n >= 0 {
		s.cur = n
		s.ws[n].run <- struct{}{}
		return
	}
	for _, o := range s.ws {
		if o.st != 2 {
			s.done <- "deadlock"
			return
		}
	}
	s.done <- ""
}
