package core

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// Result is what a worker reports.
type Result struct {
	Cases      int
	Events     int
	NonTrivial int
	Cov        map[string]int
	Shapes     []uint64
	Samples    []string
	Violations []Found
}

// Found is a violation with its index.
type Found struct {
	Idx int
	Violation
}

const maxShapes = 400000

// WorkerMain runs the cases from+k*step < to and writes the result file.
// progress, if not empty, names a file that holds the index being run.
func WorkerMain(p *Prop, seed uint64, thorough bool, from, step, to int, dir, progress, result string, keepGoing int) int {
	debug.SetMaxStack(256 << 20)
	if !RaceEnabled {
		lim := syscall.Rlimit{Cur: 3 << 30, Max: 3 << 30}
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	} else {
		// The race detector needs the address space, watch the heap instead.
		go func() {
			m := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
			for {
				time.Sleep(50 * time.Millisecond)
				if metrics.Read(m); m[0].Value.Uint64() > 1500<<20 {
					fmt.Fprintln(os.Stderr, "fatal error: out of memory (1.5 GB of objects)")
					os.Exit(2)
				}
			}
		}()
	}
	var beat atomic.Int64
	if p.Race {
		go watchLocks(&beat)
	}
	var pf *os.File
	if progress != "" {
		var err error
		if pf, err = os.OpenFile(progress, os.O_CREATE|os.O_RDWR, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
	}
	res := Result{Cov: map[string]int{}}
	shapes := map[uint64]bool{}
	for i := from; i < to; i += step {
		beat.Add(1)
		if pf != nil {
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], uint64(i)+1)
			_, _ = pf.WriteAt(b[:], 0)
		}
		c := NewCase(p, seed, thorough, i, dir)
		c.Cov = res.Cov
		t0 := time.Now()
		v := Run(c, p.Run)
		if slow := os.Getenv("VERIF_SLOW"); slow != "" {
			// For development: a file that takes the slow cases.
			if d := time.Since(t0); d > time.Second {
				if f, err := os.OpenFile(slow, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644); err == nil {
					fmt.Fprintf(f, "%s seed %d case %d: %v\n", p.ID, seed, i, d)
					f.Close()
				}
			}
		}
		res.Cases++
		res.Events += c.Events
		if !c.Trivial {
			res.NonTrivial++
			if len(shapes) < maxShapes {
				shapes[c.Shape] = true
			}
		}
		if len(res.Samples) < 1 && !c.Trivial && len(c.log) > 0 {
			res.Samples = append(res.Samples, sampleOf(c))
		}
		if v != nil {
			res.Violations = append(res.Violations, Found{i, *v})
			if len(res.Violations) >= keepGoing {
				break
			}
		}
	}
	for s := range shapes {
		res.Shapes = append(res.Shapes, s)
	}
	b, err := json.Marshal(res)
	if err == nil {
		err = os.WriteFile(result, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	return 0
}

// watchLocks ends the process when a case does not go on because each of its
// goroutines waits and one of them waits for a lock of the library: nobody is
// left to release it. (It looks at the stacks and counts nothing in the locks,
// which would synchronise the goroutines and hide races.)
func watchLocks(beat *atomic.Int64) {
	last, at, seen := int64(-1), time.Now(), ""
	for {
		time.Sleep(time.Second)
		if b := beat.Load(); b != last {
			last, at, seen = b, time.Now(), ""
			continue
		}
		if time.Since(at) < 15*time.Second {
			continue
		}
		now, dead := waiting()
		if !dead || now != seen {
			seen = now
			time.Sleep(5 * time.Second)
			continue
		}
		buf := make([]byte, 1<<20)
		fmt.Fprintf(os.Stderr, "fatal error: deadlock: goroutines wait for a lock that nobody is left to release\n\n%s\n", buf[:runtime.Stack(buf, true)])
		os.Exit(2)
	}
}

var goroutineHead = regexp.MustCompile(`^goroutine (\d+).* \[([^,\]]*)`)

// waiting lists the waiting goroutines of the harness and tells whether all of
// them wait, one for a lock of the library.
func waiting() (string, bool) {
	buf := make([]byte, 8<<20)
	n := runtime.Stack(buf, true)
	if n == len(buf) {
		return "", false
	}
	ids, lock := "", false
	for _, g := range strings.Split(string(buf[:n]), "\n\n") {
		if !strings.Contains(g, "/internal/props.") && !strings.Contains(g, "go-ini/ini.") {
			continue
		}
		m := goroutineHead.FindStringSubmatch(g)
		if m == nil {
			return "", false
		}
		switch m[2] {
		case "sync.RWMutex.Lock", "sync.RWMutex.RLock", "sync.Mutex.Lock":
			lock = lock || strings.Contains(g, "go-ini/ini.")
		case "sync.WaitGroup.Wait", "semacquire", "chan receive", "chan send", "select", "select (no cases)", "sync.Cond.Wait":
		default:
			return "", false
		}
		ids += m[1] + " " + m[2] + "; "
	}
	return ids, lock
}

func sampleOf(c *Case) string {
	out := fmt.Sprintf("case %d", c.Idx)
	for _, l := range c.log {
		if len(out)+len(l) > 1600 {
			break
		}
		out += " | " + l
	}
	return out
}

// NewCase prepares a case.
func NewCase(p *Prop, seed uint64, thorough bool, idx int, dir string) *Case {
	return &Case{Prop: p.ID, Idx: idx, Seed: seed, Thorough: thorough,
		R: NewRand(seed, p.ID, ":", idx), Dir: dir, Cov: map[string]int{}}
}

// Scratch gives a path in the case's scratch directory.
func (c *Case) Scratch(name string) string { return filepath.Join(c.Dir, name) }
