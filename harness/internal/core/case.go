// Package core runs monitored cases: deterministic generation from
// (seed, property, index), violation capture, coverage tallies, worker and
// parent processes, evidence and replay files.
package core

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
)

// Rand is a deterministic generator with a few helpers.
type Rand struct{ *rand.Rand }

// NewRand derives a generator from a seed and labels.
func NewRand(seed uint64, labels ...any) *Rand {
	h := fnv.New64a()
	fmt.Fprint(h, labels...)
	return &Rand{rand.New(rand.NewPCG(seed*0x9e3779b97f4a7c15+1, h.Sum64()))}
}

// P is true with probability p.
func (r *Rand) P(p float64) bool { return r.Float64() < p }

// N gives an int in [0,n).
func (r *Rand) N(n int) int { return r.IntN(n) }

// Range gives an int in [a,b].
func (r *Rand) Range(a, b int) int { return a + r.IntN(b-a+1) }

// Pick picks one element.
func Pick[T any](r *Rand, l []T) T { return l[r.IntN(len(l))] }

// W is a weighted alternative.
type W[T any] struct {
	Weight int
	Val    T
}

// PickW picks by weight.
func PickW[T any](r *Rand, l []W[T]) T {
	t := 0
	for _, w := range l {
		t += w.Weight
	}
	n := r.IntN(t)
	for _, w := range l {
		if n < w.Weight {
			return w.Val
		}
		n -= w.Weight
	}
	panic("unreachable")
}

// Violation is a broken property, with its witness.
type Violation struct {
	Msg   string
	Stack string
	Log   []string
}

type failure struct{ msg string }

// Known is the panic value of a listed finding that showed up.
type knownHit struct{ id, msg string }

// Case is one execution to be monitored.
type Case struct {
	Prop     string
	Idx      int
	Seed     uint64
	Thorough bool
	R        *Rand
	Dir      string // scratch directory, emptied by the runner
	Cov      map[string]int
	Events   int    // observations the oracle compared
	Shape    uint64 // hash of what was observed (set by Observe)
	Trivial  bool
	log      []string
	obs      []string
	KeepLog  bool
}

// Logf records a step of the witness.
func (c *Case) Logf(format string, a ...any) {
	if len(c.log) > 4000 {
		return
	}
	s := fmt.Sprintf(format, a...)
	if len(s) > 6000 {
		s = s[:6000] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	c.log = append(c.log, s)
}

// ResetLog drops the recorded steps (for cases made of independent parts).
func (c *Case) ResetLog() { c.log = c.log[:0] }

// Log gives the witness so far.
func (c *Case) Log() []string { return c.log }

// Count counts an observed behaviour.
func (c *Case) Count(k string) { c.Cov[k]++ }

// CountN counts n of them.
func (c *Case) CountN(k string, n int) { c.Cov[k] += n }

// Observe mixes an observation into the shape of the case.
func (c *Case) Observe(s string) {
	h := fnv.New64a()
	var b [8]byte
	for i := range b {
		b[i] = byte(c.Shape >> (8 * i))
	}
	h.Write(b[:])
	h.Write([]byte(s))
	c.Shape = h.Sum64()
}

// Failf reports a violation.
func (c *Case) Failf(format string, a ...any) {
	panic(failure{fmt.Sprintf(format, a...)})
}

// abandoned is the panic of a case that would take too much to carry out.
type abandoned struct{}

// Abandon ends a case that is out of bounds. It counts as trivial.
func (c *Case) Abandon(why string) {
	c.Trivial = true
	c.Count("abandoned-" + why)
	panic(abandoned{})
}

// Eq checks two renderings for equality.
func (c *Case) Eq(what, got, want string) {
	c.Events++
	if got != want {
		c.Failf("%s: %s", what, Diff(got, want))
	}
}

// EqV checks two values by their %#v form.
func (c *Case) EqV(what string, got, want any) {
	c.Events++
	g, w := fmt.Sprintf("%#v", got), fmt.Sprintf("%#v", want)
	if g != w {
		c.Failf("%s: got %s, want %s", what, clip(g), clip(w))
	}
}

// True checks a condition.
func (c *Case) True(ok bool, format string, a ...any) {
	c.Events++
	if !ok {
		c.Failf(format, a...)
	}
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

// Diff describes the first difference of two texts.
func Diff(got, want string) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	ctx := func(s string) string {
		a, b := i-120, i+160
		if a < 0 {
			a = 0
		}
		if b > len(s) {
			b = len(s)
		}
		return fmt.Sprintf("%q", s[a:b])
	}
	return fmt.Sprintf("differs at byte %d\n   got  ...%s...\n   want ...%s...", i, ctx(got), ctx(want))
}

// Run executes one case and returns its violation, if any.
func Run(c *Case, f func(*Case)) (v *Violation) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case abandoned:
			case failure:
				v = &Violation{Msg: x.msg, Log: c.log}
			default:
				v = &Violation{Msg: fmt.Sprintf("panic: %v", r), Stack: trimStack(string(debug.Stack())), Log: c.log}
			}
		}
	}()
	f(c)
	return nil
}

func trimStack(s string) string {
	l := strings.Split(s, "\n")
	if len(l) > 60 {
		l = l[:60]
	}
	return strings.Join(l, "\n")
}

// Prop is a monitored property.
type Prop struct {
	ID       string
	Rule     string
	Quick    int // cases in the quick tier
	Thorough int
	Race     bool // run in the race-detector build
	Run      func(*Case)
	// Level of the evidence.
	Level string
	// Must lists coverage counters that have to be positive for the run to
	// count as an observation at all.
	Must        []string
	Assumptions []string
	// Final runs once in the parent after the cases (known findings etc.).
	Final func(env *Env)
}

// Env is what Final gets.
type Env struct {
	Seed     uint64
	Thorough bool
	Dir      string
	Cov      map[string]int
	Notes    []string
	Violate  func(msg string)
	Verif    string
}

// Listed says whether a finding is listed in known_findings.json.
func (e *Env) Listed(id string) bool {
	b, err := os.ReadFile(filepath.Join(e.Verif, "known_findings.json"))
	if err != nil {
		return false
	}
	var k struct {
		Findings []struct {
			ID string `json:"id"`
		} `json:"findings"`
	}
	if json.Unmarshal(b, &k) != nil {
		return false
	}
	for _, f := range k.Findings {
		if f.ID == id {
			return true
		}
	}
	return false
}

var registry = map[string]*Prop{}

// Register adds a property.
func Register(p *Prop) { registry[p.ID] = p }

// Lookup finds a property.
func Lookup(id string) *Prop { return registry[id] }

// IDs lists the registered ones.
func IDs() []string {
	var out []string
	for k := range registry {
		out = append(out, k)
	}
	return out
}
