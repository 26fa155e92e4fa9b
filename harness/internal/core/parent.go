package core

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode"
	"unicode/utf8"
)

const (
	stallLimit = 60 * time.Second // no new case for that long: look closer
	soloCPU    = 40               // CPU seconds a single case gets when re-run alone
	soloWall   = 120 * time.Second
	maxRestart = 4
)

// ParentOpts configures a run.
type ParentOpts struct {
	Bin, RaceBin string
	Seed         uint64
	Tier         string
	Verif        string // /verif
	Work         string // scratch directory
	Cases        int    // override
	Workers      int
}

type shard struct {
	bin       string
	race      bool
	from      int
	step      int
	to        int
	dir       string
	res       []Result
	crashes   []crash
	undecided []string
}

type crash struct {
	idx  int
	msg  string
	out  string
	race bool
}

// Evidence is the evidence file.
type Evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        uint64         `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions"`
	WallS       float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
}

// Replay is a replay file.
type Replay struct {
	Property string   `json:"property"`
	Seed     uint64   `json:"seed"`
	Tier     string   `json:"tier"`
	Case     int      `json:"case"`
	From     int      `json:"from"` // the worker ran the cases from From by Step up to Case
	Step     int      `json:"step"`
	Build    string   `json:"build"`
	Message  string   `json:"message"`
	Stack    string   `json:"stack,omitempty"`
	Steps    []string `json:"steps,omitempty"`
	Output   string   `json:"output,omitempty"`
	Rerun    string   `json:"rerun"`
}

func (o *ParentOpts) build(race bool) string {
	if race {
		return "race"
	}
	return "plain"
}

// ParentMain runs a check and returns the exit code.
func ParentMain(p *Prop, o ParentOpts) int {
	start := time.Now()
	thorough := o.Tier == "thorough"
	n := p.Quick
	if thorough {
		n = p.Thorough
	}
	if o.Cases > 0 {
		n = o.Cases
	}
	if o.Workers <= 0 {
		o.Workers = 8
	}
	var shards []*shard
	add := func(bin string, race bool, workers, n int) {
		for i := 0; i < workers; i++ {
			d := filepath.Join(o.Work, fmt.Sprintf("w%d", len(shards)))
			shards = append(shards, &shard{bin: bin, race: race, from: i, step: workers, to: n, dir: d})
		}
	}
	if p.Race {
		add(o.RaceBin, true, (o.Workers+1)/2, n)
		add(o.Bin, false, (o.Workers+1)/2, n)
	} else {
		add(o.Bin, false, o.Workers, n)
	}
	var wg sync.WaitGroup
	for _, s := range shards {
		wg.Add(1)
		go func(s *shard) { defer wg.Done(); s.run(p, &o, thorough) }(s)
	}
	wg.Wait()

	cov := map[string]int{}
	shapes := map[uint64]bool{}
	var samples []string
	cases, events, nontrivial := 0, 0, 0
	var found []Found
	var replays []Replay
	var undecided []string
	for _, s := range shards {
		for _, r := range s.res {
			cases += r.Cases
			events += r.Events
			nontrivial += r.NonTrivial
			for k, v := range r.Cov {
				cov[k] += v
			}
			for _, h := range r.Shapes {
				shapes[h] = true
			}
			if len(samples) < 4 {
				samples = append(samples, r.Samples...)
			}
			for _, f := range r.Violations {
				found = append(found, f)
				replays = append(replays, Replay{Property: p.ID, Seed: o.Seed, Tier: o.Tier, Case: f.Idx, From: s.from, Step: s.step, Build: o.build(s.race), Message: f.Msg, Stack: f.Stack, Steps: f.Log})
			}
		}
		for _, cr := range s.crashes {
			replays = append(replays, Replay{Property: p.ID, Seed: o.Seed, Tier: o.Tier, Case: cr.idx, Build: o.build(cr.race), Message: cr.msg, Output: cr.out})
		}
		undecided = append(undecided, s.undecided...)
	}
	env := &Env{Seed: o.Seed, Thorough: thorough, Dir: o.Work, Cov: cov, Verif: o.Verif}
	env.Violate = func(msg string) {
		replays = append(replays, Replay{Property: p.ID, Seed: o.Seed, Tier: o.Tier, Case: -1, Build: "plain", Message: msg})
	}
	if p.Final != nil {
		p.Final(env)
	}
	for _, nline := range env.Notes {
		fmt.Println(nline)
	}
	sort.SliceStable(replays, func(i, j int) bool { return replays[i].Case < replays[j].Case })

	covOut := map[string]any{
		"evaluations":         cases,
		"distinct_nontrivial": len(shapes),
		"rule":                p.Rule,
		"samples":             samples,
		"nontrivial_cases":    nontrivial,
		"observations":        events,
		"observed":            cov,
	}
	if len(undecided) > 0 {
		covOut["inconclusive"] = undecided
	}
	level := p.Level
	if level == "" {
		level = "exploration"
	}
	ev := Evidence{Property: p.ID, Tier: o.Tier, Seed: o.Seed, Level: level, Coverage: covOut,
		Assumptions: p.Assumptions, WallS: time.Since(start).Seconds(), Violations: len(replays)}
	if ev.Assumptions == nil {
		ev.Assumptions = []string{}
	}
	if err := writeJSON(filepath.Join(o.Verif, "evidence", p.ID+".json"), ev); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		return 3
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %d observations, %.1fs\n", p.ID, o.Tier, o.Seed, cases, len(shapes), events, ev.WallS)
	if len(replays) > 0 {
		shown := map[string]bool{}
		for i, r := range replays {
			if i >= 5 {
				break
			}
			name := fmt.Sprintf("%s-%d-%d.json", p.ID, o.Seed, i)
			path := filepath.Join(o.Verif, "replay", name)
			r.Rerun = fmt.Sprintf("cd %s && ./check.sh %s --replay replay/%s", o.Verif, p.ID, name)
			if err := writeJSON(path, r); err != nil {
				fmt.Fprintln(os.Stderr, "replay:", err)
			}
			first := strings.SplitN(r.Message, "\n", 2)[0]
			if !shown[first] {
				shown[first] = true
				fmt.Printf("  case %d (%s build): %s\n", r.Case, r.Build, printable(r.Message))
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, "replay/"+name)
		}
		return 1
	}
	if len(undecided) > 0 {
		fmt.Println("INCONCLUSIVE:", strings.Join(undecided, "; "))
		return 3
	}
	for _, m := range p.Must {
		if cov[m] == 0 {
			fmt.Printf("INCONCLUSIVE: behaviour %q was never observed\n", m)
			return 3
		}
	}
	return 0
}

func writeJSON(path string, v any) error {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

func (s *shard) cmd(p *Prop, o *ParentOpts, from, step, to int, tag string) (*exec.Cmd, string, string, *bytes.Buffer) {
	scratch := filepath.Join(s.dir, "scratch-"+tag)
	_ = os.MkdirAll(scratch, 0o755)
	progress := filepath.Join(s.dir, "progress-"+tag)
	result := filepath.Join(s.dir, "result-"+tag)
	_ = os.Remove(result)
	_ = os.Remove(progress)
	c := exec.Command(s.bin, "-worker", "-prop", p.ID, "-seed", strconv.FormatUint(o.Seed, 10), "-tier", o.Tier,
		"-from", strconv.Itoa(from), "-step", strconv.Itoa(step), "-to", strconv.Itoa(to),
		"-dir", scratch, "-progress", progress, "-result", result)
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	c.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=2", "GOTRACEBACK=all", "GOMAXPROCS="+gomaxprocs(p))
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	return c, progress, result, &out
}

func gomaxprocs(p *Prop) string {
	if p.Race {
		return "4"
	}
	return "2"
}

func readProgress(path string) int {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 8 {
		return -1
	}
	return int(binary.LittleEndian.Uint64(b)) - 1
}

func readResult(path string) (Result, bool) {
	var r Result
	b, err := os.ReadFile(path)
	if err != nil || json.Unmarshal(b, &r) != nil {
		return r, false
	}
	return r, true
}

// wait waits for the command, killing it when its progress stalls.
func wait(c *exec.Cmd, progress string, stall time.Duration) (stalled bool, err error) {
	done := make(chan error, 1)
	if err := c.Start(); err != nil {
		return false, err
	}
	go func() { done <- c.Wait() }()
	last, at := -2, time.Now()
	t := time.NewTicker(500 * time.Millisecond)
	defer t.Stop()
	for {
		select {
		case err := <-done:
			return false, err
		case <-t.C:
			if cur := readProgress(progress); cur != last {
				last, at = cur, time.Now()
			} else if time.Since(at) > stall {
				_ = syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
				<-done
				return true, nil
			}
		}
	}
}

func (s *shard) run(p *Prop, o *ParentOpts, thorough bool) {
	_ = os.MkdirAll(s.dir, 0o755)
	from := s.from
	for attempt := 0; from < s.to; attempt++ {
		c, progress, result, out := s.cmd(p, o, from, s.step, s.to, "main")
		stalled, err := wait(c, progress, stallLimit)
		if r, ok := readResult(result); ok && err == nil && !stalled {
			s.res = append(s.res, r)
			return
		}
		idx := readProgress(progress)
		if idx < 0 {
			s.undecided = append(s.undecided, "worker did not start: "+tail(out.String()))
			return
		}
		s.examine(p, o, idx, stalled, out.String())
		// Cases before the crash were run but their tallies are lost; go on after it.
		from = idx + s.step
		if attempt >= maxRestart || len(s.crashes) >= 2 {
			return
		}
	}
}

// examine decides about a worker that died or stalled at case idx.
func (s *shard) examine(p *Prop, o *ParentOpts, idx int, stalled bool, out string) {
	if m := fatalOf(out); m != "" && !stalled {
		switch {
		case strings.Contains(m, "DATA RACE"), strings.Contains(m, "deadlock"), strings.Contains(m, "concurrent map"),
			strings.Contains(m, "unlock of unlocked"):
			s.crashes = append(s.crashes, crash{idx, m, tail(out), s.race})
			return
		}
	}
	// Run the case alone, with limited CPU time, to tell it from a disturbed machine.
	c, progress, result, sout := s.cmd(p, o, idx, 1, idx+1, "solo")
	c.Args = append(c.Args, "-cpu", strconv.Itoa(soloCPU))
	soloStalled, err := wait(c, progress, soloWall)
	if r, ok := readResult(result); ok && err == nil && !soloStalled {
		s.res = append(s.res, r)
		if len(r.Violations) == 0 {
			s.undecided = append(s.undecided, fmt.Sprintf("case %d ended abnormally once (stalled=%v) but not when run alone: %s", idx, stalled, tail(out)))
		}
		return
	}
	if soloStalled {
		s.undecided = append(s.undecided, fmt.Sprintf("case %d made no progress within %v without using its CPU time", idx, soloWall))
		return
	}
	msg := fatalOf(sout.String())
	if msg == "" {
		if ee, ok := err.(*exec.ExitError); ok {
			ws := ee.Sys().(syscall.WaitStatus)
			if ws.Signaled() && (ws.Signal() == syscall.SIGXCPU || ws.Signal() == syscall.SIGKILL) && stalled {
				msg = fmt.Sprintf("does not terminate: used %d s of CPU time on one case", soloCPU)
			} else {
				msg = "process died: " + ee.String()
			}
		} else {
			msg = fmt.Sprint("process died: ", err)
		}
	}
	s.crashes = append(s.crashes, crash{idx, msg, tail(sout.String()), s.race})
}

func fatalOf(out string) string {
	for _, l := range strings.Split(out, "\n") {
		switch {
		case strings.Contains(l, "WARNING: DATA RACE"):
			return "DATA RACE reported by the race detector"
		case strings.HasPrefix(l, "fatal error:"), strings.HasPrefix(l, "panic:"), strings.HasPrefix(l, "runtime: goroutine stack exceeds"), strings.HasPrefix(l, "SIGXCPU"):
			if strings.HasPrefix(l, "SIGXCPU") {
				return fmt.Sprintf("does not terminate: used %d s of CPU time on one case", soloCPU)
			}
			return l
		}
	}
	return ""
}

func tail(s string) string {
	if len(s) > 9000 {
		return s[:6000] + "\n...\n" + s[len(s)-3000:]
	}
	return s
}

// printable escapes what a terminal or a reader of the output could stumble over.
func printable(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		switch {
		case r == '\n' || r == '\t' || unicode.IsPrint(r) && r != utf8.RuneError:
			b.WriteString(s[i : i+n])
		default:
			fmt.Fprintf(&b, "\\x%x", s[i:i+n])
		}
		i += n
	}
	return b.String()
}
