package props

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/go-ini/ini"

	"verif/harness/internal/core"
	"verif/harness/internal/model"
	"verif/harness/vsync"
)

func init() {
	register(&core.Prop{
		ID:       "C21",
		Rule:     "one case is one recorded history (or one stress round) of concurrent operations on one file; distinct by the operations, their outcomes and, under the controlled scheduler, the schedule; a case is non-trivial when operations of different goroutines overlapped",
		Quick:    26000,
		Thorough: 900000,
		Race:     true,
		Run:      runC21,
		Must:     []string{"controlled", "free", "stress", "overlapping", "sweeps", "preemptions", "linearizable", "callbacks"},
		Assumptions: []string{
			"interleavings are sampled: a cooperative scheduler switches at lock acquisitions and releases (plain build), the Go scheduler with injected delays elsewhere",
			"Reload, Append, ReflectFrom, the Comment fields and the file settings are not part of the concurrent workload",
		},
	})
}

// record is one completed operation.
type record struct {
	who       int
	op        cOp
	res       cRes
	call, ret int64
}

func runC21(c *core.Case) {
	c.Trivial = true
	x := c.R.N(100)
	switch {
	case core.RaceEnabled && x < 45:
		c21Stress(c)
	case core.RaceEnabled:
		c21History(c, false)
	case x < 92:
		c21History(c, true)
	case x < 98:
		c21History(c, false)
	default:
		c21Stress(c)
	}
}

// c21History records a short history and checks it against the sequential
// specification.
func c21History(c *core.Case, controlled bool) {
	r := c.R
	f, st, o, text := concStart(c, r)
	n, per := r.Range(2, 4), r.Range(2, 5)
	if !controlled {
		per = r.Range(3, 6)
	}
	focus := core.Pick(r, cFocus)
	plans := make([][]cPlan, n)
	for i := range plans {
		for j := 0; j < per; j++ {
			plans[i] = append(plans[i], plan(r, focus))
		}
	}
	if r.P(0.3) {
		// Everybody does the same first, the most contended start.
		for i := range plans {
			plans[i][0] = plans[0][0]
		}
	}
	if r.P(0.25) {
		c.Count("sweeps")
		plans = sweep(r, st, n)
	}
	c.Logf("options %s", optText(o))
	c.Logf("text %q", text)
	logs := make([][]record, n)
	work := func(who int, tick func() int64) {
		secs := append([]*ini.Section(nil), st.secPtr...)
		keys := append([]*ini.Key(nil), st.keyPtr...)
		for _, p := range plans[who] {
			op, ok := p.bind(secs, keys)
			if !ok {
				continue
			}
			rec := record{who: who, op: op, call: tick()}
			rec.res = op.exec(f)
			rec.ret = tick()
			logs[who] = append(logs[who], rec)
			if len(rec.res.secs) == 1 {
				secs = append(secs, rec.res.secs[0])
			}
			if len(rec.res.keys) == 1 {
				keys = append(keys, rec.res.keys[0])
			}
		}
	}
	var end int64
	if controlled {
		c.Count("controlled")
		var fs []func(*vsync.Sched)
		for i := 0; i < n; i++ {
			fs = append(fs, func(s *vsync.Sched) {
				work(i, func() int64 { s.Point(); return s.Tick() })
			})
		}
		s, how := vsync.Run(r.N, core.Pick(r, []int{8, 25, 50, 100}), fs...)
		c.CountN("preemptions", s.Switches)
		c.CountN("blocked-acquisitions", s.Blocked)
		c.CountN("schedule-points", s.Points)
		c.Observe(string(s.Trace))
		c.Logf("schedule %v", s.Trace)
		if how == "deadlock" {
			for _, l := range logs {
				for _, rec := range l {
					c.Logf("%d: %s", rec.who, showRec(rec, st))
				}
			}
			for i := range logs {
				if k := len(logs[i]); k < len(plans[i]) {
					c.Logf("%d: not completed: %+v", i, plans[i][k])
				}
			}
			c.Failf("deadlock: all goroutines wait for each other")
		}
		if how == "lost" {
			c.Failf("no progress: an operation does not return")
		}
		end = s.Tick()
	} else {
		c.Count("free")
		vsync.Noise = core.Pick(r, []uint32{0, 100, 400})
		t0 := time.Now()
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				work(i, func() int64 { return int64(time.Since(t0)) })
			}(i)
		}
		close(start)
		wg.Wait()
		vsync.Noise = 0
		end = int64(time.Since(t0)) + 1
	}
	var all []record
	for _, l := range logs {
		all = append(all, l...)
	}
	overlap := 0
	for i := range all {
		for j := i + 1; j < len(all); j++ {
			if all[i].who != all[j].who && all[i].call <= all[j].ret && all[j].call <= all[i].ret {
				overlap++
			}
		}
	}
	c.CountN("overlapping", overlap)
	c.Trivial = overlap == 0
	// What is left in the end is part of the history.
	last := func(op cOp) {
		all = append(all, record{who: n, op: op, res: op.exec(f), call: end + 1, ret: end + 2})
		end += 2
	}
	last(cOp{kind: "Sections"})
	for _, s := range f.Sections() {
		last(cOp{kind: "Keys", sec: s})
		last(cOp{kind: "KeysHash", sec: s})
		last(cOp{kind: "Body", sec: s})
		for _, k := range s.Keys() {
			last(cOp{kind: "ValueWithShadows", key: k})
			last(cOp{kind: "NestedValues", key: k})
		}
	}
	last(cOp{kind: "SectionStrings"})
	last(cOp{kind: "WriteTo"})
	for _, rec := range all {
		t := showRec(rec, st)
		c.Observe(t)
		c.Logf("%d [%d %d] %s", rec.who, rec.call, rec.ret, t)
		c.Count("op-" + rec.op.kind)
		if strings.HasPrefix(rec.res.text, "panic:") {
			c.Failf("%s: %s", rec.op.kind, rec.res.text)
		}
	}
	var ops []porcupine.Operation
	for _, rec := range all {
		ops = append(ops, porcupine.Operation{ClientId: rec.who, Input: rec.op, Output: rec.res, Call: rec.call, Return: rec.ret})
	}
	m := porcupine.Model{
		Init: func() any { return st },
		Step: func(state, in, out any) (bool, any) {
			ok, s := state.(*cState).step(in.(cOp), out.(cRes))
			return ok, s
		},
		Equal: func(a, b any) bool { return a.(*cState).equal(b.(*cState)) },
	}
	c.Events += len(ops)
	switch porcupine.CheckOperationsTimeout(m, ops, 30*time.Second) {
	case porcupine.Illegal:
		c.Failf("no sequential order of the %d operations explains their outcomes", len(ops))
	case porcupine.Unknown:
		c.Count("undecided-histories")
	default:
		c.Count("linearizable")
	}
}

func showRec(rec record, st *cState) string {
	id := func(p any) string {
		switch x := p.(type) {
		case *ini.Section:
			if i := st.secOf(x); i >= 0 {
				return fmt.Sprintf("S%d", i)
			}
			return "S(" + x.Name() + ")"
		case *ini.Key:
			if i := st.keyOf(x); i >= 0 {
				return fmt.Sprintf("K%d", i)
			}
			return "K(" + x.Name() + ")"
		}
		return ""
	}
	s := ""
	if rec.op.sec != nil {
		s += id(rec.op.sec) + "."
	}
	if rec.op.key != nil {
		s += id(rec.op.key) + "."
	}
	s += fmt.Sprintf("%s(%q %q %d) =", rec.op.kind, rec.op.name, rec.op.val, rec.op.idx)
	for _, p := range rec.res.secs {
		s += " " + id(p)
	}
	for _, p := range rec.res.keys {
		s += " " + id(p)
	}
	return s + fmt.Sprintf(" %q", rec.res.text)
}

type stressTarget struct {
	X, Y string
	Z    []string
	N    int `ini:"n"`
	A    struct {
		X string `ini:"x"`
	} `ini:"a"`
}

// c21Stress lets goroutines use the whole interface at once. The race detector
// and the runtime watch; every goroutine owns one key per section whose last
// value has to survive, and what remains has to be consistent.
func c21Stress(c *core.Case) {
	r := c.R
	c.Count("stress")
	f, _, o, text := concStart(c, r)
	c.Logf("options %s", optText(o))
	c.Logf("text %q", text)
	n := r.Range(3, 6)
	ops := r.Range(15, 60)
	own := f.Section("own")
	shared := []*ini.Section{own, f.Section("a"), f.Section("")}
	var calls atomic.Uint32
	reenter := func() { c21Reenter(f, calls.Add(1)) }
	if r.P(0.4) {
		c.Count("callbacks")
		f.ValueMapper = func(v string) string { reenter(); return v }
		f.NameMapper = func(n string) string { reenter(); return n }
	} else {
		reenter = func() {}
	}
	vsync.Noise = core.Pick(r, []uint32{0, 0, 50, 300})
	seeds := make([]uint64, n)
	for i := range seeds {
		seeds[i] = r.Uint64()
	}
	last := make([]map[string]string, n)
	var wg sync.WaitGroup
	fails := make([]string, n)
	start := make(chan struct{})
	for i := 0; i < n; i++ {
		last[i] = map[string]string{}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					buf := make([]byte, 3000)
					fails[i] = fmt.Sprintf("panic: %v\n%s", p, buf[:runtime.Stack(buf, false)])
				}
			}()
			<-start
			g := &stresser{f: f, r: core.NewRand(seeds[i], "g"), who: i, shared: shared, own: own, last: last[i], dir: c.Dir, opt: o, reenter: reenter}
			for j := 0; j < ops && fails[i] == ""; j++ {
				fails[i] = g.step()
			}
		}(i)
	}
	close(start)
	wg.Wait()
	vsync.Noise = 0
	c.Trivial = false
	c.Events += n * ops
	c.Observe(fmt.Sprint(seeds))
	c.CountN("stress-operations", n*ops)
	for i, m := range fails {
		if m != "" {
			c.Failf("goroutine %d: %s", i, m)
		}
	}
	// Nothing a goroutine did on its own key is lost.
	for i := range last {
		for k, v := range last[i] {
			c.EqV("last value of a key only one goroutine writes", own.Key(k).Value(), v)
		}
	}
	if own != f.Section("own") {
		c.Failf("the section is another one than before")
	}
	// Consistent remains.
	names := f.SectionStrings()
	secs := f.Sections()
	c.EqV("number of sections", len(secs), len(names))
	seen := map[string]bool{}
	for i, s := range secs {
		c.EqV("section name", s.Name(), names[i])
		if seen[names[i]] && !o.AllowNonUniqueSections {
			c.Failf("section %q is listed twice", names[i])
		}
		seen[names[i]] = true
		ks := s.KeyStrings()
		h := s.KeysHash()
		c.EqV("number of keys of "+names[i], len(ks), len(h))
		for j, k := range s.Keys() {
			c.EqV("key name", k.Name(), ks[j])
			c.EqV("key value", k.Value(), h[ks[j]])
		}
	}
	if _, err := f.WriteTo(&bytes.Buffer{}); err != nil {
		c.Failf("writing: %v", err)
	}
}

type stresser struct {
	f      *ini.File
	r      *rnd
	who    int
	shared []*ini.Section
	own    *ini.Section
	last   map[string]string
	dir    string
	opt    ini.LoadOptions
	secs   []*ini.Section
	keys   []*ini.Key

	reenter func()
}

// c21Reenter uses the file from within a function that the library calls back.
func c21Reenter(f *ini.File, n uint32) {
	sec := f.Section("called")
	switch n % 11 {
	case 0:
		sec.Key("a").SetValue(fmt.Sprint(n))
	case 1:
		_, _ = sec.NewKey(fmt.Sprint("k", n%5), "v")
	case 2:
		sec.DeleteKey(fmt.Sprint("k", n%7))
	case 3:
		_, _ = f.NewSection("called.again")
	case 4:
		f.DeleteSection("called.again")
	case 5:
		_, _ = f.WriteTo(io.Discard)
	case 6:
		f.Sections()
		sec.KeysHash()
	case 7:
		_ = sec.Key("a").AddShadow("s")
		_ = sec.Key("a").Value()
	}
}

// reentrant is a destination that uses the file it is written from.
type reentrant struct{ g *stresser }

func (w reentrant) Write(p []byte) (int, error) {
	w.g.reenter()
	return len(p), nil
}

func (g *stresser) step() string {
	r := g.r
	if r.P(0.25) {
		k := fmt.Sprintf("own%d_%d", g.who, r.N(3))
		v := fmt.Sprintf("%d", r.N(1000))
		if old, ok := g.last[k]; ok {
			if got := g.own.Key(k).Value(); got != old {
				return fmt.Sprintf("the key %q only this goroutine writes holds %q, want %q", k, got, old)
			}
		}
		switch {
		case r.P(0.15):
			g.own.DeleteKey(k)
			delete(g.last, k)
			if g.own.HasKey(k) {
				return fmt.Sprintf("the deleted key %q exists", k)
			}
			return ""
		case r.P(0.3) && !g.opt.AllowShadows:
			if _, err := g.own.NewKey(k, v); err != nil {
				return err.Error()
			}
		default:
			g.own.Key(k).SetValue(v)
		}
		g.last[k] = v
		return ""
	}
	sec := core.Pick(r, g.shared)
	if len(g.secs) > 0 && r.P(0.3) {
		sec = core.Pick(r, g.secs)
	}
	sn, kn, v := core.Pick(r, append(cSecNames, "p.q", "p")), core.Pick(r, append(cKeyNames, "n", "t", "ref")), core.Pick(r, append(cVals, "1,2,3", "%(x)s!", "2020-01-02T03:04:05Z", "5s"))
	keep := func(k *ini.Key) {
		if k != nil {
			g.keys = append(g.keys, k)
		}
	}
	keepSec := func(s *ini.Section) {
		if s != nil {
			g.secs = append(g.secs, s)
		}
	}
	if len(g.secs) > 20 {
		g.secs = g.secs[10:]
	}
	if len(g.keys) > 20 {
		g.keys = g.keys[10:]
	}
	switch r.N(34) {
	case 0, 1:
		s, _ := g.f.NewSection(sn)
		keepSec(s)
	case 2:
		s, _ := g.f.NewRawSection(core.Pick(r, []string{"raw", "raw2", "a"}), v)
		keepSec(s)
	case 3:
		_ = g.f.NewSections("b1", "b2", sn+"x")
	case 4:
		s, err := g.f.GetSection(sn)
		if err == nil && s.Name() != g.norm(sn) {
			return "GetSection(" + sn + ") gives section " + s.Name()
		}
		keepSec(s)
	case 5:
		s := g.f.Section(sn)
		if s.Name() != g.norm(sn) {
			return "Section(" + sn + ") gives section " + s.Name()
		}
		keepSec(s)
	case 6:
		keepSec(g.f.SectionWithIndex(sn, r.N(3)))
	case 7:
		if sn != "" && sn != model.Default && sn != "p" {
			g.f.DeleteSection(sn)
		}
	case 8:
		_ = g.f.DeleteSectionWithIndex("p.q", r.N(2))
	case 9:
		l, _ := g.f.SectionsByName(sn)
		for _, s := range l {
			if s.Name() != g.norm(sn) {
				return "SectionsByName(" + sn + ") gives section " + s.Name()
			}
		}
	case 10:
		for _, s := range g.f.Sections() {
			if s == nil {
				return "Sections lists nil"
			}
		}
		g.f.SectionStrings()
	case 11:
		for _, s := range append(sec.ChildSections(), g.f.ChildSections("a")...) {
			if !strings.Contains(s.Name(), ".") {
				return "child section " + s.Name()
			}
		}
	case 12, 13:
		k, _ := sec.NewKey(kn, v)
		keep(k)
	case 14:
		k, _ := sec.NewBooleanKey("b" + kn)
		keep(k)
	case 15:
		k, _ := sec.GetKey(kn)
		keep(k)
	case 16, 17:
		k := sec.Key(kn)
		if k == nil {
			return "Key(" + kn + ") is nil"
		}
		keep(k)
	case 18:
		sec.DeleteKey(kn)
	case 19:
		sec.HasKey(kn)
		sec.HasValue(v)
		sec.KeyStrings()
	case 20:
		for _, k := range append(sec.Keys(), sec.ParentKeys()...) {
			if k == nil {
				return "Keys lists nil"
			}
		}
	case 21:
		sec.KeysHash()
		sec.Body()
		sec.SetBody(v)
	case 22, 23:
		if len(g.keys) > 0 {
			core.Pick(r, g.keys).SetValue(v)
		}
	case 24:
		if len(g.keys) > 0 {
			k := core.Pick(r, g.keys)
			_ = k.AddShadow(v)
			_ = k.AddNestedValue(v)
			k.ValueWithShadows()
			k.NestedValues()
			k.StringsWithShadows(",")
		}
	case 25, 26, 27:
		k := sec.Key(kn)
		if len(g.keys) > 0 && r.P(0.5) {
			k = core.Pick(r, g.keys)
		}
		k.Value()
		k.String()
		_, _ = k.Bool()
		_, _ = k.Int()
		_, _ = k.Float64()
		_, _ = k.Uint64()
		_, _ = k.Duration()
		_, _ = k.Time()
		k.Strings(",")
		k.Ints(",")
		k.ValidFloat64s(",")
		_, _ = k.StrictInt64s(",")
		k.In("1", []string{"1", "2"})
		k.RangeInt(1, 0, 3)
		k.InInt64(1, []int64{1, 2})
		k.Validate(func(s string) string { g.reenter(); k.SetValue(v); return s })
		k.Bools(",")
		k.Times(",")
	case 28:
		k := sec.Key(kn)
		k.MustString("d")
		k.MustInt(3)
		k.MustBool(true)
		k.MustFloat64(1)
		k.MustDuration(time.Second)
		k.MustTime(time.Unix(0, 0))
		k.MustUint(3)
	case 29, 30:
		var t stressTarget
		_ = g.f.MapTo(&t)
		_ = sec.MapTo(&t)
		_ = sec.StrictMapTo(&t)
		_ = g.f.StrictMapTo(&t)
	case 31, 32:
		var b bytes.Buffer
		if _, err := g.f.WriteTo(&b); err != nil {
			return "WriteTo: " + err.Error()
		}
		if _, err := g.f.WriteToIndent(&b, " "); err != nil {
			return "WriteToIndent: " + err.Error()
		}
		_, _ = g.f.WriteTo(reentrant{g})
	case 33:
		p := fmt.Sprintf("%s/save%d", g.dir, g.who)
		if err := g.f.SaveTo(p); err != nil {
			return "SaveTo: " + err.Error()
		}
		_ = os.Remove(p)
	}
	return ""
}

func (g *stresser) norm(n string) string {
	if n == "" {
		n = model.Default
	}
	if g.opt.Insensitive || g.opt.InsensitiveSections {
		return strings.ToLower(n)
	}
	return n
}
