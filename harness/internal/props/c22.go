package props

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/go-ini/ini"

	"verif/harness/internal/core"
	"verif/harness/vsync"
)

func init() {
	register(&core.Prop{
		ID:       "C22",
		Rule:     "one case is one file (generated text or struct-shaped content, any options) read by several goroutines at once without locks, every result compared with a single reader's on a twin of the file, or several files loaded from the same bytes and options and used side by side (concurrently or by turns), every result compared with the same use of a file alone; distinct by the results",
		Quick:    6000,
		Thorough: 300000,
		Race:     true,
		Run:      runC22,
		Must: []string{"reads", "isolation", "isolation-turns", "read-text", "read-struct", "mapped", "written", "expanded-differs", "child-lookup",
			"shadow-values", "nested-values", "raw-bodies", "typed-values", "shared-source", "big", "iso-reload", "iso-append", "iso-reflect", "alone-elsewhere"},
		Assumptions: []string{
			"a write by a reader is seen by the race detector when another reader touches the same memory in the same run, or by a changed state or result",
			"schedules are those of the Go scheduler, with goroutines started together and random order of the reads in each",
		},
	})
}

func runC22(c *core.Case) {
	if c.R.P(0.6) {
		c22Reads(c)
	} else {
		c22Isolation(c)
	}
}

// a read gives a rendering of what was read.
type read struct {
	name string
	do   func() string
}

func errStr(err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	return ""
}

// readsOf lists reads of existing content. It reads the file itself.
func readsOf(f *ini.File, t reflect.Type) []read {
	var l []read
	rd := func(name string, do func() string) { l = append(l, read{name, do}) }
	write := func(indent string) func() string {
		return func() string {
			var b bytes.Buffer
			n, err := f.WriteToIndent(&b, indent)
			return fmt.Sprint(n, errStr(err), b.String())
		}
	}
	rd("Snap", func() string { return Snap(f) })
	rd("WriteTo", func() string {
		var b bytes.Buffer
		_, err := f.WriteTo(&b)
		return b.String() + errStr(err)
	})
	rd("WriteToIndent", write("\t"))
	rd("WriteToIndent0", write(""))
	rd("SectionStrings", func() string { return fmt.Sprintf("%q", f.SectionStrings()) })
	rd("missing section", func() string {
		_, err := f.GetSection("no such section")
		_, err2 := f.SectionsByName("no such section")
		return fmt.Sprint(err, err2, f.HasSection("no such section"))
	})
	mapTo := func(name string, lax, strict func(any) error) {
		if t == nil {
			return
		}
		rd(name+" MapTo", func() string {
			v := reflect.New(t)
			return errStr(lax(v.Interface())) + dump(v.Elem(), false)
		})
		rd(name+" StrictMapTo", func() string {
			v := reflect.New(t)
			return errStr(strict(v.Interface())) + dump(v.Elem(), false)
		})
	}
	mapTo("file", func(v any) error { return f.MapTo(v) }, func(v any) error { return f.StrictMapTo(v) })
	counts := map[string]int{}
	for _, s := range f.Sections() {
		n := s.Name()
		i := counts[n]
		counts[n]++
		rd("find section", func() string {
			s2, err := f.GetSection(n)
			l, err2 := f.SectionsByName(n)
			return fmt.Sprint(s2.Name(), errStr(err), errStr(err2), len(l), f.HasSection(n), f.Section(n) == s2, f.SectionWithIndex(n, i) == s, len(f.ChildSections(n)))
		})
		rd("section", func() string {
			names := []string{}
			for _, c := range s.ChildSections() {
				names = append(names, c.Name())
			}
			for _, k := range s.ParentKeys() {
				names = append(names, k.Name()+"="+k.Value())
			}
			_, err := s.GetKey("no such key")
			return fmt.Sprintf("%q %q %s %q %v %v %q %s", s.Name(), s.Body(), hashOf(s.KeysHash()), s.KeyStrings(), s.HasKey("no such key"), s.HasValue("1"), names, errStr(err))
		})
		if len(l) < 150 {
			mapTo("section", s.MapTo, s.StrictMapTo)
		}
		for _, k := range append(s.Keys(), s.ParentKeys()...) {
			if len(l) > 400 {
				break
			}
			kn := k.Name()
			rd("find key", func() string {
				k2, err := s.GetKey(kn)
				if err != nil {
					return errStr(err)
				}
				return fmt.Sprint(k2.Name(), k2.Value(), s.HasKey(kn), s.Haskey(kn), s.Key(kn) == k2, s.HasValue(k2.Value()))
			})
			rd("raw value", func() string {
				return fmt.Sprintf("%q %q %q %q", k.Name(), k.Value(), k.ValueWithShadows(), k.NestedValues())
			})
			// Splitting takes time that grows with the square of the length.
			if len(k.Value()) > 2000 || len(k.String()) > 2000 {
				continue
			}
			rd("text", func() string {
				return fmt.Sprintf("%q %q %q %q", k.String(), k.Strings(","), k.StringsWithShadows(","), k.Validate(strings.ToUpper))
			})
			rd("scalars", func() string {
				var b strings.Builder
				w := func(v any, err error) { fmt.Fprint(&b, v, " ", errStr(err), ";") }
				v1, e1 := k.Bool()
				w(v1, e1)
				v2, e2 := k.Int()
				w(v2, e2)
				v3, e3 := k.Int64()
				w(v3, e3)
				v4, e4 := k.Uint()
				w(v4, e4)
				v5, e5 := k.Uint64()
				w(v5, e5)
				v6, e6 := k.Float64()
				w(v6, e6)
				v7, e7 := k.Duration()
				w(v7, e7)
				v8, e8 := k.Time()
				w(v8.UTC(), e8)
				v9, e9 := k.TimeFormat("2006-01-02")
				w(v9.UTC(), e9)
				// Without a default, or with one that is not needed.
				fmt.Fprint(&b, k.MustBool(), k.MustInt(), k.MustInt64(), k.MustUint(), k.MustUint64(), k.MustFloat64(), k.MustDuration(), k.MustTime().UTC(), k.MustTimeFormat("2006").UTC())
				if e2 == nil {
					fmt.Fprint(&b, k.MustInt(7), k.MustString("x"))
				}
				if e1 == nil {
					fmt.Fprint(&b, k.MustBool(true))
				}
				return b.String()
			})
			rd("choices", func() string {
				return fmt.Sprint(k.In("d", []string{"1", "v"}), k.InInt(3, []int{1, 2}), k.InFloat64(1, []float64{2}), k.InUint(1, []uint{2}), k.InTime(time.Unix(0, 0), nil).UTC(),
					k.RangeInt(1, 0, 5), k.RangeFloat64(1, 0, 9), k.RangeInt64(1, 0, 3), k.RangeTime(time.Unix(0, 0), time.Unix(0, 0), time.Unix(1<<33, 0)).UTC())
			})
			rd("lists", func() string {
				a, e := k.StrictInts(",")
				b, e2 := k.StrictBools(",")
				d, e3 := k.StrictTimes("|")
				return fmt.Sprint(k.Ints(","), k.ValidInts(","), a, errStr(e), k.Bools(","), b, errStr(e2), k.Float64s("|"), k.ValidUint64s(","), len(k.Times(",")), len(d), errStr(e3), k.Uints(" "), k.ValidFloat64s(","))
			})
		}
	}
	return l
}

// sub derives a generator from a number drawn once, for building twice.
func sub(c *core.Case, seed uint64) *core.Case {
	cc := *c
	cc.R = core.NewRand(seed, "sub")
	return &cc
}

// bigText gives a document of many sections, or of many keys in one.
func bigText(c *core.Case, delim string) string {
	r := c.R
	c.Count("big")
	var b strings.Builder
	n := core.Pick(r, []int{90, 150, 300, 1000})
	per := core.Pick(r, []int{1, 2, 12})
	if r.P(0.4) {
		n, per = 2, n
	}
	v := core.Pick(r, []string{"1", "some text", strings.Repeat("text ", 20)})
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "[big.s%d]\n", i)
		for j := 0; j < per; j++ {
			fmt.Fprintf(&b, "key%d%s%d%s\n", j, delim, i, v)
		}
	}
	return b.String()
}

func c22File(c *core.Case) (*ini.File, reflect.Type) {
	r := c.R
	if r.P(0.5) {
		o := anyOptions(r)
		o.DebugFunc = nil
		g := &docGen{r: r, o: &o}
		for i := 0; i < 4; i++ {
			g.secs = append(g.secs, core.Pick(r, secNames))
			g.keys = append(g.keys, core.Pick(r, []string{"a", "b", "k1", "name", "x.y", "Key", "n"}))
		}
		// References among themselves only in the part below, where they end.
		text := strings.ReplaceAll(validText(g, 60), "%(", "%[")
		if r.P(0.6) {
			text += "\n[par]\nk1 = 1,2,3\nr1 = %(k1)s and %(name)s\nt = 2021-03-04T05:06:07Z\nd = 3m\nb1 = yes\n[par.child]\nr2 = <%(r1)s>\nf = 1.5|2.5\nk1 = 7\n[par.child.leaf]\nr3=%(r2)s%(f)s\n"
		}
		if r.P(0.03) {
			text += "\n" + bigText(c, delimText(r, &o))
		}
		c.Logf("options %s", optText(o))
		c.Logf("text %q", text)
		f, err := ini.LoadSources(o, []byte(text))
		if err != nil {
			return nil, nil
		}
		var t reflect.Type
		if r.P(0.5) {
			t = (&typeGen{r: r, c: c}).structType(0, false)
		}
		c.Count("read-text")
		return f, t
	}
	x := newMapCase(c, 0.02, 0.05, true)
	x.build(mapFrom{file: true})
	c.Count("read-struct")
	return x.f, x.t
}

func c22Reads(c *core.Case) {
	c.Count("reads")
	seed := c.R.Uint64()
	f, t := c22File(sub(c, seed))
	twin, _ := c22File(sub(c, seed))
	if f == nil || twin == nil {
		c.Trivial = true
		return
	}
	f.BlockMode, twin.BlockMode = false, false
	if c.R.P(0.25) {
		m := func(s string) string { return strings.ReplaceAll(s, "v", "w") }
		f.ValueMapper, twin.ValueMapper = m, m
	}
	n := c.R.Range(2, 4)
	seeds := make([]uint64, n)
	for i := range seeds {
		seeds[i] = c.R.Uint64()
	}
	limit := c.R.Range(20, 120)
	type seen struct {
		at  []int
		got []string
	}
	outs := make([]seen, n)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					buf := make([]byte, 2000)
					outs[i].at = append(outs[i].at, -1)
					outs[i].got = append(outs[i].got, fmt.Sprintf("panic: %v\n%s", p, buf[:runtime.Stack(buf, false)]))
				}
			}()
			r := core.NewRand(seeds[i], "reader")
			<-start
			l := readsOf(f, t)
			for j := 0; j < limit; j++ {
				x := r.N(len(l))
				if j == 0 && i < 2 {
					x = int(seed % uint64(len(l))) // two begin with the same
				}
				outs[i].at = append(outs[i].at, x)
				outs[i].got = append(outs[i].got, l[x].do())
			}
		}(i)
	}
	close(start)
	wg.Wait()
	want := map[int]string{}
	before := Snap(twin)
	tl := readsOf(twin, t)
	for i := range outs {
		for j, x := range outs[i].at {
			if x < 0 {
				c.Failf("reader %d: %s", i, outs[i].got[j])
			}
			if x >= len(tl) {
				c.Failf("reader %d: more to read than a single reader finds", i)
			}
			w, ok := want[x]
			if !ok {
				w = tl[x].do()
				want[x] = w
				// A second time: reading is not allowed to change what is read.
				c.Eq("the same read again: "+tl[x].name, tl[x].do(), w)
			}
			c.Eq(fmt.Sprintf("reader %d: %s, compared with a single reader", i, tl[x].name), outs[i].got[j], w)
			switch tl[x].name {
			case "scalars", "lists", "choices":
				c.Count("typed-values")
			case "WriteTo", "WriteToIndent":
				c.Count("written")
			case "find section", "find key":
				c.Count("child-lookup")
			}
			if strings.HasSuffix(tl[x].name, "MapTo") {
				c.Count("mapped")
			}
		}
	}
	c.Eq("state after concurrent reads", Snap(f), before)
	c.Eq("state after reads", Snap(twin), before)
	for _, s := range f.Sections() {
		if s.Body() != "" {
			c.Count("raw-bodies")
		}
		for _, k := range s.Keys() {
			if k.String() != k.Value() {
				c.Count("expanded-differs")
			}
			if len(k.ValueWithShadows()) > 1 {
				c.Count("shadow-values")
			}
			if len(k.NestedValues()) > 0 {
				c.Count("nested-values")
			}
		}
	}
	c.Observe(before)
}

// isoRun uses one file according to a generator of its own.
type isoRun struct {
	r    *rnd
	f    *ini.File
	opt  ini.LoadOptions
	t    reflect.Type
	out  []string
	secs []*ini.Section
	keys []*ini.Key
	n    map[string]int
}

func (x *isoRun) load(src []byte) bool {
	var err error
	x.f, err = ini.LoadSources(x.opt, src)
	if err != nil {
		x.out = append(x.out, "load "+err.Error())
		x.f = nil
		return false
	}
	x.secs = x.f.Sections()
	for _, s := range x.secs {
		x.keys = append(x.keys, s.Keys()...)
	}
	x.n = map[string]int{}
	x.f.BlockMode = x.r.P(0.5)
	return true
}

func showRes(r cRes) string {
	s := r.text
	for _, p := range r.secs {
		if p != nil {
			s += " S" + p.Name()
		}
	}
	for _, p := range r.keys {
		if p != nil {
			s += " K" + p.Name() + "=" + p.Value()
		}
	}
	return s
}

type isoStruct struct {
	Name string
	K1   []string `ini:"k1"`
	N    int      `ini:"n"`
	Par  struct {
		T time.Time `ini:"t"`
		B bool      `ini:"b1"`
	} `ini:"par"`
}

// Mappers of one function with values of their own.
func isoNames(end string) ini.NameMapper {
	return func(s string) string { return strings.ToLower(s) + end }
}

func isoValues(end string) ini.ValueMapper { return func(s string) string { return s + end } }

// strings reads the sections with known references.
func (x *isoRun) strings() string {
	var b strings.Builder
	for _, n := range []string{"service.main", "par.of", "par"} {
		if s, err := x.f.GetSection(n); err == nil {
			for _, k := range s.Keys() {
				fmt.Fprintf(&b, "%s %s %q\n", n, k.Name(), k.String())
			}
		}
	}
	return b.String()
}

func (x *isoRun) step() {
	r := x.r
	log := func(what, s string) { x.out = append(x.out, what+": "+s) }
	switch r.N(22) {
	case 0:
		x.n["reload"]++
		log("Reload", errStr(x.f.Reload()))
	case 1:
		x.n["append"]++
		log("Append", errStr(x.f.Append([]byte(fmt.Sprintf("[app]\nk%d = v%d\n", r.N(3), r.N(100))))))
	case 2:
		x.n["reflect"]++
		v := isoStruct{Name: fmt.Sprint(r.N(100)), K1: []string{"a", fmt.Sprint(r.N(9))}, N: r.N(5)}
		log("ReflectFrom", errStr(x.f.ReflectFrom(&v)))
	case 3:
		var v isoStruct
		log("MapTo", errStr(x.f.MapTo(&v))+fmt.Sprint(v))
	case 4:
		if x.t != nil {
			v := reflect.New(x.t)
			log("MapTo", errStr(x.f.StrictMapTo(v.Interface()))+dump(v.Elem(), false))
		}
	case 5:
		x.f.NameMapper = core.Pick(r, []ini.NameMapper{nil, ini.SnackCase, ini.TitleUnderscore, isoNames(""), isoNames("1"), isoNames("x")})
	case 6:
		x.f.ValueMapper = core.Pick(r, []ini.ValueMapper{nil, strings.ToUpper, isoValues("-"), isoValues("+")})
	case 11:
		log("String", x.strings())
	case 7:
		if len(x.keys) > 0 {
			core.Pick(r, x.keys).Comment = core.Pick(r, words)
		}
	case 8:
		var b bytes.Buffer
		_, err := x.f.WriteTo(&b)
		log("WriteTo", b.String()+errStr(err))
	case 9, 10:
		if l := readsOf(x.f, x.t); len(l) > 0 {
			i := r.N(len(l))
			log(l[i].name, l[i].do())
		}
	default:
		op, ok := plan(r, nil).bind(x.secs, x.keys)
		if !ok {
			return
		}
		if len(x.secs) > 0 && op.sec != nil && r.P(0.7) {
			op.sec = core.Pick(r, x.secs)
		}
		res := op.exec(x.f)
		if len(res.secs) == 1 {
			x.secs = append(x.secs, res.secs[0])
		}
		if len(res.keys) == 1 {
			x.keys = append(x.keys, res.keys[0])
		}
		log(op.kind, showRes(res))
	}
}

func (x *isoRun) end() {
	var b bytes.Buffer
	_, err := x.f.WriteTo(&b)
	x.out = append(x.out, "end", x.strings(), Snap(x.f), b.String()+errStr(err))
}

// isoPlan is what one file of an isolation case is loaded from, and how it is used.
type isoPlan struct {
	opt   ini.LoadOptions
	text  string
	t     reflect.Type
	seed  uint64
	steps int
}

func (p *isoPlan) run() *isoRun {
	return &isoRun{r: core.NewRand(p.seed, "iso"), opt: p.opt, t: p.t}
}

// alone gives the outcomes of the file used alone.
func (p *isoPlan) alone() []string {
	x := p.run()
	func() {
		defer func() {
			if e := recover(); e != nil {
				x.out = append(x.out, fmt.Sprintf("panic: %v", e))
			}
		}()
		if x.load([]byte(p.text)) {
			for k := 0; k < p.steps; k++ {
				x.step()
			}
			x.end()
		}
	}()
	return x.out
}

// aloneEnv names the variable that makes a case of isolation do nothing but use
// the file with the given number alone and write the outcomes.
const aloneEnv = "VERIF_ALONE"

const aloneFile = "outcomes.json"

// aloneElsewhere uses file i alone in a process of its own, which nothing that
// happened here can have influenced.
func aloneElsewhere(c *core.Case, i int) ([]string, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	dir, err := os.MkdirTemp(c.Dir, "alone")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	tier := "quick"
	if c.Thorough {
		tier = "thorough"
	}
	cmd := exec.Command(exe, "-worker", "-prop", "C22", "-seed", strconv.FormatUint(c.Seed, 10), "-tier", tier,
		"-from", strconv.Itoa(c.Idx), "-step", "1", "-to", strconv.Itoa(c.Idx+1), "-dir", dir, "-result", filepath.Join(dir, "result"))
	cmd.Env = append(os.Environ(), aloneEnv+"="+strconv.Itoa(i), "GOMAXPROCS=2")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Run(); err != nil {
		return nil, err
	}
	b, err := os.ReadFile(filepath.Join(dir, aloneFile))
	if err != nil {
		return nil, err
	}
	var l []string
	for _, q := range strings.Split(string(b), "\n") {
		s, err := strconv.Unquote(q)
		if err != nil {
			return nil, err
		}
		l = append(l, s)
	}
	return l, nil
}

// otherValues gives a text with the same names and other values.
func otherValues(text string, by int, letters bool) string {
	lines := strings.Split(text, "\n")
	for i, l := range lines {
		at := strings.IndexAny(l, "=:")
		if at < 0 {
			continue
		}
		b := []byte(l)
		for j := at; j < len(b); j++ {
			switch ch := b[j]; {
			case ch >= '0' && ch <= '9':
				b[j] = '0' + (ch-'0'+byte(by))%10
			case letters && ch >= 'a' && ch <= 'z' && !strings.Contains(l, "%("):
				b[j] = 'a' + (ch-'a'+byte(by))%26
			}
		}
		lines[i] = string(b)
	}
	return strings.Join(lines, "\n")
}

func c22Isolation(c *core.Case) {
	r := c.R
	c.Count("isolation")
	o := anyOptions(r)
	o.DebugFunc = nil
	g := &docGen{r: r, o: &o, garbage: 0.02}
	text := strings.ReplaceAll(validText(g, 30), "%(", "%[")
	head, tail := "", "\n[par]\nk1 = 1,2,3\nt = 2021-03-04T05:06:07Z\nr1 = %(k1)s\n"
	if r.P(0.6) {
		head = "base = b1\nName = n1\nname = n2\nname1 = n3\nnamex = n4\nn = 5\nn1 = 6\n"
		tail += "[service.main]\naddr = %(base)s/%(name)s\nport = 80\nurl = %(addr)s;%(port)s %(k1)s\n[par.of]\nk1 = 7\nup = %(k1)s %(n)s\n"
	}
	delim := "="
	for _, ch := range o.KeyValueDelimiters {
		delim = string(ch)
		break
	}
	if r.P(0.015) {
		text += "\n" + bigText(c, delim)
	}
	text = strings.ReplaceAll(head, " = ", " "+delim+" ") + text + strings.ReplaceAll(tail, " = ", " "+delim+" ")
	c.Logf("options %s", optText(o))
	c.Logf("text %q", text)
	var t reflect.Type
	if r.P(0.4) {
		t = (&typeGen{r: r, c: c}).structType(0, false)
	}
	n, steps := r.Range(2, 4), r.Range(4, 25)
	plans := make([]*isoPlan, n)
	for i := range plans {
		p := &isoPlan{opt: o, text: text, t: t, seed: r.Uint64(), steps: steps}
		if i > 0 && r.P(0.3) {
			p.seed = plans[0].seed
		}
		if r.P(0.3) {
			// Other options, sharing the lists in them.
			p.opt.Insensitive, p.opt.AllowShadows = !o.Insensitive, !o.AllowShadows
		} else if r.P(0.15) {
			p.opt = anyOptions(r)
			p.opt.DebugFunc = nil
		}
		if i > 0 && r.P(0.5) {
			p.text = otherValues(text, i, r.P(0.4))
			c.Logf("text of file %d %q", i, p.text)
		}
		plans[i] = p
	}
	if e := os.Getenv(aloneEnv); e != "" {
		i, err := strconv.Atoi(e)
		must(err)
		var l []string
		for _, s := range plans[i].alone() {
			l = append(l, strconv.Quote(s))
		}
		must(os.WriteFile(c.Scratch(aloneFile), []byte(strings.Join(l, "\n")), 0o644))
		return
	}
	runs := make([]*isoRun, n)
	srcs := make([][]byte, n)
	for i, p := range plans {
		runs[i] = p.run()
		for j := 0; j < i; j++ {
			if plans[j].text == p.text {
				srcs[i] = srcs[j]
				c.Count("shared-source")
			}
		}
		if srcs[i] == nil {
			srcs[i] = []byte(p.text)
		}
	}
	if !core.RaceEnabled && r.P(0.5) {
		c.Count("isolation-turns")
		for i, x := range runs {
			x.load(srcs[i])
		}
		left := make([]int, n)
		for k := 0; k < n*steps; k++ {
			i := r.N(n)
			if runs[i].f != nil && left[i] < steps {
				left[i]++
				runs[i].step()
			}
		}
		for i, x := range runs {
			for ; x.f != nil && left[i] < steps; left[i]++ {
				x.step()
			}
		}
		for _, x := range runs {
			if x.f != nil {
				x.end()
			}
		}
	} else {
		vsync.Noise = core.Pick(r, []uint32{0, 100})
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := range runs {
			wg.Add(1)
			go func(x *isoRun, src []byte) {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						x.out = append(x.out, fmt.Sprintf("panic: %v", p))
					}
				}()
				<-start
				if x.load(src) {
					for k := 0; k < steps; k++ {
						x.step()
					}
					x.end()
				}
			}(runs[i], srcs[i])
		}
		close(start)
		wg.Wait()
		vsync.Noise = 0
	}
	away := 0.4
	if core.RaceEnabled {
		away = 0
	} else if c.Thorough {
		away = 0.1
	}
	for i, x := range runs {
		p := plans[i]
		c.Eq("source bytes after use", string(srcs[i]), p.text)
		check := func(where string, alone []string) {
			c.Logf("file %d, alone %s: %q", i, where, alone)
			for j := 0; j < len(alone) && j < len(x.out); j++ {
				c.Eq(fmt.Sprintf("file %d, outcome %d, next to %d other files (alone %s)", i, j, n-1, where), x.out[j], alone[j])
			}
			c.EqV("number of outcomes", len(x.out), len(alone))
		}
		if r.P(away) {
			if l, err := aloneElsewhere(c, i); err == nil {
				c.Count("alone-elsewhere")
				check("in a process of its own", l)
			} else {
				c.Logf("no process: %v", err)
				c.Count("no-process")
			}
		}
		alone := p.alone()
		check("afterwards", alone)
		c.Observe(strings.Join(alone, "\n"))
		var ks []string
		for k := range x.n {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			c.CountN("iso-"+k, x.n[k])
		}
	}
}
