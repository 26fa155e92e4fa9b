package props

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/go-ini/ini"

	"verif/harness/internal/core"
)

func init() {
	register(&core.Prop{ID: "C14", Level: "exploration", Quick: 800000, Thorough: 8000000, Run: runC14,
		Rule: "a case is one value (numbers of every Go syntax and size, booleans, durations, times, mutations of them, references) read through every scalar accessor in plain, Must, In and Range form with random defaults, candidates and bounds, compared with direct conversion of the expanded text; distinct by the hash of the outcomes; non-trivial when some accessor converts",
		Must: []string{"ok-bool", "ok-int", "ok-uint", "ok-float", "ok-duration", "ok-time", "bad-bool", "bad-int", "bad-uint", "bad-float", "bad-duration", "bad-time", "out-of-range-int", "out-of-range-uint", "out-of-range-float", "must-default", "must-several-defaults", "must-none", "in-hit", "in-miss", "range-hit", "range-miss", "expanded", "child-section"}})
}

// boolText is the documented list of boolean words.
func boolText(s string) (v, ok bool) {
	for _, w := range strings.Fields("1 t T TRUE true True YES yes Yes y ON on On") {
		if s == w {
			return true, true
		}
	}
	for _, w := range strings.Fields("0 f F FALSE false False NO no No n OFF off Off") {
		if s == w {
			return false, true
		}
	}
	return false, false
}

var timeFormats = []string{time.RFC3339, time.RFC1123, time.RFC822, "2006-01-02", "15:04:05", time.ANSIC, time.RFC3339Nano, "02 Jan 06 15:04 MST"}

func anyTime(r *rnd) time.Time {
	sec := core.PickW(r, []core.W[int64]{{6, int64(r.N(2000000000))}, {1, -62135596800}, {1, 0}, {1, 253402300799}, {1, -int64(r.N(2000000000))}})
	ns := core.PickW(r, []core.W[int64]{{4, 0}, {2, int64(r.N(1000000000))}, {1, 999999999}})
	t := time.Unix(sec, ns).UTC()
	switch r.N(4) {
	case 0:
		t = t.In(time.FixedZone("", r.Range(-14, 14)*3600))
	case 1:
		t = t.In(time.FixedZone("ABC", r.Range(-700, 700)*60))
	}
	return t
}

func intText(r *rnd) string {
	big := core.Pick(r, []string{"0", "1", "7", "42", "255", "256", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "2147483647", "2147483648", "4294967295", "4294967296", "1000000"})
	switch r.N(14) {
	case 0:
		return "-" + big
	case 1:
		return "+" + big
	case 2:
		return fmt.Sprintf("%#x", r.Uint64()>>r.N(64))
	case 3:
		return fmt.Sprintf("-0x%X", r.Uint64()>>r.N(64))
	case 4:
		return sign(r) + fmt.Sprintf("0%o", r.Uint64()>>r.N(64))
	case 5:
		return sign(r) + fmt.Sprintf("0b%b", r.Uint64()>>r.N(64))
	case 6:
		return sign(r) + fmt.Sprintf("0o%o", r.Uint64()>>r.N(64))
	case 7:
		return core.Pick(r, []string{"1_000", "0x_ff", "1__0", "_1", "08", "09", "0x", "0b2", "--1", "+-1", "1 ", " 1", "1.0", "1e3", "٣", "0X1F", "0B11", "-0"})
	case 8:
		return strconv.FormatInt(int64(r.Uint64()), 10)
	case 9:
		return strconv.FormatUint(r.Uint64(), 10)
	case 10:
		return strconv.Itoa(r.Range(-20, 20))
	}
	return big
}

func sign(r *rnd) string { return core.Pick(r, []string{"", "", "-", "-", "+"}) }

func floatText(r *rnd) string {
	switch r.N(6) {
	case 0:
		return strconv.FormatFloat(math.Float64frombits(r.Uint64()), byte(core.Pick(r, []byte("eEfgGxb"))), -1, 64)
	case 1:
		return core.Pick(r, []string{"1e309", "-1e400", "1e-400", "5e-324", "0x1p-2", "Inf", "-inf", "+Infinity", "NaN", "nan", "1e", ".", ".5", "5.", "1_0.5", "1,5", "1e+3", "-0.0", "0x1.8p3", "1.7976931348623157e308", "1.7976931348623159e308"})
	case 2:
		return strconv.Itoa(r.Range(-9, 9)) + "." + strconv.Itoa(r.N(1000))
	}
	return strconv.FormatFloat(r.NormFloat64()*math.Pow(10, float64(r.Range(-5, 12))), 'g', -1, 64)
}

func durText(r *rnd) string {
	switch r.N(4) {
	case 0:
		return core.Pick(r, []string{"1h", "1.5h", "-2m30s", "300ms", "1us", "1µs", "1μs", "1d", "1", "0", "-0", "h", "1h1", "9223372036854775807ns", "9223372036854775808ns", "-9223372036854775808ns", "+5s", "1h-2m", ".5s", "1.s", "2540400h10m10.000000000s"})
	}
	return time.Duration(int64(r.Uint64()) >> r.N(60)).String()
}

func boolWord(r *rnd) string {
	return core.Pick(r, []string{"1", "t", "T", "TRUE", "true", "True", "YES", "yes", "Yes", "y", "ON", "on", "On", "0", "f", "F", "FALSE", "false", "False", "NO", "no", "No", "n", "OFF", "off", "Off",
		"Y", "N", "tRUE", "yES", "oN", "ofF", "2", "", "enabled", "truE", " true", "TrUe", "01"})
}

func scalarText(r *rnd) string {
	var s string
	switch r.N(7) {
	case 0, 1:
		s = intText(r)
	case 2:
		s = floatText(r)
	case 3:
		s = boolWord(r)
	case 4:
		s = durText(r)
	case 5:
		s = anyTime(r).Format(core.Pick(r, timeFormats))
	case 6:
		s = core.Pick(r, words)
	}
	if r.P(0.06) && !strings.Contains(s, "%(") {
		s = core.Pick(r, []func(string) string{strings.ToLower, strings.ToUpper})(s)
	}
	if r.P(0.08) && !strings.Contains(s, "%(") {
		if t := mutate(r, s); !strings.Contains(t, "%(") {
			s = t
		}
	}
	return s
}

type c14 struct {
	c    *core.Case
	k    *ini.Key
	f    *ini.File
	raw  string // raw value
	text string // expanded value
	any  bool
}

// unchanged verifies the key's raw value.
func (x *c14) unchanged(what string) { x.c.Eq("raw value after "+what, x.k.Value(), x.raw) }

func show(v any) string {
	switch t := v.(type) {
	case time.Time:
		_, off := t.Zone()
		return fmt.Sprintf("%s %d %s", t.Format(time.RFC3339Nano), off, t.Location())
	case float64:
		if math.IsNaN(t) {
			return "NaN"
		}
		return fmt.Sprintf("%x", t)
	}
	return fmt.Sprintf("%#v", v)
}

func checkScalar[T any](x *c14, name string, get func() (T, error), must func(...T) T, conv func(string) (T, error), def T, defText string) (T, error) {
	c := x.c
	want, werr := conv(x.text)
	got, err := get()
	c.Logf("%s of %q", name, x.text)
	if werr == nil {
		x.any = true
		c.Count("ok-" + name)
		c.Observe(show(want))
		c.True(err == nil, "%s of %q: error %v", name, x.text, err)
		c.Eq(name, show(got), show(want))
	} else {
		c.Count("bad-" + name)
		if ne, ok := werr.(*strconv.NumError); ok && ne.Err == strconv.ErrRange {
			c.Count("out-of-range-" + name)
		}
		c.True(err != nil, "%s of %q: got %s, want an error (%v)", name, x.text, show(got), werr)
	}
	x.unchanged(name)
	var zero T
	if must == nil {
		return want, werr
	}
	got = must()
	c.Count("must-none")
	if werr == nil {
		c.Eq("Must "+name, show(got), show(want))
	} else {
		c.Eq("Must "+name+" without default of unconvertible text", show(got), show(zero))
	}
	x.unchanged("Must " + name)
	defs := []T{def}
	for c.R.P(0.1) {
		// Only the first one counts.
		c.Count("must-several-defaults")
		defs = append(defs, core.Pick(c.R, []T{zero, want, def}))
	}
	got = must(defs...)
	if werr == nil {
		c.Eq("Must "+name+" with default", show(got), show(want))
		x.unchanged("Must " + name + " with default")
		return want, werr
	}
	c.Count("must-default")
	c.Eq("Must "+name+" with default of unconvertible text", show(got), show(def))
	c.Eq("value after Must "+name+" took its default", x.k.Value(), defText)
	x.k.SetValue(x.raw)
	return want, werr
}

func checkIn[T any](x *c14, name string, in func(T, []T) T, val T, err error, def T, cands []T, eq func(a, b T) bool) {
	want, hit := def, false
	if err == nil {
		for _, v := range cands {
			if eq(val, v) {
				want, hit = val, true
			}
		}
	}
	x.c.Logf("In %s of %q default %s candidates %d", name, x.text, show(def), len(cands))
	if hit {
		x.c.Count("in-hit")
	} else {
		x.c.Count("in-miss")
	}
	x.c.Eq("In "+name, show(in(def, cands)), show(want))
	x.unchanged("In " + name)
}

func checkRange[T any](x *c14, name string, rng func(d, lo, hi T) T, val T, err error, def, lo, hi T, leq func(a, b T) bool) {
	want := def
	if err == nil && leq(lo, val) && leq(val, hi) {
		want = val
		x.c.Count("range-hit")
	} else {
		x.c.Count("range-miss")
	}
	x.c.Logf("Range %s of %q in [%s, %s] default %s", name, x.text, show(lo), show(hi), show(def))
	x.c.Eq("Range "+name, show(rng(def, lo, hi)), show(want))
	x.unchanged("Range " + name)
}

func near[T int | int64 | uint | uint64](r *rnd, v T, err error, any func() T) T {
	if err == nil && r.P(0.6) {
		return v + T(r.Range(-1, 1))
	}
	return any()
}

func runC14(c *core.Case) {
	r := c.R
	text := scalarText(r)
	raw := text
	if strings.Contains(text, "%(") {
		raw, text = "x", "x"
	}
	f := ini.Empty()
	f.BlockMode = r.P(0.8)
	sn := core.Pick(r, []string{"", "s", "p.c"})
	sec := f.Section(sn)
	switch r.N(8) {
	case 0: // reference
		c.Count("expanded")
		_, e := sec.NewKey("part", text)
		must(e)
		raw = "%(part)s"
	case 1:
		c.Count("expanded")
		i := 0
		if len(text) > 0 {
			i = r.N(len(text))
		}
		if strings.ContainsAny(text, "%(") {
			break
		}
		_, e := f.Section("").NewKey("part", text[i:])
		must(e)
		raw = text[:i] + "%(part)s"
	}
	k, e := sec.NewKey("k", raw)
	must(e)
	if sn == "p.c" && r.P(0.5) {
		c.Count("child-section")
		k = f.Section("p.c.x").Key("k")
	}
	before := Snap(f)
	c.Logf("raw %q", raw)
	x := &c14{c: c, k: k, f: f, raw: raw, text: text}
	c.Eq("String", k.String(), text)

	eqi := func(a, b int64) bool { return a == b }
	// bool
	db := r.P(0.5)
	checkScalar(x, "bool", k.Bool, k.MustBool, func(s string) (bool, error) {
		v, ok := boolText(s)
		if !ok {
			return false, fmt.Errorf("no boolean")
		}
		return v, nil
	}, db, strconv.FormatBool(db))
	// int64 and int
	d64 := int64(r.Uint64()) >> r.N(64)
	conv64 := func(s string) (int64, error) { return strconv.ParseInt(s, 0, 64) }
	v64, err := checkScalar(x, "int", k.Int64, k.MustInt64, conv64, d64, strconv.FormatInt(d64, 10))
	checkScalar(x, "int", k.Int, k.MustInt, func(s string) (int, error) { v, e := conv64(s); return int(v), e }, int(d64), strconv.FormatInt(d64, 10))
	rnd64 := func() int64 { return int64(r.Uint64()) >> r.N(64) }
	c64 := []int64{near(r, v64, err, rnd64), 0, near(r, v64, err, rnd64), 1}[:r.N(5)]
	checkIn(x, "Int64", k.InInt64, v64, err, d64, c64, eqi)
	ci := make([]int, len(c64))
	for i := range c64 {
		ci[i] = int(c64[i])
	}
	checkIn(x, "Int", k.InInt, int(v64), err, int(d64), ci, func(a, b int) bool { return a == b })
	lo, hi := near(r, v64, err, rnd64), near(r, v64, err, rnd64)
	checkRange(x, "Int64", k.RangeInt64, v64, err, d64, lo, hi, func(a, b int64) bool { return a <= b })
	checkRange(x, "Int", k.RangeInt, int(v64), err, int(d64), int(lo), int(hi), func(a, b int) bool { return a <= b })
	// uint64 and uint
	du := r.Uint64() >> r.N(64)
	convu := func(s string) (uint64, error) { return strconv.ParseUint(s, 0, 64) }
	vu, uerr := checkScalar(x, "uint", k.Uint64, k.MustUint64, convu, du, strconv.FormatUint(du, 10))
	checkScalar(x, "uint", k.Uint, k.MustUint, func(s string) (uint, error) { v, e := convu(s); return uint(v), e }, uint(du), strconv.FormatUint(du, 10))
	rndu := func() uint64 { return r.Uint64() >> r.N(64) }
	cu := []uint64{near(r, vu, uerr, rndu), 0, near(r, vu, uerr, rndu), 1}[:r.N(5)]
	checkIn(x, "Uint64", k.InUint64, vu, uerr, du, cu, func(a, b uint64) bool { return a == b })
	cuu := make([]uint, len(cu))
	for i := range cu {
		cuu[i] = uint(cu[i])
	}
	checkIn(x, "Uint", k.InUint, uint(vu), uerr, uint(du), cuu, func(a, b uint) bool { return a == b })
	// float64
	df := math.Float64frombits(r.Uint64())
	if r.P(0.7) {
		df = float64(r.Range(-100, 100)) / 8
	}
	vf, ferr := checkScalar(x, "float", k.Float64, k.MustFloat64, func(s string) (float64, error) { return strconv.ParseFloat(s, 64) }, df, strconv.FormatFloat(df, 'f', -1, 64))
	nearf := func() float64 {
		if ferr == nil && r.P(0.6) {
			return core.Pick(r, []float64{vf, math.Nextafter(vf, math.Inf(1)), math.Nextafter(vf, math.Inf(-1)), vf})
		}
		return core.Pick(r, []float64{0, 1, -1, 1e300, -1e300, math.Inf(1), math.Inf(-1), math.NaN(), 0.5})
	}
	checkIn(x, "Float64", k.InFloat64, vf, ferr, df, []float64{nearf(), 0, nearf()}[:r.N(4)], func(a, b float64) bool { return a == b })
	checkRange(x, "Float64", k.RangeFloat64, vf, ferr, df, nearf(), nearf(), func(a, b float64) bool { return a <= b })
	// duration
	dd := time.Duration(int64(r.Uint64()) >> r.N(64))
	checkScalar(x, "duration", k.Duration, k.MustDuration, time.ParseDuration, dd, dd.String())
	// times
	dt := anyTime(r)
	checkScalar(x, "time", k.Time, k.MustTime, func(s string) (time.Time, error) { return time.Parse(time.RFC3339, s) }, dt, dt.Format(time.RFC3339))
	fm := core.Pick(r, timeFormats)
	vt, terr := checkScalar(x, "time", func() (time.Time, error) { return k.TimeFormat(fm) }, func(d ...time.Time) time.Time { return k.MustTimeFormat(fm, d...) },
		func(s string) (time.Time, error) { return time.Parse(fm, s) }, dt, dt.Format(fm))
	neart := func(v time.Time, err error) time.Time {
		if err == nil && r.P(0.7) {
			v = v.Add(core.Pick(r, []time.Duration{0, 0, 1, -1, time.Second, -time.Second, time.Hour, -time.Hour}))
			if r.P(0.4) {
				v = v.In(time.FixedZone("Z", r.Range(-12, 12)*3600))
			}
			return v
		}
		return anyTime(r)
	}
	eqt := func(a, b time.Time) bool { return a.Equal(b) }
	leqt := func(a, b time.Time) bool { return !a.After(b) }
	checkIn(x, "TimeFormat", func(d time.Time, l []time.Time) time.Time { return k.InTimeFormat(fm, d, l) }, vt, terr, dt, []time.Time{neart(vt, terr), anyTime(r), neart(vt, terr)}[:r.N(4)], eqt)
	checkRange(x, "TimeFormat", func(d, lo, hi time.Time) time.Time { return k.RangeTimeFormat(fm, d, lo, hi) }, vt, terr, dt, neart(vt, terr), neart(vt, terr), leqt)
	vr, rerr := time.Parse(time.RFC3339, text)
	checkIn(x, "Time", k.InTime, vr, rerr, dt, []time.Time{neart(vr, rerr), anyTime(r), neart(vr, rerr)}[:r.N(4)], eqt)
	checkRange(x, "Time", k.RangeTime, vr, rerr, dt, neart(vr, rerr), neart(vr, rerr), leqt)
	// text
	ds := core.Pick(r, words)
	if strings.Contains(ds, "%(") {
		ds = "d"
	}
	got := k.MustString(ds)
	if text != "" {
		c.Eq("MustString", got, text)
		x.unchanged("MustString")
	} else {
		c.Eq("MustString of an empty value", got, ds)
		c.Eq("value after MustString", k.Value(), ds)
		k.SetValue(raw)
	}
	cs := []string{core.Pick(r, words), text, ""}[:r.N(4)]
	wantS := ds
	for _, v := range cs {
		if v == text {
			wantS = text
		}
	}
	c.Eq("In", k.In(ds, cs), wantS)
	c.Eq("Validate", k.Validate(func(s string) string { return s + "!" }), text+"!")
	c.Eq("file after all accessors", Snap(f), before)
	c.Trivial = !x.any
}
