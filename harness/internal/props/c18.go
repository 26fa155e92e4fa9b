package props

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"

	"github.com/go-ini/ini"

	"verif/harness/internal/core"
	"verif/harness/internal/model"
)

func init() {
	register(&core.Prop{ID: "C18", Level: "exploration", Quick: 200000, Thorough: 1500000, Run: runC18,
		Rule: "a case is one struct type (drawn with reflect.StructOf: every supported kind, named types, pointers, lists, nested, embedded, extending and repeated sections, tags with every option, five name mappers; or a hand-written recursive one), one file drawn to fit it more or less, and a target with values in some fields; every field after MapTo is compared with an independent mapping of the reference model, the file with its state before; distinct by the hash of the result; non-trivial when at least two fields were set",
		Must: []string{"idle-option", "spaced-name", "set-string", "set-bool", "set-int", "set-int8", "set-int16", "set-int32", "set-int64", "set-uint", "set-uint16", "set-uint32", "set-uint64", "set-float32", "set-float64", "set-struct", "set-duration", "set-named", "set-pointer", "set-list", "set-list-several", "list-shadows", "section-field", "section-pointer-set", "section-pointer-left", "section-list", "list-several-sections", "list-no-section", "extends", "extends-named", "extends-child-section", "inherited", "expanded", "empty-string-kept", "invalid", "field-skipped", "field-unexported", "field-unnamed", "no-key",
			"mapper-SnackCase", "mapper-TitleUnderscore", "mapper-lower", "mapper-partial", "of-section", "of-section-list", "of-sources", "no-default-section", "preset", "recursion-ends", "section-field-indexed"}})
	register(&core.Prop{ID: "C19", Level: "exploration", Quick: 160000, Thorough: 1500000, Run: runC19,
		Rule: "a case is one struct type and one file drawn to fit it whose texts all convert, mapped strictly and laxly (same struct, no error), after which single keys get a text that does not convert, or does just about (range ends, list items), and both modes are compared with an independent conversion; plus targets that cannot be mapped to and unsupported field types; distinct by the hash of the results; non-trivial when an error was due",
		Must: []string{"strict-ok", "strict-error", "invalid-list-item", "invalid-int8", "invalid-uint16", "invalid-float32", "invalid-bool", "invalid-struct", "unsupported", "bad-target", "bounds", "section-list", "extends", "list-shadows", "of-section", "of-sources", "broken-nested", "long-list", "several-sources"}})
}

func pickMapper(c *core.Case, g *typeGen) mapperSpec {
	r := c.R
	mp := mappers[0]
	if r.P(0.6) {
		mp = core.Pick(r, mappers)
	}
	c.Count("mapper-" + mp.name)
	return mp
}

// recursive types.
type (
	recNode struct {
		V    int
		Name string
		Next *recNode `ini:"next"`
	}
	recExt struct {
		A       string
		*recExt `ini:",extends"`
	}
	RecExt struct {
		A       int
		B       []string
		*RecExt `ini:",extends"`
	}
	RecNamed struct {
		A         int
		*RecNamed `ini:"ext,extends"`
	}
	recList struct {
		V    int
		Kids []recList `ini:"kid,,,nonunique"`
	}
	recPtrs struct {
		V    int
		Kids []*recPtrs `ini:"kid,,,nonunique"`
		Up   *recPtrs   `ini:"kid"`
	}
	recA struct {
		X string
		B *recB `ini:"b"`
	}
	recB struct {
		Y string
		A *recA `ini:"a"`
		C recC  `ini:"c"`
	}
	recC struct {
		Z int
		B *recB `ini:"b"`
	}
	hidden struct {
		Q int
	}
	withHidden struct {
		hidden
		N int
		p int
	}
	// Base types that are embedded.
	Base struct {
		Host string
		Port uint16 `ini:"port"`
	}
	withBase struct {
		Base `ini:",extends"`
		Path string
		Sub  struct {
			Base `ini:"sub,extends"`
			X    int
		} `ini:"main"`
	}
	noFields struct{}
	// Embedded, but no structs: fields like others.
	Level        int
	Words        []string
	withEmbedded struct {
		Level  `ini:"level,extends"`
		Words  `ini:",extends"`
		*Pages `ini:",extends"`
		X      string
	}
	Pages uint8
)

var staticTypes = []reflect.Type{tOf[recNode](), tOf[recExt](), tOf[RecExt](), tOf[RecNamed](), tOf[recList](), tOf[recPtrs](), tOf[recA](), tOf[recB](), tOf[recC](), tOf[withHidden](), tOf[withBase](), tOf[noFields](), tOf[withEmbedded]()}

type mapCase struct {
	c      *core.Case
	o      ini.LoadOptions
	f      *ini.File
	m      *model.File
	g      *fileGen
	mapper mapperSpec
	t      reflect.Type
	spaced bool     // some key's name starts or ends in white space, which no text gives
	secs   []string // names of sections worth mapping on their own
}

func newMapCase(c *core.Case, bad float64, wrong float64, reuse bool) *mapCase {
	r := c.R
	x := &mapCase{c: c, o: structOptions(r)}
	tg := &typeGen{r: r, c: c, reuse: reuse, bad: bad}
	x.mapper = pickMapper(c, tg)
	if r.P(0.06) {
		x.t = core.Pick(r, staticTypes)
		c.Count("static-type")
	} else {
		x.t = tg.structType(0, false)
	}
	c.Logf("type %s", showType(x.t))
	c.Logf("options %s mapper %s", optText(x.o), x.mapper.name)
	x.spaced = tg.spaced
	x.f = ini.Empty(x.o)
	x.m = model.New(x.o)
	x.m.Parse("")
	x.f.NameMapper = x.mapper.lib
	x.g = &fileGen{c: c, r: r, f: x.f, m: x.m, mapper: x.mapper.oracle, rate: core.Pick(r, []float64{0.5, 0.85, 0.95}), wrong: wrong}
	return x
}

// target gives a value of the type, some fields already set.
func (x *mapCase) target(t reflect.Type) reflect.Value {
	r := x.c.R
	v := reflect.New(t).Elem()
	if r.P(0.5) {
		fl := &filler{r: r, c: x.c, rate: core.Pick(r, []float64{0.3, 0.7, 1}), str: func() string { return core.Pick(r, words) }, item: func(string) string { return core.Pick(r, words) }, unique: true}
		if t.Kind() == reflect.Slice {
			fl.value(v, tagInfo{}, 0)
		} else {
			for i := range staticTypes {
				if staticTypes[i] == t {
					return v // recursive types may not end
				}
			}
			fl.fields(v, 0)
		}
		x.c.Count("preset")
	}
	return v
}

func (x *mapCase) oracle() *mapOracle {
	return &mapOracle{m: x.m, mapper: x.mapper.oracle, cov: x.c.Cov, huge: func() { x.c.Abandon("elements") }}
}

// where a mapping starts.
type mapFrom struct {
	sec    string
	list   bool // the target is a list
	source bool // through the package functions
	file   bool // through the methods of File
}

func (x *mapCase) pickFrom(build func(from mapFrom)) mapFrom {
	r := x.c.R
	from := mapFrom{file: true}
	switch r.N(8) {
	case 0, 1:
		from = mapFrom{sec: core.Pick(r, []string{"root", "par.root", "par.sec.sub", "a.b.c", "Root"})}
	case 2:
		from = mapFrom{sec: core.Pick(r, []string{"root", "par.root", "item"}), list: true}
	case 3:
		if !x.o.AllowNonUniqueSections && !x.spaced && reflect.DeepEqual(x.o, ini.LoadOptions{}) {
			from = mapFrom{source: true}
		}
	}
	build(from)
	return from
}

// decoy is a source that assigns other values to some keys the file has.
func (x *mapCase) decoy() []byte {
	var b strings.Builder
	for _, s := range x.m.Secs {
		plain := func(s string) bool {
			return s != "" && strings.Trim(s, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.") == ""
		}
		if !plain(s.Name) {
			continue
		}
		b.WriteString("[" + s.Name + "]\n")
		for _, k := range s.Keys {
			if plain(k.Name) && !k.Bool && x.c.R.P(0.5) {
				b.WriteString(k.Name + " = " + core.Pick(x.c.R, []string{"decoy", "7", "true", ""}) + "\n")
			}
		}
	}
	return []byte(b.String())
}

// run maps, and says whether there was an error.
func (x *mapCase) run(from mapFrom, v reflect.Value, strict bool, text []byte) error {
	p := v.Addr().Interface()
	switch {
	case from.source:
		mp := x.mapper.lib
		// Earlier sources are overridden by the later ones.
		first, more := any(text), []any(nil)
		for i := 0; i < 4 && len(text) > 0 && x.c.R.P(0.3); i++ {
			x.c.Count("several-sources")
			more = append(more, text)
			first = x.decoy()
			if i > 0 {
				more[i-1] = x.decoy()
			}
		}
		switch {
		case mp == nil && strict:
			return ini.StrictMapTo(p, first, more...)
		case mp == nil:
			return ini.MapTo(p, first, more...)
		case strict:
			return ini.StrictMapToWithMapper(p, mp, first, more...)
		default:
			return ini.MapToWithMapper(p, mp, first, more...)
		}
	case from.file:
		if strict {
			return x.f.StrictMapTo(p)
		}
		return x.f.MapTo(p)
	default:
		if strict {
			return x.f.Section(from.sec).StrictMapTo(p)
		}
		return x.f.Section(from.sec).MapTo(p)
	}
}

// expect maps in the model.
func (x *mapCase) expect(from mapFrom, v reflect.Value) *mapOracle {
	o := x.oracle()
	if from.list {
		o.sectionList(from.sec, v, nil)
		return o
	}
	s := x.m.Get(from.sec)
	if s == nil {
		s = &model.Sec{F: x.m, Name: model.Default}
	}
	o.structVal(s, v, 0, nil)
	return o
}

func (x *mapCase) build(from mapFrom) {
	r := x.c.R
	if from.list {
		n := 1
		if x.o.AllowNonUniqueSections {
			n = r.Range(1, 4)
		}
		for ; n > 0; n-- {
			x.g.build(x.g.section(from.sec, true), x.t, 0)
		}
	} else {
		x.g.build(x.g.section(from.sec, false), x.t, 0)
	}
	// things that belong to no field
	for i := r.N(3); i > 0; i-- {
		x.g.put(x.g.section(core.Pick(r, []string{"", "zz", "par", "other.sec"}), r.P(0.5)), core.Pick(r, []string{"unused", "k k", "V", "Name"}), core.Pick(r, words))
	}
	switch {
	case from.list:
		x.c.Count("of-section-list")
	case from.source:
		x.c.Count("of-sources")
	case from.file:
		x.c.Count("of-file")
	default:
		x.c.Count("of-section")
	}
}

func (x *mapCase) text() []byte {
	var b bytes.Buffer
	_, err := x.f.WriteTo(&b)
	must(err)
	return b.Bytes()
}

func runC18(c *core.Case) {
	r := c.R
	x := newMapCase(c, 0.03, core.Pick(r, []float64{0, 0.1, 0.4}), r.P(0.4))
	from := x.pickFrom(x.build)
	if from.file && len(x.m.Get("").Keys) == 0 && r.P(0.5) {
		x.f.DeleteSection("")
		x.m.Delete("")
		c.Count("no-default-section")
	}
	tt := x.t
	if from.list {
		tt = reflect.SliceOf(x.t)
		if r.P(0.5) {
			tt = reflect.SliceOf(reflect.PointerTo(x.t))
		}
	}
	v := x.target(tt)
	before := dump(v, false)
	c.Logf("target before: %s", before)
	want := deepCopy(v)
	c.Eq("copy", dump(want, false), before)
	// what the target points to is not written through, except for structs
	o := x.expect(from, want)
	var text []byte
	if from.source {
		text = x.text()
	}
	snap := Snap(x.f)
	err := x.run(from, v, false, text)
	c.Eq("file after MapTo", Snap(x.f), snap)
	if o.open {
		c.Count("open")
		c.Trivial = true
		return
	}
	if o.hardErr {
		c.True(err != nil, "MapTo of a type that has unsupported fields with content gives no error")
		c.Count("refused")
		c.Trivial = true
		return
	}
	if err != nil {
		c.Failf("MapTo: %v", err)
	}
	got := dump(v, false)
	c.Logf("target after: %s", got)
	c.Eq("struct after MapTo", got, dump(want, false))
	c.Observe(got)
	c.Trivial = o.set < 2
	if r.P(0.2) {
		// the mapped struct is the caller's: using it does not change the file
		fl := &filler{r: r, c: c, rate: 1, str: func() string { return "changed" }, item: func(string) string { return "changed" }, unique: true}
		if v.Kind() == reflect.Struct && !isStatic(tt) {
			scribble(v, fl)
			c.Eq("file after changing the mapped struct", Snap(x.f), snap)
			c.Count("scribbled")
		}
	}
}

func isStatic(t reflect.Type) bool {
	for _, s := range staticTypes {
		if s == t {
			return true
		}
	}
	return false
}

// scribble overwrites the elements of every list in place.
func scribble(v reflect.Value, fl *filler) {
	switch v.Kind() {
	case reflect.Struct:
		if v.Type().ConvertibleTo(timeType) {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				scribble(v.Field(i), fl)
			}
		}
	case reflect.Ptr:
		if !v.IsNil() {
			scribble(v.Elem(), fl)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if v.Index(i).Kind() == reflect.String {
				v.Index(i).SetString("changed")
			} else {
				scribble(v.Index(i), fl)
			}
		}
	}
}

// badText gives a text that does not convert to the type, or only just does.
func badText(g *fileGen, t reflect.Type) string {
	r := g.r
	for i := 0; ; i++ {
		var s string
		switch r.N(3) {
		case 0:
			s = scalarText(r)
		case 1:
			s = core.Pick(r, []string{"x", "1x", "0x", "1.5", "-", "1e400", "2020-01-01", "TRUE ", "9999999999999999999999", "-1", "256", "65536", "4294967296", "-129", "tru", "1h", "", "1 2", "3.5e38", "\x00", "2020-02-30T00:00:00Z"})
		default:
			old := g.wrong
			g.wrong = 0
			s = g.fits(t)
			g.wrong = old
			if s != "" {
				s = mutate(r, s)
			}
		}
		if strings.Contains(s, "%(") {
			continue
		}
		return s
	}
}

func runC19(c *core.Case) {
	r := c.R
	if c.Idx%16 == 0 {
		badTargets(c)
		return
	}
	x := newMapCase(c, core.Pick(r, []float64{0, 0, 0, 0.3}), 0, false)
	from := x.pickFrom(x.build)
	tt := x.t
	if from.list {
		tt = reflect.SliceOf(x.t)
	}
	if x.g.bounds > 0 {
		c.Count("bounds")
	}
	compare := func(what string) {
		snap := Snap(x.f)
		var text []byte
		if from.source {
			text = x.text()
		}
		v := x.target(tt)
		w := deepCopy(v)
		want := deepCopy(v)
		o := x.expect(from, want)
		if o.open {
			c.Count("open")
			_ = x.run(from, v, true, text)
			_ = x.run(from, w, false, text)
			return
		}
		serr := x.run(from, v, true, text)
		lerr := x.run(from, w, false, text)
		c.Eq("file after mapping", Snap(x.f), snap)
		c.Logf("%s: strict %v, lax %v", what, serr, lerr)
		c.True((lerr != nil) == o.hardErr, "%s: MapTo gives %v, unsupported fields with content: %v", what, lerr, o.hardErr)
		c.True((serr != nil) == (o.hardErr || o.strictErr), "%s: StrictMapTo gives %v, want an error: %v (%v)", what, serr, o.hardErr || o.strictErr, o.errs)
		if lerr == nil {
			c.Eq(what+": struct after MapTo", dump(w, false), dump(want, false))
			c.Observe(dump(w, false))
		}
		if serr == nil {
			c.Eq(what+": struct after StrictMapTo", dump(v, false), dump(want, false))
			c.Count("strict-ok")
		} else {
			c.Count("strict-error")
			c.Trivial = false
		}
	}
	c.Trivial = true
	compare("fitting file")
	for i := r.Range(1, 3); i > 0 && len(x.g.keys) > 0; i-- {
		k := core.Pick(r, x.g.keys)
		old := k.m.Value
		var s string
		if k.t.Kind() == reflect.Slice {
			items := strings.Split(old, k.tag.delim)
			if r.P(0.15) && len(old) < 1000 && old != "" {
				// a long list, whose last items matter as much as the first ones
				c.Count("long-list")
				for n := r.Range(8, 90); len(items) < n; {
					items = append(items, items[r.N(len(items))])
				}
			}
			j := r.N(len(items))
			if r.P(0.3) {
				j = len(items) - 1
			}
			items[j] = badText(x.g, k.t.Elem())
			s = strings.Join(items, k.tag.delim)
			if len(k.m.Shadows) > 0 && k.tag.shadow && r.P(0.5) {
				// break a shadow instead
				_ = k.m.AddShadow(s)
				_ = k.f.AddShadow(s)
				s = old
			}
		} else {
			s = badText(x.g, deref(k.t))
		}
		if from.source && !expressible(s) || strings.Contains(s, "%(") && !strings.Contains(old, "%(") {
			continue
		}
		k.m.Value = s
		k.f.SetValue(s)
		c.Logf("[%s] %s := %q (field type %s)", k.m.S.Name, k.m.Name, s, k.t)
		if k.m.S.Name != model.Default {
			c.Count("broken-nested")
		}
		compare("after breaking " + k.m.Name)
		if r.P(0.5) {
			k.m.Value = old
			k.f.SetValue(old)
		}
	}
}

type someStruct struct {
	A int
	B []string
}

func badTargets(c *core.Case) {
	r := c.R
	var nilPtr *someStruct
	ps := &someStruct{}
	var iface any = someStruct{}
	var nilErr error
	ch := make(chan int)
	fn := func() {}
	n, s, m, arr := 1, "x", map[string]int{"A": 1}, [2]someStruct{}
	ints, strs := []int{1}, []string{"a"}
	pps := &ps
	targets := []any{nil, someStruct{}, nilPtr, &nilPtr, iface, &iface, nilErr, &nilErr, ch, &ch, fn, &fn, n, &n, s, &s, m, &m, arr, &arr, ints, &ints, strs, &strs, [](*int){nil}, &[]*int{nil}, []someStruct{}, &pps, reflect.ValueOf(ps), &[]any{1}, &[][]someStruct{}, &[]**someStruct{}, &[]map[string]int{}, struct{}{}, true, 1.5, uintptr(3), complex(1, 2)}
	i := (c.Idx / 16) % len(targets)
	t := targets[i]
	text := "A = 1\nB = a,b\n[s]\nA = 2\n[s.t]\nA = 3\n"
	f, err := ini.LoadSources(structOptions(r), []byte(text))
	must(err)
	snap := Snap(f)
	c.Logf("target %d: %T", i, t)
	try := func(what string, err error, must bool) {
		if must {
			c.True(err != nil, "%s to %T gives no error", what, t)
		}
		c.Events++
	}
	// pointers to pointers to structs may be followed or refused
	strictly := true
	switch t.(type) {
	case **someStruct, ***someStruct, *reflect.Value, reflect.Value:
		strictly = false
	}
	if _, ok := t.([]someStruct); ok {
		strictly = true
	}
	try("File.MapTo", f.MapTo(t), strictly)
	try("File.StrictMapTo", f.StrictMapTo(t), strictly)
	try("Section.MapTo", f.Section("s").MapTo(t), strictly)
	try("Section.StrictMapTo", f.Section("s.t").StrictMapTo(t), strictly)
	try("MapTo", ini.MapTo(t, []byte(text)), strictly)
	try("StrictMapTo", ini.StrictMapTo(t, []byte(text)), strictly)
	try("MapToWithMapper", ini.MapToWithMapper(t, ini.SnackCase, []byte(text)), strictly)
	try("StrictMapToWithMapper", ini.StrictMapToWithMapper(t, ini.TitleUnderscore, []byte(text)), strictly)
	// sources that cannot be loaded leave the target alone
	ok := &someStruct{A: 7}
	for _, src := range []any{[]byte("[x"), "/nonexistent/file.ini", 42, []byte("novalue\n")} {
		for j, e := range []error{ini.MapTo(ok, src), ini.StrictMapTo(ok, src), ini.MapToWithMapper(ok, ini.SnackCase, []byte(text), src), ini.StrictMapToWithMapper(ok, ini.SnackCase, src, []byte(text))} {
			c.True(e != nil, "package function %d with source %v gives no error", j, src)
		}
	}
	c.EqV("target of failed loads", *ok, someStruct{A: 7})
	c.Eq("file after refused targets", Snap(f), snap)
	c.Count("bad-target")
	c.Observe(fmt.Sprintf("%T", t))
	_ = withHidden{p: 1}
	_ = recExt{}
}
