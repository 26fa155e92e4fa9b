package props

import (
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/go-ini/ini"

	"verif/harness/internal/core"
	"verif/harness/internal/model"
)

func init() {
	register(&core.Prop{ID: "C20", Level: "exploration", Quick: 250000, Thorough: 1500000, Run: runC20,
		Rule: "a case is one struct type drawn with reflect.StructOf (every kind, tags with every option, name mappers, self-reflecting fields) with values, reflected into an empty or a filled file; the whole file afterwards is compared with an independent reflection into the reference model, and mapping it (directly, strictly, and after writing it in any format and loading it) onto a new struct is compared with the original values, or with the independent mapping when the file held other things before; distinct by the hash of the file; non-trivial when at least two keys were stored",
		Must: []string{"round-trip", "round-trip-strict", "round-trip-text", "filled-file", "omitted", "nil-pointer", "nil-section-pointer", "empty-list", "nil-element", "self-reflecting", "self-reflecting-nil", "comment", "section-field", "section-list", "extends", "list", "list-shadows", "overwritten", "own-not-inherited", "named-time", "of-file", "of-section", "of-section-list", "mapper-SnackCase", "unsupported", "value-quotes", "value-newline", "bad-source"}})
}

// Self-reflecting types.
type (
	selfVal struct {
		N int
	}
	selfPtr struct {
		N int
	}
	selfErr struct{}
)

func (s selfVal) ReflectINIStruct(f *ini.File) error {
	f.Section("self").Key("val").SetValue(strconv.Itoa(s.N))
	return nil
}

func (s *selfPtr) ReflectINIStruct(f *ini.File) error {
	f.Section("self").Key("ptr").SetValue(strconv.Itoa(s.N))
	return nil
}

var errSelf = errors.New("will not reflect")

func (selfErr) ReflectINIStruct(*ini.File) error { return errSelf }

var (
	selfTypes = []reflect.Type{tOf[selfVal](), tOf[*selfVal](), tOf[*selfPtr](), tOf[selfPtr]()}
	selfErrT  = tOf[selfErr]()
)

func isSelf(t reflect.Type) bool {
	switch t {
	case tOf[selfVal](), tOf[*selfVal](), tOf[*selfPtr](), selfErrT:
		return true
	}
	return false
}

// clearSelf zeroes the fields that reflect themselves: what they store is
// their own business.
func clearSelf(v reflect.Value) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			tag := readTag(v.Type().Field(i))
			if !f.CanSet() {
				reflect.NewAt(f.Type(), f.Addr().UnsafePointer()).Elem().SetZero()
			} else if isSelf(f.Type()) || tag.skip {
				f.SetZero()
			} else if !f.Type().ConvertibleTo(timeType) {
				clearSelf(f)
			}
		}
	case reflect.Ptr:
		if !v.IsNil() && v.Elem().Kind() == reflect.Struct && !v.Type().Elem().ConvertibleTo(timeType) {
			clearSelf(v.Elem())
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if deref(v.Index(i).Type()).Kind() == reflect.Struct && !deref(v.Index(i).Type()).ConvertibleTo(timeType) {
				clearSelf(v.Index(i))
			}
		}
	}
}

// reflOracle reflects into the model.
type reflOracle struct {
	c      *core.Case
	m      *model.File
	f      *ini.File // only for numbers, which may be written in several ways
	mapper func(string) string
	err    bool // an unsupported type or a refusing field
	stored int
}

func isEmpty(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Struct:
		return v.Type().ConvertibleTo(timeType) && v.Convert(timeType).Interface().(time.Time).IsZero()
	case reflect.Slice, reflect.Map, reflect.Array, reflect.String:
		return v.Len() == 0
	case reflect.Ptr, reflect.Interface:
		return v.IsNil()
	case reflect.Chan, reflect.Func, reflect.Complex128:
		return false
	case reflect.Float32, reflect.Float64:
		return v.Float() == 0
	}
	return v.IsZero()
}

// structVal reflects the fields in turn until one gives an error.
func (o *reflOracle) structVal(s *model.Sec, v reflect.Value) {
	t := v.Type()
	for i := 0; i < t.NumField() && !o.err; i++ {
		f, sf := v.Field(i), t.Field(i)
		tag := readTag(sf)
		if tag.skip || sf.PkgPath != "" {
			continue
		}
		if tag.omitempty && isEmpty(f) {
			o.c.Count("omitted")
			continue
		}
		isNil := f.Kind() == reflect.Ptr && f.IsNil()
		if isSelf(f.Type()) {
			switch {
			case f.Type() == selfErrT:
				o.err = true
				o.c.Count("self-reflecting-error")
			case isNil:
				o.c.Count("self-reflecting-nil")
			default:
				n := reflect.Indirect(f).Field(0).Int()
				name := "val"
				if f.Type() == tOf[*selfPtr]() {
					name = "ptr"
				}
				o.m.Section("self").Key(name).Value = strconv.FormatInt(n, 10)
				o.c.Count("self-reflecting")
			}
			continue
		}
		name := tag.name
		if name == "" {
			name = o.mapper(sf.Name)
		}
		if name == "" {
			continue
		}
		st := deref(f.Type())
		if st.Kind() == reflect.Struct && !st.ConvertibleTo(timeType) {
			if isNil {
				o.c.Count("nil-section-pointer")
				continue
			}
			in := reflect.Indirect(f)
			if tag.extends_ && sf.Anonymous {
				o.c.Count("extends")
				o.structVal(s, in)
				continue
			}
			o.c.Count("section-field")
			sec := o.m.Section(name)
			if sec.Comment == "" {
				sec.Comment = tag.comment
			}
			o.structVal(sec, in)
			continue
		}
		if f.Kind() == reflect.Slice && tag.nonunique {
			for j := 0; j < f.Len() && !o.err; j++ {
				e := f.Index(j)
				if e.Kind() == reflect.Ptr {
					if e.IsNil() {
						continue
					}
					e = e.Elem()
				}
				if e.Kind() != reflect.Struct {
					o.err = true
					return
				}
				sec, _ := o.m.NewSection(name)
				if sec.Comment == "" {
					sec.Comment = tag.comment
				}
				o.c.Count("section-list")
				o.structVal(sec, e)
			}
			continue
		}
		k := s.Own(name)
		if k == nil {
			if s.GetKey(name) != nil {
				o.c.Count("own-not-inherited")
			}
			k = &model.Key{S: s, Name: o.m.KeyName(name)}
			s.Keys = append(s.Keys, k)
		} else {
			o.c.Count("overwritten")
		}
		if k.Comment == "" {
			k.Comment = tag.comment
		}
		if tag.comment != "" {
			o.c.Count("comment")
		}
		o.value(k, f, tag)
		o.stored++
	}
}

// text gives the text of a scalar, as the library wrote it if that is another
// text for the same value.
func (o *reflOracle) text(k *model.Key, v reflect.Value) (string, bool) {
	switch v.Kind() {
	case reflect.String:
		return v.String(), true
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64:
		if k != nil && v.Kind() != reflect.Uint8 {
			if s, err := o.f.SectionsByName(k.S.Name); err == nil && len(s) == 1 && s[0].HasKey(k.Name) {
				t := s[0].Key(k.Name).Value()
				if w, ok := convert(t, v.Type()); ok && dump(w, true) == dump(v, true) {
					return t, true
				}
			}
		}
		return fmt.Sprint(func() any {
			switch {
			case v.CanInt():
				return v.Int()
			case v.CanUint():
				return v.Uint()
			case v.CanFloat():
				return v.Float()
			}
			return v.Bool()
		}()), true
	case reflect.Struct:
		if v.Type().ConvertibleTo(timeType) {
			if v.Type() != timeType {
				o.c.Count("named-time")
			}
			return v.Convert(timeType).Interface().(time.Time).Format(time.RFC3339), true
		}
	}
	return "", false
}

func (o *reflOracle) value(k *model.Key, f reflect.Value, tag tagInfo) {
	for f.Kind() == reflect.Ptr {
		if f.IsNil() {
			k.Value = ""
			o.c.Count("nil-pointer")
			return
		}
		f = f.Elem()
	}
	if f.Kind() != reflect.Slice {
		s, ok := o.text(k, f)
		if !ok {
			o.err = true
			o.c.Count("unsupported")
			return
		}
		k.Value = s
		return
	}
	if f.Len() == 0 {
		k.Value = ""
		if tag.shadow {
			k.Shadows = nil
		}
		o.c.Count("empty-list")
		return
	}
	var items []string
	for i := 0; i < f.Len(); i++ {
		e := f.Index(i)
		s, ok := "", false
		if isListElem(e.Type()) {
			s, ok = o.text(nil, e)
		}
		if !ok {
			o.err = true
			o.c.Count("unsupported")
			return
		}
		items = append(items, s)
	}
	o.c.Count("list")
	if tag.shadow && o.m.Opt.AllowShadows {
		k.Value, k.Shadows, k.Nested, k.Bool, k.Auto = items[0], nil, nil, false, false
		for _, s := range items[1:] {
			_ = k.AddShadow(s)
		}
		o.c.Count("list-shadows")
		return
	}
	k.Value = strings.Join(items, tag.delim)
}

func plainItem(r *rnd, delim string) string {
	for {
		s := strings.TrimSpace(core.Pick(r, words))
		if r.P(0.2) {
			s = strings.TrimSpace(hostile(r, 4))
		}
		if s == "" || strings.Index(s+delim, delim) != len(s) || strings.Contains(s, `\`) || strings.Contains(s, "%(") || !utf8.ValidString(s) || !expressible(s) {
			s = core.Pick(r, []string{"a", "b", "c", "xyz", "日本"})
		}
		return s
	}
}

func runC20(c *core.Case) {
	r := c.R
	if c.Idx%50 == 0 {
		badSources(c)
		return
	}
	clean := r.P(0.6) // nothing else in the file, distinct names
	x := &mapCase{c: c, o: structOptions(r)}
	tg := &typeGen{r: r, c: c, reflectOK: true, selves: true}
	if !clean {
		tg.reflectOK = false
		tg.small = r.P(0.6)
		tg.bad = core.Pick(r, []float64{0, 0.1})
	} else if !x.o.AllowNonUniqueSections {
		tg.noLists = true
	}
	x.mapper = pickMapper(c, tg)
	for clean && x.mapper.name == "partial" {
		// an embedded struct without a name is left out as a whole
		x.mapper = pickMapper(c, tg)
	}
	if clean && r.P(0.04) {
		x.t = core.Pick(r, []reflect.Type{tOf[withBase](), tOf[withHidden](), tOf[noFields]()})
		if x.t == tOf[withBase]() {
			x.mapper = mappers[0]
		}
	} else {
		x.t = tg.structType(0, false)
	}
	c.Logf("type %s", showType(x.t))
	c.Logf("options %s mapper %s clean %v", optText(x.o), x.mapper.name, clean)
	x.f = ini.Empty(x.o)
	x.m = model.New(x.o)
	x.m.Parse("")
	x.f.NameMapper = x.mapper.lib
	x.g = &fileGen{c: c, r: r, f: x.f, m: x.m, mapper: x.mapper.oracle, rate: core.Pick(r, []float64{0.3, 0.8}), wrong: 0.3}
	from := mapFrom{file: true}
	switch r.N(5) {
	case 0, 1:
		from = mapFrom{sec: core.Pick(r, []string{"root", "par.root", "par.sec.sub", "Root"})}
	case 2:
		if x.o.AllowNonUniqueSections {
			from = mapFrom{sec: core.Pick(r, []string{"root", "item"}), list: true}
		}
	}
	tt := x.t
	if from.list {
		tt = reflect.SliceOf(reflect.PointerTo(x.t))
		c.Count("of-section-list")
	} else if from.file {
		c.Count("of-file")
	} else {
		c.Count("of-section")
	}
	if from.list && clean && hasSections(x.t) {
		// sections within repeated sections are not repeated
		clean = false
	}
	if !clean {
		c.Count("filled-file")
		x.build(mapFrom{sec: from.sec, list: from.list && r.P(0.5)})
		for _, s := range x.m.Secs {
			for i, k := range s.Keys {
				if len(x.m.ByName(s.Name)) != 1 {
					break
				}
				rk := x.f.Section(s.Name).Keys()[i]
				if r.P(0.2) {
					rk.Comment, k.Comment = "; before", "; before"
				}
			}
		}
	} else if r.P(0.3) {
		x.g.put(x.g.section("", false), "another key", "kept")
	}
	if !from.file {
		x.g.section(from.sec, false)
	}
	fl := &filler{r: r, c: c, rate: core.Pick(r, []float64{0.4, 0.8, 1}), round: true, nils: !clean, unique: !from.list, shadows: x.o.AllowShadows, dups: x.o.AllowDuplicateShadowValues, item: func(d string) string { return plainItem(r, d) },
		str: func() string {
			for {
				v := core.Pick(r, words)
				if r.P(0.4) {
					v = hostileValue(c)
				}
				if expressible(v) && !strings.Contains(v, "%(") {
					countValue(c, v)
					return v
				}
			}
		}}
	v := reflect.New(tt).Elem()
	if from.list {
		n := r.Range(0, 3)
		fl.unique = n < 2
		v.Set(reflect.MakeSlice(tt, 0, n))
		for i := 0; i < n; i++ {
			p := reflect.New(x.t)
			fl.fields(p.Elem(), 0)
			if !clean && r.P(0.2) {
				p = reflect.Zero(reflect.PointerTo(x.t))
			}
			v.Set(reflect.Append(v, p))
		}
	} else {
		fl.unique = true
		fl.fields(v, 0)
	}
	orig := dump(v, false)
	c.Logf("value: %s", orig)

	o := &reflOracle{c: c, m: x.m, f: x.f, mapper: x.mapper.oracle}
	var err error
	switch {
	case from.list:
		err = x.f.Section(from.sec).ReflectFrom(v.Interface())
		x.m.Delete(from.sec)
		for i := 0; i < v.Len() && !o.err; i++ {
			if !v.Index(i).IsNil() {
				s, _ := x.m.NewSection(from.sec)
				o.structVal(s, v.Index(i).Elem())
			}
		}
	case from.file:
		p := v.Addr().Interface()
		switch n := r.N(3); {
		case n == 0 || n == 2 && x.mapper.lib != nil:
			err = x.f.ReflectFrom(p)
		case n == 1:
			x.f.NameMapper = nil
			err = ini.ReflectFromWithMapper(x.f, p, x.mapper.lib)
		default:
			err = ini.ReflectFrom(x.f, p)
		}
		o.structVal(x.m.Section(""), v)
	default:
		err = x.f.Section(from.sec).ReflectFrom(v.Addr().Interface())
		if x.o.AllowNonUniqueSections {
			x.m.Delete(from.sec)
		}
		o.structVal(x.m.Section(from.sec), v)
	}
	c.Eq("reflected struct", dump(v, false), orig)
	if o.err {
		c.True(err != nil, "ReflectFrom of a struct with a field that cannot be reflected gives no error")
		c.Trivial = true
		return
	}
	if err != nil {
		c.Failf("ReflectFrom: %v", err)
	}
	snap := Snap(x.f)
	c.Eq("file after ReflectFrom", snap, SnapModel(x.m))
	c.Observe(snap)
	c.Trivial = o.stored < 2

	// Mapping it back.
	mt := tt
	if from.list && r.P(0.5) {
		mt = reflect.SliceOf(x.t)
	}
	fresh := reflect.New(mt).Elem()
	want := reflect.New(mt).Elem()
	if from.list && len(x.m.ByName(from.sec)) == 0 {
		return // no section to map from
	}
	mo := x.expect(from, want)
	if clean {
		cp := deepCopy(v)
		clearSelf(cp)
		if mt != tt {
			for i := 0; i < cp.Len(); i++ {
				want.Index(i).Set(cp.Index(i).Elem())
			}
			// mapping gave as many elements as there are values
			c.True(want.Len() == cp.Len(), "%d elements, want %d", want.Len(), cp.Len())
		} else {
			want.Set(cp)
		}
		mo.open, mo.hardErr = false, false
	}
	if mo.open || mo.hardErr {
		c.Count("open")
		return
	}
	wantText := dump(want, true)
	if err := x.run(from, fresh, false, nil); err != nil {
		c.Failf("MapTo: %v", err)
	}
	c.Eq("struct after reflecting and mapping", dump(fresh, true), wantText)
	if clean {
		c.Count("round-trip")
	}
	if !mo.strictErr {
		fresh = reflect.New(mt).Elem()
		if err := x.run(from, fresh, true, nil); err != nil {
			c.Failf("StrictMapTo: %v", err)
		}
		c.Eq("struct after reflecting and mapping strictly", dump(fresh, true), wantText)
		if clean {
			c.Count("round-trip-strict")
		}
	} else {
		c.Count("lax-only")
	}
	c.Eq("file after mapping", Snap(x.f), snap)
	if !clean || r.P(0.4) {
		return
	}
	fm := anyFormat(r)
	fm.LineBreak = "\n"
	if x.o.AllowNonUniqueSections {
		fm.DefaultHeader = false
	}
	setFormat(fm)
	defer setFormat(stdFormat())
	text := x.text()
	c.Logf("written: %q", text)
	f2, err := ini.LoadSources(x.o, text)
	if err != nil {
		c.Failf("loading the written file: %v", err)
	}
	f2.NameMapper = x.mapper.lib
	x.f = f2
	fresh = reflect.New(mt).Elem()
	if err := x.run(from, fresh, false, nil); err != nil {
		c.Failf("MapTo after writing and loading: %v", err)
	}
	c.Eq("struct after reflecting, writing, loading and mapping", dump(fresh, true), wantText)
	c.Count("round-trip-text")
}

func hasSections(t reflect.Type) bool {
	for i := 0; i < t.NumField(); i++ {
		ft := t.Field(i).Type
		tag := readTag(t.Field(i))
		if ft.Kind() == reflect.Slice {
			ft = ft.Elem()
		}
		ft = deref(ft)
		if ft.Kind() == reflect.Struct && !ft.ConvertibleTo(timeType) && !isSelf(ft) && !tag.skip {
			if !tag.extends_ || !t.Field(i).Anonymous || hasSections(ft) {
				return true
			}
		}
	}
	return false
}

func badSources(c *core.Case) {
	r := c.R
	var nilPtr *someStruct
	ps := &someStruct{A: 1}
	cyc := &recNode{V: 1}
	cyc.Next = cyc
	cyc2 := &recPtrs{V: 1}
	cyc2.Kids = []*recPtrs{{V: 2}, cyc2}
	cyc3 := &RecExt{A: 1}
	cyc3.RecExt = cyc3
	ab := &recA{X: "x", B: &recB{}}
	ab.B.A = ab
	n, m := 1, map[string]int{}
	type bad struct {
		what string
		v    any
		err  bool
	}
	l := []bad{
		{"nil", nil, true}, {"struct", *ps, true}, {"nil pointer", nilPtr, true}, {"int", n, true}, {"*int", &n, true}, {"map", m, true}, {"*map", &m, true},
		{"string", "x", true}, {"[]int", []int{1}, true}, {"*[]int", &[]int{1}, true}, {"func", func() {}, true}, {"chan", make(chan int), true},
		{"[]struct", []someStruct{{}}, true}, {"[]*int", []*int{&n}, true}, {"*nil pointer", &nilPtr, true},
		{"ring", cyc, true}, {"ring in a list", cyc2, true}, {"ring of embedded", cyc3, true}, {"ring of two", ab, true},
		{"chain", &recNode{V: 1, Next: &recNode{V: 2}}, false}, {"refusing", &struct {
			A int
			E selfErr
			B int
		}{}, true},
		{"list of structs", &struct{ L []someStruct }{[]someStruct{{}}}, true},
		{"nil interface", &struct{ L any }{}, true}, {"map field", &struct{ L map[string]string }{map[string]string{"a": "b"}}, true},
		{"pointer to pointer to struct", &struct{ L **someStruct }{&ps}, true},
		{"self pointer nil", &struct {
			S *selfPtr
			A int
		}{nil, 3}, false},
	}
	i := (c.Idx / 50) % len(l)
	b := l[i]
	for _, name := range []string{"", "s"} {
		o := structOptions(r)
		f, err := ini.LoadSources(o, []byte("A = 0\n[s]\nA = 0\n[keep]\nk = v\n"))
		must(err)
		c.Logf("%s into %q, options %s", b.what, name, optText(o))
		err = f.Section(name).ReflectFrom(b.v)
		want := b.err
		if name != "" && b.v != nil && o.AllowNonUniqueSections && reflect.TypeOf(b.v).Kind() == reflect.Slice && reflect.ValueOf(b.v).Len() == 0 {
			want = false
		}
		if strings.HasSuffix(b.what, "map") || b.what == "nil interface" {
			// may be refused or skipped
			want = err != nil
		}
		c.True((err != nil) == want, "ReflectFrom of %s gives %v, want an error: %v", b.what, err, want)
		c.Eq("other section", f.Section("keep").Key("k").Value(), "v")
		if b.what == "self pointer nil" {
			c.Eq("field after a nil pointer", f.Section(name).Key("A").Value(), "3")
		}
	}
	c.Count("bad-source")
	c.Observe(b.what)
}
