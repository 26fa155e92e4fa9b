package props

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"
	"unsafe"

	"github.com/go-ini/ini"

	"verif/harness/internal/core"
	"verif/harness/internal/model"
)

// Named types of every supported kind.
type (
	nString   string
	nBool     bool
	nInt      int
	nInt8     int8
	nInt64    int64
	nUint     uint
	nUint16   uint16
	nFloat    float64
	nFloat32  float32
	nTime     time.Time
	nStrings  []string
	nInts     []nInt
	nTimes    []time.Time
	nDuration time.Duration

	// Duration has the name of the standard type, but is smaller.
	Duration int32
)

func tOf[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

var (
	timeType = tOf[time.Time]()
	durType  = tOf[time.Duration]()

	scalarTypes = []reflect.Type{
		tOf[string](), tOf[string](), tOf[string](), tOf[bool](), tOf[int](), tOf[int](), tOf[int8](), tOf[int16](), tOf[int32](), tOf[int64](),
		tOf[uint](), tOf[uint16](), tOf[uint32](), tOf[uint64](), tOf[float32](), tOf[float64](), durType, durType, timeType, timeType,
		tOf[nString](), tOf[nBool](), tOf[nInt](), tOf[nInt8](), tOf[nInt64](), tOf[nUint](), tOf[nUint16](), tOf[nFloat](), tOf[nFloat32](), tOf[nDuration](), tOf[Duration](),
	}
	listTypes = []reflect.Type{
		tOf[[]string](), tOf[[]string](), tOf[[]int](), tOf[[]int](), tOf[[]int64](), tOf[[]uint](), tOf[[]uint64](), tOf[[]float64](), tOf[[]bool](), tOf[[]time.Time](),
		tOf[nStrings](), tOf[nInts](), tOf[nTimes](), tOf[[]nString](), tOf[[]nFloat](), tOf[[]nBool](), tOf[[]nTime](),
	}
	badTypes = []reflect.Type{
		tOf[map[string]string](), tOf[[2]int](), tOf[chan int](), tOf[func()](), tOf[any](), tOf[complex128](), tOf[uint8](),
		tOf[[]int8](), tOf[[]float32](), tOf[[]byte](), tOf[[][]string](), tOf[[]*int](), tOf[*[]int](), tOf[**int](), tOf[[]struct{ A int }](), tOf[[]any](), tOf[[]map[string]int](), tOf[uintptr](), tOf[error](),
	}
)

// tagInfo is what an ini tag says.
type tagInfo struct {
	skip                                   bool
	name                                   string
	omitempty, shadow, nonunique, extends_ bool
	delim, comment                         string
}

func readTag(f reflect.StructField) (t tagInfo) {
	raw := f.Tag.Get("ini")
	if raw == "-" {
		return tagInfo{skip: true}
	}
	for i, p := range strings.Split(raw, ",") {
		switch {
		case i == 0:
			t.name = p
		case p == "omitempty":
			t.omitempty = true
		case p == "allowshadow":
			t.shadow = true
		case p == "nonunique":
			t.nonunique = true
		case p == "extends":
			t.extends_ = true
		}
	}
	t.delim = f.Tag.Get("delim")
	if t.delim == "" {
		t.delim = ","
	}
	t.comment = f.Tag.Get("comment")
	return t
}

// mapperSpec is a name mapper and the oracle's own version of it.
type mapperSpec struct {
	name   string
	lib    ini.NameMapper
	oracle func(string) string
}

func upperWords(s string, conv func(r rune, upper bool) rune) string {
	var b strings.Builder
	for i, r := range s {
		up := strings.ContainsRune("ABCDEFGHIJKLMNOPQRSTUVWXYZ", r)
		if up && i != 0 {
			b.WriteByte('_')
		}
		b.WriteRune(conv(r, up))
	}
	return b.String()
}

var mappers = []mapperSpec{
	{"none", nil, func(s string) string { return s }},
	{"SnackCase", ini.SnackCase, func(s string) string {
		return upperWords(s, func(r rune, _ bool) rune { return unicode.ToUpper(r) })
	}},
	{"TitleUnderscore", ini.TitleUnderscore, func(s string) string {
		return upperWords(s, func(r rune, up bool) rune {
			if up {
				return unicode.ToLower(r)
			}
			return r
		})
	}},
	{"lower", strings.ToLower, strings.ToLower},
	{"prefix", func(s string) string { return "p." + s }, func(s string) string { return "p." + s }},
	{"partial", partial, partial},
}

// partial names some fields and leaves others without a name.
func partial(s string) string {
	if strings.HasPrefix(s, "A") {
		return ""
	}
	return s
}

// typeGen draws struct types.
type typeGen struct {
	r         *rnd
	c         *core.Case
	n         int
	names     []string // tag names given so far
	reuse     bool     // names may collide
	bad       float64  // rate of unsupported field types
	reflectOK bool     // only what reflection can represent
	small     bool     // few names
	selves    bool     // self-reflecting fields
	noLists   bool     // no repeated sections
	spaced    bool     // gave a name that starts or ends in white space
}

func (g *typeGen) goName() string {
	g.n++
	if g.r.P(0.35) {
		// a capital and any other letters
		var b strings.Builder
		b.WriteRune(core.Pick(g.r, []rune("ABCHXÜЖ")))
		for i := g.r.N(24); i > 0; i-- {
			b.WriteRune(core.Pick(g.r, []rune("abcxyzABCDXYZABC_09éÄж")))
		}
		return fmt.Sprintf("%s%d", b.String(), g.n)
	}
	return fmt.Sprintf("%s%d", core.Pick(g.r, []string{"Alpha", "B", "HTTPPort", "X_y", "Ünit", "Name", "Ab", "DBName", "Z"}), g.n)
}

func (g *typeGen) tagName(pool []string) string {
	if g.small {
		return core.Pick(g.r, []string{"k", "x", "par", "par.sec", "par.sec.sub", "y", "root"})
	}
	if g.reuse && len(g.names) > 0 && g.r.P(0.12) {
		g.c.Count("reused-name")
		return core.Pick(g.r, g.names)
	}
	g.n++
	n := fmt.Sprintf("%s%d", core.Pick(g.r, pool), g.n)
	g.names = append(g.names, n)
	return n
}

var tagKeyNames = []string{"k", "Key", "name x", "x.y", "ключ", "long_name_", "a=b", "q'", "#h", "К", "-", "_", "0", ".k"}

func (g *typeGen) tag(name string, opts ...string) string {
	r := g.r
	for q := 0.12; len(opts) < 4 && r.P(q); q = 0.6 {
		opts = append(opts, core.Pick(r, []string{"", "unknown", "OmitEmpty", "string"}))
	}
	r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	v := strings.Join(append([]string{name}, opts...), ",")
	if v == "" && r.P(0.8) {
		return ""
	}
	return `ini:` + strconv.Quote(v)
}

func join(parts ...string) reflect.StructTag {
	var out []string
	for _, p := range parts {
		if p != "" {
			out = append(out, p)
		}
	}
	return reflect.StructTag(strings.Join(out, " "))
}

var listDelims = []string{",", "|", ";", "::", " ", ", ", "→", "/", "=", ",", "ab", "<é>"}

// structType draws a type. inList is for elements of repeated sections.
func (g *typeGen) structType(depth int, inList bool) reflect.Type {
	r := g.r
	n := core.PickW(r, []core.W[int]{{1, 0}, {3, 1}, {4, 2}, {4, 3}, {3, 5}, {1, 9}})
	if depth == 0 && n < 2 {
		n = 3
	}
	if depth == 0 && r.P(0.002) {
		g.c.Count("many-fields")
		n = r.Range(40, 150)
	}
	var fields []reflect.StructField
	for i := 0; i < n; i++ {
		fields = append(fields, g.field(depth, inList))
	}
	return reflect.StructOf(fields)
}

func (g *typeGen) field(depth int, inList bool) reflect.StructField {
	r := g.r
	f := reflect.StructField{Name: g.goName()}
	var opts []string
	if r.P(0.25) {
		opts = append(opts, "omitempty")
	}
	kname := func() string {
		if r.P(0.5) {
			if !g.reflectOK && r.P(0.04) {
				g.c.Count("spaced-name")
				g.spaced = true
				return g.tagName([]string{" s", "\ts", "\u00a0s", "  "}) + core.Pick(r, []string{"", "", " ", "\t"})
			}
			return g.tagName(tagKeyNames)
		}
		return ""
	}
	sname := func() string {
		if r.P(0.6) {
			return g.tagName([]string{"sec", "par.sec", "par.sec.sub", "Sec", "par", "s s", "a-b.", "-", "."})
		}
		return ""
	}
	comment := ""
	if r.P(0.3) {
		comment = `comment:` + strconv.Quote(core.Pick(r, []string{"a comment", "; a comment", "# line one\nline two", " padded ", "x", "`", "\"quoted\"", "kommentár"}))
	}
	kind := core.PickW(r, []core.W[int]{{30, 0}, {9, 1}, {12, 2}, {2, 3}, {2, 4}, {6, 5}, {5, 6}, {2, 7}, {5, 8}, {5, 9}})
	if kind >= 5 && depth >= 3 {
		kind = r.N(2)
	}
	if kind == 3 && r.P(1-g.bad) {
		kind = 0
	}
	if g.reflectOK && inList && kind >= 5 && kind != 8 {
		kind = 1
	}
	if kind == 9 && g.noLists {
		kind = 2
	}
	if g.selves && r.P(0.04) {
		f.Type = core.Pick(r, selfTypes)
		if inList {
			f.Type = selfTypes[0]
		}
		if g.bad > 0 && r.P(0.2) {
			f.Type = selfErrT
		}
		f.Tag = join(g.tag(kname(), opts...))
		return f
	}
	if kind <= 1 && r.P(0.06) {
		// Options that say nothing about such a field.
		g.c.Count("idle-option")
		opts = append(opts, core.Pick(r, []string{"allowshadow", "nonunique", "nonunique", "extends"}))
	}
	switch kind {
	case 0:
		f.Type = core.Pick(r, scalarTypes)
		f.Tag = join(g.tag(kname(), opts...), comment)
	case 1:
		f.Type = reflect.PointerTo(core.Pick(r, scalarTypes))
		f.Tag = join(g.tag(kname(), opts...), comment)
	case 2:
		f.Type = core.Pick(r, listTypes)
		d := ""
		if r.P(0.5) {
			d = `delim:` + strconv.Quote(core.Pick(r, listDelims))
		}
		if r.P(0.35) {
			opts = append(opts, "allowshadow")
		}
		f.Tag = join(comment, g.tag(kname(), opts...), d)
	case 3:
		f.Type = core.Pick(r, badTypes)
		f.Tag = join(g.tag(kname(), opts...))
	case 4:
		if r.P(0.5) {
			f.Name = "x" + f.Name
			f.PkgPath = "verif"
			f.Type = core.Pick(r, []reflect.Type{tOf[string](), tOf[int](), tOf[bool](), tOf[*int](), tOf[[]string](), tOf[struct{ A int }]()})
			f.Tag = join(g.tag(kname(), opts...))
		} else {
			f.Type = core.Pick(r, append(append([]reflect.Type{}, scalarTypes...), badTypes...))
			f.Tag = `ini:"-"`
		}
	case 5, 6:
		f.Type = g.structType(depth+1, inList)
		if kind == 6 {
			f.Type = reflect.PointerTo(f.Type)
		}
		f.Tag = join(g.tag(sname(), opts...), comment)
		if r.P(0.1) {
			f.Anonymous = true
		}
	case 7: // extends without being embedded does not extend
		f.Type = g.structType(depth+1, inList)
		if r.P(0.4) {
			f.Type = reflect.PointerTo(f.Type)
		}
		f.Tag = join(g.tag(sname(), append(opts, "extends")...), comment)
	case 8:
		f.Type = g.structType(depth+1, inList)
		if r.P(0.5) {
			f.Type = reflect.PointerTo(f.Type)
		}
		f.Anonymous = true
		name := ""
		if r.P(0.4) && !g.reflectOK {
			name = g.tagName([]string{"ext", "Ext"})
		}
		f.Tag = join(g.tag(name, append(opts, "extends")...), comment)
	case 9:
		f.Type = g.structType(depth+1, true)
		if r.P(0.5) {
			f.Type = reflect.PointerTo(f.Type)
		}
		f.Type = reflect.SliceOf(f.Type)
		f.Tag = join(g.tag(sname(), append(opts, "nonunique")...), comment)
	}
	return f
}

// showType renders a type with its tags.
func showType(t reflect.Type) string { return t.String() }

// dumpVal renders a value completely. With norm, empty and nil lists are the same.
func dumpVal(b *strings.Builder, v reflect.Value, norm bool, depth int) {
	if depth > 40 {
		b.WriteString("...")
		return
	}
	if t := v.Type(); t.Kind() == reflect.Struct && t.ConvertibleTo(timeType) {
		if v.CanInterface() {
			tm := v.Convert(timeType).Interface().(time.Time)
			_, off := tm.Zone()
			fmt.Fprintf(b, "time(%s %d)", tm.Format(time.RFC3339Nano), off)
		}
		return
	}
	switch v.Kind() {
	case reflect.String:
		b.WriteString(strconv.Quote(v.String()))
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(b, v.Uint())
	case reflect.Float32, reflect.Float64:
		if f := v.Float(); math.IsNaN(f) {
			b.WriteString("NaN")
		} else {
			fmt.Fprintf(b, "%x", f)
		}
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteByte('&')
		dumpVal(b, v.Elem(), norm, depth+1)
	case reflect.Slice:
		if v.IsNil() && !norm {
			b.WriteString("nil")
			return
		}
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteByte(' ')
			}
			dumpVal(b, v.Index(i), norm, depth+1)
		}
		b.WriteByte(']')
	case reflect.Array:
		b.WriteByte('<')
		for i := 0; i < v.Len(); i++ {
			dumpVal(b, v.Index(i), norm, depth+1)
			b.WriteByte(' ')
		}
		b.WriteByte('>')
	case reflect.Struct:
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			fmt.Fprintf(b, "\n%s%s: ", strings.Repeat(" ", depth+1), v.Type().Field(i).Name)
			dumpVal(b, v.Field(i), norm, depth+1)
		}
		b.WriteByte('}')
	case reflect.Map:
		fmt.Fprintf(b, "map%d", v.Len())
	case reflect.Complex128:
		fmt.Fprint(b, v.Complex())
	default:
		fmt.Fprintf(b, "%s(nil=%v)", v.Kind(), v.IsNil())
	}
}

func dump(v reflect.Value, norm bool) string {
	var b strings.Builder
	dumpVal(&b, v, norm, 0)
	return b.String()
}

// deepCopy gives an independent copy of an addressable value.
func deepCopy(v reflect.Value) reflect.Value {
	n := reflect.New(v.Type()).Elem()
	n.Set(v)
	unshare(n)
	return n
}

func unshare(v reflect.Value) {
	if !v.CanSet() {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			p := reflect.New(v.Type().Elem())
			p.Elem().Set(v.Elem())
			unshare(p.Elem())
			v.Set(p)
		}
	case reflect.Slice:
		if !v.IsNil() {
			s := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
			reflect.Copy(s, v)
			for i := 0; i < s.Len(); i++ {
				unshare(s.Index(i))
			}
			v.Set(s)
		}
	case reflect.Struct:
		if v.Type().ConvertibleTo(timeType) {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			unshare(v.Field(i))
		}
	}
}

// fill gives fields values. strs draws strings, item strings in lists.
type filler struct {
	r       *rnd
	c       *core.Case
	rate    float64 // of fields that get a value
	str     func() string
	item    func(delim string) string
	round   bool // values have to survive reflecting and mapping
	shadows bool
	dups    bool
	unique  bool
	nils    bool // lists of sections with nil in them
}

func (g *filler) time() time.Time {
	t := anyTime(g.r)
	if g.round || g.r.P(0.5) {
		t = t.Truncate(time.Second)
		_, off := t.Zone()
		t = t.In(time.FixedZone("", off/60*60))
		if y := t.Year(); y < 1 || y > 9999 {
			t = time.Date(2020, 2, 29, 23, 59, 59, 0, time.UTC)
		}
		if t.IsZero() {
			t = time.Time{}
		}
	}
	return t
}

func (g *filler) value(v reflect.Value, tag tagInfo, depth int) {
	r := g.r
	if v.Kind() == reflect.Struct && v.Type().ConvertibleTo(timeType) {
		v.Set(reflect.ValueOf(g.time()).Convert(v.Type()))
		return
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString(g.str())
	case reflect.Bool:
		v.SetBool(r.P(0.6))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		bits := v.Type().Bits()
		n := core.PickW(r, []core.W[int64]{{2, 0}, {4, int64(r.Range(-100, 100))}, {2, int64(r.Uint64()) >> (64 - bits)}, {1, int64(1)<<(bits-1) - 1}, {1, -1 << (bits - 1)}})
		v.SetInt(n)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		bits := v.Type().Bits()
		n := core.PickW(r, []core.W[uint64]{{2, 0}, {4, uint64(r.N(100))}, {2, r.Uint64() >> (64 - bits)}, {1, math.MaxUint64 >> (64 - bits)}})
		v.SetUint(n)
	case reflect.Float32, reflect.Float64:
		f := core.PickW(r, []core.W[float64]{{2, 0}, {4, r.NormFloat64() * 100}, {2, math.Float64frombits(r.Uint64())}, {1, float64(r.Range(-5, 5))}, {1, core.Pick(r, []float64{math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, 5e-324, 1e21, 1e-5, math.Copysign(0, -1)})}})
		if v.Kind() == reflect.Float32 {
			f = float64(float32(f))
		}
		if g.round && f == 0 {
			f = 0
		}
		v.SetFloat(f)
	case reflect.Ptr:
		if depth > 12 {
			return
		}
		if v.Type().Elem().Kind() == reflect.Struct && !v.Type().Elem().ConvertibleTo(timeType) || !r.P(0.1) {
			p := reflect.New(v.Type().Elem())
			g.value(p.Elem(), tag, depth+1)
			v.Set(p)
		}
	case reflect.Slice:
		g.list(v, tag, depth)
	case reflect.Struct:
		g.fields(v, depth)
	case reflect.Map:
		if r.P(0.5) {
			v.Set(reflect.MakeMap(v.Type()))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			g.value(v.Index(i), tag, depth+1)
		}
	case reflect.Complex128:
		v.SetComplex(complex(r.NormFloat64(), 1))
	}
}

func (g *filler) list(v reflect.Value, tag tagInfo, depth int) {
	r := g.r
	et := v.Type().Elem()
	base := et
	if base.Kind() == reflect.Ptr {
		base = base.Elem()
	}
	n := core.PickW(r, []core.W[int]{{1, 0}, {3, 1}, {3, 2}, {2, 4}})
	if r.P(0.003) {
		n = r.Range(40, 200)
	}
	if depth > 6 {
		n = 0
	}
	if base.Kind() == reflect.Struct && !base.ConvertibleTo(timeType) && !g.unique {
		n = 0
	}
	s := reflect.MakeSlice(v.Type(), n, n+r.N(3))
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		e := s.Index(i)
		if e.Kind() == reflect.String {
			e.SetString(g.item(tag.delim))
		} else {
			if e.Kind() == reflect.Ptr && base.Kind() == reflect.Struct && (g.nils || !g.round) && r.P(0.15) {
				g.c.Count("nil-element")
				continue
			}
			g.value(e, tag, depth+1)
			for e.Kind() == reflect.Ptr && e.IsNil() && g.round && base.Kind() == reflect.Struct {
				g.value(e, tag, depth+1)
			}
		}
		if g.round && tag.shadow && g.shadows && !g.dups {
			// equal shadows are kept once
			d := dump(e, true)
			if e.Type().ConvertibleTo(timeType) {
				d = e.Convert(timeType).Interface().(time.Time).Format(time.RFC3339)
			}
			if seen[d] {
				s = s.Slice(0, i)
				break
			}
			seen[d] = true
		}
	}
	v.Set(s)
}

func (g *filler) fields(v reflect.Value, depth int) {
	t := v.Type()
	for i := 0; i < v.NumField(); i++ {
		f, sf := v.Field(i), t.Field(i)
		tag := readTag(sf)
		if !f.CanSet() {
			// unexported: set behind reflect's back
			f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			if g.r.P(0.7) {
				switch f.Kind() {
				case reflect.Int:
					f.SetInt(int64(g.r.N(50)))
				case reflect.String:
					f.SetString("hidden")
				case reflect.Bool:
					f.SetBool(true)
				}
			}
			continue
		}
		need := g.round && tag.extends_ && sf.Anonymous && f.Kind() == reflect.Ptr ||
			g.round && f.Kind() == reflect.Ptr && f.Type().Elem().Kind() == reflect.String && !tag.omitempty
		isStruct := f.Kind() == reflect.Struct && !f.Type().ConvertibleTo(timeType)
		if need || isStruct || g.r.P(g.rate) {
			g.value(f, tag, depth+1)
			for need && depth <= 11 && f.IsNil() {
				g.value(f, tag, depth+1)
			}
		}
	}
}

// mapOracle computes what mapping gives.
type mapOracle struct {
	m      *model.File
	mapper func(string) string
	cov    map[string]int
	// made counts the elements of lists; beyond the limit huge is called,
	// which does not return.
	made int
	huge func()
	// strictErr: some text does not convert; hardErr: an unsupported type has
	// content; open: the outcome is not specified.
	strictErr, hardErr, open bool
	errs                     []string
	set                      int
}

type mapPath struct {
	sec   string
	typ   reflect.Type
	outer *mapPath
}

func (p *mapPath) has(sec string, t reflect.Type) bool {
	for ; p != nil; p = p.outer {
		if p.sec == sec && p.typ == t {
			return true
		}
	}
	return false
}

func deref(t reflect.Type) reflect.Type {
	if t.Kind() == reflect.Ptr {
		return t.Elem()
	}
	return t
}

func (o *mapOracle) count(s string) { o.cov[s]++ }

func (o *mapOracle) fieldName(sf reflect.StructField, tag tagInfo) string {
	if tag.name != "" {
		return tag.name
	}
	return o.mapper(sf.Name)
}

func (o *mapOracle) structVal(s *model.Sec, v reflect.Value, idx int, outer *mapPath) {
	t := v.Type()
	path := &mapPath{s.Name, t, outer}
	for i := 0; i < t.NumField(); i++ {
		f, sf := v.Field(i), t.Field(i)
		tag := readTag(sf)
		if tag.skip {
			o.count("field-skipped")
			continue
		}
		if !f.CanSet() {
			o.count("field-unexported")
			continue
		}
		name := o.fieldName(sf, tag)
		if name == "" {
			o.count("field-unnamed")
			continue
		}
		st := deref(sf.Type)
		isPtr := sf.Type.Kind() == reflect.Ptr
		if st.Kind() == reflect.Struct && tag.extends_ && sf.Anonymous {
			fs := s
			if tag.name != "" {
				o.count("extends-named")
				if l := o.m.ByName(s.Name + o.m.Opt.ChildSectionDelimiter + tag.name); idx < len(l) {
					fs = l[idx]
					o.count("extends-child-section")
				}
			} else {
				o.count("extends")
			}
			if path.has(fs.Name, st) {
				o.count("recursion-ends")
			} else {
				if isPtr {
					if f.IsNil() {
						f.Set(reflect.New(st))
					}
					o.structVal(fs, f.Elem(), idx, path)
				} else {
					o.structVal(fs, f, idx, path)
				}
			}
			if s.GetKey(name) != nil {
				o.open = true // a key named like the embedded type
			}
			continue
		}
		if st.Kind() == reflect.Struct {
			if l := o.m.ByName(name); len(l) > 0 {
				if idx >= len(l) {
					o.open = true
					continue
				}
				if path.has(l[idx].Name, st) {
					o.count("recursion-ends")
					continue
				}
				o.count("section-field")
				if idx > 0 {
					o.count("section-field-indexed")
				}
				if isPtr {
					o.count("section-pointer-set")
					if f.IsNil() {
						f.Set(reflect.New(st))
					}
					f = f.Elem()
				}
				if st.ConvertibleTo(timeType) {
					o.open = true
					continue
				}
				o.structVal(l[idx], f, idx, path)
				continue
			}
			if isPtr && !st.ConvertibleTo(timeType) {
				o.count("section-pointer-left")
			}
		}
		if tag.nonunique && sf.Type.Kind() == reflect.Slice {
			o.sectionList(name, f, path)
			continue
		}
		k := s.GetKey(name)
		if k == nil {
			o.count("no-key")
			continue
		}
		if k.S != s {
			o.count("inherited")
		}
		o.key(k, f, sf.Type, tag)
	}
}

func (o *mapOracle) sectionList(name string, f reflect.Value, path *mapPath) {
	l := o.m.ByName(name)
	if len(l) == 0 {
		o.count("list-no-section")
		return
	}
	et := f.Type().Elem()
	if deref(et).Kind() != reflect.Struct || et.Kind() == reflect.Ptr && et.Elem().Kind() == reflect.Ptr {
		o.hardErr = true
		return
	}
	if path.has(l[0].Name, deref(et)) {
		return
	}
	if len(l) > 1 {
		o.count("list-several-sections")
	}
	for i, s := range l {
		if o.made++; o.made > maxElements {
			o.huge()
		}
		e := reflect.New(et).Elem()
		in := e
		if et.Kind() == reflect.Ptr {
			e.Set(reflect.New(et.Elem()))
			in = e.Elem()
		}
		o.structVal(s, in, i, path)
		f.Set(reflect.Append(f, e))
	}
	o.count("section-list")
}

// Each section of a list holds all the sections of a list within it, so that
// the elements multiply.
const maxElements = 50000

const expandLimit = 1 << 20

func (o *mapOracle) text(k *model.Key) string {
	v, steps, _ := k.Expand(k.Value, expandLimit)
	if steps > 0 {
		o.count("expanded")
	}
	return v
}

func (o *mapOracle) bad(what string) {
	o.strictErr = true
	o.count("invalid")
	o.count("invalid-" + what)
	o.errs = append(o.errs, what)
}

func (o *mapOracle) key(k *model.Key, f reflect.Value, t reflect.Type, tag tagInfo) {
	if t.Kind() == reflect.Slice {
		o.list(k, f, t, tag)
		return
	}
	vt := deref(t)
	if !isScalar(vt) {
		if vt.Kind() == reflect.Struct {
			o.open = true
			return
		}
		if o.text(k) == "" {
			o.open = true
		} else {
			o.hardErr = true
			o.count("unsupported")
		}
		return
	}
	s := o.text(k)
	v, ok := convert(s, vt)
	if !ok {
		o.bad(vt.Kind().String())
		return
	}
	if t.Kind() == reflect.Ptr {
		p := reflect.New(vt)
		p.Elem().Set(v)
		f.Set(p)
		o.count("set-pointer")
	} else {
		if vt.Kind() == reflect.String && s == "" {
			o.count("empty-string-kept")
			return
		}
		f.Set(v)
	}
	o.set++
	o.count("set-" + vt.Kind().String())
	if vt == durType {
		o.count("set-duration")
	}
	if vt.PkgPath() != "" && vt != durType && vt != timeType {
		o.count("set-named")
	}
}

func isScalar(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.String, reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64:
		return true
	}
	return t.Kind() == reflect.Struct && t.ConvertibleTo(timeType)
}

// convert gives the value of the type a text stands for.
func convert(s string, t reflect.Type) (reflect.Value, bool) {
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.String:
		v.SetString(s)
	case reflect.Bool:
		b, ok := boolText(s)
		if !ok {
			return v, false
		}
		v.SetBool(b)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if t == durType || t.Name() == "Duration" {
			if d, err := time.ParseDuration(s); err == nil {
				v.SetInt(int64(d))
				return v, v.Int() == int64(d)
			}
		}
		n, err := strconv.ParseInt(s, 0, t.Bits())
		if err != nil {
			return v, false
		}
		v.SetInt(n)
	case reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n, err := strconv.ParseUint(s, 0, t.Bits())
		if err != nil {
			return v, false
		}
		v.SetUint(n)
	case reflect.Float32, reflect.Float64:
		n, err := strconv.ParseFloat(s, 64)
		if err != nil || t.Kind() == reflect.Float32 && math.Abs(n) > math.MaxFloat32 && !math.IsInf(n, 0) {
			return v, false
		}
		v.SetFloat(n)
	case reflect.Struct:
		tm, err := time.Parse(time.RFC3339, s)
		if err != nil {
			return v, false
		}
		v.Set(reflect.ValueOf(tm).Convert(t))
	}
	return v, true
}

func (o *mapOracle) list(k *model.Key, f reflect.Value, t reflect.Type, tag tagInfo) {
	var items []string
	any := false
	expand := func(v string) string {
		e, steps, _ := k.Expand(v, expandLimit)
		if steps > 0 {
			o.count("expanded")
		}
		if e != "" {
			any = true
		}
		return e
	}
	if tag.shadow {
		// split first and without escapes, then expand
		vals := k.Values()
		if len(vals) > 1 {
			o.count("list-shadows")
		}
		for _, v := range vals {
			for _, it := range strings.Split(v, tag.delim) {
				items = append(items, expand(strings.TrimSpace(it)))
			}
		}
	} else {
		e := expand(k.Value)
		if !utf8.ValidString(e) || overlaps(e, tag.delim) {
			o.open = true
		}
		items = splitModel(e, tag.delim)
	}
	et := t.Elem()
	if !isListElem(et) {
		if any {
			o.hardErr = true
			o.count("unsupported")
		} else {
			o.open = true
		}
		return
	}
	if len(items) == 0 {
		return
	}
	l := reflect.MakeSlice(t, 0, len(items))
	for _, it := range items {
		v, ok := convert(it, et)
		if et.Kind() == reflect.Int64 && et.Name() == "Duration" {
			// lists of durations are lists of numbers
			n, err := strconv.ParseInt(it, 0, 64)
			ok = err == nil
			v.SetInt(n)
		}
		if !ok {
			o.bad("list-item")
			v = reflect.Zero(et)
		}
		l = reflect.Append(l, v)
	}
	f.Set(l)
	o.set++
	o.count("set-list")
	if len(items) > 1 {
		o.count("set-list-several")
	}
}

func isListElem(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.String, reflect.Bool, reflect.Int, reflect.Int64, reflect.Uint, reflect.Uint64, reflect.Float64:
		return true
	}
	return t.Kind() == reflect.Struct && t.ConvertibleTo(timeType)
}
