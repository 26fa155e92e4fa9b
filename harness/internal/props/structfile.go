package props

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/go-ini/ini"

	"verif/harness/internal/core"
	"verif/harness/internal/model"
)

// fileGen builds a file that fits a type, in the library and in the model.
type fileGen struct {
	c      *core.Case
	r      *rnd
	f      *ini.File
	m      *model.File
	mapper func(string) string
	rate   float64 // of fields with a key or section
	wrong  float64 // of texts that may not fit
	keys   []fgKey // what was written for which type
	nref   int
	bounds int
}

type fgKey struct {
	m *model.Key
	f *ini.Key
	t reflect.Type
	// tag of the field it was written for
	tag tagInfo
}

type secPair struct {
	m *model.Sec
	f *ini.Section
}

func (g *fileGen) section(name string, fresh bool) secPair {
	if name == "" {
		name = model.Default
	}
	if !fresh || !g.m.Opt.AllowNonUniqueSections {
		if m := g.m.Get(name); m != nil {
			return secPair{m, g.f.Section(name)}
		}
	}
	m, e1 := g.m.NewSection(name)
	f, e2 := g.f.NewSection(name)
	must(e1)
	must(e2)
	g.c.Logf("section [%s]", name)
	return secPair{m, f}
}

func (g *fileGen) put(s secPair, name, val string) fgKey {
	mk, e1 := s.m.NewKey(name, val)
	fk, e2 := s.f.NewKey(name, val)
	must(e1)
	must(e2)
	g.c.Logf("[%s] %s = %q", s.m.Name, name, val)
	return fgKey{m: mk, f: fk}
}

// fits draws a text for a type: usually one that converts.
func (g *fileGen) fits(t reflect.Type) string {
	r := g.r
	if r.P(g.wrong) {
		s := scalarText(r)
		if strings.Contains(s, "%(") {
			return "?"
		}
		return s
	}
	v := reflect.New(t).Elem()
	fl := &filler{r: r, c: g.c, str: func() string { return core.Pick(r, words) }, round: r.P(0.6)}
	switch t.Kind() {
	case reflect.String:
		return core.Pick(r, words)
	case reflect.Bool:
		for {
			if w := boolWord(r); func() bool { _, ok := boolText(w); return ok }() {
				return w
			}
		}
	case reflect.Struct:
		if !t.ConvertibleTo(timeType) {
			return "v"
		}
		fl.value(v, tagInfo{}, 0)
		tm := v.Convert(timeType).Interface().(time.Time)
		if tm.Year() > 9999 || tm.Year() < 0 {
			tm = time.Unix(0, 0).UTC()
		}
		return tm.Format(core.PickW(r, []core.W[string]{{4, time.RFC3339}, {1, time.RFC3339Nano}}))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if (t == durType || t.Name() == "Duration") && r.P(0.7) {
			return durText(r)
		}
		fl.value(v, tagInfo{}, 0)
		n := v.Int()
		switch r.N(6) {
		case 0:
			if n >= 0 {
				return fmt.Sprintf(core.Pick(r, []string{"0x%x", "0%o", "0b%b", "+%d", "0o%o"}), n)
			}
		case 1: // just out of range
			if b := t.Bits(); b < 64 {
				g.bounds++
				return strconv.FormatInt(core.Pick(r, []int64{1<<(b-1) - 1, 1 << (b - 1), -1 << (b - 1), -1<<(b-1) - 1, 1 << b, 1<<b + 7}), 10)
			}
			return core.Pick(r, []string{"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809"})
		}
		return strconv.FormatInt(n, 10)
	case reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fl.value(v, tagInfo{}, 0)
		if r.N(6) == 0 {
			if b := t.Bits(); b < 64 {
				g.bounds++
				return strconv.FormatUint(core.Pick(r, []uint64{1<<b - 1, 1 << b, 1<<b + 5, 1 << 63}), 10)
			}
			return core.Pick(r, []string{"18446744073709551615", "18446744073709551616", "-1"})
		}
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.Float32, reflect.Float64:
		if r.P(0.3) {
			return floatText(r)
		}
		if t.Kind() == reflect.Float32 && r.P(0.15) {
			g.bounds++
			return core.Pick(r, []string{"3.4028234663852886e+38", "3.5e38", "-3.5e38", "1e39", "1e300", "Inf", "-Inf", "1e-50"})
		}
		fl.value(v, tagInfo{}, 0)
		return strconv.FormatFloat(v.Float(), 'g', -1, 64)
	}
	_ = math.Pi
	return core.Pick(r, []string{"x", "1", "1,2", "true", ""})
}

func (g *fileGen) text(t reflect.Type, tag tagInfo) string {
	r := g.r
	if t.Kind() == reflect.Slice {
		et := t.Elem()
		n := core.PickW(r, []core.W[int]{{1, 0}, {3, 1}, {4, 2}, {3, 4}, {1, 9}})
		var items []string
		for i := 0; i < n; i++ {
			it := g.fits(et)
			for !utf8.ValidString(it) {
				it = g.fits(et)
			}
			if !tag.shadow {
				it = strings.NewReplacer(`\`, `\\`, tag.delim, `\`+tag.delim).Replace(it)
			}
			if r.P(0.3) {
				it = pad(r) + it + pad(r)
			}
			items = append(items, it)
		}
		s := strings.Join(items, tag.delim)
		if r.P(0.1) {
			s += tag.delim
		}
		return s
	}
	return g.fits(deref(t))
}

// build writes keys and sections for the fields of a type.
func (g *fileGen) build(s secPair, t reflect.Type, depth int) {
	r := g.r
	if depth > 5 {
		return
	}
	for i := 0; i < t.NumField(); i++ {
		sf := t.Field(i)
		tag := readTag(sf)
		name := tag.name
		if name == "" {
			name = g.mapper(sf.Name)
		}
		if tag.skip {
			name = core.Pick(r, []string{sf.Name, "-"})
		}
		if name == "" || !r.P(g.rate) {
			continue
		}
		st := deref(sf.Type)
		if sf.Type.Kind() == reflect.Slice && tag.nonunique {
			et := deref(sf.Type.Elem())
			n := core.PickW(r, []core.W[int]{{1, 0}, {3, 1}, {4, 2}, {3, 3}, {1, 6}})
			for j := 0; j < n; j++ {
				p := g.section(name, true)
				if et.Kind() == reflect.Struct {
					g.build(p, et, depth+1)
				}
			}
			continue
		}
		if st.Kind() == reflect.Struct && !st.ConvertibleTo(timeType) {
			if tag.extends_ && sf.Anonymous {
				if tag.name != "" && r.P(0.7) {
					g.build(g.section(s.m.Name+g.m.Opt.ChildSectionDelimiter+tag.name, r.P(0.5)), st, depth+1)
				} else {
					g.build(s, st, depth+1)
				}
				continue
			}
			if g.m.Get(name) != nil && !r.P(0.3) {
				if l := g.m.ByName(name); len(l) > 3 {
					continue
				}
			}
			for n := core.PickW(r, []core.W[int]{{8, 1}, {2, 2}, {1, 3}}); n > 0; n-- {
				g.build(g.section(name, r.P(0.4)), st, depth+1)
			}
			continue
		}
		if tag.nonunique && r.P(0.5) {
			g.section(name, r.P(0.5))
		}
		to := s
		if a := parents(s.m.Name, g.m.Opt.ChildSectionDelimiter); len(a) > 0 && r.P(0.35) {
			to = g.section(core.Pick(r, a), false)
		}
		times := 1
		if r.P(0.3) && (g.m.Opt.AllowShadows || r.P(0.2)) {
			times = r.Range(2, 4)
		}
		for ; times > 0; times-- {
			v := g.text(sf.Type, tag)
			if r.P(0.12) && !strings.Contains(v, "%(") {
				g.nref++
				ref := fmt.Sprintf("ref%d", g.nref)
				in := s
				if r.P(0.5) {
					in = g.section("", false)
				}
				// split the text at the reference
				cut := r.N(len(v) + 1)
				for cut > 0 && cut < len(v) && v[cut]&0xC0 == 0x80 {
					cut--
				}
				g.put(in, ref, v[cut:])
				v = v[:cut] + "%(" + ref + ")s"
			}
			k := g.put(to, name, v)
			k.t, k.tag = sf.Type, tag
			if !tag.skip {
				g.keys = append(g.keys, k)
			}
		}
	}
}

func parents(name, delim string) (l []string) {
	for {
		i := strings.LastIndex(name, delim)
		if i <= 0 {
			return
		}
		name = name[:i]
		l = append(l, name)
	}
}

// structOptions draws load options that matter for mapping.
func structOptions(r *rnd) ini.LoadOptions {
	o := ini.LoadOptions{AllowNonUniqueSections: r.P(0.55), AllowShadows: r.P(0.4)}
	o.AllowDuplicateShadowValues = r.P(0.3)
	switch r.N(10) {
	case 0:
		o.Insensitive = true
	case 1:
		o.InsensitiveKeys = true
	case 2:
		o.InsensitiveSections = true
	}
	if r.P(0.15) {
		o.ChildSectionDelimiter = core.Pick(r, []string{"/", ":", "::", "-"})
	}
	return o
}
