package props

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/go-ini/ini"

	"verif/harness/internal/core"
	"verif/harness/internal/model"
)

func init() {
	register(&core.Prop{ID: "C23", Level: "exploration", Quick: 100000, Thorough: 2000000, Run: runC23,
		Rule: "a case is a history of calls in which returned lists and maps are kept and re-examined after every later call, or overwritten, sorted, extended within their capacity and cleared, while the file is compared with the model that saw none of it; distinct by the hash of the final state; non-trivial when the file changed while collections were held",
		Must: []string{"held-SectionStrings", "held-Sections", "held-SectionsByName", "held-ChildSections", "held-File.ChildSections", "held-Keys", "held-ParentKeys", "held-KeyStrings", "held-KeysHash", "held-ValueWithShadows", "held-NestedValues", "held-Strings", "held-StringsWithShadows", "held-Ints", "held-struct", "held-lists", "wide", "source-bytes", "source-bom",
			"mutated", "spare-capacity", "passed-names", "passed-options", "passed-sources", "passed-candidates", "passed-struct", "recheck"}})
}

// holding is a returned collection under observation.
type holding struct {
	what string
	v    reflect.Value // slice or map
	want string
}

func showColl(v reflect.Value) string {
	switch x := v.Interface().(type) {
	case []string:
		return fmt.Sprintf("%q", x)
	case map[string]string:
		var b strings.Builder
		hashText(&b, x)
		return b.String()
	}
	var b strings.Builder
	for i := 0; i < v.Len(); i++ {
		if e := v.Index(i); e.Kind() == reflect.Ptr {
			fmt.Fprintf(&b, "%p ", e.Interface())
		} else {
			fmt.Fprintf(&b, "%v ", e.Interface())
		}
	}
	return b.String()
}

type c23Struct struct {
	Names  []string
	Nums   []int
	Inner  struct{ Names []string }
	Shadow []string `ini:"k,,allowshadow"`
}

func runC23(c *core.Case) {
	r := c.R
	o := ini.LoadOptions{AllowShadows: r.P(0.6), AllowNestedValues: r.P(0.6), AllowNonUniqueSections: r.P(0.4), Insensitive: r.P(0.1), AllowDuplicateShadowValues: r.P(0.2)}
	g := &docGen{r: r, o: &o, plain: true, secs: []string{"a", "b", "a.b", "a.c", "a.b.c"}, keys: []string{"k", "x", "y"}}
	text := validText(g, 14)
	opts := o
	raws := []string{"Raw", "a raw one"}
	opts.UnparseableSections = append(make([]string, 0, 4), raws...)
	data := []byte(text)
	c.Logf("options %s", optText(opts))
	m := model.New(opts)
	if m.Parse(text) != nil {
		c.Trivial = true
		return
	}
	t := newTwin(c, opts, text)
	if t == nil {
		return
	}
	_ = data
	t.m.Opt.UnparseableSections = raws
	opts.UnparseableSections = opts.UnparseableSections[:2]
	opts.UnparseableSections[0], opts.UnparseableSections[1] = "a", "b"
	c.Count("passed-options")
	t.secNames = []string{"a", "b", "a.b", "a.c", "a.b.c", "DEFAULT", ""}
	t.keyNames = []string{"k", "x", "y", "Names", "Nums"}
	t.vals = []string{"", "v", "w", "1,2,3", "a, b ,c", "x,y\\,z", "4"}
	t.wDelete = 6
	if r.P(0.1) {
		t.widen()
	}
	var held []*holding
	hold := func(what string, coll any) {
		c.Count("held-" + what)
		v := reflect.ValueOf(coll)
		h := &holding{what, v, showColl(v)}
		held = append(held, h)
	}
	recheck := func() {
		for _, h := range held {
			c.Count("recheck")
			c.Eq("content of a held result of "+h.what, showColl(h.v), h.want)
		}
	}
	states := 0
	last := ""
	for i := r.Range(4, 30); i > 0; i-- {
		if r.P(0.5) {
			c23Hold(t, hold)
		} else {
			t.step()
		}
		if r.P(0.35) && len(held) > 0 {
			j := r.N(len(held))
			h := held[j]
			held = append(held[:j:j], held[j+1:]...)
			c.Logf("overwrite the result of %s", h.what)
			c23Mutate(c, h.v)
		}
		if r.P(0.15) {
			c23Pass(t)
		}
		recheck()
		if s := SnapModel(t.m); s != last {
			states++
			last = s
		}
		t.sync()
	}
	t.checkStale()
	// The options list was the caller's as well.
	if r.P(0.3) && !o.AllowNonUniqueSections {
		m.BeginLoad()
		t.m.BeginLoad()
		merr := t.m.Parse(text)
		err := t.f.Reload()
		c.Logf("Reload")
		c.True((err == nil) == (merr == nil), "Reload: %v, want %v", err, merr)
		if err == nil {
			t.c.Eq("state after Reload", Snap(t.f), SnapModel(t.m))
		}
		recheck()
	}
	c.Observe(last)
	c.Trivial = states < 2
}

func c23Hold(t *twin, hold func(string, any)) {
	r, f := t.r, t.f
	sn := t.sname()
	s := t.sec()
	k := t.key()
	n := r.N(17)
	t.c.Logf("hold kind %d of section %q", n, sn)
	switch n {
	case 0:
		hold("SectionStrings", f.SectionStrings())
	case 1:
		hold("Sections", f.Sections())
	case 2:
		if l, err := f.SectionsByName(sn); err == nil {
			hold("SectionsByName", l)
		}
	case 3:
		if s != nil {
			hold("ChildSections", t.rs[s].ChildSections())
		}
	case 4:
		if t.m.Get(sn) != nil {
			hold("File.ChildSections", f.ChildSections(sn))
		}
	}
	if s != nil {
		rs := t.rs[s]
		switch n {
		case 5:
			hold("Keys", rs.Keys())
		case 6:
			hold("ParentKeys", rs.ParentKeys())
		case 7:
			hold("KeyStrings", rs.KeyStrings())
		case 8:
			hold("KeysHash", rs.KeysHash())
		}
	}
	if k != nil && n >= 11 {
		// References may expand to long texts, which take long to split.
		if _, steps, ok := k.Expand(k.Value, 2000); !ok || steps > 20 || len(k.Value) > 2000 {
			k = nil
		}
	}
	if k != nil {
		rk := t.rk[k]
		switch n {
		case 9:
			hold("ValueWithShadows", rk.ValueWithShadows())
		case 10:
			hold("NestedValues", rk.NestedValues())
		case 11:
			hold("Strings", rk.Strings(","))
		case 12:
			hold("StringsWithShadows", rk.StringsWithShadows(","))
		case 13:
			hold("Ints", rk.Ints(","))
		case 15:
			switch r.N(8) {
			case 0:
				hold("lists", rk.Float64s(","))
			case 1:
				hold("lists", rk.Bools(","))
			case 2:
				hold("lists", rk.Uint64s(","))
			case 3:
				hold("lists", rk.ValidInt64s(","))
			case 4:
				hold("lists", rk.Times(","))
			case 5:
				hold("lists", rk.ValidUints(","))
			case 6:
				if l, err := rk.StrictInts(","); err == nil {
					hold("lists", l)
				}
			case 7:
				if l, err := rk.StrictBools(","); err == nil {
					hold("lists", l)
				}
			}
		case 16:
			// The same twice, they share nothing.
			hold("Strings", rk.Strings(","))
			hold("Strings", rk.Strings(","))
			hold("ValueWithShadows", rk.ValueWithShadows())
			hold("NestedValues", rk.NestedValues())
			hold("NestedValues", rk.NestedValues())
		}
	}
	if n == 14 {
		var v, w c23Struct
		if t.m.Get(sn) == nil {
			return
		}
		if f.Section(sn).MapTo(&v) == nil && f.Section(sn).MapTo(&w) == nil {
			hold("struct", v.Names)
			hold("struct", v.Nums)
			hold("struct", v.Shadow)
			hold("struct", w.Names)
			hold("struct", w.Shadow)
		}
	}
}

// c23Mutate destroys everything reachable through a returned collection.
func c23Mutate(c *core.Case, v reflect.Value) {
	c.Count("mutated")
	if v.Kind() == reflect.Map {
		m := v.Interface().(map[string]string)
		for k := range m {
			m[k] = "scribble"
		}
		m["scribble"] = "x"
		if c.R.P(0.5) {
			for k := range m {
				delete(m, k)
			}
		}
		return
	}
	if !v.IsValid() || v.IsNil() {
		return
	}
	if l, ok := v.Interface().([]string); ok && c.R.P(0.3) {
		sort.Sort(sort.Reverse(sort.StringSlice(l)))
		return
	}
	full := v.Slice(0, v.Cap())
	if v.Cap() > v.Len() {
		c.Count("spare-capacity")
	}
	for i := 0; i < full.Len(); i++ {
		e := full.Index(i)
		switch e.Kind() {
		case reflect.String:
			e.SetString("scribble")
		case reflect.Int, reflect.Int64:
			e.SetInt(-12345)
		case reflect.Uint, reflect.Uint64:
			e.SetUint(12345)
		case reflect.Float64:
			e.SetFloat(-1.5)
		case reflect.Bool:
			e.SetBool(!e.Bool())
		default:
			e.Set(reflect.Zero(e.Type()))
		}
	}
}

// c23Pass hands slices and structs over and changes them afterwards.
func c23Pass(t *twin) {
	r, c := t.r, t.c
	switch r.N(4) {
	case 0:
		names := append(make([]string, 0, 8), t.sname(), "pass")
		if names[0] == "" {
			names[0] = "p0"
		}
		c.Logf("NewSections(%q)", names)
		err := t.f.NewSections(names...)
		t.err("NewSections", err, nil)
		for _, n := range names {
			_, _ = t.m.NewSection(n)
		}
		for i := range names[:cap(names)] {
			names[:cap(names)][i] = "scribble"
		}
		c.Count("passed-names")
	case 1:
		k := t.key()
		if k == nil {
			return
		}
		cands := []string{"v", "zz", t.rk[k].String()}
		t.rk[k].In("d", cands)
		c.Eq("candidates", fmt.Sprintf("%q", cands), fmt.Sprintf("%q", []string{"v", "zz", t.rk[k].String()}))
		c.Count("passed-candidates")
	case 2:
		v := struct {
			Names []string `ini:"Names"`
			Nums  []int    `ini:"Nums"`
		}{append(make([]string, 0, 4), "p", "q"), []int{7, 8}}
		o := t.m.Opt
		if o.AllowShadows || o.AllowNonUniqueSections {
			return // assignments would become shadows, or sections be replaced
		}
		sec := t.m.Get("a")
		if sec == nil {
			return
		}
		c.Logf("[a].ReflectFrom")
		err := t.f.Section("a").ReflectFrom(&v)
		c.True(err == nil, "ReflectFrom: %v", err)
		for _, kv := range [][2]string{{"Names", "p,q"}, {"Nums", "7,8"}} {
			k := sec.Own(kv[0])
			if k == nil {
				k, _ = sec.NewKey(kv[0], "")
			}
			k.Value = kv[1]
		}
		v.Names[0], v.Names[1], v.Nums[0] = "scribble", "scribble", -1
		c.Count("passed-struct")
	case 3:
		c23Sources(t)
		c.Count("passed-sources")
	}
}

// c23Sources hands byte slices over, looks at them afterwards, changes them and
// looks at what was loaded.
func c23Sources(t *twin) {
	r, c := t.r, t.c
	o := anyOptions(r)
	g := &docGen{r: r, o: &o}
	mk := func() (string, []byte) {
		s := validText(g, 10)
		if r.P(0.3) && !strings.HasPrefix(s, "\xef") {
			s = "\xef\xbb\xbf" + s
			c.Count("source-bom")
		}
		buf := make([]byte, len(s)+r.N(8), len(s)+8)
		for i := range buf {
			buf[i] = 0xaa
		}
		copy(buf, s)
		return s, buf[:len(s):len(buf)]
	}
	untouched := func(what, s string, b []byte) {
		c.Count("source-bytes")
		c.True(string(b) == s, "%s: the slice of the caller holds %q, it was %q", what, b, s)
		for _, x := range b[len(b):cap(b)] {
			c.True(x == 0xaa, "%s: written behind the end of the slice of the caller", what)
		}
	}
	sa, a := mk()
	sb, b := mk()
	c.Logf("LoadSources(%s) of %q and %q, changed afterwards", optText(o), sa, sb)
	rest := []any{b}
	f, err := ini.LoadSources(o, a, rest...)
	untouched("first source", sa, a)
	untouched("second source", sb, b)
	if err != nil {
		return
	}
	before := Snap(f)
	for i := range a {
		a[i] = 'Z'
	}
	for i := range b {
		b[i] = 'Z'
	}
	c.Eq("state after the sources were changed", Snap(f), before)
	if o.AllowNonUniqueSections {
		return
	}
	rest[0] = []byte("[other]\nk=w\n")
	copy(a, sa)
	copy(b, sb)
	if f.Reload() != nil {
		return // text of the second source may end in the middle of a raw section
	}
	untouched("first source after Reload", sa, a)
	untouched("second source after Reload", sb, b)
	c.Eq("state after the list of sources was changed and a reload", Snap(f), before)
	app := []any{[]byte("[s3]\nk=v3\n"), []byte("[s4]\nk=v4\n")}
	if f.Append(app[0], app[1:]...) != nil {
		return
	}
	before = Snap(f)
	app[1] = []byte("[bad")
	must(f.Reload())
	c.Eq("state after the appended list was changed and a reload", Snap(f), before)
}
