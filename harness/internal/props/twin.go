package props

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/go-ini/ini"

	"verif/harness/internal/core"
	"verif/harness/internal/model"
)

// twin drives the library and the reference model through the same calls and
// checks every result, including the identity of the returned objects.
type twin struct {
	odd  float64 // rate of names that are close to one of the usual ones
	c    *core.Case
	r    *rnd
	f    *ini.File
	m    *model.File
	rs   map[*model.Sec]*ini.Section
	sr   map[*ini.Section]*model.Sec
	rk   map[*model.Key]*ini.Key
	kr   map[*ini.Key]*model.Key
	secs []*model.Sec // every section ever seen, deleted ones too
	keys []*model.Key

	secNames []string
	keyNames []string
	vals     []string
	// weights of the operation groups
	wCreate, wQuery, wDelete, wKey, wStale, wExpand, wWrite int
}

func newTwin(c *core.Case, o ini.LoadOptions, text string) *twin {
	c.Logf("options %s", optText(o))
	c.Logf("text %q", text)
	m := model.New(o)
	merr := m.Parse(text)
	f, err := ini.LoadSources(o, []byte(text))
	c.True((err == nil) == (merr == nil), "load: err=%v, want %v", err, merr)
	addCov(c, m)
	if err != nil {
		return nil
	}
	t := &twin{c: c, r: c.R, f: f, m: m,
		rs: map[*model.Sec]*ini.Section{}, sr: map[*ini.Section]*model.Sec{},
		rk: map[*model.Key]*ini.Key{}, kr: map[*ini.Key]*model.Key{},
		secNames: []string{"a", "A", "b", "a.b", "A.B", "a.b.c", "c", "DEFAULT", "default", "Default", ""},
		keyNames: []string{"k", "K", "x", "y", "Y", "k k", "ключ", "КЛЮЧ"},
		vals:     []string{"", "v", "w", "true", "1", "a b", "x,y"},
		wCreate:  10, wQuery: 12, wDelete: 4, wKey: 6, wStale: 3}
	t.sync()
	return t
}

// sync compares the whole state and the identity of all live objects.
func (t *twin) sync() {
	t.c.Eq("state", Snap(t.f), SnapModel(t.m))
	secs := t.f.Sections()
	for i, s := range secs {
		t.bindSec("Sections", s, t.m.Secs[i])
		for j, k := range s.Keys() {
			t.bindKey("Keys", k, t.m.Secs[i].Keys[j])
		}
	}
}

func (t *twin) bindSec(what string, s *ini.Section, m *model.Sec) {
	t.c.Events++
	if m == nil {
		if s != nil {
			t.c.Failf("%s: got section %q, want none", what, s.Name())
		}
		return
	}
	if s == nil {
		t.c.Failf("%s: got no section, want %q", what, m.Name)
	}
	if have, ok := t.rs[m]; ok {
		if have != s {
			t.c.Failf("%s: section %q is not the object returned before", what, m.Name)
		}
		return
	}
	if old, ok := t.sr[s]; ok {
		t.c.Failf("%s: returned the object of section %q (deleted=%v), want a new one for %q", what, old.Name, old.Dead, m.Name)
	}
	t.rs[m], t.sr[s] = s, m
	t.secs = append(t.secs, m)
}

func (t *twin) bindKey(what string, k *ini.Key, m *model.Key) {
	t.c.Events++
	if m == nil {
		if k != nil {
			t.c.Failf("%s: got key %q, want none", what, k.Name())
		}
		return
	}
	if k == nil {
		t.c.Failf("%s: got no key, want %q", what, m.Name)
	}
	if have, ok := t.rk[m]; ok {
		if have != k {
			t.c.Failf("%s: key %q is not the object returned before", what, m.Name)
		}
		return
	}
	if old, ok := t.kr[k]; ok {
		t.c.Failf("%s: returned the object of key %q (deleted=%v), want a new one for %q", what, old.Name, old.Dead, m.Name)
	}
	t.rk[m], t.kr[k] = k, m
	t.keys = append(t.keys, m)
}

func (t *twin) err(what string, got error, want error) {
	t.c.Events++
	if (got == nil) != (want == nil) {
		t.c.Failf("%s: error %v, want %v", what, got, want)
	}
}

func (t *twin) list(what string, got, want []string) {
	t.c.Events++
	g, w := fmt.Sprintf("%q", got), fmt.Sprintf("%q", want)
	if g != w {
		t.c.Failf("%s: got %s, want %s", what, g, w)
	}
}

func (t *twin) bool(what string, got, want bool) {
	t.c.Events++
	if got != want {
		t.c.Failf("%s: got %v, want %v", what, got, want)
	}
}

func (t *twin) secList(what string, got []*ini.Section, want []*model.Sec) {
	if len(got) != len(want) {
		t.c.Failf("%s: %d sections, want %d", what, len(got), len(want))
	}
	for i := range got {
		t.bindSec(fmt.Sprintf("%s[%d]", what, i), got[i], want[i])
	}
	t.c.Events++
}

func (t *twin) keyList(what string, got []*ini.Key, want []*model.Key) {
	if len(got) != len(want) {
		t.c.Failf("%s: %d keys, want %d", what, len(got), len(want))
	}
	for i := range got {
		t.bindKey(fmt.Sprintf("%s[%d]", what, i), got[i], want[i])
	}
	t.c.Events++
}

func (t *twin) sec() *model.Sec {
	if len(t.m.Secs) == 0 || t.r.P(0.05) && len(t.secs) > 0 && t.wStale > 0 {
		if len(t.secs) == 0 {
			return nil
		}
		return core.Pick(t.r, t.secs)
	}
	return core.Pick(t.r, t.m.Secs)
}

func (t *twin) key() *model.Key {
	if t.r.P(0.8) {
		if s := t.sec(); s != nil && len(s.Keys) > 0 {
			return core.Pick(t.r, s.Keys)
		}
	}
	if len(t.keys) == 0 {
		return nil
	}
	if k := core.Pick(t.r, t.keys); t.wStale > 0 || !k.Dead && !k.S.Dead {
		return k
	}
	return nil
}

func (t *twin) sname() string {
	if t.r.P(0.2) && len(t.m.Secs) > 0 {
		n := core.Pick(t.r, t.m.Secs).Name
		if t.r.P(0.4) {
			n = flipCase(t.r, n)
		}
		return t.oddName(n)
	}
	return t.oddName(core.Pick(t.r, t.secNames))
}

// oddName gives at times a name that differs a little from the given one.
func (t *twin) oddName(n string) string {
	if t.odd == 0 || !t.r.P(t.odd) {
		return n
	}
	t.c.Count("odd-name")
	r := t.r
	switch r.N(5) {
	case 4:
		return core.Pick(r, []string{" ", "\t", "\n", "  ", "\u00a0", "-", ".", "#", "\x00", "\ufeff"})
	case 0:
		return core.Pick(r, []string{" ", "\t", "-", ".", "#", "\"", "[", "\u00a0", "%"}) + n
	case 1:
		return n + core.Pick(r, []string{" ", "\t", "-", ".", "..", "]", "0", "\n", "\x00", "#1", n})
	case 2:
		if rs := []rune(n); len(rs) > 1 {
			return string(rs[:len(rs)-1])
		}
		return "-"
	default:
		return core.Pick(r, []string{"[" + n + "]", "\"" + n + "\"", "`" + n + "`", n + " " + n, "(" + n + ")"})
	}
}

func (t *twin) kname() string {
	n := core.Pick(t.r, t.keyNames)
	if t.r.P(0.1) {
		n = flipCase(t.r, n)
	}
	return t.oddName(n)
}

// value draws a value, sometimes one that is close to one in the file.
func (t *twin) value() string {
	if t.r.P(0.85) {
		return core.Pick(t.r, t.vals)
	}
	v := core.Pick(t.r, t.vals)
	if k := t.key(); k != nil {
		v = k.Value
	}
	switch t.r.N(6) {
	case 0:
		return " " + v
	case 1:
		return v + " "
	case 2:
		return flipCase(t.r, v)
	case 3:
		return v + core.Pick(t.r, []string{"0", "v", "\x00", "\n", "."})
	case 4:
		return strings.TrimSpace(v)
	}
	return v
}

// widen makes the file a big one with many more names.
func (t *twin) widen() {
	n := t.r.Range(8, 40)
	if t.r.P(0.15) {
		n = t.r.Range(60, 400)
	}
	var secs, keys []string
	for i := 0; i < n; i++ {
		secs = append(secs, core.Pick(t.r, t.secNames)+core.Pick(t.r, []string{"", ".", "."})+fmt.Sprint("w", i))
		keys = append(keys, fmt.Sprint("w", i))
	}
	t.secNames = append(append([]string(nil), t.secNames...), secs[:n/3]...)
	t.keyNames = append(append([]string(nil), t.keyNames...), keys...)
	for i := t.r.Range(20, 120) + n/2; i > 0; i-- {
		t.create()
	}
	// Many keys in one section.
	if s := t.sec(); s != nil && t.r.P(0.7) {
		for _, n := range keys {
			t.c.Logf("[%q].NewKey(%q, v)", s.Name, n)
			k, e := t.rs[s].NewKey(n, "v")
			m, me := s.NewKey(n, "v")
			t.err("NewKey", e, me)
			if me == nil {
				t.bindKey("NewKey", k, m)
			}
		}
	}
	t.c.Count("wide")
	t.sync()
}

// step performs one random operation.
func (t *twin) step() {
	switch core.PickW(t.r, []core.W[int]{{t.wCreate, 0}, {t.wQuery, 1}, {t.wDelete, 2}, {t.wKey, 3}, {t.wExpand, 4}, {t.wWrite, 5}}) {
	case 0:
		t.create()
	case 1:
		t.query()
	case 2:
		t.delete()
	case 3:
		t.onKey()
	case 4:
		t.expand()
	case 5:
		var b bytes.Buffer
		n, err := t.f.WriteTo(&b)
		t.c.Logf("WriteTo")
		t.count("WriteTo")
		t.c.True(err == nil && n == int64(b.Len()), "WriteTo: %d, %v", n, err)
		t.c.Eq("written text", b.String(), t.m.Render(stdFormat()))
	}
}

// expand compares the string value of a key.
func (t *twin) expand() {
	k := t.key()
	if k == nil {
		return
	}
	want, steps, ok := k.Expand(k.Value, 1<<16)
	if !ok {
		return
	}
	t.c.Logf("[%q][%q].String()", k.S.Name, k.Name)
	t.count("String")
	if steps > 0 {
		t.c.Count("expanded")
	}
	t.c.Eq("String", t.rk[k].String(), want)
}

func (t *twin) count(op string) { t.c.Count("op-" + op) }

func (t *twin) create() {
	r, c := t.r, t.c
	sn, kn, v := t.sname(), t.kname(), t.value()
	switch r.N(10) {
	case 0:
		c.Logf("NewSection(%q)", sn)
		t.count("NewSection")
		s, e := t.f.NewSection(sn)
		m, me := t.m.NewSection(sn)
		t.err("NewSection", e, me)
		t.bindSec("NewSection", s, m)
	case 1:
		names := []string{sn}
		for i := few(r, 3); i > 0; i-- {
			names = append(names, t.sname())
		}
		if r.P(0.1) {
			for i := few(r, 4); i > 0; i-- {
				names = append(names, core.Pick(r, names))
			}
		}
		c.Logf("NewSections(%q)", names)
		t.count("NewSections")
		e := t.f.NewSections(names...)
		var me error
		for _, n := range names {
			if _, me = t.m.NewSection(n); me != nil {
				break
			}
		}
		t.err("NewSections", e, me)
		t.sync()
	case 2:
		c.Logf("Section(%q)", sn)
		t.count("Section")
		t.bindSec("Section", t.f.Section(sn), t.m.Section(sn))
	case 3:
		i := r.N(len(t.m.ByName(sn)) + 2)
		if r.P(0.1) {
			i += r.N(100)
		}
		c.Logf("SectionWithIndex(%q, %d)", sn, i)
		t.count("SectionWithIndex")
		t.bindSec("SectionWithIndex", t.f.SectionWithIndex(sn, i), t.m.SectionWithIndex(sn, i))
	case 4, 5, 6:
		s := t.sec()
		if s == nil {
			return
		}
		if r.P(0.06) {
			kn = ""
		}
		c.Logf("[%q].NewKey(%q, %q)", s.Name, kn, v)
		t.count("NewKey")
		k, e := t.rs[s].NewKey(kn, v)
		m, me := s.NewKey(kn, v)
		t.err("NewKey", e, me)
		if me == nil {
			t.bindKey("NewKey", k, m)
		}
	case 7:
		s := t.sec()
		if s == nil {
			return
		}
		if r.P(0.06) {
			kn = ""
		}
		c.Logf("[%q].NewBooleanKey(%q)", s.Name, kn)
		t.count("NewBooleanKey")
		k, e := t.rs[s].NewBooleanKey(kn)
		m, me := s.NewBool(kn)
		t.err("NewBooleanKey", e, me)
		if me == nil {
			t.bindKey("NewBooleanKey", k, m)
		}
	case 8:
		s := t.sec()
		if s == nil {
			return
		}
		c.Logf("[%q].Key(%q)", s.Name, kn)
		t.count("Key")
		t.bindKey("Key", t.rs[s].Key(kn), s.Key(kn))
	case 9:
		if r.P(0.4) {
			body := t.rawText()
			c.Logf("NewRawSection(%q, %q)", sn, body)
			t.count("NewRawSection")
			s, e := t.f.NewRawSection(sn, body)
			m, me := t.m.NewRawSection(sn, body)
			t.err("NewRawSection", e, me)
			t.bindSec("NewRawSection", s, m)
			return
		}
		s := t.sec()
		if s == nil {
			return
		}
		body := t.rawText()
		c.Logf("[%q].SetBody(%q)", s.Name, body)
		t.count("SetBody")
		t.rs[s].SetBody(body)
		if s.Raw {
			s.Body = body
		}
	}
}

// rawText gives a body for a raw section.
func (t *twin) rawText() string {
	r := t.r
	if r.P(0.15) {
		return core.Pick(r, []string{"", " ", "\t", "  "}) + randText(r) + core.Pick(r, []string{"", " ", "\n", "\n\n", " \n"})
	}
	return core.Pick(r, []string{"", "body", "line 1\nline 2\n", " b ", "other", "1\n2", "  indented\n", "\tk = v\n\n", "\nafter blank", "# comment\n", "[x]\n", "`", "\\", "crlf\r\nline\r\n"})
}

func (t *twin) query() {
	r, c := t.r, t.c
	sn, kn, v := t.sname(), t.kname(), t.value()
	switch r.N(15) {
	case 0:
		c.Logf("GetSection(%q)", sn)
		t.count("GetSection")
		s, e := t.f.GetSection(sn)
		m := t.m.Get(sn)
		t.bool("GetSection error", e != nil, m == nil)
		t.bindSec("GetSection", s, m)
	case 1:
		c.Logf("HasSection(%q)", sn)
		t.count("HasSection")
		t.bool("HasSection", t.f.HasSection(sn), t.m.Get(sn) != nil)
	case 2:
		c.Logf("SectionsByName(%q)", sn)
		t.count("SectionsByName")
		l, e := t.f.SectionsByName(sn)
		m := t.m.ByName(sn)
		t.bool("SectionsByName error", e != nil, len(m) == 0)
		t.secList("SectionsByName", l, m)
	case 3:
		c.Logf("SectionStrings()")
		t.count("SectionStrings")
		t.list("SectionStrings", t.f.SectionStrings(), t.m.Names())
	case 4:
		t.count("Sections")
		c.Logf("Sections()")
		t.secList("Sections", t.f.Sections(), t.m.Secs)
	case 5:
		c.Logf("File.ChildSections(%q)", sn)
		if t.m.Get(sn) == nil {
			t.childrenOfMissing(sn)
			return
		}
		t.count("ChildSections")
		t.secList("File.ChildSections", t.f.ChildSections(sn), t.m.Get(sn).Children())
	case 6:
		s := t.sec()
		if s == nil {
			return
		}
		c.Logf("[%q].GetKey(%q)", s.Name, kn)
		t.count("GetKey")
		k, e := t.rs[s].GetKey(kn)
		m := s.GetKey(kn)
		t.bool("GetKey error", e != nil, m == nil)
		t.bindKey("GetKey", k, m)
	case 7:
		s := t.sec()
		if s == nil {
			return
		}
		c.Logf("[%q].HasKey(%q)", s.Name, kn)
		t.count("HasKey")
		t.bool("HasKey", t.rs[s].HasKey(kn), s.GetKey(kn) != nil)
		t.bool("Haskey", t.rs[s].Haskey(kn), s.GetKey(kn) != nil)
	case 8:
		s := t.sec()
		if s == nil {
			return
		}
		c.Logf("[%q].HasValue(%q)", s.Name, v)
		t.count("HasValue")
		t.bool("HasValue", t.rs[s].HasValue(v), s.HasValue(v))
	case 9:
		s := t.sec()
		if s == nil {
			return
		}
		c.Logf("[%q].Keys, KeyStrings", s.Name)
		t.count("Keys")
		t.keyList("Keys", t.rs[s].Keys(), s.Keys)
		t.list("KeyStrings", t.rs[s].KeyStrings(), s.Names())
	case 10:
		s := t.sec()
		if s == nil {
			return
		}
		c.Logf("[%q].KeysHash", s.Name)
		t.count("KeysHash")
		var a, b strings.Builder
		hashText(&a, t.rs[s].KeysHash())
		hashText(&b, s.Hash())
		t.c.Eq("KeysHash", a.String(), b.String())
	case 11:
		s := t.sec()
		if s == nil {
			return
		}
		c.Logf("[%q].ParentKeys", s.Name)
		t.count("ParentKeys")
		t.keyList("ParentKeys", t.rs[s].ParentKeys(), s.ParentKeys())
	case 12:
		s := t.sec()
		if s == nil {
			return
		}
		c.Logf("[%q].ChildSections", s.Name)
		t.count("ChildSections")
		t.secList("ChildSections", t.rs[s].ChildSections(), s.Children())
	case 13:
		s := t.sec()
		if s == nil {
			return
		}
		t.count("Body")
		t.c.Eq("Body", t.rs[s].Body(), strings.TrimSpace(s.Body))
		t.c.Eq("Name", t.rs[s].Name(), s.Name)
	case 14:
		l := t.m.ByName(sn)
		if i := r.N(len(l) + 1); i < len(l) {
			c.Logf("SectionWithIndex(%q, %d)", sn, i)
			t.count("SectionWithIndex")
			t.bindSec("SectionWithIndex", t.f.SectionWithIndex(sn, i), l[i])
		}
	}
}

func (t *twin) delete() {
	r, c := t.r, t.c
	sn := t.sname()
	if r.P(0.05) {
		sn = core.Pick(r, []string{"no such section", "a.none", ".", "a."})
	}
	switch r.N(5) {
	case 0:
		c.Logf("DeleteSection(%q)", sn)
		t.count("DeleteSection")
		t.f.DeleteSection(sn)
		t.m.Delete(sn)
	case 1:
		i := r.Range(-1, len(t.m.ByName(sn))+1)
		c.Logf("DeleteSectionWithIndex(%q, %d)", sn, i)
		t.count("DeleteSectionWithIndex")
		t.err("DeleteSectionWithIndex", t.f.DeleteSectionWithIndex(sn, i), t.m.DeleteIndex(sn, i))
	default:
		s := t.sec()
		if s == nil {
			return
		}
		kn := t.kname()
		if len(s.Keys) > 0 && r.P(0.5) {
			kn = core.Pick(r, s.Keys).Name
			if r.P(0.3) {
				kn = flipCase(r, kn)
			}
		}
		c.Logf("[%q].DeleteKey(%q)", s.Name, kn)
		t.count("DeleteKey")
		t.rs[s].DeleteKey(kn)
		s.DeleteKey(kn)
	}
}

func (t *twin) onKey() {
	r, c := t.r, t.c
	k := t.key()
	if k == nil {
		return
	}
	rk := t.rk[k]
	v := core.Pick(r, t.vals)
	if k.Dead || k.S.Dead {
		t.c.Count("stale-object")
	}
	switch r.N(8) {
	case 0, 1:
		c.Logf("[%q][%q].SetValue(%q)", k.S.Name, k.Name, v)
		t.count("SetValue")
		rk.SetValue(v)
		k.Value = v
	case 2, 3:
		c.Logf("[%q][%q].AddShadow(%q)", k.S.Name, k.Name, v)
		t.count("AddShadow")
		t.err("AddShadow", rk.AddShadow(v), k.AddShadow(v))
	case 4:
		c.Logf("[%q][%q].AddNestedValue(%q)", k.S.Name, k.Name, v)
		t.count("AddNestedValue")
		t.err("AddNestedValue", rk.AddNestedValue(v), k.AddNested(v))
	case 5:
		t.c.Eq("Name", rk.Name(), k.Name)
		t.c.Eq("Value", rk.Value(), k.Value)
	case 6:
		t.list("ValueWithShadows", rk.ValueWithShadows(), k.Values())
		t.list("NestedValues", rk.NestedValues(), k.Nested)
	case 7:
		cm := core.Pick(r, []string{"", "# c", "; d", "plain", "# a\n; b"})
		c.Logf("[%q][%q].Comment = %q", k.S.Name, k.Name, cm)
		t.count("Comment")
		if r.P(0.3) {
			t.rs[k.S].Comment, k.S.Comment = cm, cm
		} else {
			rk.Comment, k.Comment = cm, cm
		}
	}
}

// checkStale verifies that deleted objects kept their own state and that the
// state of live ones does not depend on them.
func (t *twin) checkStale() {
	for _, k := range t.keys {
		t.c.Eq("value of a held key", t.rk[k].Value(), k.Value)
		t.c.Eq("name of a held key", t.rk[k].Name(), k.Name)
	}
	for _, s := range t.secs {
		t.c.Eq("name of a held section", t.rs[s].Name(), s.Name)
		t.list("keys of a held section", t.rs[s].KeyStrings(), s.Names())
	}
}
