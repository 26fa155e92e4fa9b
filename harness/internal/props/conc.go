package props

import (
	"bytes"
	"fmt"
	"slices"
	"sort"
	"strings"

	"github.com/go-ini/ini"

	"verif/harness/internal/core"
	"verif/harness/internal/model"
)

// A sequential specification of a file for histories of concurrent operations:
// values only, so that states are cheap to copy. Sections and keys have
// numbers; the pointers of the library are bound to them as they are returned.

type cKey struct {
	name, val string
	boolean   bool
	shadows   []string
	nested    []string
}

type cSec struct {
	name, body string
	raw        bool
	keys       []int
}

type cState struct {
	secs   []cSec
	keys   []cKey
	list   []int // the sections of the file, in order
	secPtr []*ini.Section
	keyPtr []*ini.Key
	opt    *ini.LoadOptions
}

func (s *cState) clone() *cState {
	return &cState{append([]cSec(nil), s.secs...), append([]cKey(nil), s.keys...), append([]int(nil), s.list...),
		append([]*ini.Section(nil), s.secPtr...), append([]*ini.Key(nil), s.keyPtr...), s.opt}
}

// equal compares states. Which object of the library stands for which section
// and key is part of the state (so the pointers are compared as such).
func (s *cState) equal(o *cState) bool {
	return slices.Equal(s.list, o.list) && slices.Equal(s.secPtr, o.secPtr) && slices.Equal(s.keyPtr, o.keyPtr) &&
		slices.EqualFunc(s.secs, o.secs, func(a, b cSec) bool {
			return a.name == b.name && a.body == b.body && a.raw == b.raw && slices.Equal(a.keys, b.keys)
		}) &&
		slices.EqualFunc(s.keys, o.keys, func(a, b cKey) bool {
			return a.name == b.name && a.val == b.val && a.boolean == b.boolean &&
				slices.Equal(a.shadows, b.shadows) && slices.Equal(a.nested, b.nested)
		})
}

func add[T any](l []T, x T) []T { return append(append(make([]T, 0, len(l)+1), l...), x) }

func without(l []int, x int) []int {
	out := make([]int, 0, len(l))
	for _, y := range l {
		if y != x {
			out = append(out, y)
		}
	}
	return out
}

func (s *cState) secName(n string) string {
	if n == "" {
		n = model.Default
	}
	if s.opt.Insensitive || s.opt.InsensitiveSections {
		n = strings.ToLower(n)
	}
	return n
}

func (s *cState) keyName(n string) string {
	if s.opt.Insensitive || s.opt.InsensitiveKeys {
		n = strings.ToLower(n)
	}
	return n
}

func (s *cState) byName(n string) (out []int) {
	n = s.secName(n)
	for _, i := range s.list {
		if s.secs[i].name == n {
			out = append(out, i)
		}
	}
	return out
}

func (s *cState) newSection(n string) int {
	if l := s.byName(n); len(l) > 0 && !s.opt.AllowNonUniqueSections {
		return l[0]
	}
	s.secs = append(s.secs, cSec{name: s.secName(n)})
	s.secPtr = append(s.secPtr, nil)
	i := len(s.secs) - 1
	s.list = append(s.list, i)
	return i
}

func (s *cState) own(sec int, n string) int {
	n = s.keyName(n)
	for _, k := range s.secs[sec].keys {
		if s.keys[k].name == n {
			return k
		}
	}
	return -1
}

func (s *cState) ancestors(sec int) (out []int) {
	n := s.secs[sec].name
	for {
		i := strings.LastIndex(n, ".")
		if i < 0 {
			return out
		}
		n = n[:i]
		if l := s.byName(n); len(l) > 0 {
			out = append(out, l[0])
		}
	}
}

func (s *cState) getKey(sec int, n string) int {
	if k := s.own(sec, n); k >= 0 {
		return k
	}
	for _, a := range s.ancestors(sec) {
		if k := s.own(a, n); k >= 0 {
			return k
		}
	}
	return -1
}

func (s *cState) addShadow(k int, v string) bool {
	kk := &s.keys[k]
	if kk.boolean {
		return false
	}
	if !s.opt.AllowDuplicateShadowValues {
		if kk.val == v {
			return true
		}
		for _, x := range kk.shadows {
			if x == v {
				return true
			}
		}
	}
	kk.shadows = add(kk.shadows, v)
	return true
}

// newKey gives the key or -1 for an error.
func (s *cState) newKey(sec int, n, v string) int {
	if k := s.own(sec, n); k >= 0 {
		if s.opt.AllowShadows {
			if !s.addShadow(k, v) {
				return -1
			}
		} else {
			s.keys[k].val = v
		}
		return k
	}
	s.keys = append(s.keys, cKey{name: s.keyName(n), val: v})
	s.keyPtr = append(s.keyPtr, nil)
	k := len(s.keys) - 1
	s.secs[sec].keys = add(s.secs[sec].keys, k)
	return k
}

func (s *cState) values(k int) string {
	var out []string
	for _, v := range append([]string{s.keys[k].val}, s.keys[k].shadows...) {
		if v != "" {
			out = append(out, v)
		}
	}
	return strings.Join(out, "|")
}

// render gives the written text by way of the file model.
func (s *cState) render() string {
	m := model.New(*s.opt)
	for _, i := range s.list {
		sec := &model.Sec{F: m, Name: s.secs[i].name, Raw: s.secs[i].raw, Body: s.secs[i].body}
		for _, k := range s.secs[i].keys {
			kk := s.keys[k]
			sec.Keys = append(sec.Keys, &model.Key{S: sec, Name: kk.name, Value: kk.val, Shadows: kk.shadows, Nested: kk.nested, Bool: kk.boolean})
		}
		m.Secs = append(m.Secs, sec)
	}
	return m.Render(stdFormat())
}

func (s *cState) secOf(p *ini.Section) int {
	for i, q := range s.secPtr {
		if q == p {
			return i
		}
	}
	return -1
}

func (s *cState) keyOf(p *ini.Key) int {
	for i, q := range s.keyPtr {
		if q == p {
			return i
		}
	}
	return -1
}

// isSec checks that the returned pointer stands for section i (-1: nil).
func (s *cState) isSec(p *ini.Section, i int) bool {
	if i < 0 || p == nil {
		return i < 0 && p == nil
	}
	if s.secPtr[i] == nil && s.secOf(p) < 0 {
		s.secPtr[i] = p
	}
	return s.secPtr[i] == p
}

func (s *cState) isKey(p *ini.Key, k int) bool {
	if k < 0 || p == nil {
		return k < 0 && p == nil
	}
	if s.keyPtr[k] == nil && s.keyOf(p) < 0 {
		s.keyPtr[k] = p
	}
	return s.keyPtr[k] == p
}

func (s *cState) areSecs(p []*ini.Section, l []int) bool {
	if len(p) != len(l) {
		return false
	}
	for i := range l {
		if !s.isSec(p[i], l[i]) {
			return false
		}
	}
	return true
}

func (s *cState) areKeys(p []*ini.Key, l []int) bool {
	if len(p) != len(l) {
		return false
	}
	for i := range l {
		if !s.isKey(p[i], l[i]) {
			return false
		}
	}
	return true
}

// cOp is an operation with its arguments, cRes its outcome.
type cOp struct {
	kind string
	sec  *ini.Section
	key  *ini.Key
	name string
	val  string
	idx  int
}

type cRes struct {
	secs []*ini.Section
	keys []*ini.Key
	text string
}

// exec runs the operation against the library.
func (o *cOp) exec(f *ini.File) (r cRes) {
	defer func() {
		if p := recover(); p != nil {
			r = cRes{text: fmt.Sprintf("panic: %v", p)}
		}
	}()
	sec := func(s *ini.Section) {
		if s != nil {
			r.secs = []*ini.Section{s}
		}
	}
	key := func(k *ini.Key) {
		if k != nil {
			r.keys = []*ini.Key{k}
		}
	}
	errText := func(err error) {
		if err != nil {
			r.text = "error"
		}
	}
	switch o.kind {
	case "NewSection":
		s, err := f.NewSection(o.name)
		sec(s)
		errText(err)
	case "NewRawSection":
		s, err := f.NewRawSection(o.name, o.val)
		sec(s)
		errText(err)
	case "GetSection":
		s, err := f.GetSection(o.name)
		sec(s)
		errText(err)
	case "HasSection":
		r.text = fmt.Sprint(f.HasSection(o.name))
	case "Section":
		sec(f.Section(o.name))
	case "SectionWithIndex":
		sec(f.SectionWithIndex(o.name, o.idx))
	case "SectionsByName":
		l, err := f.SectionsByName(o.name)
		r.secs = l
		errText(err)
	case "Sections":
		r.secs = f.Sections()
	case "SectionStrings":
		r.text = strings.Join(f.SectionStrings(), "|")
	case "DeleteSection":
		f.DeleteSection(o.name)
	case "DeleteSectionWithIndex":
		errText(f.DeleteSectionWithIndex(o.name, o.idx))
	case "WriteTo":
		var b bytes.Buffer
		_, err := f.WriteTo(&b)
		r.text = b.String()
		if err != nil {
			r.text = "error " + err.Error()
		}
	case "ChildSections":
		r.secs = o.sec.ChildSections()
	case "Body":
		r.text = o.sec.Body()
	case "SetBody":
		o.sec.SetBody(o.val)
	case "NewKey":
		k, err := o.sec.NewKey(o.name, o.val)
		key(k)
		errText(err)
	case "NewBooleanKey":
		k, err := o.sec.NewBooleanKey(o.name)
		key(k)
		errText(err)
	case "GetKey":
		k, err := o.sec.GetKey(o.name)
		key(k)
		errText(err)
	case "HasKey":
		r.text = fmt.Sprint(o.sec.HasKey(o.name))
	case "HasValue":
		r.text = fmt.Sprint(o.sec.HasValue(o.val))
	case "Key":
		key(o.sec.Key(o.name))
	case "Keys":
		r.keys = o.sec.Keys()
	case "ParentKeys":
		r.keys = o.sec.ParentKeys()
	case "KeyStrings":
		r.text = strings.Join(o.sec.KeyStrings(), "|")
	case "KeysHash":
		r.text = hashOf(o.sec.KeysHash())
	case "DeleteKey":
		o.sec.DeleteKey(o.name)
	case "SetValue":
		o.key.SetValue(o.val)
	case "Value":
		r.text = o.key.Value()
	case "String":
		r.text = o.key.String()
	case "AddShadow":
		errText(o.key.AddShadow(o.val))
	case "ValueWithShadows":
		r.text = strings.Join(o.key.ValueWithShadows(), "|")
	case "AddNestedValue":
		errText(o.key.AddNestedValue(o.val))
	case "NestedValues":
		r.text = strings.Join(o.key.NestedValues(), "|")
	default:
		panic("unknown operation " + o.kind)
	}
	return r
}

func hashOf(h map[string]string) string {
	var l []string
	for k, v := range h {
		l = append(l, k+">"+v)
	}
	sort.Strings(l)
	return strings.Join(l, "|")
}

// step applies the operation to a copy of the state and says whether the
// outcome is the specified one.
func (s0 *cState) step(o cOp, r cRes) (bool, *cState) {
	s := s0.clone()
	sec, key := -1, -1
	if o.sec != nil {
		if sec = s.secOf(o.sec); sec < 0 {
			return false, s
		}
	}
	if o.key != nil {
		if key = s.keyOf(o.key); key < 0 {
			return false, s
		}
	}
	err := func(bad bool) bool { return bad == (r.text == "error") && (bad || r.text == "") }
	one := func(i int) bool {
		if i < 0 {
			return len(r.secs) == 0
		}
		return len(r.secs) == 1 && s.isSec(r.secs[0], i)
	}
	oneKey := func(k int) bool {
		if k < 0 {
			return len(r.keys) == 0
		}
		return len(r.keys) == 1 && s.isKey(r.keys[0], k)
	}
	first := func(l []int) int {
		if len(l) == 0 {
			return -1
		}
		return l[0]
	}
	ok := false
	switch o.kind {
	case "NewSection":
		ok = one(s.newSection(o.name)) && err(false)
	case "NewRawSection":
		i := s.newSection(o.name)
		s.secs[i].raw, s.secs[i].body = true, o.val
		ok = one(i) && err(false)
	case "GetSection":
		i := first(s.byName(o.name))
		ok = one(i) && err(i < 0)
	case "HasSection":
		ok = r.text == fmt.Sprint(len(s.byName(o.name)) > 0)
	case "Section":
		i := first(s.byName(o.name))
		if i < 0 {
			i = s.newSection(o.name)
		}
		ok = one(i)
	case "SectionWithIndex":
		l := s.byName(o.name)
		if o.idx < len(l) {
			ok = one(l[o.idx])
		} else {
			ok = one(s.newSection(o.name))
		}
	case "SectionsByName":
		l := s.byName(o.name)
		ok = s.areSecs(r.secs, l) && err(len(l) == 0)
	case "Sections":
		ok = s.areSecs(r.secs, s.list)
	case "SectionStrings":
		var l []string
		for _, i := range s.list {
			l = append(l, s.secs[i].name)
		}
		ok = r.text == strings.Join(l, "|")
	case "DeleteSection":
		for _, i := range s.byName(o.name) {
			s.list = without(s.list, i)
		}
		ok = true
	case "DeleteSectionWithIndex":
		bad := o.idx != 0 && !s.opt.AllowNonUniqueSections
		if l := s.byName(o.name); !bad && o.idx < len(l) {
			s.list = without(s.list, l[o.idx])
		}
		ok = err(bad)
	case "WriteTo":
		ok = r.text == s.render()
	case "ChildSections":
		var l []int
		for _, i := range s.list {
			if strings.HasPrefix(s.secs[i].name, s.secs[sec].name+".") {
				l = append(l, i)
			}
		}
		ok = s.areSecs(r.secs, l)
	case "Body":
		ok = r.text == strings.TrimSpace(s.secs[sec].body)
	case "SetBody":
		if s.secs[sec].raw {
			s.secs[sec].body = o.val
		}
		ok = true
	case "NewKey":
		k := s.newKey(sec, o.name, o.val)
		ok = oneKey(k) && err(k < 0)
	case "NewBooleanKey":
		k := s.newKey(sec, o.name, "true")
		if k >= 0 {
			s.keys[k].boolean = true
		}
		ok = oneKey(k) && err(k < 0)
	case "GetKey":
		k := s.getKey(sec, o.name)
		ok = oneKey(k) && err(k < 0)
	case "HasKey":
		ok = r.text == fmt.Sprint(s.getKey(sec, o.name) >= 0)
	case "HasValue":
		has := false
		for _, k := range s.secs[sec].keys {
			has = has || s.keys[k].val == o.val
		}
		ok = r.text == fmt.Sprint(has)
	case "Key":
		k := s.getKey(sec, o.name)
		if k < 0 {
			k = s.newKey(sec, o.name, "")
		}
		ok = oneKey(k)
	case "Keys":
		ok = s.areKeys(r.keys, s.secs[sec].keys)
	case "ParentKeys":
		var l []int
		for _, a := range s.ancestors(sec) {
			l = append(l, s.secs[a].keys...)
		}
		ok = s.areKeys(r.keys, l)
	case "KeyStrings":
		var l []string
		for _, k := range s.secs[sec].keys {
			l = append(l, s.keys[k].name)
		}
		ok = r.text == strings.Join(l, "|")
	case "KeysHash":
		h := map[string]string{}
		for _, k := range s.secs[sec].keys {
			h[s.keys[k].name] = s.keys[k].val
		}
		ok = r.text == hashOf(h)
	case "DeleteKey":
		if k := s.own(sec, o.name); k >= 0 {
			s.secs[sec].keys = without(s.secs[sec].keys, k)
		}
		ok = true
	case "SetValue":
		s.keys[key].val = o.val
		ok = true
	case "Value", "String":
		ok = r.text == s.keys[key].val
	case "AddShadow":
		ok = err(!s.opt.AllowShadows || !s.addShadow(key, o.val))
	case "ValueWithShadows":
		ok = r.text == s.values(key)
	case "AddNestedValue":
		bad := !s.opt.AllowNestedValues || s.keys[key].boolean
		if !bad {
			s.keys[key].nested = add(s.keys[key].nested, o.val)
		}
		ok = err(bad)
	case "NestedValues":
		ok = r.text == strings.Join(s.keys[key].nested, "|")
	}
	return ok, s
}

// cPlan is an operation before its receiver is known.
type cPlan struct {
	kind      string
	name, val string
	idx, recv int
	sec       *ini.Section // the receiver, when it is known
	key       *ini.Key
}

// sweep plans a goroutine that changes several things one after the other
// while the others take whole views, which have to be of one moment.
func sweep(r *rnd, st *cState, n int) [][]cPlan {
	plans := make([][]cPlan, n)
	si := r.N(len(st.secs))
	for i := 0; i < 3 && len(st.secs[si].keys) < 2; i++ {
		si = r.N(len(st.secs))
	}
	sec := st.secPtr[si]
	var views []string
	var ps []cPlan
	order := r.Perm(3)
	name := "a"
	switch x := r.N(8); x {
	case 6:
		// A value that moves, but is always there.
		if k := st.secs[si].keys; len(k) > 1 {
			p := r.Perm(len(k))
			from, to := st.keyPtr[k[p[0]]], st.keyPtr[k[p[1]]]
			ps = append(ps, cPlan{kind: "SetValue", key: from, val: "moving"})
			for i := r.Range(1, 3); i > 0; i-- {
				ps = append(ps, cPlan{kind: "SetValue", key: to, val: "moving"}, cPlan{kind: "SetValue", key: from, val: "left"})
				from, to = to, from
			}
		}
		views = []string{"HasValue", "HasValue", "HasValue", "KeysHash"}
	case 7:
		// A key that moves between a section and its parent, but is always there.
		i, j := st.named("a.b"), st.named("a")
		if i >= 0 && j >= 0 {
			sec, name = st.secPtr[i], core.Pick(r, []string{"x", "y", "z"})
			from, to := st.secPtr[j], st.secPtr[i]
			ps = append(ps, cPlan{kind: "NewKey", sec: from, name: name, val: "m"})
			for i := r.Range(1, 3); i > 0; i-- {
				ps = append(ps, cPlan{kind: "NewKey", sec: to, name: name, val: "m"}, cPlan{kind: "DeleteKey", sec: from, name: name})
				from, to = to, from
			}
		}
		views = []string{"HasKey", "GetKey", "Key", "GetKey"}
	case 0, 1:
		for i, k := range st.secs[si].keys {
			ps = append(ps, cPlan{kind: "SetValue", key: st.keyPtr[k], val: fmt.Sprint("s", i)})
		}
		if len(ps) > 1 && r.P(0.5) {
			ps[0], ps[len(ps)-1] = ps[len(ps)-1], ps[0]
		}
		if x == 1 {
			ps = append(ps, ps...)
			for i := len(ps) / 2; i < len(ps); i++ {
				ps[i].val = fmt.Sprint("t", i)
			}
		}
		views = []string{"KeysHash", "KeysHash", "WriteTo"}
	case 2:
		for _, i := range order {
			ps = append(ps, cPlan{kind: core.Pick(r, []string{"NewKey", "DeleteKey"}), sec: sec, name: []string{"x", "y", "z"}[i], val: "n"})
		}
		views = []string{"Keys", "KeyStrings", "KeysHash", "WriteTo", "ParentKeys"}
	case 3:
		for _, i := range order {
			ps = append(ps, cPlan{kind: core.Pick(r, []string{"NewSection", "DeleteSection", "NewSection"}), name: []string{"a.b", "a.d", "a.b.c"}[i]})
		}
		views = []string{"Sections", "SectionStrings", "ChildSections", "WriteTo"}
		if i := st.named("a"); i >= 0 {
			sec = st.secPtr[i]
		}
	case 4:
		for i := 0; i < 3; i++ {
			ps = append(ps, cPlan{kind: core.Pick(r, []string{"NewSection", "DeleteSectionWithIndex", "NewSection"}), name: "a", idx: r.N(2)})
		}
		views = []string{"SectionsByName", "Sections", "SectionStrings", "WriteTo"}
	default:
		if k := st.secs[si].keys; len(k) > 0 {
			for i := 0; i < 3; i++ {
				ps = append(ps, cPlan{kind: core.Pick(r, []string{"AddShadow", "AddShadow", "AddNestedValue", "SetValue"}), key: st.keyPtr[core.Pick(r, k)], val: fmt.Sprint("w", i)})
			}
		}
		views = []string{"ValueWithShadows", "WriteTo", "NestedValues"}
	}
	if len(ps) == 0 {
		ps = append(ps, cPlan{kind: "NewKey", sec: sec, name: "y", val: "moving"})
	}
	plans[0] = ps
	for i := 1; i < n; i++ {
		for j := r.Range(1, 3); j > 0; j-- {
			p := cPlan{kind: core.Pick(r, views), sec: sec, name: name, val: "moving"}
			if len(ps) > 0 {
				p.key = core.Pick(r, ps).key
			}
			if p.key == nil && (p.kind == "ValueWithShadows" || p.kind == "NestedValues") {
				p.kind = "WriteTo"
			}
			plans[i] = append(plans[i], p)
		}
	}
	return plans
}

// named returns the first section of a name the history starts with.
func (s *cState) named(name string) int {
	for i := range s.secs {
		if s.secs[i].name == name {
			return i
		}
	}
	return -1
}

var cKinds = []core.W[string]{
	{4, "NewSection"}, {2, "NewRawSection"}, {4, "GetSection"}, {2, "HasSection"}, {6, "Section"}, {3, "SectionWithIndex"},
	{3, "SectionsByName"}, {4, "Sections"}, {4, "SectionStrings"}, {6, "DeleteSection"}, {3, "DeleteSectionWithIndex"},
	{5, "WriteTo"}, {3, "ChildSections"}, {2, "Body"}, {2, "SetBody"}, {9, "NewKey"}, {3, "NewBooleanKey"}, {6, "GetKey"},
	{3, "HasKey"}, {3, "HasValue"}, {7, "Key"}, {4, "Keys"}, {4, "ParentKeys"}, {4, "KeyStrings"}, {4, "KeysHash"},
	{6, "DeleteKey"}, {7, "SetValue"}, {4, "Value"}, {2, "String"}, {4, "AddShadow"}, {4, "ValueWithShadows"}, {2, "AddNestedValue"}, {2, "NestedValues"},
}

var (
	cSecNames = []string{"", "DEFAULT", "a", "a.b", "a.b", "a.b.c", "c", "A"}
	cKeyNames = []string{"x", "x", "y", "z", "X"}
	cVals     = []string{"", "1", "2", "3", "true", "long value", "v"}
)

// plan draws an operation. focus, when not empty, narrows the kinds.
func plan(r *rnd, focus []string) cPlan {
	p := cPlan{kind: core.PickW(r, cKinds), val: core.Pick(r, cVals), idx: r.N(3), recv: r.N(1 << 16)}
	if len(focus) > 0 && r.P(0.7) {
		p.kind = core.Pick(r, focus)
	}
	switch p.kind {
	case "NewSection", "NewRawSection":
		p.name = core.Pick(r, cSecNames[1:])
	case "GetSection", "HasSection", "Section", "SectionWithIndex", "SectionsByName", "DeleteSection", "DeleteSectionWithIndex":
		p.name = core.Pick(r, cSecNames)
	default:
		p.name = core.Pick(r, cKeyNames)
	}
	return p
}

// cFocus groups operations that have to be atomic against each other.
var cFocus = [][]string{
	nil, nil,
	{"NewSection", "Section", "DeleteSection", "Sections", "SectionStrings"},
	{"SectionWithIndex", "SectionsByName", "DeleteSection", "DeleteSectionWithIndex", "NewSection", "Sections"},
	{"NewRawSection", "Body", "SetBody", "WriteTo", "DeleteSection"},
	{"NewKey", "Key", "GetKey", "DeleteKey", "Keys", "KeyStrings"},
	{"NewKey", "SetValue", "Value", "KeysHash", "HasValue"},
	{"NewBooleanKey", "AddShadow", "ValueWithShadows", "WriteTo", "AddNestedValue"},
	{"AddShadow", "ValueWithShadows", "NewKey", "WriteTo"},
	{"GetKey", "Key", "HasKey", "ParentKeys", "NewKey", "DeleteKey", "DeleteSection", "Section"},
	{"ChildSections", "NewSection", "DeleteSection", "Sections"},
	{"AddNestedValue", "NestedValues", "WriteTo"},
	{"WriteTo", "NewKey", "DeleteKey", "DeleteSection", "SetValue"},
}

// bind gives the plan its receiver from the goroutine's own finds.
func (p cPlan) bind(secs []*ini.Section, keys []*ini.Key) (cOp, bool) {
	o := cOp{kind: p.kind, name: p.name, val: p.val, idx: p.idx}
	if p.sec != nil || p.key != nil {
		o.sec, o.key = p.sec, p.key
		return o, true
	}
	switch p.kind {
	case "ChildSections", "Body", "SetBody", "NewKey", "NewBooleanKey", "GetKey", "HasKey", "HasValue", "Key", "Keys", "ParentKeys", "KeyStrings", "KeysHash", "DeleteKey":
		if len(secs) == 0 {
			return o, false
		}
		// The latest finds are the likely ones.
		o.sec = secs[len(secs)-1-p.recv%len(secs)]
	case "SetValue", "Value", "String", "AddShadow", "ValueWithShadows", "AddNestedValue", "NestedValues":
		if len(keys) == 0 {
			return o, false
		}
		o.key = keys[len(keys)-1-p.recv%len(keys)]
	}
	return o, true
}

// concStart loads the file a history starts from, with its specification.
func concStart(c *core.Case, r *rnd) (*ini.File, *cState, ini.LoadOptions, string) {
	o := ini.LoadOptions{AllowShadows: r.P(0.4), AllowNonUniqueSections: r.P(0.35), AllowNestedValues: r.P(0.3),
		AllowDuplicateShadowValues: r.P(0.4)}
	switch r.N(8) {
	case 0:
		o.Insensitive = true
	case 1:
		o.InsensitiveSections = true
	case 2:
		o.InsensitiveKeys = true
	}
	var b strings.Builder
	for _, s := range []string{"", "a", "a.b", "c", "a.b.c"} {
		if s != "" {
			if r.P(0.45) {
				continue
			}
			b.WriteString("[" + s + "]\n")
		}
		for _, k := range []string{"x", "y", "z"} {
			if r.P(0.35) {
				b.WriteString(k + " = " + core.Pick(r, cVals[1:4]) + "\n")
			}
		}
	}
	f, err := ini.LoadSources(o, []byte(b.String()))
	if err != nil {
		panic(err)
	}
	c.True(f.BlockMode && ini.Empty(o).BlockMode, "block mode is not on by default")
	st := &cState{opt: &o}
	for _, s := range f.Sections() {
		st.secs = append(st.secs, cSec{name: s.Name()})
		st.secPtr = append(st.secPtr, s)
		i := len(st.secs) - 1
		st.list = append(st.list, i)
		for _, k := range s.Keys() {
			st.keys = append(st.keys, cKey{name: k.Name(), val: k.Value()})
			st.keyPtr = append(st.keyPtr, k)
			st.secs[i].keys = append(st.secs[i].keys, len(st.keys)-1)
		}
	}
	return f, st, o, b.String()
}
