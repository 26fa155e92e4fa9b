package props

import (
	"fmt"
	"strings"

	"github.com/go-ini/ini"

	"verif/harness/internal/core"
	"verif/harness/internal/model"
)

func init() {
	register(&core.Prop{ID: "C11", Level: "exploration", Quick: 400000, Thorough: 4000000, Run: runC11,
		Rule: "a case is a document parsed and then a history of calls, with every name in random letter case, under one of the case options (or none), all results, object identities, expansions and states compared with the model; distinct by the hash of the final state; non-trivial when two spellings met",
		Must: []string{"opt-Insensitive", "opt-InsensitiveSections", "opt-InsensitiveKeys", "opt-none", "op-NewSection", "op-GetSection", "op-HasSection", "op-SectionsByName", "op-DeleteSection", "op-DeleteSectionWithIndex", "op-NewKey", "op-NewBooleanKey", "op-GetKey", "op-HasKey", "op-Key", "op-DeleteKey", "op-NewRawSection", "op-SectionWithIndex", "op-ChildSections", "op-ParentKeys", "raw-line", "expanded", "inherited"}})
	register(&core.Prop{ID: "C12", Level: "exploration", Quick: 200000, Thorough: 4000000, Run: runC12,
		Rule: "a case is a tree of sections (deep names, gaps, odd delimiters, non-unique instances) with a history of lookups, changes, deletions and expansions through children, compared with the model by value and by object identity; distinct by the hash of the final state; non-trivial when a key was inherited",
		Must: []string{"op-GetKey", "op-HasKey", "op-Key", "op-ParentKeys", "op-ChildSections", "children-of-missing", "inherited", "inherited-past-gap", "expanded", "custom-delimiter", "multi-char-delimiter", "op-DeleteSection", "stale-object"}})
	register(&core.Prop{ID: "C16", Level: "exploration", Quick: 400000, Thorough: 4000000, Run: runC16,
		Rule: "a case is a document with repeated keys and indented lines under a combination of the shadow and nested options, and a history of adding, replacing and removing values, compared with the model; distinct by the hash of the final state; non-trivial when a key has a shadow or nested value",
		Must: []string{"op-AddShadow", "op-AddNestedValue", "nested-line", "shadow-key", "nested-key", "shadow-refused", "nested-refused", "duplicate-kept", "auto-or-boolean-refused", "boolean-key", "auto-key", "many"}})
	register(&core.Prop{ID: "C17", Level: "exploration", Quick: 400000, Thorough: 4000000, Run: runC17,
		Rule: "a case is a document with boolean keys, dash keys and unparseable sections and a history of edits and writes, each state and written text compared with the model; distinct by the hash of the final text; non-trivial when one of the three kinds is present",
		Must: []string{"boolean-key", "auto-key", "raw-line", "op-NewBooleanKey", "op-NewRawSection", "op-SetBody", "op-WriteTo", "boolean-true-written", "boolean-value-written", "raw-written", "auto-written", "auto-restart", "raw-comment-line", "unlisted-section", "many", "folded-name"}})
}

// validText draws documents until one is accepted under the options.
func validText(g *docGen, lines int) string {
	for i := 0; i < 20; i++ {
		t := g.text(g.r.N(lines))
		if model.New(*g.o).Parse(t) == nil {
			return t
		}
	}
	return ""
}

func loadTwin(c *core.Case, o ini.LoadOptions, text string) *twin {
	t := newTwin(c, o, text)
	if t == nil {
		c.Trivial = true
		return nil
	}
	if c.R.P(0.2) {
		t.f.BlockMode = false
	}
	return t
}

func (t *twin) run(n int) {
	every := t.r.Range(1, 4)
	for i := 0; i < n; i++ {
		t.step()
		if i%every == 0 {
			t.sync()
		}
	}
	t.sync()
	t.checkStale()
	t.c.Observe(SnapModel(t.m))
}

// inheritance looks every key name up through every section.
func (t *twin) inheritance() (found bool) {
	for _, s := range t.m.Secs {
		for _, n := range t.keyNames {
			if n == "" {
				continue
			}
			w := s.GetKey(n)
			k, err := t.rs[s].GetKey(n)
			t.bool("GetKey error for "+n+" through "+s.Name, err != nil, w == nil)
			t.bindKey("GetKey "+n+" through "+s.Name, k, w)
			t.bool("HasKey", t.rs[s].HasKey(n), w != nil)
			if w != nil {
				t.bindKey("Key "+n+" through "+s.Name, t.rs[s].Key(n), w)
				if w.S != s {
					found = true
					t.c.Count("inherited")
					d := t.m.Opt.ChildSectionDelimiter
					if i := strings.LastIndex(s.Name, d); t.m.Get(s.Name[:i]) == nil {
						t.c.Count("inherited-past-gap")
					}
				}
			}
		}
		t.secList("ChildSections of "+s.Name, t.rs[s].ChildSections(), s.Children())
		t.keyList("ParentKeys of "+s.Name, t.rs[s].ParentKeys(), s.ParentKeys())
		if m := t.m.Get(s.Name); m == s {
			t.secList("File.ChildSections of "+s.Name, t.f.ChildSections(s.Name), s.Children())
		}
	}
	if n := t.sname(); t.r.P(0.3) && n != "" && t.m.Get(n) == nil {
		t.childrenOfMissing(n)
	}
	return found
}

// childrenOfMissing lists the children of a section that does not exist, which
// does after that.
func (t *twin) childrenOfMissing(n string) {
	t.c.Logf("File.ChildSections(%q), missing", n)
	t.c.Count("children-of-missing")
	l := t.f.ChildSections(n)
	m := t.m.Section(n)
	t.bindSec("Section", t.f.Section(n), m)
	t.secList("File.ChildSections of missing "+n, l, m.Children())
}

func runC11(c *core.Case) {
	r := c.R
	o := ini.LoadOptions{AllowShadows: r.P(0.1), AllowNonUniqueSections: r.P(0.15), AllowBooleanKeys: r.P(0.3), AllowNestedValues: r.P(0.1)}
	opt := core.Pick(r, []string{"Insensitive", "InsensitiveSections", "InsensitiveKeys", "none", "both"})
	c.Count("opt-" + opt)
	switch opt {
	case "Insensitive":
		o.Insensitive = true
	case "InsensitiveSections":
		o.InsensitiveSections = true
	case "InsensitiveKeys":
		o.InsensitiveKeys = true
	case "both":
		o.InsensitiveSections, o.InsensitiveKeys = true, true
	}
	secs := []string{"Sec", "SEC", "sec", "Sec.Child", "sEC.cHILD", "Sec.Child.Leaf", "DEFAULT", "default", "Default", "ЖУК", "жук", "Жук.Лапа"}
	keys := []string{"Key", "KEY", "key", "kEy", "Имя", "имя", "ИМЯ", "Url", "URL"}
	if r.P(0.4) {
		o.UnparseableSections = []string{flipCase(r, "Raw"), flipCase(r, "Сырой")}
	}
	g := &docGen{r: r, o: &o, plain: true, secs: secs, keys: keys}
	text := validText(g, 12)
	if len(o.UnparseableSections) > 0 && r.P(0.7) {
		text += "\n[" + flipCase(r, o.UnparseableSections[r.N(2)]) + "]\nline one\nLine = Two\n"
		if r.P(0.5) {
			text += "[" + flipCase(r, "sec") + "]\n" + flipCase(r, "key") + " = v\n"
		}
	}
	t := loadTwin(c, o, text)
	if t == nil {
		return
	}
	t.secNames = append(append([]string{}, secs...), "", "Raw", "RAW", "Сырой")
	t.keyNames = keys
	t.vals = []string{"v", "V", "%(KEY)s", "%(key)s", "%(Имя)s-%(ИМЯ)s", "%(url)s", "%(Missing)s"}
	t.wExpand = 5
	t.run(r.Range(2, 25))
	inh := t.inheritance()
	// Every spelling of every name.
	two := false
	for _, s := range t.m.Secs {
		n := flipCase(r, s.Name)
		two = two || n != s.Name
		w := t.m.Get(n)
		t.bool("HasSection "+n, t.f.HasSection(n), w != nil)
		got, _ := t.f.GetSection(n)
		t.bindSec("GetSection "+n, got, w)
		for _, k := range s.Keys {
			kn := flipCase(r, k.Name)
			got, _ := t.rs[s].GetKey(kn)
			t.bindKey("GetKey "+kn, got, s.GetKey(kn))
		}
	}
	for _, k := range t.keys {
		if want, _, ok := k.Expand(k.Value, 1<<16); ok {
			c.Eq("String of "+k.Name, t.rk[k].String(), want)
		}
	}
	t.sync()
	c.Trivial = !inh && !two
}

func runC12(c *core.Case) {
	r := c.R
	o := ini.LoadOptions{}
	d := "."
	if r.P(0.4) {
		d = core.Pick(r, []string{"/", "::", "->", "→", "..", " ", "-", "ab", ":", "a", "\\"})
		o.ChildSectionDelimiter = d
		c.Count("custom-delimiter")
		if len(d) > 1 {
			c.Count("multi-char-delimiter")
		}
	}
	o.Insensitive = r.P(0.1)
	o.AllowNonUniqueSections = r.P(0.15)
	o.AllowShadows = r.P(0.1)
	j := func(p ...string) string { return strings.Join(p, d) }
	names := []string{"p", j("p", "q"), j("p", "q", "r"), j("p", "q", "r", "s"), j("p", "qq"), j("pp", "q"), j("q", "r"), "pq", "p" + d, d + "p", j("p", "", "q"), j("p", "q", ""), j("x", "y", "z"), "DEFAULT", j("DEFAULT", "k"), j("default", "k"), j("p", "q", "R"), d, d + d, "p.q"}
	secs := []string{}
	for _, n := range names {
		if r.P(0.6) && n != "" {
			secs = append(secs, n)
		}
	}
	secs = append(secs, names[0], names[2])
	if r.P(0.03) {
		// A deep line of descent, some of it present.
		c.Count("deep")
		line := []string{"p"}
		for i := core.Pick(r, []int{5, 9, 12, 20, 40, 120}); i > 0; i-- {
			line = append(line, core.Pick(r, []string{"p", "q", "r", "x1"}))
		}
		for i := r.Range(2, 6); i > 0; i-- {
			secs = append(secs, j(line[:r.Range(1, len(line))]...), j(line...))
		}
	}
	keys := []string{"k", "x", "y", "K", "only"}
	var b strings.Builder
	for i := r.Range(1, 8); i > 0; i-- {
		n := strings.TrimSpace(core.Pick(r, secs))
		if n == "" {
			continue
		}
		b.WriteString("[" + n + "]\n")
		for i := r.N(3); i > 0; i-- {
			b.WriteString(core.Pick(r, keys) + " = " + core.Pick(r, []string{"1", "2", "%(x)s", "%(y)s", ""}) + "\n")
		}
	}
	t := loadTwin(c, o, b.String())
	if t == nil {
		return
	}
	t.secNames = append(secs, "DEFAULT", "")
	if r.P(0.15) {
		t.odd = 0.1
	}
	t.keyNames = keys
	t.vals = []string{"", "1", "2", "3", "%(x)s", "%(y)s+%(k)s", "%(only)s"}
	t.wExpand = 8
	t.wDelete = 6
	inh := t.inheritance()
	t.sync()
	for i := r.Range(1, 4); i > 0; i-- {
		t.run(r.Range(2, 12))
		inh = t.inheritance() || inh
		t.sync()
	}
	c.Trivial = !inh
}

func runC16(c *core.Case) {
	r := c.R
	o := ini.LoadOptions{AllowShadows: r.P(0.7), AllowNestedValues: r.P(0.7), AllowDuplicateShadowValues: r.P(0.3), AllowBooleanKeys: r.P(0.3),
		AllowNonUniqueSections: r.P(0.1), Insensitive: r.P(0.1), InsensitiveKeys: r.P(0.1), AllowPythonMultilineValues: r.P(0.05)}
	keys := []string{"a", "b", "A", "a", "c d", "flag"}
	if r.P(0.1) {
		keys = append(keys, randName(r))
	}
	vals := append([]string{"", "v", "w", "v", "x, y", "v ", "V", "\"v\"", "", "1", "#", "`a # b`"}, keys...)
	nested := []string{"n1", "n2", "n1", "a = b", "[x]", "-=1", "# n", "; n", ";n", "`q`", "é日", "n # c", "n \\", "\"n\"", "%(a)s", "v", "a"}
	if r.P(0.2) {
		for i := r.Range(1, 3); i > 0; i-- {
			nested = append(nested, randText(r))
		}
	}
	many := r.P(0.01)
	text := ""
	for try := 0; try < 6; try++ {
		var b strings.Builder
		n := r.N(14)
		if many {
			n = r.Range(100, 400)
		}
		empty := false // a key without value is open
		for i := n; i > 0; i-- {
			kind := r.N(9)
			if many && (kind == 0 || kind == 5) && r.P(0.97) || many && (kind == 2 || kind == 3) && !(o.AllowNestedValues && empty) {
				kind = 7
			}
			empty = empty && kind < 4 && kind != 0
			switch kind {
			case 0:
				b.WriteString(core.Pick(r, []string{"[s]", "[t]", "[s.u]", "[DEFAULT]"}))
			case 1:
				b.WriteString(core.Pick(r, []string{"", "  ", "\t", "# comment", " # indented comment", "; c"}))
			case 2, 3:
				b.WriteString(core.Pick(r, []string{" ", "\t", "    ", " \t "}) + core.Pick(r, nested))
			case 4:
				b.WriteString("-=" + core.Pick(r, vals))
			case 5:
				if o.AllowBooleanKeys {
					b.WriteString(core.Pick(r, []string{"a", "flag"}))
				}
			default:
				v := core.Pick(r, vals)
				if many && r.P(0.7) {
					v = fmt.Sprintf("v%d", r.N(300))
				}
				empty = v == ""
				b.WriteString(core.Pick(r, keys) + core.Pick(r, []string{"=", " = ", ":"}) + v)
			}
			b.WriteString(core.Pick(r, []string{"\n", "\n", "\n", "\r\n"}))
		}
		if text = b.String(); model.New(o).Parse(text) == nil {
			break
		}
	}
	t := loadTwin(c, o, text)
	if t == nil {
		return
	}
	t.secNames = []string{"s", "t", "s.u", "DEFAULT"}
	if r.P(0.1) {
		t.odd = 0.1
	}
	t.keyNames = []string{"a", "b", "A", "c d", "flag", "#1"}
	t.vals = []string{"", "v", "w", "x, y", "V", "é", "v ", "a", "b", "c d"}
	if many {
		c.Count("many")
		for i := 0; i < 100; i++ {
			t.vals = append(t.vals, fmt.Sprintf("v%d", i))
		}
	}
	t.wKey = 25
	t.wDelete = 2
	t.run(r.N(25))
	some := false
	for _, k := range t.keys {
		rk := t.rk[k]
		if len(k.Shadows) > 0 {
			some = true
			c.Count("shadow-key")
			for i, v := range k.Shadows {
				if v == k.Value && i > 0 && o.AllowDuplicateShadowValues {
					c.Count("duplicate-kept")
				}
			}
		}
		if len(k.Nested) > 0 {
			some = true
			c.Count("nested-key")
		}
		t.list("ValueWithShadows", rk.ValueWithShadows(), k.Values())
		t.list("NestedValues", rk.NestedValues(), k.Nested)
		if !o.AllowShadows {
			c.Count("shadow-refused")
			c.True(rk.AddShadow("refused") != nil, "AddShadow without AllowShadows reports no error")
		} else if k.Auto || k.Bool {
			c.Count("auto-or-boolean-refused")
			c.True(rk.AddShadow("refused") != nil, "AddShadow on an auto-increment or boolean key reports no error")
		}
		if !o.AllowNestedValues {
			c.Count("nested-refused")
			c.True(rk.AddNestedValue("refused") != nil, "AddNestedValue without AllowNestedValues reports no error")
		} else if k.Auto || k.Bool {
			c.Count("auto-or-boolean-refused")
			c.True(rk.AddNestedValue("refused") != nil, "AddNestedValue on an auto-increment or boolean key reports no error")
		}
		t.list("ValueWithShadows after refusals", rk.ValueWithShadows(), k.Values())
		t.list("NestedValues after refusals", rk.NestedValues(), k.Nested)
	}
	t.sync()
	c.Trivial = !some
}

func runC17(c *core.Case) {
	r := c.R
	o := ini.LoadOptions{AllowBooleanKeys: r.P(0.8), AllowShadows: r.P(0.1), Insensitive: r.P(0.1), InsensitiveSections: r.P(0.1), AllowNonUniqueSections: r.P(0.1),
		SkipUnrecognizableLines: r.P(0.15), IgnoreInlineComment: r.P(0.1)}
	raws := []string{"raw", "Raw 2", "сырой", "raw.sub"}
	for _, n := range raws {
		if r.P(0.5) {
			o.UnparseableSections = append(o.UnparseableSections, n)
		}
	}
	listed := func(n string) bool {
		for _, u := range o.UnparseableSections {
			if u == n {
				return true
			}
		}
		return false
	}
	var b strings.Builder
	eol := core.Pick(r, []string{"\n", "\n", "\r\n"})
	section := ""
	dashes, restart := 0, false
	n, many := r.N(18), r.P(0.01)
	if many {
		n = r.Range(150, 600)
		c.Count("many")
	}
	for i := n; i > 0; i-- {
		kind := core.PickW(r, []core.W[int]{{3, 0}, {3, 1}, {4, 2}, {4, 3}, {2, 4}, {2, 5}, {3, 6}})
		if many && kind < 2 && r.P(0.98) {
			kind = 2
		}
		switch kind {
		case 0:
			section = core.Pick(r, []string{"s", "t", "s", "raw x", "s", "t", " raw", "raw ", " raw ", "raw\t", "raw.", "ra", "aw"})
			if r.P(0.3) {
				// The name of a listed section in another case.
				section = core.Pick(r, []string{"Raw", "RAW", "raw 2", "Сырой", "raw.Sub", "raw.ſub"})
				if !o.Insensitive && !o.InsensitiveSections {
					c.Count("folded-name")
				}
			}
			if dashes > 0 {
				restart = true
			}
			dashes = 0
			b.WriteString("[" + section + "]")
		case 1:
			section = core.Pick(r, raws)
			if listed(section) {
				b.WriteString("[" + section + "]" + core.Pick(r, []string{"", " ; head"}))
			} else {
				c.Count("unlisted-section")
				b.WriteString("[" + section + "]")
			}
		case 2:
			b.WriteString("-" + core.Pick(r, []string{"=", " = ", ":"}) + core.Pick(r, []string{"x", "y", "true", "", "a b"}))
			dashes++
			if restart && !listed(section) {
				c.Count("auto-restart")
			}
		case 3:
			if o.AllowBooleanKeys || o.SkipUnrecognizableLines || listed(section) {
				b.WriteString(core.Pick(r, []string{"flag", "flag two", "key # c", "on;off", "-", "флаг", "  spaced  "}))
			}
		case 4:
			if listed(section) {
				b.WriteString(core.Pick(r, []string{"  <html a=\"b\">", "text ` with \" quotes", "`", "\"\"\"", "a = b = c", "\\", "tail \\", "é日", "\tindented", "=x", "% (a)s"}))
			}
		case 5:
			b.WriteString(core.Pick(r, []string{"# comment", "; c", ""}))
			if listed(section) {
				c.Count("raw-comment-line")
			}
		case 6:
			b.WriteString(core.Pick(r, []string{"flag = ", "k = ", "n = "}) + core.Pick(r, []string{"true", "false", "1", "", "v"}))
		}
		b.WriteString(eol)
	}
	t := loadTwin(c, o, b.String())
	if t == nil {
		return
	}
	defer setFormat(stdFormat())
	setFormat(stdFormat())
	t.secNames = append([]string{"s", "t", "DEFAULT", ""}, raws...)
	t.keyNames = []string{"flag", "flag two", "k", "n", "#1", "#2", "флаг"}
	t.vals = []string{"true", "false", "TRUE", "v", "", "1", "yes", "on", "no", "True", "t", "y", "off"}
	t.wWrite = 8
	t.wKey = 10
	t.run(r.N(25))
	some := false
	for _, s := range t.m.Secs {
		if s.Raw {
			some = true
			c.Count("raw-written")
		}
		for _, k := range s.Keys {
			some = some || k.Bool || k.Auto
			switch {
			case k.Bool && k.Value == "true":
				c.Count("boolean-true-written")
				v, err := t.rk[k].Bool()
				c.True(err == nil && v, "boolean key %q reads as %v, %v", k.Name, v, err)
			case k.Bool:
				c.Count("boolean-value-written")
			case k.Auto:
				c.Count("auto-written")
			}
		}
	}
	var w strings.Builder
	_, err := t.f.WriteTo(&w)
	c.True(err == nil, "WriteTo: %v", err)
	c.Eq("written text", w.String(), t.m.Render(stdFormat()))
	c.Observe(w.String())
	c.Trivial = !some
}
