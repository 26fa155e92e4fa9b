package props

import (
	"bytes"
	"fmt"
	"os"
	"strconv"
	"strings"

	"github.com/go-ini/ini"

	"verif/harness/internal/core"
	"verif/harness/internal/model"
)

func init() {
	register(&core.Prop{ID: "C07", Level: "exploration", Quick: 220000, Thorough: 4000000, Run: runC07,
		Rule:        "a case is one file, parsed from a generated document or built by API calls or both, with one setting of options and format switches, written, loaded back and written again; distinct by the hash of the loaded state; non-trivial when it holds a key",
		Must:        []string{"round-trip", "value-quotes", "value-newline", "value-backquote", "value-backslash", "value-outer-space", "value-comment-symbol", "shadows", "nested", "boolean", "auto-increment", "raw-body", "comment", "indent", "save-to", "format-crlf", "enumerated", "many"},
		Assumptions: []string{"names are such that the format can express them (no line breaks or outer white space, key names not a lone dash)"}})
}

// setFormat sets the package-wide switches and returns them for the model.
func setFormat(fm model.Format) {
	ini.PrettyFormat, ini.PrettyEqual, ini.PrettySection, ini.DefaultHeader = fm.PrettyFormat, fm.PrettyEqual, fm.PrettySection, fm.DefaultHeader
	ini.DefaultFormatLeft, ini.DefaultFormatRight, ini.LineBreak = fm.Left, fm.Right, fm.LineBreak
}

func stdFormat() model.Format {
	return model.Format{PrettyFormat: true, PrettySection: true, LineBreak: "\n"}
}

func anyFormat(r *rnd) model.Format {
	fm := stdFormat()
	if r.P(0.75) {
		fm.PrettyFormat, fm.PrettyEqual, fm.PrettySection, fm.DefaultHeader = r.P(0.5), r.P(0.5), r.P(0.5), r.P(0.5)
		fm.Left = core.Pick(r, []string{"", "", " ", "  ", "\t"})
		fm.Right = core.Pick(r, []string{"", "", " ", "  ", "\t"})
		if r.P(0.2) {
			fm.LineBreak = "\r\n"
		}
	}
	return fm
}

// writeOptions draws options under which files can be written and read back.
func writeOptions(r *rnd) ini.LoadOptions {
	o := anyOptions(r)
	o.Loose, o.ShortCircuit = false, false
	o.UnparseableSections = nil
	if r.P(0.3) {
		o.UnparseableSections = []string{"raw", "Raw.1"}
	}
	o.KeyValueDelimiters = core.Pick(r, []string{"", "", "", "=", ":", "=:", "→", "=→", ":é", "|", "≔=", "@日", "=#"})
	o.KeyValueDelimiterOnWrite = ""
	if d := o.KeyValueDelimiters; d != "" && !strings.Contains(d, "=") || r.P(0.2) {
		o.KeyValueDelimiterOnWrite = delimText(r, &o)
		if o.KeyValueDelimiterOnWrite == "#" {
			o.KeyValueDelimiterOnWrite = "="
		}
	}
	return o
}

func listed(o *ini.LoadOptions, name string) bool {
	for _, u := range o.UnparseableSections {
		if strings.EqualFold(u, name) {
			return true
		}
	}
	return false
}

// normComment is a comment up to the spacing of its symbols.
func normComment(s string) string {
	var out []string
	for _, l := range strings.Split(strings.TrimSpace(s), "\n") {
		l = strings.TrimSpace(l)
		if l != "" && (l[0] == '#' || l[0] == ';') {
			l = l[:1] + " " + strings.TrimSpace(l[1:])
		} else {
			l = "; " + l
		}
		out = append(out, strings.TrimSpace(l))
	}
	if len(out) == 1 && out[0] == ";" && strings.TrimSpace(s) == "" {
		return ""
	}
	return strings.Join(out, "\n")
}

// roundView renders what a round trip has to keep.
func roundView(f *ini.File) string {
	var b strings.Builder
	for _, s := range f.Sections() {
		b.WriteString("section ")
		q(&b, s.Name())
		b.WriteString(" comment ")
		q(&b, normComment(s.Comment))
		b.WriteString(" body ")
		q(&b, s.Body())
		b.WriteByte('\n')
		for _, k := range s.Keys() {
			b.WriteString("  key ")
			q(&b, k.Name())
			b.WriteString(" all ")
			// An empty value with shadows can not be told from its first shadow.
			ql(&b, k.ValueWithShadows())
			b.WriteString(" nested ")
			ql(&b, k.NestedValues())
			b.WriteString(" comment ")
			q(&b, normComment(k.Comment))
			b.WriteByte('\n')
		}
	}
	return b.String()
}

func wellNamedKey(n string) bool {
	if n == "" || n == "-" || strings.TrimSpace(n) != n || strings.ContainsAny(n, "\n\ufeff") || strings.HasPrefix(n, "\xff\xfe") || strings.HasPrefix(n, "\xfe\xff") {
		return false
	}
	return !strings.Contains(n, "`") || !strings.HasSuffix(n, `"`) && !strings.Contains(n, `"""`)
}

func expressible(v string) bool { return !strings.Contains(v, "`") || !strings.Contains(v, `"""`) }

// sanitize removes from a parsed or edited file what is outside the domain of
// the round trip.
func sanitize(f *ini.File, o *ini.LoadOptions, fm model.Format) {
	for _, s := range f.Sections() {
		if s.Name() == f.Sections()[0].Name() && !fm.DefaultHeader {
			s.Comment = ""
		}
		auto := 0
		for _, k := range s.Keys() {
			drop := !wellNamedKey(k.Name())
			if n := k.NestedValues(); len(n) > 0 && (o.AllowPythonMultilineValues || k.Value() != "" || len(k.ValueWithShadows()) > 0) {
				drop = true
			}
			seen := map[string]bool{}
			for _, v := range k.ValueWithShadows() {
				// SetValue does not compare with the shadows.
				if seen[v] && !o.AllowDuplicateShadowValues {
					drop = true
				}
				seen[v] = true
			}
			for _, v := range append(k.ValueWithShadows(), k.Value()) {
				if !expressible(v) {
					drop = true
				}
			}
			if listed(o, s.Name()) {
				drop = true
			}
			if !drop && strings.HasPrefix(k.Name(), "#") {
				// Only an unbroken run of numbers can be auto-increment keys.
				if k.Name() == "#"+strconv.Itoa(auto+1) {
					auto++
				} else {
					drop = true
				}
			}
			if drop {
				s.DeleteKey(k.Name())
			}
		}
	}
}

var apiKeyNames = []string{"a", "b", "key", "Key", "k k", "x=y", "x:y", "q\"q", "`", "b`q", "'s'", "#h", ";h", "[h", "]", "k#1", "k;2", "k\\", "\"x\"", "'", "ключ", "é→", "日", "%(a)s", "a|b", "\\#e", "long_key_name_here", "\"\"\"t", "\x00", "@", "a\tb", "- x", "--"}

// hostileValue draws any value at all.
func hostileValue(c *core.Case) string {
	r := c.R
	for {
		var v string
		switch core.PickW(r, []core.W[int]{{4, 0}, {6, 1}, {2, 2}, {2, 3}, {1, 4}}) {
		case 0:
			v = core.Pick(r, words)
		case 1:
			v = hostile(r, 6)
		case 2:
			var b strings.Builder
			for i := r.Range(1, 5); i > 0; i-- {
				b.WriteString(hostile(r, 3) + core.Pick(r, []string{"\n", "\r\n", "\n\n", " ", "\\\n", "\n  ", "\n[x]\n", "\nk=v"}))
			}
			v = b.String() + hostile(r, 2)
		case 3:
			qt := core.Pick(r, []string{`"`, "'", "`", `"""`})
			v = qt + hostile(r, 3) + qt
		case 4:
			if r.P(0.1) {
				v = longText(r)
			}
			v = pad(r) + v + pad(r)
		}
		if expressible(v) {
			return v
		}
	}
}

func countValue(c *core.Case, v string) {
	if strings.ContainsAny(v, `"'`) {
		c.Count("value-quotes")
	}
	if strings.Contains(v, "\n") {
		c.Count("value-newline")
	}
	if strings.Contains(v, "`") {
		c.Count("value-backquote")
	}
	if strings.Contains(v, `\`) {
		c.Count("value-backslash")
	}
	if strings.TrimSpace(v) != v {
		c.Count("value-outer-space")
	}
	if strings.ContainsAny(v, "#;") {
		c.Count("value-comment-symbol")
	}
}

// apiEdits applies API calls that create content.
func apiEdits(c *core.Case, f *ini.File, o *ini.LoadOptions, fm model.Format) {
	r := c.R
	comment := func() string {
		n := r.Range(1, 3)
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, core.Pick(r, []string{"", "# ", "#", "; ", ";"})+core.Pick(r, []string{"note", "k = v", "[x]", "ünï", "two words", "", "\"q", "`"}))
		}
		return strings.TrimSpace(strings.Join(l, core.Pick(r, []string{"\n", "\r\n"})))
	}
	n := r.Range(1, 10)
	numbered := 0
	if r.P(0.003) {
		c.Count("many")
		n = core.Pick(r, []int{100, 100, 300, 600})
		numbered = r.Range(n/4, n)
	}
	oneSec := r.P(0.5)
	for ; n > 0; n-- {
		sn := core.Pick(r, []string{"", "s", "a.b", "S", "x y", "#c", ";c", "a]b", "[", "ключ", "q\"", "`", " sp "})
		if numbered > 0 && r.P(0.9) {
			sn = "s"
			if !oneSec {
				sn = "s" + strconv.Itoa(r.N(numbered))
			}
		}
		s := f.Section(sn)
		kn := core.Pick(r, apiKeyNames)
		if numbered > 0 && r.P(0.9) {
			kn = "k" + strconv.Itoa(r.N(numbered))
		} else if r.P(0.05) {
			kn = randName(r)
		}
		if !wellNamedKey(kn) {
			continue
		}
		switch core.PickW(r, []core.W[int]{{10, 0}, {3, 1}, {3, 2}, {2, 3}, {3, 4}, {2, 5}, {1, 6}, {2, 7}, {2, 8}}) {
		case 0:
			v := hostileValue(c)
			c.Logf("[%q] NewKey(%q, %q)", sn, kn, v)
			countValue(c, v)
			_, _ = s.NewKey(kn, v)
		case 1:
			v := hostileValue(c)
			c.Logf("[%q].Key(%q).SetValue(%q)", sn, kn, v)
			countValue(c, v)
			if k := s.Key(kn); len(k.NestedValues()) == 0 {
				k.SetValue(v)
			}
		case 2:
			if o.AllowShadows {
				k, err := s.NewKey(kn, "first")
				if err == nil {
					for i := few(r, 2); i >= 0; i-- {
						v := hostileValue(c)
						c.Logf("[%q].Key(%q).AddShadow(%q)", sn, kn, v)
						countValue(c, v)
						if len(k.NestedValues()) == 0 {
							_ = k.AddShadow(v)
							c.Count("shadows")
						}
					}
				}
			}
		case 3:
			if o.AllowNestedValues && !o.AllowPythonMultilineValues {
				s.DeleteKey(kn)
				k, err := s.NewKey(kn, "")
				for i := few(r, 3); i >= 0 && err == nil; i-- {
					v := core.Pick(r, []string{"n", "a = b", "# n", "; n", "[n]", "x y", "\"", "`", "\\", "n\\", "", "日本", "-", "'q'", "k ="})
					c.Logf("[%q].Key(%q).AddNestedValue(%q)", sn, kn, v)
					err = k.AddNestedValue(v)
					c.Count("nested")
				}
			}
		case 4:
			if o.AllowBooleanKeys {
				s.DeleteKey(kn)
				c.Logf("[%q].NewBooleanKey(%q)", sn, kn)
				if k, err := s.NewBooleanKey(kn); err == nil {
					c.Count("boolean")
					if r.P(0.3) {
						k.SetValue(core.Pick(r, []string{"false", "", "TRUE", "x;y"}))
						c.Logf("  set to %q", k.Value())
					}
				}
			}
		case 5:
			if len(o.UnparseableSections) > 0 {
				n := core.Pick(r, o.UnparseableSections)
				body := ""
				for i := few(r, 4); i > 0; i-- {
					body += core.Pick(r, []string{"free text", "k = v", "\"x", "`y", "a # b", "日本 text", "\\", "-", "=x", "]"}) + core.Pick(r, []string{"\n", "\r\n", "\n"})
				}
				if r.P(0.5) {
					body = strings.TrimSpace(body)
				}
				c.Logf("NewRawSection(%q, %q)", n, body)
				_, _ = f.NewRawSection(n, body)
				c.Count("raw-body")
			}
		case 6:
			c.Logf("[%q].DeleteKey(%q)", sn, kn)
			s.DeleteKey(kn)
		case 7:
			c.Count("comment")
			s.Comment = comment()
			c.Logf("[%q].Comment = %q", sn, s.Comment)
		case 8:
			if k, err := s.GetKey(kn); err == nil {
				c.Count("comment")
				k.Comment = comment()
				c.Logf("[%q].Key(%q).Comment = %q", sn, kn, k.Comment)
			}
		}
	}
}

func runC07(c *core.Case) {
	r := c.R
	if c.Idx%4 == 0 {
		enumC07(c)
		return
	}
	o := writeOptions(r)
	fm := anyFormat(r)
	if o.AllowNonUniqueSections {
		fm.DefaultHeader = false
	}
	c.Logf("options %s format %+v", optText(o), fm)
	setFormat(fm)
	defer setFormat(stdFormat())
	f := ini.Empty(o)
	if r.P(0.7) {
		g := &docGen{r: r, o: &o}
		for i := 0; ; i++ {
			n := r.Range(1, 12)
			if r.P(0.002) {
				n = g.widen()
			}
			t := g.text(n)
			if ff, err := ini.LoadSources(o, []byte(t)); err == nil {
				c.Logf("text %q", t)
				f = ff
				break
			}
			if i > 15 {
				break
			}
		}
		for _, s := range f.Sections() {
			if s.Body() != "" {
				c.Count("raw-body")
			}
			for _, k := range s.Keys() {
				if strings.HasPrefix(k.Name(), "#1") {
					c.Count("auto-increment")
				}
				if len(k.NestedValues()) > 0 {
					c.Count("nested")
				}
				if len(k.ValueWithShadows()) > 1 {
					c.Count("shadows")
				}
				if k.Comment != "" {
					c.Count("comment")
				}
			}
		}
		sanitize(f, &o, fm)
	}
	if r.P(0.7) {
		apiEdits(c, f, &o, fm)
		sanitize(f, &o, fm)
	}
	roundTrip(c, f, o, fm)
}

// roundTrip writes, loads, compares and writes again.
func roundTrip(c *core.Case, f *ini.File, o ini.LoadOptions, fm model.Format) {
	r := c.R
	want := roundView(f)
	c.Logf("state:\n%s", want)
	var b1 bytes.Buffer
	var err error
	indent := ""
	if !o.AllowPythonMultilineValues && !o.AllowNestedValues && r.P(0.3) {
		indent = core.Pick(r, []string{" ", "  ", "\t", "    "})
		c.Count("indent")
	}
	var f2 *ini.File
	if r.P(0.15) {
		c.Count("save-to")
		p := c.Scratch(fmt.Sprintf(core.Pick(r, fileNames), 7))
		if r.P(0.5) {
			must(os.WriteFile(p, []byte(strings.Repeat("old content = x\n", 200)), 0o644))
		}
		if err = f.SaveToIndent(p, indent); err != nil {
			c.Failf("SaveToIndent: %v", err)
		}
		data, e := os.ReadFile(p)
		must(e)
		b1.Write(data)
		c.Logf("written: %q", b1.String())
		f2, err = ini.LoadSources(o, p)
	} else {
		if _, err = f.WriteToIndent(&b1, indent); err != nil {
			c.Failf("WriteToIndent: %v", err)
		}
		c.Logf("written: %q", b1.String())
		f2, err = ini.LoadSources(o, b1.Bytes())
	}
	if fm.LineBreak == "\r\n" {
		c.Count("format-crlf")
	}
	if err != nil {
		c.Failf("loading the written text: %v", err)
	}
	got := roundView(f2)
	c.Eq("state after writing and loading", got, want)
	c.Count("round-trip")
	var b2 bytes.Buffer
	if _, err := f2.WriteToIndent(&b2, indent); err != nil {
		c.Failf("WriteToIndent: %v", err)
	}
	c.Eq("text written by the loaded file", b2.String(), b1.String())
	c.Observe(got)
	c.Trivial = !strings.Contains(got, "\n  key ")
}

// enumC07 round-trips enumerated values under all value options.
func enumC07(c *core.Case) {
	n := c.Idx / 4
	v, _ := nthString(n)
	c.Trivial = true
	if !expressible(v) {
		return
	}
	defer setFormat(stdFormat())
	step := 1
	if !c.Thorough && len(v) > 3 {
		step = 5
	}
	countValue(c, v)
	for m := n % step; m < 128; m += step {
		c.ResetLog()
		o := lexMask(m)
		o.AllowBooleanKeys = true
		fm := stdFormat()
		fm.PrettyFormat = m%3 != 0
		fm.PrettySection = m%2 != 0
		setFormat(fm)
		f := ini.Empty(o)
		_, err := f.Section("s").NewKey("k", v)
		must(err)
		if n := "n" + v; wellNamedKey(n) {
			_, err = f.Section("s").NewKey(n, "x")
			must(err)
			_, err = f.Section("b").NewBooleanKey(n)
			must(err)
		}
		if wellNamedKey(v) {
			_, err = f.Section("t").NewBooleanKey(v)
			must(err)
			_, err = f.Section("u").NewKey(v, v)
			must(err)
		}
		_, err = f.Section("t").NewKey("last", v)
		must(err)
		c.Logf("options %s format %+v value %q", optText(o), fm, v)
		roundTrip(c, f, o, fm)
		c.Count("enumerated")
	}
}
