package props

import (
	"fmt"
	"strings"

	"github.com/go-ini/ini"

	"verif/harness/internal/core"
	"verif/harness/internal/model"
)

func init() {
	register(&core.Prop{ID: "C01", Level: "exploration", Quick: 300000, Thorough: 2500000, Run: runC01,
		Rule: "a case is one (options, document) pair; distinct by the hash of the observed file state; non-trivial when at least one key was loaded",
		Must: []string{"key", "header", "comment-line", "header-comment", "auto-key", "layout-variant", "load-none", "wide"},
		Assumptions: []string{"the reference model in harness/internal/model states the documented format",
			"option combinations and documents are sampled, not exhausted"}})
}

// runC01 loads one document and compares it with the reference parse, then
// re-lays the document out and checks that nothing changed.
func runC01(c *core.Case) {
	r := c.R
	o := ini.LoadOptions{}
	if r.P(0.6) {
		o = anyOptions(r)
	}
	o.AllowPythonMultilineValues = false
	if r.P(0.5) {
		layoutCase(c, o)
		return
	}
	g := &docGen{r: r, o: &o, garbage: 0.05, plain: r.P(0.5)}
	if r.P(0.4) {
		for i := 0; i < 4; i++ {
			g.secs = append(g.secs, core.Pick(r, secNames))
		}
	}
	n := r.Range(1, 24)
	if r.P(0.02) {
		c.Count("wide")
		n = g.widen()
	}
	text := g.text(n)
	if r.P(0.1) {
		text = mutate(r, text)
	}
	if r.P(0.03) {
		// Characters that are neither white space nor visible begin a line.
		c.Count("invisible")
		lines := strings.SplitAfter(text, "\n")
		i := r.N(len(lines))
		lines[i] = core.Pick(r, []string{"\ufeff", "\ufeff", "\x00", "\u200b", "\x7f", "\x1a", "\u00ad"}) + lines[i]
		text = strings.Join(lines, "")
	}
	f, m := checkLoad(c, o, text)
	c.Trivial = f == nil || !strings.Contains(SnapModel(m), "\n  key ")
}

// item is one logical line of a laid-out document.
type item struct {
	kind       byte // k key, s section header, c comment, b bool
	name       string
	qname      string // the written name
	delim      string
	value      string // written value without spacing
	inline     string // inline comment with its symbol
	commentTxt string
}

// layoutCase builds a list of logical lines, predicts the outcome directly
// from it and renders it in several layouts, all of which must load alike.
func layoutCase(c *core.Case, o ini.LoadOptions) {
	r := c.R
	o.UnparseableSections = nil
	o.AllowNestedValues = false
	o.SkipUnrecognizableLines = r.P(0.2)
	o.KeyValueDelimiters = core.Pick(r, []string{"", "=", ":", "→", "=→", "|", "日="})
	n := core.PickW(r, []core.W[int]{{30, r.Range(1, 20)}, {1, r.Range(60, 200)}})
	numbered, heads := 0, 15
	if n >= 60 && r.P(0.7) {
		n = core.Pick(r, []int{n, n, 500, 1200})
		numbered = r.Range(n/3, n)
		heads = core.Pick(r, []int{0, 1, 15, 100})
	}
	var items []item
	plainWord := func() string {
		return core.Pick(r, []string{"v", "value", "1", "true", "hello world", "héllo", "日本語", "a  b", "x,y", "[x]", "it's", "é", "a\tb", "0x1F", "x=y", "p:q", "a|b", "say \"hi\" now", "C:\\dir\\file", "$HOME"})
	}
	for i := 0; i < n; i++ {
		switch core.PickW(r, []core.W[int]{{60, 0}, {heads, 1}, {20, 2}, {5, 3}}) {
		case 0:
			it := item{kind: 'k', name: core.Pick(r, []string{"a", "A", "b", "key", "Key", "name", "x.y", "k k", "ключ", "é", "k1", "long_key_name", "k#1", "p'q", "a]b", "-x"}), delim: delimText(r, &o)}
			if r.P(0.1) {
				it.name = randName(r)
			}
			if numbered > 0 && r.P(0.9) {
				it.name = fmt.Sprint("k", r.N(numbered))
			}
			it.qname = it.name
			switch r.N(5) {
			case 0:
				it.name += core.Pick(r, []string{"", "=", ":", "→", "|"})
				it.qname = core.Pick(r, []string{"`" + it.name + "`", `"` + it.name + `"`, `"""` + it.name + `"""`})
			}
			if r.P(0.9) {
				it.value = plainWord()
			}
			if o.SpaceBeforeInlineComment && it.value == "" {
				// The comment symbol would begin the value.
			} else if !o.IgnoreInlineComment && r.P(0.25) {
				it.inline = core.Pick(r, []string{"#", ";", "# ", "; "}) + plainWord()
			}
			items = append(items, it)
		case 1:
			it := item{kind: 's', name: core.Pick(r, []string{"a", "b", "a.b", "server", "Server", "DEFAULT", "default", "x y", "ключ", "q\"r", "c#d", "[s", "s]t"})}
			if r.P(0.1) {
				it.name = randName(r)
			}
			if numbered > 0 && r.P(0.9) {
				it.name = fmt.Sprint("s", r.N(numbered))
			}
			if r.P(0.2) {
				it.inline = core.Pick(r, []string{"#", ";", "# ", "; "}) + strings.ReplaceAll(plainWord(), "]", ")")
			}
			items = append(items, it)
		case 2:
			items = append(items, item{kind: 'c', commentTxt: core.Pick(r, []string{"#", ";", "# ", "; ", "##"}) + core.Pick(r, []string{"", plainWord(), "k = v", "[x]"})})
		case 3:
			if o.AllowBooleanKeys && !o.AllowShadows {
				items = append(items, item{kind: 'b', name: core.Pick(r, []string{"flag", "Flag", "bool key", "ключ", "k1"})})
			}
		}
	}
	// Prediction, from the logical lines alone.
	m := model.New(o)
	cur, _ := m.NewSection(model.Default)
	pending := ""
	for _, it := range items {
		switch it.kind {
		case 'c':
			pending += it.commentTxt + "\n"
		case 's':
			cur, _ = m.NewSection(it.name)
			cur.Comment = strings.TrimSpace(pending + it.inline)
			pending = ""
		case 'b':
			k, _ := cur.NewBool(it.name)
			// A further value without a comment leaves the one of the key.
			if c := strings.TrimSpace(pending); c != "" || len(k.Shadows) == 0 {
				k.Comment = c
			}
			pending = ""
		case 'k':
			k, _ := cur.NewKey(it.name, it.value)
			if c := strings.TrimSpace(pending + it.inline); c != "" || len(k.Shadows) == 0 {
				k.Comment = c
			}
			pending = ""
		}
	}
	want := SnapModel(m)
	c.Logf("options %s", optText(o))
	c.Logf("%d logical lines: %+v", len(items), items)
	c.Logf("want %s", want)
	for lay := 0; lay < 4; lay++ {
		text := layout(r, &o, items, lay)
		c.Logf("layout %d: %q", lay, text)
		f, err := ini.LoadSources(o, []byte(text))
		if err != nil {
			c.Failf("layout %d: load failed: %v", lay, err)
		}
		c.Count("layout-variant")
		got := Snap(f)
		if strings.Contains(text, "\r\n") {
			// Comment lines joined by the line ends of the text.
			got = strings.ReplaceAll(got, `\r\n`, `\n`)
		}
		c.Eq("loaded state", got, want)
		// The general parser model must agree as well.
		mm := model.New(o)
		if e := mm.Parse(text); e != nil {
			c.Failf("reference parse disagrees with the prediction: %v", e)
		}
		addCov(c, mm)
		if lay == 0 {
			c.Eq("reference parse against prediction", SnapModel(mm), want)
			c.Count("load-none")
		}
	}
	c.Observe(want)
	c.Trivial = !strings.Contains(want, "\n  key ")
}

// layout renders logical lines. Variant 0 is the plain one.
func layout(r *rnd, o *ini.LoadOptions, items []item, variant int) string {
	var b strings.Builder
	eol := "\n"
	if variant == 1 || variant == 3 && r.P(0.5) {
		eol = "\r\n"
	}
	if variant > 0 && r.P(0.3) {
		b.WriteString("\xef\xbb\xbf")
	}
	sp := func() string {
		if variant == 0 {
			return ""
		}
		return core.PickW(r, []core.W[string]{{4, ""}, {4, " "}, {1, "  "}, {2, "\t"}, {1, " \t "}, {1, "\u00a0"}, {1, "\v"}})
	}
	for i, it := range items {
		for variant > 0 && r.P(0.2) {
			b.WriteString(sp() + eol)
		}
		b.WriteString(sp())
		switch it.kind {
		case 'c':
			b.WriteString(it.commentTxt)
		case 's':
			b.WriteString("[" + it.name + "]")
			if it.inline != "" {
				b.WriteString(sp() + it.inline)
			}
			b.WriteString(sp())
		case 'b':
			b.WriteString(it.name + sp())
		case 'k':
			b.WriteString(it.qname + sp() + it.delim + sp() + it.value)
			if it.inline != "" {
				b.WriteString(" " + it.inline)
			}
			b.WriteString(sp())
		}
		if i < len(items)-1 || variant == 0 || r.P(0.5) {
			b.WriteString(eol)
		}
	}
	return b.String()
}
