package props

import (
	"bytes"
	"strings"

	"github.com/go-ini/ini"

	"verif/harness/internal/core"
)

func init() {
	register(&core.Prop{ID: "C03", Level: "exploration", Quick: 600000, Thorough: 6000000, Run: runC03,
		Rule:        "a case is one (options, bytes) pair, from random bytes, token soup, mutated documents and degenerate repetitions; distinct by the hash of the outcome (error class or file state)",
		Must:        []string{"load-none", "load-delimiter-not-found", "load-empty-key-name", "load-other", "boolean-key", "skipped-line", "exercised"},
		Assumptions: []string{"termination is judged by CPU time of a single case run alone (40 s)"}})
}

func runC03(c *core.Case) {
	r := c.R
	o := anyOptions(r)
	if r.P(0.15) {
		o.AllowBooleanKeys = true
	} else if r.P(0.15) {
		o.SkipUnrecognizableLines = true
	}
	var text string
	switch core.PickW(r, []core.W[int]{{3, 0}, {4, 1}, {4, 2}, {3, 3}, {1, 4}, {3, 5}}) {
	case 0: // random bytes
		b := make([]byte, r.N(60))
		for i := range b {
			b[i] = byte(r.N(256))
		}
		text = string(b)
	case 1: // token soup
		toks := append([]string{"\n", "\n", "\n", "\r\n", "[", "]", "[s]", "k", "=", ":", "-", "\xef\xbb\xbf", "\x00", "\\\n", "\n ", "\n\t", "#c\n", ";"}, hostileBits...)
		var b strings.Builder
		for i := r.N(40); i > 0; i-- {
			b.WriteString(core.Pick(r, toks))
		}
		text = b.String()
	case 2: // mutated document
		g := &docGen{r: r, o: &o, garbage: 0.2}
		text = mutate(r, g.text(r.Range(1, 12)))
	case 3: // good lines around one malformed line
		g := &docGen{r: r, o: &o, plain: true}
		bad := core.Pick(r, []string{"[", "[]", "[ ", "[x", "=v", ":", "`k", `"k`, `"""k`, "``=1", `""=1`, "k=\"\"\"x", "k=`", "]", "garbage", "\x00", "bare", "a b c", "#", "[x]y", "[[", "- ", "-", "k = `a", "\"a\"", "`a`", `"""a"""`, "\"\"\"a\"\"\" x", "“q”"})
		text = g.text(r.N(6)) + bad + core.Pick(r, []string{"\n", "\r\n", ""})
		if !strings.HasSuffix(text, "\n") {
			c.Count("malformed-at-end")
		} else {
			text += g.text(r.N(6))
		}
	case 4: // degenerate repetitions
		u := core.Pick(r, []string{"[", "]", "\"", "'", "`", "\\", "\\\n", "=", "#", ";", "%(a)s", "\n", "-=\n", "\"\"\"", " ", "[a]\n", "k=`\n", "k=\n ", "a", "=\n", "x\n", "\x00", "\r", "k=\\\n", "k=v\\\n", "k=v\n x\n", "[a", "é"})
		text = core.Pick(r, []string{"", "k=", "k=\"", "k=`", "[", "k=\"\"\"", "#"}) + strings.Repeat(u, r.N(core.Pick(r, []int{20, 200, 3000})))
	case 5: // line-based soup
		g := &docGen{r: r, o: &o, garbage: 1}
		text = g.text(r.Range(1, 10))
		l := strings.SplitAfter(text, "\n")
		r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		text = strings.Join(l, "")
	}
	f, m := checkLoad(c, o, text)
	f2, err2 := ini.LoadSources(o, []byte(text))
	c.True((f2 == nil) == (f == nil), "second load of the same bytes differs: err=%v", err2)
	if f == nil {
		_, err1 := ini.LoadSources(o, []byte(text))
		c.Eq("error of repeated loads", err1.Error(), err2.Error())
		return
	}
	c.Eq("state of repeated loads", Snap(f2), SnapModel(m))
	// The file is usable: every kind of query and writing works.
	c.Count("exercised")
	var buf bytes.Buffer
	n, err := f.WriteTo(&buf)
	c.True(err == nil && n == int64(buf.Len()), "WriteTo of a loaded file: %d, %v (wrote %d)", n, err, buf.Len())
	for _, s := range f.Sections() {
		_ = s.ChildSections()
		_ = s.ParentKeys()
		for _, k := range s.Keys() {
			_ = s.HasKey(k.Name())
			if strings.Contains(k.Value(), "%(") {
				continue // expansion is C13's
			}
			c.True(k.String() == k.Value(), "String %q of a value without references %q", k.String(), k.Value())
			_, _ = k.Bool()
			_, _ = k.Float64()
			_, _ = k.Time()
		}
	}
	s := f.Section("fresh section")
	if _, err := s.NewKey("fresh key", "v"); err != nil && !strings.Contains(err.Error(), "shadow") {
		c.Failf("the loaded file refuses a new key: %v", err)
	}
	c.True(f.Section("fresh section").Key("fresh key").Value() == "v", "a new key is not found")
}
