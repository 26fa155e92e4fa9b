package props

import (
	"strings"

	"github.com/go-ini/ini"

	"verif/harness/internal/core"
)

var lexAlphabet = []string{`"`, "'", "`", `\`, "#", ";", " ", "a", "\n", "=", "\n ", "\t", "%", `"""`, "\r\n"}

// shortLen is the enumerated length: every string over the alphabet.
func nthString(n int) (string, bool) {
	k := len(lexAlphabet)
	l, size := 0, 1
	for n >= size {
		n -= size
		size *= k
		l++
	}
	var parts []string
	for i := 0; i < l; i++ {
		parts = append(parts, lexAlphabet[n%k])
		n /= k
	}
	return strings.Join(parts, ""), l <= 4
}

func init() {
	register(&core.Prop{ID: "C02", Level: "exploration", Quick: 400000, Thorough: 3000000, Run: runC02,
		Rule:        "even cases enumerate every value over a 15-symbol alphabet up to length 4 (then longer ones) under all 128 combinations of the value options; odd cases draw documents of hostile, multi-line and buffer-boundary values; distinct by the hash of the observed state; non-trivial when the load succeeded",
		Must:        []string{"quoted`", `quoted"""`, `quoted"`, "multiline`", `multiline"""`, "continuation", "python-line", "inline-comment", "surrounding-quotes", "multiline-comment", "long-line"},
		Assumptions: []string{"the reference lexer in harness/internal/model/parse.go states the documented rules"}})
}

func lexMask(m int) ini.LoadOptions {
	return ini.LoadOptions{
		IgnoreContinuation:          m&1 != 0,
		IgnoreInlineComment:         m&2 != 0,
		AllowPythonMultilineValues:  m&4 != 0,
		SpaceBeforeInlineComment:    m&8 != 0,
		UnescapeValueDoubleQuotes:   m&16 != 0,
		UnescapeValueCommentSymbols: m&32 != 0,
		PreserveSurroundedQuote:     m&64 != 0,
	}
}

func runC02(c *core.Case) {
	r := c.R
	c.Trivial = true
	if c.Idx%2 == 0 {
		n := c.Idx / 2
		s, short := nthString(n)
		if short {
			c.Count("enumerated-values")
		}
		step := 1
		if !short || !c.Thorough && len(s) > 3 {
			step = 7
		}
		for m := n % step; m < 128; m += step {
			c.ResetLog()
			f, _ := checkLoad(c, lexMask(m), "k="+s+"\nz = 1 ; c\n")
			if f != nil {
				c.Trivial = false
			}
		}
		return
	}
	o := ini.LoadOptions{}
	lexOptions(r, core.Pick(r, []float64{0.1, 0.3, 0.5, 0.7}), &o)
	o.AllowNestedValues = r.P(0.1)
	o.AllowBooleanKeys = r.P(0.15)
	o.SkipUnrecognizableLines = r.P(0.1)
	o.AllowShadows = r.P(0.1)
	o.KeyValueDelimiters = core.Pick(r, delimSets)
	if r.P(0.3) {
		o.ReaderBufferSize = core.Pick(r, []int{1, 4097, 5000, 8192, 65536})
	}
	var b strings.Builder
	eol := core.PickW(r, []core.W[string]{{3, "\n"}, {1, "\r\n"}})
	for i, n := 0, r.Range(1, 6); i < n; i++ {
		name := "k" + string(rune('0'+i))
		if r.P(0.15) {
			name = keyText(r, &o)
		}
		v := valueText(r, &o, eol)
		if r.P(0.02) {
			v = alignLong(r, b.Len(), v, eol)
		}
		if len(v) > 4000 {
			c.Count("long-line")
		}
		b.WriteString(name + pad(r) + delimText(r, &o) + pad(r) + v + eol)
	}
	text := b.String()
	switch r.N(8) {
	case 0:
		text = strings.TrimSuffix(text, eol)
	case 1:
		text = mutate(r, text)
	}
	if f, _ := checkLoad(c, o, text); f != nil {
		c.Trivial = false
	}
}

// alignLong puts a critical byte sequence near a buffer boundary.
func alignLong(r *rnd, at int, v, eol string) string {
	bound := core.Pick(r, []int{4096, 8192, 16384, 65536})
	n := bound - at - r.Range(0, 12)
	if n <= 0 {
		return v
	}
	fill := strings.Repeat("x", n)
	return fill + core.Pick(r, []string{"\\" + eol + " y", " # c", ";c", "\"", "'", "`", eol + "  py", eol + "\ty", "\"\"\"", "\\", " ", "é日" + eol}) + v
}
