package props

import (
	"fmt"
	"strings"

	"github.com/go-ini/ini"

	"verif/harness/internal/core"
)

type rnd = core.Rand

var secNames = []string{"a", "A", "b", "B", "a.b", "A.b", "a.b.c", "b.c", "server", "Server", "SERVER", "DEFAULT", "default", "Default",
	"x y", "ключ", "КЛЮЧ", "s]t", "[s", " sp ", "q\"r", "c#d", "e;f", "a.", ".a", "a..b", "section one", "İx", "raw", "RAW", "Raw.1", "日本"}

var keyNames = []string{"a", "A", "b", "B", "key", "Key", "KEY", "name", "x.y", "k k", "ключ", "КЛЮЧ", "日", "k#1", "k;2", "K1", "k1", "0", "é", "É", "long_key_name_here", "p'q", "[z]w", "key-1", "_", "a]b", "ſ", "K"}

var words = []string{"", "v", "value", "1", "true", "false", "a b", "x,y", "hello world", "héllo", "日本語", "a=b", "c:d", "http://host:80/p?q=1&r=2", "C:\\dir\\file",
	"%(a)s", "50%", "(x)", "it's", "say \"hi\" now", "'", "\"", "-", "-1", "[x]", "a\tb", "a  b", "\\", "x\\n", "$HOME", "a|b", "\u00a0nb", "\u2028", "\x00", "\xff\xfe", "é", "0x1F", "1e3", "2024-01-02T03:04:05Z"}

var hostileBits = []string{"\"", "'", "`", "\"\"\"", "\\", "#", ";", "=", ":", " ", "\t", " #", " ;", "\\#", "\\;", "\\\"", "a", "b", "Z", "0", "é", "日", "\u00a0", "[", "]", "%(a)s", "\\\\", "-", ",", "'x'", "\"y\"", "%", "//", "\v", "\f", "\x85", "\u0085"}

func pad(r *rnd) string {
	return core.PickW(r, []core.W[string]{{40, ""}, {20, " "}, {8, "  "}, {8, "\t"}, {3, " \t "}, {1, "\v"}, {1, "\f"}, {1, "\u00a0"}, {1, "\u3000"}, {1, "\r"}})
}

func hostile(r *rnd, n int) string {
	var b strings.Builder
	for i := r.N(n + 1); i > 0; i-- {
		b.WriteString(core.Pick(r, hostileBits))
	}
	return b.String()
}

// randName gives a name nobody thought of.
func randName(r *rnd) string {
	const letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.éÄяΩ月"
	rs := []rune(letters)
	n := core.PickW(r, []core.W[int]{{10, r.Range(1, 4)}, {10, r.Range(4, 16)}, {3, r.Range(16, 80)}, {1, r.Range(80, 600)}})
	var b strings.Builder
	for ; n > 0; n-- {
		b.WriteRune(core.Pick(r, rs))
	}
	return b.String()
}

// randText gives text of any printable characters.
func randText(r *rnd) string {
	n := core.PickW(r, []core.W[int]{{10, r.Range(1, 6)}, {10, r.Range(6, 30)}, {2, r.Range(30, 300)}})
	var b strings.Builder
	for ; n > 0; n-- {
		if r.P(0.03) {
			b.WriteRune(rune(r.Range(0xa1, 0x3000)))
			continue
		}
		b.WriteByte(byte(r.Range(0x20, 0x7e)))
	}
	return b.String()
}

// few is a number below n, rarely one far above it.
func few(r *rnd, n int) int {
	return core.PickW(r, []core.W[int]{{2000, r.N(n)}, {6, r.Range(n, 40)}, {3, r.Range(60, 400)}})
}

// longText gives text whose length crosses a buffer boundary.
func longText(r *rnd) string {
	n := core.Pick(r, []int{100, 1000, 4070, 4080, 4090, 4094, 4095, 4096, 4097, 4100, 8180, 8190, 8191, 8192, 8193, 8200, 12288, 16384, 65535, 65536, 65537})
	n += r.Range(-3, 3)
	if r.P(0.3) {
		// compressible but position-dependent
		var b strings.Builder
		for b.Len() < n {
			fmt.Fprintf(&b, "%d_", b.Len())
		}
		return b.String()[:n]
	}
	return strings.Repeat(core.Pick(r, []string{"x", "ab", "é", "0123456789", "a b"}), n)[:n]
}

// valueText gives the text after a delimiter on the key's line and possibly
// following lines (the line end is added by the caller).
func valueText(r *rnd, o *ini.LoadOptions, eol string) string {
	w := func() string {
		if r.P(0.25) {
			return hostile(r, 5)
		}
		if r.P(0.12) {
			return randText(r)
		}
		return core.Pick(r, words)
	}
	long := func() string {
		if r.P(0.012) {
			return longText(r)
		}
		return w()
	}
	kind := core.PickW(r, []core.W[int]{{30, 0}, {6, 1}, {8, 2}, {6, 3}, {6, 4}, {6, 5}, {6, 6}, {8, 7}, {6, 8}, {5, 9}, {6, 10}, {3, 11}, {4, 12}})
	trail := pad(r)
	switch kind {
	case 1:
		return trail
	case 2: // inline comment
		return long() + core.Pick(r, []string{"", " ", "  ", "\t"}) + core.Pick(r, []string{"#", ";", "# ", "; "}) + w() + trail
	case 3:
		return `"` + long() + `"` + trail + core.Pick(r, []string{"", "", " # c", ";c", "x"})
	case 4:
		return "'" + long() + "'" + trail + core.Pick(r, []string{"", "", " # c", ";c", "x"})
	case 5:
		return "`" + long() + "`" + trail + core.Pick(r, []string{"", "", " # c", ";c", "x`"})
	case 6:
		return `"""` + long() + `"""` + trail + core.Pick(r, []string{"", "", " # c", ";c", `x"""`})
	case 7: // multi-line quoted
		qt := core.Pick(r, []string{`"""`, "`", `"`})
		s := qt + long()
		for i := few(r, 4); i >= 0; i-- {
			s += core.Pick(r, []string{eol, "\n", "\r\n"}) + pad(r) + long()
		}
		if r.P(0.04) {
			return s // unterminated
		}
		return s + qt + trail + core.Pick(r, []string{"", "", "# after", " ;x", "tail"})
	case 8: // continuation
		s := long()
		for i := few(r, 3); i >= 0; i-- {
			s += "\\" + core.Pick(r, []string{"", "", " ", "\t"}) + eol + pad(r) + core.PickW(r, []core.W[string]{{6, w()}, {1, ""}, {1, longMaybe(r)}})
		}
		return s + core.Pick(r, []string{"", "", "\\"}) + trail
	case 9: // indented lines
		s := core.Pick(r, []string{"", w()})
		for i := few(r, 4); i >= 0; i-- {
			s += eol + core.Pick(r, []string{" ", "\t", "    ", "\f", " \t"}) + core.PickW(r, []core.W[string]{{8, w()}, {1, longMaybe(r)}, {1, ""}, {1, "k = v"}, {1, "# c"}})
		}
		return s
	case 10:
		return hostile(r, 9)
	case 11:
		return long() + `\` + core.Pick(r, []string{"#", ";", `"`}) + w() + trail
	case 12:
		return `"` + strings.ReplaceAll(long(), `"`, `\"`) + `\"` + w() + `"` + trail
	}
	return long() + trail
}

func longMaybe(r *rnd) string {
	if r.P(0.1) {
		return longText(r)
	}
	return core.Pick(r, words)
}

// keyText gives a written key name.
func keyText(r *rnd, o *ini.LoadOptions) string {
	n := core.Pick(r, keyNames)
	if r.P(0.1) {
		n = randName(r)
	}
	switch core.PickW(r, []core.W[int]{{60, 0}, {6, 1}, {6, 2}, {5, 3}, {6, 4}, {3, 5}}) {
	case 1:
		return `"` + strings.ReplaceAll(n, `"`, "") + core.Pick(r, []string{"", "=", ":", " # x", "`"}) + `"`
	case 2:
		return "`" + n + core.Pick(r, []string{"", "=", ":", `"`, "#"}) + "`"
	case 3:
		return `"""` + n + core.Pick(r, []string{"", "=", `"`, "`"}) + `"""`
	case 4:
		return "-"
	case 5:
		return n + hostile(r, 2)
	}
	return n
}

func delimText(r *rnd, o *ini.LoadOptions) string {
	d := o.KeyValueDelimiters
	if d == "" {
		d = "=:"
	}
	rs := []rune(d)
	return string(rs[r.N(len(rs))])
}

// docGen controls document generation.
type docGen struct {
	r       *rnd
	o       *ini.LoadOptions
	garbage float64 // probability of a malformed line
	secs    []string
	keys    []string
	plain   bool // plain values only
	wide    int  // this many different names
	heads   int  // weight of headers when wide
}

func (g *docGen) secName() string {
	if len(g.secs) > 0 && g.r.P(0.8) {
		return core.Pick(g.r, g.secs)
	}
	if g.wide > 0 && g.r.P(0.9) {
		return fmt.Sprintf("s%d", g.r.N(g.wide))
	}
	if g.r.P(0.08) {
		return randName(g.r)
	}
	return core.Pick(g.r, secNames)
}

func (g *docGen) bareName() string {
	if len(g.keys) > 0 && g.r.P(0.7) {
		return core.Pick(g.r, g.keys)
	}
	if g.wide > 0 && g.r.P(0.9) {
		return fmt.Sprintf("k%d", g.r.N(g.wide))
	}
	if g.r.P(0.08) {
		return randName(g.r)
	}
	return core.Pick(g.r, keyNames)
}

func (g *docGen) keyText() string {
	if len(g.keys) > 0 && g.r.P(0.9) {
		return core.Pick(g.r, g.keys)
	}
	if g.wide > 0 && g.r.P(0.9) {
		return fmt.Sprintf("k%d", g.r.N(g.wide))
	}
	return keyText(g.r, g.o)
}

// widen makes the document one of many names, in few or many sections.
func (g *docGen) widen() int {
	r := g.r
	g.secs, g.keys = nil, nil
	g.wide = core.Pick(r, []int{20, 80, 150, 300, 600, 1500})
	g.heads = core.Pick(r, []int{0, 1, 12, 100})
	n := r.Range(60, 400)
	if r.P(0.3) {
		n = r.Range(400, 2000)
	}
	return n
}

// text generates a document of about n lines.
func (g *docGen) text(n int) string {
	r := g.r
	var b strings.Builder
	if r.P(0.06) {
		b.WriteString(core.Pick(r, []string{"\xef\xbb\xbf", "\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "\xef\xbb", "\xef"}))
	}
	crlf := core.PickW(r, []core.W[int]{{6, 0}, {2, 1}, {2, 2}}) // LF, CRLF, mixed
	eol := func() string {
		if crlf == 1 || crlf == 2 && r.P(0.5) {
			return "\r\n"
		}
		return "\n"
	}
	rawNames := g.o.UnparseableSections
	heads := 12
	if g.wide > 0 {
		heads = g.heads
	}
	for i := 0; i < n; i++ {
		switch core.PickW(r, []core.W[int]{{60, 0}, {heads, 1}, {10, 2}, {8, 3}, {3, 4}, {3, 5}, {2, 6}}) {
		case 0:
			b.WriteString(pad0(r) + g.keyText() + pad(r) + delimText(r, g.o) + pad(r))
			if g.plain {
				b.WriteString(core.Pick(r, words))
			} else {
				b.WriteString(valueText(r, g.o, eol()))
			}
			b.WriteString(eol())
		case 1:
			n := g.secName()
			if len(rawNames) > 0 && r.P(0.3) {
				n = core.Pick(r, rawNames)
				if r.P(0.3) {
					n = flipCase(r, n)
				}
			}
			b.WriteString(pad0(r) + "[" + n + "]" + core.PickW(r, []core.W[string]{{12, ""}, {2, " "}, {1, " # sec comment"}, {1, ";c"}, {1, " junk # c]d"}}) + eol())
		case 2:
			b.WriteString(pad0(r) + core.Pick(r, []string{"#", ";", "# ", "; ", "##"}) + core.PickW(r, []core.W[string]{{5, core.Pick(r, words)}, {2, hostile(r, 4)}, {1, longMaybe(r)}}) + eol())
		case 3:
			b.WriteString(core.PickW(r, []core.W[string]{{8, ""}, {1, " "}, {1, "\t\t"}, {1, "\u00a0"}}) + eol())
		case 4: // bare word: boolean key or unrecognizable
			if g.o.AllowBooleanKeys || g.o.SkipUnrecognizableLines || len(rawNames) > 0 || r.P(g.garbage) {
				b.WriteString(pad0(r) + g.bareName() + core.PickW(r, []core.W[string]{{4, ""}, {1, " # bc"}, {1, "`"}}) + eol())
			}
		case 5: // indented line after a possibly empty value
			if g.o.AllowNestedValues || g.o.AllowPythonMultilineValues {
				b.WriteString(g.bareName() + delimText(r, g.o) + eol())
				for k := few(r, 3); k >= 0; k-- {
					b.WriteString(core.Pick(r, []string{" ", "\t", "  "}) + core.Pick(r, words) + eol())
				}
			}
		case 6:
			if r.P(g.garbage) {
				b.WriteString(core.Pick(r, []string{"[", "[]", "[x", "=v", ":", "`k", `"k`, `"""k`, "``=1", `""=1`, "k=\"\"\"x", "k=`", "]", "garbage", "\x00", hostile(r, 6)}) + eol())
			}
		}
	}
	s := b.String()
	if r.P(0.3) {
		s = strings.TrimSuffix(strings.TrimSuffix(s, "\n"), "\r")
	}
	return s
}

// pad0 is indentation before a line (rarely odd).
func pad0(r *rnd) string {
	if r.P(0.85) {
		return ""
	}
	return pad(r)
}

func flipCase(r *rnd, s string) string {
	var b strings.Builder
	for _, c := range s {
		if r.P(0.5) {
			b.WriteString(strings.ToUpper(string(c)))
		} else {
			b.WriteString(strings.ToLower(string(c)))
		}
	}
	return b.String()
}

// mutate applies byte-level edits.
func mutate(r *rnd, s string) string {
	b := []byte(s)
	bits := append([]string{"\n", "\r\n", "[", "]", "\xef\xbb\xbf", "\x00", "\\\n"}, hostileBits...)
	for i := r.Range(1, 6); i > 0; i-- {
		p := 0
		if len(b) > 0 {
			p = r.N(len(b) + 1)
		}
		switch r.N(4) {
		case 0:
			ins := core.Pick(r, bits)
			b = append(b[:p:p], append([]byte(ins), b[p:]...)...)
		case 1:
			e := p + r.Range(1, 4)
			if e > len(b) {
				e = len(b)
			}
			b = append(b[:p:p], b[e:]...)
		case 2:
			if p < len(b) {
				b[p] = byte(r.N(256))
			}
		case 3:
			if len(b) > 0 {
				a := r.N(len(b))
				e := a + r.N(40)
				if e > len(b) {
					e = len(b)
				}
				b = append(b[:p:p], append(append([]byte(nil), b[a:e]...), b[p:]...)...)
			}
		}
	}
	return string(b)
}

var delimSets = []string{"", "", "", "", "=", ":", "=:", "→", "=→", ":é", "|", "≔=", " =", "\t", "@日", "=#", `="`, "=`"}

// lexOptions draws the value-related options.
func lexOptions(r *rnd, p float64, o *ini.LoadOptions) {
	o.IgnoreContinuation = r.P(p)
	o.IgnoreInlineComment = r.P(p)
	o.AllowPythonMultilineValues = r.P(p)
	o.SpaceBeforeInlineComment = r.P(p)
	o.UnescapeValueDoubleQuotes = r.P(p)
	o.UnescapeValueCommentSymbols = r.P(p)
	o.PreserveSurroundedQuote = r.P(p)
}

// anyOptions draws from all load options.
func anyOptions(r *rnd) ini.LoadOptions {
	var o ini.LoadOptions
	p := core.Pick(r, []float64{0, 0.1, 0.3, 0.5})
	lexOptions(r, p, &o)
	o.Insensitive = r.P(p / 2)
	o.InsensitiveSections = r.P(p / 2)
	o.InsensitiveKeys = r.P(p / 2)
	o.SkipUnrecognizableLines = r.P(p)
	o.AllowBooleanKeys = r.P(p)
	o.AllowShadows = r.P(p)
	o.AllowNestedValues = r.P(p)
	o.AllowNonUniqueSections = r.P(p)
	o.AllowDuplicateShadowValues = r.P(p)
	o.Loose = r.P(p)
	o.ShortCircuit = r.P(p)
	if r.P(p) {
		for i := r.Range(1, 3); i > 0; i-- {
			o.UnparseableSections = append(o.UnparseableSections, core.Pick(r, secNames))
		}
	}
	o.KeyValueDelimiters = core.Pick(r, delimSets)
	if r.P(0.3) {
		o.ReaderBufferSize = core.Pick(r, []int{-1, 1, 16, 4096, 4097, 5000, 8192, 65536, 100000})
	}
	if r.P(0.1) {
		o.DebugFunc = func(string) {}
	}
	return o
}
