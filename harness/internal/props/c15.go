package props

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/go-ini/ini"

	"verif/harness/internal/core"
)

func init() {
	register(&core.Prop{ID: "C15", Level: "exploration", Quick: 180000, Thorough: 2500000, Run: runC15,
		Rule: "a case is one list value (items of all types, escapes before delimiters, backslashes and other text, one- to three-character delimiters, references, shadows) read through every list accessor in plain, Valid and Strict form and compared with an independent splitter and item-wise conversion; distinct by the hash of the split items; non-trivial with at least two items",
		Must: []string{"escaped-delimiter", "escaped-backslash", "kept-backslash", "trailing-backslash", "trailing-delimiter", "leading-delimiter", "empty-item", "multi-char-delimiter", "multibyte-delimiter", "expanded", "shadows", "strict-ok", "strict-error", "invalid-item", "all-invalid", "empty-value", "spaces-trimmed", "long", "item-case", "item-mutated"}})
}

// splitModel splits valid text at unescaped delimiters, byte-wise.
func splitModel(s, d string) (items []string) {
	if s == "" {
		return []string{}
	}
	items = []string{}
	cur := ""
	for s != "" {
		switch {
		case strings.HasPrefix(s, `\\`):
			cur += `\`
			s = s[2:]
		case strings.HasPrefix(s, `\`+d):
			cur += d
			s = s[1+len(d):]
		case strings.HasPrefix(s, d):
			items = append(items, strings.TrimSpace(cur))
			cur = ""
			s = s[len(d):]
		default:
			cur += s[:1]
			s = s[1:]
		}
	}
	if cur != "" {
		items = append(items, strings.TrimSpace(cur))
	}
	return items
}

// overlaps says whether an escaped delimiter could be read in two ways.
func overlaps(s, d string) bool {
	for i := 0; ; {
		j := strings.Index(s[i:], `\`+d)
		if j < 0 {
			return false
		}
		i += j + 1
		for n := 1; n < len(d); n++ {
			if strings.HasPrefix(s[i+n:], d) {
				return true
			}
		}
	}
}

func showList[T any](l []T) string {
	var b strings.Builder
	for _, v := range l {
		b.WriteString(show(v))
		b.WriteByte(' ')
	}
	return fmt.Sprintf("%d: %s", len(l), b.String())
}

func checkLists[T any](c *core.Case, name string, items []string, conv func(string) (T, error), plain, valid func() []T, strict func() ([]T, error)) {
	var all, ok []T
	bad := 0
	for _, s := range items {
		v, err := conv(s)
		if err != nil {
			var zero T
			v = zero
			bad++
		} else {
			ok = append(ok, v)
		}
		all = append(all, v)
	}
	if bad > 0 {
		c.Count("invalid-item")
	}
	if bad == len(items) && bad > 1 {
		c.Count("all-invalid")
	}
	c.Logf("%s lists", name)
	c.Eq(name+" list", showList(plain()), showList(all))
	c.Eq("Valid "+name+" list", showList(valid()), showList(ok))
	got, err := strict()
	if bad > 0 {
		c.Count("strict-error")
		c.True(err != nil, "Strict %s list accepts %q", name, items)
		return
	}
	c.Count("strict-ok")
	c.True(err == nil, "Strict %s list of %q: %v", name, items, err)
	c.Eq("Strict "+name+" list", showList(got), showList(all))
}

func runC15(c *core.Case) {
	r := c.R
	d := core.Pick(r, []string{",", ",", ",", "|", ";", " ", "::", "->", "→", "é", "日本", "a", "aa", "\t", ", ", "%%", "x=x", "☃,"})
	if len(d) > 1 {
		c.Count("multi-char-delimiter")
	}
	if len(d) != len([]rune(d)) {
		c.Count("multibyte-delimiter")
	}
	item := core.Pick(r, []func() string{
		func() string { return intText(r) },
		func() string { return floatText(r) },
		func() string { return boolWord(r) },
		func() string { return anyTime(r).Format(core.Pick(r, timeFormats[:3])) },
		func() string { return scalarText(r) },
		func() string {
			return core.Pick(r, []string{"", "x", "y z", "é", "日", "\\", "\\\\", "\\n", "\\" + d, "a\\" + d + "b", " ", "1", "2"})
		},
	})
	var b strings.Builder
	n := core.PickW(r, []core.W[int]{{4, 0}, {8, 1}, {34, r.Range(2, 5)}, {2, r.Range(6, 12)}, {1, r.Range(7, 30)}})
	// Splitting takes time that grows with the square of the length.
	long := r.P(0.0015)
	if long {
		c.Count("long")
		n = r.Range(60, 250)
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(d)
		}
		b.WriteString(core.Pick(r, []string{"", "", "", " ", "\t"}))
		if r.P(0.12) {
			b.WriteString(core.Pick(r, []string{"", "\\" + d, "\\\\", "\\q", "text"}))
		}
		if b.Len() > 2500 {
			break
		}
		if long && r.P(0.02) {
			b.WriteString(strings.Repeat(core.Pick(r, []string{"x", "é ", "12", "ab\\"}), r.Range(60, 1100)))
		}
		it := item()
		if r.P(0.05) {
			c.Count("item-case")
			it = core.Pick(r, []func(string) string{strings.ToLower, strings.ToUpper})(it)
		}
		if r.P(0.03) && it != "" {
			c.Count("item-mutated")
			it = mutate(r, it)
		}
		b.WriteString(strings.ReplaceAll(it, "%(", "%"))
		b.WriteString(core.Pick(r, []string{"", "", "", " "}))
	}
	b.WriteString(core.PickW(r, []core.W[string]{{10, ""}, {2, d}, {1, "\\"}, {1, "\\\\"}, {1, d + d}, {1, "\\" + d}}))
	text := strings.ToValidUTF8(b.String(), "?")
	if r.P(0.1) {
		text = d + text
	}
	for strings.Contains(text, "%(") {
		text = strings.ReplaceAll(text, "%(", "%")
	}
	if overlaps(text, d) {
		text = strings.ReplaceAll(text, `\`, "/")
	}
	f := ini.Empty(ini.LoadOptions{AllowShadows: r.P(0.4)})
	f.BlockMode = r.P(0.8)
	sec := f.Section(core.Pick(r, []string{"", "s"}))
	raw := text
	if r.P(0.2) && text != "" {
		c.Count("expanded")
		i := r.N(len(text))
		for i > 0 && text[i]&0xc0 == 0x80 {
			i--
		}
		_, e := sec.NewKey("part", text[i:])
		must(e)
		raw = text[:i] + "%(part)s"
	}
	k, e := sec.NewKey("k", raw)
	must(e)
	before := Snap(f)
	c.Logf("delimiter %q raw %q text %q", d, raw, text)
	c.True(k.String() == text, "String: %q", k.String())

	items := splitModel(text, d)
	c.EqV("Strings", k.Strings(d), items)
	c.Observe(fmt.Sprint(items))
	for what, hit := range map[string]bool{"escaped-delimiter": strings.Contains(text, `\`+d), "escaped-backslash": strings.Contains(text, `\\`), "trailing-backslash": strings.HasSuffix(text, `\`) && !strings.HasSuffix(text, `\\`),
		"kept-backslash": strings.Contains(text, `\q`), "trailing-delimiter": strings.HasSuffix(text, d), "leading-delimiter": text != d && strings.HasPrefix(text, d), "empty-value": text == "", "spaces-trimmed": strings.Contains(text, " "+d)} {
		if hit {
			c.Count(what)
		}
	}
	for _, s := range items {
		if s == "" {
			c.Count("empty-item")
		}
	}
	checkLists(c, "bool", items, func(s string) (bool, error) {
		v, ok := boolText(s)
		if !ok {
			return false, fmt.Errorf("no boolean")
		}
		return v, nil
	}, func() []bool { return k.Bools(d) }, func() []bool { return k.ValidBools(d) }, func() ([]bool, error) { return k.StrictBools(d) })
	checkLists(c, "float64", items, func(s string) (float64, error) { return strconv.ParseFloat(s, 64) },
		func() []float64 { return k.Float64s(d) }, func() []float64 { return k.ValidFloat64s(d) }, func() ([]float64, error) { return k.StrictFloat64s(d) })
	i64 := func(s string) (int64, error) { return strconv.ParseInt(s, 0, 64) }
	u64 := func(s string) (uint64, error) { return strconv.ParseUint(s, 0, 64) }
	checkLists(c, "int64", items, i64, func() []int64 { return k.Int64s(d) }, func() []int64 { return k.ValidInt64s(d) }, func() ([]int64, error) { return k.StrictInt64s(d) })
	checkLists(c, "int", items, func(s string) (int, error) { v, e := i64(s); return int(v), e },
		func() []int { return k.Ints(d) }, func() []int { return k.ValidInts(d) }, func() ([]int, error) { return k.StrictInts(d) })
	checkLists(c, "uint64", items, u64, func() []uint64 { return k.Uint64s(d) }, func() []uint64 { return k.ValidUint64s(d) }, func() ([]uint64, error) { return k.StrictUint64s(d) })
	checkLists(c, "uint", items, func(s string) (uint, error) { v, e := u64(s); return uint(v), e },
		func() []uint { return k.Uints(d) }, func() []uint { return k.ValidUints(d) }, func() ([]uint, error) { return k.StrictUints(d) })
	checkLists(c, "time", items, func(s string) (time.Time, error) { return time.Parse(time.RFC3339, s) },
		func() []time.Time { return k.Times(d) }, func() []time.Time { return k.ValidTimes(d) }, func() ([]time.Time, error) { return k.StrictTimes(d) })
	fm := core.Pick(r, timeFormats[:4])
	checkLists(c, "time format", items, func(s string) (time.Time, error) { return time.Parse(fm, s) },
		func() []time.Time { return k.TimesFormat(fm, d) }, func() []time.Time { return k.ValidTimesFormat(fm, d) }, func() ([]time.Time, error) { return k.StrictTimesFormat(fm, d) })

	c.Eq("file after all accessors", Snap(f), before)
	// Shadows are split one by one, without escapes.
	vals := []string{raw}
	for i := few(r, 4); i > 0; i-- {
		v := strings.ReplaceAll(core.Pick(r, []string{"p" + d + "q", "", "w", fmt.Sprint("w", i), item(), text}), "%(", "%")
		if k.AddShadow(v) != nil {
			break
		}
		c.Count("shadows")
		dup := false
		for _, o := range vals {
			dup = dup || o == v
		}
		if !dup {
			vals = append(vals, v)
		}
	}
	want := []string{}
	for _, v := range vals {
		if v == "" {
			continue
		}
		for _, p := range strings.Split(v, d) {
			p = strings.TrimSpace(p)
			if p == "%(part)s" || strings.Contains(p, "%(part)s") {
				p = strings.ReplaceAll(p, "%(part)s", sec.Key("part").Value())
			}
			want = append(want, p)
		}
	}
	c.EqV("StringsWithShadows", k.StringsWithShadows(d), want)
	c.Eq("Strings with shadows present", fmt.Sprintf("%q", k.Strings(d)), fmt.Sprintf("%q", items))
	c.Trivial = len(items) < 2
}
