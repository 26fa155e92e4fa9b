package props

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/go-ini/ini"

	"verif/harness/internal/core"
	"verif/harness/internal/model"
)

func q(b *strings.Builder, s string) { b.WriteString(strconv.Quote(s)) }

func ql(b *strings.Builder, l []string) {
	b.WriteByte('[')
	for i, s := range l {
		if i > 0 {
			b.WriteByte(' ')
		}
		q(b, s)
	}
	b.WriteByte(']')
}

func hashText(b *strings.Builder, h map[string]string) {
	ks := make([]string, 0, len(h))
	for k := range h {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		q(b, k)
		b.WriteByte('>')
		q(b, h[k])
		b.WriteByte(' ')
	}
}

// Snap renders everything the public query API shows about a file.
func Snap(f *ini.File) string {
	var b strings.Builder
	b.WriteString("names ")
	ql(&b, f.SectionStrings())
	b.WriteByte('\n')
	for _, s := range f.Sections() {
		snapSec(&b, s)
	}
	return b.String()
}

func snapSec(b *strings.Builder, s *ini.Section) {
	b.WriteString("section ")
	q(b, s.Name())
	b.WriteString(" comment ")
	q(b, s.Comment)
	b.WriteString(" body ")
	q(b, s.Body())
	b.WriteString("\n keys ")
	ql(b, s.KeyStrings())
	b.WriteString("\n hash ")
	hashText(b, s.KeysHash())
	b.WriteByte('\n')
	for _, k := range s.Keys() {
		snapKey(b, k)
	}
}

func snapKey(b *strings.Builder, k *ini.Key) {
	if k == nil {
		b.WriteString("  key <nil>\n")
		return
	}
	b.WriteString("  key ")
	q(b, k.Name())
	b.WriteString(" = ")
	q(b, k.Value())
	b.WriteString(" all ")
	ql(b, k.ValueWithShadows())
	b.WriteString(" nested ")
	ql(b, k.NestedValues())
	b.WriteString(" comment ")
	q(b, k.Comment)
	b.WriteByte('\n')
}

// SnapModel renders the same of the model.
func SnapModel(f *model.File) string {
	var b strings.Builder
	b.WriteString("names ")
	ql(&b, f.Names())
	b.WriteByte('\n')
	for _, s := range f.Secs {
		snapModelSec(&b, s)
	}
	return b.String()
}

func snapModelSec(b *strings.Builder, s *model.Sec) {
	b.WriteString("section ")
	q(b, s.Name)
	b.WriteString(" comment ")
	q(b, s.Comment)
	b.WriteString(" body ")
	q(b, strings.TrimSpace(s.Body))
	b.WriteString("\n keys ")
	ql(b, s.Names())
	b.WriteString("\n hash ")
	hashText(b, s.Hash())
	b.WriteByte('\n')
	for _, k := range s.Keys {
		snapModelKey(b, k)
	}
}

func snapModelKey(b *strings.Builder, k *model.Key) {
	b.WriteString("  key ")
	q(b, k.Name)
	b.WriteString(" = ")
	q(b, k.Value)
	b.WriteString(" all ")
	ql(b, k.Values())
	b.WriteString(" nested ")
	ql(b, k.Nested)
	b.WriteString(" comment ")
	q(b, k.Comment)
	b.WriteByte('\n')
}

// errKind classifies a real load error through the public predicates.
func errKind(err error) model.ErrKind {
	switch {
	case err == nil:
		return model.ErrNone
	case ini.IsErrDelimiterNotFound(err):
		return model.ErrDelim
	case ini.IsErrEmptyKeyName(err):
		return model.ErrEmptyKey
	}
	return model.ErrOther
}

// optText renders load options compactly.
func optText(o ini.LoadOptions) string {
	var b strings.Builder
	flag := func(n string, v bool) {
		if v {
			b.WriteString(n + " ")
		}
	}
	flag("Loose", o.Loose)
	flag("Insensitive", o.Insensitive)
	flag("InsensitiveSections", o.InsensitiveSections)
	flag("InsensitiveKeys", o.InsensitiveKeys)
	flag("IgnoreContinuation", o.IgnoreContinuation)
	flag("IgnoreInlineComment", o.IgnoreInlineComment)
	flag("SkipUnrecognizableLines", o.SkipUnrecognizableLines)
	flag("ShortCircuit", o.ShortCircuit)
	flag("AllowBooleanKeys", o.AllowBooleanKeys)
	flag("AllowShadows", o.AllowShadows)
	flag("AllowNestedValues", o.AllowNestedValues)
	flag("AllowPythonMultilineValues", o.AllowPythonMultilineValues)
	flag("SpaceBeforeInlineComment", o.SpaceBeforeInlineComment)
	flag("UnescapeValueDoubleQuotes", o.UnescapeValueDoubleQuotes)
	flag("UnescapeValueCommentSymbols", o.UnescapeValueCommentSymbols)
	flag("PreserveSurroundedQuote", o.PreserveSurroundedQuote)
	flag("AllowNonUniqueSections", o.AllowNonUniqueSections)
	flag("AllowDuplicateShadowValues", o.AllowDuplicateShadowValues)
	if len(o.UnparseableSections) > 0 {
		fmt.Fprintf(&b, "Unparseable=%q ", o.UnparseableSections)
	}
	if o.KeyValueDelimiters != "" {
		fmt.Fprintf(&b, "Delims=%q ", o.KeyValueDelimiters)
	}
	if o.KeyValueDelimiterOnWrite != "" {
		fmt.Fprintf(&b, "DelimOnWrite=%q ", o.KeyValueDelimiterOnWrite)
	}
	if o.ChildSectionDelimiter != "" {
		fmt.Fprintf(&b, "Child=%q ", o.ChildSectionDelimiter)
	}
	if o.ReaderBufferSize != 0 {
		fmt.Fprintf(&b, "Buf=%d ", o.ReaderBufferSize)
	}
	return "{" + strings.TrimSpace(b.String()) + "}"
}

// addCov adds the model's behaviour counters to the case's.
func addCov(c *core.Case, f *model.File) {
	for k, v := range f.Cov {
		c.Cov[k] += v
	}
	f.Cov = map[string]int{}
}

// checkLoad loads text and compares the outcome with the model.
func checkLoad(c *core.Case, opt ini.LoadOptions, text string) (*ini.File, *model.File) {
	c.Logf("options %s", optText(opt))
	c.Logf("text %q", text)
	m := model.New(opt)
	merr := m.Parse(text)
	addCov(c, m)
	f, err := ini.LoadSources(opt, []byte(text))
	compareLoad(c, f, err, m, merr)
	if merr != nil {
		return nil, nil
	}
	return f, m
}

func compareLoad(c *core.Case, f *ini.File, err error, m *model.File, merr error) {
	c.Events++
	if (f == nil) == (err == nil) {
		c.Failf("load returned file=%v and err=%v", f != nil, err)
	}
	gk, wk := errKind(err), model.KindOf(merr)
	if gk != wk {
		c.Failf("load outcome: got %v (%v), want %v (%v)", gk, err, wk, merr)
	}
	c.Count("load-" + wk.String())
	c.Observe(wk.String())
	if merr != nil {
		if me, ok := merr.(*model.Error); ok && me.Line != "" {
			c.True(strings.Contains(err.Error(), strings.TrimSpace(me.Line)), "error does not name the line %q: %v", me.Line, err)
		}
		return
	}
	want := SnapModel(m)
	c.Eq("loaded state", Snap(f), want)
	c.Observe(want)
}
