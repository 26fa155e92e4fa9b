package model

import (
	"strings"
)

// Format holds the process-wide formatting switches.
type Format struct {
	PrettyFormat, PrettyEqual, PrettySection, DefaultHeader bool
	Left, Right                                             string
	LineBreak                                               string
	Indent                                                  string
}

// NeedsQuotes says whether a single-line value without back-quotes has to be
// back-quoted to be read back.
func (f *File) NeedsQuotes(v string) bool {
	o := f.Opt
	t := strings.TrimSpace(v)
	if !o.IgnoreContinuation && strings.HasSuffix(t, `\`) {
		return true
	}
	if o.UnescapeValueCommentSymbols && (strings.Contains(v, `\#`) || strings.Contains(v, `\;`)) {
		return true
	}
	if strings.HasPrefix(v, `"""`) || o.UnescapeValueDoubleQuotes && strings.HasPrefix(v, `"`) {
		return true
	}
	if !o.PreserveSurroundedQuote && (surrounded(v, '"') || surrounded(v, '\'')) {
		return true
	}
	return t != v && (o.PreserveSurroundedQuote || strings.Contains(v, `"`))
}

// WriteValue gives the written form of a value.
func (f *File) WriteValue(v string) string {
	nl, bq := strings.Contains(v, "\n"), strings.Contains(v, "`")
	switch {
	case nl && !bq && strings.Contains(v, `"""`):
		return "`" + v + "`"
	case nl || bq:
		return `"""` + v + `"""`
	case !f.Opt.IgnoreInlineComment && strings.ContainsAny(v, "#;"):
		return "`" + v + "`"
	case f.NeedsQuotes(v):
		return "`" + v + "`"
	case strings.TrimSpace(v) != v:
		return `"` + v + `"`
	}
	return v
}

// WriteName gives the written form of a key name.
func (k *Key) WriteName() string {
	f := k.S.F
	n := k.Name
	switch {
	case k.Auto:
		return "-"
	case strings.Contains(n, "`"):
		return `"""` + n + `"""`
	case strings.ContainsAny(n, `"`+f.Opt.KeyValueDelimiters), strings.IndexAny(n, "#;[") == 0:
		return "`" + n + "`"
	case k.Bool && k.Value == "true" && len(k.Shadows) == 0 && (f.NeedsQuotes(n) || !f.Opt.IgnoreInlineComment && strings.ContainsAny(n, "#;")):
		return "`" + n + "`"
	}
	return n
}

// padded is the width of the name column contributed by a key. An
// auto-increment key counts with its number although it is written as a dash.
func (k *Key) padded() int {
	if strings.Contains(k.Name, "`") {
		return len(k.Name) + 6
	}
	if k.Auto {
		return len(k.Name)
	}
	return len(k.WriteName())
}

func commentLines(c string, fm Format, key bool) []string {
	var out []string
	c = strings.ReplaceAll(strings.ReplaceAll(c, fm.LineBreak, "\n"), "\r\n", "\n")
	for _, l := range strings.Split(c, "\n") {
		if l != "" && (l[0] == '#' || l[0] == ';') {
			out = append(out, l[:1]+" "+strings.TrimSpace(l[1:]))
		} else if key {
			out = append(out, "; "+strings.TrimSpace(l))
		} else {
			out = append(out, "; "+l)
		}
	}
	return out
}

// Render gives the written text of the file.
func (f *File) Render(fm Format) string {
	var b strings.Builder
	eq := fm.Left + f.Opt.KeyValueDelimiterOnWrite + fm.Right
	if fm.PrettyFormat || fm.PrettyEqual {
		eq = " " + f.Opt.KeyValueDelimiterOnWrite + " "
	}
	nl := fm.LineBreak
	for i, s := range f.Secs {
		last := i == len(f.Secs)-1
		if s.Comment != "" {
			for _, l := range commentLines(s.Comment, fm, false) {
				b.WriteString(l + nl)
			}
		}
		if i > 0 || fm.DefaultHeader || s.Name != f.SecName("") {
			b.WriteString("[" + s.Name + "]" + nl)
		} else if len(s.Keys) == 0 {
			continue
		}
		if s.Raw {
			b.WriteString(s.Body)
			if !last && s.Body != "" && !strings.HasSuffix(s.Body, "\n") {
				b.WriteString(nl)
			}
			if !last && fm.PrettySection {
				b.WriteString(nl)
			}
			continue
		}
		indent := fm.Indent
		if s.Name == f.SecName("") {
			indent = ""
		}
		width := 0
		for _, k := range s.Keys {
			if w := k.padded(); w > width {
				width = w
			}
		}
		for _, k := range s.Keys {
			if k.Comment != "" {
				for j, l := range commentLines(k.Comment, fm, true) {
					if j == 0 {
						b.WriteString(indent)
					}
					b.WriteString(l + nl)
				}
			}
			b.WriteString(indent)
			vals := k.Values()
			if len(vals) == 0 {
				vals = []string{""}
			}
			bare := false
			for _, v := range vals {
				b.WriteString(k.WriteName())
				if k.Bool && v == "true" && len(k.Shadows) == 0 {
					b.WriteString(nl)
					bare = true
					break
				}
				if fm.PrettyFormat {
					b.WriteString(strings.Repeat(" ", width-len(k.WriteName())))
				}
				b.WriteString(eq + f.WriteValue(v) + nl)
			}
			if bare {
				continue
			}
			for _, v := range k.Nested {
				b.WriteString(fm.Indent + "  " + v + nl)
			}
		}
		if fm.PrettySection && !last {
			b.WriteString(nl)
		}
	}
	return b.String()
}
