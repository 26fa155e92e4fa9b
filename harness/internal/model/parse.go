package model

import (
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// doc is a cursor over a whole document.
type doc struct {
	rest string
	done bool
}

// line takes the next line with its line feed; done is set once the last,
// unterminated (possibly empty) line was taken.
func (d *doc) line() string {
	i := strings.IndexByte(d.rest, '\n')
	if i < 0 {
		l := d.rest
		d.rest, d.done = "", true
		return l
	}
	l := d.rest[:i+1]
	d.rest = d.rest[i+1:]
	return l
}

func ltrim(s string) string { return strings.TrimLeftFunc(s, unicode.IsSpace) }

// Parse applies a document to the file.
func (f *File) Parse(text string) error {
	if strings.HasPrefix(text, "\xef\xbb\xbf") {
		f.cov("bom-utf8")
		text = text[3:]
	} else if strings.HasPrefix(text, "\xff\xfe") || strings.HasPrefix(text, "\xfe\xff") {
		f.cov("bom-utf16")
		text = text[2:]
	}
	d := &doc{rest: text}
	cur, err := f.NewSection(Default)
	if err != nil {
		return err
	}
	var (
		pending string // comment text waiting for its owner
		auto    = 1
		raw     bool // inside an unparseable section
		last    *Key // last assigned key, while its value was empty
		empty   bool
		bodies  = map[*Sec]bool{}
		nested  = map[*Key]bool{}
	)
	for !d.done {
		l := d.line()
		if f.Opt.AllowNestedValues && empty && l != "" && (l[0] == ' ' || l[0] == '\t') {
			if !nested[last] {
				last.Nested = nil
				nested[last] = true
			}
			if err := last.addNested(strings.TrimSpace(l)); err != nil {
				return err
			}
			f.cov("nested-line")
			continue
		}
		l = ltrim(l)
		switch {
		case l == "":
			continue
		case l[0] == '#' || l[0] == ';':
			f.cov("comment-line")
			pending += l
			continue
		case l[0] == '[':
			end := strings.LastIndexByte(l, ']')
			if end < 0 {
				return other("unclosed section")
			}
			name := l[1:end]
			sec, err := f.NewSection(name)
			if err != nil {
				return err
			}
			cur = sec
			if c := strings.IndexAny(l[end+1:], "#;"); c >= 0 {
				f.cov("header-comment")
				pending += l[end+1+c:]
			}
			cur.Comment = strings.TrimSpace(pending)
			pending, auto, empty = "", 1, false
			raw = false
			for _, u := range f.Opt.UnparseableSections {
				if u == name || f.FoldSec() && strings.EqualFold(u, name) {
					raw = true
				}
			}
			f.cov("header")
			continue
		}
		if raw {
			f.cov("raw-line")
			if !bodies[cur] {
				bodies[cur] = true
				cur.Body = ""
			}
			cur.Raw = true
			cur.Body += l
			continue
		}
		name, value, err := splitKey(f.Opt.KeyValueDelimiters, l)
		if err != nil {
			kind := KindOf(err)
			if kind == ErrDelim && f.Opt.AllowBooleanKeys {
				n, c, err := f.value(d, l)
				pending += c
				if err != nil {
					return err
				}
				k, err := cur.assign(n, "true")
				if err != nil {
					return err
				}
				k.Bool = true
				f.cov("boolean-key")
				if c := strings.TrimSpace(pending); c != "" || len(k.Shadows) == 0 {
					k.Comment = c
				}
				pending = ""
				continue
			}
			if (kind == ErrDelim || kind == ErrEmptyKey) && f.Opt.SkipUnrecognizableLines {
				f.cov("skipped-line")
				continue
			}
			return err
		}
		isAuto := name == "-"
		if isAuto {
			f.cov("auto-key")
			name = "#" + strconv.Itoa(auto)
			auto++
		}
		v, c, err := f.value(d, value)
		pending += c
		if err != nil {
			return err
		}
		k, err := cur.assign(name, v)
		if err != nil {
			return err
		}
		f.cov("key")
		k.Auto = isAuto
		// A shadow without a comment of its own leaves the key's.
		if c := strings.TrimSpace(pending); c != "" || len(k.Shadows) == 0 {
			k.Comment = c
		}
		pending = ""
		last, empty = k, v == ""
	}
	return nil
}

// splitKey separates the name from the text after the delimiter.
func splitKey(delims, l string) (name, rest string, err error) {
	open := ""
	switch {
	case strings.HasPrefix(l, `"""`) && len(l) > 6:
		open = `"""`
	case l[0] == '"':
		open = `"`
	case l[0] == '`':
		open = "`"
	}
	if open != "" {
		body := l[len(open):]
		end := strings.Index(body, open)
		if end < 0 {
			return "", "", other("missing closing key quote")
		}
		after := body[end+len(open):]
		i := strings.IndexAny(after, delims)
		if i < 0 {
			return "", "", &Error{Kind: ErrDelim, Line: l}
		}
		_, w := utf8.DecodeRuneInString(after[i:])
		return strings.TrimSpace(body[:end]), after[i+w:], nil
	}
	i := strings.IndexAny(l, delims)
	if i < 0 {
		return "", "", &Error{Kind: ErrDelim, Line: l}
	}
	if i == 0 {
		return "", "", &Error{Kind: ErrEmptyKey, Line: l}
	}
	_, w := utf8.DecodeRuneInString(l[i:])
	return strings.TrimSpace(l[:i]), l[i+w:], nil
}

func surrounded(s string, q byte) bool {
	return len(s) >= 2 && s[0] == q && s[len(s)-1] == q && strings.Count(s, string(q)) == 2
}

// value lexes a value that starts with the text after the delimiter; it may
// take further lines. It returns the value and the comment text found.
func (f *File) value(d *doc, in string) (val, comment string, err error) {
	o := f.Opt
	s := ltrim(in)
	if s == "" {
		if o.AllowPythonMultilineValues && strings.HasSuffix(in, "\n") {
			return f.python(d, ""), "", nil
		}
		return "", "", nil
	}
	quote := ""
	switch {
	case strings.HasPrefix(s, `"""`) && len(s) > 3:
		quote = `"""`
	case s[0] == '`':
		quote = "`"
	case s[0] == '"' && o.UnescapeValueDoubleQuotes:
		quote = `"`
	}
	if quote != "" {
		s = s[len(quote):]
		if end := strings.LastIndex(s, quote); end >= 0 {
			f.cov("quoted" + quote)
			s = s[:end]
			if quote == `"` {
				s = strings.ReplaceAll(s, `\"`, `"`)
			}
			return s, "", nil
		}
		f.cov("multiline" + quote)
		for {
			l := d.line()
			if end := strings.LastIndex(l, quote); end >= 0 {
				if c := strings.IndexAny(l[end:], "#;"); c >= 0 {
					f.cov("multiline-comment")
					comment = strings.TrimSpace(l[end+c:])
				}
				return s + l[:end], comment, nil
			}
			s += l
			if d.done {
				return "", "", other("missing closing quote")
			}
		}
	}
	terminated := strings.HasSuffix(s, "\n")
	s = strings.TrimSpace(s)
	if !o.IgnoreContinuation && strings.HasSuffix(s, `\`) {
		f.cov("continuation")
		for strings.HasSuffix(s, `\`) {
			s = s[:len(s)-1]
			next := strings.TrimSpace(d.line())
			if next == "" {
				return s, "", nil
			}
			s += next
		}
		return s, "", nil
	}
	if !o.IgnoreInlineComment {
		cut := -1
		for i := 0; i < len(s); i++ {
			if s[i] != '#' && s[i] != ';' {
				continue
			}
			if !o.SpaceBeforeInlineComment {
				cut = i
				break
			}
			if i > 0 && s[i-1] == ' ' {
				cut = i - 1
				break
			}
		}
		if cut >= 0 {
			f.cov("inline-comment")
			comment = strings.TrimSpace(s[cut:])
			s = strings.TrimSpace(s[:cut])
		}
	}
	switch {
	case !o.PreserveSurroundedQuote && (surrounded(s, '\'') || surrounded(s, '"')):
		f.cov("surrounding-quotes")
		s = s[1 : len(s)-1]
	case o.UnescapeValueCommentSymbols:
		s = strings.ReplaceAll(strings.ReplaceAll(s, `\;`, ";"), `\#`, "#")
	case o.AllowPythonMultilineValues && terminated:
		s = f.python(d, s)
	}
	return s, comment, nil
}

// python appends indented lines to a value.
func (f *File) python(d *doc, s string) string {
	for d.rest != "" && strings.IndexByte(" \t\f", d.rest[0]) >= 0 {
		f.cov("python-line")
		s += "\n" + strings.TrimSuffix(d.line(), "\n")
	}
	return s
}
