package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/go-ini/ini"

	"verif/harness/internal/core"
	"verif/harness/internal/model"
)

func init() {
	register(&core.Prop{ID: "C08", Level: "exploration", Quick: 150000, Thorough: 3000000, Run: runC08,
		Rule: "a case is one file (parsed and edited) written under several format settings and indents through all four writing calls, compared byte for byte with the reference layout; destinations that fail at any offset and existing files are included; distinct by the hash of the written text",
		Must: []string{"write", "save", "overwrite", "failing-writer", "short-writer", "pretty-format", "pretty-equal", "default-header", "no-pretty-section", "custom-format", "indent", "raw", "nested", "boolean", "auto", "shadows", "save-error"}})
}

// failWriter accepts limit bytes, then fails.
type failWriter struct {
	buf   bytes.Buffer
	limit int
	err   error
	after int
	short bool // do not report a short write without an error of its own
}

func (w *failWriter) Write(p []byte) (int, error) {
	if w.err != nil && w.buf.Len() >= w.limit && w.after > 0 {
		w.after++
	}
	room := w.limit - w.buf.Len()
	if len(p) <= room {
		return w.buf.Write(p)
	}
	w.after++
	w.buf.Write(p[:room])
	if w.short {
		return room, nil
	}
	return room, w.err
}

func runC08(c *core.Case) {
	r := c.R
	o := writeOptions(r)
	o.KeyValueDelimiters = core.Pick(r, delimSets)
	if r.P(0.3) {
		o.KeyValueDelimiterOnWrite = core.Pick(r, []string{"=", ":", "→", "=>", " "})
	}
	g := &docGen{r: r, o: &o}
	text := ""
	for i := 0; i < 10; i++ {
		n := r.Range(0, 12)
		if r.P(0.001) {
			n = g.widen()
		}
		text = g.text(n)
		if model.New(o).Parse(text) == nil {
			break
		}
		text = ""
	}
	defer setFormat(stdFormat())
	t := newTwin(c, o, text)
	if t == nil {
		c.Trivial = true
		return
	}
	t.secNames = []string{"a", "a.b", "raw", "c", "DEFAULT", "default", "", "x y"}
	t.keyNames = append([]string{}, apiKeyNames...)
	t.vals = append([]string{"", "true", "v"}, hostileValue(c), hostileValue(c), hostileValue(c), hostile(r, 6))
	if r.P(0.05) {
		t.keyNames = append(t.keyNames, randName(r), randName(r))
	}
	if r.P(0.004) {
		t.widen()
	}
	for i := r.N(14); i > 0; i-- {
		switch core.PickW(r, []core.W[int]{{10, 0}, {2, 1}, {6, 2}}) {
		case 0:
			t.create()
		case 1:
			t.delete()
		case 2:
			t.onKey()
		}
	}
	t.sync()
	snap := Snap(t.f)
	for _, s := range t.m.Secs {
		if s.Raw {
			c.Count("raw")
		}
		for _, k := range s.Keys {
			if k.Bool {
				c.Count("boolean")
			}
			if k.Auto {
				c.Count("auto")
			}
			if len(k.Nested) > 0 {
				c.Count("nested")
			}
			if len(k.Shadows) > 0 {
				c.Count("shadows")
			}
		}
	}
	for i := r.Range(1, 4); i > 0; i-- {
		fm := anyFormat(r)
		if r.P(0.3) {
			fm.Indent = core.Pick(r, []string{" ", "  ", "\t", "--"})
			c.Count("indent")
		}
		c08Format(c, t, fm)
		c.Eq("state after writing", Snap(t.f), snap)
	}
}

func c08Format(c *core.Case, t *twin, fm model.Format) {
	r := c.R
	setFormat(fm)
	c.Logf("format %+v", fm)
	if fm.PrettyFormat {
		c.Count("pretty-format")
	}
	if fm.PrettyEqual {
		c.Count("pretty-equal")
	}
	if fm.DefaultHeader {
		c.Count("default-header")
	}
	if !fm.PrettySection {
		c.Count("no-pretty-section")
	}
	if fm.Left != "" || fm.Right != "" || fm.LineBreak != "\n" {
		c.Count("custom-format")
	}
	want := t.m.Render(fm)
	c.Observe(want)
	c.Trivial = c.Trivial || want == ""
	check := func(what, got string, n int64, err error) {
		c.True(err == nil, "%s: %v", what, err)
		c.Eq(what, got, want)
		c.True(n == int64(len(got)), "%s: reports %d bytes, wrote %d", what, n, len(got))
	}
	var b bytes.Buffer
	n, err := t.f.WriteToIndent(&b, fm.Indent)
	check("WriteToIndent", b.String(), n, err)
	c.Count("write")
	b.Reset()
	n, err = t.f.WriteToIndent(&b, fm.Indent)
	check("WriteToIndent again", b.String(), n, err)
	if fm.Indent == "" {
		b.Reset()
		n, err = t.f.WriteTo(&b)
		check("WriteTo", b.String(), n, err)
	}
	if r.P(0.25) {
		p := c.Scratch(fmt.Sprintf(core.Pick(t.r, fileNames), 8))
		_ = os.Remove(p)
		if r.P(0.6) {
			c.Count("overwrite")
			old := strings.Repeat("old = content\n", r.Range(1, 300))
			must(os.WriteFile(p, []byte(old), 0o644))
		}
		c.Count("save")
		call := "SaveToIndent"
		if fm.Indent == "" && r.P(0.5) {
			call = "SaveTo"
			err = t.f.SaveTo(p)
		} else {
			err = t.f.SaveToIndent(p, fm.Indent)
		}
		data, e := os.ReadFile(p)
		must(e)
		check(call, string(data), int64(len(want)), err)
		if r.P(0.1) {
			c.Count("save-error")
			c.True(t.f.SaveTo(c.Dir) != nil, "SaveTo a directory reports no error")
			c.True(t.f.SaveToIndent(c.Scratch("no/such/dir.ini"), " ") != nil, "SaveToIndent below a missing directory reports no error")
		}
	}
	// Destinations that fail.
	if len(want) > 0 && r.P(0.3) {
		for i := 0; i < 4; i++ {
			boom := errors.New("disk full")
			w := &failWriter{limit: r.N(len(want)), err: boom}
			if i == 3 {
				w.short = true
				boom = io.ErrShortWrite
				c.Count("short-writer")
			}
			n, err := t.f.WriteToIndent(w, fm.Indent)
			c.Count("failing-writer")
			c.True(errors.Is(err, boom), "writer failing after %d bytes: error %v", w.limit, err)
			c.True(n == int64(w.buf.Len()), "writer failing after %d bytes: reports %d, took %d", w.limit, n, w.buf.Len())
			c.True(strings.HasPrefix(want, w.buf.String()), "a failing write wrote something else")
		}
	}
	_ = ini.PrettyFormat
}
