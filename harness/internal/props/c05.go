package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/go-ini/ini"

	"verif/harness/internal/core"
	"verif/harness/internal/model"
)

func init() {
	register(&core.Prop{ID: "C05", Level: "fault_enumeration", Quick: 120000, Thorough: 400000, Run: runC05,
		Rule: "a case is one document; a read error is injected at every byte offset of it (before, between and after the data, sticky or once, with or without data) and each load is judged; further loads mix faulty, missing, unreadable and unsupported sources with good ones; distinct by the hash of document and outcomes",
		Must: []string{"fault", "fault-after-valid-end", "fault-sticky", "fault-once", "fault-with-data", "close-checked", "fd-checked", "bytes-unaliased", "loose-missing", "loose-other-failure", "unsupported-type", "multi-source-fault", "other-methods", "known-error", "opened-file"}})
}

type faulty struct {
	data    []byte
	at      int // offset of the error
	pos     int
	err     error
	sticky  bool // the error repeats
	with    bool // the error comes together with the last data before it
	then    int  // after a one-shot error: 0 EOF, 1 the rest of the data
	fired   int
	chunk   int
	closes  int
	after   int // reads after close
	reads   int
	opened  bool
	eofSeen bool
	closeE  error
}

func (f *faulty) Read(p []byte) (int, error) {
	f.reads++
	if f.closes > 0 {
		f.after++
	}
	if len(p) == 0 {
		return 0, nil
	}
	limit := len(f.data)
	if f.at >= 0 && (f.fired == 0 || f.sticky) {
		limit = f.at
	} else if f.fired > 0 && f.then == 0 {
		return 0, io.EOF
	}
	n := limit - f.pos
	if n > f.chunk {
		n = f.chunk
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, f.data[f.pos:f.pos+n])
	f.pos += n
	if f.pos == limit {
		if f.at >= 0 && (f.fired == 0 || f.sticky) {
			if n == 0 || f.with {
				f.fired++
				return n, f.err
			}
		} else if n == 0 {
			f.eofSeen = true
			return 0, io.EOF
		}
	}
	return n, nil
}

func (f *faulty) Close() error { f.closes++; return f.closeE }

// Sources may have further methods.
type (
	seekingSource struct{ *faulty }
	writingSource struct{ *faulty }
	byteSource    struct{ *faulty }
	stringSource  struct{ *faulty }
)

func (s seekingSource) Seek(int64, int) (int64, error) { return 0, errors.New("not seekable") }
func (s writingSource) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, onlyReader{s.faulty})
}
func (s byteSource) ReadByte() (byte, error) {
	var b [1]byte
	n, err := io.ReadFull(s.faulty, b[:])
	if n == 1 {
		err = nil
	}
	return b[0], err
}
func (s stringSource) String() string { return "/nonexistent" }
func (s stringSource) Len() int       { return 0 }
func (s stringSource) Name() string   { return "" }

func disguise(r *rnd, f *faulty) any {
	switch r.N(4) {
	case 0:
		return seekingSource{f}
	case 1:
		return writingSource{f}
	case 2:
		return byteSource{f}
	}
	return stringSource{f}
}

// slow is a timeout.
type slow struct{}

func (slow) Error() string   { return "timeout" }
func (slow) Timeout() bool   { return true }
func (slow) Temporary() bool { return true }

// reports says whether an error is or names another one.
func reports(err, e error) bool {
	return errors.Is(err, e) || strings.Contains(err.Error(), e.Error())
}

type onlyReader struct{ io.Reader }

func openFDs() int {
	d, err := os.ReadDir("/proc/self/fd")
	must(err)
	return len(d)
}

func fdList() map[string]string {
	out := map[string]string{}
	d, err := os.ReadDir("/proc/self/fd")
	must(err)
	for _, e := range d {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil {
			out[e.Name()] = l
		}
	}
	return out
}

// leaked gives a descriptor below dir that is still open.
func leaked(dir string) string {
	for n, l := range fdList() {
		if strings.HasPrefix(l, dir+"/") && !strings.Contains(l, "/progress-") {
			return n + " -> " + l
		}
	}
	return ""
}

func runC05(c *core.Case) {
	r := c.R
	o := anyOptions(r)
	o.Loose = r.P(0.5)
	o.ShortCircuit = false
	g := &docGen{r: r, o: &o}
	var text string
	for i := 0; ; i++ {
		text = g.text(r.N(6))
		if len(text) > 260 && !c.Thorough {
			text = text[:r.N(200)]
		}
		m := model.New(o)
		if m.Parse(text) == nil {
			addCov(c, m)
			break
		}
		if i > 20 {
			text = ""
		}
	}
	c.Logf("options %s", optText(o))
	c.Logf("text %q", text)
	c.Observe(text)
	c.Trivial = text == ""

	switch core.PickW(r, []core.W[int]{{6, 0}, {3, 1}, {2, 2}, {2, 3}}) {
	case 0:
		c05Offsets(c, o, text)
	case 1:
		c05Multi(c, o, text, g)
	case 2:
		c05Files(c, o, text)
	case 3:
		c05Bytes(c, o, text)
	}
}

// c05Offsets injects an error at every offset.
func c05Offsets(c *core.Case, o ini.LoadOptions, text string) {
	r := c.R
	step := 1
	if len(text) > 600 {
		step = 1 + len(text)/300
	}
	for at := 0; at <= len(text); at += step {
		if step > 1 && at+step > len(text) {
			at = len(text)
		}
		e := fmt.Errorf("injected at %d", at)
		err := e
		switch r.N(6) {
		case 0:
			err = fmt.Errorf("wrapped: %w", e)
		case 1:
			// An error that merely claims to be an end of data is still an error.
			err = io.ErrUnexpectedEOF
			e = io.ErrUnexpectedEOF
		case 2:
			err = &os.PathError{Op: "read", Path: "x", Err: os.ErrNotExist}
			e = os.ErrNotExist
		case 3:
			e = core.Pick(r, []error{io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortBuffer, os.ErrClosed, os.ErrDeadlineExceeded, syscall.EINTR, syscall.EAGAIN, syscall.EIO, context.Canceled,
				slow{}, fmt.Errorf("read: %w", io.EOF), &os.PathError{Op: "read", Path: "x", Err: io.EOF}, errors.New("EOF")})
			err = e
			c.Count("known-error")
		}
		fr := &faulty{data: []byte(text), at: at, err: err, sticky: r.P(0.5), with: r.P(0.5), then: r.N(2), chunk: core.Pick(r, []int{1, 3, 17, 100000})}
		var src any = fr
		closer := r.P(0.6)
		if !closer {
			src = onlyReader{fr}
		} else if r.P(0.5) {
			src = disguise(r, fr)
			c.Count("other-methods")
		}
		f, got := ini.LoadSources(o, src)
		c.Count("fault")
		if fr.sticky {
			c.Count("fault-sticky")
		} else {
			c.Count("fault-once")
		}
		if fr.with {
			c.Count("fault-with-data")
		}
		if at == len(text) {
			c.Count("fault-after-valid-end")
		}
		what := func() string {
			return fmt.Sprintf("read error %v at offset %d of %d (sticky=%v withData=%v then=%d chunk=%d closer=%v)", err, at, len(text), fr.sticky, fr.with, fr.then, fr.chunk, closer)
		}
		if fr.fired == 0 {
			c.Failf("%s: the load ended without reading up to it (err=%v)", what(), got)
		}
		if got == nil {
			c.Failf("%s: taken for the end of the data", what())
		}
		c.True(reports(got, e), "%s: the load reports %v instead", what(), got)
		c.True(f == nil, "%s: a file is returned with the error", what())
		if closer {
			c.Count("close-checked")
			c.True(fr.closes == 1, "%s: closed %d times", what(), fr.closes)
			c.True(fr.after == 0, "%s: read after close", what())
		}
	}
}

// c05Multi mixes sources.
func c05Multi(c *core.Case, o ini.LoadOptions, text string, g *docGen) {
	r := c.R
	n := r.Range(2, 4)
	o.AllowShadows = false
	bad := r.N(n)
	fault := errors.New("injected")
	kind := r.N(3) // 0 read error, 1 parse error, 2 none
	if kind == 2 {
		bad = n
	}
	good := model.New(o)
	var srcs []any
	var fs []*faulty
	failed := false
	for i := 0; i < n; i++ {
		t := text
		if i > 0 {
			t = g.text(r.N(5))
			if model.New(o).Parse(t) != nil {
				t = ""
			}
		}
		fr := &faulty{data: []byte(t), at: -1, chunk: core.Pick(r, []int{1, 7, 100000})}
		if i == bad && kind == 0 {
			fr.at, fr.err, fr.sticky, fr.with = r.N(len(t)+1), fault, r.P(0.5), r.P(0.5)
		}
		if i == bad && kind == 1 {
			t += "\n\n[unclosed"
			fr.data = []byte(t)
		}
		if r.P(0.2) {
			fr.closeE = errors.New("close failed")
		}
		fs = append(fs, fr)
		if r.P(0.5) {
			srcs = append(srcs, fr)
		} else {
			srcs = append(srcs, disguise(r, fr))
		}
		c.Logf("source %d: %q fault at %d", i, t, fr.at)
		if !failed && good.Parse(t) != nil {
			failed = true
			if i < bad {
				bad, kind = i, 1
			}
		}
		if i == bad {
			failed = true
		}
	}
	f, err := ini.LoadSources(o, srcs[0], srcs[1:]...)
	c.Count("multi-source-fault")
	if kind == 0 {
		c.True(f == nil && err != nil && reports(err, fault), "fault in source %d: file=%v err=%v", bad, f != nil, err)
	} else if failed {
		c.True(f == nil && err != nil, "malformed source %d: file=%v err=%v", bad, f != nil, err)
	} else {
		c.True(err == nil && f != nil, "good sources: %v", err)
	}
	for i, fr := range fs {
		c.Count("close-checked")
		c.True(fr.after == 0, "source %d was read after its close", i)
		if fr.reads > 0 || i <= bad {
			c.True(fr.closes == 1, "source %d (read %d times) was closed %d times", i, fr.reads, fr.closes)
		} else {
			c.True(fr.closes <= 1, "source %d was closed %d times", i, fr.closes)
		}
		if i > bad {
			c.True(fr.reads == 0, "source %d was read although source %d failed", i, bad)
		}
	}
	if f == nil {
		return
	}
	c.Eq("state of good sources", Snap(f), SnapModel(good))
	// A failing Append reports the error; so does every later pass.
	fr := &faulty{data: []byte("[xyz]\n"), at: r.N(7), err: fault, sticky: r.P(0.5), chunk: 100}
	aerr := f.Append(fr)
	c.True(aerr != nil && reports(aerr, fault), "Append of a faulty source: %v", aerr)
	c.True(fr.closes == 1 && fr.after == 0, "appended source: %d closes, %d reads after close", fr.closes, fr.after)
}

// c05Files checks descriptors, missing and unreadable files, unsupported types.
func c05Files(c *core.Case, o ini.LoadOptions, text string) {
	r := c.R
	dir := c.Scratch("f")
	must(os.RemoveAll(dir))
	must(os.MkdirAll(filepath.Join(dir, "sub"), 0o755))
	dir, _ = filepath.EvalSymlinks(dir)
	good := filepath.Join(dir, "good.ini")
	must(os.WriteFile(good, []byte(text), 0o644))
	malformed := filepath.Join(dir, "bad.ini")
	must(os.WriteFile(malformed, []byte(text+"\n\n[unclosed"), 0o644))
	must(os.Symlink(filepath.Join(dir, "nowhere"), filepath.Join(dir, "dangling")))
	must(os.Symlink(filepath.Join(dir, "loop"), filepath.Join(dir, "loop")))
	type s struct {
		src     any
		missing bool
		fails   bool
		desc    string
	}
	choices := []s{
		{good, false, false, "good file"}, {good, false, false, "good file"},
		{malformed, false, true, "malformed file"},
		{filepath.Join(dir, "nowhere"), true, false, "missing file"},
		{filepath.Join(dir, "no", "dir"), true, false, "missing directory"},
		{filepath.Join(dir, "dangling"), true, false, "dangling symlink"},
		{filepath.Join(dir, "sub"), false, true, "directory"},
		{filepath.Join(good, "x"), false, true, "file as directory"},
		{filepath.Join(dir, "loop"), false, true, "symlink loop"},
		{filepath.Join(dir, strings.Repeat("n", 300)), false, true, "name too long"},
		{"bad\x00name", false, true, "name with NUL"},
		{42, false, true, "int"}, {nil, false, true, "nil"}, {[]string{"a"}, false, true, "[]string"}, {struct{}{}, false, true, "struct"}, {&text, false, true, "*string"},
		{&faulty{data: []byte("k=v"), at: 1, err: os.ErrNotExist, sticky: true, chunk: 9}, false, true, "reader failing with not-exist"},
	}
	n := r.Range(1, 3)
	var pick []s
	for i := 0; i < n; i++ {
		pick = append(pick, core.Pick(r, choices))
	}
	var srcs []any
	wantErr, all := false, model.New(o)
	for _, p := range pick {
		srcs = append(srcs, p.src)
		c.Logf("source: %s", p.desc)
		switch {
		case p.fails:
			wantErr = true
			if o.Loose {
				c.Count("loose-other-failure")
			}
		case p.missing && !o.Loose:
			wantErr = true
		case p.missing:
			c.Count("loose-missing")
			if !wantErr {
				must(all.Parse(""))
			}
		case !wantErr:
			if all.Parse(text) != nil {
				wantErr = true
			}
		}
		switch p.src.(type) {
		case int, []string, struct{}, *string, nil:
			c.Count("unsupported-type")
		}
	}
	// An opened file is a read-closer like any other.
	var handle *os.File
	if !wantErr && r.P(0.4) {
		part := filepath.Join(dir, "part.ini")
		before := core.Pick(r, []string{"", "garbage\n", "[other]\nk=1\n"})
		must(os.WriteFile(part, []byte(before+text), 0o644))
		handle, _ = os.Open(part)
		// The caller has read what comes before.
		_, _ = handle.Seek(int64(len(before)), io.SeekStart)
		srcs = append(srcs, handle)
		c.Logf("source: opened file")
		if all.Parse(text) != nil {
			wantErr = true
		}
	}
	f, err := ini.LoadSources(o, srcs[0], srcs[1:]...)
	if handle != nil {
		c.Count("opened-file")
		c.True(handle.Close() != nil, "a file given opened was not closed")
	}
	c.True((f != nil) == (err == nil), "file=%v err=%v", f != nil, err)
	c.True((err != nil) == wantErr, "err=%v, want an error: %v", err, wantErr)
	if f != nil {
		c.Eq("state", Snap(f), SnapModel(all))
	}
	c.Count("fd-checked")
	if l := leaked(dir); l != "" {
		c.Failf("descriptor left open: %s (err=%v)", l, err)
	}
	if f != nil {
		// Saving and reloading leave nothing open either.
		_ = f.SaveTo(filepath.Join(dir, "out.ini"))
		_ = f.SaveTo(filepath.Join(dir, "sub"))
		_ = f.Reload()
		_ = f.Append(malformed)
		if l := leaked(dir); l != "" {
			c.Failf("descriptor left open after save, reload or append: %s", l)
		}
	}
	got, e := os.ReadFile(good)
	must(e)
	c.True(string(got) == text, "loading changed the file")
}

// c05Bytes checks that the caller's slice is neither modified nor aliased.
func c05Bytes(c *core.Case, o ini.LoadOptions, text string) {
	full := []byte("guard>" + text + "<guard")
	src := full[6 : 6+len(text) : len(full)]
	keep := append([]byte(nil), full...)
	f, err := ini.LoadSources(o, src)
	c.True(bytes.Equal(full, keep), "loading modified the caller's bytes")
	if err != nil {
		c.Failf("load failed: %v", err)
	}
	want := Snap(f)
	var w1 bytes.Buffer
	_, _ = f.WriteTo(&w1)
	// Writing through the file must not show in the slice, nor the other way round.
	for _, s := range f.Sections() {
		for _, k := range s.Keys() {
			k.SetValue(k.Value() + "x")
		}
	}
	c.True(bytes.Equal(full, keep), "changing the file modified the caller's bytes")
	for _, s := range f.Sections() {
		for _, k := range s.Keys() {
			v := k.Value()
			k.SetValue(v[:len(v)-1])
		}
	}
	for i := range full {
		full[i] ^= 0x5a
	}
	c.Eq("state after the caller changed its bytes", Snap(f), want)
	var w2 bytes.Buffer
	_, _ = f.WriteTo(&w2)
	c.Eq("written text after the caller changed its bytes", w2.String(), w1.String())
	c.Count("bytes-unaliased")
}
