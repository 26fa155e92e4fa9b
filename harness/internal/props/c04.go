package props

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"syscall"

	"github.com/go-ini/ini"

	"verif/harness/internal/core"
	"verif/harness/internal/model"
)

func init() {
	register(&core.Prop{ID: "C04", Level: "exploration", Quick: 60000, Thorough: 900000, Run: runC04,
		Rule: "a case is one (options, document) pair loaded through about ten deliveries (source kind, chunking, buffer size), all compared with the byte-slice load and the reference parse; distinct by the hash of the outcome",
		Must: []string{"file", "reader", "readcloser", "one-byte", "empty-reads", "data-with-eof", "buffer-size", "standard", "long", "load-none", "load-delimiter-not-found"}})
}

// chunker delivers data in chunks chosen by next.
type chunker struct {
	data    []byte
	next    func(left, want int) (n int, empty bool)
	withEOF bool
	empties int
	onRead  func()
	closed  int
	reads   int
}

func (c *chunker) Read(p []byte) (int, error) {
	c.reads++
	if len(p) == 0 {
		return 0, nil
	}
	if len(c.data) == 0 {
		return 0, io.EOF
	}
	n, empty := c.next(len(c.data), len(p))
	if empty && c.empties < 3 {
		c.empties++
		return 0, nil
	}
	c.empties = 0
	if n < 1 {
		n = 1
	}
	if n > len(p) {
		n = len(p)
	}
	if n > len(c.data) {
		n = len(c.data)
	}
	copy(p, c.data[:n])
	// Poison what lies beyond: it must not be looked at.
	for i := n; i < len(p) && i < n+8; i++ {
		p[i] = '\n'
	}
	c.data = c.data[n:]
	if c.withEOF && len(c.data) == 0 {
		return n, io.EOF
	}
	return n, nil
}

type chunkCloser struct{ *chunker }

func (c chunkCloser) Close() error { c.closed++; return nil }

func runC04(c *core.Case) {
	r := c.R
	o := anyOptions(r)
	o.ReaderBufferSize = 0
	g := &docGen{r: r, o: &o, garbage: 0.05}
	text := g.text(r.Range(0, 14))
	if r.P(0.15) {
		text = mutate(r, text)
	}
	if r.P(0.08) {
		// long content, so that it spans several buffers
		var b strings.Builder
		for b.Len() < core.Pick(r, []int{3000, 5000, 9000, 70000}) {
			b.WriteString(g.text(8))
			if !strings.HasSuffix(b.String(), "\n") {
				b.WriteString("\n")
			}
		}
		text = b.String()
	}
	if len(text) > 4096 {
		c.Count("long")
	}
	c.Logf("options %s", optText(o))
	c.Logf("text %q", text)
	m := model.New(o)
	merr := m.Parse(text)
	addCov(c, m)
	f0, err0 := ini.LoadSources(o, []byte(text))
	compareLoad(c, f0, err0, m, merr)
	want := ""
	if err0 == nil {
		want = Snap(f0)
	}
	same := func(what string, f *ini.File, err error) {
		c.Count("deliveries")
		if (err == nil) != (err0 == nil) {
			c.Failf("%s: err=%v, as bytes err=%v", what, err, err0)
		}
		if err != nil {
			c.True(f == nil, "%s: file with error", what)
			c.Eq(what+": error", err.Error(), err0.Error())
			return
		}
		c.Eq(what+": state", Snap(f), want)
	}
	path := c.Scratch(fmt.Sprintf(core.Pick(r, fileNames), 4))
	must(os.WriteFile(path, []byte(text), 0o644))
	c.Count("file")
	f, err := ini.LoadSources(o, path)
	same("file name", f, err)

	mk := func(kind int) *chunker {
		ch := &chunker{data: []byte(text), withEOF: r.P(0.5)}
		if ch.withEOF {
			c.Count("data-with-eof")
		}
		switch kind {
		case 0:
			c.Count("one-byte")
			ch.next = func(int, int) (int, bool) { return 1, false }
		case 1:
			ch.next = func(_, want int) (int, bool) { return want, false }
		case 2:
			c.Count("empty-reads")
			ch.next = func(left, want int) (int, bool) { return r.Range(1, 40), r.P(0.4) }
		case 3: // up to each line end
			ch.next = func(left, want int) (int, bool) {
				i := bytes.IndexByte(ch.data, '\n')
				if i < 0 {
					return left, false
				}
				return i + 1 - r.N(2), false
			}
		case 4:
			ch.next = func(left, want int) (int, bool) { return r.Range(1, 5000), r.P(0.05) }
		}
		return ch
	}
	bufs := []int{0, -5, 1, 16, 100, 4095, 4096, 4097, 5000, 8192, 65536, 1 << 20}
	for kind := 0; kind < 5; kind++ {
		ro := o
		if r.P(0.6) {
			ro.ReaderBufferSize = core.Pick(r, bufs)
			c.Count("buffer-size")
		}
		ch := mk(kind)
		var src any = io.Reader(ch)
		if r.P(0.5) {
			src = chunkCloser{ch}
			c.Count("readcloser")
		} else {
			c.Count("reader")
		}
		c.Logf("delivery kind=%d buf=%d eofWithData=%v", kind, ro.ReaderBufferSize, ch.withEOF)
		f, err := ini.LoadSources(ro, src)
		same("chunked delivery", f, err)
	}
	if r.P(0.4) {
		c04Standard(c, o, text, same)
	}
	ro := o
	ro.ReaderBufferSize = core.Pick(r, bufs)
	c.Logf("bytes with buf=%d", ro.ReaderBufferSize)
	f, err = ini.LoadSources(ro, []byte(text))
	same("bytes with another buffer size", f, err)
	switch r.N(4) {
	case 0:
		f, err = ini.LoadSources(o, strings.NewReader(text))
		same("strings.Reader", f, err)
	case 1:
		f, err = ini.LoadSources(o, bytes.NewBufferString(text))
		same("bytes.Buffer", f, err)
	case 2:
		fd, e := os.Open(path)
		must(e)
		f, err = ini.LoadSources(o, fd)
		same("open file", f, err)
		if e := fd.Close(); e == nil || !errors.Is(e, os.ErrClosed) {
			c.Failf("the open file was not closed by the load: %v", e)
		}
	case 3:
		pr, pw := io.Pipe()
		defer pr.Close()
		go func() {
			s := text
			for len(s) > 0 {
				n := 1 + len(s)/3
				if _, e := pw.Write([]byte(s[:n])); e != nil {
					return
				}
				s = s[n:]
			}
			_ = pw.Close()
		}()
		f, err = ini.LoadSources(o, pr)
		same("pipe", f, err)
		_ = pr.Close()
	}
	c.Trivial = len(text) == 0
}

func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

// c04Standard delivers the text through readers of the standard library, part of
// which has been read by the caller, and through files that do not know their size.
func c04Standard(c *core.Case, o ini.LoadOptions, text string, same func(string, *ini.File, error)) {
	r := c.R
	before := core.Pick(r, []string{"", "garbage\n", "[other]\nk=1\n", "x", "\xef\xbb\xbf", "k = `"})
	all := before + text
	skip := func(rd io.Reader) io.Reader {
		_, err := io.ReadFull(rd, make([]byte, len(before)))
		must(err)
		return rd
	}
	kind := core.Pick(r, []string{"bytes.Reader", "strings.Reader", "bytes.Buffer", "bufio.Reader", "os.File", "io.SectionReader", "io.MultiReader", "io.TeeReader", "io.Pipe", "fifo", "pipe by name"})
	c.Logf("through %s after %q", kind, before)
	c.Count("standard")
	var src any
	switch kind {
	case "bytes.Reader":
		src = skip(bytes.NewReader([]byte(all)))
	case "strings.Reader":
		src = skip(strings.NewReader(all))
	case "bytes.Buffer":
		src = skip(bytes.NewBufferString(all))
	case "bufio.Reader":
		src = skip(bufio.NewReaderSize(strings.NewReader(all), 16<<r.N(10)))
	case "os.File":
		p := c.Scratch("c04.part")
		must(os.WriteFile(p, []byte(all), 0o644))
		f, err := os.Open(p)
		must(err)
		defer f.Close()
		src = skip(f)
	case "io.SectionReader":
		src = io.NewSectionReader(strings.NewReader(all+"[more]\n"), int64(len(before)), int64(len(text)))
	case "io.MultiReader":
		i := r.N(len(text) + 1)
		src = io.MultiReader(strings.NewReader(text[:i]), strings.NewReader(""), strings.NewReader(text[i:]))
	case "io.TeeReader":
		src = io.TeeReader(skip(strings.NewReader(all)), io.Discard)
	case "io.Pipe":
		pr, pw := io.Pipe()
		defer pr.Close()
		go func() {
			_, _ = io.WriteString(pw, text)
			_ = pw.Close()
		}()
		src = io.Reader(pr)
	case "fifo":
		p := c.Scratch("c04.fifo")
		_ = os.Remove(p)
		must(syscall.Mkfifo(p, 0o600))
		defer os.Remove(p)
		go func() {
			w, err := os.OpenFile(p, os.O_WRONLY, 0)
			if err != nil {
				return
			}
			_, _ = w.WriteString(text)
			_ = w.Close()
		}()
		src = p
	case "pipe by name":
		pr, pw, err := os.Pipe()
		must(err)
		defer pr.Close()
		go func() {
			_, _ = pw.WriteString(text)
			_ = pw.Close()
		}()
		src = fmt.Sprintf("/proc/self/fd/%d", pr.Fd())
	}
	f, err := ini.LoadSources(o, src)
	same(kind, f, err)
}
