package props

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/go-ini/ini"

	"verif/harness/internal/core"
	"verif/harness/internal/model"
)

func init() {
	register(&core.Prop{ID: "C06", Level: "exploration", Quick: 100000, Thorough: 1500000, Run: runC06,
		Rule: "a case is one history: an initial load of one to four sources followed by appends, reloads, changes of the files on disk and programmatic edits, each step compared with the fold of the reference parser; distinct by the hash of the final state",
		Must: []string{"load", "append", "append-unsupported", "reload", "reload-unchanged", "file-changed", "edit", "short-circuit", "loose-missing", "missing-error", "overlay", "wrapper", "handle-kept", "source-again", "same-size"}})
}

type source struct {
	path    string // file source when not empty
	content string
	missing bool
	rename  bool
	data    []byte
}

func (s *source) real(stringer bool) any {
	if s.path != "" {
		return s.path
	}
	return s.data
}

func (s *source) set(content string, missing bool) {
	s.content, s.missing = content, missing
	if s.path == "" {
		return
	}
	if missing {
		_ = os.Remove(s.path)
		return
	}
	if s.rename {
		// The new content comes as another file under the same name.
		must(os.WriteFile(s.path+"~", []byte(content), 0o644))
		must(os.Rename(s.path+"~", s.path))
	} else {
		must(os.WriteFile(s.path, []byte(content), 0o644))
	}
	// Nothing but the content tells that a file has changed.
	must(os.Chtimes(s.path, fileTime, fileTime))
}

var fileTime = time.Unix(1700000000, 0)

// fileNames are formats for the names of files, which mean nothing to the library.
var fileNames = []string{"f%d.ini", "f%d.ini", "f%d", "f %d.ini", " f%d.conf ", "ф%d.ini", "F%d.INI", ".f%d", "f%d=1", "[f%d]", "f%d.yaml", "f%d.gz", "#f%d", "f%d\n", "$HOME%d", "%%(f%d)s", "f*%d?", "f%d.ini.bak", `f\%d`, "f%d#x", "f%d?x=1"}

// foldSources is the model of Reload.
func foldSources(m *model.File, l []*source) error {
	m.BeginLoad()
	for _, s := range l {
		if s.missing {
			if !m.Opt.Loose {
				return fmt.Errorf("missing source")
			}
			if err := m.Parse(""); err != nil {
				return err
			}
			continue
		}
		if err := m.Parse(s.content); err != nil {
			return err
		}
		if m.Opt.ShortCircuit {
			return nil
		}
	}
	return nil
}

// smallGen draws documents over few names, so that sources overlap.
func smallGen(r *rnd, o *ini.LoadOptions) *docGen {
	g := &docGen{r: r, o: o, plain: r.P(0.6), keys: []string{"a", "b", "A", "k k", "x"}}
	g.secs = []string{"s", "S", "s.t", "default", "DEFAULT", "u"}
	return g
}

func runC06(c *core.Case) {
	r := c.R
	o := anyOptions(r)
	o.AllowNonUniqueSections = false
	o.Loose = r.P(0.4)
	o.ShortCircuit = r.P(0.15)
	o.ReaderBufferSize = 0
	dir := c.Scratch("c06")
	must(os.RemoveAll(dir))
	must(os.MkdirAll(dir, 0o755))
	g := smallGen(r, &o)
	valid := func() string {
		for i := 0; i < 30; i++ {
			t := g.text(r.Range(0, 8))
			if model.New(o).Parse(t) == nil {
				return t
			}
		}
		return ""
	}
	nfile := 0
	var list []*source
	mk := func() *source {
		if len(list) > 0 && r.P(0.12) {
			// A source of the list once more.
			s := core.Pick(r, list)
			c.Count("source-again")
			c.Logf("  source path=%q again", filepath.Base(s.path))
			return s
		}
		s := &source{}
		if r.P(0.5) {
			nfile++
			s.path = filepath.Join(dir, fmt.Sprintf(core.Pick(r, fileNames), nfile))
			miss := r.P(0.12)
			s.set(valid(), miss)
		} else {
			s.set(valid(), false)
			s.data = []byte(s.content)
		}
		c.Logf("  source path=%q missing=%v content=%q", filepath.Base(s.path), s.missing, s.content)
		return s
	}
	c.Logf("options %s", optText(o))
	for i := r.Range(1, 4); i > 0; i-- {
		list = append(list, mk())
	}
	m := model.New(o)
	merr := foldSources(m, list)
	addCov(c, m)
	var rest []any
	for _, s := range list[1:] {
		rest = append(rest, s.real(false))
	}
	f, err := ini.LoadSources(o, list[0].real(false), rest...)
	c.Count("load")
	c.True((err == nil) == (f != nil), "file=%v err=%v", f != nil, err)
	c.True((err == nil) == (merr == nil), "LoadSources: err=%v, want %v", err, merr)
	for _, s := range list {
		if s.missing {
			if o.Loose {
				c.Count("loose-missing")
			} else {
				c.Count("missing-error")
			}
		}
	}
	if o.ShortCircuit && len(list) > 1 {
		c.Count("short-circuit")
	}
	if r.P(0.15) {
		c06Wrappers(c, list)
	}
	if err != nil {
		return
	}
	if r.P(0.3) {
		f.BlockMode = false
	}
	c.Eq("state after the load", Snap(f), SnapModel(m))
	if len(list) > 1 && !o.ShortCircuit {
		// The same sources, appended one at a time.
		c.Count("overlay")
		f2 := ini.Empty(o)
		bad := false
		for _, s := range list {
			if err := f2.Append(s.real(false)); err != nil {
				// The nested re-application may fail only where the whole load does.
				bad = true
				c.Failf("Append one by one: %v", err)
			}
		}
		if !bad {
			c.Eq("one load against one append per source", snapSorted(f2, o), snapSorted(f, o))
		}
	}

	handles := map[*model.Key]*ini.Key{}
	collect := func() {
		for i, s := range f.Sections() {
			for j, k := range s.Keys() {
				mk := m.Secs[i].Keys[j]
				if h, ok := handles[mk]; ok {
					c.Count("handle-kept")
					c.True(h == k, "key %q of section %q is another object than before", k.Name(), s.Name())
				}
				handles[mk] = k
			}
		}
	}
	collect()
	for step := r.Range(1, 8); step > 0; step-- {
		switch core.PickW(r, []core.W[int]{{3, 0}, {4, 1}, {4, 2}, {6, 3}}) {
		case 0: // append
			if r.P(0.12) {
				bad := core.Pick(r, []any{nil, 42, []string{"x"}, 'c', struct{}{}})
				c.Count("append-unsupported")
				c.Logf("append %T", bad)
				if err := f.Append(bad); err == nil {
					c.Failf("Append of a %T: no error", bad)
				}
				c.Eq("state after a refused append", Snap(f), SnapModel(m))
				continue
			}
			n := core.PickW(r, []core.W[int]{{6, 1}, {4, 2}, {2, 3}, {1, 5}})
			var add []any
			c.Logf("append")
			for i := 0; i < n; i++ {
				s := mk()
				list = append(list, s)
				add = append(add, s.real(false))
			}
			c.Count("append")
			merr := foldSources(m, list)
			addCov(c, m)
			err := f.Append(add[0], add[1:]...)
			c.True((err == nil) == (merr == nil), "Append: err=%v, want %v", err, merr)
			if err != nil {
				return
			}
		case 1:
			c.Logf("reload")
			c.Count("reload")
			merr := foldSources(m, list)
			addCov(c, m)
			err := f.Reload()
			c.True((err == nil) == (merr == nil), "Reload: err=%v, want %v", err, merr)
			if err != nil {
				return
			}
			c.Eq("state after reload", Snap(f), SnapModel(m))
			if r.P(0.5) {
				before := Snap(f)
				var b1, b2 bytes.Buffer
				_, _ = f.WriteTo(&b1)
				for i := r.Range(1, 3); i > 0; i-- {
					if err := f.Reload(); err != nil {
						c.Failf("Reload of unchanged sources: %v", err)
					}
				}
				must(foldSources(m, list))
				addCov(c, m)
				c.Count("reload-unchanged")
				c.Eq("state after reloading unchanged sources", Snap(f), before)
				_, _ = f.WriteTo(&b2)
				c.Eq("text after reloading unchanged sources", b2.String(), b1.String())
			}
		case 2: // change a source
			s := core.Pick(r, list)
			if s.path == "" {
				continue
			}
			t := valid()
			if n := len(s.content); r.P(0.5) && len(t) < n {
				if p := t + strings.Repeat("\n", n-len(t)); model.New(o).Parse(p) == nil {
					t = p
					c.Count("same-size")
				}
			}
			s.rename = r.P(0.3)
			s.set(t, r.P(0.1))
			c.Count("file-changed")
			c.Logf("file %s: missing=%v %q", filepath.Base(s.path), s.missing, s.content)
			continue
		case 3:
			c06Edit(c, f, m)
			c.Count("edit")
		}
		c.Eq("state", Snap(f), SnapModel(m))
		collect()
	}
	c.Observe(Snap(f))
	c.Trivial = len(list) == 1
}

// snapSorted is the snapshot; in the presence of a deleted default section the
// order may differ, which does not happen here.
func snapSorted(f *ini.File, o ini.LoadOptions) string { return Snap(f) }

// c06Edit applies one programmatic edit to both.
func c06Edit(c *core.Case, f *ini.File, m *model.File) {
	r := c.R
	names := append([]string{"fresh", "s", "S", "u"}, m.Names()...)
	sn := core.Pick(r, names)
	kn := core.Pick(r, []string{"a", "b", "A", "x", "fresh", "#1"})
	v := core.Pick(r, words)
	switch r.N(7) {
	case 0:
		c.Logf("Section(%q).Key(%q).SetValue(%q)", sn, kn, v)
		f.Section(sn).Key(kn).SetValue(v)
		m.Section(sn).Key(kn).Value = v
	case 1:
		c.Logf("Section(%q).NewKey(%q, %q)", sn, kn, v)
		_, e1 := f.Section(sn).NewKey(kn, v)
		_, e2 := m.Section(sn).NewKey(kn, v)
		c.True((e1 == nil) == (e2 == nil), "NewKey: %v, want %v", e1, e2)
	case 2:
		c.Logf("Section(%q).DeleteKey(%q)", sn, kn)
		f.Section(sn).DeleteKey(kn)
		m.Section(sn).DeleteKey(kn)
	case 3:
		c.Logf("DeleteSection(%q)", sn)
		f.DeleteSection(sn)
		m.Delete(sn)
	case 4:
		c.Logf("Section(%q).Comment = %q", sn, v)
		f.Section(sn).Comment = v
		m.Section(sn).Comment = v
	case 5:
		c.Logf("Section(%q).Key(%q).AddShadow(%q)", sn, kn, v)
		e1 := f.Section(sn).Key(kn).AddShadow(v)
		e2 := m.Section(sn).Key(kn).AddShadow(v)
		c.True((e1 == nil) == (e2 == nil), "AddShadow: %v, want %v", e1, e2)
	case 6:
		c.Logf("Section(%q).Key(%q).AddNestedValue(%q)", sn, kn, v)
		e1 := f.Section(sn).Key(kn).AddNestedValue(v)
		e2 := m.Section(sn).Key(kn).AddNested(v)
		c.True((e1 == nil) == (e2 == nil), "AddNestedValue: %v, want %v", e1, e2)
	}
}

// c06Wrappers compares the convenience loaders with LoadSources.
func c06Wrappers(c *core.Case, list []*source) {
	var rest []any
	for _, s := range list[1:] {
		rest = append(rest, s.real(false))
	}
	first := list[0].real(false)
	for _, w := range []struct {
		name string
		opt  ini.LoadOptions
		load func(any, ...any) (*ini.File, error)
	}{
		{"Load", ini.LoadOptions{}, ini.Load},
		{"LooseLoad", ini.LoadOptions{Loose: true}, ini.LooseLoad},
		{"InsensitiveLoad", ini.LoadOptions{Insensitive: true}, ini.InsensitiveLoad},
		{"ShadowLoad", ini.LoadOptions{AllowShadows: true}, ini.ShadowLoad},
	} {
		m := model.New(w.opt)
		merr := foldSources(m, list)
		addCov(c, m)
		f, err := w.load(first, rest...)
		c.Count("wrapper")
		c.True((err == nil) == (merr == nil) && (f != nil) == (err == nil), "%s: file=%v err=%v, want err=%v", w.name, f != nil, err, merr)
		if err == nil {
			c.Eq(w.name, Snap(f), SnapModel(m))
		}
	}
	f := ini.Empty()
	c.Eq("Empty", Snap(f), fmt.Sprintf("names [%q]\n", model.Default)+strings.SplitN(Snap(f), "\n", 2)[1])
}
