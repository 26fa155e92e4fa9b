package props

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"syscall"
	"time"

	"github.com/go-ini/ini"

	"verif/harness/internal/core"
	"verif/harness/internal/model"
)

func init() {
	register(&core.Prop{ID: "C13", Level: "exploration", Quick: 250000, Thorough: 5000000, Run: runC13, Final: finalC13,
		Rule:        "a case is one graph of references between keys of a section, its ancestors and the default section (chains up to and past the limit, self-references, cycles, shadowing, missing and malformed names, optional value mapper); every key's expansion through every string accessor is compared with an independent evaluator and the file is compared with its state before; distinct by the hash of all expansions; non-trivial when something was replaced",
		Must:        []string{"child-delimiter", "like-default", "expanded", "limit-reached", "chain-100", "self-reference", "cycle", "missing-name", "malformed", "from-ancestor", "from-default", "shadow-in-default", "mapper", "no-default-section", "insensitive", "shadows-expanded", "stale", "random-name", "varied-name"},
		Assumptions: []string{"graphs whose expansion grows past 64 KiB are left out (their growth is the recorded finding)"}})
	Demos["C13"] = demoC13
}

// Demos are run in a child process with bounded resources.
var Demos = map[string]func() error{}

const c13Limit = 1 << 16

func runC13(c *core.Case) {
	r := c.R
	o := ini.LoadOptions{Insensitive: r.P(0.15), AllowShadows: r.P(0.2), InsensitiveKeys: r.P(0.05)}
	if r.P(0.15) {
		o.ChildSectionDelimiter = core.Pick(r, []string{"/", "::", "-"})
		c.Count("child-delimiter")
	}
	if o.Insensitive {
		c.Count("insensitive")
	}
	m := model.New(o)
	f := ini.Empty(o)
	m.Parse("")
	if r.P(0.15) {
		f.DeleteSection("")
		m.Delete("")
		c.Count("no-default-section")
	}
	mapper := r.N(12)
	switch mapper {
	case 0:
		m.Mapper = strings.ToUpper
	case 1:
		m.Mapper = func(s string) string { return strings.NewReplacer("$V", "%(a)s", "$W", "w").Replace(s) }
	case 2:
		m.Mapper = func(s string) string { return "<" + s + ">" }
	case 3:
		m.Mapper = func(s string) string { return os.Expand(s, func(n string) string { return "%(" + n + ")s" }) }
	}
	if m.Mapper != nil {
		f.ValueMapper = m.Mapper
		c.Count("mapper")
	}
	type pair struct {
		k *model.Key
		r *ini.Key
	}
	var keys []pair
	add := func(sec, name, val string) {
		ms, fs := m.Section(sec), f.Section(sec)
		mk, e1 := ms.NewKey(name, val)
		fk, e2 := fs.NewKey(name, val)
		must(e1)
		must(e2)
		c.Logf("[%s] %s = %q", sec, name, val)
		keys = append(keys, pair{mk, fk})
	}
	names := []string{"a", "b", "c", "d", "A", "e f", "ключ", "x.y"}
	if r.P(0.1) {
		for i := r.Range(1, 3); i > 0; i-- {
			names = append(names, randName(r))
		}
		c.Count("random-name")
	}
	// The names as they are and slightly different ones, which may exist or not.
	varied := func(n string) string {
		if r.P(0.08) {
			c.Count("varied-name")
			return core.Pick(r, []string{n + " ", " " + n, " " + n + " ", "\t" + n, strings.ToUpper(n), n + "s", "%" + n, "s." + n, n + ".", "." + n, "(" + n, "-" + n, "\"" + n + "\"", "#" + n})
		}
		return n
	}
	d := m.Opt.ChildSectionDelimiter
	secs := []string{"", "s", "s" + d + "t", "s" + d + "t" + d + "u", "o"}
	if r.P(0.1) {
		c.Count("like-default")
		secs = append(secs, core.Pick(r, []string{model.Default + ".x", model.Default + d + "x", "default", model.Default + "2", "x" + d + model.Default, "s.t", "s/t", "DEFAULT", "Default"}))
	}
	if len(m.Secs) == 0 {
		secs = secs[1:]
	}
	switch kind := r.N(8); kind {
	case 0: // a chain of given length, possibly closed to a cycle
		n := core.Pick(r, []int{1, 2, 3, 5, 10, 50, 97, 98, 99, 100, 101, 150})
		sec := core.Pick(r, secs)
		name := func(i int) string { return fmt.Sprintf("k%d", i) }
		pre, post := core.Pick(r, []string{"", "p", "<"}), core.Pick(r, []string{"", "q", "%"})
		for i := 0; i < n; i++ {
			s := sec
			if r.P(0.1) {
				s = core.Pick(r, secs)
			}
			add(s, name(i), pre+"%("+name(i+1)+")s"+post)
		}
		if n >= 100 {
			c.Count("chain-100")
		}
		if r.P(0.3) {
			c.Count("cycle")
			add(sec, name(n), "%("+name(r.N(n+1))+")s"+post)
		} else {
			add(sec, name(n), "end")
		}
	case 1: // self-references, also through the default section
		n := core.Pick(r, names)
		v := "x%(" + n + ")s" + core.Pick(r, []string{"", "y", "%(" + n + ")s"})
		add(core.Pick(r, secs), n, v)
		if r.P(0.6) && secs[0] == "" {
			c.Count("shadow-in-default")
			add("", n, core.Pick(r, []string{"D", "%(" + n + ")s", "%(b)s", v}))
		}
		c.Count("self-reference")
	default: // random graphs
		word := func() string {
			switch r.N(12) {
			case 0:
				c.Count("missing-name")
				return "%(nope)s"
			case 1:
				c.Count("malformed")
				return core.Pick(r, []string{"%()s", "%(a)d", "%a", "%(a", "%(a) s", "%%(a)s", "%(a%(b)s)s", "(%(a)s)s", "%((a))s", "%(a)s)s", "%", "%(\n)s", "%(a)S"})
			case 2:
				return core.Pick(r, []string{"$V", "$W", "${b}", "plain", "$"})
			}
			return "%(" + varied(core.Pick(r, names)) + ")s"
		}
		for i := r.Range(1, 12); i > 0; i-- {
			var b strings.Builder
			for j := core.PickW(r, []core.W[int]{{3, 0}, {8, 1}, {2, 2}, {1, 3}}); j > 0; j-- {
				b.WriteString(core.Pick(r, []string{"", "", "t", " ", "%", "é"}))
				b.WriteString(word())
				b.WriteString(core.Pick(r, []string{"", "", ",", "u", "s"}))
			}
			if b.Len() == 0 {
				b.WriteString(core.Pick(r, []string{"", "v", "1,2", "true", "w"}))
			}
			add(core.Pick(r, secs), varied(core.Pick(r, names)), b.String())
		}
		if r.P(0.15) {
			// a key that is no longer in the file
			p := core.Pick(r, keys)
			p.k.S.DeleteKey(p.k.Name)
			if sec, err := f.GetSection(p.k.S.Name); err == nil {
				sec.DeleteKey(p.k.Name)
			}
			c.Count("stale")
		}
		if r.P(0.05) {
			s := core.Pick(r, secs)
			m.Delete(s)
			f.DeleteSection(s)
			c.Count("stale")
		}
	}
	before := SnapModel(m)
	c.Eq("state before", Snap(f), before)
	replaced := false
	for _, p := range keys {
		want, steps, ok := p.k.Expand(p.k.Value, c13Limit)
		if !ok {
			c.Count("left-out-growth")
			continue
		}
		c.Logf("expand [%s] %s", p.k.S.Name, p.k.Name)
		got := p.r.String()
		c.Eq("expansion of ["+p.k.S.Name+"] "+p.k.Name, got, want)
		c.Observe(want)
		if steps > 0 {
			replaced = true
			c.Count("expanded")
		}
		if steps == 99 {
			c.Count("limit-reached")
		}
		if s, e, n := model.Ref(p.k.Value); s >= 0 && e > s {
			if t := p.k.S.GetKey(n); t != nil && t != p.k && t.S != p.k.S {
				c.Count("from-ancestor")
			} else if t == nil && steps > 0 {
				c.Count("from-default")
			}
			if t := p.k.S.GetKey(n); t != nil && t != p.k {
				if s2, _, n2 := model.Ref(t.Value); s2 >= 0 && p.k.S.GetKey(n2) == p.k {
					c.Count("cycle")
				}
			}
		}
		// Every accessor of text works on the expansion.
		c.Eq("Validate", p.r.Validate(func(s string) string { return "<" + s + ">" }), "<"+want+">")
		c.Eq("In", p.r.In("\x00", []string{"zz", want}), want)
		if want != "" {
			c.Eq("MustString", p.r.MustString("\x00"), want)
		}
		if strings.IndexByte(want, '\\') < 0 && strings.IndexByte(want, 0xff) < 0 && len(want) < 2000 {
			c.Eq("Strings", strings.Join(p.r.Strings(","), "|"), strings.Join(plainSplit(want), "|"))
		}
		if len(p.k.Shadows) > 0 && len(want) < 2000 {
			var parts []string
			all := true
			for _, v := range p.k.Values() {
				for _, x := range strings.Split(v, ";") {
					w, _, ok := p.k.Expand(strings.TrimSpace(x), c13Limit)
					all = all && ok
					parts = append(parts, w)
				}
			}
			if all {
				c.Count("shadows-expanded")
				c.EqV("StringsWithShadows", p.r.StringsWithShadows(";"), parts)
			}
		}
	}
	// Expansion through mapping and comparison of the whole state.
	c.Eq("state after expanding", Snap(f), before)
	for _, p := range keys {
		c.Eq("raw value", p.r.Value(), p.k.Value)
	}
	var b bytes.Buffer
	_, err := f.WriteTo(&b)
	c.True(err == nil, "WriteTo: %v", err)
	c.Eq("written text", b.String(), m.Render(stdFormat()))
	c.Trivial = !replaced
}

// plainSplit splits text without backslashes at commas.
func plainSplit(s string) []string {
	if s == "" {
		return nil
	}
	l := strings.Split(string([]rune(s)), ",")
	if l[len(l)-1] == "" {
		l = l[:len(l)-1]
	}
	for i := range l {
		l[i] = strings.TrimSpace(l[i])
	}
	return l
}

// demoC13 expands a mutual reference with fan-out two.
func demoC13() error {
	f, err := ini.Load([]byte("a=%(b)s%(b)s\nb=%(a)s%(a)s\nc=%(a)s\n"))
	if err != nil {
		return err
	}
	_ = f.Section("").Key("c").String()
	return nil
}

// runDemo runs a demonstration in a child with little memory and time.
func runDemo(name string, wall time.Duration) (ok bool, how string) {
	exe, err := os.Executable()
	must(err)
	c := exec.Command(exe, "-demo", name)
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := c.Start(); err != nil {
		return false, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case err := <-done:
		if err == nil {
			return true, ""
		}
		l := strings.SplitN(out.String(), "\n", 2)[0]
		return false, fmt.Sprintf("%v (%s)", err, l)
	case <-time.After(wall):
		_ = c.Process.Kill()
		<-done
		return false, "did not end within " + wall.String()
	}
}

func finalC13(env *core.Env) {
	const id = "C13-mutual-fanout"
	ok, how := runDemo("C13", 60*time.Second)
	if ok {
		return
	}
	msg := "expanding a mutual reference with fan-out two (a=%(b)s%(b)s, b=%(a)s%(a)s, c=%(a)s; String of c) does not terminate within 1 GB of memory"
	if env.Listed(id) {
		env.Notes = append(env.Notes, "KNOWN-FINDING: property=C13 "+msg)
		return
	}
	env.Violate(msg + ": " + how)
}
