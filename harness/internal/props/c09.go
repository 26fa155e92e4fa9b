package props

import (
	"github.com/go-ini/ini"

	"verif/harness/internal/core"
)

var histMust = []string{"op-NewSection", "op-NewSections", "op-Section", "op-SectionWithIndex", "op-NewKey", "op-NewBooleanKey", "op-Key", "op-NewRawSection",
	"op-GetSection", "op-HasSection", "op-SectionsByName", "op-SectionStrings", "op-Sections", "op-ChildSections", "op-GetKey", "op-HasKey", "op-HasValue", "op-Keys",
	"op-KeysHash", "op-ParentKeys", "op-DeleteSection", "op-DeleteSectionWithIndex", "op-DeleteKey", "op-SetValue", "stale-object", "wide"}

const histRule = "a case is one history of creating, looking up, changing and deleting calls on a file and on held (also stale) section and key objects, each result, the identity of each returned object and the whole state compared with the ordered-map model; distinct by the hash of the observed states; non-trivial when something was deleted or re-created"

func init() {
	register(&core.Prop{ID: "C09", Level: "exploration", Quick: 400000, Thorough: 4000000, Rule: histRule, Must: histMust,
		Run: func(c *core.Case) {
			r := c.R
			o := ini.LoadOptions{}
			if r.P(0.2) {
				o.Insensitive = true
			}
			runHistory(c, o, nil)
		}})
	register(&core.Prop{ID: "C10", Level: "exploration", Quick: 400000, Thorough: 4000000, Rule: histRule, Must: append([]string{"unique-mode", "multi-instances"}, histMust...),
		Run: func(c *core.Case) {
			r := c.R
			o := ini.LoadOptions{AllowNonUniqueSections: true, AllowShadows: r.P(0.2), InsensitiveSections: r.P(0.2)}
			if r.P(0.1) {
				o.AllowNonUniqueSections = false
				c.Count("unique-mode")
			}
			runHistory(c, o, func(t *twin) {
				t.secNames = []string{"a", "a", "b", "a.b", "A", "DEFAULT", ""}
				t.keyNames = []string{"k", "x", "y"}
				t.wDelete = 6
			})
		}})
}

// runHistory loads a small document and runs random operations on it.
func runHistory(c *core.Case, o ini.LoadOptions, tune func(*twin)) *twin {
	r := c.R
	text := ""
	if r.P(0.6) {
		g := smallGen(r, &o)
		g.plain = true
		g.secs = []string{"a", "A", "b", "a.b", "a.b.c", "c", "default"}
		g.keys = []string{"k", "K", "x", "y"}
		text = g.text(r.N(9))
	}
	t := newTwin(c, o, text)
	if t == nil {
		c.Trivial = true
		return nil
	}
	if r.P(0.3) {
		t.f.BlockMode = false
	}
	if r.P(0.15) {
		t.odd = 0.1
	}
	if tune != nil {
		tune(t)
	}
	every := r.Range(1, 4)
	if r.P(0.06) {
		t.widen()
		every = r.Range(3, 12)
	}
	deleted := false
	for i, n := 0, r.Range(3, 40); i < n; i++ {
		t.step()
		if i%every == 0 {
			t.sync()
		}
	}
	t.sync()
	t.checkStale()
	for _, s := range t.secs {
		deleted = deleted || s.Dead
	}
	for _, k := range t.keys {
		deleted = deleted || k.Dead
	}
	if len(t.m.Secs) > 1 {
		for _, s := range t.m.Secs {
			if len(t.m.ByName(s.Name)) > 1 {
				c.Count("multi-instances")
				break
			}
		}
	}
	c.Observe(SnapModel(t.m))
	c.Trivial = !deleted
	return t
}
