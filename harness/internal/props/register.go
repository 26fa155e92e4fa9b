package props

import (
	"github.com/go-ini/ini"

	"verif/harness/internal/core"
	"verif/harness/internal/model"
)

var defaultNames = []string{"GLOBAL", "s", "Глобал", "main.core", "p", "server", "x y"}

// register registers a property, some of whose cases run with another name for
// the default section.
func register(p *core.Prop) {
	run := p.Run
	p.Must = append(p.Must, "other-default")
	p.Run = func(c *core.Case) {
		if c.Idx%29 == 17 {
			c.Count("other-default")
			n := defaultNames[c.Idx/29%len(defaultNames)]
			c.Logf("ini.DefaultSection = %q", n)
			old := ini.DefaultSection
			model.Default, ini.DefaultSection = n, n
			defer func() { model.Default, ini.DefaultSection = old, old }()
		}
		run(c)
	}
	core.Register(p)
}
