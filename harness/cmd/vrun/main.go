// Command vrun runs the checks: as parent it spawns workers and judges them,
// as worker it executes monitored cases.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"syscall"
	"time"

	"verif/harness/internal/core"
	"verif/harness/internal/props"
)

func main() {
	var (
		worker   = flag.Bool("worker", false, "run as worker")
		prop     = flag.String("prop", "", "property id")
		seed     = flag.Uint64("seed", 1, "seed")
		tier     = flag.String("tier", "quick", "quick or thorough")
		from     = flag.Int("from", 0, "first case")
		step     = flag.Int("step", 1, "case step")
		to       = flag.Int("to", 0, "end of cases")
		dir      = flag.String("dir", "", "scratch directory")
		progress = flag.String("progress", "", "progress file")
		result   = flag.String("result", "", "result file")
		cpu      = flag.Uint64("cpu", 0, "CPU seconds limit")
		bin      = flag.String("bin", os.Args[0], "plain binary")
		raceBin  = flag.String("racebin", "", "race binary")
		verif    = flag.String("verif", "/verif", "verif directory")
		cases    = flag.Int("cases", 0, "override the number of cases")
		workers  = flag.Int("workers", 8, "worker processes")
		replay   = flag.String("replay", "", "replay file")
		demo     = flag.String("demo", "", "run the demonstration of a finding with bounded resources")
	)
	flag.Parse()
	// Where the library lets the local zone in, it must show.
	time.Local = time.FixedZone("NPT", 5*3600+45*60)
	if *demo != "" {
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 1 << 30, Max: 1 << 30})
		_ = syscall.Setrlimit(syscall.RLIMIT_CPU, &syscall.Rlimit{Cur: 30, Max: 35})
		if err := props.Demos[*demo](); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		return
	}
	p := core.Lookup(*prop)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	thorough := *tier == "thorough"
	switch {
	case *replay != "":
		var r core.Replay
		b, err := os.ReadFile(*replay)
		if err == nil {
			err = json.Unmarshal(b, &r)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		c := core.NewCase(p, r.Seed, r.Tier == "thorough", r.Case, *dir)
		v := core.Run(c, p.Run)
		if v == nil && r.Step > 0 {
			fmt.Println("held when run alone; now after the cases that came before it in its worker")
			for i := r.From; i <= r.Case; i += r.Step {
				c = core.NewCase(p, r.Seed, r.Tier == "thorough", i, *dir)
				v = core.Run(c, p.Run)
			}
		}
		for _, l := range c.Log() {
			fmt.Println(" ", l)
		}
		if v != nil {
			fmt.Println(v.Msg)
			fmt.Println(v.Stack)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, *replay)
			os.Exit(1)
		}
		fmt.Println("held")
	case *worker:
		if *cpu > 0 {
			lim := syscall.Rlimit{Cur: *cpu, Max: *cpu + 5}
			_ = syscall.Setrlimit(syscall.RLIMIT_CPU, &lim)
		}
		os.Exit(core.WorkerMain(p, *seed, thorough, *from, *step, *to, *dir, *progress, *result, 2))
	default:
		os.Exit(core.ParentMain(p, core.ParentOpts{Bin: *bin, RaceBin: *raceBin, Seed: *seed, Tier: *tier,
			Verif: *verif, Work: *dir, Cases: *cases, Workers: *workers}))
	}
}
