// Command vsim decides the properties by seeded simulation.
//
//	vsim check ID [quick|thorough]
//	vsim replay FILE
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"verif/sim/clientsim"
	"verif/sim/harness"
	"verif/sim/internal/core"
	"verif/sim/internal/toolsim"
)

func main() { os.Exit(run()) }

func run() int {
	started := time.Now()
	fl := flag.NewFlagSet("vsim", flag.ExitOnError)
	episodes := fl.Int("episodes", 0, "number of seeds, instead of that of the tier")
	wall := fl.Duration("wall", 0, "time limit of the search, instead of that of the tier")
	from := fl.Int("first", 0, "first seed")
	workers := fl.Int("workers", 0, "parallel executions")
	keep := fl.Bool("keep", false, "list all violations")
	recheck := fl.Bool("recheck", false, "execute everything twice")
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: vsim check ID [quick|thorough] | vsim replay FILE")
		return 3
	}
	root, err := filepath.Abs(filepath.Join(core.Home, ".."))
	if err != nil {
		return 3
	}
	if r := os.Getenv("VSIM_REPO"); r != "" { // for development only
		core.Repo = r
	}
	scratch, err := os.MkdirTemp("", "vsim")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(scratch)
	switch os.Args[1] {
	case "check":
		id := os.Args[2]
		tier := "quick"
		args := os.Args[3:]
		if len(args) > 0 && !strings.HasPrefix(args[0], "-") {
			tier = args[0]
			args = args[1:]
		}
		if t := os.Getenv("VERIF_TIER"); t == "thorough" {
			tier = t
		}
		fl.Parse(args)
		o := harness.Options{Root: root, Tier: tier, Seed: harness.SeedFromEnv(), Workers: *workers, Episodes: *episodes, Wall: *wall, First: *from, Keep: *keep, Recheck: *recheck, Started: started}
		p, err := makeProp(id, scratch, harness.SeedFromEnv())
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		o.Extra = map[string]any{"build_s": time.Since(started).Seconds()}
		if x, ok := p.(interface {
			Extra() map[string]any
			Close()
		}); ok {
			defer x.Close()
			for k, v := range x.Extra() {
				o.Extra[k] = v
			}
		}
		return harness.Check(p, o)
	case "replay":
		r, err := harness.LoadReplay(os.Args[2])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		var sc struct {
			MSeed uint64 `json:"mseed"`
		}
		json.Unmarshal(r.Scenario, &sc)
		p, err := makeProp(r.Property, scratch, sc.MSeed)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		return harness.RunReplay(p, r)
	}
	return 3
}

func makeProp(id, scratch string, seed uint64) (harness.Prop, error) {
	switch id {
	case "C01", "C02", "C03", "C04", "C05", "C06", "C07":
		bin, err := core.BuildTool(scratch)
		if err != nil {
			return nil, err
		}
		return toolsim.NewSim(id, bin), nil
	case "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21":
		s, err := clientsim.NewSim(id, scratch, seed)
		if err != nil {
			return nil, err
		}
		return s, nil
	}
	return nil, fmt.Errorf("unknown property '%s'", id)
}
