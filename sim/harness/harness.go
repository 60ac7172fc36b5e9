// Package harness runs seeded episodes of simulated executions, counts what they covered, confirms, minimises and
// records the violations, and replays them.
package harness

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Verdict is the result of one simulated execution of a scenario.
type Verdict struct {
	Violation  string         // what happened that should not; empty if the property held
	Class      string         // short stable classification of the violation, used while minimising
	Invalid    bool           // the scenario says nothing about the property
	Infra      error          // the simulator itself failed
	NonTrivial bool           // the scenario exercised what the property is about
	Key        uint64         // identifies what was reached, to count distinct ones
	Faults     map[string]int // faults that were really injected, by kind
	SimNs      int64          // simulated time
	Steps      int            // scheduler steps
	Digest     uint64         // of the complete history
	Trace      []string       // only filled when asked for
	Sample     string
	Notes      map[string]int // other counters
}

// Prop is a property that can be explored.
type Prop interface {
	ID() string
	// Episode generates the scenarios of one seed. Each one is given to run, which tells if it should go on.
	Episode(seed uint64, tier string, run func(sc any) bool) error
	// Eval executes one scenario. It is a pure function of the scenario and of the code under test.
	Eval(sc any, trace bool) *Verdict
	// Shrink proposes simpler scenarios.
	Shrink(sc any) []any
	// Decode reads a scenario back.
	Decode(data []byte) (any, error)
	// Info describes the technique for the evidence.
	Info() Info
}

// Info goes to the evidence file.
type Info struct {
	Level       string
	Rule        string
	Distinct    string
	Real        []string
	Stub        []string
	Assumptions []string
	Quick       Budget
	Thorough    Budget
}

// Budget limits the exploration.
type Budget struct {
	Episodes int
	Wall     time.Duration
}

// Replay is the file that reproduces a violation.
type Replay struct {
	Property  string          `json:"property"`
	Seed      uint64          `json:"seed"`
	Episode   int             `json:"episode"`
	Violation string          `json:"violation"`
	Class     string          `json:"class"`
	Digest    string          `json:"digest"`
	Scenario  json.RawMessage `json:"scenario"`
	Trace     []string        `json:"trace,omitempty"`
}

// Finding is an entry of the known findings file.
type Finding struct {
	Property string
	Status   string // "known"
	Match    string // text that the violation has to contain
	What     string
}

// Options of a check.
type Options struct {
	Root     string // /verif
	Tier     string
	Seed     uint64
	Workers  int
	Episodes int // overrides the budget when positive
	Wall     time.Duration
	First    int
	Extra    map[string]any // added to the coverage
	Started  time.Time
	Recheck  bool // execute everything twice
	Keep     bool // don't stop at the first violation, list them
}

// Mix64 derives seeds.
func Mix64(vs ...uint64) uint64 {
	h := uint64(0x9e3779b97f4a7c15)
	for _, v := range vs {
		h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
		h ^= h >> 30
		h *= 0xbf58476d1ce4e5b9
		h ^= h >> 27
		h *= 0x94d049bb133111eb
		h ^= h >> 31
	}
	return h
}

// HashStr hashes a text.
func HashStr(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// SeedFromEnv reads VERIF_SEED.
func SeedFromEnv() uint64 {
	n, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 63)
	if err != nil {
		return 1
	}
	return n
}

type found struct {
	episode int
	order   int
	seed    uint64
	sc      any
	v       *Verdict
}

// Check explores a property and returns the exit status.
func Check(p Prop, o Options) int {
	info := p.Info()
	b := info.Quick
	if o.Tier == "thorough" {
		b = info.Thorough
	}
	if o.Episodes > 0 {
		b.Episodes = o.Episodes
	}
	if o.Wall > 0 {
		b.Wall = o.Wall
	}
	if o.Workers <= 0 {
		o.Workers = runtime.NumCPU()
	}
	if o.Started.IsZero() {
		o.Started = time.Now()
	}
	known := loadFindings(o.Root, p.ID())

	var mu sync.Mutex
	var (
		runs, nontrivial, steps, invalid, unrepro, rechecks int
		simNs                                               int64
		keys                                                = map[uint64]bool{}
		faults                                              = map[string]int{}
		notes                                               = map[string]int{}
		samples                                             []any
		founds                                              []found
		infra                                               []string
		knownHits                                           = map[int]int{}
		episodesDone                                        int
		newAt                                               int
	)
	start := time.Now()
	next := o.First
	stop := false
	var wg sync.WaitGroup
	for w := 0; w < o.Workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if stop || next-o.First >= b.Episodes || time.Since(start) > b.Wall {
					mu.Unlock()
					return
				}
				ep := next
				next++
				mu.Unlock()
				seed := Mix64(o.Seed, HashStr(p.ID()), uint64(ep))
				order := 0
				err := p.Episode(seed, o.Tier, func(sc any) bool {
					v := p.Eval(sc, false)
					order++
					if v.Infra == nil && v.Violation != "" {
						again := p.Eval(sc, false)
						if again.Infra != nil || again.Violation != v.Violation || again.Digest != v.Digest {
							mu.Lock()
							unrepro++
							fmt.Fprintf(os.Stderr, "not reproduced, ignored: %s\n  (digest %x %x; second: %s)\n", v.Violation, v.Digest, again.Digest, again.Violation)
							differ(p, sc)
							mu.Unlock()
							v = &Verdict{Steps: v.Steps}
						}
					} else if v.Infra == nil && !v.Invalid && (o.Recheck || order == 1 && ep%16 == 0) {
						again := p.Eval(sc, false)
						mu.Lock()
						rechecks++
						if again.Digest != v.Digest {
							notes["repeat_differs"]++
							fmt.Fprintf(os.Stderr, "two executions of one scenario differ (episode %d, steps %d %d, time %d %d, key %x %x)\n", ep, v.Steps, again.Steps, v.SimNs, again.SimNs, v.Key, again.Key)
							for i := range v.Trace {
								if i < len(again.Trace) && v.Trace[i] != again.Trace[i] {
									fmt.Fprintf(os.Stderr, "  %s\n  %s\n", v.Trace[i], again.Trace[i])
									break
								}
							}
							differ(p, sc)
						}
						mu.Unlock()
					}
					mu.Lock()
					defer mu.Unlock()
					if v.Infra != nil {
						infra = append(infra, v.Infra.Error())
						if len(infra) >= 20 {
							stop = true
						}
						return !stop
					}
					runs++
					steps += v.Steps
					simNs += v.SimNs
					if v.Invalid {
						invalid++
					}
					for k, n := range v.Faults {
						faults[k] += n
					}
					for k, n := range v.Notes {
						notes[k] += n
					}
					if v.NonTrivial {
						nontrivial++
						if !keys[v.Key] {
							keys[v.Key] = true
							newAt = runs
							if len(samples) < 6 && v.Sample != "" {
								samples = append(samples, v.Sample)
							}
						}
					}
					if v.Violation != "" {
						for i, k := range known {
							if k.Status == "known" && strings.Contains(v.Violation, k.Match) {
								knownHits[i]++
								return !stop
							}
						}
						founds = append(founds, found{ep, order, seed, sc, v})
						if !o.Keep {
							stop = true
						}
						return o.Keep
					}
					return !stop
				})
				mu.Lock()
				episodesDone++
				if err != nil {
					infra = append(infra, err.Error())
					if len(infra) >= 20 {
						stop = true
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	search := time.Since(start).Seconds()

	sort.Slice(founds, func(i, j int) bool {
		if founds[i].episode != founds[j].episode {
			return founds[i].episode < founds[j].episode
		}
		return founds[i].order < founds[j].order
	})

	cov := map[string]any{
		"evaluations":            runs,
		"distinct_nontrivial":    len(keys),
		"rule":                   info.Rule,
		"distinct_measure":       info.Distinct,
		"samples":                samples,
		"seeds":                  episodesDone,
		"nontrivial_runs":        nontrivial,
		"scenarios_not_relevant": invalid,
		"runs_per_hour":          int(float64(runs) / max(search, 0.001) * 3600),
		"seeds_per_hour":         int(float64(episodesDone) / max(search, 0.001) * 3600),
		"scheduler_steps":        steps,
		"simulated_seconds":      float64(simNs) / 1e9,
		"faults_injected":        faults,
		"runs_repeated_identically_to_check_determinism": rechecks - notes["repeat_differs"],
		"last_new_distinct_at_run":                       newAt,
		"unreproduced_discarded":                         unrepro,
		"components_real":                                info.Real,
		"components_stub":                                info.Stub,
		"counters":                                       notes,
		"search_wall_s":                                  search,
		"workers":                                        o.Workers,
	}
	for k, v := range o.Extra {
		cov[k] = v
	}
	if len(samples) == 0 {
		cov["samples"] = []any{"none"}
	}
	status := 0
	var lines []string
	if len(founds) > 0 {
		f := founds[0]
		if o.Keep {
			for i, f := range founds {
				if i < 40 {
					fmt.Printf("ep=%d order=%d %s\n", f.episode, f.order, f.v.Violation)
				}
			}
		}
		sc, v := minimise(p, f.sc, f.v, minimiseBudget(o.Tier))
		path, err := writeReplay(p, o, f, sc, v)
		if err != nil {
			fmt.Fprintln(os.Stderr, "can't write replay file:", err)
		}
		lines = append(lines, "seed="+strconv.FormatUint(f.seed, 10)+" episode="+strconv.Itoa(f.episode)+": "+v.Violation,
			fmt.Sprintf("VIOLATION property=%s replay=%s", p.ID(), path))
		status = 1
	}
	cov["violation_lines"] = lines
	if len(lines) == 0 {
		delete(cov, "violation_lines")
	}
	for i, k := range known {
		if knownHits[i] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID(), k.What)
		}
	}
	ev := map[string]any{
		"property": p.ID(), "tier": o.Tier, "seed": o.Seed, "level": info.Level, "coverage": cov,
		"assumptions": info.Assumptions, "wall_s": time.Since(o.Started).Seconds(), "violations": len(founds),
	}
	if err := writeJSON(filepath.Join(o.Root, "evidence", p.ID()+".json"), ev); err != nil {
		fmt.Fprintln(os.Stderr, "can't write evidence:", err)
		return 3
	}
	fmt.Printf("%s %s seed=%d: %d runs of %d seeds, %d distinct, %.1fs search, %.1fs in all\n", p.ID(), o.Tier, o.Seed, runs, episodesDone, len(keys), search, time.Since(o.Started).Seconds())
	for _, l := range lines {
		fmt.Println(l)
	}
	if status == 0 && len(infra) > 0 {
		sort.Strings(infra)
		fmt.Fprintf(os.Stderr, "simulator errors: %d, first: %s\n", len(infra), infra[0])
		if len(infra) >= 20 || runs == 0 {
			return 3
		}
	}
	if status == 0 && nontrivial == 0 {
		fmt.Fprintln(os.Stderr, "nothing was explored")
		return 3
	}
	return status
}

// differ shows where two executions of a scenario differ.
func differ(p Prop, sc any) {
	if os.Getenv("VSIM_TRACE") == "" {
		return
	}
	for n := 0; n < 5; n++ {
		a, b := p.Eval(sc, true), p.Eval(sc, true)
		if a.Digest == b.Digest {
			continue
		}
		fmt.Fprintf(os.Stderr, "  %d and %d lines\n", len(a.Trace), len(b.Trace))
		for i := range a.Trace {
			if i >= len(b.Trace) || a.Trace[i] != b.Trace[i] {
				fmt.Fprintf(os.Stderr, "  differ at %d:\n   %s\n   %s\n", i, a.Trace[i], b.Trace[min(i, len(b.Trace)-1)])
				break
			}
		}
		return
	}
	fmt.Fprintf(os.Stderr, "  not again\n")
}

func minimiseBudget(tier string) time.Duration {
	if tier == "thorough" {
		return 120 * time.Second
	}
	return 40 * time.Second
}

func minimise(p Prop, sc any, v *Verdict, budget time.Duration) (any, *Verdict) {
	end := time.Now().Add(budget)
	for time.Now().Before(end) {
		better := false
		for _, c := range p.Shrink(sc) {
			if time.Now().After(end) {
				break
			}
			cv := p.Eval(c, false)
			if cv.Infra == nil && !cv.Invalid && cv.Violation != "" && cv.Class == v.Class {
				sc, v, better = c, cv, true
				break
			}
		}
		if !better {
			break
		}
	}
	return sc, v
}

func writeReplay(p Prop, o Options, f found, sc any, v *Verdict) (string, error) {
	full := p.Eval(sc, true)
	data, err := json.Marshal(sc)
	if err != nil {
		return "", err
	}
	r := Replay{Property: p.ID(), Seed: f.seed, Episode: f.episode, Violation: v.Violation, Class: v.Class, Digest: fmt.Sprintf("%016x", v.Digest), Scenario: data, Trace: full.Trace}
	path := filepath.Join(o.Root, "replays", fmt.Sprintf("%s-%d-%d.json", p.ID(), o.Seed, f.episode))
	return path, writeJSON(path, r)
}

// RunReplay executes a replay file; it returns 1 if the violation was reproduced exactly.
func RunReplay(p Prop, r *Replay) int {
	sc, err := p.Decode(r.Scenario)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	v := p.Eval(sc, true)
	if v.Infra != nil {
		fmt.Fprintln(os.Stderr, v.Infra)
		return 3
	}
	for _, l := range v.Trace {
		fmt.Println(l)
	}
	same := v.Violation == r.Violation && fmt.Sprintf("%016x", v.Digest) == r.Digest
	fmt.Printf("property=%s seed=%d digest=%016x (recorded %s) exact=%v\n", r.Property, r.Seed, v.Digest, r.Digest, same)
	if v.Violation != "" {
		fmt.Println("reproduced:", v.Violation)
		return 1
	}
	fmt.Println("the property holds in this execution")
	return 0
}

// LoadReplay reads a replay file.
func LoadReplay(path string) (*Replay, error) {
	data, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	r := &Replay{}
	return r, json.Unmarshal(data, r)
}

var knownRE = regexp.MustCompile(`^known: property=(\S+) match="([^"]+)" (.*)$`)

// loadFindings reads the "known:" lines of the findings file; "fixed:" lines suppress nothing.
func loadFindings(root, id string) []Finding {
	data, err := os.ReadFile(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []Finding
	for _, line := range strings.Split(string(data), "\n") {
		if m := knownRE.FindStringSubmatch(line); m != nil && m[1] == id {
			out = append(out, Finding{Property: id, Status: "known", Match: m[2], What: m[3]})
		}
	}
	return out
}

func writeJSON(path string, v any) error {
	data, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	tmp := path + ".tmp"
	if err := os.WriteFile(tmp, append(data, '\n'), 0o644); err != nil {
		return err
	}
	return os.Rename(tmp, path)
}
