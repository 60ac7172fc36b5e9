package toolsim

import (
	"bytes"
	"encoding/json"
	"fmt"
	"path"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/sim/harness"
	"verif/sim/internal/core"
	"verif/sim/internal/mm"
	"verif/sim/internal/vfs"
	"verif/sim/internal/world"
)

// Scenario is everything that determines a simulated history of the tool.
type Scenario struct {
	Prop   string            `json:"prop"`
	Note   string            `json:"note,omitempty"`
	Cmd    string            `json:"cmd"`
	Layout Layout            `json:"layout"`
	Files  map[string]string `json:"files"`
	// Prior is the previous content of the output directory.
	Prior map[string]string `json:"prior,omitempty"`
	// Foreign are other files of the machine, by absolute path.
	Foreign map[string]string `json:"foreign,omitempty"`
	Faults  []world.Fault     `json:"faults,omitempty"`
	// Runs are the interrupted runs that precede the last one (C05).
	Runs []Interrupted `json:"runs,omitempty"`
	// Alt is the other machine (C04).
	Alt *Layout `json:"alt,omitempty"`
	// Procs are simultaneous runs (C07).
	Procs []ProcPlan `json:"procs,omitempty"`
	// Picks decides who runs at each step; -1 ends a burst. When it is exhausted processes run in turn.
	Picks []Burst `json:"picks,omitempty"`
	// Whole is the undamaged text (C03).
	Damage []string `json:"damage,omitempty"`
}

// Interrupted is a run that ends badly.
type Interrupted struct {
	Faults []world.Fault     `json:"faults"`
	Power  uint64            `json:"power,omitempty"` // seed of a power loss after it
	Files  map[string]string `json:"files,omitempty"` // another model, if given
}

// ProcPlan is one of several simultaneous runs.
type ProcPlan struct {
	Cmd    string            `json:"cmd"`
	Layout Layout            `json:"layout"`
	Files  map[string]string `json:"files"`
	Crash  int               `json:"crash,omitempty"`
}

// Burst is a number of steps of one process.
type Burst struct {
	P int `json:"p"`
	N int `json:"n"`
}

// Result is what is remembered of a run without faults.
type Result struct {
	Exit  int
	Said  string
	Panic string
	Out   map[string][]byte
	Ops   []world.Op
	Stuck bool
}

// Sim explores properties of the tool.
type Sim struct {
	id    string
	Bin   string
	mu    sync.Mutex
	cache map[string]*cached
	order []string
}

type cached struct {
	once sync.Once
	res  *Result
	err  error
}

// NewSim creates a simulation.
func NewSim(id, bin string) *Sim { return &Sim{id: id, Bin: bin, cache: map[string]*cached{}} }

// ID of the property.
func (s *Sim) ID() string { return s.id }

// Decode a scenario.
func (s *Sim) Decode(data []byte) (any, error) {
	sc := &Scenario{}
	return sc, json.Unmarshal(data, sc)
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func hashMap(h uint64, m map[string]string) uint64 {
	for _, k := range sortedKeys(m) {
		h = core.MixStr(core.MixStr(h, k), m[k])
	}
	return h
}

func (sc *Scenario) machine(files map[string]string) *vfs.FS {
	fs := Machine(sc.Layout)
	PutModel(fs, sc.Layout, files)
	for _, k := range sortedKeys(sc.Prior) {
		fs.WriteFile(path.Join(sc.Layout.OutDir(), k), []byte(sc.Prior[k]), 0o644)
	}
	for _, k := range sortedKeys(sc.Foreign) {
		if strings.HasSuffix(k, "/") {
			fs.MkdirAll(k)
			continue
		}
		fs.WriteFile(k, []byte(sc.Foreign[k]), 0o644)
	}
	return fs
}

// alone runs a command without faults, with the given previous output, and remembers the result.
func (s *Sim) alone(sc *Scenario) (*Result, error) {
	lb, _ := json.Marshal(sc.Layout)
	key := fmt.Sprintf("%s|%s|%x|%x|%x", sc.Cmd, lb, hashMap(1, sc.Files), hashMap(2, sc.Prior), hashMap(3, sc.Foreign))
	s.mu.Lock()
	c := s.cache[key]
	if c == nil {
		c = &cached{}
		s.cache[key] = c
		s.order = append(s.order, key)
		if len(s.order) > 96 {
			delete(s.cache, s.order[0])
			s.order = s.order[1:]
		}
	}
	s.mu.Unlock()
	c.once.Do(func() {
		run, err := Exec(s.Bin, sc.machine(sc.Files), sc.Layout, sc.Cmd, nil, 0)
		if err != nil {
			c.err = err
			return
		}
		c.res = summary(run)
	})
	return c.res, c.err
}

func summary(run *Run) *Result {
	r := &Result{Exit: run.P.Exit, Panic: run.P.PanicMsg, Out: run.Out(), Ops: run.P.Ops, Stuck: run.P.Stuck || run.P.Died}
	if run.Said() {
		r.Said = strings.Join(run.Errors(), "; ") + " " + strings.TrimSpace(string(run.P.Stderr))
		if len(r.Said) > 400 {
			r.Said = r.Said[:400]
		}
	}
	return r
}

func opKey(ops []world.Op) uint64 {
	h := uint64(7)
	for _, o := range ops {
		h = core.MixStr(h, o.Op+o.Path+o.Fault+fmt.Sprint(o.Proc))
	}
	return h
}

func faultCounts(ps ...*world.Proc) map[string]int {
	m := map[string]int{}
	for _, p := range ps {
		for _, f := range p.Fired {
			m[strings.ReplaceAll(f, "::", ":")]++
		}
	}
	return m
}

func diffOut(want, got map[string][]byte) string {
	var ds []string
	for _, k := range sortedKeys(want) {
		g, ok := got[k]
		if !ok {
			ds = append(ds, "'"+k+"' is missing")
		} else if !bytes.Equal(g, want[k]) {
			ds = append(ds, fmt.Sprintf("'%s' differs (%d bytes instead of %d)", k, len(g), len(want[k])))
		}
	}
	for _, k := range sortedKeys(got) {
		if _, ok := want[k]; !ok {
			ds = append(ds, "'"+k+"' is there but doesn't belong")
		}
	}
	if len(ds) > 3 {
		ds = append(ds[:3], fmt.Sprintf("and %d more", len(ds)-3))
	}
	return strings.Join(ds, ", ")
}

// missingOut is like diffOut but accepts additional files.
func missingOut(want, got map[string][]byte) string {
	g := map[string][]byte{}
	for k, v := range got {
		if _, ok := want[k]; ok {
			g[k] = v
		}
	}
	return diffOut(want, g)
}

func first(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return s
}

func traceOf(ops []world.Op) []string {
	out := make([]string, 0, len(ops))
	for _, o := range ops {
		out = append(out, o.String())
	}
	if len(out) > 400 {
		head := out[:100]
		tail := out[len(out)-250:]
		out = append(append(append([]string{}, head...), fmt.Sprintf("... %d operations ...", len(ops)-350)), tail...)
	}
	return out
}

func (s *Sim) verdict(sc *Scenario, run *Run, trace bool) *harness.Verdict {
	v := &harness.Verdict{Steps: len(run.W.Trace), SimNs: run.W.SimNs(), Digest: run.W.Digest(), Faults: faultCounts(run.W.Procs...), NonTrivial: true, Notes: map[string]int{"cmd_" + sc.Cmd: 1}}
	v.Key = core.Mix(opKey(run.W.Trace), uint64(run.P.Exit))
	v.Sample = fmt.Sprintf("%s %s faults=%v -> exit=%d, %d operations", sc.Prop, strings.Join(sc.Layout.Args(sc.Cmd), " "), sc.Faults, run.P.Exit, len(run.P.Ops))
	if trace {
		v.Trace = traceOf(run.W.Trace)
	}
	return v
}

func (v verdictSetter) fail(class, format string, args ...any) *harness.Verdict {
	v.Violation = v.prefix + fmt.Sprintf(format, args...)
	v.Class = class
	return v.Verdict
}

type verdictSetter struct {
	*harness.Verdict
	prefix string
}

func describe(sc *Scenario) string {
	p := "generate " + sc.Cmd
	if sc.Cmd == "check" {
		p = "check"
	}
	if len(sc.Faults) > 0 {
		var fs []string
		for _, f := range sc.Faults {
			fs = append(fs, f.String())
		}
		p += " with " + strings.Join(fs, " and ")
	}
	if sc.Layout.NoFmt {
		p += " where the formatter isn't installed"
	}
	if sc.Layout.Mute != "" {
		p += " where messages can't be written (" + sc.Layout.Mute + ")"
	}
	return p + ": "
}

// Eval runs a scenario.
func (s *Sim) Eval(x any, trace bool) *harness.Verdict {
	sc := x.(*Scenario)
	var v *harness.Verdict
	var err error
	switch sc.Prop {
	case "C01":
		v, err = s.evalC01(sc, trace)
	case "C02":
		v, err = s.evalC02(sc, trace)
	case "C03":
		v, err = s.evalC03(sc, trace)
	case "C04":
		v, err = s.evalC04(sc, trace)
	case "C05":
		v, err = s.evalC05(sc, trace)
	case "C06":
		v, err = s.evalC06(sc, trace)
	case "C07":
		v, err = s.evalC07(sc, trace)
	default:
		err = fmt.Errorf("unknown property %s", sc.Prop)
	}
	if err != nil {
		return &harness.Verdict{Infra: err}
	}
	return v
}

func invalid(why string) *harness.Verdict {
	return &harness.Verdict{Invalid: true, Notes: map[string]int{"not_relevant: " + why: 1}}
}

func budgetOps(base *Result) int { return 4*len(base.Ops) + 5000 }

// ---------------------------------------------------------------- C01

// longLines tells if there are lines longer than what the tool has to support.
func longLines(files map[string]string) bool {
	for _, t := range files {
		for _, l := range strings.Split(t, "\n") {
			if len(l) > 60000 {
				return true
			}
		}
	}
	return false
}

func (s *Sim) evalC01(sc *Scenario, trace bool) (*harness.Verdict, error) {
	m, err := mm.ParseModel(sc.Files)
	if err != nil {
		return invalid("model is not well formed"), nil
	}
	clean := *sc
	clean.Prior, clean.Faults, clean.Foreign, clean.Layout.NoFmt, clean.Layout.Mute = nil, nil, nil, false, ""
	base, err := s.alone(&clean)
	if err != nil {
		return nil, err
	}
	if len(sc.Faults) == 0 && !sc.Layout.NoFmt && sc.Layout.Mute == "" {
		run, err := Exec(s.Bin, sc.machine(sc.Files), sc.Layout, sc.Cmd, nil, 0)
		if err != nil {
			return nil, err
		}
		v := s.verdict(sc, run, trace)
		vs := verdictSetter{v, describe(sc)}
		if run.P.Stuck {
			return vs.fail("stuck", "the command doesn't end"), nil
		}
		if run.P.Exit != 0 && run.Said() && longLines(sc.Files) {
			v.Notes["refused_long_lines"] = 1 // beyond what is supported, but never half generated
			return v, nil
		}
		if run.P.Exit != 0 {
			return vs.fail("refused", "exits with %d for a good model on a healthy machine: %s %s", run.P.Exit, strings.Join(run.Errors(), "; "), first(run.P.PanicMsg)), nil
		}
		if run.Said() {
			return vs.fail("said", "exits with 0 but reports: %s %s", strings.Join(run.Errors(), "; "), first(string(run.P.Stderr))), nil
		}
		out := run.Out()
		if sc.Prior == nil {
			if what := Incomplete(m, sc.Cmd, out); what != "" {
				return vs.fail("incomplete", "exits with 0 but %s", what), nil
			}
		} else if what := missingOut(base.Out, out); what != "" {
			return vs.fail("incomplete", "exits with 0 over older output but %s", what), nil
		}
		if sc.Cmd == "go" {
			api := clean
			api.Cmd = "openapi"
			ab, err := s.alone(&api)
			if err != nil {
				return nil, err
			}
			if what := EmbeddedDiffers(m, out, ab.Out); what != "" {
				return vs.fail("embedded", "exits with 0 but the %s", what), nil
			}
		}
		return v, nil
	}
	if base.Exit != 0 || base.Stuck {
		return invalid("refused without faults"), nil
	}
	run, err := Exec(s.Bin, sc.machine(sc.Files), sc.Layout, sc.Cmd, sc.Faults, budgetOps(base))
	if err != nil {
		return nil, err
	}
	v := s.verdict(sc, run, trace)
	if len(run.P.Fired) == 0 && !sc.Layout.NoFmt && !run.Quiet() {
		v.NonTrivial = false
	}
	if sc.Layout.NoFmt {
		v.Notes["formatter_not_installed"] = 1
	}
	if run.Quiet() {
		v.Notes["messages_lost"] = 1
	}
	vs := verdictSetter{v, describe(sc)}
	if run.P.Stuck || run.P.Died {
		return vs.fail("stuck", "the command doesn't end by itself (%d operations, %d without faults)", len(run.P.Ops), len(base.Ops)), nil
	}
	soft := !sc.Layout.NoFmt && !run.Quiet()
	for _, f := range run.P.Fired {
		if !strings.HasPrefix(f, "short:") && !strings.HasPrefix(f, "eintr:") {
			soft = false
		}
	}
	if run.P.Exit == 0 {
		if run.Said() {
			return vs.fail("said", "exits with 0 but reports: %s %s", strings.Join(run.Errors(), "; "), first(string(run.P.Stderr))), nil
		}
		if what := missingOut(base.Out, run.Out()); what != "" {
			return vs.fail("incomplete", "exits with 0 but the output isn't complete: %s", what), nil
		}
		return v, nil
	}
	if soft {
		return vs.fail("soft", "exits with %d although nothing failed for good: %s %s", run.P.Exit, strings.Join(run.Errors(), "; "), first(run.P.PanicMsg)), nil
	}
	if !run.Said() && !run.Quiet() {
		return vs.fail("silent", "exits with %d without reporting any error", run.P.Exit), nil
	}
	return v, nil
}

// ---------------------------------------------------------------- C02

func modelRead(run *Run, files map[string]string) string {
	got := map[string]int64{} // bytes read sequentially through the best descriptor
	cur := map[string]int64{}
	for _, o := range run.P.Ops {
		switch o.Op {
		case "open-r":
			if o.Errno == 0 {
				cur[o.Path] = 0
			}
		case "read":
			if o.Ret > 0 {
				cur[o.Path] += o.Ret
				got[o.Path] = max(got[o.Path], cur[o.Path])
			}
		}
	}
	for _, k := range sortedKeys(files) {
		p := run.Layout.ModelFile(k)
		if got[p] < int64(len(files[k])) {
			return fmt.Sprintf("only %d of the %d bytes of '%s' were read", got[p], len(files[k]), k)
		}
	}
	return ""
}

func outTouched(run *Run) string {
	for _, o := range run.P.Ops {
		if o.Mod && o.Errno == 0 && o.Area == "output" {
			return fmt.Sprintf("%s of '%s'", o.Op, o.Path)
		}
	}
	if d := diffOut(run.Before.Files(run.Layout.OutDir()), run.Out()); d != "" {
		return d
	}
	return ""
}

func (s *Sim) evalC02(sc *Scenario, trace bool) (*harness.Verdict, error) {
	clean := *sc
	clean.Faults, clean.Layout.Mute = nil, ""
	base, err := s.alone(&clean)
	if err != nil {
		return nil, err
	}
	run, err := Exec(s.Bin, sc.machine(sc.Files), sc.Layout, sc.Cmd, sc.Faults, budgetOps(base))
	if err != nil {
		return nil, err
	}
	v := s.verdict(sc, run, trace)
	if run.Quiet() {
		v.Notes["messages_lost"] = 1
	}
	vs := verdictSetter{v, describe(sc)}
	if len(sc.Faults) > 0 && len(run.P.Fired) == 0 {
		v.NonTrivial = false
	}
	if run.P.Stuck || run.P.Died {
		return vs.fail("stuck", "the command doesn't end by itself"), nil
	}
	if run.P.Exit == 0 {
		if run.Said() {
			return vs.fail("said", "exits with 0 but reports: %s", strings.Join(run.Errors(), "; ")), nil
		}
		if what := modelRead(run, sc.Files); what != "" {
			return vs.fail("unread", "exits with 0 although %s", what), nil
		}
		if sc.Note == "bad" {
			return vs.fail("accepted", "exits with 0 although the model has an error (%s)", strings.Join(sc.Damage, " ")), nil
		}
		if sc.Cmd != "check" && base.Exit == 0 {
			if what := missingOut(base.Out, run.Out()); what != "" {
				return vs.fail("partial", "exits with 0 but the output isn't that of the complete model: %s", what), nil
			}
		}
		return v, nil
	}
	if !run.Said() && !run.Quiet() {
		return vs.fail("silent", "exits with %d without reporting any error", run.P.Exit), nil
	}
	for _, f := range run.P.Fired {
		if !strings.Contains(f, ":model") && sc.Note != "bad" {
			return v, nil
		}
	}
	soft := len(run.P.Fired) > 0 && !run.Quiet()
	for _, f := range run.P.Fired {
		if !strings.HasPrefix(f, "short:") && !strings.HasPrefix(f, "eintr:") {
			soft = false
		}
	}
	if soft && base.Exit == 0 {
		return vs.fail("soft", "exits with %d although everything could be read: %s", run.P.Exit, strings.Join(run.Errors(), "; ")), nil
	}
	if what := outTouched(run); what != "" {
		return vs.fail("touched", "the model could not be used, exit status %d, but the output was changed: %s", run.P.Exit, what), nil
	}
	return v, nil
}

// ---------------------------------------------------------------- C04

func (s *Sim) evalC04(sc *Scenario, trace bool) (*harness.Verdict, error) {
	ref := *sc
	ref.Prior, ref.Alt, ref.Faults, ref.Foreign = nil, nil, nil, nil
	base, err := s.alone(&ref)
	if err != nil {
		return nil, err
	}
	if base.Stuck {
		return invalid("stuck without faults"), nil
	}
	alt := *sc
	alt.Layout = *sc.Alt
	run, err := Exec(s.Bin, alt.machine(sc.Files), alt.Layout, sc.Cmd, sc.Faults, 8*budgetOps(base))
	if err != nil {
		return nil, err
	}
	v := s.verdict(&alt, run, trace)
	v.Key = core.Mix(opKey(run.W.Trace), alt.Layout.Seed, alt.Layout.ListSeed)
	vs := verdictSetter{v, describe(sc)}
	if run.P.Exit != base.Exit {
		return vs.fail("exit", "exits with %d instead of %d on another machine (%s): %s", run.P.Exit, base.Exit, sc.Note, strings.Join(run.Errors(), "; ")), nil
	}
	if base.Exit == 0 && sc.Cmd != "check" {
		what := ""
		if len(sc.Prior) == 0 {
			what = diffOut(base.Out, run.Out())
		} else {
			what = missingOut(base.Out, run.Out())
		}
		if what != "" {
			return vs.fail("output", "output depends on something else than model and options (%s): %s", sc.Note, what), nil
		}
	}
	return v, nil
}

// ---------------------------------------------------------------- C05

func (s *Sim) evalC05(sc *Scenario, trace bool) (*harness.Verdict, error) {
	ref := *sc
	ref.Runs, ref.Prior, ref.Foreign = nil, nil, nil
	base, err := s.alone(&ref)
	if err != nil {
		return nil, err
	}
	if base.Exit != 0 || base.Stuck {
		return invalid("refused without faults"), nil
	}
	fs := sc.machine(sc.Files)
	v := &harness.Verdict{Faults: map[string]int{}, NonTrivial: true, Notes: map[string]int{"cmd_" + sc.Cmd: 1}}
	dig := uint64(11)
	interrupted := 0
	l := sc.Layout
	for i, r := range sc.Runs {
		if r.Files != nil {
			fs = replaceModel(fs, l, r.Files)
		}
		before := fs.Clone()
		l.Seed = core.Mix(sc.Layout.Seed, uint64(i))
		run, err := Exec(s.Bin, fs, l, sc.Cmd, r.Faults, budgetOps(base)*4)
		if err != nil {
			return nil, err
		}
		for k, n := range faultCounts(run.P) {
			v.Faults[k] += n
		}
		v.Steps += len(run.W.Trace)
		v.SimNs += run.W.SimNs()
		v.Key = core.Mix(v.Key, opKey(run.W.Trace))
		dig = core.Mix(dig, run.W.Digest())
		if trace {
			v.Trace = append(v.Trace, fmt.Sprintf("--- run %d: exit=%d killed=%v", i+1, run.P.Exit, run.P.Crashed))
			v.Trace = append(v.Trace, traceOf(run.W.Trace)...)
		}
		if run.P.Crashed || run.P.Exit != 0 {
			interrupted++
		}
		if r.Power != 0 {
			fs = world.PowerLoss(before, fs, core.NewRng(r.Power))
			v.Faults["power-loss"]++
		}
		if r.Files != nil {
			fs = replaceModel(fs, l, sc.Files)
		}
	}
	PutModel(fs, l, sc.Files) // the model itself is safe
	l.Seed = core.Mix(sc.Layout.Seed, 99)
	run, err := Exec(s.Bin, fs, l, sc.Cmd, nil, budgetOps(base)*8)
	if err != nil {
		return nil, err
	}
	v.Steps += len(run.W.Trace)
	v.SimNs += run.W.SimNs()
	v.Digest = core.Mix(dig, run.W.Digest())
	v.NonTrivial = interrupted > 0 || len(sc.Runs) == 0
	if trace {
		v.Trace = append(v.Trace, fmt.Sprintf("--- last run: exit=%d", run.P.Exit))
		v.Trace = append(v.Trace, traceOf(run.W.Trace)...)
	}
	var plan []string
	for _, r := range sc.Runs {
		t := fmt.Sprint(r.Faults)
		if r.Files != nil {
			t = "other model " + t
		}
		if r.Power != 0 {
			t += " power loss"
		}
		plan = append(plan, t)
	}
	v.Sample = fmt.Sprintf("C05 generate %s after %v -> exit %d", sc.Cmd, plan, run.P.Exit)
	vs := verdictSetter{v, fmt.Sprintf("generate %s again after %s: ", sc.Cmd, strings.Join(plan, ", "))}
	if run.P.Exit != 0 || run.P.Stuck {
		return vs.fail("exit", "exits with %d: %s %s", run.P.Exit, strings.Join(run.Errors(), "; "), first(run.P.PanicMsg)), nil
	}
	if run.Said() {
		return vs.fail("said", "reports: %s %s", strings.Join(run.Errors(), "; "), first(string(run.P.Stderr))), nil
	}
	if what := missingOut(base.Out, run.Out()); what != "" {
		return vs.fail("output", "the output isn't that of a clean run: %s", what), nil
	}
	return v, nil
}

func replaceModel(fs *vfs.FS, l Layout, files map[string]string) *vfs.FS {
	for _, d := range l.ModelDirs() {
		_, parent, name, _ := fs.Lookup(fs.Root, d, false)
		if parent != nil {
			delete(parent.Kids, name)
		}
	}
	PutModel(fs, l, files)
	return fs
}

// ---------------------------------------------------------------- C06

func under(p, dir string) bool { return p == dir || strings.HasPrefix(p, dir+"/") }

// strayed checks the operations and the final state of a run.
func strayed(p *world.Proc, l Layout, cmd string, before, after *vfs.FS, shared bool) string {
	own := map[string]bool{}
	ownRoot := func(x string) bool {
		for x != "/" && x != "." {
			if own[x] {
				return true
			}
			x = path.Dir(x)
		}
		return false
	}
	out := l.OutDir()
	removeFailed := false
	for _, o := range p.Ops {
		if o.Errno != 0 && o.Area == "temp" && (o.Op == "unlink" || o.Op == "open-r" || o.Op == "getdents" || o.Op == "stat" || o.Op == "fstat" || o.Op == "seek" || o.Op == "rename") && o.Fault != "" {
			removeFailed = true
		}
		if !o.Mod || o.Errno != 0 || !strings.HasPrefix(o.Path, "/") || o.Path == "/dev/null" {
			continue
		}
		if cmd == "check" {
			return fmt.Sprintf("'check' changed the file system: %s of '%s'", o.Op, o.Path)
		}
		if under(o.Path, out) {
			continue
		}
		if under(out, o.Path) && o.Op == "mkdir" {
			continue // parents of the output directory
		}
		if (o.Op == "mkdir" || o.Op == "open-w") && !o.Exists && o.Area == "temp" {
			own[o.Path] = true
		}
		if o.Op == "rename" && o.Area == "temp" && !o.Exists {
			own[o.Path] = true
		}
		if !ownRoot(o.Path) {
			return fmt.Sprintf("something outside of the output directory was changed: %s of '%s'", o.Op, o.Path)
		}
	}
	if shared {
		return ""
	}
	b, a := before.Files("/"), after.Files("/")
	for _, k := range sortedKeys(b) {
		abs := "/" + k
		got, ok := a[k]
		switch {
		case !ok:
			return fmt.Sprintf("'%s' existed before and was removed", abs)
		case under(abs, out):
		case !bytes.Equal(got, b[k]):
			return fmt.Sprintf("'%s' was changed", abs)
		}
	}
	if removeFailed {
		return ""
	}
	for _, k := range sortedKeys(a) {
		abs := "/" + strings.TrimSuffix(k, "/")
		if _, ok := b[k]; ok || under(abs, out) || under(out, abs) {
			continue
		}
		return fmt.Sprintf("'%s' was left behind", abs)
	}
	return ""
}

var removing = regexp.MustCompile(`(?i)remov|delet|clean|unlink|rmdir|temporary|left|dispos|discard`)

// saidRemoval tells if the failure to remove a temporary file was reported, which isn't the case if only
// another failure was.
func saidRemoval(run *Run) bool {
	return run.P.PanicMsg != "" || (run.Said() && removing.Match(append(append([]byte(nil), run.P.Stdout...), run.P.Stderr...)))
}

func (s *Sim) evalC06(sc *Scenario, trace bool) (*harness.Verdict, error) {
	clean := *sc
	clean.Faults = nil
	base, err := s.alone(&clean)
	if err != nil {
		return nil, err
	}
	run, err := Exec(s.Bin, sc.machine(sc.Files), sc.Layout, sc.Cmd, sc.Faults, budgetOps(base))
	if err != nil {
		return nil, err
	}
	v := s.verdict(sc, run, trace)
	vs := verdictSetter{v, describe(sc)}
	if run.P.Stuck || run.P.Died || run.P.Crashed {
		v.NonTrivial = false
		return v, nil
	}
	if what := strayed(run.P, sc.Layout, sc.Cmd, run.Before, run.FS, false); what != "" {
		class := "stray"
		if strings.Contains(what, "left behind") {
			class = "left"
		}
		return vs.fail(class, "exit status %d: %s", run.P.Exit, what), nil
	}
	// Something left behind because it could not be removed has to be reported.
	left := ""
	b, a := run.Before.Files("/"), run.FS.Files("/")
	for _, k := range sortedKeys(a) {
		abs := "/" + strings.TrimSuffix(k, "/")
		if _, ok := b[k]; !ok && !under(abs, sc.Layout.OutDir()) && !under(sc.Layout.OutDir(), abs) {
			left = abs
		}
	}
	if left != "" && !saidRemoval(run) {
		return vs.fail("silent", "'%s' could not be removed and that wasn't reported", left), nil
	}
	return v, nil
}

// ---------------------------------------------------------------- C07

func (s *Sim) evalC07(sc *Scenario, trace bool) (*harness.Verdict, error) {
	solo := make([]*Result, len(sc.Procs))
	total := 0
	for i, pp := range sc.Procs {
		one := &Scenario{Cmd: pp.Cmd, Layout: pp.Layout, Files: pp.Files}
		r, err := s.alone(one)
		if err != nil {
			return nil, err
		}
		if r.Stuck {
			return invalid("stuck alone"), nil
		}
		solo[i] = r
		total += len(r.Ops)
	}
	fs := Machine(sc.Procs[0].Layout)
	for _, k := range sortedKeys(sc.Foreign) {
		if strings.HasSuffix(k, "/") {
			fs.MkdirAll(k)
			continue
		}
		fs.WriteFile(k, []byte(sc.Foreign[k]), 0o644)
	}
	var faults []world.Fault
	for i, pp := range sc.Procs {
		fs.MkdirAll(pp.Layout.Tmp)
		fs.MkdirAll(pp.Layout.Cwd)
		PutModel(fs, pp.Layout, pp.Files)
		if pp.Crash > 0 {
			faults = append(faults, world.Fault{Proc: i, At: pp.Crash, Kind: "crash"})
		}
	}
	before := fs.Clone()
	w := NewWorld(s.Bin, fs, sc.Procs[0].Layout, faults)
	for _, pp := range sc.Procs[1:] {
		w.Areas = append(w.Areas, world.Area{Prefix: pp.Layout.OutDir(), Name: "output"}, world.Area{Prefix: pp.Layout.ModelDir(), Name: "model"}, world.Area{Prefix: pp.Layout.Tmp, Name: "temp"})
	}
	w.MaxOps = 8*total + 20000
	for _, pp := range sc.Procs {
		if _, err := w.Start(Spec(pp.Layout, pp.Cmd)); err != nil {
			w.Stop()
			return nil, err
		}
	}
	bi, left := 0, 0
	if len(sc.Picks) > 0 {
		left = sc.Picks[0].N
	}
	turn := 0
	switches := 0
	last := -1
	w.Run(func(live []*world.Proc) *world.Proc {
		var got *world.Proc
		for bi < len(sc.Picks) && got == nil {
			if left <= 0 {
				bi++
				if bi < len(sc.Picks) {
					left = sc.Picks[bi].N
				}
				continue
			}
			for _, p := range live {
				if p.ID == sc.Picks[bi].P {
					got = p
				}
			}
			if got == nil {
				left = 0
				continue
			}
			left--
		}
		if got == nil {
			turn++
			got = live[turn%len(live)]
		}
		if got.ID != last {
			switches++
			last = got.ID
		}
		return got
	})
	if w.Infra != nil {
		return nil, w.Infra
	}
	v := &harness.Verdict{Steps: len(w.Trace), SimNs: w.SimNs(), Digest: w.Digest(), Faults: faultCounts(w.Procs...), NonTrivial: switches > len(sc.Procs), Notes: map[string]int{"context_switches": switches}}
	v.Key = opKey(w.Trace)
	var cmds []string
	for _, pp := range sc.Procs {
		c := pp.Cmd
		if pp.Crash > 0 {
			c += fmt.Sprintf("(killed at %d)", pp.Crash)
		}
		cmds = append(cmds, c)
	}
	v.Sample = fmt.Sprintf("C07 %v together, %d operations, %d switches", cmds, len(w.Trace), switches)
	if trace {
		v.Trace = traceOf(w.Trace)
	}
	vs := verdictSetter{v, strings.Join(cmds, " + ") + " at the same time: "}
	owner := map[string]int{}
	for _, o := range w.Trace {
		if o.Area != "temp" || o.Errno != 0 {
			continue
		}
		root := o.Path
		tmp := ""
		for _, a := range w.Areas {
			if a.Name == "temp" && under(o.Path, a.Prefix) && len(a.Prefix) > len(tmp) {
				tmp = a.Prefix
			}
		}
		if root == tmp {
			continue
		}
		rest := strings.TrimPrefix(root, tmp+"/")
		root = tmp + "/" + strings.SplitN(rest, "/", 2)[0]
		if own, ok := owner[root]; ok && own != o.Proc {
			return vs.fail("temp", "run %d touches temporary '%s' of run %d: %s", o.Proc+1, o.Path, own+1, o.Op), nil
		} else if !ok {
			if o.Mod && !o.Exists && o.Path == root {
				owner[root] = o.Proc
			} else if before.Get(root) != nil {
				return vs.fail("temp", "run %d touches '%s', which a dead run left: %s", o.Proc+1, o.Path, o.Op), nil
			}
		} else if o.Op == "unlink" && o.Path == root {
			delete(owner, root)
		}
	}
	for i, p := range w.Procs {
		pp := sc.Procs[i]
		if p.Crashed {
			continue
		}
		if p.Stuck || p.Died {
			return vs.fail("stuck", "run %d doesn't end", i+1), nil
		}
		if p.Exit != solo[i].Exit {
			return vs.fail("exit", "run %d exits with %d, alone it exits with %d: %s %s", i+1, p.Exit, solo[i].Exit, strings.Join(errorLines(string(p.Stdout)+string(p.Stderr)), "; "), first(p.PanicMsg)), nil
		}
		if what := diffOut(solo[i].Out, w.FS.Files(pp.Layout.OutDir())); what != "" {
			return vs.fail("output", "run %d doesn't produce what it produces alone: %s", i+1, what), nil
		}
	}
	return v, nil
}

// Info describes the check.
func (s *Sim) Info() harness.Info {
	q, t := quickBudgets[s.id], thoroughBudgets[s.id]
	return harness.Info{
		Level:    "exploration",
		Rule:     rules[s.id],
		Distinct: "distinct sequences of system calls (kind, path, injected fault, process) plus exit status",
		Real:     []string{"the complete metamodel command built from the tree under test (cmd, language, concepts, generators, http, markdown, names, reporter), ANTLR runtime, cobra, Go standard library and runtime"},
		Stub:     []string{"kernel: system calls are served by a simulated file system, clock, process table and random source", "goimports: a stand in built on go/parser and go/format that formats, sorts and prunes imports, with injected failures", "machine: power loss and kill are simulated on the in memory file system"},
		Assumptions: []string{
			"the tool touches the machine only through the Go standard library (every system call of package syscall and os is routed to the simulator)",
			"goimports behaves like the stand in: formats each named file in place, in order, and fails with a non zero status if a file can't be parsed",
			"file system semantics are POSIX: data not synced may be lost or torn at power loss, a failed close may lose delayed writes",
		},
		Quick: q, Thorough: t,
	}
}

var quickBudgets = map[string]harness.Budget{
	"C01": {Episodes: 1500, Wall: 100 * time.Second}, "C02": {Episodes: 1500, Wall: 100 * time.Second}, "C03": {Episodes: 1500, Wall: 100 * time.Second},
	"C04": {Episodes: 1500, Wall: 100 * time.Second}, "C05": {Episodes: 1500, Wall: 100 * time.Second}, "C06": {Episodes: 1500, Wall: 100 * time.Second}, "C07": {Episodes: 1500, Wall: 100 * time.Second},
}
var thoroughBudgets = map[string]harness.Budget{
	"C01": {Episodes: 1 << 30, Wall: 10 * time.Minute}, "C02": {Episodes: 1 << 30, Wall: 10 * time.Minute}, "C03": {Episodes: 1 << 30, Wall: 10 * time.Minute},
	"C04": {Episodes: 1 << 30, Wall: 10 * time.Minute}, "C05": {Episodes: 1 << 30, Wall: 10 * time.Minute}, "C06": {Episodes: 1 << 30, Wall: 10 * time.Minute}, "C07": {Episodes: 1 << 30, Wall: 10 * time.Minute},
}
