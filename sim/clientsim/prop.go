package clientsim

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/sim/harness"
	"verif/sim/internal/core"
)

// Sim explores one of the properties of the generated clients.
type Sim struct {
	id    string
	built *Built
	mseed uint64
	none  string // why there is no client

	mu   sync.Mutex
	free []*proc
}

const randomModels = 2

// NewSim generates, instruments and builds the clients. The models depend on the seed.
func NewSim(id, scratch string, mseed uint64) (*Sim, error) {
	models, err := Models(mseed, randomModels)
	if err != nil {
		return nil, err
	}
	b, err := BuildWorker(scratch, models, mseed, randomModels)
	if e, ok := err.(*noClient); ok {
		return &Sim{id: id, built: &Built{Models: models}, mseed: mseed, none: e.text}, nil
	}
	if err != nil {
		return nil, err
	}
	for _, d := range b.Dropped {
		fmt.Fprintf(os.Stderr, "no client for random model %s\n", d)
	}
	return &Sim{id: id, built: b, mseed: mseed}, nil
}

// ID of the property.
func (s *Sim) ID() string { return s.id }

// Episode generates the scenarios of one seed.
func (s *Sim) Episode(seed uint64, tier string, run func(sc any) bool) error {
	n := 12
	if s.none != "" {
		n = 1
	}
	for i := 0; i < n; i++ {
		sc := Generate(s.built.Models, s.id, core.Mix(seed, uint64(i)))
		sc.MSeed = s.mseed
		if !run(sc) {
			return nil
		}
	}
	return nil
}

// Decode reads a scenario.
func (s *Sim) Decode(data []byte) (any, error) { return DecodeScenario(data) }

// proc is a worker process.
type proc struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	errs *tail
	runs int
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		t.b = append([]byte{}, t.b[len(t.b)-1<<15:]...)
	}
	return len(p), nil
}

func (t *tail) text() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

func (s *Sim) get() (*proc, error) {
	s.mu.Lock()
	if n := len(s.free); n > 0 {
		p := s.free[n-1]
		s.free = s.free[:n-1]
		s.mu.Unlock()
		return p, nil
	}
	s.mu.Unlock()
	cmd := exec.Command(s.built.Bin)
	cmd.Env = []string{"GOMAXPROCS=1", "GODEBUG=", "GOTRACEBACK=all", "TZ=UTC", "VSIM_TRACE=" + os.Getenv("VSIM_TRACE")}
	cmd.Dir = "/"
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	p := &proc{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<20), errs: &tail{}}
	cmd.Stderr = p.errs
	return p, cmd.Start()
}

func (p *proc) stop() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

// cpu is the processor time used by the process.
func (p *proc) cpu() time.Duration {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", p.cmd.Process.Pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b[bytes.LastIndexByte(b, ')')+1:]))
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.Atoi(f[11])
	k, _ := strconv.Atoi(f[12])
	return time.Duration(u+k) * 10 * time.Millisecond
}

const (
	maxCPU  = 40 * time.Second
	maxReal = 10 * time.Minute
)

// Eval executes a scenario in a worker.
func (s *Sim) Eval(x any, trace bool) *harness.Verdict {
	if s.none != "" {
		return &harness.Verdict{Violation: s.id + ": " + s.none, Class: "client", Key: 1, Digest: 1}
	}
	sc, err := json.Marshal(x)
	if err != nil {
		return &harness.Verdict{Infra: err}
	}
	p, err := s.get()
	if err != nil {
		return &harness.Verdict{Infra: err}
	}
	r := p.ask(sc, trace)
	p.runs++
	if r.Exit || p.runs > 3000 {
		p.stop()
	} else {
		s.mu.Lock()
		s.free = append(s.free, p)
		s.mu.Unlock()
	}
	v := &harness.Verdict{
		Violation: r.Violation, Class: r.Class, NonTrivial: r.NonTrivial, Key: r.Key, Faults: r.Faults, SimNs: r.SimNs,
		Steps: r.Steps, Digest: r.Digest, Trace: r.Trace, Sample: r.Sample, Notes: r.Notes,
	}
	if r.Infra != "" {
		v.Infra = errors.New(r.Infra)
	}
	return v
}

func (p *proc) ask(sc []byte, trace bool) *Reply {
	rq, err := json.Marshal(request{Scenario: sc, Trace: trace})
	if err != nil {
		return &Reply{Infra: err.Error()}
	}
	if _, err := p.in.Write(append(rq, '\n')); err != nil {
		return &Reply{Infra: "worker: " + err.Error(), Exit: true}
	}
	type answer struct {
		line []byte
		err  error
	}
	ch := make(chan answer, 1)
	go func() {
		line, err := p.out.ReadBytes('\n')
		ch <- answer{line, err}
	}()
	began, start := p.cpu(), time.Now()
	for {
		select {
		case a := <-ch:
			if a.err != nil {
				p.cmd.Wait()
				return crash(p.errs.text())
			}
			r := &Reply{}
			if err := json.Unmarshal(a.line, r); err != nil {
				return &Reply{Infra: err.Error(), Exit: true}
			}
			return r
		case <-time.After(2 * time.Second):
			if p.cpu()-began > maxCPU {
				return &Reply{Violation: "the generated code never ends", Class: "hang", Exit: true}
			}
			if time.Since(start) > maxReal {
				return &Reply{Infra: "worker doesn't answer", Exit: true}
			}
		}
	}
}

// crash explains why a worker died. It is the fault of the generated code if it is in the stack of the goroutine
// that failed.
func crash(text string) *Reply {
	i := strings.LastIndex(text, "panic: ")
	if j := strings.LastIndex(text, "fatal error: "); j > i {
		i = j
	}
	if i < 0 {
		return &Reply{Infra: "worker died: " + text[max(0, len(text)-500):], Exit: true}
	}
	text = text[i:]
	line := strings.SplitN(text, "\n", 2)[0]
	if g := strings.Index(text, "goroutine "); g >= 0 {
		stack := strings.SplitN(text[g:], "\n\n", 2)[0]
		if strings.Contains(stack, "example.com/m") && !strings.Contains(line, "synctest") {
			return &Reply{Violation: "the program dies: " + line + " " + firstFrames(stack), Class: "crash", Digest: harness.HashStr(line), Exit: true}
		}
	}
	return &Reply{Infra: "worker died: " + line, Exit: true}
}

// Close ends the workers.
func (s *Sim) Close() {
	for _, p := range s.free {
		p.stop()
	}
	s.free = nil
}

// Extra goes to the evidence.
func (s *Sim) Extra() map[string]any {
	var names []string
	for _, m := range s.built.Models {
		names = append(names, m.Name)
	}
	return map[string]any{"models": names, "models_without_client": len(s.built.Dropped), "generated_files": s.built.Files, "switch_points": s.built.Points}
}
