package clientsim

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"time"

	"verif/sim/internal/core"
	"verif/sim/internal/mm"
)

// Reply is what a worker answers.
type Reply struct {
	Violation  string         `json:"violation,omitempty"`
	Class      string         `json:"class,omitempty"`
	Infra      string         `json:"infra,omitempty"`
	NonTrivial bool           `json:"nontrivial,omitempty"`
	Key        uint64         `json:"key,omitempty"`
	Faults     map[string]int `json:"faults,omitempty"`
	Notes      map[string]int `json:"notes,omitempty"`
	SimNs      int64          `json:"sim,omitempty"`
	Steps      int            `json:"steps,omitempty"`
	Digest     uint64         `json:"digest,omitempty"`
	Trace      []string       `json:"trace,omitempty"`
	Sample     string         `json:"sample,omitempty"`
	Exit       bool           `json:"exit,omitempty"` // the worker can't be used again
}

var detail = os.Getenv("VSIM_TRACE") != ""

type request struct {
	Scenario json.RawMessage `json:"scenario"`
	Trace    bool            `json:"trace,omitempty"`
}

// Worker executes scenarios that arrive in the standard input, and writes the verdicts to the given file.
func Worker(h Hooks, reg Registry, models []*ModelSpec, out *os.File) {
	warm(reg, models)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err == io.EOF {
			return
		}
		var rq request
		if err := json.Unmarshal(line, &rq); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(4)
		}
		sent := false
		send := func(r *Reply) {
			if sent {
				return
			}
			sent = true
			b, err := json.Marshal(r)
			if err != nil {
				b, _ = json.Marshal(&Reply{Infra: err.Error()})
			}
			out.Write(append(b, '\n'))
		}
		sc, err := DecodeScenario(rq.Scenario)
		if err != nil {
			send(&Reply{Infra: err.Error()})
			continue
		}
		var spec *ModelSpec
		for _, m := range models {
			if m.Name == sc.Model {
				spec = m
			}
		}
		if spec == nil {
			send(&Reply{Infra: "no model " + sc.Model})
			continue
		}
		runtime.GC()
		runtime.GC() // empties the pools
		r := evaluate(h, reg, spec, sc, rq.Trace, send)
		send(r)
		if r.Exit {
			os.Exit(0)
		}
	}
}

// warm uses every type once, so that what the libraries remember about types is the same for all the scenarios.
func warm(reg Registry, models []*ModelSpec) {
	for _, m := range models {
		for _, v := range m.Versions() {
			b, err := NewBind(reg, v)
			if err != nil {
				continue
			}
			for i, d := range v.Types() {
				caught(func() {
					g := &Gen{R: core.NewRng(uint64(i)), Dense: 9}
					x := b.ToGo(mm.TypeRef{Name: d.Name}, false, g.Value(v, mm.TypeRef{Name: d.Name}, false, 2), reflect.TypeOf(b))
					var buf bytes.Buffer
					b.fnOf(d.Name, "Marshal", "").Call([]reflect.Value{x, reflect.ValueOf(&buf)})
					y := b.fnOf(d.Name, "Unmarshal", "").Call([]reflect.Value{reflect.ValueOf(&buf)})[0]
					b.FromGo(mm.TypeRef{Name: d.Name}, false, y)
				})
			}
			caught(func() {
				text := `{"id":"1","details":{"a":[1,"x",true,null,{"b":[{}]}]},"timestamp":"2020-01-01T00:00:00Z"}`
				y := b.Errs["unmarshalerror"].Call([]reflect.Value{reflect.ValueOf(text)})[0]
				var buf bytes.Buffer
				b.Errs["marshalerror"].Call([]reflect.Value{y, reflect.ValueOf(&buf)})
			})
		}
	}
	var x any
	json.Unmarshal([]byte(`{"a":[1,"x",true,null,{"b":[{}]}]}`), &x)
}

// DecodeScenario reads a scenario, keeping the numbers as they are.
func DecodeScenario(data []byte) (*Scenario, error) {
	d := json.NewDecoder(strings.NewReader(string(data)))
	d.UseNumber()
	sc := &Scenario{}
	if err := d.Decode(sc); err != nil {
		return nil, err
	}
	return sc, nil
}

// evaluate executes a scenario. The function given is called if the execution can't go on.
func evaluate(h Hooks, reg Registry, spec *ModelSpec, sc *Scenario, trace bool, send func(*Reply)) (reply *Reply) {
	defer func() {
		if r := recover(); r != nil {
			if reply != nil { // the tasks ended, but something of the generated code was left blocked
				reply.Exit = true
				return
			}
			reply = &Reply{Infra: fmt.Sprint("evaluation: ", r), Exit: true}
		}
	}()
	err := execute(h, reg, spec, sc, trace, func(w *run) {
		reply = w.reply()
		if w.s.stuck != "" {
			reply.Exit = true
			send(reply)
			os.Exit(0)
		}
	})
	if err != nil {
		return &Reply{Infra: err.Error()}
	}
	if reply == nil {
		return &Reply{Infra: "no reply"}
	}
	return reply
}

// reply makes the verdict of an execution.
func (w *run) reply() *Reply {
	r := &Reply{Faults: w.faults, Notes: map[string]int{}}
	s := w.s
	var b *bad
	if w.setup != nil {
		b = w.setup
	}
	if b == nil {
		b = w.check()
	}
	if b != nil && b.class == "infra" {
		r.Infra = b.text
		return r
	}
	if b != nil {
		r.Violation = w.sc.Prop + ": " + b.text
		r.Class = b.class
	}
	r.SimNs = s.now()
	if r.SimNs > int64(horizon) {
		r.SimNs = int64(horizon)
	}
	r.Steps = s.steps
	r.Trace = s.log
	digest, key := s.digest, s.key
	var parts []string
	for _, c := range w.calls {
		e := w.eps[c.spec.Req]
		name := "metadata"
		if e.Method != nil {
			name = e.Resource.Name + "." + e.Method.Name
		}
		for _, x := range c.exs {
			o := w.outcome(e, x)
			r.Notes["outcome "+o]++
			name += " " + o
			if x.spec.Fault != nil {
				name += " " + x.spec.Fault.Kind
			}
		}
		parts = append(parts, name)
		digest = core.MixStr(digest, fmt.Sprint(c.err, c.status, len(c.exs), c.start, c.end, c.panicked == ""))
		digest = core.MixStr(digest, fmt.Sprint(c.values))
		if detail {
			r.Trace = append(r.Trace, fmt.Sprint("result ", c.err, c.status, len(c.exs), c.start, c.end, c.panicked == ""), fmt.Sprint("values ", c.values))
		}
		for _, x := range c.exs {
			if detail {
				r.Trace = append(r.Trace, "url "+x.url.String(), "body "+string(x.body))
			}
			digest = core.MixStr(digest, x.url.String())
			digest = core.MixStr(digest, string(x.body))
		}
	}
	r.Notes["calls"] = len(w.calls)
	for k, n := range w.notes {
		r.Notes[k] += n
	}
	if w.sc.Yield > 0 {
		r.Notes["runs with switches between statements"]++
	}
	r.NonTrivial = w.relevant()
	parts = append(parts, w.keys...)
	key = core.MixStr(key, w.sc.Model+"/"+w.sc.Svc+"/"+w.sc.Ver)
	for _, p := range parts {
		key = core.MixStr(key, p)
	}
	for _, k := range sortedKeys(w.faults) {
		key = core.MixStr(key, fmt.Sprint(k, w.faults[k]))
	}
	r.Key = key
	r.Digest = core.MixStr(digest, r.Violation)
	r.Sample = fmt.Sprintf("%s/%s/%s, %d tasks, %v of virtual time, faults %v: %s", w.sc.Model, w.sc.Svc, w.sc.Ver, len(s.tasks), time.Duration(r.SimNs), w.faults, strings.Join(parts, "; "))
	if len(r.Sample) > 600 {
		r.Sample = r.Sample[:600]
	}
	return r
}

func sortedKeys(m map[string]int) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// relevant tells if the execution exercised what the property is about.
func (w *run) relevant() bool {
	overlap := 0
	for _, c := range w.calls {
		for _, d := range w.calls {
			if d.n > c.n && d.task != c.task && d.start <= c.end {
				overlap++
			}
		}
		e := w.eps[c.spec.Req]
		for _, x := range c.exs {
			o := w.outcome(e, x)
			switch w.sc.Prop {
			case "C08", "C13", "C14", "C15", "C19":
				return true
			case "C09":
				if o == "ok" {
					return true
				}
			case "C10":
				if o == "transport" || o == "fail" {
					return true
				}
			case "C11":
				if o == "structured" || o == "fail" && x.spec.Status >= 400 {
					return true
				}
			case "C12":
				if x.resp != nil {
					return true
				}
			}
		}
		if w.sc.Prop == "C15" && len(c.exs) == 0 {
			return true
		}
	}
	if w.sc.Prop == "C16" {
		return overlap > 0
	}
	return w.used
}
