package clientsim

import (
	"context"
	"fmt"
	"net/http"
	"reflect"
	"regexp"
	"runtime/debug"
	"strings"
	"time"

	"verif/sim/internal/core"
	"verif/sim/internal/mm"
)

// run is one simulated execution.
type run struct {
	sc      *Scenario
	b       *Bind
	s       *sched
	calls   []*call
	byTask  map[*task]*call
	faults  map[string]int
	strange []string
	eff     []*Req // the requests with all that callers changed
	reqs    []reflect.Value
	eps     []*Endpoint
	client  reflect.Value
	snaps   []func() string
	setup   *bad // found before the tasks started
	notes   map[string]int
	keys    []string
	used    bool
	found   *bad // by the tasks
	hist    *history
	sent    []*answer
}

func (w *run) count(kind string) {
	if w.faults == nil {
		w.faults = map[string]int{}
	}
	w.faults[kind]++
}

func (w *run) callOf(ctx context.Context) *call {
	if t := w.s.current(); t != nil && w.byTask[t] != nil {
		return w.byTask[t]
	}
	c, _ := ctx.Value(callKey{}).(*call)
	return c
}

const basePath = "/api/sim"

// endpoint finds what a request is about.
func (v *Ver) endpoint(r *Req) *Endpoint {
	e := &Endpoint{V: v}
	res := v.V.Find("resource", "Root")
	for _, l := range r.Path {
		var found *mm.Member
		for _, m := range res.Members {
			if m.Kind == "locator" && m.Name == l.Name {
				found = m
			}
		}
		if found == nil {
			return nil
		}
		e.Locators = append(e.Locators, found)
		res = v.V.Find("resource", found.Targets[0])
		if res == nil {
			return nil
		}
	}
	e.Resource = res
	if r.Method == "" {
		return e
	}
	for _, m := range res.Members {
		if m.Kind == "method" && m.Name == r.Method {
			e.Method = m
			return e
		}
	}
	return nil
}

// newClient creates the client of the version.
func (w *run) newClient() reflect.Value {
	f, ok := w.b.svc["newclient"]
	if !ok {
		fail("no NewClient in service %s", w.b.V.Svc.Name)
	}
	svc := f.Call([]reflect.Value{reflect.ValueOf(&transport{w}), reflect.ValueOf(basePath)})[0]
	return must(svc, w.b.V.V.Name).Call(nil)[0]
}

// build creates the request object.
func (w *run) build(i int) reflect.Value {
	r := w.sc.Reqs[i]
	e := w.eps[i]
	c := w.client
	for j, l := range e.Locators {
		var args []reflect.Value
		if len(l.Vars) > 0 {
			args = []reflect.Value{reflect.ValueOf(r.Path[j].ID)}
		}
		c = must(c, l.Name).Call(args)[0]
	}
	name := "Get"
	if e.Method != nil {
		name = e.Method.Name
	}
	if r.Poll != nil {
		name = "Poll"
	}
	req := must(c, name).Call(nil)[0]
	w.fill(e, req, r)
	if r.User != "" {
		must(req, "Impersonate").Call([]reflect.Value{reflect.ValueOf(r.user())})
	}
	if p := r.Poll; p != nil {
		if p.Interval != 0 {
			must(req, "Interval").Call([]reflect.Value{reflect.ValueOf(time.Duration(p.Interval))})
		}
		for _, s := range p.Statuses {
			must(req, "Status").Call([]reflect.Value{reflect.ValueOf(s)})
		}
		for k := 0; k < p.Preds; k++ {
			k := k
			f := must(req, "Predicate")
			pred := reflect.MakeFunc(f.Type().In(0), func(args []reflect.Value) []reflect.Value {
				return []reflect.Value{reflect.ValueOf(w.predicate(i, k, args[0]))}
			})
			f.Call([]reflect.Value{pred})
		}
	}
	return req
}

// fill gives values to a request object.
func (w *run) fill(e *Endpoint, req reflect.Value, r *Req) {
	if e.Method != nil {
		for _, p := range e.Method.Params {
			x, ok := r.Params[p.Name]
			if !ok {
				continue
			}
			f := must(req, p.Name)
			f.Call([]reflect.Value{w.b.ToGo(p.Type, false, x, f.Type().In(0))})
		}
	}
	for _, kv := range r.Query {
		must(req, "Parameter").Call([]reflect.Value{reflect.ValueOf(kv[0]), loose(kv[1])})
	}
	for _, kv := range r.Headers {
		must(req, "Header").Call([]reflect.Value{reflect.ValueOf(kv[0]), loose(kv[1])})
	}
}

// with is the request after more values were given to it.
func (r *Req) with(c *Req) *Req {
	if c == nil {
		return r
	}
	out := *r
	out.Params = map[string]any{}
	for k, x := range r.Params {
		out.Params[k] = x
	}
	for k, x := range c.Params {
		out.Params[k] = x
	}
	out.Query = append(append([][2]string{}, r.Query...), c.Query...)
	out.Headers = append(append([][2]string{}, r.Headers...), c.Headers...)
	return &out
}

func (w *run) predicate(req, k int, resp reflect.Value) bool {
	t := w.s.current()
	if t != nil {
		t.in++
		defer func() { t.in-- }()
	}
	c := w.byTask[t]
	if c == nil || len(c.exs) == 0 {
		w.strange = append(w.strange, "a predicate was called outside of a poll")
		return false
	}
	x := c.exs[len(c.exs)-1]
	pc := predCall{ex: len(c.exs) - 1, at: w.s.now()}
	if resp.IsNil() {
		pc.diff = "the predicate was given no response"
	} else {
		pc.diff = w.diffResponse(w.eps[req], x, resp)
	}
	w.s.park("predicate", time.Duration(x.spec.PredDelay), nil)
	pc.end = w.s.now()
	c.preds = append(c.preds, pc)
	if x.spec.PredPanic && k == 0 {
		w.count("panic of a callback")
		panic("panic of the predicate")
	}
	return k >= len(x.spec.Preds) || x.spec.Preds[k]
}

// diffResponse compares the parameters of a response object with what the server sent, if that was a value.
func (w *run) diffResponse(e *Endpoint, x *exchange, resp reflect.Value) string {
	if int(must(resp, "Status").Call(nil)[0].Int()) != x.spec.Status {
		return fmt.Sprintf("status is %d instead of %d", must(resp, "Status").Call(nil)[0].Int(), x.spec.Status)
	}
	if x.spec.Kind == "value" && x.spec.Status < 400 && x.spec.Fault == nil && x.resp.err == nil {
		vals := w.readResponse(e, resp)
		return w.diffValues(e, x.spec.Values, vals)
	}
	return ""
}

// readResponse reads all the parameters of a response object.
func (w *run) readResponse(e *Endpoint, resp reflect.Value) map[string]any {
	out := map[string]any{}
	if e.Method == nil {
		b := must(resp, "Body").Call(nil)[0]
		if !b.IsNil() {
			if x, ok := getter(b, "ServerVersion"); ok {
				out["ServerVersion"] = x.String()
			}
		}
		return out
	}
	for _, p := range outs(e.Method) {
		if x, ok := getter(resp, p.Name); ok {
			out[p.Name] = w.b.FromGo(p.Type, false, x)
		}
	}
	return out
}

func (w *run) diffValues(e *Endpoint, want, got map[string]any) string {
	if e.Method == nil {
		x, ok1 := want["ServerVersion"]
		y, ok2 := got["ServerVersion"]
		if ok1 != ok2 || x != y {
			return fmt.Sprintf("server version is %v instead of %v", y, x)
		}
		return ""
	}
	for _, p := range outs(e.Method) {
		x, ok1 := want[p.Name]
		y, ok2 := got[p.Name]
		if ok1 != ok2 {
			return fmt.Sprintf("%s: present is %v instead of %v", p.Name, ok2, ok1)
		}
		if ok1 {
			if s := Diff(w.b.V, p.Type, false, x, y, true); s != "" {
				return p.Name + s
			}
		}
	}
	return ""
}

// checkNil checks that a response that isn't there has nothing.
func (w *run) checkNil(e *Endpoint, resp reflect.Value) {
	for _, f := range []string{"Status", "Header", "Error"} {
		if x := must(resp, f).Call(nil)[0]; !x.IsZero() {
			wrong("%s of a response that is nil is %v", f, x)
		}
	}
	if e.Method == nil || strings.HasSuffix(resp.Type().Elem().Name(), "PollResponse") {
		return // their other methods need a response
	}
	if vals := w.readResponse(e, resp); len(vals) > 0 {
		wrong("a response that is nil has parameters")
	}
}

func (w *run) doCall(t *task, ti, oi int, op *Op) {
	s := w.s
	t.in++
	c := &call{task: ti, op: oi, spec: op, req: w.eff[op.Req], n: len(w.calls), cancelAt: -1}
	w.calls = append(w.calls, c)
	w.byTask[t] = c
	ctx := context.WithValue(context.Background(), callKey{}, c)
	var cancels []context.CancelFunc
	if op.Limit != 0 {
		var f context.CancelFunc
		ctx, f = context.WithDeadline(ctx, time.Now().Add(time.Duration(op.Limit)))
		cancels = append(cancels, f)
	}
	cancel := context.CancelFunc(func() {})
	if !op.Plain || op.Cancel >= 0 {
		ctx, cancel = context.WithCancel(ctx)
		cancels = append(cancels, cancel)
	}
	c.ctx = ctx
	if op.Cancel == 0 {
		cancel()
		c.cancelAt = s.now()
		w.count("cancelled before")
	} else if op.Cancel > 0 {
		time.AfterFunc(time.Duration(op.Cancel), func() {
			if !c.finished {
				c.cancelAt = s.now()
				w.count("cancellation")
			}
			cancel()
		})
	}
	req := w.reqs[op.Req]
	if !req.IsValid() {
		t.in--
		req = w.build(op.Req)
		t.in++
		w.reqs[op.Req] = req
	}
	if op.Change != nil {
		t.in--
		w.fill(w.eps[op.Req], req, op.Change)
		t.in++
		c.req = c.req.with(op.Change)
		w.eff[op.Req] = c.req
		w.notes["changed request"]++
	}
	c.start = s.now()
	var out []reflect.Value
	func() {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(bindError); ok {
					c.bad = &bad{"infra", e.msg}
				}
				c.panicked = fmt.Sprint(r)
				if c.panicked != "panic of the predicate" {
					c.panicked += " " + firstFrames(string(debug.Stack()))
				}
			}
			t.in = 1
		}()
		name, args := "SendContext", []reflect.Value{reflect.ValueOf(ctx)}
		switch {
		case op.Kind == "poll":
			name = "StartContext"
		case op.How == "send":
			name, args = "Send", nil
		case op.How == "nil":
			args[0] = reflect.Zero(reflect.TypeOf((*context.Context)(nil)).Elem())
		}
		f := must(req, name)
		t.in--
		out = f.Call(args)
		t.in++
	}()
	c.end = s.now()
	c.finished = true
	if c.panicked == "" {
		c.respNil = out[0].IsNil()
		c.resp = out[0]
		c.err, _ = out[1].Interface().(error)
		if c.respNil {
			c.bad = caught(func() { w.checkNil(w.eps[op.Req], out[0]) })
		}
		if !c.respNil {
			func() {
				defer func() {
					if r := recover(); r != nil {
						c.bad = panicked(r, string(debug.Stack()))
					}
				}()
				e := w.eps[op.Req]
				c.status = int(must(out[0], "Status").Call(nil)[0].Int())
				c.header = must(out[0], "Header").Call(nil)[0].Interface().(http.Header).Clone()
				c.values = w.readResponse(e, out[0])
				re := must(out[0], "Error").Call(nil)[0]
				if !re.IsNil() {
					c.respErr = re.Interface()
				}
			}()
		}
	}
	s.note(t, "call %d returns: response %v, error %v, panic %v", c.n, !c.respNil, c.err, c.panicked)
	for _, f := range cancels {
		f()
	}
	delete(w.byTask, t)
	t.in--
}

var frameRE = regexp.MustCompile(`(?m)^\S*example\.com/[^\n]*\n\s+\S*/(\S+:\d+)`)

// firstFrames lists where in the generated code something happened.
func firstFrames(stack string) string {
	var out []string
	for _, m := range frameRE.FindAllStringSubmatch(stack, 4) {
		out = append(out, m[1])
	}
	return "at " + strings.Join(out, ", ")
}

// execute runs the tasks of a scenario in a bubble and gives the result, inside of the bubble, to the function.
func execute(h Hooks, reg Registry, spec *ModelSpec, sc *Scenario, trace bool, done func(*run)) error {
	v := spec.Find(sc.Svc, sc.Ver)
	if v == nil {
		return fmt.Errorf("no version %s/%s", sc.Svc, sc.Ver)
	}
	b, err := NewBind(reg, v)
	if err != nil {
		return err
	}
	w := &run{sc: sc, b: b, byTask: map[*task]*call{}, faults: map[string]int{}, notes: map[string]int{}}
	h.SetSeed(core.Mix(sc.Hash, 1))
	h.Run(func() {
		s := &sched{h: h, hash: sc.Hash, rng: core.NewRng(sc.Seed), byGo: map[uint64]*task{}, notify: make(chan struct{}, 1), start: time.Now(), yield: sc.Yield, trace: trace}
		w.s = s
		s.onBusy = func() { done(w) }
		w.setup = caught(func() {
			for _, r := range sc.Reqs {
				e := v.endpoint(r)
				if e == nil {
					fail("no endpoint %v %s", r.Path, r.Method)
				}
				w.eps = append(w.eps, e)
			}
			if len(sc.Reqs) > 0 {
				w.client = w.newClient()
			}
			w.reqs = make([]reflect.Value, len(sc.Reqs))
			w.eff = append([]*Req{}, sc.Reqs...)
			for i, r := range sc.Reqs {
				if !r.Lazy {
					w.reqs[i] = w.build(i)
				}
			}
		})
		if w.setup == nil {
			s.active = true
			h.Yield(s.yieldPoint)
			w.start()
			s.loop()
			s.active = false
			h.Yield(nil)
		}
		done(w)
	})
	return nil
}

// caught runs a function and returns the violation that its panic means.
func caught(f func()) (b *bad) {
	defer func() {
		if r := recover(); r != nil {
			b = panicked(r, string(debug.Stack()))
		}
	}()
	f()
	return nil
}

func panicked(r any, stack string) *bad {
	switch e := r.(type) {
	case bindError:
		return &bad{"infra", e.msg}
	case valueError:
		return &bad{"inconsistent", e.msg}
	}
	return &bad{"panic", fmt.Sprintf("panic: %v %s", r, firstFrames(stack))}
}

// start creates the tasks.
func (w *run) start() {
	for i, ops := range w.sc.Tasks {
		i, ops := i, ops
		w.s.spawn(fmt.Sprintf("task %d", i), func(t *task) {
			for j, op := range ops {
				switch op.Kind {
				case "wait":
					t.in++
					w.s.park("wait", time.Duration(op.Wait), nil)
					t.in--
				default:
					w.doCall(t, i, j, op)
				}
			}
		})
	}
	w.startOther()
}

func loose(s string) reflect.Value {
	x, _ := looseValue(s)
	return reflect.ValueOf(x)
}
