package clientsim

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"time"

	"verif/sim/internal/core"
	"verif/sim/internal/mm"
)

const ms = int64(1000000)

// maker generates scenarios.
type maker struct {
	r    *core.Rng
	v    *Ver
	eps  []*Endpoint
	prop string
	n    int // distinguishes values
}

func (g *maker) delay() int64 {
	r := g.r
	switch r.Intn(6) {
	case 0, 1:
		return 0
	case 2:
		return int64(r.Intn(1000)) * 1000
	case 3:
		return int64(r.Intn(60000)) * ms
	}
	return int64(1+r.Intn(500)) * ms
}

func (g *maker) id() string {
	r := g.r
	return core.Pick(r, []string{"123", "a-b_c", "with space", "ünï", "q?x=1", "a%2Fb", "x#y", "a+b", "~", "A:B@C"}) + fmt.Sprint(r.Intn(100))
}

func (g *maker) request(e *Endpoint) *Req {
	r := g.r
	q := &Req{}
	if e.Resource != nil {
		q.Res = e.Resource.Name
	}
	for _, l := range e.Locators {
		loc := Loc{Name: l.Name}
		if len(l.Vars) > 0 {
			loc.ID = g.id()
		}
		q.Path = append(q.Path, loc)
	}
	if e.Method != nil {
		q.Method = e.Method.Name
		q.Params = map[string]any{}
		body := g.v.bodyIn(e.Method)
		gen := &Gen{R: r, Dense: core.Pick(r, []int{1, 2, 3, 5})}
		for _, p := range ins(e.Method) {
			if p == body || r.Chance(1, 2) {
				q.Params[p.Name] = gen.Value(g.v, p.Type, false, 2)
				if p != body && p.Type == (mm.TypeRef{Name: "Float"}) && !isAction(e.Method) && r.Chance(1, 6) {
					q.Params[p.Name] = core.Pick(r, []string{"NaN", "Inf", "-Inf"}) // it is only a text of the query
				}
				if g.prop == "C08" && (p == body || isAction(e.Method)) && r.Chance(1, 12) {
					q.Params[p.Name] = g.v.ruin(r, p.Type, false, q.Params[p.Name])
				}
			}
		}
	}
	g.extras(q)
	if e.Method != nil && r.Chance(1, 4) {
		q.User = core.Pick(r, []string{fmt.Sprintf("user%d", r.Intn(10)), noName, "ana maría", "a,b"})
	}
	return q
}

// extras gives additional parameters and headers to a request.
func (g *maker) extras(q *Req) {
	r := g.r
	for n := r.Intn(3); n > 0; n-- {
		q.Query = append(q.Query, [2]string{core.Pick(r, []string{"x_a", "x_b", "x&c", "x d"}), g.loose()})
	}
	for n := r.Intn(3); n > 0; n-- {
		q.Headers = append(q.Headers, [2]string{core.Pick(r, []string{"X-One", "x-two", "Accept", "X-One"}), fmt.Sprintf("h%d", r.Intn(1000))})
		if r.Chance(1, 4) {
			q.Headers[len(q.Headers)-1][1] = core.Pick(r, []string{typed + "int:7", typed + "bool:true", typed + "float:2.5"})
		}
	}
}

// loose is the value of a parameter that isn't in the model, which can be of any type.
func (g *maker) loose() string {
	r := g.r
	switch r.Intn(12) {
	case 0:
		return typed + fmt.Sprintf("int:%d", r.Intn(2000000000)-1000000000)
	case 1:
		return typed + core.Pick(r, []string{"bool:true", "bool:false"})
	case 2:
		return typed + core.Pick(r, []string{"float:0.1", "float:1e+21", "float:-3", "float:123456789"})
	case 3:
		return typed + "time:" + time.Date(1990+r.Intn(60), 3, 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), 0, time.FixedZone("", (r.Intn(25)-12)*3600)).Format(time.RFC3339)
	}
	return genString(r)
}

// typed is how the text of a loose value that isn't a string starts.
const typed = "\x00="

// looseValue gives a loose value and its text.
func looseValue(s string) (any, string) {
	t, ok := strings.CutPrefix(s, typed)
	if !ok {
		return s, s
	}
	kind, text, _ := strings.Cut(t, ":")
	switch kind {
	case "int":
		n, _ := strconv.Atoi(text)
		return n, text
	case "bool":
		return text == "true", text
	case "float":
		n, _ := strconv.ParseFloat(text, 64)
		return n, fmt.Sprint(n)
	case "time":
		d, _ := time.Parse(time.RFC3339, text)
		return d, d.UTC().Format(time.RFC3339)
	}
	return text, text
}

// change is what the caller does with a request object before using it again.
func (g *maker) change(e *Endpoint) *Req {
	r := g.r
	q := &Req{}
	if e.Method != nil {
		q.Params = map[string]any{}
		gen := &Gen{R: r, Dense: core.Pick(r, []int{1, 2, 3, 5})}
		for _, p := range ins(e.Method) {
			if r.Chance(1, 2) {
				q.Params[p.Name] = gen.Value(g.v, p.Type, false, 2)
			}
		}
	}
	if r.Bool() {
		g.extras(q)
	}
	return q
}

func (g *maker) chunks(x *Exch) {
	r := g.r
	switch r.Intn(6) {
	case 0: // as asked for
	case 1:
		x.Chunks = []Chunk{{N: 1}}
		if len(x.Body) > 3000 {
			x.Chunks[0].N = 7
		}
	case 2:
		x.Chunks = []Chunk{{N: 1 + r.Intn(40)}, {N: 0}, {N: 1 + r.Intn(2000), D: g.delay()}}
	default:
		for n := 1 + r.Intn(5); n > 0; n-- {
			c := Chunk{N: 1 + r.Intn(300)}
			if r.Chance(1, 3) {
				c.D = g.delay()
			}
			if r.Chance(1, 6) {
				c.N = 0
			}
			x.Chunks = append(x.Chunks, c)
		}
		x.Chunks = append(x.Chunks, Chunk{N: 64 + r.Intn(4096)})
	}
	x.EOF = r.Bool()
}

func (g *maker) fault(x *Exch, ctx bool) {
	r := g.r
	n := len(x.Body)
	if n == 0 {
		return
	}
	at := r.Intn(n)
	switch r.Intn(6) {
	case 0:
		at = 0
	case 1:
		at = n - 1 - r.Intn(min(n, 3))
	case 2:
		if x.End > 0 && x.End <= n {
			at = x.End - 1
		}
	case 3:
		if n > 4096 {
			at = 4096 - 1 + r.Intn(3)
		}
	}
	kinds := []string{"error", "reset", "eof"}
	if ctx {
		kinds = append(kinds, "stall", "stall")
	}
	x.Fault = &Fault{At: at, Kind: core.Pick(r, kinds), Err: errorName(r)}
}

// value fills in an answer with the values of the response parameters.
func (g *maker) value(e *Endpoint, x *Exch) {
	r := g.r
	x.Kind = "value"
	x.Status = core.Pick(r, []int{200, 200, 200, 201, 202, 206, 302, 399})
	gen := &Gen{R: r, Links: true, Fraction: true, Dense: core.Pick(r, []int{1, 2, 3, 5, 8})}
	depth := 2
	if r.Chance(1, 12) {
		gen.Dense = 9
		depth = 4
	}
	d := &Doc{R: r.Fork(), Extra: r.Bool(), Space: r.Bool()}
	var b bytes.Buffer
	if g.prop == "C09" && r.Chance(1, 150) {
		b.WriteString(strings.Repeat(" ", 1<<20+r.Intn(1<<20)))
	}
	d.ws(&b)
	x.Values = map[string]any{}
	switch {
	case e.Method == nil:
		var fs []field
		if r.Chance(4, 5) {
			s := genString(r)
			x.Values["ServerVersion"] = s
			fs = append(fs, field{"server_version", func(b *bytes.Buffer) { d.any(b, s) }})
		}
		d.object(&b, fs)
	case g.v.bodyOut(e.Method) != nil:
		p := g.v.bodyOut(e.Method)
		y := gen.Value(g.v, p.Type, false, depth)
		x.Values[p.Name] = y
		d.Put(&b, g.v, p.Type, false, y)
	default:
		var fs []field
		for _, p := range outs(e.Method) {
			if !r.Chance(5, 6) {
				continue
			}
			y := gen.Value(g.v, p.Type, false, depth)
			x.Values[p.Name] = y
			p := p
			fs = append(fs, field{jsonName(p.Anns, p.Name), func(b *bytes.Buffer) { d.Put(b, g.v, p.Type, false, y) }})
		}
		d.object(&b, fs)
	}
	x.End = b.Len()
	if r.Chance(1, 3) {
		b.WriteString(core.Pick(r, []string{"\n", " ", "\r\n\r\n"}))
	}
	x.Body = b.String()
}

// errorStatus is any status that denotes a failure.
func errorStatus(r *core.Rng) int {
	if r.Chance(1, 3) {
		return 400 + r.Intn(200)
	}
	return core.Pick(r, []int{400, 401, 403, 404, 409, 418, 429, 500, 502, 503, 599, 600, 999})
}

// errorDoc fills in an answer with an error document.
func (g *maker) errorDoc(x *Exch) {
	r := g.r
	x.Kind = "error"
	x.Status = errorStatus(r)
	x.Err = map[string]any{}
	d := &Doc{R: r.Fork(), Extra: r.Bool(), Space: r.Bool()}
	var fs []field
	put := func(name, key string, v any) {
		x.Err[key] = v
		fs = append(fs, field{name, func(b *bytes.Buffer) {
			saved := d.Extra
			d.Extra = false
			d.any(b, v)
			d.Extra = saved
		}})
	}
	if r.Chance(3, 4) {
		fs = append(fs, field{"kind", func(b *bytes.Buffer) { d.any(b, "Error") }})
	}
	if r.Chance(3, 4) {
		put("id", "ID", fmt.Sprint(r.Intn(9000)))
	}
	if r.Chance(1, 2) {
		put("href", "HREF", "/api/errors/"+fmt.Sprint(r.Intn(900)))
	}
	if r.Chance(3, 4) {
		put("code", "Code", core.Pick(r, []string{"CODE-" + genString(r), genString(r), ""}))
	}
	if r.Chance(3, 4) {
		put("reason", "Reason", genString(r))
	}
	if r.Chance(1, 2) {
		put("operation_id", "OperationID", genString(r))
	}
	if r.Chance(1, 2) {
		details := genAny(r, 2)
		if r.Chance(1, 3) {
			details = core.Pick(r, []any{"", false, json.Number("0"), []any{}, map[string]any{}, " "})
		}
		put("details", "Details", details)
	}
	if r.Chance(1, 2) {
		put("timestamp", "Timestamp", genDate(r, true))
	}
	if r.Chance(1, 2) {
		put("status", "Status", json.Number(fmt.Sprint(100+r.Intn(800)))) // the status of the response wins
	}
	var b bytes.Buffer
	d.ws(&b)
	d.object(&b, fs)
	x.End = b.Len()
	if r.Chance(1, 3) {
		b.WriteString("\n")
	}
	x.Body = b.String()
}

func wrongLiteral(r *core.Rng, v *Ver, t mm.TypeRef) string {
	switch {
	case t.List:
		return core.Pick(r, []string{`"x"`, `5`, `true`})
	case t.Map:
		return core.Pick(r, []string{`"x"`, `5`, `[1]`})
	}
	switch t.Name {
	case "Boolean":
		return core.Pick(r, []string{`"x"`, `5`, `[true]`, `{"a":1}`})
	case "Integer", "Long":
		return core.Pick(r, []string{`"x"`, `true`, `[1]`, `{"a":1}`})
	case "Float":
		return core.Pick(r, []string{`"x"`, `true`, `[1]`, `{"a":1}`})
	case "Date":
		return core.Pick(r, []string{`"yesterday"`, `5`, `"2020-13-45T00:00:00Z"`, `""`})
	case "Interface":
		return ""
	case "String":
		return core.Pick(r, []string{`5`, `true`, `["a"]`, `{"a":1}`})
	}
	if d := v.Decl(t.Name); d.Kind == "enum" {
		return core.Pick(r, []string{`5`, `true`, `["a"]`})
	}
	return core.Pick(r, []string{`"x"`, `5`, `[1]`, `true`})
}

// splice adds a field to the first object of the text.
func splice(text, name, lit string) string {
	i := strings.IndexByte(text, '{')
	rest := text[i+1:]
	sep := ","
	if strings.HasPrefix(strings.TrimSpace(rest), "}") {
		sep = ""
	}
	return text[:i+1] + `"` + name + `":` + lit + sep + rest
}

var garbage = []string{"<html><body>Bad gateway</body></html>", "upstream connect error", "{]", `{"a" 1}`, `{"id":"x"`, "}", "\x00\x00\x00\x00", "tru", `,"id":"x"}`, `{"id":"x"null`, `{"id":"x"{"href":"y"}}`, "]", ",1]", `[{"id":"x"}[{}]]`}

// brokenValue fills in an answer that isn't what the method expects.
func (g *maker) brokenValue(e *Endpoint, x *Exch) {
	r := g.r
	g.value(e, x)
	x.Kind = "broken"
	vals := x.Values
	x.Values = nil
	x.End = 0
	list := false
	var t mm.TypeRef
	if e.Method != nil {
		if p := g.v.bodyOut(e.Method); p != nil {
			list = p.Type.List
			t = p.Type
		}
	}
	switch r.Intn(3) {
	case 0:
		x.Body = core.Pick(r, garbage)
		return
	case 1:
		x.Body = core.Pick(r, []string{`"text"`, `5`, `true`, `[1,2]`})
		if list {
			x.Body = core.Pick(r, []string{`"text"`, `5`, `true`, `{"a":1}`})
		}
		return
	}
	// One attribute or parameter with another type.
	switch {
	case e.Method == nil:
		x.Body = splice(x.Body, "server_version", `5`)
	case t.Name != "":
		if list {
			if items, _ := vals[g.v.bodyOut(e.Method).Name].([]any); len(items) == 0 {
				x.Body = "{}"
				return
			}
		}
		g.spliceAttr(x, t.Name)
	default:
		os := outs(e.Method)
		if len(os) == 0 {
			x.Body = "[1]"
			return
		}
		p := core.Pick(r, os)
		lit := wrongLiteral(r, g.v, p.Type)
		if lit == "" {
			x.Body = "[1]"
			return
		}
		x.Body = splice(x.Body, jsonName(p.Anns, p.Name), lit)
	}
}

func (g *maker) spliceAttr(x *Exch, name string) {
	d := g.v.Decl(name)
	for i := 0; i < 10; i++ {
		a := core.Pick(g.r, d.Members)
		if a.Type.List && a.Kind == "link" {
			x.Body = splice(x.Body, jsonName(a.Anns, a.Name), `5`)
			return
		}
		if lit := wrongLiteral(g.r, g.v, a.Type); lit != "" {
			x.Body = splice(x.Body, jsonName(a.Anns, a.Name), lit)
			return
		}
	}
	x.Body = "<html>"
}

// exchange generates what happens with a request.
func (g *maker) exchange(e *Endpoint, ctx bool) *Exch {
	r := g.r
	x := &Exch{Delay: g.delay(), Mutate: r.Chance(1, 3), CErr: r.Chance(1, 10), Len: r.Chance(1, 3)}
	for n := r.Intn(3); n > 0; n-- {
		x.Take = append(x.Take, 1+r.Intn(200))
	}
	x.Late = r.Chance(1, 4)
	weights := map[string][5]int{ // value, empty, broken value, error, broken error
		"C08": {6, 1, 1, 2, 1}, "C09": {10, 1, 0, 0, 0}, "C10": {5, 1, 4, 2, 1}, "C11": {2, 0, 0, 8, 3},
		"C12": {4, 2, 2, 3, 2}, "C13": {6, 1, 1, 2, 0}, "C14": {8, 1, 1, 3, 1}, "C15": {8, 1, 0, 3, 0}, "C16": {8, 1, 1, 2, 0}, "C19": {8, 0, 0, 1, 0}, "C21": {1, 0, 0, 0, 0},
	}[g.prop]
	total := 0
	for _, n := range weights {
		total += n
	}
	k := r.Intn(total)
	kind := 0
	for i, n := range weights {
		if k < n {
			kind = i
			break
		}
		k -= n
	}
	switch kind {
	case 0:
		g.value(e, x)
	case 1:
		x.Kind = "empty"
		x.Status = core.Pick(r, []int{200, 202, 204, 304, 404, 500})
	case 2:
		g.brokenValue(e, x)
		if e.Method != nil && len(outs(e.Method)) == 0 {
			g.value(e, x)
		}
	case 3:
		g.errorDoc(x)
	case 4:
		g.errorDoc(x)
		x.Kind = "broken"
		x.Err = nil
		x.End = 0
		if r.Bool() {
			x.Body = core.Pick(r, garbage)
		} else {
			x.Body = splice(x.Body, core.Pick(r, []string{"id", "code", "reason", "href", "operation_id", "timestamp"}), core.Pick(r, []string{`5`, `true`, `[1]`}))
			if r.Chance(1, 4) {
				x.Body = splice(x.Body, "timestamp", core.Pick(r, []string{`"yesterday"`, `""`, `"2020-13-45T00:00:00Z"`, `"2020-01-02"`, `"1600000000"`}))
			}
		}
	}
	if r.Chance(1, 2) {
		x.Header = append(x.Header, [2]string{"Content-Type", core.Pick(r, []string{"application/json", "application/json; charset=utf-8", "text/plain", "text/html", "application/problem+json", ""})})
	}
	for n := r.Intn(3); n > 0; n-- {
		x.Header = append(x.Header, [2]string{core.Pick(r, []string{"X-Request-Id", "Content-Type", "ETag", "Set-Cookie"}), fmt.Sprintf("v%d", r.Intn(10000))})
	}
	g.chunks(x)
	odds := map[string][2]int{"C08": {3, 2}, "C09": {0, 0}, "C10": {3, 8}, "C11": {0, 3}, "C12": {2, 6}, "C13": {1, 3}, "C14": {1, 2}, "C15": {1, 1}, "C16": {2, 3}, "C19": {0, 0}, "C21": {1, 0}}[g.prop]
	if r.Chance(odds[0], 16) {
		x.TErr = core.Pick(r, []string{"connection refused", "eof", "unexpected", "url", "no such host", "closed", "timeout", "econnreset", "noprogress", "handler"})
	} else if r.Chance(odds[1], 16) {
		g.fault(x, ctx)
	}
	return x
}

// op generates one send.
func (g *maker) op(i int, e *Endpoint, r0 *Req) *Op {
	r := g.r
	o := &Op{Kind: "send", Req: i, Cancel: -1}
	ctx := false
	odds := map[string]int{"C13": 12, "C16": 4, "C12": 4, "C10": 3, "C08": 3}[g.prop]
	if r.Chance(odds, 16) {
		ctx = true
	} else if r.Chance(1, 4) {
		o.How = core.Pick(r, []string{"send", "nil"})
	}
	o.Plain = r.Bool()
	x := g.exchange(e, ctx)
	if g.prop == "C21" {
		x = &Exch{Delay: x.Delay, Mutate: x.Mutate, CErr: x.CErr, Len: x.Len, Take: x.Take, Chunks: x.Chunks, EOF: x.EOF, TErr: x.TErr}
		g.served(e, r0, x)
	}
	o.Ex = []*Exch{x}
	if ctx {
		g.ctx(o, x)
	}
	return o
}

// ctx ends the context of the operation at an interesting moment.
func (g *maker) ctx(o *Op, x *Exch) {
	r := g.r
	total := x.Delay
	if x.TErr == "" {
		pos := 0
		for i := 0; pos < len(x.Body) && len(x.Chunks) > 0 && i < maxChunks; i++ {
			c := x.Chunks[i%len(x.Chunks)]
			total += c.D
			pos += c.N
			if c.N == 0 {
				pos++
			}
		}
	}
	at := int64(0)
	switch r.Intn(6) {
	case 0:
		at = 0
	case 1:
		at = x.Delay
	case 2:
		at = total
	case 3:
		at = total + 1 + int64(r.Intn(1000))*ms
	default:
		at = int64(r.Next() % uint64(total+2))
	}
	if r.Bool() && at > 0 {
		o.Limit = at
	} else {
		o.Cancel = at
	}
	if r.Chance(1, 4) && o.Limit == 0 {
		o.Limit = at + int64(r.Intn(100))*ms + 1
	}
}

// calls generates a scenario with sends.
func (g *maker) calls(sc *Scenario) {
	r := g.r
	tasks := 1
	if g.prop == "C16" || g.prop == "C21" && r.Bool() {
		tasks = 2 + r.Intn(3)
	} else if r.Chance(1, 3) {
		tasks = 2
	}
	owner := map[int]int{}    // which task created a request object
	several := map[int]bool{} // request objects used by several tasks
	private := map[int]bool{} // request objects that their task changes between sends
	eff := map[int]*Req{}
	for t := 0; t < tasks; t++ {
		var ops []*Op
		n := 1 + r.Intn(3)
		for k := 0; k < n; k++ {
			i := -1
			if len(sc.Reqs) > 0 && (r.Chance(1, 2) || (g.prop == "C08" && k > 0)) {
				i = r.Intn(len(sc.Reqs)) // send one of the existing request objects again
				for private[i] && owner[i] != t {
					i = (i + 1) % len(sc.Reqs)
					if i == 0 {
						break
					}
				}
			}
			if i >= 0 && private[i] && owner[i] != t {
				i = -1
			}
			var change *Req
			if i >= 0 {
				if owner[i] != t {
					several[i] = true
				} else if !several[i] && r.Chance(1, 3) {
					change = g.change(g.v.endpoint(sc.Reqs[i]))
					private[i] = true
				}
				if sc.Reqs[i].Lazy && owner[i] != t {
					sc.Reqs[i].Lazy = false
				}
			} else {
				e := core.Pick(r, g.eps)
				q := g.request(e)
				q.Lazy = r.Bool()
				i = len(sc.Reqs)
				sc.Reqs = append(sc.Reqs, q)
				eff[i] = q
				owner[i] = t
			}
			e := g.v.endpoint(sc.Reqs[i])
			if r.Chance(1, 5) {
				ops = append(ops, &Op{Kind: "wait", Wait: g.delay(), Cancel: -1})
			}
			eff[i] = eff[i].with(change)
			o := g.op(i, e, eff[i])
			o.Change = change
			ops = append(ops, o)
		}
		sc.Tasks = append(sc.Tasks, ops)
	}
	if tasks > 1 {
		sc.Yield = core.Pick(r, []int{0, 30, 150, 500})
	}
}

// polls generates a scenario with polls.
func (g *maker) polls(sc *Scenario) {
	r := g.r
	var eps []*Endpoint
	for _, e := range g.eps {
		if e.Method != nil && e.Method.Name == "Get" {
			eps = append(eps, e)
		}
	}
	if len(eps) == 0 {
		return
	}
	tasks := 1
	if r.Chance(1, 3) {
		tasks = 2
	}
	for t := 0; t < tasks; t++ {
		e := core.Pick(r, eps)
		q := g.request(e)
		q.User = ""
		p := &Poll{Interval: int64(1+r.Intn(20000)) * ms, Preds: preds(r)}
		for n := r.Intn(3); n > 0; n-- {
			p.Statuses = append(p.Statuses, core.Pick(r, []int{200, 201, 202, 404, 503, 302}))
		}
		if r.Chance(1, 15) {
			p.Interval = core.Pick(r, []int64{0, -1, -ms})
		}
		q.Poll = p
		i := len(sc.Reqs)
		sc.Reqs = append(sc.Reqs, q)
		ops := []*Op{g.poll(i, e, p)}
		for r.Chance(1, 3) && len(ops) < 3 {
			// The same request object is used for another poll.
			if r.Bool() {
				ops = append(ops, &Op{Kind: "wait", Wait: g.delay(), Cancel: -1})
			}
			o := g.poll(i, e, p)
			if r.Bool() {
				o.Change = g.change(e)
			}
			ops = append(ops, o)
		}
		sc.Tasks = append(sc.Tasks, ops)
	}
	if tasks > 1 {
		sc.Yield = core.Pick(r, []int{0, 30, 150})
	}
}

// poll generates one poll.
func (g *maker) poll(i int, e *Endpoint, p *Poll) *Op {
	r := g.r
	o := &Op{Kind: "poll", Req: i, Cancel: -1}
	n := 1 + r.Intn(6)
	total := int64(0)
	for k := 0; k < n; k++ {
		x := g.exchange(e, true)
		if k+1 < n {
			x.TErr = ""
			if x.Fault != nil && r.Chance(2, 3) {
				x.Fault = nil
			}
		}
		x.Delay %= 30000 * ms
		for j := 0; j < p.Preds; j++ {
			x.Preds = append(x.Preds, r.Chance(1+2*((k+1)/n), 3))
		}
		if r.Chance(1, 6) {
			x.PredDelay = int64(r.Intn(5000)) * ms
		}
		if g.prop == "C12" && p.Preds > 0 && r.Chance(1, 4) {
			x.PredPanic = true
		}
		if k+1 < n && x.Kind != "broken" && r.Chance(1, 2) {
			x.Status = core.Pick(r, []int{200, 202, 500, 404, 201, 503, 500 + r.Intn(12), 400 + r.Intn(30)})
			if (x.Status >= 400) != (x.Kind == "error") {
				if status := x.Status; status >= 400 {
					g.errorDoc(x)
					x.Status = status
				} else if x.Kind == "error" {
					x.Status = 404
				}
			}
		}
		total += x.Delay + p.Interval + x.PredDelay
		o.Ex = append(o.Ex, x)
	}
	if total <= 0 {
		total = ms
	}
	switch r.Intn(8) {
	case 0:
		if p.Interval > 0 {
			o.Limit = 1 + int64(r.Next()%uint64(p.Interval*2+1))
		} else {
			o.Limit = 1000 * ms
		}
	case 1:
		if r.Chance(1, 2) {
			o.Limit = 0
		} else {
			o.Limit = total
		}
	case 2, 3:
		o.Limit = 1 + int64(r.Next()%uint64(total*2))
	default:
		o.Limit = total*3 + 100000*ms
	}
	if most := total + 20*max(p.Interval, ms); o.Limit > most {
		o.Limit = most
	}
	if o.Limit > int64(800)*3600*1000*ms {
		o.Limit = int64(800) * 3600 * 1000 * ms
	}
	if r.Chance(1, 5) {
		o.Cancel = int64(r.Next() % uint64(total+1))
	}
	if o.Limit == 0 && o.Cancel < 0 {
		for _, x := range o.Ex { // it should be refused; don't hang if it isn't
			if x.Fault != nil && x.Fault.Kind == "stall" {
				x.Fault.Kind = "error"
			}
		}
	}
	return o
}

// Generate makes one scenario.
func Generate(models []*ModelSpec, prop string, seed uint64) *Scenario {
	r := core.NewRng(seed)
	spec := models[0]
	if len(models) > 1 && r.Chance(1, 2) {
		spec = models[1+r.Intn(len(models)-1)]
	}
	vs := spec.Versions()
	v := core.Pick(r, vs)
	if spec.Name == "m0" && r.Chance(2, 3) {
		v = vs[0]
	}
	sc := &Scenario{Prop: prop, Model: spec.Name, Svc: v.Svc.Name, Ver: v.V.Name, Seed: r.Next(), Hash: r.Next()}
	g := &maker{r: r, v: v, prop: prop, eps: v.Endpoints(4)}
	switch prop {
	case "C14", "C15":
		g.polls(sc)
	case "C08", "C12", "C13", "C16":
		if r.Chance(1, 4) {
			g.polls(sc)
		} else {
			g.calls(sc)
		}
	case "C17", "C18":
		g.codec(sc)
	case "C19":
		g.history(sc)
	case "C20":
		g.sends(sc)
	default:
		g.calls(sc)
	}
	return sc
}

// preds is the number of predicates of a poll.
func preds(r *core.Rng) int {
	if r.Chance(1, 6) {
		return 3 + r.Intn(4)
	}
	return r.Intn(3)
}
