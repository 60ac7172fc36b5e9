package clientsim

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"net/http"
	"net/url"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"verif/sim/internal/core"
	"verif/sim/internal/mm"
)

// Serve is a server that uses the generated code to understand the request and to write the answer (C21).
type Serve struct {
	Dup    string  `json:"dup,omitempty"`    // a proxy repeats this parameter
	Garble string  `json:"garble,omitempty"` // a parameter that arrives with another text
	Text   string  `json:"text,omitempty"`
	Before int     `json:"before,omitempty"` // slashes added to the path
	After  int     `json:"after,omitempty"`
	Source string  `json:"source,omitempty"` // how the body is read: reader, bytes, string, iterator
	Chunks []Chunk `json:"chunks,omitempty"`
	EOF    bool    `json:"eof,omitempty"`
	Lost   *Fault  `json:"lost,omitempty"` // the body of the request doesn't arrive completely; At is in thousandths
	How    string  `json:"how,omitempty"`  // value, or which of the helpers sends the answer
}

var parsers = map[string]string{"Boolean": "ParseBoolean", "Integer": "ParseInteger", "Long": "ParseInteger", "Float": "ParseFloat", "String": "ParseString", "Date": "ParseDate"}

func (v *Ver) parser(t mm.TypeRef) string {
	if t.List || t.Map {
		return ""
	}
	if p, ok := parsers[t.Name]; ok {
		return p
	}
	if d := v.Decl(t.Name); d != nil && d.Kind == "enum" {
		return "ParseString"
	}
	return ""
}

func (w *run) helper(name string) reflect.Value {
	f, ok := foldAll(w.b.Reg["helpers"])[fold(name)]
	if !ok {
		fail("no function %s in the helpers package", name)
	}
	return f
}

// partOf tells how a parameter is read or written with the generated functions.
func (v *Ver) partOf(t mm.TypeRef) (Part, bool) {
	if t.Map || v.isScalar(mm.TypeRef{Name: t.Name}) {
		return Part{}, false
	}
	if d := v.Decl(t.Name); d == nil || d.Kind == "enum" || strings.Contains(t.Name, "/") {
		return Part{}, false
	}
	if t.List && !v.listed(t.Name) {
		return Part{}, false
	}
	return Part{Type: t.Name, List: t.List}, true
}

// serve is the server: it reads the request with the generated code, and gives the answer that it wrote with it.
func (w *run) serve(c *call, x *exchange, spec *Exch) *Exch {
	t := w.s.current()
	out := *spec
	out.Header = append([][2]string{}, spec.Header...)
	who := "the server of " + w.describe(c)
	gen := func(f func()) { // generated code
		t.in--
		defer func() {
			if r := recover(); r != nil {
				t.in = 0
				b := panicked(r, string(debug.Stack()))
				w.bad(sayBad(b.class, "%s: %s", who, b.text))
			}
			t.in++
		}()
		f()
	}
	e, r, s := w.eps[c.spec.Req], c.req, spec.Serve
	w.serveQuery(gen, who, e, r, s, x)
	path := strings.Repeat("/", s.Before) + x.url.Path + strings.Repeat("/", s.After)
	gen(func() {
		got := w.helper("Segments").Call([]reflect.Value{reflect.ValueOf(path)})[0].Interface().([]string)
		want := strings.Split(strings.Trim(w.wantPath(e, r), "/"), "/")
		if strings.Join(got, "\x00") != strings.Join(want, "\x00") {
			w.bad(sayBad("segments", "%s: the segments of %q are %q instead of %q", who, path, got, want))
		}
	})
	w.serveBody(gen, who, e, r, s, x)
	w.respond(gen, who, e, s, c, &out)
	if f := out.Fault; f != nil {
		f2 := *f
		f2.At = f.At % max(1, len(out.Body))
		out.Fault = &f2
		if len(out.Body) == 0 {
			out.Fault = nil
		}
	}
	return &out
}

func (w *run) serveQuery(gen func(func()), who string, e *Endpoint, r *Req, s *Serve, x *exchange) {
	if e.Method == nil || isAction(e.Method) {
		return
	}
	query, err := url.ParseQuery(x.url.RawQuery)
	if err != nil {
		w.bad(sayBad("query", "%s: the query can't be parsed: %v", who, err))
		return
	}
	for _, p := range ins(e.Method) {
		fn := w.b.V.parser(p.Type)
		if fn == "" {
			continue
		}
		name := queryName(p.Anns, p.Name)
		want, given := r.Params[p.Name]
		wrong := ""
		if given && s.Dup == p.Name {
			query[name] = append(query[name], query[name]...)
			wrong = "twice"
			w.count("repeated parameter")
		} else if given && s.Garble == p.Name && fn != "ParseString" {
			query[name] = []string{s.Text}
			wrong = fmt.Sprintf("as %q", s.Text)
			w.count("malformed parameter")
		}
		var res []reflect.Value
		gen(func() {
			res = w.helper(fn).Call([]reflect.Value{reflect.ValueOf(query), reflect.ValueOf(name)})
		})
		if res == nil {
			return
		}
		err, _ := res[1].Interface().(error)
		what := fmt.Sprintf("%s: %s of parameter '%s'", who, fn, name)
		w.used = true
		switch {
		case wrong != "":
			if err == nil {
				w.bad(sayBad("accepted", "%s accepts it, but it arrived %s", what, wrong))
			}
		case err != nil:
			w.bad(sayBad("refused", "%s fails: %v", what, err))
		case !given:
			if !res[0].IsNil() {
				w.bad(sayBad("invented", "%s gives %v, but the caller gave no value", what, res[0].Elem().Interface()))
			}
		case res[0].IsNil():
			w.bad(sayBad("lost", "%s gives nothing, but the caller gave %s", what, short(want)))
		default:
			got := res[0].Elem().Interface()
			if !sameParam(p.Type, want, got) {
				w.bad(sayBad("parameter", "%s gives %v instead of %s", what, got, short(want)))
			}
			w.notes["parameters"]++
		}
	}
}

func sameParam(t mm.TypeRef, want, got any) bool {
	switch v := got.(type) {
	case bool:
		return want == v
	case int:
		n, ok := want.(json.Number)
		return ok && string(n) == fmt.Sprint(v)
	case float64:
		n, ok := want.(json.Number)
		if t, special := want.(string); special {
			n, ok = json.Number(t), true // not a number, or an infinity
		}
		if !ok {
			return false
		}
		f, err := num(n)
		return err == nil && (f == v || (math.IsNaN(f) && math.IsNaN(v)))
	case string:
		return want == v
	case time.Time:
		s, _ := want.(string)
		d, err := time.Parse(time.RFC3339, s)
		return err == nil && d.Equal(v)
	}
	return false
}

func (w *run) serveBody(gen func(func()), who string, e *Endpoint, r *Req, s *Serve, x *exchange) {
	if e.Method == nil {
		return
	}
	bp := w.b.V.bodyIn(e.Method)
	if bp == nil {
		return
	}
	p, ok := w.b.V.partOf(bp.Type)
	if !ok {
		return
	}
	cd := &Codec{Text: string(x.body), Source: s.Source, Chunks: s.Chunks, EOF: s.EOF}
	end := len(strings.TrimRight(cd.Text, " \r\n\t"))
	if s.Lost != nil && len(cd.Text) > 0 && s.Source != "bytes" && s.Source != "string" {
		cd.Fault = &Fault{Kind: s.Lost.Kind, At: s.Lost.At * end / 1000, Err: s.Lost.Err}
	}
	var src reflect.Value
	var rd *source
	switch s.Source {
	case "bytes":
		src = reflect.ValueOf([]byte(cd.Text))
	case "string":
		src = reflect.ValueOf(cd.Text)
	default:
		rd = &source{w: w, spec: cd}
		src = reflect.ValueOf(rd)
	}
	var v reflect.Value
	var err error
	done := false
	gen(func() {
		if s.Source == "iterator" {
			src = w.helper("NewIterator").Call([]reflect.Value{src})[0]
		}
		v, err = w.unmarshal(&p, src)
		done = true
	})
	if !done {
		return
	}
	w.used = true
	what := fmt.Sprintf("%s: reading the %s of the request", who, p.name())
	if cd.Fault != nil && cd.Fault.At < end {
		w.count("incomplete request")
		if err == nil {
			w.bad(sayBad("partial", "%s: no error, but only %d of its %d bytes arrived", what, cd.Fault.At, end))
		} else if rd.err != nil && rd.err != io.EOF && !errors.Is(err, rd.err) && !strings.Contains(err.Error(), rd.err.Error()) {
			w.bad(sayBad("other", "%s: the error is '%v' but the connection failed with '%v'", what, err, rd.err))
		}
		return
	}
	if err != nil {
		w.bad(sayBad("unreadable", "%s fails: %v", what, err))
		return
	}
	if d := w.diffPart(&p, r.Params[bp.Name], w.tree(&p, v), false); d != "" {
		w.bad(sayBad("body", "%s gives something else than the caller gave: %s", what, d))
	}
	w.notes["bodies"]++
}

// respond writes the answer.
func (w *run) respond(gen func(func()), who string, e *Endpoint, s *Serve, c *call, out *Exch) {
	switch s.How {
	case "value":
	case "":
		return
	default:
		w.respondError(gen, who, s, out)
		return
	}
	var text bytes.Buffer
	put := func(t mm.TypeRef, x any) {
		p, ok := w.b.V.partOf(t)
		if !ok {
			d := &Doc{R: core.NewRng(1)}
			d.Put(&text, w.b.V, t, false, x)
			return
		}
		p.Value = x
		o := w.object(&p)
		dst := &sink{w: w, chunks: s.Chunks}
		var err error
		gen(func() { err = w.marshal(&p, o, dst) })
		if err != nil {
			w.bad(sayBad("unwritable", "%s: writing a %s fails: %v", who, p.name(), err))
		}
		text.Write(dst.got)
	}
	switch {
	case e.Method == nil:
		return
	case w.b.V.bodyOut(e.Method) != nil:
		p := w.b.V.bodyOut(e.Method)
		put(p.Type, out.Values[p.Name])
	default:
		text.WriteString("{")
		n := 0
		for _, p := range outs(e.Method) {
			y, ok := out.Values[p.Name]
			if !ok {
				continue
			}
			if n > 0 {
				text.WriteString(",")
			}
			n++
			fmt.Fprintf(&text, "%q:", jsonName(p.Anns, p.Name))
			put(p.Type, y)
		}
		text.WriteString("}")
	}
	out.Body = text.String()
	out.End = len(strings.TrimRight(out.Body, " \r\n\t"))
	w.used = true
}

func (w *run) respondError(gen func(func()), who string, s *Serve, out *Exch) {
	send := &Send{How: s.How, Chunks: s.Chunks}
	a := &answer{w: w, spec: send, header: http.Header{}}
	a.out = sink{w: w, chunks: s.Chunks}
	args := []reflect.Value{reflect.ValueOf(a), reflect.ValueOf(&http.Request{Method: "GET", URL: &url.URL{Path: "/x"}, Header: http.Header{}})}
	p := &Part{Type: "#error", Value: out.Err}
	if s.How == "error" {
		args = append(args, w.object(p))
	}
	gen(func() { w.errFn(sendNames[s.How]).Call(args) })
	if len(a.codes) != 1 {
		w.bad(sayBad("answer", "%s: %s sends statuses %v", who, sendNames[s.How], a.codes))
		return
	}
	if a.over || a.length >= 0 && a.length != len(a.out.got) {
		w.bad(sayBad("answer", "%s: %s declares %d bytes, but sends %d", who, sendNames[s.How], a.length, len(a.out.got)))
		return
	}
	got, err := w.fromDoc(p, a.out.got)
	if err != nil {
		w.bad(sayBad("answer", "%s: %s sends something that isn't an error document: %v", who, sendNames[s.How], err))
		return
	}
	if s.How != "error" {
		out.Err = got.(tree)
		delete(out.Err, "Status")
	}
	out.Kind = "error"
	out.Status = a.codes[0]
	out.Body = string(a.out.got)
	out.End = len(strings.TrimRight(out.Body, " \r\n\t"))
	var names []string
	for k := range a.sent {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		for _, v := range a.sent[k] {
			out.Header = append(out.Header, [2]string{k, v})
		}
	}
	w.used = true
	w.notes["errors sent"]++
}

// served generates an exchange with such a server.
func (g *maker) served(e *Endpoint, q *Req, x *Exch) {
	r := g.r
	s := &Serve{Before: r.Intn(3), After: r.Intn(3), EOF: r.Bool(), Source: core.Pick(r, []string{"", "", "", "bytes", "string", "iterator"})}
	x.Serve = s
	x.Late = false
	y := &Exch{}
	g.chunks(y)
	s.Chunks = y.Chunks
	if len(s.Chunks) > 0 && r.Bool() {
		s.Chunks = []Chunk{{N: 1 + r.Intn(100)}}
	}
	if e.Method != nil && !isAction(e.Method) {
		var names, typed []string
		for _, p := range ins(e.Method) {
			if _, ok := q.Params[p.Name]; ok && g.v.parser(p.Type) != "" {
				names = append(names, p.Name)
				if f := g.v.parser(p.Type); f != "ParseString" {
					typed = append(typed, p.Name)
				}
			}
		}
		if len(names) > 0 && r.Chance(1, 5) {
			s.Dup = core.Pick(r, names)
		} else if len(typed) > 0 && r.Chance(1, 3) {
			s.Garble = core.Pick(r, typed)
			for _, p := range ins(e.Method) {
				if p.Name == s.Garble {
					s.Text = core.Pick(r, map[string][]string{
						"ParseBoolean": {"", "yes", "tRue", "2", "true ", "on", "null"},
						"ParseInteger": {"", "x", "1.5", "9223372036854775808", "1 ", "0x10", "1e3", "null", "--1", "1_000"},
						"ParseFloat":   {"", "x", "1,5", "1.5 ", "null", "--1"},
						"ParseDate":    {"", "2020-01-01", "2020-01-01T00:00:00", "now", "1577836800", "2020-13-01T00:00:00Z", "2020-01-01 00:00:00Z"},
					}[g.v.parser(p.Type)])
				}
			}
		}
	}
	if r.Chance(1, 5) {
		s.Lost = &Fault{At: core.Pick(r, []int{0, 999, r.Intn(1000), r.Intn(1000)}), Kind: core.Pick(r, []string{"error", "reset", "eof"}), Err: errorName(r)}
	}
	switch {
	case r.Chance(1, 4):
		s.How = core.Pick(r, []string{"error", "error", "error", "notfound", "method", "internal", "panic"})
		g.errorDoc(x)
		delete(x.Err, "Status")
		x.Status = errorStatus(r)
		x.Err["ID"] = fmt.Sprint(x.Status)
	case e.Method != nil && len(outs(e.Method)) > 0:
		s.How = "value"
		x.Kind = "value"
		x.Status = core.Pick(r, []int{200, 200, 200, 201, 202})
		gen := &Gen{R: r, Dense: core.Pick(r, []int{1, 2, 3, 5, 8})}
		x.Values = map[string]any{}
		bo := g.v.bodyOut(e.Method)
		for _, p := range outs(e.Method) {
			if p == bo || bo == nil && r.Chance(5, 6) {
				x.Values[p.Name] = gen.Value(g.v, p.Type, false, 2)
			}
		}
	default:
		g.value(e, x)
	}
	if r.Chance(1, 6) {
		x.Fault = &Fault{At: r.Intn(100000), Kind: core.Pick(r, []string{"error", "reset", "eof"})}
	}
}
