package clientsim

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
	"time"

	"verif/sim/internal/core"
	"verif/sim/internal/mm"
)

// source is a simulated reader.
type source struct {
	w     *run
	spec  *Codec
	pos   int
	chunk int
	zero  int
	err   error
}

func (b *source) limit() int {
	if f := b.spec.Fault; f != nil && f.At < len(b.spec.Text) {
		return f.At
	}
	return len(b.spec.Text)
}

// Read gives the next bytes.
func (b *source) Read(p []byte) (int, error) {
	s := b.w.s
	if t := s.current(); t != nil {
		t.in++
		defer func() { t.in-- }()
	}
	if b.err != nil {
		return 0, b.err
	}
	c := Chunk{N: len(p)}
	if len(b.spec.Chunks) > 0 && b.chunk < maxChunks {
		c = b.spec.Chunks[b.chunk%len(b.spec.Chunks)]
		b.chunk++
	}
	s.park("read", time.Duration(c.D), nil)
	limit := b.limit()
	n := min(c.N, len(p), limit-b.pos)
	if n == 0 && limit > b.pos && len(p) > 0 {
		b.zero++
		b.w.count("empty read")
		if b.zero < 20 {
			return 0, nil
		}
		n = 1
	}
	b.zero = 0
	copy(p, b.spec.Text[b.pos:b.pos+n])
	if n < limit-b.pos {
		b.w.count("partial read")
	}
	b.pos += n
	if b.pos < limit || (n > 0 && !b.spec.EOF) {
		return n, nil
	}
	if f := b.spec.Fault; f != nil {
		b.w.count("read " + f.Kind)
		switch f.Kind {
		case "error":
			b.err = namedError(f.Err, "input/output error")
		case "reset":
			b.err = io.ErrUnexpectedEOF
		default:
			b.err = io.EOF
		}
	} else {
		if b.spec.EOF {
			b.w.count("end with data")
		}
		b.err = io.EOF
	}
	return n, b.err
}

// sink is a simulated writer.
type sink struct {
	w      *run
	chunks []Chunk
	fault  *Fault
	got    []byte
	err    error
	writes int
	after  int // writes after a failure
}

// Write takes the bytes.
func (b *sink) Write(p []byte) (int, error) {
	s := b.w.s
	if t := s.current(); t != nil {
		t.in++
		defer func() { t.in-- }()
	}
	if b.err != nil {
		b.after++
	}
	d := int64(0)
	if len(b.chunks) > 0 {
		d = b.chunks[b.writes%len(b.chunks)].D
	}
	b.writes++
	s.park("write", time.Duration(d), nil)
	f := b.fault
	if f != nil && len(b.got)+len(p) > f.At && (b.err == nil || !strings.HasSuffix(f.Kind, "once")) {
		n := 0
		if strings.HasPrefix(f.Kind, "short") {
			n = max(0, f.At-len(b.got))
		}
		b.got = append(b.got, p[:n]...)
		b.err = namedError(f.Err, "no space left on device")
		b.w.count("write " + f.Kind)
		return n, b.err
	}
	b.got = append(b.got, p...)
	return len(p), nil
}

// result of one part.
type result struct {
	err   error
	value any
	isNil bool
	skip  bool
}

func (p *Part) ref() mm.TypeRef { return mm.TypeRef{Name: p.Type, List: p.List} }

func (p *Part) name() string {
	if p.List {
		return "list of " + p.Type
	}
	return p.Type
}

// unmarshal calls the read function of a type.
func (w *run) unmarshal(p *Part, src reflect.Value) (reflect.Value, error) {
	var f reflect.Value
	args := []reflect.Value{src}
	switch {
	case p.Type == "#error" && p.Status != 0:
		f = w.errFn("UnmarshalErrorStatus")
		args = append(args, reflect.ValueOf(p.Status))
	case p.Type == "#error":
		f = w.errFn("UnmarshalError")
	case p.Type == "#metadata":
		f = w.b.fn("UnmarshalMetadata")
	case p.List:
		f = w.b.fnOf(p.Type, "Unmarshal", "List")
	default:
		f = w.b.fnOf(p.Type, "Unmarshal", "")
	}
	out := f.Call(args)
	err, _ := out[1].Interface().(error)
	return out[0], err
}

func (w *run) errFn(name string) reflect.Value {
	f, ok := w.b.Errs[fold(name)]
	if !ok {
		fail("no function %s in the errors package", name)
	}
	return f
}

// tree reads a value.
func (w *run) tree(p *Part, v reflect.Value) any {
	switch p.Type {
	case "#error":
		out, b := w.errorFields(v.Interface())
		if b != nil {
			wrong("%s", b.text)
		}
		return out
	case "#metadata":
		out := tree{}
		if x, ok := getter(v, "ServerVersion"); ok {
			out["ServerVersion"] = x.String()
		}
		return out
	}
	return w.b.FromGo(p.ref(), false, v)
}

func (w *run) diffPart(p *Part, want, got any, links bool) string {
	switch p.Type {
	case "#error":
		x, _ := want.(tree)
		if p.Status != 0 {
			x = Clone(x).(tree)
			x["Status"] = mmNumber(p.Status)
		}
		y, _ := got.(tree)
		return diffError(x, y)
	case "#metadata":
		if sameAny(want, got) {
			return ""
		}
		return fmt.Sprintf("%s instead of %s", short(got), short(want))
	}
	return Diff(w.b.V, p.ref(), false, want, got, links)
}

// fromDoc interprets a JSON document strictly as a value.
func (w *run) fromDoc(p *Part, doc []byte) (any, error) {
	x, err := ParseJSON(doc)
	if err != nil {
		return nil, err
	}
	switch p.Type {
	case "#error", "#metadata":
		o, ok := x.(tree)
		if !ok {
			return nil, fmt.Errorf("it is a %T", x)
		}
		names := map[string]string{"status": "Status", "id": "ID", "href": "HREF", "code": "Code", "reason": "Reason", "operation_id": "OperationID", "details": "Details", "timestamp": "Timestamp"}
		if p.Type == "#metadata" {
			names = map[string]string{"server_version": "ServerVersion"}
		}
		out := tree{}
		for _, k := range sorted(o) {
			if k == "kind" && p.Type == "#error" {
				if o[k] != "Error" {
					return nil, fmt.Errorf("kind is %v", o[k])
				}
				continue
			}
			if names[k] == "" {
				return nil, fmt.Errorf("unknown field '%s'", k)
			}
			out[names[k]] = o[k]
		}
		return out, nil
	}
	return FromJSON(w.b.V, p.ref(), false, x)
}

// object makes the value with builders.
func (w *run) object(p *Part) reflect.Value {
	switch {
	case p.Type == "#error":
		bld := w.errFn("NewError").Call(nil)[0]
		for _, k := range sorted(p.Value.(tree)) {
			w.setError(bld, k, p.Value.(tree)[k])
		}
		return Build(bld)
	case p.List:
		in := w.b.fnOf(p.Type, "Marshal", "List").Type().In(0)
		return w.b.ToGo(p.ref(), false, p.Value, in)
	}
	return Build(w.b.Builder(p.Type, p.Value))
}

func (w *run) setError(bld reflect.Value, k string, x any) {
	f := must(bld, k)
	switch k {
	case "Status":
		f.Call([]reflect.Value{w.b.scalar(mm.TypeRef{Name: "Integer"}, x, f.Type().In(0))})
	case "Details":
		f.Call([]reflect.Value{w.b.scalar(mm.TypeRef{Name: "Interface"}, x, f.Type().In(0))})
	case "Timestamp":
		d, err := time.Parse(time.RFC3339, x.(string))
		if err != nil {
			fail("timestamp %v", x)
		}
		f.Call([]reflect.Value{reflect.ValueOf(&d)})
	default:
		f.Call([]reflect.Value{reflect.ValueOf(x)})
	}
}

// marshal calls the write function of a type.
func (w *run) marshal(p *Part, v reflect.Value, out io.Writer) error {
	var f reflect.Value
	switch {
	case p.Type == "#error":
		f = w.errFn("MarshalError")
	case p.Type == "#metadata":
		f = w.b.fn("MarshalMetadata")
	case p.List:
		f = w.b.fnOf(p.Type, "Marshal", "List")
	default:
		f = w.b.fnOf(p.Type, "Marshal", "")
	}
	err, _ := f.Call([]reflect.Value{v, reflect.ValueOf(out)})[0].Interface().(error)
	return err
}

// read performs the reads of an item and checks what they return.
func (w *run) read(t *task, c *Codec) {
	var src reflect.Value
	var rd *source
	switch c.Source {
	case "bytes":
		src = reflect.ValueOf([]byte(c.Text))
	case "string":
		src = reflect.ValueOf(c.Text)
	default:
		rd = &source{w: w, spec: c}
		src = reflect.ValueOf(rd)
		if c.Source == "iterator" {
			f, ok := foldAll(w.b.Reg["helpers"])["newiterator"]
			if !ok {
				fail("no function NewIterator")
			}
			out := f.Call([]reflect.Value{src})
			if !out[1].IsNil() {
				w.bad(sayBad("iterator", "an iterator can't be created: %v", out[1].Interface()))
				return
			}
			src = out[0]
		}
	}
	for i := range c.Parts {
		p := &c.Parts[i]
		v, err := w.unmarshal(p, src)
		limit := len(c.Text)
		if rd != nil {
			limit = rd.limit()
		}
		what := fmt.Sprintf("reading a %s from a %s (value %d of %d)", p.name(), orReader(c.Source), i+1, len(c.Parts))
		w.used = true
		if isNilErr(err) != (err == nil) {
			w.bad(sayBad("nilerror", "%s: the error is a nil pointer", what))
			return
		}
		w.s.note(t, "%s: %v", what, err)
		w.keys = append(w.keys, fmt.Sprint(p.name(), err == nil))
		switch {
		case c.Broken:
			if err == nil {
				w.bad(sayBad("broken", "%s: no error, but the text isn't such a value: %s", what, short(c.Text)))
			}
			w.notes["broken text"]++
			return
		case p.End > limit:
			if err == nil {
				w.bad(sayBad("partial", "%s: no error, but only %d of the %d bytes were delivered before %v", what, rd.pos, p.End, rd.err))
				return
			}
			if rd.err != io.EOF && rd.err != nil && !errors.Is(err, rd.err) && !strings.Contains(err.Error(), rd.err.Error()) {
				w.bad(sayBad("other", "%s: the error is '%v' but the reader failed with '%v'", what, err, rd.err))
			}
			w.notes["incomplete text"]++
			return
		case err != nil:
			if rd != nil && c.Fault != nil && rd.err != nil {
				return
			}
			w.bad(sayBad("spurious", "%s fails: %v", what, err))
			return
		}
		got := w.tree(p, v)
		if d := w.diffPart(p, p.Value, got, true); d != "" {
			w.bad(sayBad("value", "%s gives something else: %s", what, d))
			return
		}
		w.s.digest = core.MixStr(w.s.digest, fmt.Sprint(got))
		w.notes["complete text"]++
	}
}

func orReader(s string) string {
	if s == "" {
		return "reader"
	}
	return s
}

// bad records a violation found by a task.
func (w *run) bad(b *bad) {
	if w.found == nil {
		w.found = b
	}
}

// write performs the write of an item and checks it.
func (w *run) write(t *task, c *Codec) {
	p := &c.Parts[0]
	var v reflect.Value
	if c.Decode {
		var err error
		v, err = w.unmarshal(p, reflect.ValueOf(c.Text))
		if err != nil {
			w.bad(sayBad("decode", "reading a %s fails: %v", p.name(), err))
			return
		}
	} else {
		t.in++
		v = w.object(p)
		t.in--
	}
	what := fmt.Sprintf("writing a %s", p.name())
	out := &sink{w: w, chunks: c.Chunks, fault: c.Fault}
	err := w.marshal(p, v, out)
	w.used = true
	w.s.note(t, "%s: %v after %d bytes", what, err, len(out.got))
	w.keys = append(w.keys, fmt.Sprint(p.name(), err == nil, out.writes))
	if isNilErr(err) != (err == nil) {
		w.bad(sayBad("nilerror", "%s: the error is a nil pointer", what))
		return
	}
	if hopeless(p.Value) {
		w.notes["unencodable value"]++
		if err == nil {
			w.bad(sayBad("unencodable", "%s: no error, but the value can't be written as JSON", what))
		}
		return
	}
	if out.err != nil {
		w.notes["failed write"]++
		if err != nil {
			if !errors.Is(err, out.err) && !strings.Contains(err.Error(), out.err.Error()) {
				w.bad(sayBad("other", "%s: the error is '%v' but the writer failed with '%v'", what, err, out.err))
			}
			return
		}
		// The writer failed once, but what it didn't take may have been written again.
		if _, bad := w.fromDoc(p, out.got); bad != nil {
			w.bad(sayBad("lost", "%s: no error, but the writer failed with '%v' and the %d bytes that it took aren't a complete document", what, out.err, len(out.got)))
			return
		}
	}
	if err != nil {
		w.bad(sayBad("spurious", "%s fails: %v", what, err))
		return
	}
	w.notes["complete write"]++
	w.s.digest = core.MixStr(w.s.digest, string(out.got))
	got, err := w.fromDoc(p, out.got)
	if err != nil {
		w.bad(sayBad("document", "%s: the document isn't valid: %v: %s", what, err, short(string(out.got))))
		return
	}
	if d := w.diffPart(p, p.Value, got, false); d != "" {
		w.bad(sayBad("document", "%s: the document is a different value: %s", what, d))
		return
	}
	back, err := w.unmarshal(p, reflect.ValueOf(string(out.got)))
	if err != nil {
		w.bad(sayBad("back", "%s: reading it back fails: %v", what, err))
		return
	}
	if d := w.diffPart(p, p.Value, w.tree(p, back), false); d != "" {
		w.bad(sayBad("back", "%s: reading it back gives something else: %s", what, d))
		return
	}
	w.s.h.SetSeed(c.Hash2)
	t.in++
	var again bytes.Buffer
	err = w.marshal(p, v, &again)
	t.in--
	if err != nil {
		w.bad(sayBad("again", "%s again fails: %v", what, err))
		return
	}
	if !bytes.Equal(again.Bytes(), out.got) && !w.opaque(p, p.Value) {
		w.bad(sayBad("order", "%s: two documents of the same object differ: %s and %s", what, clip(out.got, again.Bytes()), clip(again.Bytes(), out.got)))
	}
}

// clip shows where a text differs from another.
func clip(a, b []byte) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return fmt.Sprintf("%q", a[max(0, i-20):min(len(a), i+30)])
}

// opaque tells if the value has parts without a type that contain objects.
func (w *run) opaque(p *Part, x any) bool {
	if p.Type == "#error" {
		return hasObject(x.(tree)["Details"])
	}
	if p.Type == "#metadata" {
		return false
	}
	return w.b.V.opaque(p.ref(), false, x)
}

func hasObject(x any) bool {
	switch t := x.(type) {
	case tree:
		return true
	case []any:
		for _, y := range t {
			if hasObject(y) {
				return true
			}
		}
	}
	return false
}

func (v *Ver) opaque(t mm.TypeRef, link bool, x any) bool {
	e := mm.TypeRef{Name: t.Name}
	switch {
	case t.List:
		if link {
			x = x.(tree)["#items"]
		}
		for _, y := range x.([]any) {
			if v.opaque(e, false, y) {
				return true
			}
		}
		return false
	case t.Map:
		for _, y := range x.(tree) {
			if v.opaque(e, false, y) {
				return true
			}
		}
		return false
	case t.Name == "Interface":
		return hasObject(x)
	case v.isScalar(t):
		return false
	}
	for _, a := range v.Decl(t.Name).Members {
		if y, ok := x.(tree)[a.Name]; ok && v.opaque(a.Type, a.Kind == "link", y) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- generation

var scalars = []string{"String", "Integer", "Long", "Float", "Boolean", "Date", "Interface"}

func mmNumber(n int) any { return json.Number(fmt.Sprint(n)) }

// listed tells if lists of the type are used, so that there are functions for them.
func (v *Ver) listed(name string) bool {
	for _, d := range v.Types() {
		for _, a := range d.Members {
			if a.Type.List && a.Type.Name == name {
				return true
			}
		}
	}
	return false
}

func (g *maker) part(d *Doc, b *bytes.Buffer, write bool) Part {
	r := g.r
	gen := &Gen{R: r, Links: !write, Fraction: !write, Dense: core.Pick(r, []int{1, 2, 3, 5, 8})}
	depth := 2
	if r.Chance(1, 15) {
		gen.Dense, depth = 9, 4
	}
	p := Part{}
	switch k := r.Intn(12); {
	case k == 0:
		x := &Exch{}
		g.errorDoc(x)
		p.Type = "#error"
		if r.Bool() && !write {
			p.Status = 400 + r.Intn(200)
		}
		delete(x.Err, "#")
		p.Value = x.Err
		b.WriteString(x.Body)
		p.End = b.Len() - len(x.Body) + x.End
		return p
	case k == 1:
		p.Type = "#metadata"
		m := tree{}
		var fs []field
		if r.Chance(4, 5) {
			s := genString(r)
			m["ServerVersion"] = s
			fs = append(fs, field{"server_version", func(b *bytes.Buffer) { d.any(b, s) }})
		}
		p.Value = m
		d.object(b, fs)
	case k == 2:
		var names []string
		names = append(names, scalars...)
		for _, x := range g.v.V.Decls("enum") {
			if g.v.listed(x.Name) {
				names = append(names, x.Name)
			}
		}
		if len(names) > 0 {
			p.Type, p.List = core.Pick(r, names), true
			break
		}
		fallthrough
	default:
		var names []string
		for _, x := range g.v.Types() {
			if x.Kind != "enum" {
				names = append(names, x.Name)
			}
		}
		p.Type = core.Pick(r, names)
		p.List = k < 5
	}
	if p.Type != "#metadata" {
		p.Value = gen.Value(g.v, p.ref(), false, depth)
		d.Put(b, g.v, p.ref(), false, p.Value)
	}
	p.End = b.Len()
	return p
}

// codec generates a scenario with reads or writes.
func (g *maker) codec(sc *Scenario) {
	r := g.r
	write := g.prop == "C18"
	tasks := 1
	if r.Chance(1, 3) {
		tasks = 2 + r.Intn(2)
	}
	for t := 0; t < tasks; t++ {
		for n := 1 + r.Intn(3); n > 0; n-- {
			c := &Codec{Task: t}
			d := &Doc{R: r.Fork(), Extra: r.Bool(), Space: r.Bool()}
			var b bytes.Buffer
			x := &Exch{}
			if write {
				p := g.part(d, &b, true)
				c.Parts = []Part{p}
				c.Text = b.String()
				c.Hash2 = r.Next()
				c.Decode = p.Type == "#metadata" || r.Chance(1, 4)
				if r.Chance(1, 2) {
					n := len(c.Text)
					at := r.Intn(n + 1)
					switch r.Intn(4) {
					case 0:
						at = 0
					case 1:
						at = r.Intn(n*2 + 1)
					}
					c.Fault = &Fault{At: at, Kind: core.Pick(r, []string{"short", "zero", "once", "shortonce"}), Err: errorName(r)}
				}
				if r.Chance(1, 3) {
					c.Chunks = []Chunk{{D: g.delay()}}
				}
				if !c.Decode {
					c.Text = ""
					if r.Chance(1, 6) && p.Type[0] != '#' {
						c.Parts[0].Value = g.v.ruin(r, p.ref(), false, p.Value)
					}
				}
				sc.Codec = append(sc.Codec, c)
				continue
			}
			c.Source = core.Pick(r, []string{"", "", "", "", "iterator", "bytes", "string"})
			count := 1
			if c.Source == "iterator" {
				count = 1 + r.Intn(3)
			}
			if r.Chance(1, 8) {
				b.WriteString(strings.Repeat(core.Pick(r, []string{" ", "\n"}), r.Intn(5000)))
			} else if r.Chance(1, 80) {
				b.WriteString(strings.Repeat(" ", 1<<20+r.Intn(1<<20)))
			}
			for i := 0; i < count; i++ {
				d.ws(&b)
				c.Parts = append(c.Parts, g.part(d, &b, false))
			}
			if r.Chance(1, 3) {
				b.WriteString(core.Pick(r, []string{"\n", " ", "\r\n\r\n"}))
			}
			c.Text = b.String()
			if count == 1 && r.Chance(1, 6) {
				c.Broken = true
				g.breakText(c)
			}
			x.Body = c.Text
			g.chunks(x)
			c.Chunks, c.EOF = x.Chunks, x.EOF
			if c.Source == "" || c.Source == "iterator" {
				if r.Chance(1, 2) && len(c.Text) > 0 && !c.Broken {
					x.End = c.Parts[r.Intn(count)].End
					g.fault(x, false)
					c.Fault = x.Fault
				}
			} else if !c.Broken && r.Chance(1, 4) {
				// Cut off.
				c.Text = c.Text[:r.Intn(c.Parts[0].End)]
				c.Broken = true
			}
			sc.Codec = append(sc.Codec, c)
		}
	}
	if tasks > 1 {
		sc.Yield = core.Pick(r, []int{0, 30, 150, 500})
	}
}

// breakText makes the text something else than the value expected.
func (g *maker) breakText(c *Codec) {
	r := g.r
	p := &c.Parts[0]
	switch {
	case r.Chance(1, 3):
		c.Text = core.Pick(r, garbage)
		if p.List && strings.HasPrefix(c.Text, "[") {
			c.Text = "[{"
		}
		return
	case r.Chance(1, 3):
		c.Text = core.Pick(r, []string{`"text"`, `5`, `true`, `[1,2]`})
		if p.List {
			c.Text = core.Pick(r, []string{`"text"`, `5`, `true`, `{"a":1}`})
		}
		return
	}
	switch p.Type {
	case "#metadata":
		c.Text = splice(c.Text, "server_version", "5")
	case "#error":
		c.Text = splice(c.Text, core.Pick(r, []string{"id", "code", "reason", "href", "operation_id", "timestamp"}), core.Pick(r, []string{`5`, `true`, `[1]`}))
	default:
		items, _ := p.Value.([]any)
		if p.List && len(items) == 0 {
			c.Text = "{}"
			return
		}
		if g.v.isScalar(mm.TypeRef{Name: p.Type}) {
			lit := wrongLiteral(r, g.v, mm.TypeRef{Name: p.Type})
			if lit == "" {
				c.Text = "[1,"
				return
			}
			c.Text = "[" + lit + "]"
			return
		}
		x := &Exch{Body: c.Text}
		g.spliceAttr(x, p.Type)
		c.Text = x.Body
	}
}
