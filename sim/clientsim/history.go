package clientsim

import (
	"bytes"
	"fmt"
	"reflect"

	"verif/sim/internal/core"
	"verif/sim/internal/mm"
)

// builder is a builder of the history, with what it should build.
type builder struct {
	part    Part
	val     reflect.Value
	tree    any
	unsure  bool // something that it refers to was changed: what it builds isn't predicted
	parents []*builder
	args    map[string]reflect.Value
}

// object is an object of the history: it never changes.
type object struct {
	n    int
	part Part
	val  reflect.Value
	tree any
	from string
}

type history struct {
	w        *run
	builders []*builder
	objects  []*object
}

func (b *builder) disturb() {
	if b.unsure {
		return
	}
	b.unsure = true
	for _, p := range b.parents {
		p.disturb()
	}
}

// changed is called when the builder itself was given a new value.
func (b *builder) changed() {
	for _, p := range b.parents {
		p.disturb()
	}
}

func (b *builder) inside(o *builder) bool { // o contains b
	if b == o {
		return true
	}
	for _, p := range b.parents {
		if p.inside(o) {
			return true
		}
	}
	return false
}

func (w *run) startHistory() {
	h := &history{w: w}
	w.hist = h
	w.s.spawn("history", func(t *task) {
		for i := range w.sc.Hist.Steps {
			if w.found != nil {
				return
			}
			h.step(t, i, &w.sc.Hist.Steps[i])
			t.in++
			w.s.park("step", 0, nil)
			t.in--
		}
	})
	for i, n := range w.sc.Hist.Readers {
		w.s.spawn(fmt.Sprintf("reader %d", i), func(t *task) {
			for k := 0; k < n && w.found == nil; k++ {
				t.in++
				w.s.park("look", 0, nil)
				t.in--
				if len(h.objects) == 0 {
					continue
				}
				o := h.objects[t.rng.Intn(len(h.objects))]
				if o == nil {
					continue
				}
				h.look(t, o, t.rng.Intn(5), fmt.Sprintf("reader %d", i))
			}
		})
	}
}

func (h *history) builder(i int) *builder {
	if i < 0 || i >= len(h.builders) {
		return nil
	}
	return h.builders[i]
}

func (h *history) object(i int) *object {
	if i < 0 || i >= len(h.objects) {
		return nil
	}
	return h.objects[i]
}

func (h *history) add(b *builder) {
	b.args = map[string]reflect.Value{}
	h.builders = append(h.builders, b)
}

func (h *history) member(t, name string) *mm.Member {
	d := h.w.b.V.Decl(t)
	for _, a := range d.Members {
		if a.Name == name {
			return a
		}
	}
	return nil
}

// newBuilder creates a builder.
func (h *history) newBuilder(t string, list bool) *builder {
	b := &builder{part: Part{Type: t, List: list}, tree: tree{}}
	switch {
	case t == "#error":
		b.val = h.w.errFn("NewError").Call(nil)[0]
	case list:
		b.val = h.w.b.fnOf(t, "New", "List").Call(nil)[0]
		b.tree = []any{}
	default:
		b.val = h.w.b.fnOf(t, "New", "").Call(nil)[0]
	}
	return b
}

// read gives the value of an object.
func (h *history) read(p *Part, v reflect.Value) any {
	return h.w.tree(p, v)
}

// document encodes an object and gives the value of the document.
func (h *history) document(p *Part, v reflect.Value) (any, error) {
	var b bytes.Buffer
	if p.List {
		v = must(v, "Slice").Call(nil)[0]
	}
	if err := h.w.marshal(p, v, &b); err != nil {
		return nil, err
	}
	return h.w.fromDoc(p, b.Bytes())
}

// created adds an object, and compares it with what it should be if that is known.
func (h *history) created(t *task, p Part, v reflect.Value, want any, from string) {
	w := h.w
	o := &object{n: len(h.objects), part: p, val: v, from: from}
	t.in++
	o.tree = h.read(&p, v)
	t.in--
	if want != nil {
		if d := w.diffPart(&p, want, o.tree, true); d != "" {
			w.bad(sayBad("built", "object %d (%s), %s, isn't what was asked for: %s", o.n, p.name(), from, d))
			return
		}
	}
	h.objects = append(h.objects, o)
	w.used = true
	w.notes["objects"]++
	h.look(t, o, 1, "at once")
}

// copyOf gives the value of a copy: builders don't have references of lists of links.
func (h *history) copyOf(o *object) any {
	if o.part.Type == "#error" {
		return Clone(o.tree)
	}
	return h.w.b.V.withoutLinks(o.part.ref(), false, o.tree)
}

func (v *Ver) withoutLinks(t mm.TypeRef, link bool, x any) any {
	e := mm.TypeRef{Name: t.Name}
	switch {
	case t.List:
		if link {
			x = x.(tree)["#items"]
		}
		out := []any{}
		for _, y := range x.([]any) {
			out = append(out, v.withoutLinks(e, false, y))
		}
		if link {
			return tree{"#items": out}
		}
		return out
	case t.Map:
		out := tree{}
		for k, y := range x.(tree) {
			out[k] = v.withoutLinks(e, false, y)
		}
		return out
	case v.isScalar(t):
		return Clone(x)
	}
	out := tree{}
	for k, y := range x.(tree) {
		out[k] = y
	}
	for _, a := range v.Decl(t.Name).Members {
		if y, ok := out[a.Name]; ok {
			out[a.Name] = v.withoutLinks(a.Type, a.Kind == "link", y)
		}
	}
	return out
}

// look uses an object in one of several ways, none of which may change it.
func (h *history) look(t *task, o *object, how int, who string) {
	w := h.w
	switch how {
	case 0:
		got := h.read(&o.part, o.val)
		if d := w.diffPart(&o.part, o.tree, got, true); d != "" {
			w.bad(sayBad("changed", "object %d (%s), %s, changed (%s): %s", o.n, o.part.name(), o.from, who, d))
		}
	case 1:
		got, err := h.document(&o.part, o.val)
		if err != nil {
			w.bad(sayBad("encode", "object %d (%s), %s, can't be written (%s): %v", o.n, o.part.name(), o.from, who, err))
			return
		}
		if d := w.diffPart(&o.part, h.copyOf(o), got, false); d != "" {
			w.bad(sayBad("encode", "object %d (%s), %s, is written as something else (%s): %s", o.n, o.part.name(), o.from, who, d))
		}
	case 2:
		b := h.newBuilder(o.part.Type, o.part.List)
		must(b.val, "Copy").Call([]reflect.Value{o.val})
		v := Build(b.val)
		if d := w.diffPart(&o.part, h.copyOf(o), h.read(&o.part, v), true); d != "" {
			w.bad(sayBad("copy", "a copy of object %d (%s), %s, isn't equal to it (%s): %s", o.n, o.part.name(), o.from, who, d))
			return
		}
		got, err := h.document(&o.part, v)
		if err == nil {
			if d := w.diffPart(&o.part, h.copyOf(o), got, false); d != "" {
				err = fmt.Errorf("%s", d)
			}
		}
		if err != nil {
			w.bad(sayBad("copy", "a copy of object %d (%s), %s, is written as something else (%s): %v", o.n, o.part.name(), o.from, who, err))
		}
	case 3:
		h.scribble(o.part.ref(), o.part.List, o.val, 3)
	case 4:
		// A copy is independent.
		b := h.newBuilder(o.part.Type, o.part.List)
		must(b.val, "Copy").Call([]reflect.Value{o.val})
		h.meddle(o.part.ref(), o.part.List, Build(b.val), 4)
	}
}

// meddle modifies the slices and maps that are inside of an object, which belong to that object only.
func (h *history) meddle(t mm.TypeRef, link bool, v reflect.Value, depth int) {
	h.w.notes["insides of a spare object modified"]++
	if depth <= 0 || t.Name == "#error" || t.Name == "Interface" {
		return
	}
	scalar := h.w.b.V.isScalar(mm.TypeRef{Name: t.Name})
	switch v.Kind() {
	case reflect.Map:
		for _, k := range v.MapKeys() {
			if !scalar {
				h.meddle(mm.TypeRef{Name: t.Name}, false, v.MapIndex(k), depth-1)
			}
			v.SetMapIndex(k, reflect.Value{})
		}
		if !v.IsNil() {
			v.SetMapIndex(reflect.ValueOf("intruder"), reflect.Zero(v.Type().Elem()))
		}
		return
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if !scalar {
				h.meddle(mm.TypeRef{Name: t.Name}, false, v.Index(i), depth-1)
			}
			v.Index(i).Set(reflect.Zero(v.Type().Elem()))
		}
		return
	case reflect.Ptr:
	default:
		return
	}
	if scalar || v.IsNil() {
		return
	}
	if t.List {
		n := int(must(v, "Len").Call(nil)[0].Int())
		for i := 0; i < n; i++ {
			h.meddle(mm.TypeRef{Name: t.Name}, false, must(v, "Get").Call([]reflect.Value{reflect.ValueOf(i)})[0], depth-1)
		}
		return
	}
	for _, a := range h.w.b.V.Decl(t.Name).Members {
		if x, ok := getter(v, a.Name); ok {
			h.meddle(a.Type, a.Kind == "link", x, depth-1)
		}
	}
}

// scribble modifies the slices that the lists of an object say that are copies.
func (h *history) scribble(t mm.TypeRef, link bool, v reflect.Value, depth int) {
	if depth <= 0 || t.Name == "#error" || h.w.b.V.isScalar(mm.TypeRef{Name: t.Name}) || t.Map {
		return
	}
	if t.List {
		if v.Kind() != reflect.Ptr || v.IsNil() {
			return
		}
		s := must(v, "Slice").Call(nil)[0]
		for i := 0; i < s.Len(); i++ {
			h.scribble(mm.TypeRef{Name: t.Name}, false, s.Index(i), depth-1)
		}
		for i := 0; i < s.Len(); i++ {
			s.Index(i).Set(reflect.Zero(s.Type().Elem()))
		}
		return
	}
	if v.IsNil() {
		return
	}
	for _, a := range h.w.b.V.Decl(t.Name).Members {
		if x, ok := getter(v, a.Name); ok {
			h.scribble(a.Type, a.Kind == "link", x, depth-1)
		}
	}
}

// step performs one step.
func (h *history) step(t *task, i int, s *Step) {
	w := h.w
	b, o := h.builder(s.B), h.object(s.O)
	w.s.note(t, "step %d: %s %s %s", i, s.Op, s.T, s.Attr)
	w.keys = append(w.keys, s.Op+s.T)
	switch s.Op {
	case "new":
		h.add(h.newBuilder(s.T, s.List))
	case "copynew":
		if o == nil {
			return
		}
		n := h.newBuilder(o.part.Type, o.part.List)
		must(n.val, "Copy").Call([]reflect.Value{o.val})
		n.tree = h.copyOf(o)
		h.add(n)
	case "copyinto":
		if o == nil || b == nil || b.part.Type != o.part.Type || b.part.List != o.part.List {
			return
		}
		must(b.val, "Copy").Call([]reflect.Value{o.val})
		b.tree = h.copyOf(o)
		b.args = map[string]reflect.Value{}
		b.unsure = false // everything that it had was discarded
		b.changed()
	case "copynil":
		// Copying nothing empties the builder of a list, and does nothing to other builders.
		if b == nil {
			return
		}
		f := must(b.val, "Copy")
		f.Call([]reflect.Value{reflect.Zero(f.Type().In(0))})
		if b.part.List {
			b.tree = []any{}
			b.args = map[string]reflect.Value{}
			b.unsure = false
			b.changed()
		}
	case "take":
		// A part of an object is an object itself.
		if o == nil || o.part.Type == "#error" || o.part.Type != s.T {
			h.objects = append(h.objects, nil)
			return
		}
		if o.part.List {
			if n := int(must(o.val, "Len").Call(nil)[0].Int()); n > 0 {
				k := s.B % n
				h.created(t, Part{Type: s.T}, must(o.val, "Get").Call([]reflect.Value{reflect.ValueOf(k)})[0], Clone(o.tree.([]any)[k]), fmt.Sprintf("taken from object %d in step %d", o.n, i))
			} else {
				h.objects = append(h.objects, nil)
			}
			return
		}
		a := h.member(s.T, s.Attr)
		if a == nil {
			h.objects = append(h.objects, nil)
			return
		}
		if x, ok := getter(o.val, a.Name); ok && !x.IsNil() {
			want := o.tree.(tree)[a.Name]
			if a.Type.List {
				want = want.(tree)["#items"]
			}
			h.created(t, Part{Type: a.Type.Name, List: a.Type.List}, x, Clone(want), fmt.Sprintf("taken from object %d in step %d", o.n, i))
		} else {
			h.objects = append(h.objects, nil)
		}
	case "set":
		if b == nil || b.part.Type != s.T || b.part.List != s.List {
			return
		}
		h.set(t, b, s)
	case "use":
		if b == nil || b.part.Type != s.T || b.part.List != s.List {
			return
		}
		h.use(b, s)
	case "mutate":
		if b == nil || b.part.Type != s.T {
			return
		}
		h.mutate(t, b, s)
	case "build":
		if b == nil {
			h.objects = append(h.objects, nil)
			return
		}
		if i%3 == 0 {
			h.meddle(b.part.ref(), b.part.List, Build(b.val), 4) // another object
		}
		v := Build(b.val)
		want := b.tree
		if b.unsure {
			want = nil
		}
		h.created(t, b.part, v, Clone(want), fmt.Sprintf("built in step %d", i))
	case "decode":
		d := &Doc{R: core.NewRng(core.Mix(w.sc.Seed, uint64(i))), Extra: true}
		p := Part{Type: s.T, Value: s.Val}
		var text bytes.Buffer
		d.Put(&text, w.b.V, p.ref(), false, s.Val)
		raw := text.Bytes()
		v, err := w.unmarshal(&p, reflect.ValueOf(raw))
		if err != nil {
			w.bad(sayBad("decode", "reading a %s fails: %v", p.name(), err))
			return
		}
		h.created(t, p, v, s.Val, fmt.Sprintf("decoded in step %d", i))
		for k := range raw {
			raw[k] = '*' // the caller uses its buffer for something else
		}
	case "look":
		if o != nil {
			h.look(t, o, s.B%5, fmt.Sprintf("in step %d", i))
		}
	}
	if w.found == nil {
		t.in++
		h.verify(fmt.Sprintf("after step %d, %s", i, s.Op))
		t.in--
	}
}

// verify checks that no object changed.
func (h *history) verify(when string) {
	for _, o := range h.objects {
		if h.w.found == nil && o != nil {
			h.look(nil, o, 0, when)
		}
	}
}

func (h *history) final() (b *bad) {
	if p := caught(func() { h.verify("at the end") }); p != nil {
		return p
	}
	return h.w.found
}

// set gives a value to an attribute.
func (h *history) set(t *task, b *builder, s *Step) {
	w := h.w
	switch {
	case b.part.Type == "#error":
		w.setError(b.val, s.Attr, s.Val)
		b.tree.(tree)[s.Attr] = s.Val
	case b.part.List:
		f := must(b.val, "Items")
		t.in++
		arg := w.b.ToGo(b.part.ref(), false, s.Val, f.Type().In(0))
		t.in--
		f.CallSlice([]reflect.Value{arg})
		b.args["Items"] = arg
		b.tree = Clone(s.Val)
	case s.Attr[0] == '#':
		must(b.val, map[string]string{"#id": "ID", "#href": "HREF", "#link": "Link"}[s.Attr]).Call([]reflect.Value{reflect.ValueOf(s.Val)})
		b.tree.(tree)[s.Attr] = s.Val
	default:
		a := h.member(b.part.Type, s.Attr)
		f := must(b.val, a.Name)
		if s.Val == nil && a.Type.Name != "Interface" {
			f.Call([]reflect.Value{reflect.Zero(f.Type().In(0))})
			delete(b.args, a.Name)
			delete(b.tree.(tree), a.Name)
			break
		}
		t.in++
		arg := w.b.ToGo(a.Type, a.Kind == "link", s.Val, f.Type().In(0))
		t.in--
		if f.Type().IsVariadic() {
			f.CallSlice([]reflect.Value{arg})
		} else {
			f.Call([]reflect.Value{arg})
		}
		b.args[a.Name] = arg
		b.tree.(tree)[a.Name] = Clone(s.Val)
	}
	b.changed()
}

// use gives builders of the history to an attribute.
func (h *history) use(b *builder, s *Step) {
	t := mm.TypeRef{Name: b.part.Type, List: true}
	link := false
	name := "Items"
	if !b.part.List {
		a := h.member(b.part.Type, s.Attr)
		t, link, name = a.Type, a.Kind == "link", a.Name
	}
	var subs []*builder
	for _, i := range s.Use {
		u := h.builder(i)
		if u == nil || u.part.Type != t.Name || u.part.List != (link && t.List) || b.inside(u) {
			return
		}
		subs = append(subs, u)
	}
	if len(subs) == 0 {
		return
	}
	f := must(b.val, name)
	in := f.Type().In(0)
	var arg reflect.Value
	var val any
	switch {
	case t.List && !link:
		arg = reflect.MakeSlice(in, 0, len(subs))
		items := []any{}
		for _, u := range subs {
			arg = reflect.Append(arg, u.val)
			items = append(items, Clone(u.tree))
		}
		val = items
	case t.Map:
		arg = reflect.MakeMap(in)
		m := tree{}
		for k, u := range subs {
			arg.SetMapIndex(reflect.ValueOf(fmt.Sprint("k", k)), u.val)
			m[fmt.Sprint("k", k)] = Clone(u.tree)
		}
		val = m
	case t.List:
		subs = subs[:1]
		arg = subs[0].val
		val = tree{"#items": Clone(subs[0].tree)}
	default:
		subs = subs[:1]
		arg = subs[0].val
		val = Clone(subs[0].tree)
	}
	if f.Type().IsVariadic() {
		f.CallSlice([]reflect.Value{arg})
	} else {
		f.Call([]reflect.Value{arg})
	}
	b.args[name] = arg
	if b.part.List {
		b.tree = val
	} else {
		b.tree.(tree)[name] = val
	}
	for _, u := range subs {
		u.parents = append(u.parents, b)
		if u.unsure {
			b.unsure = true
		}
	}
	b.changed()
}

// mutate changes what the caller passed to a builder before.
func (h *history) mutate(t *task, b *builder, s *Step) {
	arg, ok := b.args[s.Attr]
	if !ok {
		return
	}
	w := h.w
	t.in++
	defer func() { t.in-- }()
	switch arg.Kind() {
	case reflect.Slice:
		if arg.Len() == 0 {
			return
		}
		for i := 1; i < arg.Len(); i++ {
			arg.Index(i).Set(arg.Index(0))
		}
		if arg.Index(0).Kind() == reflect.Ptr {
			h.poke(arg.Index(0), s.T, s.Attr)
		} else {
			arg.Index(0).Set(reflect.Zero(arg.Type().Elem()))
		}
	case reflect.Map:
		for _, k := range arg.MapKeys() {
			if v := arg.MapIndex(k); v.Kind() == reflect.Ptr {
				h.poke(v, s.T, s.Attr)
			}
			if k.String() == "" || k.String()[0]%2 == 0 {
				arg.SetMapIndex(k, reflect.Value{})
			}
		}
		v := reflect.Zero(arg.Type().Elem())
		if v.Kind() == reflect.Ptr {
			v = h.w.b.fnOf(h.member(s.T, s.Attr).Type.Name, "New", "").Call(nil)[0]
		}
		arg.SetMapIndex(reflect.ValueOf("intruder"), v)
	case reflect.Ptr:
		h.poke(arg, s.T, s.Attr)
	default:
		return
	}
	w.notes["mutated arguments"]++
	b.disturb()
	for _, x := range h.builders { // those that have the same argument
		for _, y := range x.args {
			if y.Kind() == arg.Kind() && (y.Kind() == reflect.Map || y.Kind() == reflect.Ptr || y.Kind() == reflect.Slice) && y.Pointer() == arg.Pointer() {
				x.disturb()
			}
		}
		if x.val == arg {
			x.disturb()
		}
	}
	if arg.Kind() == reflect.Slice || arg.Kind() == reflect.Map {
		// The builders inside of it were changed too.
		for _, x := range h.builders {
			if x.inside(b) {
				x.disturb()
			}
		}
	}
	for _, x := range h.builders {
		if x != b && x.inside(b) {
			x.disturb()
		}
	}
}

// poke changes a nested builder.
func (h *history) poke(bld reflect.Value, t, attr string) {
	name := t
	if attr != "Items" {
		name = h.member(t, attr).Type.Name
	}
	if bld.Type() == h.w.b.fnOf(name, "New", "List").Type().Out(0) {
		must(bld, "Items").Call(nil)
		return
	}
	d := h.w.b.V.Decl(name)
	if d.Kind == "class" {
		must(bld, "ID").Call([]reflect.Value{reflect.ValueOf("poked")})
		must(bld, "Link").Call([]reflect.Value{reflect.ValueOf(true)})
	}
	for _, a := range d.Members {
		f := method(bld, a.Name)
		if !f.IsValid() || f.Type().IsVariadic() || !h.w.b.V.isScalar(a.Type) {
			continue
		}
		f.Call([]reflect.Value{reflect.Zero(f.Type().In(0))})
	}
}

// ---------------------------------------------------------------- generation

// history generates a history.
func (g *maker) history(sc *Scenario) {
	r := g.r
	h := &Hist{}
	sc.Hist = h
	type bld struct {
		t    string
		list bool
		args []string
	}
	var blds []*bld
	var objs []*bld
	var names []string
	for _, d := range g.v.Types() {
		if d.Kind != "enum" {
			names = append(names, d.Name)
		}
	}
	// A few types that are related, so that builders can be used by others.
	main := core.Pick(r, names)
	pool := []string{main, main}
	for _, a := range g.v.Decl(main).Members {
		if !g.v.isScalar(mm.TypeRef{Name: a.Type.Name}) && len(a.Type.Name) > 0 {
			if d := g.v.Decl(a.Type.Name); d.Kind != "enum" {
				pool = append(pool, a.Type.Name)
			}
		}
	}
	step := func(s Step) { h.Steps = append(h.Steps, s) }
	fresh := func(t string, list bool) int {
		blds = append(blds, &bld{t: t, list: list})
		step(Step{Op: "new", T: t, List: list})
		return len(blds) - 1
	}
	find := func(t string, list bool) int {
		var have []int
		for i, b := range blds {
			if b.t == t && b.list == list {
				have = append(have, i)
			}
		}
		if len(have) == 0 || r.Chance(1, 3) {
			return fresh(t, list)
		}
		return core.Pick(r, have)
	}
	gen := &Gen{R: r, Dense: core.Pick(r, []int{1, 2, 4})}
	isError := r.Chance(1, 12)
	if isError {
		fresh("#error", false)
	} else {
		fresh(main, false)
	}
	for n := 4 + r.Intn(16); n > 0; n-- {
		i := r.Intn(len(blds))
		b := blds[i]
		switch k := r.Intn(18); {
		case k == 0:
			if isError {
				fresh("#error", false)
			} else {
				fresh(core.Pick(r, pool), r.Chance(1, 4))
			}
		case k < 5: // set
			s := Step{Op: "set", B: i, T: b.t, List: b.list}
			switch {
			case b.t == "#error":
				x := &Exch{}
				g.errorDoc(x)
				keys := sorted(x.Err)
				if len(keys) == 0 {
					continue
				}
				s.Attr = core.Pick(r, keys)
				s.Val = x.Err[s.Attr]
			case b.list:
				s.Attr = "Items"
				s.Val = gen.Value(g.v, mm.TypeRef{Name: b.t, List: true}, false, 1)
				b.args = append(b.args, "Items")
			default:
				d := g.v.Decl(b.t)
				if d.Kind == "class" && r.Chance(1, 6) {
					s.Attr = core.Pick(r, []string{"#id", "#href", "#link"})
					s.Val = "x" + fmt.Sprint(r.Intn(100))
					if s.Attr == "#link" {
						s.Val = true
					}
					break
				}
				a := core.Pick(r, d.Members)
				if a.Kind != "attribute" && a.Kind != "link" {
					continue
				}
				s.Attr = a.Name
				s.Val = gen.Value(g.v, a.Type, a.Kind == "link", 1)
				if !a.Type.List && (a.Type.Map || !g.v.isScalar(a.Type)) && r.Chance(1, 6) {
					s.Val = nil // takes the value away
					step(s)
					continue
				}
				if !g.v.isScalar(a.Type) {
					b.args = append(b.args, a.Name)
				}
			}
			step(s)
		case k < 8: // use other builders
			if b.t == "#error" {
				continue
			}
			s := Step{Op: "use", B: i, T: b.t, List: b.list}
			if b.list {
				s.Attr = "Items"
				for c := 1 + r.Intn(2); c > 0; c-- {
					s.Use = append(s.Use, find(b.t, false))
				}
			} else {
				var as []*mm.Member
				for _, a := range g.v.Decl(b.t).Members {
					if (a.Kind == "attribute" || a.Kind == "link") && !g.v.isScalar(mm.TypeRef{Name: a.Type.Name}) && g.v.Decl(a.Type.Name).Kind != "enum" {
						as = append(as, a)
					}
				}
				if len(as) == 0 {
					continue
				}
				a := core.Pick(r, as)
				s.Attr = a.Name
				switch {
				case a.Kind == "link" && a.Type.List:
					s.Use = []int{find(a.Type.Name, true)}
				case a.Type.List, a.Type.Map:
					for c := 1 + r.Intn(2); c > 0; c-- {
						s.Use = append(s.Use, find(a.Type.Name, false))
					}
				default:
					s.Use = []int{find(a.Type.Name, false)}
				}
			}
			b.args = append(b.args, s.Attr)
			step(s)
		case k == 8: // the caller changes what it passed
			if len(b.args) > 0 {
				step(Step{Op: "mutate", B: i, T: b.t, Attr: core.Pick(r, b.args)})
			}
		case k < 12:
			step(Step{Op: "build", B: i})
			objs = append(objs, b)
		case k == 12 && len(objs) > 0:
			o := r.Intn(len(objs))
			blds = append(blds, &bld{t: objs[o].t, list: objs[o].list})
			step(Step{Op: "copynew", O: o})
		case k == 13 && len(objs) > 0:
			o := r.Intn(len(objs))
			for j, x := range blds {
				if x.t == objs[o].t && x.list == objs[o].list && (r.Bool() || j == len(blds)-1) {
					step(Step{Op: "copyinto", O: o, B: j})
					break
				}
			}
		case k == 16 && b.t != "#error":
			step(Step{Op: "copynil", B: i})
		case k == 17 && len(objs) > 0:
			o := r.Intn(len(objs))
			x := objs[o]
			if x.t == "#error" {
				continue
			}
			if x.list {
				step(Step{Op: "take", O: o, T: x.t, B: r.Intn(4)})
				objs = append(objs, &bld{t: x.t})
				continue
			}
			var as []*mm.Member
			for _, a := range g.v.Decl(x.t).Members {
				if (a.Kind == "attribute" && !a.Type.List || a.Kind == "link") && !a.Type.Map && !g.v.isScalar(mm.TypeRef{Name: a.Type.Name}) && g.v.Decl(a.Type.Name).Kind != "enum" {
					as = append(as, a)
				}
			}
			if len(as) > 0 {
				a := core.Pick(r, as)
				step(Step{Op: "take", O: o, T: x.t, Attr: a.Name})
				objs = append(objs, &bld{t: a.Type.Name, list: a.Type.List})
			}
		case k == 14 && !isError:
			t := core.Pick(r, pool)
			lg := &Gen{R: r, Links: true, Dense: gen.Dense}
			step(Step{Op: "decode", T: t, Val: lg.Value(g.v, mm.TypeRef{Name: t}, false, 2)})
			objs = append(objs, &bld{t: t})
		case len(objs) > 0:
			step(Step{Op: "look", O: r.Intn(len(objs)), B: r.Intn(5)})
		}
	}
	step(Step{Op: "build", B: 0})
	step(Step{Op: "build", B: 0})
	for n := r.Intn(3); n > 0; n-- {
		h.Readers = append(h.Readers, 1+r.Intn(8))
	}
	if len(h.Readers) > 0 {
		sc.Yield = core.Pick(r, []int{0, 10, 60, 200})
	}
}
