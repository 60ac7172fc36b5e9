package clientsim

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"

	"verif/sim/internal/mm"
)

// Registry holds the exported functions of the generated packages: model, package, function.
type Registry map[string]map[string]map[string]reflect.Value

// Bind gives access to the generated code of one version.
type Bind struct {
	V    *Ver
	Reg  map[string]map[string]reflect.Value
	Pkg  map[string]reflect.Value
	Errs map[string]reflect.Value
	svc  map[string]reflect.Value
}

func foldAll(m map[string]reflect.Value) map[string]reflect.Value {
	out := map[string]reflect.Value{}
	for k, v := range m {
		out[fold(k)] = v
	}
	return out
}

// NewBind finds the packages of a version.
func NewBind(reg Registry, v *Ver) (*Bind, error) {
	m := reg[v.Spec.Name]
	b := &Bind{V: v, Reg: m}
	for k, p := range m {
		switch fold(k) {
		case fold(v.Svc.Name) + "/" + fold(v.V.Name):
			b.Pkg = foldAll(p)
		case fold(v.Svc.Name):
			b.svc = foldAll(p)
		case "errors":
			b.Errs = foldAll(p)
		}
	}
	if b.Pkg == nil || b.svc == nil || b.Errs == nil {
		return nil, fmt.Errorf("no generated packages for %s/%s", v.Svc.Name, v.V.Name)
	}
	return b, nil
}

type bindError struct{ msg string }

func (e bindError) Error() string { return e.msg }

type valueError struct{ msg string }

func (e valueError) Error() string { return e.msg }

// wrong reports that the generated code contradicts itself.
func wrong(format string, args ...any) { panic(valueError{fmt.Sprintf(format, args...)}) }

func fail(format string, args ...any) { panic(bindError{fmt.Sprintf(format, args...)}) }

func (b *Bind) fn(name string) reflect.Value {
	f, ok := b.Pkg[fold(name)]
	if !ok {
		wrong("the client of %s/%s has no function %s", b.V.Svc.Name, b.V.V.Name, name)
	}
	return f
}

// fnOf finds a function about a type, which may be of another version.
func (b *Bind) fnOf(t, prefix, suffix string) reflect.Value {
	f := strings.Split(t, "/")
	if len(f) != 3 {
		return b.fn(prefix + t + suffix)
	}
	o := b.V.Spec.Find(f[0], f[1])
	x, err := NewBind(Registry{b.V.Spec.Name: b.Reg}, o)
	if err != nil {
		fail("%v", err)
	}
	return x.fn(prefix + f[2] + suffix)
}

var methodCache = map[reflect.Type]map[string]int{}

func method(x reflect.Value, name string) reflect.Value {
	t := x.Type()
	idx := methodCache[t]
	if idx == nil {
		idx = map[string]int{}
		for i := 0; i < t.NumMethod(); i++ {
			idx[fold(t.Method(i).Name)] = i
		}
		methodCache[t] = idx
	}
	i, ok := idx[fold(name)]
	if !ok {
		return reflect.Value{}
	}
	return x.Method(i)
}

func must(x reflect.Value, name string) reflect.Value {
	m := method(x, name)
	if !m.IsValid() {
		wrong("type %s of the client has no method %s", x.Type(), name)
	}
	return m
}

func plain(x any) any {
	switch t := x.(type) {
	case string:
		switch t {
		case unencodable + "chan":
			return make(chan int)
		case unencodable + "func":
			return func() {}
		case unencodable + "NaN":
			return math.NaN()
		}
	case json.Number:
		f, _ := num(t)
		return f
	case []any:
		out := make([]any, len(t))
		for i := range t {
			out[i] = plain(t[i])
		}
		return out
	case tree:
		out := map[string]any{}
		for k := range t {
			out[k] = plain(t[k])
		}
		return out
	}
	return x
}

func unplain(x any) any {
	switch t := x.(type) {
	case float64:
		return json.Number(strconv.FormatFloat(t, 'g', -1, 64))
	case int:
		return json.Number(strconv.Itoa(t))
	case json.Number:
		return t
	case []any:
		out := make([]any, len(t))
		for i := range t {
			out[i] = unplain(t[i])
		}
		return out
	case map[string]any:
		out := tree{}
		for k := range t {
			out[k] = unplain(t[k])
		}
		return out
	}
	return x
}

// Builder creates a builder with the attributes of the value.
func (b *Bind) Builder(t string, x any) reflect.Value {
	bld := b.fnOf(t, "New", "").Call(nil)[0]
	m := x.(tree)
	d := b.V.Decl(t)
	if d.Kind == "class" {
		if id, ok := m["#id"]; ok {
			must(bld, "ID").Call([]reflect.Value{reflect.ValueOf(id)})
		}
		if h, ok := m["#href"]; ok {
			must(bld, "HREF").Call([]reflect.Value{reflect.ValueOf(h)})
		}
		if l, ok := m["#link"]; ok {
			must(bld, "Link").Call([]reflect.Value{reflect.ValueOf(l)})
		}
	}
	for _, a := range d.Members {
		if y, ok := m[a.Name]; ok {
			b.SetAttr(bld, a, y)
		}
	}
	return bld
}

// SetAttr calls the setter of a builder and returns the argument that it passed.
func (b *Bind) SetAttr(bld reflect.Value, a *mm.Member, y any) reflect.Value {
	f := must(bld, a.Name)
	in := f.Type().In(0)
	arg := b.ToGo(a.Type, a.Kind == "link", y, in)
	if f.Type().IsVariadic() {
		f.CallSlice([]reflect.Value{arg})
	} else {
		f.Call([]reflect.Value{arg})
	}
	return arg
}

// ListBuilder creates a builder of a list.
func (b *Bind) ListBuilder(t string, items []any) reflect.Value {
	bld := b.fnOf(t, "New", "List").Call(nil)[0]
	f := must(bld, "Items")
	f.CallSlice([]reflect.Value{b.ToGo(mm.TypeRef{Name: t, List: true}, false, items, f.Type().In(0))})
	return bld
}

// Build calls the Build method.
func Build(bld reflect.Value) reflect.Value {
	out := must(bld, "Build").Call(nil)
	if !out[1].IsNil() {
		wrong("Build fails: %v", out[1].Interface())
	}
	return out[0]
}

// ToGo converts a value of a model type to the given Go type.
func (b *Bind) ToGo(t mm.TypeRef, link bool, x any, target reflect.Type) reflect.Value {
	hasBuild := func() bool { _, ok := target.MethodByName("Build"); return ok }
	switch {
	case t.List && link:
		l := x.(tree)
		items := l["#items"].([]any)
		bld := b.ListBuilder(t.Name, items)
		if hasBuild() {
			return bld
		}
		return Build(bld)
	case t.List:
		items := x.([]any)
		if target.Kind() == reflect.Ptr {
			bld := b.ListBuilder(t.Name, items)
			if hasBuild() {
				return bld
			}
			return Build(bld)
		}
		out := reflect.MakeSlice(target, 0, len(items))
		for _, y := range items {
			out = reflect.Append(out, b.ToGo(mm.TypeRef{Name: t.Name}, false, y, target.Elem()))
		}
		return out
	case t.Map:
		out := reflect.MakeMap(target)
		m := x.(tree)
		for _, k := range sorted(m) {
			out.SetMapIndex(reflect.ValueOf(k), b.ToGo(mm.TypeRef{Name: t.Name}, false, m[k], target.Elem()))
		}
		return out
	case b.V.isScalar(t):
		return b.scalar(t, x, target)
	}
	bld := b.Builder(t.Name, x)
	if hasBuild() {
		return bld
	}
	return Build(bld)
}

func (b *Bind) scalar(t mm.TypeRef, x any, target reflect.Type) reflect.Value {
	switch t.Name {
	case "Boolean":
		return reflect.ValueOf(x).Convert(target)
	case "Integer", "Long":
		n, err := strconv.ParseInt(string(x.(json.Number)), 10, 64)
		if err != nil {
			fail("integer %v", x)
		}
		return reflect.ValueOf(n).Convert(target)
	case "Float":
		if s, ok := x.(string); ok {
			n, err := strconv.ParseFloat(strings.TrimPrefix(s, unencodable), 64)
			if err != nil {
				fail("float %v", x)
			}
			return reflect.ValueOf(n).Convert(target)
		}
		n, err := num(x.(json.Number))
		if err != nil {
			fail("float %v", x)
		}
		return reflect.ValueOf(n).Convert(target)
	case "Date":
		d, err := time.Parse(time.RFC3339Nano, x.(string))
		if err != nil {
			fail("date %v", x)
		}
		return reflect.ValueOf(d)
	case "Interface":
		out := reflect.New(target).Elem()
		if p := plain(x); p != nil {
			out.Set(reflect.ValueOf(p))
		}
		return out
	}
	return reflect.ValueOf(x).Convert(target)
}

// FromGo reads a value with the methods that callers use.
func (b *Bind) FromGo(t mm.TypeRef, link bool, val reflect.Value) any {
	for val.Kind() == reflect.Interface && t.Name != "Interface" {
		if val.IsNil() {
			return nil
		}
		val = val.Elem()
	}
	switch {
	case t.List:
		items := []any{}
		l := tree{}
		s := val
		if val.Kind() == reflect.Ptr {
			s = must(val, "Slice").Call(nil)[0]
			if val.IsNil() {
				if n := must(val, "Len").Call(nil)[0].Int(); n != 0 || s.Len() != 0 || !must(val, "Empty").Call(nil)[0].Bool() {
					wrong("%s is nil but has items", val.Type())
				}
				checkList(val, s)
				return nil
			}
			if n := must(val, "Len").Call(nil)[0].Int(); int(n) != s.Len() {
				wrong("Len of %s is %d but Slice has %d items", val.Type(), n, s.Len())
			}
			if e := must(val, "Empty").Call(nil)[0].Bool(); e != (s.Len() == 0) {
				wrong("Empty of %s with %d items is %v", val.Type(), s.Len(), e)
			}
			checkList(val, s)
			if method(val, "GetHREF").IsValid() {
				if h, ok := getter(val, "HREF"); ok {
					l["#href"] = h.String()
				}
				l["#link"] = must(val, "Link").Call(nil)[0].Bool()
				checkKind(val, t.Name+"List", l["#link"].(bool))
			}
		}
		for i := 0; i < s.Len(); i++ {
			items = append(items, b.FromGo(mm.TypeRef{Name: t.Name}, false, s.Index(i)))
		}
		if link {
			l["#items"] = items
			return l
		}
		return items
	case t.Map:
		out := tree{}
		it := val.MapRange()
		for it.Next() {
			out[it.Key().String()] = b.FromGo(mm.TypeRef{Name: t.Name}, false, it.Value())
		}
		return out
	}
	switch t.Name {
	case "Boolean":
		return val.Bool()
	case "Integer", "Long":
		return json.Number(strconv.FormatInt(val.Int(), 10))
	case "Float":
		return json.Number(strconv.FormatFloat(val.Float(), 'g', -1, 64))
	case "String":
		return val.String()
	case "Date":
		return val.Interface().(time.Time).Format(time.RFC3339Nano)
	case "Interface":
		return unplain(val.Interface())
	}
	d := b.V.Decl(t.Name)
	if d.Kind == "enum" {
		return val.String()
	}
	if val.IsNil() {
		if !must(val, "Empty").Call(nil)[0].Bool() {
			wrong("%s is nil but isn't empty", val.Type())
		}
		return nil
	}
	out := tree{}
	if d.Kind == "class" {
		checkKind(val, d.Name, must(val, "Link").Call(nil)[0].Bool())
		if must(val, "Link").Call(nil)[0].Bool() {
			out["#link"] = true
		}
		if x, ok := getter(val, "ID"); ok {
			out["#id"] = x.String()
		}
		if x, ok := getter(val, "HREF"); ok {
			out["#href"] = x.String()
		}
	}
	for _, a := range d.Members {
		if a.Kind != "attribute" && a.Kind != "link" {
			continue
		}
		if x, ok := getter(val, a.Name); ok {
			out[a.Name] = b.FromGo(a.Type, a.Kind == "link", x)
		}
	}
	n := len(out)
	if out["#link"] != nil {
		n--
	}
	if e := must(val, "Empty").Call(nil)[0].Bool(); e != (n == 0) {
		wrong("Empty of %s with %d attributes is %v", val.Type(), n, e)
	}
	return out
}

// getter calls GetX and checks that X agrees.
func getter(val reflect.Value, name string) (reflect.Value, bool) {
	r := must(val, "Get"+name).Call(nil)
	s := must(val, name).Call(nil)[0]
	ok := r[1].Bool()
	if ok {
		if !reflect.DeepEqual(r[0].Interface(), s.Interface()) {
			wrong("%s and Get%s of %s don't agree", name, name, val.Type())
		}
	} else if !s.IsZero() || !r[0].IsZero() {
		wrong("%s of %s isn't present but has a value", name, val.Type())
	}
	return r[0], ok
}

// checkKind checks the kind of an object or a list.
func checkKind(val reflect.Value, name string, link bool) {
	name = name[strings.LastIndexByte(name, 0x2f)+1:]
	if link {
		name += "Link"
	}
	if k := must(val, "Kind").Call(nil)[0].String(); fold(k) != fold(name) {
		wrong("Kind of %s is '%s' instead of '%s'", val.Type(), k, name)
	}
}

// checkList compares the different ways to see the items of a list.
func checkList(val, s reflect.Value) {
	if x := must(val, "Items").Call(nil)[0]; x.Len() != s.Len() {
		wrong("Items of %s has %d items instead of %d", val.Type(), x.Len(), s.Len())
	}
	get := must(val, "Get")
	n := s.Len()
	for i := 0; i < n; i += 1 + n/4 {
		if get.Call([]reflect.Value{reflect.ValueOf(i)})[0].Interface() != s.Index(i).Interface() {
			wrong("Get(%d) of %s is a different item", i, val.Type())
		}
	}
	for _, i := range []int{-1, n} {
		if !get.Call([]reflect.Value{reflect.ValueOf(i)})[0].IsZero() {
			wrong("Get(%d) of %s with %d items isn't nil", i, val.Type(), n)
		}
	}
	each := must(val, "Each")
	k := 0
	each.Call([]reflect.Value{reflect.MakeFunc(each.Type().In(0), func(a []reflect.Value) []reflect.Value {
		if k >= n || a[0].Interface() != s.Index(k).Interface() {
			wrong("Each of %s gives a different item %d", val.Type(), k)
		}
		k++
		return []reflect.Value{reflect.ValueOf(k < 3 || k%2 == 0)}
	})})
	if want := min(n, 3); k != want {
		wrong("Each of %s with %d items gave %d instead of %d", val.Type(), n, k, want)
	}
	rng := must(val, "Range")
	k = 0
	rng.Call([]reflect.Value{reflect.MakeFunc(rng.Type().In(0), func(a []reflect.Value) []reflect.Value {
		if k >= n || int(a[0].Int()) != k || a[1].Interface() != s.Index(k).Interface() {
			wrong("Range of %s gives a different item %d", val.Type(), k)
		}
		k++
		return []reflect.Value{reflect.ValueOf(true)}
	})})
	if k != n {
		wrong("Range of %s with %d items gave %d", val.Type(), n, k)
	}
	k = 0
	rng.Call([]reflect.Value{reflect.MakeFunc(rng.Type().In(0), func(a []reflect.Value) []reflect.Value {
		k++
		return []reflect.Value{reflect.ValueOf(k < 2)}
	})})
	if want := min(n, 2); k != want {
		wrong("Range of %s with %d items gave %d instead of %d", val.Type(), n, k, want)
	}
}
