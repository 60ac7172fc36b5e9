package clientsim

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/sim/internal/core"
	"verif/sim/internal/mm"
)

// A value of a model type is a tree:
//   Boolean: bool; Integer, Long, Float: json.Number; String, enums: string; Date: string (RFC 3339)
//   Interface: any JSON value
//   struct: map[string]any by attribute name; class: also "#id", "#href", "#link"
//   list: []any; map: map[string]any; link list: map[string]any with "#items" and optionally "#href", "#link"

type tree = map[string]any

var words = []string{"", "a", "salt", "Ünïcödé", "日本語", "🍕 pizza", "quote\"d", "back\\slash", "line\nbreak", "tab\there", "</script>", "null", "true", "0", " spaced ", "\u2028", "ctl\u0001", "a&b=c", "100%", "x/y", "{\"a\":1}"}

func genString(r *core.Rng) string {
	if r.Chance(1, 500) {
		return strings.Repeat(core.Pick(r, []string{"x", "é", "\"", "0123456789abcde "}), 1000+r.Intn(20000))
	}
	switch r.Intn(12) {
	case 0:
		return strings.Repeat(core.Pick(r, []string{"long", "é", "\\"}), 1+r.Intn(60))
	case 1, 2, 3:
		return core.Pick(r, words) + core.Pick(r, words)
	case 4:
		return ""
	case 5:
		return core.Pick(r, []string{" ", " x", "x ", "true", "0", "null", "-1", "{}", "[]", "%41", "a=b&c=d;e", "\u2028\u2029", "😀", "\x00", "\x7f\x01", "+", "a+b c%20d", "..", "#", "?q"})
	}
	return fmt.Sprintf("s%d", r.Intn(100000))
}

func genInt(r *core.Rng, long bool) json.Number {
	switch r.Intn(10) {
	case 0:
		return "0"
	case 1:
		return json.Number(strconv.FormatInt(-int64(r.Intn(1000)), 10))
	case 2:
		if long {
			return core.Pick(r, []json.Number{"9223372036854775807", "-9223372036854775808", "4294967296", "2147483648"})
		}
		return core.Pick(r, []json.Number{"2147483647", "-2147483648", "65536"})
	}
	return json.Number(strconv.Itoa(r.Intn(100000)))
}

func genFloat(r *core.Rng) json.Number {
	switch r.Intn(10) {
	case 0:
		return "0"
	case 1:
		return core.Pick(r, []json.Number{"1e+21", "0.1", "3.141592653589793", "-2.5e-7", "1e-7", "123456789.125", "1.7976931348623157e+308", "5e-324"})
	}
	return json.Number(strconv.FormatFloat(float64(r.Intn(2000000)-1000000)/64, 'g', -1, 64))
}

// genDate generates a date, in whole seconds unless fractions are wanted: generated code reads
// fractions of seconds, but doesn't write them.
func genDate(r *core.Rng, fraction bool) string {
	if r.Chance(1, 12) {
		return core.Pick(r, []string{"0001-01-01T00:00:00Z", "9999-12-31T23:59:59Z", "1970-01-01T00:00:00Z", "2000-02-29T12:00:00+14:00"})
	}
	nanos := 0
	if fraction && r.Chance(1, 3) {
		nanos = core.Pick(r, []int{1, 1000, 1000000, 120000000, 999999999, 1 + r.Intn(999999999)})
	}
	t := time.Date(1990+r.Intn(60), time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), nanos, time.UTC)
	if r.Chance(1, 3) {
		t = t.In(time.FixedZone("", (r.Intn(27)-13)*1800))
	}
	return t.Format(time.RFC3339Nano)
}

// unencodable is how the text of a value that has no representation in JSON starts.
const unencodable = "\x00!"

// hopeless tells if a value can't be encoded.
func hopeless(x any) bool {
	switch t := x.(type) {
	case string:
		return strings.HasPrefix(t, unencodable)
	case []any:
		for _, y := range t {
			if hopeless(y) {
				return true
			}
		}
	case tree:
		for _, y := range t {
			if hopeless(y) {
				return true
			}
		}
	}
	return false
}

// ruin puts somewhere in a value something that can't be encoded, if it has a place for it.
func (v *Ver) ruin(r *core.Rng, t mm.TypeRef, link bool, x any) any {
	if link {
		return x
	}
	switch y := x.(type) {
	case []any:
		if t.List && len(y) > 0 {
			i := r.Intn(len(y))
			y[i] = v.ruin(r, mm.TypeRef{Name: t.Name}, false, y[i])
		}
		if t.List || t.Map {
			return y
		}
	case tree:
		if t.Map && len(y) > 0 {
			k := core.Pick(r, sorted(y))
			y[k] = v.ruin(r, mm.TypeRef{Name: t.Name}, false, y[k])
		}
		if t.Map || t.List {
			return y
		}
		if !mm.IsScalarName(t.Name) {
			d := v.Decl(t.Name)
			var as []*mm.Member
			for _, a := range d.Members {
				if y[a.Name] != nil && a.Kind == "attribute" {
					as = append(as, a)
				}
			}
			core.Shuffle(r, as)
			for _, a := range as {
				if y[a.Name] = v.ruin(r, a.Type, false, y[a.Name]); hopeless(y[a.Name]) {
					break
				}
			}
			return y
		}
	}
	switch t.Name {
	case "Float":
		return unencodable + core.Pick(r, []string{"NaN", "Inf", "-Inf"})
	case "Interface":
		return unencodable + core.Pick(r, []string{"chan", "func", "NaN"})
	}
	return x
}

func genAny(r *core.Rng, depth int) any {
	switch k := r.Intn(8); {
	case k == 0:
		return r.Bool()
	case k == 1:
		return genFloat(r)
	case k == 2:
		return json.Number(strconv.Itoa(r.Intn(1000)))
	case k < 5 || depth <= 0:
		return genString(r)
	case k == 5:
		var l []any
		for i := r.Intn(4); i > 0; i-- {
			l = append(l, genAny(r, depth-1))
		}
		if l == nil {
			l = []any{}
		}
		return l
	default:
		m := tree{}
		for i := r.Intn(4); i > 0; i-- {
			m[fmt.Sprintf("k%d", r.Intn(10))] = genAny(r, depth-1)
		}
		return m
	}
}

// Gen describes how values are generated.
type Gen struct {
	R     *core.Rng
	Links bool // link lists may carry a reference
	Dense int  // chance in ten that an attribute is present
	long  bool // inside of a long list
	in    int  // how deep the value is inside of the one that was asked for
	nodes int  // how many values it has so far

	Fraction bool // dates may have fractions of seconds
}

// maxNodes is how many values may be in a value before it stops growing; the types of some models have many attributes
// that refer to one another.
const maxNodes = 5000

// Value generates a value of a type.
func (g *Gen) Value(v *Ver, t mm.TypeRef, link bool, depth int) any {
	r := g.R
	if g.in == 0 {
		g.nodes = 0
	}
	g.in++
	g.nodes++
	defer func() { g.in-- }()
	full := g.nodes > maxNodes
	if t.List {
		items := []any{}
		n := r.Intn(4)
		if full {
			n = 0
		}
		if depth <= 0 {
			n = r.Intn(2)
		}
		if !g.long && !full && r.Chance(1, 40) {
			n = 20 + r.Intn(60)
			if r.Chance(1, 10) && v.isScalar(mm.TypeRef{Name: t.Name}) {
				n = 200 + r.Intn(1000)
			}
			depth = 0
			g.long = true // No long lists inside of long lists.
			defer func() { g.long = false }()
		}
		for ; n > 0; n-- {
			items = append(items, g.Value(v, mm.TypeRef{Name: t.Name}, false, depth-1))
		}
		if link {
			l := tree{"#items": items}
			if g.Links && r.Chance(1, 4) {
				l["#href"] = "/api/" + fmt.Sprint(r.Intn(1000))
				l["#link"] = r.Bool()
			}
			return l
		}
		return items
	}
	if t.Map {
		m := tree{}
		n := r.Intn(5)
		if r.Chance(1, 30) {
			n = 12
		}
		if full {
			n = 0
		}
		for ; n > 0; n-- {
			k := fmt.Sprintf("k%d", r.Intn(50))
			if r.Chance(1, 6) {
				k = genString(r)
			}
			m[k] = g.Value(v, mm.TypeRef{Name: t.Name}, false, depth-1)
		}
		return m
	}
	switch t.Name {
	case "Boolean":
		return r.Bool()
	case "Integer":
		return genInt(r, false)
	case "Long":
		return genInt(r, true)
	case "Float":
		return genFloat(r)
	case "String":
		return genString(r)
	case "Date":
		return genDate(r, g.Fraction)
	case "Interface":
		return genAny(r, 2)
	}
	d := v.Decl(t.Name)
	if d.Kind == "enum" {
		var vals []string
		for _, m := range d.Members {
			if m.Kind == "value" {
				vals = append(vals, enumValue(m))
			}
		}
		if r.Chance(1, 10) {
			return genString(r) // A value that was added to the API later.
		}
		return core.Pick(r, vals)
	}
	out := tree{}
	if d.Kind == "class" {
		if r.Chance(2, 3) {
			out["#id"] = genString(r)
		}
		if r.Chance(1, 3) {
			out["#href"] = "/api/x/" + fmt.Sprint(r.Intn(10000))
			if r.Chance(1, 8) {
				out["#href"] = ""
			}
		}
		if r.Chance(1, 6) {
			out["#link"] = true
		}
	}
	dense := g.Dense
	if dense == 0 {
		dense = 3
	}
	for _, m := range d.Members {
		if m.Kind != "attribute" && m.Kind != "link" {
			continue
		}
		if !r.Chance(dense, 10) {
			continue
		}
		if depth <= 0 && !v.isScalar(m.Type) && r.Chance(4, 5) {
			continue
		}
		if (depth < -2 || g.nodes > maxNodes) && !v.isScalar(m.Type) {
			continue
		}
		out[m.Name] = g.Value(v, m.Type, m.Kind == "link", depth-1)
	}
	return out
}

// Doc says how a JSON text is written.
type Doc struct {
	R     *core.Rng // nil: canonical
	Extra bool      // unknown fields
	Space bool
}

func (d *Doc) ws(b *bytes.Buffer) {
	if d.R != nil && d.Space && d.R.Chance(1, 3) {
		b.WriteString(core.Pick(d.R, []string{" ", "\n", "\t", "  ", "\r\n"}))
	}
}

func (d *Doc) str(b *bytes.Buffer, s string) {
	if d.R != nil && d.R.Chance(1, 8) {
		// The same text with escapes.
		b.WriteByte('"')
		for _, c := range s {
			switch {
			case c > 0xffff:
				c -= 0x10000
				fmt.Fprintf(b, "\\u%04x\\u%04x", 0xd800+(c>>10), 0xdc00+(c&0x3ff))
			case c < 32 || c == '"' || c == '\\' || c > 126 || d.R.Chance(1, 3):
				fmt.Fprintf(b, "\\u%04x", c)
			default:
				b.WriteRune(c)
			}
		}
		b.WriteByte('"')
		return
	}
	e := json.NewEncoder(b)
	e.SetEscapeHTML(false)
	e.Encode(s)
	b.Truncate(b.Len() - 1)
}

type field struct {
	name string
	put  func(b *bytes.Buffer)
}

func (d *Doc) object(b *bytes.Buffer, fields []field) {
	if d.R != nil {
		if d.Extra {
			for n := d.R.Intn(3); n > 0; n-- {
				v := genAny(d.R, 2)
				name := fmt.Sprintf("zz_unknown_%d", d.R.Intn(100))
				if d.R.Chance(1, 6) {
					name = ""
				}
				fields = append(fields, field{name, func(b *bytes.Buffer) { d.any(b, v) }})
			}
		}
		core.Shuffle(d.R, fields)
	}
	b.WriteByte('{')
	for i, f := range fields {
		if i > 0 {
			b.WriteByte(',')
		}
		d.ws(b)
		d.str(b, f.name)
		d.ws(b)
		b.WriteByte(':')
		d.ws(b)
		f.put(b)
		d.ws(b)
	}
	if len(fields) == 0 {
		d.ws(b)
	}
	b.WriteByte('}')
}

func (d *Doc) array(b *bytes.Buffer, n int, put func(i int)) {
	b.WriteByte('[')
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteByte(',')
		}
		d.ws(b)
		put(i)
		d.ws(b)
	}
	b.WriteByte(']')
}

func (d *Doc) any(b *bytes.Buffer, x any) {
	switch t := x.(type) {
	case string:
		d.str(b, t)
	case bool:
		fmt.Fprint(b, t)
	case json.Number:
		b.WriteString(string(t))
	case []any:
		d.array(b, len(t), func(i int) { d.any(b, t[i]) })
	case tree:
		var fs []field
		for _, k := range sorted(t) {
			v := t[k]
			fs = append(fs, field{k, func(b *bytes.Buffer) { d.any(b, v) }})
		}
		saved := d.Extra
		d.Extra = false
		d.object(b, fs)
		d.Extra = saved
	case nil:
		b.WriteString("null")
	default:
		panic(fmt.Sprintf("value %T", x))
	}
}

func sorted(m tree) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Put writes a value of a type.
func (d *Doc) Put(b *bytes.Buffer, v *Ver, t mm.TypeRef, link bool, x any) {
	if t.List {
		e := mm.TypeRef{Name: t.Name}
		if link {
			l := x.(tree)
			items := l["#items"].([]any)
			fs := []field{{"items", func(b *bytes.Buffer) {
				d.array(b, len(items), func(i int) { d.Put(b, v, e, false, items[i]) })
			}}}
			if h, ok := l["#href"]; ok {
				fs = append(fs, field{"href", func(b *bytes.Buffer) { d.any(b, h) }})
			}
			if k, ok := l["#link"]; ok {
				kind := baseName(t.Name) + "List"
				if k.(bool) {
					kind += "Link"
				}
				fs = append(fs, field{"kind", func(b *bytes.Buffer) { d.any(b, kind) }})
			}
			d.object(b, fs)
			return
		}
		items := x.([]any)
		d.array(b, len(items), func(i int) { d.Put(b, v, e, false, items[i]) })
		return
	}
	if t.Map {
		m := x.(tree)
		var fs []field
		for _, k := range sorted(m) {
			y := m[k]
			fs = append(fs, field{k, func(b *bytes.Buffer) { d.Put(b, v, mm.TypeRef{Name: t.Name}, false, y) }})
		}
		saved := d.Extra
		d.Extra = false
		d.object(b, fs)
		d.Extra = saved
		return
	}
	if v.isScalar(t) {
		if t.Name == "Interface" {
			saved := d.Extra
			d.Extra = false
			d.any(b, x)
			d.Extra = saved
			return
		}
		d.any(b, x)
		return
	}
	decl := v.Decl(t.Name)
	m := x.(tree)
	var fs []field
	if decl.Kind == "class" {
		kind := decl.Name
		if l, _ := m["#link"].(bool); l {
			kind += "Link"
		}
		if d.R == nil || kind != decl.Name || d.R.Bool() {
			fs = append(fs, field{"kind", func(b *bytes.Buffer) { d.any(b, kind) }})
		}
		for _, k := range []string{"id", "href"} {
			if y, ok := m["#"+k]; ok {
				fs = append(fs, field{k, func(b *bytes.Buffer) { d.any(b, y) }})
			}
		}
	}
	for _, a := range decl.Members {
		if y, ok := m[a.Name]; ok && (a.Kind == "attribute" || a.Kind == "link") {
			fs = append(fs, field{jsonName(a.Anns, a.Name), func(b *bytes.Buffer) { d.Put(b, v, a.Type, a.Kind == "link", y) }})
		}
	}
	d.object(b, fs)
}

// FromJSON interprets a decoded JSON value (with json.Number) as a value of a type, strictly: unknown fields are errors.
func FromJSON(v *Ver, t mm.TypeRef, link bool, x any) (any, error) {
	if t.List {
		if link {
			o, ok := x.(tree)
			if !ok {
				return nil, fmt.Errorf("list of links is %T", x)
			}
			l := tree{"#items": []any{}}
			for _, k := range sorted(o) {
				switch k {
				case "items":
					i, err := FromJSON(v, t, false, o[k])
					if err != nil {
						return nil, err
					}
					l["#items"] = i
				case "href":
					l["#href"] = o[k]
				case "kind":
					l["#link"] = o[k] == baseName(t.Name)+"ListLink"
				default:
					return nil, fmt.Errorf("unknown field '%s'", k)
				}
			}
			return l, nil
		}
		a, ok := x.([]any)
		if !ok {
			return nil, fmt.Errorf("list is %T", x)
		}
		out := []any{}
		for i, y := range a {
			e, err := FromJSON(v, mm.TypeRef{Name: t.Name}, false, y)
			if err != nil {
				return nil, fmt.Errorf("item %d: %v", i, err)
			}
			out = append(out, e)
		}
		return out, nil
	}
	if t.Map {
		o, ok := x.(tree)
		if !ok {
			return nil, fmt.Errorf("map is %T", x)
		}
		out := tree{}
		for _, k := range sorted(o) {
			e, err := FromJSON(v, mm.TypeRef{Name: t.Name}, false, o[k])
			if err != nil {
				return nil, fmt.Errorf("key '%s': %v", k, err)
			}
			out[k] = e
		}
		return out, nil
	}
	bad := func() (any, error) { return nil, fmt.Errorf("%s is %T", t.Name, x) }
	switch t.Name {
	case "Boolean":
		if _, ok := x.(bool); !ok {
			return bad()
		}
		return x, nil
	case "Integer", "Long", "Float":
		if _, ok := x.(json.Number); !ok {
			return bad()
		}
		return x, nil
	case "String":
		if _, ok := x.(string); !ok {
			return bad()
		}
		return x, nil
	case "Date":
		s, ok := x.(string)
		if !ok {
			return bad()
		}
		if _, err := time.Parse(time.RFC3339, s); err != nil {
			return nil, err
		}
		return x, nil
	case "Interface":
		return x, nil
	}
	d := v.Decl(t.Name)
	if d.Kind == "enum" {
		if _, ok := x.(string); !ok {
			return bad()
		}
		return x, nil
	}
	o, ok := x.(tree)
	if !ok {
		return bad()
	}
	out := tree{}
fields:
	for _, k := range sorted(o) {
		if d.Kind == "class" {
			switch k {
			case "kind":
				switch o[k] {
				case d.Name:
				case d.Name + "Link":
					out["#link"] = true
				default:
					return nil, fmt.Errorf("kind of %s is '%v'", d.Name, o[k])
				}
				continue fields
			case "id", "href":
				out["#"+k] = o[k]
				continue fields
			}
		}
		for _, a := range d.Members {
			if (a.Kind == "attribute" || a.Kind == "link") && jsonName(a.Anns, a.Name) == k {
				y, err := FromJSON(v, a.Type, a.Kind == "link", o[k])
				if err != nil {
					return nil, fmt.Errorf("%s.%s: %v", d.Name, a.Name, err)
				}
				out[a.Name] = y
				continue fields
			}
		}
		return nil, fmt.Errorf("%s has no field '%s'", d.Name, k)
	}
	return out, nil
}

// ParseJSON decodes exactly one JSON value.
func ParseJSON(b []byte) (any, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var x any
	if err := d.Decode(&x); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, fmt.Errorf("more than one value")
	}
	return x, nil
}

func num(n json.Number) (float64, error) { return strconv.ParseFloat(string(n), 64) }

func sameNumber(a, b json.Number, exact bool) bool {
	if a == b {
		return true
	}
	if exact {
		x, e1 := strconv.ParseInt(string(a), 10, 64)
		y, e2 := strconv.ParseInt(string(b), 10, 64)
		return e1 == nil && e2 == nil && x == y
	}
	x, e1 := num(a)
	y, e2 := num(b)
	return e1 == nil && e2 == nil && (x == y || (math.IsNaN(x) && math.IsNaN(y)))
}

// Diff compares two values of a type; it returns the path and the difference, or nothing if they are equal. The
// reference of a list of links (its href and kind) is only compared if links is set.
func Diff(v *Ver, t mm.TypeRef, link bool, a, b any, links bool) string {
	if t.List {
		var x, y []any
		if link {
			la, ok1 := a.(tree)
			lb, ok2 := b.(tree)
			if !ok1 || !ok2 {
				return fmt.Sprintf(": %T instead of %T", b, a)
			}
			x, _ = la["#items"].([]any)
			y, _ = lb["#items"].([]any)
			if links {
				if fmt.Sprint(la["#href"]) != fmt.Sprint(lb["#href"]) {
					return fmt.Sprintf(": link list href is %v instead of %v", lb["#href"], la["#href"])
				}
				l1, _ := la["#link"].(bool)
				l2, _ := lb["#link"].(bool)
				if l1 != l2 {
					return fmt.Sprintf(": link list kind link is %v instead of %v", l2, l1)
				}
			}
		} else {
			x, _ = a.([]any)
			y, _ = b.([]any)
		}
		if len(x) != len(y) {
			return fmt.Sprintf(": %d items instead of %d", len(y), len(x))
		}
		for i := range x {
			if s := Diff(v, mm.TypeRef{Name: t.Name}, false, x[i], y[i], links); s != "" {
				return fmt.Sprintf("[%d]%s", i, s)
			}
		}
		return ""
	}
	if t.Map {
		x, _ := a.(tree)
		y, _ := b.(tree)
		for _, k := range sorted(x) {
			z, ok := y[k]
			if !ok {
				return fmt.Sprintf("[%q]: missing", k)
			}
			if s := Diff(v, mm.TypeRef{Name: t.Name}, false, x[k], z, links); s != "" {
				return fmt.Sprintf("[%q]%s", k, s)
			}
		}
		for _, k := range sorted(y) {
			if _, ok := x[k]; !ok {
				return fmt.Sprintf("[%q]: unexpected", k)
			}
		}
		return ""
	}
	if v.isScalar(t) {
		if !sameScalar(t.Name, a, b) {
			return fmt.Sprintf(": %s instead of %s", short(b), short(a))
		}
		return ""
	}
	x, ok1 := a.(tree)
	y, ok2 := b.(tree)
	if !ok1 || !ok2 {
		return fmt.Sprintf(": %s instead of %s", short(b), short(a))
	}
	d := v.Decl(t.Name)
	for _, k := range []string{"#id", "#href"} {
		p, ok1 := x[k]
		q, ok2 := y[k]
		if ok1 != ok2 || p != q {
			return fmt.Sprintf(".%s: %s instead of %s", k[1:], short(q), short(p))
		}
	}
	l1, _ := x["#link"].(bool)
	l2, _ := y["#link"].(bool)
	if l1 != l2 {
		return fmt.Sprintf(".link: %v instead of %v", l2, l1)
	}
	for _, a := range d.Members {
		p, ok1 := x[a.Name]
		q, ok2 := y[a.Name]
		if ok1 != ok2 {
			return fmt.Sprintf(".%s: present is %v instead of %v", a.Name, ok2, ok1)
		}
		if ok1 {
			if s := Diff(v, a.Type, a.Kind == "link", p, q, links); s != "" {
				return "." + a.Name + s
			}
		}
	}
	return ""
}

func sameScalar(name string, a, b any) bool {
	switch name {
	case "Integer", "Long", "Float":
		if t, ok := a.(string); ok && name == "Float" {
			a = json.Number(t)
		}
		if t, ok := b.(string); ok && name == "Float" {
			b = json.Number(t)
		}
		x, ok1 := a.(json.Number)
		y, ok2 := b.(json.Number)
		return ok1 && ok2 && sameNumber(x, y, name != "Float")
	case "Date":
		x, ok1 := a.(string)
		y, ok2 := b.(string)
		if !ok1 || !ok2 {
			return false
		}
		t1, e1 := time.Parse(time.RFC3339Nano, x)
		t2, e2 := time.Parse(time.RFC3339Nano, y)
		return e1 == nil && e2 == nil && t1.Equal(t2)
	case "Interface":
		return sameAny(a, b)
	}
	return a == b
}

func sameAny(a, b any) bool {
	switch x := a.(type) {
	case json.Number:
		y, ok := b.(json.Number)
		return ok && sameNumber(x, y, false)
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameAny(x[i], y[i]) {
				return false
			}
		}
		return true
	case tree:
		y, ok := b.(tree)
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			if z, ok := y[k]; !ok || !sameAny(x[k], z) {
				return false
			}
		}
		return true
	}
	return a == b
}

func short(x any) string {
	b, _ := json.Marshal(x)
	if len(b) > 60 {
		b = append(b[:57], "..."...)
	}
	return string(b)
}

// Clone copies a tree.
func Clone(x any) any {
	switch t := x.(type) {
	case []any:
		out := make([]any, len(t))
		for i := range t {
			out[i] = Clone(t[i])
		}
		return out
	case tree:
		out := tree{}
		for k := range t {
			out[k] = Clone(t[k])
		}
		return out
	}
	return x
}
