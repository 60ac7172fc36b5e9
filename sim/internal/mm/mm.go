// Package mm is an independent description of models: what the simulator knows about a model does not come from
// the code under test. It contains the tree, a renderer, a recogniser of the language and a random generator.
package mm

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"verif/sim/internal/core"
)

// Model is a set of services.
type Model struct{ Services []*Service }

// Service is a directory of versions.
type Service struct {
	Name     string // words separated by underscores
	Versions []*Version
}

// Version is a directory of files.
type Version struct {
	Name  string
	Files []*File
}

// File is one model file.
type File struct {
	Name  string
	Decls []*Decl
}

// Annotation of a declaration.
type Annotation struct {
	Name   string
	Params []AnnParam
}

// AnnParam is one parameter of an annotation; Value is a literal in the syntax of the language.
type AnnParam struct{ Name, Value string }

// Decl is a type, resource or error.
type Decl struct {
	Kind    string // enum, class, struct, resource, error
	Name    string
	Anns    []Annotation
	Doc     string
	Members []*Member
}

// Member of a declaration.
type Member struct {
	Kind     string // value, attribute, link, method, locator, code
	Name     string
	Explicit bool // the optional keyword is written
	Anns     []Annotation
	Doc      string
	Type     TypeRef
	Code     string
	Params   []*Param // methods
	Targets  []string // locators: in the order of LocOrder
	Vars     []string
	LocOrder string // 't' and 'v'
}

// Param of a method.
type Param struct {
	Name     string
	Explicit bool
	Anns     []Annotation
	Doc      string
	Dirs     []string
	Type     TypeRef
	Default  string
}

// TypeRef refers to a type: Index is set for maps, List for lists.
type TypeRef struct {
	Name  string
	List  bool
	Map   bool
	Index string
}

func (t TypeRef) String() string {
	switch {
	case t.List:
		return "[]" + t.Name
	case t.Map:
		return "[" + t.Index + "]" + t.Name
	}
	return t.Name
}

// In tells if the parameter is an input.
func (p *Param) In() bool { return has(p.Dirs, "in") }

// Out tells if the parameter is an output.
func (p *Param) Out() bool { return has(p.Dirs, "out") }

func has(s []string, v string) bool {
	for _, x := range s {
		if x == v {
			return true
		}
	}
	return false
}

// Ann returns the string parameter of an annotation.
func Ann(anns []Annotation, name, param string) string {
	for _, a := range anns {
		if a.Name == name {
			for _, p := range a.Params {
				if p.Name == param && len(p.Value) >= 2 {
					return p.Value[1 : len(p.Value)-1]
				}
			}
		}
	}
	return ""
}

// Scalars are the names of the built in types.
var Scalars = []string{"Boolean", "Integer", "Long", "Float", "String", "Date", "Interface"}

// IsScalarName tells if the name is a built in type.
func IsScalarName(s string) bool { return has(Scalars, s) }

// Find returns a declaration of the version.
func (v *Version) Find(kinds, name string) *Decl {
	for _, f := range v.Files {
		for _, d := range f.Decls {
			if strings.Contains(kinds, d.Kind) && d.Name == name {
				return d
			}
		}
	}
	return nil
}

// Decls lists the declarations of the given kinds, sorted by name.
func (v *Version) Decls(kinds string) []*Decl {
	var out []*Decl
	for _, f := range v.Files {
		for _, d := range f.Decls {
			if strings.Contains(kinds, d.Kind) {
				out = append(out, d)
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

// Words splits a simple camel case name.
func Words(name string) []string {
	var out []string
	up := func(i int) bool { return i >= 0 && i < len(name) && name[i] >= 'A' && name[i] <= 'Z' }
	for i := 0; i < len(name); i++ {
		start := i == 0 || (up(i) && !up(i-1))
		if up(i) && up(i-1) && i+1 < len(name) && !up(i+1) {
			// The last letter of initials starts a word, unless what follows is the plural of the initials.
			start = !(name[i+1] == 's' && (i+2 == len(name) || up(i+2)))
		}
		if start {
			out = append(out, "")
		}
		out[len(out)-1] += string(name[i])
	}
	return out
}

// Snake converts a simple camel case name.
func Snake(name string) string {
	w := Words(name)
	for i := range w {
		w[i] = strings.ToLower(w[i])
	}
	return strings.Join(w, "_")
}

// ---------------------------------------------------------------- renderer

// Style decides how the text looks.
type Style struct {
	Rng     *core.Rng // nil: canonical
	Docs    bool      // write documentation as line comments
	Header  bool
	Compact bool
}

type out struct {
	b  strings.Builder
	st Style
}

func (o *out) ws(min string) {
	if o.st.Rng == nil {
		o.b.WriteString(min)
		return
	}
	o.b.WriteString(min)
	switch o.st.Rng.Intn(12) {
	case 0:
		o.b.WriteString(" ")
	case 1:
		o.b.WriteString("\t")
	case 2:
		o.b.WriteString("\r\n")
	case 3:
		o.b.WriteString(" /* x */ ")
	}
}

func (o *out) tok(s string) { o.b.WriteString(s); o.ws(" ") }

func (o *out) nl(n int) {
	o.b.WriteString("\n")
	o.b.WriteString(strings.Repeat("  ", n))
}

func (o *out) doc(n int, d string) {
	if d == "" || !o.st.Docs {
		return
	}
	for _, l := range strings.Split(d, "\n") {
		o.b.WriteString("// " + l)
		o.nl(n)
	}
}

func (o *out) anns(n int, as []Annotation) {
	for _, a := range as {
		o.b.WriteString("@" + a.Name)
		if a.Params != nil {
			o.b.WriteString("(")
			for i, p := range a.Params {
				if i > 0 {
					o.b.WriteString(" ")
				}
				o.b.WriteString(p.Name + " = " + p.Value)
			}
			o.b.WriteString(")")
		}
		o.nl(n)
	}
}

// Render writes the text of a file.
func (f *File) Render(st Style) string {
	o := &out{st: st}
	if st.Header {
		o.b.WriteString("/*\nCopyright (c) 2019 Red Hat, Inc.\n*/\n\n")
	}
	for _, d := range f.Decls {
		o.doc(0, d.Doc)
		o.anns(0, d.Anns)
		o.tok(d.Kind)
		o.tok(d.Name)
		o.b.WriteString("{")
		for _, m := range d.Members {
			o.nl(1)
			o.doc(1, m.Doc)
			o.anns(1, m.Anns)
			switch m.Kind {
			case "value":
				if m.Explicit {
					o.tok("value")
				}
				o.tok(m.Name)
			case "attribute", "link":
				if m.Explicit || m.Kind == "link" {
					o.tok(m.Kind)
				}
				o.tok(m.Name)
				o.tok(m.Type.String())
			case "code":
				o.tok("code")
				o.tok(m.Code)
			case "method":
				if m.Explicit {
					o.tok("method")
				}
				o.tok(m.Name)
				o.b.WriteString("{")
				for _, p := range m.Params {
					o.nl(2)
					o.doc(2, p.Doc)
					o.anns(2, p.Anns)
					if p.Explicit {
						o.tok("parameter")
					}
					for _, x := range p.Dirs {
						o.tok(x)
					}
					o.tok(p.Name)
					o.tok(p.Type.String())
					if p.Default != "" {
						o.tok("=")
						o.tok(p.Default)
					}
				}
				o.nl(1)
				o.b.WriteString("}")
			case "locator":
				o.tok("locator")
				o.tok(m.Name)
				o.b.WriteString("{")
				t, v := 0, 0
				for _, c := range m.LocOrder {
					o.nl(2)
					if c == 't' {
						o.tok("target")
						o.tok(m.Targets[t])
						t++
					} else {
						o.tok("variable")
						o.tok(m.Vars[v])
						v++
					}
				}
				o.nl(1)
				o.b.WriteString("}")
			}
		}
		o.nl(0)
		o.b.WriteString("}")
		o.nl(0)
		o.nl(0)
	}
	return o.b.String()
}

// Render gives the text of every file, by path relative to the model directory.
func (m *Model) Render(st Style) map[string]string {
	out := map[string]string{}
	for _, s := range m.Services {
		for _, v := range s.Versions {
			for _, f := range v.Files {
				out[s.Name+"/"+v.Name+"/"+f.Name] = f.Render(st)
			}
		}
	}
	return out
}

// ---------------------------------------------------------------- recogniser

type token struct {
	kind string // id, kw, int, str, punct, eof
	text string
}

var keywords = map[string]bool{"attribute": true, "class": true, "code": true, "enum": true, "error": true, "false": true,
	"in": true, "link": true, "locator": true, "method": true, "out": true, "parameter": true, "resource": true,
	"struct": true, "target": true, "true": true, "value": true, "variable": true}

func lex(s string) ([]token, error) {
	var out []token
	r := []rune(s)
	i := 0
	idStart := func(c rune) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' }
	digit := func(c rune) bool { return c >= '0' && c <= '9' }
	for i < len(r) {
		c := r[i]
		switch {
		case c == ' ' || c == '\t' || c == '\r' || c == '\n':
			i++
		case c == '/' && i+1 < len(r) && r[i+1] == '/':
			for i < len(r) && r[i] != '\n' && r[i] != '\r' {
				i++
			}
		case c == '/' && i+1 < len(r) && r[i+1] == '*':
			j := i + 2
			for j+1 < len(r) && !(r[j] == '*' && r[j+1] == '/') {
				j++
			}
			if j+1 >= len(r) {
				return nil, fmt.Errorf("unfinished comment at %d", i)
			}
			i = j + 2
		case c == '"' || c == '`':
			j := i + 1
			for j < len(r) && r[j] != c {
				j++
			}
			if j >= len(r) {
				return nil, fmt.Errorf("unfinished string at %d", i)
			}
			out = append(out, token{"str", string(r[i : j+1])})
			i = j + 1
		case idStart(c):
			j := i
			for j < len(r) && (idStart(r[j]) || digit(r[j])) {
				j++
			}
			t := string(r[i:j])
			k := "id"
			if keywords[t] {
				k = "kw"
			}
			out = append(out, token{k, t})
			i = j
		case digit(c):
			j := i
			for j < len(r) && digit(r[j]) {
				j++
			}
			out = append(out, token{"int", string(r[i:j])})
			i = j
		case strings.ContainsRune("@{}[]()=", c):
			out = append(out, token{"punct", string(c)})
			i++
		default:
			return nil, fmt.Errorf("unexpected character %q at %d", c, i)
		}
	}
	return append(out, token{"eof", ""}), nil
}

type pars struct {
	t []token
	i int
}

type perr struct{ error }

func (p *pars) peek() token { return p.t[p.i] }
func (p *pars) next() token {
	t := p.t[p.i]
	if p.i < len(p.t)-1 {
		p.i++
	}
	return t
}
func (p *pars) fail(what string) {
	panic(perr{fmt.Errorf("expected %s, found %q", what, p.peek().text)})
}
func (p *pars) is(text string) bool {
	t := p.peek()
	return (t.kind == "kw" || t.kind == "punct") && t.text == text
}
func (p *pars) want(text string) {
	if !p.is(text) {
		p.fail(text)
	}
	p.next()
}
func (p *pars) opt(text string) bool {
	if p.is(text) {
		p.next()
		return true
	}
	return false
}
func (p *pars) id() string {
	if p.peek().kind != "id" {
		p.fail("identifier")
	}
	return p.next().text
}

func (p *pars) anns() []Annotation {
	var out []Annotation
	for p.opt("@") {
		a := Annotation{Name: p.id()}
		if p.opt("(") {
			a.Params = []AnnParam{}
			for !p.opt(")") {
				n := p.id()
				p.want("=")
				a.Params = append(a.Params, AnnParam{n, p.literal()})
			}
		}
		out = append(out, a)
	}
	return out
}

func (p *pars) literal() string {
	t := p.peek()
	if t.kind == "int" || t.kind == "str" || p.is("true") || p.is("false") {
		if t.kind == "int" {
			if _, err := strconv.Atoi(t.text); err != nil {
				panic(perr{fmt.Errorf("integer out of range %s", t.text)})
			}
		}
		return p.next().text
	}
	p.fail("literal")
	return ""
}

func (p *pars) typ() TypeRef {
	if p.opt("[") {
		if p.opt("]") {
			return TypeRef{List: true, Name: p.id()}
		}
		i := p.id()
		p.want("]")
		return TypeRef{Map: true, Index: i, Name: p.id()}
	}
	return TypeRef{Name: p.id()}
}

// ParseFile recognises a complete model file.
func ParseFile(name, text string) (f *File, err error) {
	toks, err := lex(text)
	if err != nil {
		return nil, err
	}
	p := &pars{t: toks}
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(perr)
			if !ok {
				panic(r)
			}
			f, err = nil, e.error
		}
	}()
	f = &File{Name: name}
	for p.peek().kind != "eof" {
		d := &Decl{Anns: p.anns()}
		switch {
		case p.is("enum"), p.is("class"), p.is("struct"), p.is("resource"), p.is("error"):
			d.Kind = p.next().text
		default:
			p.fail("declaration")
		}
		d.Name = p.id()
		p.want("{")
		for !p.opt("}") {
			m := &Member{}
			if d.Kind != "error" {
				m.Anns = p.anns()
			}
			switch d.Kind {
			case "enum":
				m.Kind = "value"
				m.Explicit = p.opt("value")
				m.Name = p.id()
			case "class", "struct":
				m.Kind = "attribute"
				if p.opt("attribute") {
					m.Explicit = true
				} else if p.opt("link") {
					m.Kind = "link"
				}
				m.Name = p.id()
				m.Type = p.typ()
			case "error":
				p.want("code")
				m.Kind = "code"
				if p.peek().kind != "int" {
					p.fail("integer")
				}
				m.Code = p.next().text
				if _, e := strconv.Atoi(m.Code); e != nil {
					panic(perr{e})
				}
			case "resource":
				if p.opt("locator") {
					m.Kind = "locator"
					m.Name = p.id()
					p.want("{")
					for !p.opt("}") {
						if p.opt("target") {
							m.Targets = append(m.Targets, p.id())
							m.LocOrder += "t"
						} else {
							p.want("variable")
							m.Vars = append(m.Vars, p.id())
							m.LocOrder += "v"
						}
					}
					break
				}
				m.Kind = "method"
				m.Explicit = p.opt("method")
				m.Name = p.id()
				p.want("{")
				for !p.opt("}") {
					q := &Param{Anns: p.anns()}
					q.Explicit = p.opt("parameter")
					for p.is("in") || p.is("out") {
						q.Dirs = append(q.Dirs, p.next().text)
					}
					q.Name = p.id()
					q.Type = p.typ()
					if p.opt("=") {
						q.Default = p.literal()
					}
					m.Params = append(m.Params, q)
				}
			}
			d.Members = append(d.Members, m)
		}
		f.Decls = append(f.Decls, d)
	}
	return f, nil
}

// ParseModel recognises every file; files are given by path "service/version/file".
func ParseModel(files map[string]string) (*Model, error) {
	m := &Model{}
	keys := make([]string, 0, len(files))
	for k := range files {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		parts := strings.Split(k, "/")
		f, err := ParseFile(parts[2], files[k])
		if err != nil {
			return nil, fmt.Errorf("%s: %v", k, err)
		}
		var s *Service
		for _, x := range m.Services {
			if x.Name == parts[0] {
				s = x
			}
		}
		if s == nil {
			s = &Service{Name: parts[0]}
			m.Services = append(m.Services, s)
		}
		var v *Version
		for _, x := range s.Versions {
			if x.Name == parts[1] {
				v = x
			}
		}
		if v == nil {
			v = &Version{Name: parts[1]}
			s.Versions = append(s.Versions, v)
		}
		v.Files = append(v.Files, f)
	}
	return m, nil
}

// Undefined lists references to types and resources that their own version does not define.
func (m *Model) Undefined() []string {
	var bad []string
	for _, s := range m.Services {
		for _, v := range s.Versions {
			for _, d := range v.Decls("class") {
				if p := Ann(d.Anns, "ref", "path"); p != "" && m.Referenced(p) == nil {
					bad = append(bad, s.Name+"/"+v.Name+": reference "+p)
				}
			}
			if v.imports() {
				continue
			}
			types, resources := map[string]bool{}, map[string]bool{}
			for _, n := range Scalars {
				types[fold(n)] = true
			}
			for _, d := range v.Decls("enum class struct") {
				types[fold(d.Name)] = true
			}
			for _, d := range v.Decls("resource") {
				resources[fold(d.Name)] = true
			}
			chk := func(t TypeRef) {
				for _, n := range []string{t.Name, t.Index} {
					if n != "" && !types[fold(n)] {
						bad = append(bad, s.Name+"/"+v.Name+": type "+n)
					}
				}
			}
			for _, f := range v.Files {
				for _, d := range f.Decls {
					for _, x := range d.Members {
						if x.Type.Name != "" {
							chk(x.Type)
						}
						for _, p := range x.Params {
							chk(p.Type)
						}
						for _, t := range x.Targets {
							if !resources[fold(t)] {
								bad = append(bad, s.Name+"/"+v.Name+": resource "+t)
							}
						}
					}
				}
			}
		}
	}
	return bad
}

// Referenced finds the declaration that a reference to another service points to.
func (m *Model) Referenced(p string) *Decl {
	c := strings.Split(strings.TrimPrefix(p, "/"), "/")
	if len(c) != 3 {
		return nil
	}
	for _, s := range m.Services {
		for _, v := range s.Versions {
			if fold(s.Name) != fold(c[0]) || fold(v.Name) != fold(c[1]) {
				continue
			}
			for _, d := range v.Decls("class struct enum") {
				if fold(d.Name) == fold(c[2]) {
					return d
				}
			}
			for _, n := range Scalars {
				if fold(n) == fold(c[2]) {
					return &Decl{Kind: "scalar", Name: n}
				}
			}
		}
	}
	return nil
}

// fold is deliberately coarse: names that differ in more than case are different in any reading.
func fold(s string) string { return strings.ToLower(strings.ReplaceAll(s, "_", "")) }

// imports tells if the version takes types from another one, so that names may be defined elsewhere.
func (v *Version) imports() bool {
	for _, d := range v.Decls("class") {
		if Ann(d.Anns, "ref", "path") != "" {
			return true
		}
	}
	return false
}
