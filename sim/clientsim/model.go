// Package clientsim runs the Go code that the tool generates, together with simulated transports, servers, readers,
// writers and callers, in virtual time under a seeded scheduler, and checks properties C08 to C20.
package clientsim

import (
	"embed"
	"fmt"
	"io/fs"
	"strings"

	"verif/sim/internal/core"
	"verif/sim/internal/mm"
)

//go:embed kitchen
var kitchenFS embed.FS

// ModelSpec is one of the models that clients are generated for.
type ModelSpec struct {
	Name  string            // directory and import path element
	Files map[string]string // text of the model
	Model *mm.Model
}

// Models lists the models used for a seed: the fixed one, which contains every feature, and some random ones.
func Models(seed uint64, random int) ([]*ModelSpec, error) {
	files := map[string]string{}
	err := fs.WalkDir(kitchenFS, "kitchen", func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return err
		}
		b, err := kitchenFS.ReadFile(p)
		files[strings.TrimPrefix(p, "kitchen/")] = string(b)
		return err
	})
	if err != nil {
		return nil, err
	}
	m, err := mm.ParseModel(files)
	if err != nil {
		return nil, fmt.Errorf("kitchen model: %v", err)
	}
	out := []*ModelSpec{{Name: "m0", Files: files, Model: m}}
	for i := 1; i <= random; i++ {
		r := core.NewRng(core.Mix(seed, uint64(i), 77))
		o := mm.Opts{Services: 1, Versions: 2, Types: 6, Attrs: 7, Resources: 5, Anns: true, OneFile: 3}
		rm := mm.Random(r, o)
		out = append(out, &ModelSpec{Name: fmt.Sprintf("m%d", i), Files: rm.Render(mm.Style{}), Model: rm})
	}
	return out, nil
}

// Ver is a version of a service of a model.
type Ver struct {
	Spec *ModelSpec
	Svc  *mm.Service
	V    *mm.Version
}

// Versions lists all the versions of a model.
func (s *ModelSpec) Versions() []*Ver {
	var out []*Ver
	for _, svc := range s.Model.Services {
		for _, v := range svc.Versions {
			out = append(out, &Ver{s, svc, v})
		}
	}
	return out
}

// Find returns one version.
func (s *ModelSpec) Find(svc, ver string) *Ver {
	for _, v := range s.Versions() {
		if v.Svc.Name == svc && v.V.Name == ver {
			return v
		}
	}
	return nil
}

func fold(s string) string {
	b := make([]byte, 0, 64)
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '_' || c == '-':
		case c >= 'A' && c <= 'Z':
			b = append(b, c+'a'-'A')
		default:
			b = append(b, c)
		}
	}
	return string(b)
}

func jsonName(anns []mm.Annotation, name string) string {
	if n := mm.Ann(anns, "json", "name"); n != "" {
		return n
	}
	return mm.Snake(name)
}

func httpName(anns []mm.Annotation, name string) string {
	if n := mm.Ann(anns, "http", "name"); n != "" {
		return n
	}
	return mm.Snake(name)
}

func queryName(anns []mm.Annotation, name string) string {
	if n := mm.Ann(anns, "http", "name"); n != "" {
		return n
	}
	return jsonName(anns, name)
}

// Decl finds a class, struct or enum. If it is a reference, or it is only there because something else is a
// reference, then the members are those of the referenced version. The names of types of other versions are
// qualified, 'service/version/Name'.
func (v *Ver) Decl(name string) *mm.Decl {
	if f := strings.Split(name, "/"); len(f) == 3 {
		o := v.Spec.Find(f[0], f[1])
		if o == nil {
			return nil
		}
		return qualify(o.Decl(f[2]), f[0]+"/"+f[1]+"/", func(*mm.Member) bool { return true })
	}
	if d := v.V.Find("class struct enum", name); d != nil && mm.Ann(d.Anns, "ref", "path") == "" {
		return d
	}
	for _, d := range v.V.Decls("class struct") {
		f := strings.Split(strings.Trim(mm.Ann(d.Anns, "ref", "path"), "/"), "/")
		if len(f) != 3 {
			continue
		}
		o := v.Spec.Find(f[0], f[1])
		if o == nil {
			continue
		}
		var x *mm.Decl
		if d.Name == name {
			for _, y := range o.V.Decls("class struct enum") {
				if mm.Snake(y.Name) == f[2] {
					x = y
				}
			}
		} else if v.V.Find("class struct enum", name) == nil {
			x = o.Decl(name)
		}
		if x != nil {
			x = qualify(x, f[0]+"/"+f[1]+"/", func(m *mm.Member) bool {
				return m.Kind == "link" && v.V.Find("class struct", m.Type.Name) == nil
			})
			x.Name = name
			return x
		}
	}
	return v.V.Find("class struct enum", name)
}

func qualify(d *mm.Decl, prefix string, which func(m *mm.Member) bool) *mm.Decl {
	if d == nil {
		return nil
	}
	c := *d
	c.Members = nil
	for _, m := range d.Members {
		if m.Type.Name != "" && !mm.IsScalarName(m.Type.Name) && !strings.Contains(m.Type.Name, "/") && which(m) {
			n := *m
			n.Type.Name = prefix + m.Type.Name
			m = &n
		}
		c.Members = append(c.Members, m)
	}
	return &c
}

func baseName(name string) string { return name[strings.LastIndexByte(name, '/')+1:] }

// Types lists the structs and classes.
func (v *Ver) Types() []*mm.Decl {
	var out []*mm.Decl
	for _, d := range v.V.Decls("class struct") {
		out = append(out, v.Decl(d.Name))
	}
	return out
}

func enumValue(m *mm.Member) string { return jsonName(m.Anns, m.Name) }

// Kinds of methods.
func isAction(m *mm.Member) bool {
	switch m.Name {
	case "Add", "Get", "List", "Search", "Post", "Update", "Delete", "AsyncUpdate", "AsyncDelete", "AsyncAdd", "AsyncPost":
		return false
	}
	return true
}

func httpMethod(m *mm.Member) string {
	switch m.Name {
	case "Get", "List":
		return "GET"
	case "Update", "AsyncUpdate":
		return "PATCH"
	case "Delete", "AsyncDelete":
		return "DELETE"
	}
	return "POST"
}

func (v *Ver) isScalar(t mm.TypeRef) bool {
	if t.List || t.Map {
		return false
	}
	if mm.IsScalarName(t.Name) {
		return true
	}
	d := v.Decl(t.Name)
	return d != nil && d.Kind == "enum"
}

// bodyIn returns the parameter that is the complete body of the request, if there is one.
func (v *Ver) bodyIn(m *mm.Member) *mm.Param {
	if isAction(m) {
		return nil
	}
	for _, p := range m.Params {
		if p.In() && !v.isScalar(p.Type) {
			return p
		}
	}
	return nil
}

// bodyOut returns the parameter that is the complete body of the response, if there is one.
func (v *Ver) bodyOut(m *mm.Member) *mm.Param {
	switch {
	case isAction(m), m.Name == "List", m.Name == "Search":
		return nil
	}
	for _, p := range m.Params {
		if p.Out() && !v.isScalar(p.Type) {
			return p
		}
	}
	return nil
}

func outs(m *mm.Member) []*mm.Param {
	var out []*mm.Param
	for _, p := range m.Params {
		if p.Out() {
			out = append(out, p)
		}
	}
	return out
}

func ins(m *mm.Member) []*mm.Param {
	var out []*mm.Param
	for _, p := range m.Params {
		if p.In() {
			out = append(out, p)
		}
	}
	return out
}

// Endpoint is a method that can be called, with the locators that lead to it.
type Endpoint struct {
	V        *Ver
	Locators []*mm.Member
	Resource *mm.Decl
	Method   *mm.Member // nil for the metadata of the version
}

// Endpoints lists the methods of a version that can be reached with up to the given number of locators.
func (v *Ver) Endpoints(depth int) []*Endpoint {
	var out []*Endpoint
	var walk func(res *mm.Decl, locs []*mm.Member)
	walk = func(res *mm.Decl, locs []*mm.Member) {
		for _, m := range res.Members {
			if m.Kind == "method" {
				out = append(out, &Endpoint{v, append([]*mm.Member{}, locs...), res, m})
			}
		}
		if len(locs) >= depth {
			return
		}
		for _, m := range res.Members {
			if m.Kind == "locator" {
				if t := v.V.Find("resource", m.Targets[0]); t != nil {
					walk(t, append(append([]*mm.Member{}, locs...), m))
				}
			}
		}
	}
	if root := v.V.Find("resource", "Root"); root != nil {
		walk(root, nil)
	}
	return append(out, &Endpoint{V: v})
}
