package toolsim

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"path"
	"regexp"
	"strconv"
	"strings"

	"verif/sim/internal/mm"
	"verif/sim/internal/world"
)

func fold(s string) string {
	s = strings.ToLower(s)
	return strings.NewReplacer("_", "", "-", "").Replace(s)
}

func dirName(s string) string { return strings.ReplaceAll(s, "_", "") }

// ExpectedFiles lists the files that belong to a model, calculated independently of the tool.
func ExpectedFiles(m *mm.Model, cmd string) []string {
	var out []string
	switch cmd {
	case "go":
		out = append(out, "errors/errors.go", "helpers/helpers.go", "helpers/json_helpers.go", "metrics/path_tree_data.go")
		for _, s := range m.Services {
			sd := dirName(s.Name)
			out = append(out, sd+"/client.go")
			for _, v := range s.Versions {
				d := sd + "/" + dirName(v.Name) + "/"
				for _, f := range []string{"errors", "metadata_type", "metadata_reader", "metadata_client", "openapi"} {
					out = append(out, d+f+".go")
				}
				for _, f := range []string{"boolean", "date", "float", "integer", "interface", "long", "string"} {
					out = append(out, d+f+"_list_type_json.go")
				}
				for _, t := range v.Decls("class struct enum resource") {
					if mm.Ann(t.Anns, "go", "name") != "" {
						continue
					}
					n := d + mm.Snake(t.Name)
					switch t.Kind {
					case "resource":
						out = append(out, n+"_client.go", n+"_resource_json.go")
					case "enum":
						out = append(out, n+"_type.go", n+"_list_type_json.go")
					default:
						out = append(out, n+"_type.go", n+"_builder.go", n+"_list_builder.go", n+"_type_json.go", n+"_list_type_json.go")
					}
				}
			}
		}
	case "docs":
		out = append(out, "index.md")
		for _, s := range m.Services {
			for _, v := range s.Versions {
				for _, t := range v.Decls("class struct enum") {
					out = append(out, mm.Snake(t.Name)+"_type.md")
				}
				for _, t := range v.Decls("resource") {
					out = append(out, mm.Snake(t.Name)+"_resource.md")
				}
			}
		}
	case "openapi":
		for _, s := range m.Services {
			for _, v := range s.Versions {
				out = append(out, s.Name+"/"+v.Name+"/openapi.json")
			}
		}
	}
	return out
}

// Incomplete looks for anything of the model that is missing in the output. It returns an empty string if
// everything is there.
func Incomplete(m *mm.Model, cmd string, out map[string][]byte) string {
	for _, f := range ExpectedFiles(m, cmd) {
		if _, ok := out[f]; !ok {
			return "file '" + f + "' is missing"
		}
	}
	switch cmd {
	case "openapi":
		return incompleteOpenAPI(m, out)
	case "go":
		return incompleteGo(m, out)
	case "docs":
		return incompleteDocs(m, out)
	}
	return ""
}

func incompleteDocs(m *mm.Model, out map[string][]byte) string {
	// The documents of all the services and versions share one directory, so types of the
	// same name, whatever their kind, share one document.
	owners := map[string]int{}
	document := func(d *mm.Decl) string {
		if d.Kind == "resource" {
			return mm.Snake(d.Name) + "_resource.md"
		}
		return mm.Snake(d.Name) + "_type.md"
	}
	for _, s := range m.Services {
		for _, v := range s.Versions {
			for _, d := range v.Decls("class struct enum resource") {
				owners[document(d)]++
			}
		}
	}
	for _, s := range m.Services {
		for _, v := range s.Versions {
			for _, d := range v.Decls("class struct enum resource") {
				if owners[document(d)] > 1 || mm.Ann(d.Anns, "ref", "path") != "" {
					continue
				}
				text := fold(string(out[document(d)]))
				for _, x := range d.Members {
					if x.Name != "" && x.Kind != "locator" && !strings.Contains(text, fold(x.Name)) {
						return fmt.Sprintf("documentation of '%s' doesn't mention '%s'", d.Name, x.Name)
					}
				}
			}
		}
	}
	return ""
}

func jsonName(x *mm.Member) string {
	if n := mm.Ann(x.Anns, "json", "name"); n != "" {
		return n
	}
	return mm.Snake(x.Name)
}

func incompleteOpenAPI(m *mm.Model, out map[string][]byte) string {
	for _, s := range m.Services {
		for _, v := range s.Versions {
			f := s.Name + "/" + v.Name + "/openapi.json"
			var doc struct {
				OpenAPI    string                     `json:"openapi"`
				Paths      map[string]json.RawMessage `json:"paths"`
				Components struct {
					Schemas map[string]struct {
						Properties map[string]json.RawMessage `json:"properties"`
						Enum       []any                      `json:"enum"`
					} `json:"schemas"`
				} `json:"components"`
			}
			if err := json.Unmarshal(out[f], &doc); err != nil {
				return fmt.Sprintf("'%s' isn't complete JSON: %v", f, err)
			}
			if doc.OpenAPI == "" {
				return fmt.Sprintf("'%s' has no OpenAPI version", f)
			}
			schemas := map[string]map[string]bool{}
			for n, s := range doc.Components.Schemas {
				ps := map[string]bool{}
				for p := range s.Properties {
					ps[fold(p)] = true
				}
				for _, e := range s.Enum {
					ps[fold(fmt.Sprint(e))] = true
				}
				schemas[fold(n)] = ps
			}
			for _, op := range operations(s, v) {
				var verbs map[string]json.RawMessage
				for p, raw := range doc.Paths {
					if variable.ReplaceAllString(p, "{}") == op[1] {
						json.Unmarshal(raw, &verbs)
					}
				}
				if verbs[op[0]] == nil {
					return fmt.Sprintf("'%s' doesn't describe the operation '%s %s'", f, op[0], op[1])
				}
			}
			for _, d := range v.Decls("class struct enum") {
				ps, ok := schemas[fold(d.Name)]
				if !ok {
					return fmt.Sprintf("'%s' doesn't describe type '%s'", f, d.Name)
				}
				for _, x := range members(m, d) {
					if x.Kind == "attribute" || x.Kind == "link" {
						if !ps[fold(jsonName(x))] {
							return fmt.Sprintf("'%s' doesn't describe attribute '%s' of '%s'", f, x.Name, d.Name)
						}
					}
					if x.Kind == "value" && len(x.Anns) == 0 && !ps[fold(x.Name)] {
						return fmt.Sprintf("'%s' doesn't describe value '%s' of '%s'", f, x.Name, d.Name)
					}
				}
			}
		}
	}
	return ""
}

var variable = regexp.MustCompile(`\{[^}]*\}`)

// operations calculates the operations of a version from the tree of locators.
func operations(s *mm.Service, v *mm.Version) [][2]string {
	var out [][2]string
	var walk func(d *mm.Decl, prefix string, seen []string)
	walk = func(d *mm.Decl, prefix string, seen []string) {
		for _, x := range seen {
			if x == d.Name {
				return
			}
		}
		seen = append(seen[:len(seen):len(seen)], d.Name)
		for _, x := range d.Members {
			switch x.Kind {
			case "method":
				if len(seen) == 1 || len(x.Anns) > 0 {
					continue
				}
				switch x.Name {
				case "Get", "List":
					out = append(out, [2]string{"get", prefix})
				case "Add", "Post", "Search":
					out = append(out, [2]string{"post", prefix})
				case "Update", "AsyncUpdate":
					out = append(out, [2]string{"patch", prefix})
				case "Delete", "AsyncDelete":
					out = append(out, [2]string{"delete", prefix})
				default:
					out = append(out, [2]string{"post", prefix + "/" + mm.Snake(x.Name)})
				}
			case "locator":
				if len(x.Targets) == 0 || len(x.Anns) > 0 {
					continue
				}
				t := v.Find("resource", x.Targets[len(x.Targets)-1])
				if t == nil {
					continue
				}
				p := prefix + "/" + mm.Snake(x.Name)
				if len(x.Vars) > 0 {
					p = prefix + "/{}"
				}
				walk(t, p, seen)
			}
		}
	}
	if root := v.Find("resource", "Root"); root != nil {
		walk(root, "/api/"+s.Name+"/"+v.Name, nil)
	}
	return out
}

type goFile struct {
	ok      bool
	idents  map[string]int // folded names of the declarations; methods as type.method
	openapi []byte
}

func scanGo(src []byte) (*goFile, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "", src, parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	g := &goFile{ok: true, idents: map[string]int{}}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			n := fold(d.Name.Name)
			if d.Recv != nil && len(d.Recv.List) == 1 {
				t := d.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				if id, ok := t.(*ast.Ident); ok {
					n = fold(id.Name) + "." + n
				}
			}
			g.idents[n]++
		case *ast.GenDecl:
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.TypeSpec:
					g.idents[fold(s.Name.Name)]++
				case *ast.ValueSpec:
					for i, n := range s.Names {
						g.idents[fold(n.Name)]++
						if n.Name == "OpenAPI" && i < len(s.Values) {
							if c, ok := s.Values[i].(*ast.CompositeLit); ok {
								for _, e := range c.Elts {
									if l, ok := e.(*ast.BasicLit); ok {
										v, _ := strconv.ParseUint(l.Value, 0, 8)
										g.openapi = append(g.openapi, byte(v))
									}
								}
							}
						}
					}
				}
			}
		}
	}
	return g, nil
}

// members are those of a class, or the ones of the class that it refers to.
func members(m *mm.Model, d *mm.Decl) []*mm.Member {
	if p := mm.Ann(d.Anns, "ref", "path"); p != "" && d.Kind == "class" {
		if t := m.Referenced(p); t != nil && mm.Ann(t.Anns, "ref", "path") == "" {
			return t.Members
		}
		return nil
	}
	return d.Members
}

var regularName = regexp.MustCompile(`^([A-Z][a-z]+)*([A-Z][a-z]*|ID)$`)

// regular tells if all the names of a model follow the conventions, so that it is clear how they are translated.
func regular(m *mm.Model) bool {
	for _, s := range m.Services {
		for _, v := range s.Versions {
			for _, f := range v.Files {
				for _, d := range f.Decls {
					if !regularName.MatchString(d.Name) {
						return false
					}
					for _, x := range d.Members {
						if x.Name != "" && !regularName.MatchString(x.Name) {
							return false
						}
						for _, p := range x.Params {
							if !regularName.MatchString(p.Name) {
								return false
							}
						}
					}
				}
			}
		}
	}
	return true
}

// sameName counts the members of the same kind that have the same name.
func sameName(d *mm.Decl, x *mm.Member) int {
	n := 0
	for _, y := range d.Members {
		if y.Name == x.Name && (y.Kind == x.Kind || d.Kind != "resource") {
			n++
		}
	}
	return n
}

func incompleteGo(m *mm.Model, out map[string][]byte) string {
	scans := map[string]*goFile{}
	for _, name := range sortedKeys(out) {
		data := out[name]
		if !strings.HasSuffix(name, ".go") {
			continue
		}
		g, err := scanGo(data)
		if err != nil {
			return fmt.Sprintf("'%s' isn't complete Go source: %v", name, err)
		}
		scans[name] = g
		formatted, err := world.FormatGo(name, data, false)
		if err != nil || code(formatted) != code(data) {
			return fmt.Sprintf("'%s' isn't formatted: %s", name, firstDiff(formatted, data))
		}
	}
	for _, s := range m.Services {
		for _, v := range s.Versions {
			dir := dirName(s.Name) + "/" + dirName(v.Name)
			count := map[string]int{}
			all := map[string]bool{}
			for name, g := range scans {
				if path.Dir(name) == dir {
					for k, n := range g.idents {
						count[k] += n
						all[k] = true
					}
				}
			}
			for _, d := range v.Decls("class struct enum resource error") {
				t := fold(d.Name)
				if mm.Ann(d.Anns, "go", "name") != "" {
					continue
				}
				switch d.Kind {
				case "class", "struct":
					if !all[t] || !all["new"+t] || !all["marshal"+t] || !all["unmarshal"+t] {
						return fmt.Sprintf("Go code of type '%s' in '%s' isn't complete", d.Name, dir)
					}
					for _, x := range members(m, d) {
						if mm.Ann(x.Anns, "go", "name") != "" {
							continue
						}
						if !all[t+"."+fold(x.Name)] || !all[t+"builder."+fold(x.Name)] {
							return fmt.Sprintf("Go code of attribute '%s' of '%s' in '%s' isn't complete", x.Name, d.Name, dir)
						}
						if want, got := sameName(d, x), count[t+"."+fold(x.Name)]; got < want {
							return fmt.Sprintf("Go code of attribute '%s' of '%s' in '%s' is there %d times instead of %d", x.Name, d.Name, dir, got, want)
						}
					}
				case "enum":
					for _, x := range d.Members {
						if mm.Ann(x.Anns, "go", "name") == "" && !all[t+fold(x.Name)] {
							return fmt.Sprintf("Go code of value '%s' of '%s' in '%s' isn't complete", x.Name, d.Name, dir)
						}
						if want, got := sameName(d, x), count[t+fold(x.Name)]; got < want {
							return fmt.Sprintf("Go code of value '%s' of '%s' in '%s' is there %d times instead of %d", x.Name, d.Name, dir, got, want)
						}
					}
				case "resource":
					c := t + "client"
					if t == "root" {
						c = "client"
					}
					if !all[c] {
						return fmt.Sprintf("Go code of resource '%s' in '%s' isn't complete", d.Name, dir)
					}
					for _, x := range d.Members {
						if mm.Ann(x.Anns, "go", "name") != "" {
							continue
						}
						if x.Kind == "method" && !all[c+"."+fold(x.Name)] {
							return fmt.Sprintf("Go code of method '%s' of '%s' in '%s' isn't complete", x.Name, d.Name, dir)
						}
						if x.Kind == "locator" && !all[c+"."+fold(x.Name)] {
							return fmt.Sprintf("Go code of locator '%s' of '%s' in '%s' isn't complete", x.Name, d.Name, dir)
						}
						if want, got := sameName(d, x), count[c+"."+fold(x.Name)]; got < want {
							return fmt.Sprintf("Go code of %s '%s' of '%s' in '%s' is there %d times instead of %d", x.Kind, x.Name, d.Name, dir, got, want)
						}
						if x.Kind != "method" || t == "root" {
							continue
						}
						for _, q := range x.Params {
							for _, dir2 := range q.Dirs {
								n := t + fold(x.Name) + map[string]string{"in": "request", "out": "response"}[dir2] + "." + fold(q.Name)
								if len(q.Anns) == 0 && !all[n] {
									return fmt.Sprintf("Go code of parameter '%s' of '%s.%s' in '%s' isn't complete", q.Name, d.Name, x.Name, dir)
								}
							}
						}
					}
				}
			}
		}
	}
	return ""
}

// EmbeddedDiffers compares the embedded OpenAPI text with what 'generate openapi' writes.
func EmbeddedDiffers(m *mm.Model, goOut, apiOut map[string][]byte) string {
	for _, s := range m.Services {
		for _, v := range s.Versions {
			f := dirName(s.Name) + "/" + dirName(v.Name) + "/openapi.go"
			g, err := scanGo(goOut[f])
			if err != nil {
				return fmt.Sprintf("'%s': %v", f, err)
			}
			if !bytes.Equal(g.openapi, apiOut[s.Name+"/"+v.Name+"/openapi.json"]) {
				return fmt.Sprintf("OpenAPI text in '%s' differs from the one written by 'generate openapi'", f)
			}
		}
	}
	return ""
}

// code drops the comment lines, because formatting comments isn't idempotent.
func code(src []byte) string {
	var b strings.Builder
	for _, l := range strings.Split(string(src), "\n") {
		if !strings.HasPrefix(strings.TrimSpace(l), "//") {
			b.WriteString(l)
			b.WriteByte('\n')
		}
	}
	return b.String()
}

func firstDiff(a, b []byte) string {
	x, y := strings.Split(string(a), "\n"), strings.Split(string(b), "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			return fmt.Sprintf("line %d: %q", i+1, y[min(i, len(y)-1)])
		}
	}
	return ""
}
