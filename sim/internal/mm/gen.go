package mm

import (
	"fmt"
	"strconv"
	"strings"

	"verif/sim/internal/core"
)

// Opts limits the size of generated models.
type Opts struct {
	Services, Versions, Types, Attrs, Resources int
	Refs                                        bool // class references to another service
	Docs                                        bool
	Anns                                        bool
	Long                                        bool // some very long lines
	OneFile                                     int  // chance in ten to put everything in one file
}

var adjectives = []string{"API", "DNS", "OIDC", "Amber", "Brisk", "Calm", "Dense", "Early", "Fancy", "Grand", "Humble", "Ivory", "Jolly", "Keen", "Loyal", "Mellow", "Noble", "Plain", "Quick", "Rapid", "Solid", "Tidy", "Urban", "Vivid", "Warm", "Young", "Zesty"}
var nouns = []string{"Anchor", "Basket", "Cable", "Drawer", "Engine", "Filter", "Garden", "Hammer", "Island", "Jacket", "Kettle", "Ladder", "Mirror", "Needle", "Orchid", "Parcel", "Quiver", "Rocket", "Saddle", "Ticket", "Umbrella", "Vessel", "Window", "Yarn", "Zipper", "Bridge", "Candle", "Dial", "Fence", "Gate", "Harbor", "Lamp", "Motor", "Nozzle", "Panel", "Roof", "Shelf", "Tower", "Valve", "Wheel"}

type gen struct {
	r    *core.Rng
	o    Opts
	used map[string]bool
}

func (g *gen) name() string {
	for {
		n := core.Pick(g.r, nouns)
		if g.r.Chance(2, 3) {
			n = core.Pick(g.r, adjectives) + n
		}
		if !g.used[n] && !g.used[n+"s"] {
			g.used[n] = true
			return n
		}
	}
}

func (g *gen) doc() string {
	if !g.o.Docs || g.r.Chance(1, 3) {
		return ""
	}
	n := 1 + g.r.Intn(2)
	s := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			s += "\n"
		}
		if g.o.Long && g.r.Chance(1, 40) {
			s += strings.Repeat("Very long text. ", 500+g.r.Intn(8000)) // up to 136 KiB
		}
		s += fmt.Sprintf("Text %d about the %s of the %s.", g.r.Intn(1000), core.Pick(g.r, nouns), core.Pick(g.r, adjectives))
	}
	return s
}

func (g *gen) fresh() func() string {
	old := g.used
	seen := map[string]bool{}
	return func() string {
		g.used = seen
		n := g.name()
		g.used = old
		return n
	}
}

func str(s string) string { return "\"" + s + "\"" }

// Random generates a well formed model that the language accepts.
func Random(r *core.Rng, o Opts) *Model {
	m := &Model{}
	g := &gen{r: r, o: o}
	nsvc := 1 + r.Intn(o.Services)
	svcUsed := map[string]bool{}
	for i := 0; i < nsvc; i++ {
		n := ""
		for n == "" || svcUsed[n] {
			n = Snake(core.Pick(r, adjectives) + core.Pick(r, nouns))
		}
		svcUsed[n] = true
		s := &Service{Name: n}
		nver := 1 + r.Intn(o.Versions)
		for j := 0; j < nver; j++ {
			vn := "v" + strconv.Itoa(j+1)
			if j > 0 && r.Chance(1, 3) {
				vn += "_alpha1"
			}
			s.Versions = append(s.Versions, g.version(vn))
		}
		m.Services = append(m.Services, s)
	}
	if o.Refs && len(m.Services) > 1 && r.Chance(1, 2) {
		// A class of the second service defined by reference to one of the first.
		src := m.Services[0].Versions[0]
		for _, d := range src.Decls("class") {
			// The path of a reference is made of lower case words, so it can't name a
			// class whose name contains an initialism.
			if selfContained(src, d) && !hasInitialism(d.Name) && m.Services[1].Versions[0].Find("enum class struct resource error", d.Name) == nil {
				dst := m.Services[1].Versions[0]
				c := &Decl{Kind: "class", Name: d.Name, Anns: []Annotation{{Name: "ref", Params: []AnnParam{{"path", str("/" + m.Services[0].Name + "/" + src.Name + "/" + Snake(d.Name))}}}}}
				dst.Files = append(dst.Files, &File{Name: Snake(d.Name) + "_ref.model", Decls: []*Decl{c}})
				break
			}
		}
	}
	return m
}

func hasInitialism(name string) bool {
	for i := 1; i < len(name); i++ {
		if isUpperByte(name[i-1]) && isUpperByte(name[i]) {
			return true
		}
	}
	return false
}

func isUpperByte(b byte) bool { return b >= 'A' && b <= 'Z' }

func selfContained(v *Version, d *Decl) bool {
	for _, m := range d.Members {
		if !IsScalarName(m.Type.Name) {
			return false
		}
	}
	return len(d.Members) > 0
}

func (g *gen) version(name string) *Version {
	r := g.r
	v := &Version{Name: name}
	g.used = map[string]bool{}
	// Names first, so that declarations can refer to each other in any order.
	nt := 1 + r.Intn(g.o.Types)
	var types []*Decl
	for i := 0; i < nt; i++ {
		k := core.Pick(r, []string{"class", "class", "struct", "struct", "enum"})
		if i == 0 {
			k = "class"
		}
		types = append(types, &Decl{Kind: k, Name: g.name(), Doc: g.doc()})
	}
	var structs, classes, enums []*Decl
	for _, t := range types {
		switch t.Kind {
		case "class":
			classes = append(classes, t)
			structs = append(structs, t)
		case "struct":
			structs = append(structs, t)
		default:
			enums = append(enums, t)
		}
	}
	for _, t := range types {
		nm := g.fresh()
		n := 1 + r.Intn(g.o.Attrs)
		if t.Kind == "enum" {
			for i := 0; i < n+1; i++ {
				m := &Member{Kind: "value", Name: nm(), Explicit: r.Chance(1, 4), Doc: g.doc()}
				t.Members = append(t.Members, m)
			}
			continue
		}
		if r.Chance(1, 8) {
			n = 33 + r.Intn(28) // more than one word of presence bits
		}
		for i := 0; i < n; i++ {
			m := &Member{Kind: "attribute", Name: nm(), Explicit: r.Chance(1, 4), Doc: g.doc()}
			switch k := r.Intn(20); {
			case k < 9:
				m.Type = TypeRef{Name: core.Pick(r, Scalars)}
			case k < 11:
				m.Type = TypeRef{Name: core.Pick(r, []string{"String", "Integer", "Long", "Float", "Boolean", "Date"}), List: true}
			case k < 13:
				m.Type = TypeRef{Name: core.Pick(r, []string{"String", "Integer", "Long", "Float", "Boolean"}), Map: true, Index: "String"}
			case k < 15:
				m.Type = TypeRef{Name: core.Pick(r, structs).Name}
			case k < 16:
				m.Type = TypeRef{Name: core.Pick(r, structs).Name, List: true}
			case k < 17:
				m.Type = TypeRef{Name: core.Pick(r, structs).Name, Map: true, Index: "String"}
			case k < 18:
				m.Kind = "link"
				m.Type = TypeRef{Name: core.Pick(r, classes).Name}
			case k < 19:
				m.Kind = "link"
				m.Type = TypeRef{Name: core.Pick(r, classes).Name, List: true}
			default:
				if len(enums) > 0 {
					m.Type = TypeRef{Name: core.Pick(r, enums).Name}
					if r.Chance(1, 3) {
						m.Type.List = true
					}
				} else {
					m.Type = TypeRef{Name: "String"}
				}
			}
			if g.o.Anns && r.Chance(1, 8) {
				m.Anns = append(m.Anns, Annotation{Name: "json", Params: []AnnParam{{"name", str("x_" + Snake(m.Name))}}})
			}
			t.Members = append(t.Members, m)
		}
	}
	scalarParam := func(nm func() string) *Param {
		return &Param{Dirs: []string{"in"}, Name: nm(), Type: TypeRef{Name: core.Pick(r, []string{"String", "Integer", "Long", "Float", "Boolean", "Date"})}, Explicit: r.Chance(1, 4), Doc: g.doc()}
	}
	method := func(kind string) *Member {
		m := &Member{Kind: "method", Name: kind, Explicit: r.Chance(1, 2), Doc: g.doc()}
		nm := g.fresh()
		body := core.Pick(r, structs).Name
		extras := func() {
			for i := r.Intn(3); i > 0; i-- {
				m.Params = append(m.Params, scalarParam(nm))
			}
		}
		page := func() {
			m.Params = append(m.Params, &Param{Dirs: []string{"in", "out"}, Name: "Page", Type: TypeRef{Name: "Integer"}, Default: "1"},
				&Param{Dirs: []string{"in", "out"}, Name: "Size", Type: TypeRef{Name: "Integer"}, Default: "100"},
				&Param{Dirs: []string{"out"}, Name: "Total", Type: TypeRef{Name: "Integer"}})
		}
		switch kind {
		case "Get":
			extras()
			m.Params = append(m.Params, &Param{Dirs: []string{"out"}, Name: "Body", Type: TypeRef{Name: body}})
		case "Add":
			extras()
			m.Params = append(m.Params, &Param{Dirs: []string{"in", "out"}, Name: "Body", Type: TypeRef{Name: body}})
		case "Update", "AsyncUpdate":
			extras()
			m.Params = append(m.Params, &Param{Dirs: []string{"in", "out"}, Name: "Body", Type: TypeRef{Name: body, List: kind == "Update" && r.Chance(1, 5)}})
		case "Delete", "AsyncDelete":
			extras()
		case "Post":
			m.Params = append(m.Params, &Param{Dirs: []string{"in"}, Name: "Request", Type: TypeRef{Name: body}},
				&Param{Dirs: []string{"out"}, Name: "Response", Type: TypeRef{Name: core.Pick(r, structs).Name}})
		case "List":
			page()
			extras()
			m.Params = append(m.Params, &Param{Dirs: []string{"out"}, Name: "Items", Type: TypeRef{Name: body, List: true}})
		case "Search":
			page()
			m.Params = append(m.Params, &Param{Dirs: []string{"in"}, Name: "Body", Type: TypeRef{Name: body}},
				&Param{Dirs: []string{"out"}, Name: "Items", Type: TypeRef{Name: core.Pick(r, structs).Name, List: true}})
		default: // action
			for i := r.Intn(4); i > 0; i-- {
				p := scalarParam(nm)
				switch r.Intn(6) {
				case 0:
					p.Type = TypeRef{Name: core.Pick(r, structs).Name}
				case 1:
					p.Type = TypeRef{Name: core.Pick(r, structs).Name, List: true}
				}
				p.Dirs = core.Pick(r, [][]string{{"in"}, {"out"}, {"in", "out"}, {"in"}})
				m.Params = append(m.Params, p)
			}
		}
		for _, p := range m.Params {
			if p.Doc == "" {
				p.Doc = g.doc()
			}
		}
		return m
	}
	nr := 1 + r.Intn(g.o.Resources)
	var res []*Decl
	for i := 0; i < nr; i++ {
		d := &Decl{Kind: "resource", Doc: g.doc()}
		if i == 0 {
			d.Name = "Root"
		} else {
			d.Name = g.name()
		}
		res = append(res, d)
	}
	for i, d := range res {
		if i > 0 {
			sets := [][]string{{"Get"}, {"Get", "Update", "Delete"}, {"List", "Add"}, {"List"}, {"Post"}, {"Search"}, {"Get", "AsyncDelete"}, {"Get", "AsyncUpdate"}, {"Delete"}, {"Get", "Delete", "Update", "Add"}}
			for _, k := range core.Pick(r, sets) {
				d.Members = append(d.Members, method(k))
			}
			if r.Chance(1, 3) {
				g.used = map[string]bool{}
				d.Members = append(d.Members, method(core.Pick(r, []string{"Activate", "Rotate", "Upgrade", "Restart"})))
			}
		}
		nm := g.fresh()
		for j := i + 1; j < len(res); j++ {
			// every resource is reachable from its predecessor or from the root
			if j == i+1 || r.Chance(1, 4) {
				l := &Member{Kind: "locator", Name: nm(), Doc: g.doc(), Targets: []string{res[j].Name}, LocOrder: "t"}
				if i > 0 && r.Chance(1, 2) {
					l.Vars = []string{"ID"}
					l.LocOrder = core.Pick(r, []string{"tv", "vt"})
				}
				d.Members = append(d.Members, l)
				if len(l.Vars) > 0 {
					break // one variable locator is enough
				}
			}
		}
	}
	decls := append(append([]*Decl{}, types...), res...)
	for i := r.Intn(3); i > 0; i-- {
		decls = append(decls, &Decl{Kind: "error", Name: g.name(), Doc: g.doc(), Members: []*Member{{Kind: "code", Code: strconv.Itoa(400 + r.Intn(9000))}}})
	}
	core.Shuffle(r, decls)
	// Distribution over files.
	if r.Chance(g.o.OneFile, 10) {
		v.Files = []*File{{Name: "all.model", Decls: decls}}
		return v
	}
	for i := 0; i < len(decls); {
		n := 1 + r.Intn(2)
		if i+n > len(decls) {
			n = len(decls) - i
		}
		suffix := map[string]string{"resource": "_resource", "error": "_error"}[decls[i].Kind]
		if suffix == "" {
			suffix = "_type"
		}
		v.Files = append(v.Files, &File{Name: Snake(decls[i].Name) + suffix + ".model", Decls: decls[i : i+n]})
		i += n
	}
	// Names that other tools give a meaning to.
	for i, f := range v.Files {
		if r.Chance(1, 6) {
			f.Name = core.Pick(r, []string{"_", ".", "~", "-", "X", "0", "a b ", "ñ"}) + f.Name
		} else if r.Chance(1, 16) { // Every regular file of the directory is part of the model.
			f.Name = core.Pick(r, []string{f.Name + "~", f.Name + ".bak", strings.TrimSuffix(f.Name, ".model"), strings.TrimSuffix(f.Name, ".model") + ".txt"})
		} else if r.Chance(1, 6) {
			f.Name = strings.TrimSuffix(f.Name, ".model") + core.Pick(r, []string{"_test", "_linux", ".bak", ".old", ".tmp", "~", strconv.Itoa(i)}) + ".model"
		}
	}
	return v
}
