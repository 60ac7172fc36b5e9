package toolsim

import (
	"encoding/json"
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"verif/sim/harness"
	"verif/sim/internal/core"
	"verif/sim/internal/mm"
)

// canonical writes the declarations that the text contains again: one file for each declaration, no comments,
// regular layout.
func canonical(m *mm.Model) map[string]string {
	n := &mm.Model{}
	for _, s := range m.Services {
		ns := &mm.Service{Name: s.Name}
		for _, v := range s.Versions {
			nv := &mm.Version{Name: v.Name}
			i := 0
			for _, f := range v.Files {
				for _, d := range f.Decls {
					nv.Files = append(nv.Files, &mm.File{Name: fmt.Sprintf("d%04d.model", i), Decls: []*mm.Decl{d}})
					i++
				}
			}
			if i == 0 {
				nv.Files = append(nv.Files, &mm.File{Name: "empty.model"})
			}
			ns.Versions = append(ns.Versions, nv)
		}
		n.Services = append(n.Services, ns)
	}
	return n.Render(mm.Style{})
}

func stripGo(src []byte) string {
	var b strings.Builder
	for _, l := range strings.Split(string(src), "\n") {
		t := strings.TrimSpace(l)
		if t == "" || strings.HasPrefix(t, "//") {
			continue
		}
		b.WriteString(t)
		b.WriteByte('\n')
	}
	return b.String()
}

func stripDescriptions(x any) any {
	switch x := x.(type) {
	case map[string]any:
		for k, v := range x {
			if _, ok := v.(string); ok && k == "description" {
				delete(x, k)
				continue
			}
			x[k] = stripDescriptions(v)
		}
		return x
	case []any:
		for i := range x {
			x[i] = stripDescriptions(x[i])
		}
		return x
	}
	return x
}

func sameJSON(a, b []byte) bool {
	var x, y any
	if json.Unmarshal(a, &x) != nil || json.Unmarshal(b, &y) != nil {
		return false
	}
	return reflect.DeepEqual(stripDescriptions(x), stripDescriptions(y))
}

// sameMeaning compares two outputs without comments and descriptions.
func sameMeaning(cmd string, want, got map[string][]byte) string {
	for _, k := range sortedKeys(want) {
		g, ok := got[k]
		if !ok {
			return "'" + k + "' is missing"
		}
		switch {
		case strings.HasSuffix(k, "/openapi.json"):
			if !sameJSON(want[k], g) {
				return "'" + k + "' differs"
			}
		case strings.HasSuffix(k, "/openapi.go"):
			a, err1 := scanGo(want[k])
			b, err2 := scanGo(g)
			if err1 != nil || err2 != nil || !sameJSON(a.openapi, b.openapi) {
				return "'" + k + "' differs"
			}
		case strings.HasSuffix(k, ".go"):
			if stripGo(want[k]) != stripGo(g) {
				return "'" + k + "' differs"
			}
		}
	}
	for _, k := range sortedKeys(got) {
		if _, ok := want[k]; !ok {
			return "'" + k + "' doesn't belong"
		}
	}
	return ""
}

func (s *Sim) evalC03(sc *Scenario, trace bool) (*harness.Verdict, error) {
	run, err := Exec(s.Bin, sc.machine(sc.Files), sc.Layout, sc.Cmd, nil, 0)
	if err != nil {
		return nil, err
	}
	v := s.verdict(sc, run, trace)
	v.Faults = map[string]int{}
	for _, d := range sc.Damage {
		v.Faults[strings.SplitN(d, " ", 2)[0]]++
	}
	v.Sample = fmt.Sprintf("C03 %s damaged by %v -> exit=%d", sc.Cmd, sc.Damage, run.P.Exit)
	v.Key = core.Mix(hashMap(5, sc.Files), core.MixStr(1, sc.Cmd))
	vs := verdictSetter{v, fmt.Sprintf("%swith a model damaged by %s, ", describe(sc), strings.Join(sc.Damage, " and "))}
	if trace {
		for _, k := range sortedKeys(sc.Files) {
			v.Trace = append(v.Trace, "--- "+k)
			v.Trace = append(v.Trace, strings.Split(sc.Files[k], "\n")...)
		}
	}
	if run.P.Stuck || run.P.Died {
		return vs.fail("stuck", "the command doesn't end by itself"), nil
	}
	why := ""
	m, perr := mm.ParseModel(sc.Files)
	if perr != nil {
		why = "the text isn't a complete model (" + perr.Error() + ")"
	} else if u := m.Undefined(); len(u) > 0 {
		sort.Strings(u)
		why = "it refers to something undefined (" + u[0] + ")"
	} else if d := repeated(m); d != "" {
		why = "it defines " + d + " twice"
	}
	if run.P.Exit != 0 {
		if !run.Said() {
			return vs.fail("silent", "exits with %d without reporting any error", run.P.Exit), nil
		}
		if what := outTouched(run); what != "" && (why != "" || sc.Cmd != "go") {
			return vs.fail("touched", "exits with %d but the output was changed: %s", run.P.Exit, what), nil
		}
		v.Notes["rejected"] = 1
		return v, nil
	}
	if why != "" {
		return vs.fail("accepted", "exits with 0 although %s", why), nil
	}
	if run.Said() {
		return vs.fail("said", "exits with 0 but reports: %s", strings.Join(run.Errors(), "; ")), nil
	}
	v.Notes["accepted"] = 1
	if sc.Cmd == "check" {
		return v, nil
	}
	ref := *sc
	ref.Files = canonical(m)
	ref.Damage = nil
	base, err := s.alone(&ref)
	if err != nil {
		return nil, err
	}
	if base.Exit != 0 {
		return vs.fail("differs", "exits with 0 although the same declarations, written again, are rejected: %s %s", base.Said, first(base.Panic)), nil
	}
	if what := sameMeaning(sc.Cmd, base.Out, run.Out()); what != "" {
		return vs.fail("differs", "exits with 0 but the output isn't that of the declarations in the text: %s", what), nil
	}
	if sc.Prior == nil && regular(m) {
		if what := Incomplete(m, sc.Cmd, run.Out()); what != "" {
			return vs.fail("dropped", "exits with 0 but %s", what), nil
		}
	}
	return v, nil
}

// repeated finds something that is defined twice in the same version: the output can only contain one of them.
func repeated(m *mm.Model) string {
	for _, s := range m.Services {
		for _, v := range s.Versions {
			for _, kinds := range []string{"class struct enum", "resource", "error"} {
				seen := map[string]bool{}
				for _, d := range v.Decls(kinds) {
					if seen[d.Name] {
						return d.Kind + " " + d.Name
					}
					seen[d.Name] = true
				}
			}
		}
	}
	return ""
}

var declStart = regexp.MustCompile(`(?m)^(class|struct|enum|resource|error)\b`)

// spans finds the declarations of a text with the regular layout.
func spans(text string) [][2]int {
	var out [][2]int
	for _, m := range declStart.FindAllStringIndex(text, -1) {
		if end := strings.Index(text[m[0]:], "\n}"); end >= 0 {
			out = append(out, [2]int{m[0], m[0] + end + 2})
		}
	}
	return out
}

// damageDecl damages complete declarations: lost, duplicated, or overwritten with another one, possibly without
// some of its lines. Storage and copying tools work with blocks, and those may match the limits of declarations.
func damageDecl(r *core.Rng, text string, others []string) (string, string) {
	mine := spans(text)
	if len(mine) == 0 {
		return "", ""
	}
	at := core.Pick(r, mine)
	if r.Chance(1, 5) {
		return text[:at[0]] + text[at[1]:], fmt.Sprintf("declaration-lost %d-%d", at[0], at[1])
	}
	src := text
	if r.Chance(1, 3) {
		src = core.Pick(r, others)
	}
	from := spans(src)
	if len(from) == 0 {
		return "", ""
	}
	f := core.Pick(r, from)
	if r.Chance(1, 2) && src == text {
		f = at
	}
	piece := src[f[0]:f[1]]
	if lines := strings.Split(piece, "\n"); len(lines) > 3 && r.Chance(1, 3) {
		lo := 1 + r.Intn(len(lines)-2)
		piece = strings.Join(append(append([]string{}, lines[:lo]...), lines[lo+1:]...), "\n")
	}
	if r.Chance(1, 4) {
		return text[:at[0]] + piece + text[at[1]:], fmt.Sprintf("declaration-overwritten %d-%d", at[0], at[1])
	}
	pos := at[1]
	if r.Bool() {
		pos = len(text)
	}
	return text[:pos] + "\n" + piece + "\n" + text[pos:], fmt.Sprintf("declaration-duplicated %d-%d", f[0], f[1])
}

// damageLines damages complete lines: lost, duplicated, exchanged or replaced with lines of other files.
func damageLines(r *core.Rng, text string, others []string) (string, string) {
	lines := strings.SplitAfter(text, "\n")
	lo := r.Intn(len(lines))
	hi := min(len(lines), lo+1+r.Intn(3))
	join := func(parts ...[]string) string {
		var b strings.Builder
		for _, p := range parts {
			for _, l := range p {
				b.WriteString(l)
			}
		}
		return b.String()
	}
	what := fmt.Sprintf("lines %d-%d", lo+1, hi)
	switch r.Intn(5) {
	case 0:
		return join(lines[:lo], lines[hi:]), "lines-lost " + what
	case 1, 2:
		return join(lines[:hi], lines[lo:hi], lines[hi:]), "lines-duplicated " + what
	case 3: // somewhere else
		at := r.Intn(len(lines) + 1)
		return join(lines[:at], lines[lo:hi], lines[at:]), "lines-duplicated " + what
	default:
		o := strings.SplitAfter(core.Pick(r, others), "\n")
		k := r.Intn(len(o))
		return join(lines[:lo], o[k:min(len(o), k+hi-lo)], lines[hi:]), "lines-overwritten " + what
	}
}

// damage returns a damaged copy of the text and what was done.
func damage(r *core.Rng, text string, others []string) (string, string) {
	b := []byte(text)
	n := len(b)
	if n == 0 {
		return string(append(b, "}"...)), "garbage appended"
	}
	if r.Chance(1, 5) {
		if out, what := damageDecl(r, text, others); what != "" {
			return out, what
		}
	}
	if r.Chance(1, 6) {
		return damageLines(r, text, others)
	}
	block := func() (int, int) {
		size := core.Pick(r, []int{1, 4, 16, 64, 256, 512})
		at := r.Intn(n)
		if r.Bool() {
			at = at / size * size
		}
		return at, min(n, at+size)
	}
	boundary := func() int { // right after some line, preferably the end of a declaration
		var ends []int
		for i := 0; i+1 < n; i++ {
			if b[i] == '}' && (i == 0 || b[i-1] == '\n') {
				ends = append(ends, i+1)
			}
		}
		if len(ends) == 0 || r.Chance(1, 3) {
			for i := range b {
				if b[i] == '\n' || b[i] == '}' || b[i] == '{' {
					ends = append(ends, i+1)
				}
			}
		}
		if len(ends) == 0 {
			return r.Intn(n)
		}
		return core.Pick(r, ends)
	}
	interesting := "{}[]()@=\"`/*\n _aZ09;,.#"
	switch r.Intn(12) {
	case 0, 1:
		at := r.Intn(n)
		return string(b[:at]), fmt.Sprintf("truncation at byte %d", at)
	case 2:
		at := boundary()
		return string(b[:at]), fmt.Sprintf("truncation at byte %d", at)
	case 3:
		lo, hi := block()
		return string(append(append([]byte{}, b[:lo]...), b[hi:]...)), fmt.Sprintf("block-lost %d-%d", lo, hi)
	case 4:
		lo, hi := block()
		for i := lo; i < hi; i++ {
			b[i] = 0
		}
		return string(b), fmt.Sprintf("block-zeroed %d-%d", lo, hi)
	case 5:
		lo, hi := block()
		return string(b[:hi]) + string(b[lo:hi]) + string(b[hi:]), fmt.Sprintf("block-duplicated %d-%d", lo, hi)
	case 6: // the tail of another, longer file
		o := core.Pick(r, others)
		at := boundary()
		if r.Bool() {
			at = n
		}
		k := r.Intn(len(o) + 1)
		return string(b[:at]) + o[k:], fmt.Sprintf("stale-tail of %d bytes at byte %d", len(o)-k, at)
	case 7:
		o := core.Pick(r, others)
		lo, hi := block()
		for i := lo; i < hi && i < len(o); i++ {
			b[i] = o[i]
		}
		return string(b), fmt.Sprintf("block-misdirected %d-%d", lo, hi)
	case 8, 9:
		k := 1 + r.Intn(2)
		what := "bit-flip at"
		for i := 0; i < k; i++ {
			at := r.Intn(n)
			b[at] ^= 1 << r.Intn(8)
			what += fmt.Sprintf(" %d", at)
		}
		return string(b), what
	case 10:
		at := r.Intn(n)
		b[at] = interesting[r.Intn(len(interesting))]
		return string(b), fmt.Sprintf("byte-overwritten at %d with %q", at, b[at])
	default:
		at := boundary()
		s := core.Pick(r, []string{"}", "garbage", "1234", "\"text\"", "@", "// }", "{", "=", "class", "\x00", "enum X", "]"})
		return string(b[:at]) + "\n" + s + "\n" + string(b[at:]), fmt.Sprintf("garbage-inserted %q at %d", s, at)
	}
}
