package world

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"path"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// The stand-in for the external formatter (goimports): parses, drops unused imports, sorts imports, formats.

type fmtResult struct {
	out []byte
	err string
}

var fmtCache sync.Map // [32]byte -> fmtResult

var versionRE = regexp.MustCompile(`^v[0-9]+$`)

// FormatGo formats one file as the formatter does. When the file isn't inside a Go module where the imported packages
// can be found the formatter guesses their names from the import paths.
func FormatGo(name string, src []byte, guess bool) ([]byte, error) {
	salt := []byte{0}
	if guess {
		salt[0] = 1
	}
	key := sha256.Sum256(append(salt, src...))
	if r, ok := fmtCache.Load(key); ok {
		f := r.(fmtResult)
		if f.err != "" {
			return nil, fmt.Errorf("%s:%s", name, f.err)
		}
		return f.out, nil
	}
	out, err := formatGo(src, guess)
	f := fmtResult{out: out}
	if err != nil {
		f.err = err.Error()
	}
	fmtCache.Store(key, f)
	if err != nil {
		return nil, fmt.Errorf("%s:%s", name, f.err)
	}
	return out, nil
}

var wellKnown = map[string]string{
	"bufio": "bufio", "bytes": "bytes", "context": "context", "errors": "errors", "fmt": "fmt", "io": "io", "ioutil": "io/ioutil",
	"http": "net/http", "url": "net/url", "path": "path", "sort": "sort", "strconv": "strconv", "strings": "strings", "time": "time",
	"json": "encoding/json", "os": "os", "sync": "sync", "math": "math", "reflect": "reflect",
}

// Packages that the formatter only finds inside of a Go module that uses them.
var moduleKnown = map[string]imp{
	"jsoniter": {"jsoniter", "github.com/json-iterator/go"}, "glog": {"", "github.com/golang/glog"},
}

type imp struct{ name, path string }

func formatGo(src []byte, guess bool) ([]byte, error) {
	fs := token.NewFileSet()
	tree, err := parser.ParseFile(fs, "", src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	used := map[string]bool{}
	ast.Inspect(tree, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				used[id.Name] = true
			}
		}
		return true
	})
	var imports []imp
	for _, d := range tree.Imports {
		p, err := strconv.Unquote(d.Path.Value)
		if err != nil {
			return nil, err
		}
		name := ""
		if d.Name != nil {
			name = d.Name.Name
		}
		id := name
		if id == "" {
			id = path.Base(p)
			if versionRE.MatchString(id) && (guess || !used[id]) {
				id = path.Base(path.Dir(p))
			}
			if i := strings.LastIndexByte(id, '-'); i >= 0 && !used[id] {
				id = id[i+1:]
			}
		}
		if name == "_" || name == "." || used[id] || p == "embed" {
			imports = append(imports, imp{name, p})
		}
	}
	// Add the missing ones that are well known.
	have := map[string]bool{}
	for _, m := range imports {
		have[m.path] = true
	}
	selected := map[*ast.Ident]bool{}
	ast.Inspect(tree, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				selected[id] = true
			}
		}
		return true
	})
	for _, id := range tree.Unresolved {
		add := imp{"", wellKnown[id.Name]}
		if m, ok := moduleKnown[id.Name]; ok && !guess {
			add = m
		}
		if p := add.path; p != "" && selected[id] && !have[p] {
			named := false
			for _, m := range imports {
				if m.name == id.Name || (m.name == "" && path.Base(m.path) == id.Name) {
					named = true
				}
			}
			if !named {
				have[p] = true
				imports = append(imports, add)
			}
		}
	}
	// Cut the import declarations out and write one sorted block.
	var first, end int = -1, -1
	for _, d := range tree.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			s, e := fs.Position(g.Pos()).Offset, fs.Position(g.End()).Offset
			if first < 0 {
				first = s
			}
			end = e
		}
	}
	if first < 0 && len(imports) > 0 {
		first = fs.Position(tree.Name.End()).Offset
		if i := bytes.IndexByte(src[first:], '\n'); i >= 0 {
			first += i + 1
		}
		src = append(append(append([]byte{}, src[:first]...), "\n\n"...), src[first:]...)
		first++
		end = first
	}
	if first >= 0 {
		isStd := func(p string) bool { return !strings.Contains(strings.SplitN(p, "/", 2)[0], ".") }
		sort.SliceStable(imports, func(i, j int) bool {
			a, b := imports[i], imports[j]
			if isStd(a.path) != isStd(b.path) {
				return isStd(a.path)
			}
			if a.path != b.path {
				return a.path < b.path
			}
			return a.name < b.name
		})
		var b bytes.Buffer
		b.Write(src[:first])
		if len(imports) > 0 {
			b.WriteString("import (\n")
			for i, m := range imports {
				if i > 0 && imports[i-1] == m {
					continue
				}
				if i > 0 && isStd(imports[i-1].path) && !isStd(m.path) {
					b.WriteString("\n")
				}
				if m.name != "" {
					b.WriteString("\t" + m.name + " " + strconv.Quote(m.path) + "\n")
				} else {
					b.WriteString("\t" + strconv.Quote(m.path) + "\n")
				}
			}
			b.WriteString(")")
		}
		b.Write(src[end:])
		src = b.Bytes()
	}
	return format.Source(src)
}
