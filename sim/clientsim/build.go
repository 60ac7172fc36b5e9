package clientsim

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"verif/sim/internal/core"
	"verif/sim/internal/ov"
)

// Built is a worker program.
type Built struct {
	Bin     string
	Models  []*ModelSpec
	Dropped []string // models whose clients can't be generated or compiled
	Files   int
	Points  int // statements where the scheduler can switch
}

func cmdRun(dir string, env []string, name string, args ...string) (string, error) {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	cmd.Env = env
	out, err := cmd.CombinedOutput()
	if err != nil {
		if len(out) > 3000 {
			out = append([]byte("..."), out[len(out)-3000:]...)
		}
		return string(out), fmt.Errorf("%s: %v\n%s", filepath.Base(name), err, out)
	}
	return string(out), nil
}

// BuildWorker generates the clients with the tool of the tree under test and builds the program that runs them.
func BuildWorker(scratch string, models []*ModelSpec, seed uint64, random int) (*Built, error) {
	tool := filepath.Join(scratch, "metamodel")
	if _, err := core.GoRun(core.Repo, "build", "-o", tool, "./cmd/metamodel"); err != nil {
		return nil, err
	}
	gen := filepath.Join(scratch, "gen")
	if err := os.MkdirAll(gen, 0o755); err != nil {
		return nil, err
	}
	mod, err := os.ReadFile(filepath.Join(core.Repo, "tests/go/go.mod"))
	if err != nil {
		return nil, err
	}
	sum, err := os.ReadFile(filepath.Join(core.Repo, "tests/go/go.sum"))
	if err != nil {
		return nil, err
	}
	mod = regexp.MustCompile(`(?m)^module .*$`).ReplaceAll(mod, []byte("module example.com"))
	env := append(core.GoEnv(), "GOFLAGS=-mod=mod")
	write := func(file, text string) error {
		if err := os.MkdirAll(filepath.Dir(file), 0o755); err != nil {
			return err
		}
		return os.WriteFile(file, []byte(text), 0o644)
	}
	if err := write(filepath.Join(gen, "go.mod"), string(mod)); err != nil {
		return nil, err
	}
	if err := write(filepath.Join(gen, "go.sum"), string(sum)); err != nil {
		return nil, err
	}
	if err := write(filepath.Join(gen, "zzyield/yield.go"), "package zzyield\n\nvar Hook func()\n\nfunc P() {\n\tif Hook != nil {\n\t\tHook()\n\t}\n}\n"); err != nil {
		return nil, err
	}
	b := &Built{Bin: filepath.Join(scratch, "worker.bin")}
	type result struct {
		m   *ModelSpec
		err error
	}
	ch := make(chan result)
	for _, m := range models {
		m := m
		go func() {
			ch <- result{m, func() error {
				in := filepath.Join(scratch, "models", m.Name)
				for f, text := range m.Files {
					if err := write(filepath.Join(in, f), text); err != nil {
						return err
					}
				}
				out := filepath.Join(gen, m.Name)
				_, err := cmdRun(gen, env, tool, "generate", "go", "--model="+in, "--base=example.com/"+m.Name, "--output="+out)
				return err
			}()}
		}()
	}
	fails := map[string]error{}
	for range models {
		r := <-ch
		if r.err != nil {
			fails[r.m.Name] = r.err
		}
	}
	for _, m := range models {
		if fails[m.Name] == nil {
			b.Models = append(b.Models, m)
			continue
		}
		if m.Name == "m0" {
			return nil, &noClient{fmt.Sprintf("the client of the fixed model can't be generated: %v", fails[m.Name])}
		}
		b.Dropped = append(b.Dropped, m.Name)
	}
	for _, m := range b.Models {
		if err := b.instrument(filepath.Join(gen, m.Name)); err != nil {
			if m.Name == "m0" {
				return nil, err
			}
			fails[m.Name] = err
		}
	}
	goroot, err := core.GoRoot()
	if err != nil {
		return nil, err
	}
	o := ov.New(filepath.Join(scratch, "overlay-client"), goroot)
	if err := o.Rand(true); err != nil {
		return nil, err
	}
	if err := o.Bubble(); err != nil {
		return nil, err
	}
	file, err := o.Write()
	if err != nil {
		return nil, err
	}
	worker := filepath.Join(scratch, "worker")
	simMod, err := os.ReadFile(filepath.Join(core.Home, "go.mod"))
	if err != nil {
		return nil, err
	}
	goLine := regexp.MustCompile(`(?m)^go .*$`).FindString(string(simMod))
	if err := write(filepath.Join(worker, "go.mod"), fmt.Sprintf("module worker\n\n%s\n\nrequire (\n\tverif/sim v0.0.0\n\texample.com v0.0.0\n)\n\nreplace verif/sim => %s\n\nreplace example.com => %s\n", goLine, core.Home, gen)); err != nil {
		return nil, err
	}
	if err := write(filepath.Join(worker, "go.sum"), string(sum)); err != nil {
		return nil, err
	}
	for {
		text, err := registryMain(gen, b.Models, seed, random)
		if err != nil {
			return nil, err
		}
		if err := write(filepath.Join(worker, "main.go"), text); err != nil {
			return nil, err
		}
		out, err := cmdRun(worker, env, "go", "build", "-overlay", file, "-o", b.Bin, ".")
		if err == nil {
			return b, nil
		}
		var keep []*ModelSpec
		for _, m := range b.Models {
			if m.Name != "m0" && regexp.MustCompile(`\b`+m.Name+`/`).MatchString(out) {
				b.Dropped = append(b.Dropped, m.Name)
				continue
			}
			keep = append(keep, m)
		}
		if regexp.MustCompile(`(?m)^\S*\bm0/\S+\.go:\d+`).MatchString(out) {
			return nil, &noClient{fmt.Sprintf("the client of the fixed model doesn't compile: %v", err)}
		}
		if len(keep) == len(b.Models) {
			return nil, fmt.Errorf("can't build the client: %v", err)
		}
		b.Models = keep
	}
}

// noClient means that the tool doesn't produce a usable client.
type noClient struct{ text string }

func (e *noClient) Error() string { return e.text }

// instrument adds a point where the scheduler can switch before every statement of the generated code.
func (b *Built) instrument(dir string) error {
	return filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return err
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		if err != nil {
			return err
		}
		var at []int
		list := func(l []ast.Stmt) {
			for _, s := range l {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				at = append(at, fset.Position(s.Pos()).Offset)
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch t := n.(type) {
			case *ast.BlockStmt:
				if len(t.List) > 0 {
					switch t.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
					default:
						list(t.List)
					}
				}
			case *ast.CaseClause:
				list(t.Body)
			case *ast.CommClause:
				list(t.Body)
			}
			return true
		})
		b.Files++
		if len(at) == 0 {
			return nil
		}
		b.Points += len(at)
		sort.Ints(at)
		var out bytes.Buffer
		pos := fset.Position(f.Name.End()).Offset
		out.Write(src[:pos])
		out.WriteString("; import zzyield \"example.com/zzyield\"")
		for _, a := range at {
			out.Write(src[pos:a])
			out.WriteString("zzyield.P(); ")
			pos = a
		}
		out.Write(src[pos:])
		return os.WriteFile(p, out.Bytes(), 0o644)
	})
}

// registryMain writes the program: all the exported functions of the generated packages, by name.
func registryMain(gen string, models []*ModelSpec, seed uint64, random int) (string, error) {
	var imports, body bytes.Buffer
	n := 0
	for _, m := range models {
		dir := filepath.Join(gen, m.Name)
		pkgs := map[string][]string{}
		err := filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
			if err != nil || d.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				return err
			}
			f, err := parser.ParseFile(token.NewFileSet(), p, nil, parser.SkipObjectResolution)
			if err != nil {
				return err
			}
			rel, _ := filepath.Rel(dir, filepath.Dir(p))
			for _, x := range f.Decls {
				if fn, ok := x.(*ast.FuncDecl); ok && fn.Recv == nil && fn.Name.IsExported() && fn.Type.TypeParams == nil {
					pkgs[rel] = append(pkgs[rel], fn.Name.Name)
				}
			}
			return nil
		})
		if err != nil {
			return "", err
		}
		fmt.Fprintf(&body, "\t%q: {\n", m.Name)
		var names []string
		for k := range pkgs {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			n++
			ip := "example.com/" + m.Name
			if k != "." {
				ip += "/" + filepath.ToSlash(k)
			}
			fmt.Fprintf(&imports, "\tp%d %q\n", n, ip)
			fmt.Fprintf(&body, "\t\t%q: {\n", filepath.ToSlash(k))
			sort.Strings(pkgs[k])
			for _, f := range pkgs[k] {
				fmt.Fprintf(&body, "\t\t\t%q: reflect.ValueOf(p%d.%s),\n", f, n, f)
			}
			body.WriteString("\t\t},\n")
		}
		body.WriteString("\t},\n")
	}
	return fmt.Sprintf(`package main

import (
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"syscall"
	"testing/synctest"

	"verif/sim/clientsim"

	"example.com/zzyield"
%s)

var registry = clientsim.Registry{
%s}

func main() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(3 << 30)
	if f := flag.Lookup("logtostderr"); f != nil {
		f.Value.Set("true")
	}
	log.SetOutput(io.Discard)
	fd, err := syscall.Dup(1)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	out := os.NewFile(uintptr(fd), "verdicts")
	null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	os.Stdout = null
	models, err := clientsim.Models(%d, %d)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	h := clientsim.Hooks{
		Run: synctest.SimRun, Wait: synctest.Wait, SetSeed: runtime.SimSetSeed, Goid: runtime.SimGoid,
		Yield: func(f func()) { zzyield.Hook = f },
	}
	clientsim.Worker(h, registry, models, out)
}
`, imports.String(), body.String(), seed, random), nil
}
