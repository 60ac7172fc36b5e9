// Package toolsim simulates the metamodel command on a machine whose disk, processes and clock misbehave, and
// checks properties C01 to C07.
package toolsim

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"verif/sim/internal/core"
	"verif/sim/internal/mm"
	"verif/sim/internal/vfs"
	"verif/sim/internal/world"
)

// Layout says where things are on the simulated machine and what else surrounds the run.
type Layout struct {
	Cwd      string   `json:"cwd"`
	ModelArg string   `json:"model_arg"`
	OutArg   string   `json:"out_arg"`
	Tmp      string   `json:"tmp"`
	Base     string   `json:"base"`
	Env      []string `json:"env"`
	Seed     uint64   `json:"seed"`      // runtime randomness
	ListSeed uint64   `json:"list_seed"` // directory order
	World    uint64   `json:"world"`     // clock, pids, pace
	Yield    uint64   `json:"yield,omitempty"`
	Host     string   `json:"host,omitempty"`
	NoModule bool     `json:"no_module,omitempty"` // the output isn't inside the Go module that it is for
	Split    uint64   `json:"split,omitempty"`     // the model is distributed over two directories
	NoFmt    bool     `json:"no_fmt,omitempty"`    // the formatter isn't installed
	Mute     string   `json:"mute,omitempty"`      // messages can't be written: out, err, all
}

// DefaultLayout is the reference machine.
func DefaultLayout() Layout {
	return Layout{Cwd: "/work", ModelArg: "model", OutArg: "out", Tmp: "/tmp", Base: "example.com/gen", Env: []string{"PATH=/usr/local/bin:/usr/bin:/bin", "HOME=/home/u"}, Seed: 1, World: 1, Host: "sim"}
}

func absPath(cwd, p string) string {
	if strings.HasPrefix(p, "/") {
		return path.Clean(p)
	}
	return path.Join(cwd, p)
}

// ModelDir is the absolute directory of the model.
func (l Layout) ModelDir() string { return absPath(l.Cwd, l.ModelArg) }

// ModelDirs are the absolute directories of the model.
func (l Layout) ModelDirs() []string {
	if l.Split == 0 {
		return []string{l.ModelDir()}
	}
	return []string{l.ModelDir(), l.ModelDir() + "-more"}
}

// ModelFile is the absolute path of a file of the model.
func (l Layout) ModelFile(name string) string {
	d := l.ModelDirs()
	return path.Join(d[core.MixStr(l.Split, name)%uint64(len(d))], name)
}

// OutDir is the absolute output directory.
func (l Layout) OutDir() string { return absPath(l.Cwd, l.OutArg) }

// Args is the command line.
func (l Layout) Args(cmd string) []string {
	args := []string{"metamodel", "generate", cmd, "--model=" + l.ModelArg}
	if cmd == "check" {
		args = []string{"metamodel", "check", "--model=" + l.ModelArg}
	}
	if l.Split != 0 {
		args = append(args, "--model="+l.ModelArg+"-more")
	}
	if cmd == "go" {
		args = append(args, "--base="+l.Base)
	}
	if cmd != "check" {
		args = append(args, "--output="+l.OutArg)
	}
	return args
}

// Machine creates a file system with what every machine has.
func Machine(l Layout) *vfs.FS {
	fs := vfs.New()
	fs.MkdirAll(l.Tmp)
	fs.MkdirAll("/tmp")
	fs.MkdirAll(l.Cwd)
	fs.MkdirAll("/home/u")
	fs.WriteFile("/dev/null", nil, 0o666)
	fs.WriteFile("/etc/passwd", []byte("root:x:0:0:root:/root:/bin/sh\nu:x:1000:1000:u:/home/u:/bin/sh\n"), 0o644)
	fs.WriteFile("/etc/hostname", []byte(l.Host+"\n"), 0o644)
	if !l.NoFmt {
		fs.WriteFile("/usr/bin/goimports", []byte("#!"), 0o755)
	}
	return fs
}

// PutModel writes model files on the machine.
func PutModel(fs *vfs.FS, l Layout, files map[string]string) {
	for _, d := range l.ModelDirs() {
		fs.MkdirAll(d)
	}
	keys := make([]string, 0, len(files))
	for k := range files {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fs.WriteFile(l.ModelFile(k), []byte(files[k]), 0o644)
		fs.Touch(l.ModelFile(k), int64(1.5e18)+int64(core.MixStr(l.World, k)%3e17))
	}
}

// Run is one execution of one command.
type Run struct {
	Cmd    string
	Layout Layout
	Before *vfs.FS
	FS     *vfs.FS
	W      *world.World
	P      *world.Proc
}

// Exec runs one command on the machine, which it changes.
func Exec(bin string, fs *vfs.FS, l Layout, cmd string, faults []world.Fault, maxOps int) (*Run, error) {
	r := &Run{Cmd: cmd, Layout: l, Before: fs.Clone(), FS: fs}
	w := NewWorld(bin, fs, l, faults)
	if maxOps > 0 {
		w.MaxOps = maxOps
	}
	p, err := w.Start(Spec(l, cmd))
	if err != nil {
		return nil, err
	}
	r.W, r.P = w, p
	w.Run(nil)
	return r, w.Infra
}

// NewWorld prepares a world for a layout.
func NewWorld(bin string, fs *vfs.FS, l Layout, faults []world.Fault) *world.World {
	w := world.New(bin, fs, l.World)
	w.Areas = []world.Area{{Prefix: l.OutDir(), Name: "output"}, {Prefix: l.ModelDir(), Name: "model"}, {Prefix: l.ModelDir() + "-more", Name: "model"}, {Prefix: l.Tmp, Name: "temp"}, {Prefix: "/tmp", Name: "temp"}}
	w.Faults = faults
	w.ListSeed = l.ListSeed
	w.Hostname = l.Host
	w.NoModule = l.NoModule
	return w
}

// Spec of the process.
func Spec(l Layout, cmd string) world.Spec {
	env := append([]string{}, l.Env...)
	if l.Tmp != "/tmp" {
		env = append(env, "TMPDIR="+l.Tmp)
	}
	return world.Spec{Args: l.Args(cmd), Env: env, Cwd: l.Cwd, Seed: l.Seed, YieldSeed: l.Yield, Mute: l.Mute}
}

// Out lists the output directory.
func (r *Run) Out() map[string][]byte { return r.FS.Files(r.Layout.OutDir()) }

// Errors extracts the error lines that the command printed.
func (r *Run) Errors() []string { return errorLines(string(r.P.Stdout) + string(r.P.Stderr)) }

func errorLines(s string) []string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		t := l
		for strings.HasPrefix(t, "\x1b[") {
			i := strings.IndexByte(t, 'm')
			if i < 0 {
				break
			}
			t = t[i+1:]
		}
		if strings.HasPrefix(t, "E:") {
			out = append(out, strings.TrimSpace(strings.ReplaceAll(t, "\x1b[m", "")))
		}
	}
	return out
}

// Said tells if anything that looks like an error was printed.
func (r *Run) Said() bool {
	return len(r.Errors()) > 0 || len(strings.TrimSpace(string(r.P.Stderr))) > 0 || r.P.PanicMsg != ""
}

// Quiet tells if errors could not be written.
func (r *Run) Quiet() bool { return r.P.Muted > 0 }

func (r *Run) String() string {
	return fmt.Sprintf("%s exit=%d panic=%v ops=%d", r.Cmd, r.P.Exit, r.P.PanicMsg != "", len(r.P.Ops))
}

// GenModel generates the model of a scenario.
func GenModel(r *core.Rng, size int) (*mm.Model, mm.Style) {
	o := mm.Opts{Services: 1, Versions: 1, Types: 3, Attrs: 4, Resources: 3, Docs: true, Anns: true, Refs: true, OneFile: 2}
	if size > 0 || r.Chance(1, 4) {
		o.Services, o.Versions = 2, 2
	}
	if size > 1 {
		o.Types, o.Attrs, o.Resources = 8, 10, 6
	}
	o.Long = size < 0
	m := mm.Random(r, o)
	return m, mm.Style{Rng: r.Fork(), Docs: true, Header: r.Bool()}
}
