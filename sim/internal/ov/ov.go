// Package ov prepares the build overlay that puts a seam under the Go standard library: every system call
// wrapper that touches files, processes, clocks or randomness first looks at a hook variable.  The overlay is
// used only for the binaries that the simulator builds; with the hook variables nil the behaviour is unchanged.
package ov

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
)

// Overlay accumulates replaced files.
type Overlay struct {
	Dir     string // where the replacement files are written
	Goroot  string
	replace map[string]string
	text    map[string]string
	n       int
}

// New creates an empty overlay that keeps its files in dir.
func New(dir, goroot string) *Overlay {
	return &Overlay{Dir: dir, Goroot: goroot, replace: map[string]string{}, text: map[string]string{}}
}

func (o *Overlay) load(path string) (string, error) {
	if t, ok := o.text[path]; ok {
		return t, nil
	}
	b, err := os.ReadFile(path)
	if err != nil {
		return "", err
	}
	return string(b), nil
}

// Set replaces (or adds) the file with the given text.
func (o *Overlay) Set(path, text string) { o.text[path] = text }

// Patch replaces exactly one occurrence of old in the given file.
func (o *Overlay) Patch(path, old, new string) error {
	t, err := o.load(path)
	if err != nil {
		return err
	}
	if strings.Count(t, old) != 1 {
		return fmt.Errorf("overlay: %d occurrences of %q in %s", strings.Count(t, old), old, path)
	}
	o.text[path] = strings.Replace(t, old, new, 1)
	return nil
}

// Write writes the files and the JSON description, and returns its path.
func (o *Overlay) Write() (string, error) {
	if err := os.MkdirAll(o.Dir, 0o755); err != nil {
		return "", err
	}
	for path, text := range o.text {
		o.n++
		name := filepath.Join(o.Dir, strings.ReplaceAll(strings.TrimPrefix(path, "/"), "/", "__"))
		if err := os.WriteFile(name, []byte(text), 0o644); err != nil {
			return "", err
		}
		o.replace[path] = name
	}
	b, err := json.MarshalIndent(map[string]any{"Replace": o.replace}, "", " ")
	if err != nil {
		return "", err
	}
	file := filepath.Join(o.Dir, "overlay.json")
	return file, os.WriteFile(file, b, 0o644)
}

var sysFuncs = []string{
	"faccessat", "faccessat2", "fchmodat", "fchmodat2", "linkat", "openat", "readlinkat", "symlinkat",
	"unlinkat", "Getcwd", "Chdir", "Close", "Dup", "Dup2", "Dup3", "Fallocate", "Fchdir", "Fchmod", "Fchownat",
	"fcntl", "Fdatasync", "Flock", "Fsync", "Getdents", "Getpid", "Getppid", "Mkdirat", "Mknodat", "read",
	"Sync", "Umask", "Uname", "write", "Fchown", "Fstat", "Ftruncate", "pread", "pwrite", "Renameat", "Seek",
	"sendfile", "Splice", "Truncate", "fstatat", "Kill", "Statfs", "Fstatfs", "utimensat", "utimes",
	"Getuid", "Geteuid", "Getgid", "Getegid", "Chroot", "Unmount", "Setxattr", "Removexattr", "Sethostname", "Fchdir",
}

var funcRE = `(?m)^func %s\((.*?)\)( \(.*\)| [a-zA-Z0-9]+)? \{$`

// Std patches the standard library.
func (o *Overlay) Std() error {
	src := filepath.Join(o.Goroot, "src")
	sys := filepath.Join(src, "syscall")
	z := filepath.Join(sys, "zsyscall_linux_amd64.go")
	decl := &strings.Builder{}
	decl.WriteString("package syscall\n\n// Simulation hooks, nil unless a simulator sets them.\nvar (\n")
	done := map[string]bool{}
	for _, f := range sysFuncs {
		if done[f] {
			continue
		}
		done[f] = true
		t, err := o.load(z)
		if err != nil {
			return err
		}
		m := regexp.MustCompile(fmt.Sprintf(funcRE, f)).FindStringSubmatch(t)
		if m == nil {
			return fmt.Errorf("overlay: no function %s in %s", f, z)
		}
		var names []string
		if m[1] != "" {
			for _, p := range strings.Split(m[1], ",") {
				names = append(names, strings.Fields(p)[0])
			}
		}
		hook := "Sim_" + f
		fmt.Fprintf(decl, "\t%s func(%s)%s\n", hook, m[1], m[2])
		call := hook + "(" + strings.Join(names, ", ") + ")"
		if m[2] == "" {
			call = "{ " + call + "; return }"
		} else {
			call = "{ return " + call + " }"
		}
		if err := o.Patch(z, m[0], m[0]+"\n\tif "+hook+" != nil "+call+"\n"); err != nil {
			return err
		}
	}
	decl.WriteString("\tSim_pipe func(p []int, flags int) error\n")
	decl.WriteString("\tSim_exit func(code int)\n")
	decl.WriteString("\tSim_spawn func(name string, argv []string, dir string, env []string, files []uintptr) (pid int, err error)\n")
	decl.WriteString("\tSim_wait func(pid int) (status uint32, err error)\n")
	decl.WriteString("\tSim_now func() (sec int64, nsec int32, mono int64)\n")
	decl.WriteString("\tSim_getrandom func(p []byte) (n int, err error)\n")
	decl.WriteString(")\n")
	o.Set(filepath.Join(sys, "zz_sim.go"), decl.String())
	if err := o.Patch(filepath.Join(sys, "syscall_linux.go"), "func Pipe2(p []int, flags int) error {\n",
		"func Pipe2(p []int, flags int) error {\n\tif Sim_pipe != nil { return Sim_pipe(p, flags) }\n"); err != nil {
		return err
	}
	ux := filepath.Join(src, "internal/syscall/unix")
	type up struct{ file, sig, body string }
	for _, p := range []up{
		{"at.go", "func Unlinkat(dirfd int, path string, flags int) error {", "if syscall.Sim_unlinkat != nil { return syscall.Sim_unlinkat(dirfd, path, flags) }"},
		{"at.go", "func Openat(dirfd int, path string, flags int, perm uint32) (int, error) {", "if syscall.Sim_openat != nil { return syscall.Sim_openat(dirfd, path, flags, perm) }"},
		{"at.go", "func Readlinkat(dirfd int, path string, buf []byte) (int, error) {", "if syscall.Sim_readlinkat != nil { return syscall.Sim_readlinkat(dirfd, path, buf) }"},
		{"at.go", "func Mkdirat(dirfd int, path string, mode uint32) error {", "if syscall.Sim_Mkdirat != nil { return syscall.Sim_Mkdirat(dirfd, path, mode) }"},
		{"at.go", "func Fchownat(dirfd int, path string, uid, gid int, flags int) error {", "if syscall.Sim_Fchownat != nil { return syscall.Sim_Fchownat(dirfd, path, uid, gid, flags) }"},
		{"at.go", "func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) error {", "if syscall.Sim_Renameat != nil { return syscall.Sim_Renameat(olddirfd, oldpath, newdirfd, newpath) }"},
		{"at.go", "func Linkat(olddirfd int, oldpath string, newdirfd int, newpath string, flag int) error {", "if syscall.Sim_linkat != nil { return syscall.Sim_linkat(olddirfd, oldpath, newdirfd, newpath, flag) }"},
		{"at.go", "func Symlinkat(oldpath string, newdirfd int, newpath string) error {", "if syscall.Sim_symlinkat != nil { return syscall.Sim_symlinkat(oldpath, newdirfd, newpath) }"},
		{"at_fstatat.go", "func Fstatat(dirfd int, path string, stat *syscall.Stat_t, flags int) error {", "if syscall.Sim_fstatat != nil { return syscall.Sim_fstatat(dirfd, path, stat, flags) }"},
		{"fcntl_unix.go", "func Fcntl(fd int, cmd int, arg int) (int, error) {", "if syscall.Sim_fcntl != nil { return syscall.Sim_fcntl(fd, cmd, arg) }"},
		{"copy_file_range_unix.go", "func CopyFileRange(rfd int, roff *int64, wfd int, woff *int64, len int, flags int) (n int, err error) {", "if syscall.Sim_openat != nil { return 0, syscall.ENOSYS }"},
		{"getrandom.go", "func GetRandom(p []byte, flags GetRandomFlag) (n int, err error) {", "if syscall.Sim_getrandom != nil { return syscall.Sim_getrandom(p) }"},
	} {
		if err := o.Patch(filepath.Join(ux, p.file), p.sig+"\n", p.sig+"\n\t"+p.body+"\n"); err != nil {
			return err
		}
	}
	osd := filepath.Join(src, "os")
	if err := o.Patch(filepath.Join(osd, "proc.go"), "func Exit(code int) {\n",
		"func Exit(code int) {\n\tif syscall.Sim_exit != nil { syscall.Sim_exit(code) }\n"); err != nil {
		return err
	}
	if err := o.Patch(filepath.Join(osd, "exec_posix.go"),
		"\tattrSys, shouldDupPidfd := ensurePidfd(attr.Sys)\n", `	if syscall.Sim_spawn != nil {
		var files []uintptr
		for _, f := range attr.Files {
			if f == nil {
				files = append(files, ^uintptr(0))
			} else {
				files = append(files, f.Fd())
			}
		}
		env := attr.Env
		if env == nil {
			env = syscall.Environ()
		}
		pid, e := syscall.Sim_spawn(name, argv, attr.Dir, env, files)
		if e != nil {
			return nil, &PathError{Op: "fork/exec", Path: name, Err: e}
		}
		return newPIDProcess(pid), nil
	}
	attrSys, shouldDupPidfd := ensurePidfd(attr.Sys)
`); err != nil {
		return err
	}
	if err := o.Patch(filepath.Join(osd, "exec_unix.go"), "\t// If we can block until Wait4 will succeed immediately, do so.\n",
		`	if syscall.Sim_wait != nil {
		st, e := syscall.Sim_wait(p.Pid)
		if e != nil {
			return nil, NewSyscallError("wait", e)
		}
		p.doRelease(statusDone)
		return &ProcessState{pid: p.Pid, status: syscall.WaitStatus(st), rusage: &syscall.Rusage{}}, nil
	}
	// If we can block until Wait4 will succeed immediately, do so.
`); err != nil {
		return err
	}
	tm := filepath.Join(src, "time", "time.go")
	if err := o.Patch(tm, "func Now() Time {\n\tsec, nsec, mono := runtimeNow()\n",
		"func Now() Time {\n\tsec, nsec, mono := runtimeNow()\n\tif syscall.Sim_now != nil { sec, nsec, mono = syscall.Sim_now() }\n"); err != nil {
		return err
	}
	t, err := o.load(tm)
	if err != nil {
		return err
	}
	if !strings.Contains(t, "\t\"syscall\"\n") {
		if err := o.Patch(tm, "import (\n", "import (\n\t\"syscall\"\n"); err != nil {
			return err
		}
	}
	// Since and Until: take the simulated clock too.
	for _, f := range []string{"func Since(t Time) Duration {\n", "func Until(t Time) Duration {\n"} {
		exp := "Now().Sub(t)"
		if strings.Contains(f, "Until") {
			exp = "t.Sub(Now())"
		}
		if err := o.Patch(tm, f, f+"\tif syscall.Sim_now != nil { return "+exp+" }\n"); err != nil {
			return err
		}
	}
	return o.Rand(false)
}

// Rand makes the random numbers that the runtime hands out (hash seeds, map iteration, math/rand, temporary
// names) a function of runtime.SimSeed, which starts with a constant. If stable
// all the numbers are the same till the seed changes, so they don't depend on how many are used.
func (o *Overlay) Rand(stable bool) error {
	rf := filepath.Join(o.Goroot, "src", "runtime", "rand.go")
	t, err := o.load(rf)
	if err != nil {
		return err
	}
	i := strings.Index(t, "//go:linknamestd bootstrapRand\nfunc bootstrapRand() uint64 {\n")
	if i < 0 {
		return fmt.Errorf("overlay: bootstrapRand not found")
	}
	if err := o.Patch(rf, "//go:linknamestd bootstrapRand\nfunc bootstrapRand() uint64 {\n",
		"//go:linknamestd bootstrapRand\nfunc bootstrapRand() uint64 {\n\tif simBoot { return simNext() }\n"); err != nil {
		return err
	}
	if err := o.Patch(rf, "//go:linkname rand\nfunc rand() uint64 {\n", "//go:linkname rand\nfunc rand() uint64 {\n\tif simBoot { return simNext() }\n"); err != nil {
		return err
	}
	if err := o.Patch(rf, "\tmp.cheaprand = uint32(rand())\n\tmp.cheaprand64 = rand()\n",
		"\tmp.cheaprand = 0x9e3779b9\n\tmp.cheaprand64 = 0x9e3779b97f4a7c15\n"); err != nil {
		return err
	}
	if err := o.Patch(rf, "\tvar seed [4]uint64\n\tfor i := range seed {\n\t\tseed[i] = bootstrapRand()\n\t}\n",
		"\tvar seed [4]uint64\n\tfor i := range seed {\n\t\tseed[i] = 0x9e3779b97f4a7c15 * uint64(i+1)\n\t}\n"); err != nil {
		return err
	}
	o.Set(filepath.Join(o.Goroot, "src", "runtime", "zz_sim.go"), `package runtime

import _ "unsafe"

const simBoot = true

var simState uint64 = 0x1234567

// SimSetSeed seeds every random number that the runtime hands out from now on.
func SimSetSeed(seed uint64) { simState = seed; simState2 = ^seed }

// SimGoid identifies the goroutine.
func SimGoid() uint64 { return getg().goid }

var simState2 uint64 = 0x7654321

//go:nosplit
func simNext2() uint64 {
	simState2 += 0x9e3779b97f4a7c15
	z := simState2
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nosplit
func simNext() uint64 {
	if !simStable {
		simState += 0x9e3779b97f4a7c15
	}
	z := simState
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

const simStable = `+fmt.Sprint(stable)+`
`)
	// The choices of select statements come from the seed too.
	if err := o.Patch(filepath.Join(o.Goroot, "src", "runtime", "select.go"), "j := cheaprandn(uint32(norder + 1))", "j := uint32(simNext2() % uint64(norder+1))"); err != nil {
		return err
	}
	// So does the order of timers that expire at the same instant of virtual time.
	if err := o.Patch(filepath.Join(o.Goroot, "src", "runtime", "time.go"), "t.rand = cheaprand()", "t.rand = uint32(simNext2())"); err != nil {
		return err
	}
	// No preemption by time: goroutines of the program switch only where they block or yield.
	return o.Patch(filepath.Join(o.Goroot, "src", "runtime", "proc.go"), "func retake(now int64) uint32 {\n",
		"func retake(now int64) uint32 {\n\tif simBoot { return 0 }\n")
}

// Bubble exports the bubbles with virtual time, and makes blocking in a mutex durable in them.
func (o *Overlay) Bubble() error {
	o.Set(filepath.Join(o.Goroot, "src", "testing", "synctest", "zz_sim.go"), `package synctest

import isyn "internal/synctest"

// SimRun runs a function in a bubble.
func SimRun(f func()) { isyn.Run(f) }
`)
	return o.Patch(filepath.Join(o.Goroot, "src", "runtime", "runtime2.go"), "\twaitReasonSynctestSelect:        true,\n}",
		"\twaitReasonSynctestSelect:        true,\n\twaitReasonSyncMutexLock: true,\n\twaitReasonSyncRWMutexRLock: true,\n\twaitReasonSyncRWMutexLock: true,\n}")
}

// RenameMain renames function main of the program in dir to the given name.
func (o *Overlay) RenameMain(dir, name string) error {
	files, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		return err
	}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		fs := token.NewFileSet()
		tree, err := parser.ParseFile(fs, f, b, 0)
		if err != nil {
			return err
		}
		for _, d := range tree.Decls {
			if fn, ok := d.(*ast.FuncDecl); ok && fn.Recv == nil && fn.Name.Name == "main" {
				p := fs.Position(fn.Name.Pos()).Offset
				o.Set(f, string(b[:p])+name+string(b[p+len("main"):]))
				return nil
			}
		}
	}
	return fmt.Errorf("overlay: no function main in %s", dir)
}

// GoRoot returns the root of the Go installation used to build.
func GoRoot() string {
	if r := os.Getenv("GOROOT"); r != "" {
		return r
	}
	return runtime.GOROOT()
}
