// Package world simulates the machine on which the tool runs: processes parked at every system call, a file
// system, a clock, a formatter program, faults, crashes and a seeded scheduler.
package world

import (
	"encoding/binary"
	"fmt"
	"os"
	"os/exec"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif/sim/internal/core"
	"verif/sim/internal/vfs"
)

const (
	opHello = iota + 1
	opOpen
	opClose
	opRead
	opWrite
	opPread
	opPwrite
	opStat
	opFstat
	opGetdents
	opMkdir
	opUnlink
	opRename
	opLink
	opSymlink
	opReadlink
	opChmod
	opFchmod
	opChown
	opTruncate
	opFtruncate
	opFsync
	opSeek
	opGetcwd
	opChdir
	opFchdir
	opDup
	opAccess
	opFcntl
	opUtimes
	opPipe
	opSpawn
	opWait
	opExit
	opNow
	opRandom
	opGetpid
	opPanic
	opOther
)

// Fault is one thing that goes wrong. It fires at the Nth operation of the given kind in the given area (counted
// per process), or at operation number At when that is set.
type Fault struct {
	Proc   int    `json:"proc,omitempty"`
	Op     string `json:"op,omitempty"`
	Area   string `json:"area,omitempty"`
	Nth    int    `json:"nth,omitempty"`
	At     int    `json:"at,omitempty"`
	Kind   string `json:"kind"` // err, short, eintr, crash, crash-after, crash-mid, fmt-exit, fmt-kill, fmt-missing, jump
	Errno  string `json:"errno,omitempty"`
	Arg    int    `json:"arg,omitempty"`
	Sticky string `json:"sticky,omitempty"` // "", "path", "class", "area"
}

func (f Fault) String() string {
	w := ""
	if f.At > 0 {
		w = fmt.Sprintf("op#%d", f.At)
	} else {
		w = fmt.Sprintf("%s[%s]#%d", f.Op, f.Area, f.Nth)
	}
	s := fmt.Sprintf("p%d %s at %s", f.Proc, f.Kind, w)
	if f.Errno != "" {
		s += " " + f.Errno
	}
	if f.Sticky != "" {
		s += " sticky=" + f.Sticky
	}
	return s
}

// Errnos by name.
var Errnos = map[string]syscall.Errno{
	"EIO": syscall.EIO, "EACCES": syscall.EACCES, "ENOENT": syscall.ENOENT, "ENOSPC": syscall.ENOSPC,
	"EDQUOT": syscall.EDQUOT, "EMFILE": syscall.EMFILE, "ENFILE": syscall.ENFILE, "EROFS": syscall.EROFS,
	"EINTR": syscall.EINTR, "ESTALE": syscall.ESTALE, "EPERM": syscall.EPERM, "ENOMEM": syscall.ENOMEM,
	"EFBIG": syscall.EFBIG, "EAGAIN": syscall.EAGAIN, "ELOOP": syscall.ELOOP, "EBUSY": syscall.EBUSY,
	"EISDIR": syscall.EISDIR, "ENOTDIR": syscall.ENOTDIR, "EEXIST": syscall.EEXIST, "E2BIG": syscall.E2BIG,
}

// Op is one recorded operation.
type Op struct {
	N      int
	Proc   int
	Op     string
	Path   string
	Area   string
	Len    int
	Ret    int64
	Errno  syscall.Errno
	Fault  string
	Nth    int
	Mod    bool // changed the file system
	Exists bool // the target existed before the operation
	Dir    bool // and was a directory
}

func (o Op) String() string {
	s := fmt.Sprintf("%d p%d %s %s len=%d ret=%d", o.N, o.Proc, o.Op, o.Path, o.Len, o.Ret)
	if o.Errno != 0 {
		s += " " + o.Errno.Error()
	}
	if o.Fault != "" {
		s += " FAULT " + o.Fault
	}
	return s
}

type fdesc struct {
	ino    *vfs.Inode
	path   string
	off    int64
	flags  int
	write  bool
	names  []string
	listed bool
	pipe   *pipe
	std    int // 1, 2
	rd     bool
}

type pipe struct {
	buf     []byte
	writers int
	readers int
}

// Spec describes a process to run.
type Spec struct {
	Args []string
	Env  []string
	Cwd  string
	Seed uint64 // random numbers of the runtime
	// YieldSeed, when not zero, makes goroutines of the process yield at random operations.
	YieldSeed uint64
	// Mute makes writing messages fail with a full disk: "out", "err" or "all".
	Mute string
}

// Proc is a simulated process.
type Proc struct {
	ID       int
	Spec     Spec
	Pid      int
	Stdout   []byte
	Stderr   []byte
	Muted    int // messages that could not be written
	mute     string
	Exit     int
	Done     bool
	Crashed  bool // killed by the simulator
	Died     bool // ended without the simulator knowing why
	PanicMsg string
	Stuck    bool
	Ops      []Op
	Fired    []string

	w       *World
	cmd     *exec.Cmd
	req     *os.File
	rep     *os.File
	fds     map[int]*fdesc
	nextFD  int
	cwd     *vfs.Inode
	cwdPath string
	counts  map[string]int
	n       int
	pend    *request
	jobs    map[int]*fmtJob
	yield   *core.Rng
	skipY   bool
	buf     []byte
	realErr *limited
	timer   *time.Timer
	killed  bool
}

type limited struct{ b []byte }

func (l *limited) Write(p []byte) (int, error) {
	if len(l.b) < 1<<16 {
		l.b = append(l.b, p...)
	}
	return len(p), nil
}

type request struct {
	op   int
	ints []int64
	strs []string
	raw  []byte
}

// World is a machine.
type World struct {
	Bin      string
	FS       *vfs.FS
	Areas    []Area
	Faults   []Fault
	Procs    []*Proc
	MaxOps   int
	Clock    int64 // wall clock, ns
	Mono     int64
	ListSeed uint64
	Hostname string
	NoModule bool // the formatter can't find the generated packages, it guesses their names
	Trace    []Op // all operations in the order they happened
	KeepData bool
	rng      *core.Rng
	nextPid  int
	sticky   []*stickyFault
	gran     int64 // granularity of the times of files
	fired    []int
	Infra    error
	mono0    int64
}

// SimNs is the simulated time that passed.
func (w *World) SimNs() int64 { return w.Mono - w.mono0 }

type stickyFault struct {
	f    Fault
	op   string
	area string
	path string
}

// Area gives a name to a part of the file system.
type Area struct{ Prefix, Name string }

// mtime is the time that a file system writes down now: some only keep part of it.
func (w *World) mtime() int64 { return w.Clock - w.Clock%w.gran }

// New creates a world.
func New(bin string, fs *vfs.FS, seed uint64) *World {
	w := &World{Bin: bin, FS: fs, rng: core.NewRng(seed), MaxOps: 200000, nextPid: 1000 + int(seed%30000)}
	w.Clock = 200000000e9 + int64(core.Mix(seed, 77)%2800000000)*1e9 + int64(seed%1e9) // 1976 to 2065
	w.gran = []int64{1, 1, 4e6, 1e9, 2e9}[core.Mix(seed, 78)%5]
	w.Mono = int64(seed % 1e15)
	w.mono0 = w.Mono
	return w
}

// AreaOf classifies a path.
func (w *World) AreaOf(p string) string {
	best, name := -1, "other"
	for _, a := range w.Areas {
		if (p == a.Prefix || strings.HasPrefix(p, a.Prefix+"/")) && len(a.Prefix) > best {
			best, name = len(a.Prefix), a.Name
		}
	}
	return name
}

// Start creates a process parked before its first instruction.
func (w *World) Start(spec Spec) (*Proc, error) {
	p := &Proc{ID: len(w.Procs), Spec: spec, w: w, fds: map[int]*fdesc{}, nextFD: 1000003, counts: map[string]int{}, jobs: map[int]*fmtJob{}}
	w.nextPid++
	p.Pid = w.nextPid
	p.cwd = w.FS.MkdirAll(spec.Cwd)
	p.cwdPath = path.Clean(spec.Cwd)
	p.fds[0] = &fdesc{ino: nil, path: "/dev/stdin", std: 0}
	p.mute = spec.Mute
	p.fds[1] = &fdesc{path: "/dev/stdout", std: 1, write: true}
	p.fds[2] = &fdesc{path: "/dev/stderr", std: 2, write: true}
	if spec.YieldSeed != 0 {
		p.yield = core.NewRng(spec.YieldSeed)
	}
	r1, w1, err := blockingPipe()
	if err != nil {
		return nil, err
	}
	r2, w2, err := blockingPipe()
	if err != nil {
		return nil, err
	}
	p.realErr = &limited{}
	p.cmd = &exec.Cmd{Path: w.Bin, Args: []string{"metamodel"}, Env: []string{"GODEBUG=asyncpreemptoff=1"},
		Dir: "/", ExtraFiles: []*os.File{w1, r2}, Stderr: p.realErr}
	if err := p.cmd.Start(); err != nil {
		return nil, err
	}
	w1.Close()
	r2.Close()
	p.req, p.rep = r1, w2
	w.Procs = append(w.Procs, p)
	p.timer = time.AfterFunc(100*time.Second, func() { p.killed = true; p.cmd.Process.Kill() })
	return p, p.fetch()
}

func blockingPipe() (*os.File, *os.File, error) {
	var fds [2]int
	if err := syscall.Pipe2(fds[:], syscall.O_CLOEXEC); err != nil {
		return nil, nil, err
	}
	return os.NewFile(uintptr(fds[0]), "r"), os.NewFile(uintptr(fds[1]), "w"), nil
}

func readFull(f *os.File, b []byte) error {
	fd := int(f.Fd())
	for len(b) > 0 {
		n, err := syscall.Read(fd, b)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			return err
		}
		if n == 0 {
			return fmt.Errorf("end of file")
		}
		b = b[n:]
	}
	return nil
}

// fetch waits for the next request of the process.
func (p *Proc) fetch() error {
	var h [4]byte
	if err := readFull(p.req, h[:]); err != nil {
		p.ended()
		return nil
	}
	n := int(binary.LittleEndian.Uint32(h[:]))
	if cap(p.buf) < n {
		p.buf = make([]byte, 2*n)
	}
	b := p.buf[:n]
	if err := readFull(p.req, b); err != nil {
		p.ended()
		return nil
	}
	r := &request{op: int(b[0])}
	for i := 1; i < len(b); {
		if b[i] == 'i' {
			r.ints = append(r.ints, int64(binary.LittleEndian.Uint64(b[i+1:])))
			i += 9
		} else {
			l := int(binary.LittleEndian.Uint32(b[i+1:]))
			r.strs = append(r.strs, string(b[i+5:i+5+l]))
			i += 5 + l
		}
	}
	p.pend = r
	return nil
}

// ended: the process vanished without telling (fatal error of the runtime, or an error of the simulator).
func (p *Proc) ended() {
	if p.Done {
		return
	}
	p.timer.Stop()
	p.cmd.Wait()
	p.req.Close()
	p.rep.Close()
	p.Done = true
	p.pend = nil
	if p.killed {
		p.Stuck = true
	}
	code := p.cmd.ProcessState.ExitCode()
	if code == 97 {
		p.w.Infra = fmt.Errorf("simulated process failed: %s", p.realErr.b)
	}
	p.Died = true
	p.Exit = code
	if code < 0 {
		p.Exit = 2
	}
	p.PanicMsg = string(p.realErr.b)
	if p.Exit != 0 && (strings.Contains(p.PanicMsg, "fatal error") || strings.Contains(p.PanicMsg, "panic")) {
		p.Died = false // an end as any other: it has a status and it said why
	}
}

// finish ends the process from the simulator's side.
func (p *Proc) finish() {
	if p.Done {
		return
	}
	p.Done = true
	p.pend = nil
	p.timer.Stop()
	p.cmd.Process.Kill()
	p.cmd.Wait()
	p.req.Close()
	p.rep.Close()
	for fd := range p.fds {
		p.closeFD(fd)
	}
	p.buf = nil
}

func (p *Proc) reply(ret int64, e syscall.Errno, data []byte, flags byte) {
	b := make([]byte, 17, 17+len(data))
	binary.LittleEndian.PutUint64(b, uint64(ret))
	binary.LittleEndian.PutUint32(b[8:], uint32(e))
	binary.LittleEndian.PutUint32(b[12:], uint32(len(data)))
	b[16] = flags
	b = append(b, data...)
	fd := int(p.rep.Fd())
	for len(b) > 0 {
		n, err := syscall.Write(fd, b)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			p.ended()
			return
		}
		b = b[n:]
	}
	p.pend = nil
	if p.n%64 == 0 {
		p.timer.Reset(100 * time.Second)
	}
	p.fetch()
}

// Run steps processes until all have ended; pick chooses among the live ones.
func (w *World) Run(pick func(live []*Proc) *Proc) {
	for w.Infra == nil {
		var live []*Proc
		for _, p := range w.Procs {
			if !p.Done {
				live = append(live, p)
			}
		}
		if len(live) == 0 {
			break
		}
		p := live[0]
		if pick != nil {
			p = pick(live)
		}
		w.Step(p)
	}
	w.Stop()
}

// Stop kills what is left.
func (w *World) Stop() {
	for _, p := range w.Procs {
		if !p.Done {
			p.Crashed = true
			p.finish()
		}
	}
}

func (p *Proc) abs(dirfd int64, s string) (string, *vfs.Inode, syscall.Errno) {
	if strings.HasPrefix(s, "/") {
		return path.Clean(s), p.w.FS.Root, 0
	}
	if dirfd == -100 {
		return path.Join(p.cwdPath, s), p.cwd, 0
	}
	d := p.fds[int(dirfd)]
	if d == nil {
		return s, nil, syscall.EBADF
	}
	if d.ino == nil || !d.ino.IsDir() {
		return s, nil, syscall.ENOTDIR
	}
	return path.Join(d.path, s), d.ino, 0
}

func (p *Proc) closeFD(fd int) {
	d := p.fds[fd]
	if d == nil {
		return
	}
	if d.pipe != nil {
		if d.rd {
			d.pipe.readers--
		} else {
			d.pipe.writers--
		}
	}
	delete(p.fds, fd)
}

func (p *Proc) newFD(d *fdesc) int {
	p.nextFD++
	p.fds[p.nextFD] = d
	return p.nextFD
}

// Step serves the pending request of the process.
func (w *World) Step(p *Proc) {
	r := p.pend
	if r == nil || p.Done {
		return
	}
	w.Clock += 1000 + int64(w.rng.Intn(20000))
	w.Mono += 1000 + int64(w.rng.Intn(20000))
	// Operations that are not system calls of interest:
	switch r.op {
	case opHello:
		var b []byte
		b = binary.LittleEndian.AppendUint64(b, p.Spec.Seed)
		b = binary.LittleEndian.AppendUint32(b, uint32(len(p.Spec.Args)))
		for _, s := range append(append([]string{}, p.Spec.Args...), p.Spec.Env...) {
			b = binary.LittleEndian.AppendUint32(b, uint32(len(s)))
			b = append(b, s...)
		}
		p.reply(0, 0, b, 0)
		return
	case opExit:
		p.Exit = int(r.ints[0])
		w.log(p, Op{Op: "exit", Ret: r.ints[0]})
		p.finish()
		return
	case opPanic:
		p.Exit = 2
		p.PanicMsg = r.strs[0]
		w.log(p, Op{Op: "panic"})
		p.finish()
		return
	case opNow:
		var b []byte
		b = binary.LittleEndian.AppendUint64(b, uint64(w.Clock))
		b = binary.LittleEndian.AppendUint64(b, uint64(w.Mono))
		p.reply(0, 0, b, 0)
		return
	case opRandom:
		b := make([]byte, r.ints[0])
		for i := range b {
			b[i] = byte(w.rng.Next())
		}
		p.reply(int64(len(b)), 0, b, 0)
		return
	case opGetpid:
		p.reply(int64(p.Pid), 0, nil, 0)
		return
	}
	if p.yield != nil && !p.skipY && p.yield.Chance(1, 4) {
		p.skipY = true
		p.reply(0, 0, nil, 1)
		return
	}
	p.skipY = false
	if w.wouldBlock(p, r) {
		p.n++
		if p.n > w.MaxOps {
			p.Stuck = true
			p.finish()
			return
		}
		p.reply(0, 0, nil, 1)
		return
	}
	if r.op == opWait {
		if j := p.jobs[int(r.ints[0])]; j != nil && !j.done {
			w.stepJob(p, j)
			return
		}
	}
	op := Op{Proc: p.ID}
	w.describe(p, r, &op)
	p.n++
	op.N = p.n
	if p.n > w.MaxOps {
		p.Stuck = true
		p.finish()
		return
	}
	key := op.Op + "|" + op.Area
	p.counts[key]++
	op.Nth = p.counts[key]
	f := w.match(p, &op)
	if f != nil {
		op.Fault = f.Kind
		if f.Errno != "" {
			op.Fault += ":" + f.Errno
		}
		w.Procs[p.ID].Fired = append(p.Fired, f.Kind+":"+f.Errno+":"+op.Op+":"+op.Area)
		switch f.Kind {
		case "crash":
			w.log(p, op)
			p.Crashed = true
			p.finish()
			return
		case "crash-after", "crash-mid":
			if f.Kind == "crash-mid" && op.Op == "write" && len(r.strs) > 0 && len(r.strs[0]) > 1 {
				r.strs[0] = r.strs[0][:len(r.strs[0])*(1+f.Arg%9)/10]
			}
			ret, e, _ := w.exec(p, r, &op)
			op.Ret, op.Errno = ret, e
			w.log(p, op)
			p.Crashed = true
			p.finish()
			return
		case "err":
			e := Errnos[f.Errno]
			op.Ret, op.Errno = -1, e
			if r.op == opClose {
				if d := p.fds[int(r.ints[0])]; d != nil && d.write && d.ino != nil && d.ino.IsReg() && !d.ino.IsSynced {
					d.ino.Data = d.ino.Data[:len(d.ino.Data)*(f.Arg%10)/10] // delayed writes failed
				}
				p.closeFD(int(r.ints[0])) // the descriptor is gone even when close fails
			}
			w.log(p, op)
			p.reply(-1, e, nil, 0)
			return
		case "eintr":
			op.Ret, op.Errno = -1, syscall.EINTR
			w.log(p, op)
			p.reply(-1, syscall.EINTR, nil, 0)
			return
		case "short":
			if r.op == opWrite && len(r.strs[0]) > 1 {
				r.strs[0] = r.strs[0][:1+f.Arg%(len(r.strs[0])-1)]
			}
			if (r.op == opRead) && r.ints[1] > 1 {
				r.ints[1] = int64(1 + f.Arg%int(min(r.ints[1]-1, 64)))
			}
		case "jump":
			w.Clock += int64(f.Arg) * 1e9
		}
	}
	ret, e, data := w.exec(p, r, &op)
	op.Ret, op.Errno = ret, e
	w.log(p, op)
	p.reply(ret, e, data, 0)
}

func (w *World) log(p *Proc, op Op) {
	if op.N == 0 {
		p.n++
		op.N = p.n
		op.Proc = p.ID
	}
	p.Ops = append(p.Ops, op)
	w.Trace = append(w.Trace, op)
}

func (w *World) match(p *Proc, op *Op) *Fault {
	if w.fired == nil {
		w.fired = make([]int, len(w.Faults))
	}
	for _, s := range w.sticky {
		if s.f.Proc != p.ID {
			continue
		}
		switch s.f.Sticky {
		case "path":
			if s.path == op.Path && s.op == op.Op {
				return &s.f
			}
		case "class":
			if s.op == op.Op && s.area == op.Area {
				return &s.f
			}
		case "full": // a full disk: anything that needs space
			if s.area == op.Area && (op.Op == "write" || op.Op == "mkdir" || (op.Op == "open-w" && !op.Exists)) {
				return &s.f
			}
		}
	}
	for i := range w.Faults {
		f := &w.Faults[i]
		if f.Proc != p.ID {
			continue
		}
		hit := false
		if f.At > 0 {
			hit = f.At == op.N
		} else {
			hit = f.Op == op.Op && f.Area == op.Area && (f.Nth == op.Nth || (f.Kind == "eintr" && f.Arg > 0 && op.Nth >= f.Nth && op.Nth <= f.Nth+f.Arg))
		}
		if !hit {
			continue
		}
		w.fired[i]++
		if f.Sticky != "" {
			w.sticky = append(w.sticky, &stickyFault{f: *f, op: op.Op, area: op.Area, path: op.Path})
		}
		return f
	}
	return nil
}

// FiredFaults tells which faults of the plan were reached.
func (w *World) FiredFaults() []int { return w.fired }

func (w *World) wouldBlock(p *Proc, r *request) bool {
	if r.op != opRead {
		return false
	}
	d := p.fds[int(r.ints[0])]
	if d == nil || d.pipe == nil || len(d.pipe.buf) > 0 {
		return false
	}
	for _, j := range p.jobs {
		if !j.done {
			w.stepJobSilent(p, j)
			return true
		}
	}
	return d.pipe.writers > 0
}

// describe fills in what the operation is about, before it happens.
func (w *World) describe(p *Proc, r *request, op *Op) {
	at := func(dirfd int64, s string) {
		a, _, _ := p.abs(dirfd, s)
		op.Path = a
	}
	fd := func() *fdesc {
		d := p.fds[int(r.ints[0])]
		if d != nil {
			op.Path = d.path
		} else {
			op.Path = fmt.Sprintf("fd%d", r.ints[0])
		}
		return d
	}
	switch r.op {
	case opOpen:
		at(r.ints[0], r.strs[0])
		op.Op = "open-r"
		if r.ints[1]&(syscall.O_WRONLY|syscall.O_RDWR|syscall.O_CREAT|syscall.O_TRUNC) != 0 {
			op.Op = "open-w"
		}
	case opClose:
		op.Op = "close-r"
		if d := fd(); d != nil && d.write {
			op.Op = "close-w"
		}
	case opRead, opPread:
		op.Op = "read"
		fd()
		op.Len = int(r.ints[1])
	case opWrite, opPwrite:
		op.Op = "write"
		fd()
		op.Len = len(r.strs[0])
	case opStat, opAccess:
		op.Op = "stat"
		at(r.ints[0], r.strs[0])
	case opFstat:
		op.Op = "fstat"
		fd()
	case opGetdents:
		op.Op = "getdents"
		fd()
	case opMkdir:
		op.Op = "mkdir"
		at(r.ints[0], r.strs[0])
	case opUnlink:
		op.Op = "unlink"
		at(r.ints[0], r.strs[0])
	case opRename, opLink:
		op.Op = "rename"
		if r.op == opLink {
			op.Op = "link"
		}
		at(r.ints[1], r.strs[1])
	case opSymlink:
		op.Op = "symlink"
		at(r.ints[0], r.strs[1])
	case opReadlink:
		op.Op = "readlink"
		at(r.ints[0], r.strs[0])
	case opChmod, opChown, opUtimes:
		op.Op = "chmod"
		at(r.ints[0], r.strs[0])
	case opFchmod:
		op.Op = "chmod"
		fd()
	case opTruncate:
		op.Op = "truncate"
		at(-100, r.strs[0])
	case opFtruncate:
		op.Op = "truncate"
		fd()
	case opFsync:
		op.Op = "fsync"
		fd()
	case opSeek:
		op.Op = "seek"
		fd()
	case opGetcwd:
		op.Op = "getcwd"
	case opChdir:
		op.Op = "chdir"
		at(-100, r.strs[0])
	case opFchdir:
		op.Op = "chdir"
		fd()
	case opDup:
		op.Op = "dup"
		fd()
	case opFcntl:
		op.Op = "fcntl"
		fd()
	case opPipe:
		op.Op = "pipe"
	case opSpawn:
		op.Op = "spawn"
		op.Path = r.strs[0]
	case opWait:
		op.Op = "wait"
	default:
		op.Op = "other"
		if len(r.strs) > 0 {
			op.Op = "other:" + r.strs[0]
		}
	}
	op.Area = w.AreaOf(op.Path)
	if strings.HasPrefix(op.Path, "/") {
		n := w.FS.Get(op.Path)
		op.Exists, op.Dir = n != nil, n != nil && n.IsDir()
	}
}

func statBytes(n *vfs.Inode) []byte {
	var b []byte
	size := int64(len(n.Data))
	if n.IsDir() {
		size = 4096
	}
	if n.IsLink() {
		size = int64(len(n.Target))
	}
	for _, v := range []int64{int64(n.Ino), int64(n.Mode), size, 1, n.Mtime / 1e9, n.Mtime % 1e9} {
		b = binary.LittleEndian.AppendUint64(b, uint64(v))
	}
	return b
}

func (w *World) exec(p *Proc, r *request, op *Op) (int64, syscall.Errno, []byte) {
	fs := w.FS
	switch r.op {
	case opOpen:
		_, dir, e := p.abs(r.ints[0], r.strs[0])
		if e != 0 {
			return -1, e, nil
		}
		flags := int(r.ints[1])
		n, parent, name, e := fs.Lookup(dir, r.strs[0], flags&syscall.O_NOFOLLOW != 0)
		wr := flags&(syscall.O_WRONLY|syscall.O_RDWR) != 0
		if e == syscall.ENOENT && flags&syscall.O_CREAT != 0 && parent != nil && !strings.HasSuffix(r.strs[0], "/") {
			n = fs.Create(parent, name, syscall.S_IFREG|uint32(r.ints[2])&0o755)
			n.Mtime = w.mtime()
			op.Mod = true
		} else if e != 0 {
			return -1, e, nil
		} else {
			if flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0 {
				return -1, syscall.EEXIST, nil
			}
			if n.IsDir() && wr {
				return -1, syscall.EISDIR, nil
			}
			if !n.IsDir() && flags&syscall.O_DIRECTORY != 0 {
				return -1, syscall.ENOTDIR, nil
			}
			if n.IsLink() {
				return -1, syscall.ELOOP, nil
			}
			if wr && n.IsReg() && n.Mode&0o200 == 0 {
				return -1, syscall.EACCES, nil
			}
			if flags&syscall.O_TRUNC != 0 && n.IsReg() && wr {
				if len(n.Data) > 0 {
					n.Data, n.IsSynced = nil, false
				}
				n.Mtime = w.mtime()
				op.Mod = true
			}
		}
		return int64(p.newFD(&fdesc{ino: n, path: op.Path, flags: flags, write: wr})), 0, nil
	case opClose:
		if p.fds[int(r.ints[0])] == nil {
			return -1, syscall.EBADF, nil
		}
		p.closeFD(int(r.ints[0]))
		return 0, 0, nil
	case opRead, opPread:
		d := p.fds[int(r.ints[0])]
		if d == nil {
			return -1, syscall.EBADF, nil
		}
		if d.pipe != nil {
			n := min(len(d.pipe.buf), int(r.ints[1]))
			b := d.pipe.buf[:n]
			d.pipe.buf = d.pipe.buf[n:]
			return int64(n), 0, b
		}
		if d.ino == nil || d.path == "/dev/null" {
			return 0, 0, nil
		}
		if d.ino.IsDir() {
			return -1, syscall.EISDIR, nil
		}
		off := d.off
		if r.op == opPread {
			off = r.ints[2]
		}
		if off >= int64(len(d.ino.Data)) {
			return 0, 0, nil
		}
		n := min(int64(len(d.ino.Data))-off, r.ints[1])
		b := d.ino.Data[off : off+n]
		if r.op == opRead {
			d.off += n
		}
		return n, 0, b
	case opWrite, opPwrite:
		d := p.fds[int(r.ints[0])]
		if d == nil {
			return -1, syscall.EBADF, nil
		}
		b := r.strs[0]
		switch {
		case d.std != 0 && (p.mute == "all" || p.mute == []string{"", "out", "err"}[d.std]):
			p.Muted++
			return -1, syscall.ENOSPC, nil
		case d.std == 1:
			p.Stdout = append(p.Stdout, b...)
		case d.std == 2:
			p.Stderr = append(p.Stderr, b...)
		case d.pipe != nil:
			if d.pipe.readers == 0 {
				return -1, syscall.EPIPE, nil
			}
			d.pipe.buf = append(d.pipe.buf, b...)
		case !d.write || d.ino == nil:
			return -1, syscall.EBADF, nil
		case d.path == "/dev/null":
		default:
			off := d.off
			if r.op == opPwrite {
				off = r.ints[1]
			} else if d.flags&syscall.O_APPEND != 0 {
				off = int64(len(d.ino.Data))
			}
			if off == int64(len(d.ino.Data)) {
				d.ino.Append([]byte(b))
			} else {
				d.ino.WriteAt([]byte(b), off)
			}
			d.ino.Mtime = w.mtime()
			if r.op == opWrite {
				d.off = off + int64(len(b))
			}
			op.Mod = len(b) > 0
		}
		return int64(len(b)), 0, nil
	case opStat, opAccess:
		_, dir, e := p.abs(r.ints[0], r.strs[0])
		if e != 0 {
			return -1, e, nil
		}
		nofollow := r.op == opStat && r.ints[1]&0x100 != 0
		var n *vfs.Inode
		if r.strs[0] == "" && r.op == opStat && r.ints[1]&0x1000 != 0 { // AT_EMPTY_PATH
			n = dir
		} else if n, _, _, e = fs.Lookup(dir, r.strs[0], nofollow); e != 0 {
			return -1, e, nil
		}
		if r.op == opAccess {
			if r.ints[1]&1 != 0 && !n.IsDir() && n.Mode&0o111 == 0 {
				return -1, syscall.EACCES, nil
			}
			return 0, 0, nil
		}
		return 0, 0, statBytes(n)
	case opFstat:
		d := p.fds[int(r.ints[0])]
		if d == nil {
			return -1, syscall.EBADF, nil
		}
		if d.ino == nil {
			return 0, 0, statBytes(&vfs.Inode{Ino: 1, Mode: syscall.S_IFIFO | 0o600})
		}
		return 0, 0, statBytes(d.ino)
	case opGetdents:
		d := p.fds[int(r.ints[0])]
		if d == nil {
			return -1, syscall.EBADF, nil
		}
		if d.ino == nil || !d.ino.IsDir() {
			return -1, syscall.ENOTDIR, nil
		}
		if !d.listed {
			d.listed = true
			d.names = w.list(d.ino, d.path)
		}
		var b []byte
		limit := int(r.ints[1])
		if w.ListSeed != 0 {
			limit = min(limit, 300+w.rng.Intn(600))
		}
		cnt := 0
		for len(d.names) > 0 {
			name := d.names[0]
			kid := d.ino.Kids[name]
			if name == "." || name == ".." {
				kid = d.ino
			}
			if kid == nil { // removed meanwhile
				d.names = d.names[1:]
				continue
			}
			l := (19 + len(name) + 1 + 7) / 8 * 8
			if len(b)+l > limit {
				break
			}
			e := make([]byte, l)
			binary.LittleEndian.PutUint64(e, kid.Ino)
			cnt++
			binary.LittleEndian.PutUint64(e[8:], uint64(cnt))
			binary.LittleEndian.PutUint16(e[16:], uint16(l))
			switch {
			case kid.IsDir():
				e[18] = 4
			case kid.IsLink():
				e[18] = 10
			default:
				e[18] = 8
			}
			copy(e[19:], name)
			b = append(b, e...)
			d.names = d.names[1:]
		}
		return int64(len(b)), 0, b
	case opMkdir:
		_, dir, e := p.abs(r.ints[0], r.strs[0])
		if e != 0 {
			return -1, e, nil
		}
		_, parent, name, e := fs.Lookup(dir, r.strs[0], true)
		if e == 0 {
			return -1, syscall.EEXIST, nil
		}
		if e != syscall.ENOENT || parent == nil {
			return -1, e, nil
		}
		n := fs.Create(parent, name, syscall.S_IFDIR|uint32(r.ints[1])&0o755)
		n.Mtime = w.mtime()
		op.Mod = true
		return 0, 0, nil
	case opUnlink:
		_, dir, e := p.abs(r.ints[0], r.strs[0])
		if e != 0 {
			return -1, e, nil
		}
		n, parent, name, e := fs.Lookup(dir, r.strs[0], true)
		if e != 0 {
			return -1, e, nil
		}
		if r.ints[1]&0x200 != 0 {
			if !n.IsDir() {
				return -1, syscall.ENOTDIR, nil
			}
			if len(n.Kids) > 0 {
				return -1, syscall.ENOTEMPTY, nil
			}
		} else if n.IsDir() {
			return -1, syscall.EISDIR, nil
		}
		if parent == n || name == "." || name == ".." {
			return -1, syscall.EINVAL, nil
		}
		delete(parent.Kids, name)
		op.Mod = true
		return 0, 0, nil
	case opRename, opLink:
		_, d1, e := p.abs(r.ints[0], r.strs[0])
		if e != 0 {
			return -1, e, nil
		}
		_, d2, e := p.abs(r.ints[1], r.strs[1])
		if e != 0 {
			return -1, e, nil
		}
		n, p1, n1, e := fs.Lookup(d1, r.strs[0], true)
		if e != 0 {
			return -1, e, nil
		}
		old, p2, n2, e := fs.Lookup(d2, r.strs[1], true)
		if e != 0 && (e != syscall.ENOENT || p2 == nil) {
			return -1, e, nil
		}
		if r.op == opLink {
			if e == 0 {
				return -1, syscall.EEXIST, nil
			}
			p2.Kids[n2] = n
			op.Mod = true
			return 0, 0, nil
		}
		if e == 0 {
			if old == n {
				return 0, 0, nil
			}
			if old.IsDir() != n.IsDir() {
				if old.IsDir() {
					return -1, syscall.EISDIR, nil
				}
				return -1, syscall.ENOTDIR, nil
			}
			if old.IsDir() && len(old.Kids) > 0 {
				return -1, syscall.ENOTEMPTY, nil
			}
		}
		src, _, _ := p.abs(r.ints[0], r.strs[0])
		w.log(p, Op{Proc: p.ID, N: p.n, Op: "rename-from", Path: src, Area: w.AreaOf(src), Mod: true, Exists: true})
		delete(p1.Kids, n1)
		p2.Kids[n2] = n
		n.Parent = p2
		op.Mod = true
		return 0, 0, nil
	case opSymlink:
		_, dir, e := p.abs(r.ints[0], r.strs[1])
		if e != 0 {
			return -1, e, nil
		}
		_, parent, name, e := fs.Lookup(dir, r.strs[1], true)
		if e == 0 {
			return -1, syscall.EEXIST, nil
		}
		if e != syscall.ENOENT || parent == nil {
			return -1, e, nil
		}
		n := fs.Create(parent, name, syscall.S_IFLNK|0o777)
		n.Target = r.strs[0]
		op.Mod = true
		return 0, 0, nil
	case opReadlink:
		_, dir, e := p.abs(r.ints[0], r.strs[0])
		if e != 0 {
			return -1, e, nil
		}
		n, _, _, e := fs.Lookup(dir, r.strs[0], true)
		if e != 0 {
			return -1, e, nil
		}
		if !n.IsLink() {
			return -1, syscall.EINVAL, nil
		}
		return int64(len(n.Target)), 0, []byte(n.Target)
	case opChmod, opChown, opUtimes:
		_, dir, e := p.abs(r.ints[0], r.strs[0])
		if e != 0 {
			return -1, e, nil
		}
		n, _, _, e := fs.Lookup(dir, r.strs[0], false)
		if e != 0 {
			return -1, e, nil
		}
		if r.op == opChmod {
			n.Mode = n.Mode&syscall.S_IFMT | uint32(r.ints[1])&0o7777
		}
		op.Mod = true
		return 0, 0, nil
	case opFchmod:
		d := p.fds[int(r.ints[0])]
		if d == nil || d.ino == nil {
			return -1, syscall.EBADF, nil
		}
		d.ino.Mode = d.ino.Mode&syscall.S_IFMT | uint32(r.ints[1])&0o7777
		op.Mod = true
		return 0, 0, nil
	case opTruncate:
		n, _, _, e := fs.Lookup(p.cwd, r.strs[0], false)
		if e != 0 {
			return -1, e, nil
		}
		n.Resize(r.ints[0])
		op.Mod = true
		return 0, 0, nil
	case opFtruncate:
		d := p.fds[int(r.ints[0])]
		if d == nil || d.ino == nil || !d.write {
			return -1, syscall.EBADF, nil
		}
		d.ino.Resize(r.ints[1])
		op.Mod = true
		return 0, 0, nil
	case opFsync:
		d := p.fds[int(r.ints[0])]
		if d == nil || d.ino == nil {
			return -1, syscall.EBADF, nil
		}
		d.ino.Synced, d.ino.IsSynced = d.ino.Data, true
		return 0, 0, nil
	case opSeek:
		d := p.fds[int(r.ints[0])]
		if d == nil || d.ino == nil {
			return -1, syscall.ESPIPE, nil
		}
		switch r.ints[2] {
		case 0:
			d.off = r.ints[1]
		case 1:
			d.off += r.ints[1]
		case 2:
			d.off = int64(len(d.ino.Data)) + r.ints[1]
		}
		if d.ino.IsDir() {
			d.listed = false
		}
		return d.off, 0, nil
	case opGetcwd:
		return 0, 0, []byte(p.cwdPath)
	case opChdir:
		n, _, _, e := fs.Lookup(p.cwd, r.strs[0], false)
		if e != 0 {
			return -1, e, nil
		}
		if !n.IsDir() {
			return -1, syscall.ENOTDIR, nil
		}
		p.cwd, p.cwdPath = n, op.Path
		return 0, 0, nil
	case opFchdir:
		d := p.fds[int(r.ints[0])]
		if d == nil || d.ino == nil || !d.ino.IsDir() {
			return -1, syscall.EBADF, nil
		}
		p.cwd, p.cwdPath = d.ino, d.path
		return 0, 0, nil
	case opDup:
		d := p.fds[int(r.ints[0])]
		if d == nil {
			return -1, syscall.EBADF, nil
		}
		return int64(p.dup(d)), 0, nil
	case opFcntl:
		d := p.fds[int(r.ints[0])]
		if d == nil {
			return -1, syscall.EBADF, nil
		}
		if r.ints[1] == syscall.F_DUPFD_CLOEXEC || r.ints[1] == syscall.F_DUPFD {
			return int64(p.dup(d)), 0, nil
		}
		if r.ints[1] == syscall.F_GETFL {
			return int64(d.flags), 0, nil
		}
		return 0, 0, nil
	case opPipe:
		q := &pipe{writers: 1, readers: 1}
		a := p.newFD(&fdesc{path: "pipe", pipe: q, rd: true})
		p.newFD(&fdesc{path: "pipe", pipe: q, write: true})
		return int64(a), 0, nil
	case opSpawn:
		return w.spawn(p, r, op)
	case opWait:
		j := p.jobs[int(r.ints[0])]
		if j == nil {
			return -1, syscall.ECHILD, nil
		}
		delete(p.jobs, int(r.ints[0]))
		return int64(j.status), 0, nil
	}
	if r.op == opOther && len(r.strs) > 0 && r.strs[0] == "uname" {
		return 0, 0, []byte(w.Hostname)
	}
	if r.op == opOther && len(r.strs) > 0 && r.strs[0] == "kill" {
		if j := p.jobs[int(r.ints[0])]; j != nil && !j.done {
			j.finish(9)
			return 0, 0, nil
		}
		return -1, syscall.ESRCH, nil
	}
	return -1, syscall.EPERM, nil
}

func (p *Proc) dup(d *fdesc) int {
	c := *d
	if c.pipe != nil {
		if c.rd {
			c.pipe.readers++
		} else {
			c.pipe.writers++
		}
	}
	return p.newFD(&c)
}

func (w *World) list(n *vfs.Inode, p string) []string {
	names := []string{".", ".."}
	for k := range n.Kids {
		names = append(names, k)
	}
	sort.Strings(names)
	if w.ListSeed != 0 {
		sort.Slice(names, func(i, j int) bool {
			a, b := core.MixStr(w.ListSeed, names[i]), core.MixStr(w.ListSeed, names[j])
			if a != b {
				return a < b
			}
			return names[i] < names[j]
		})
	}
	return names
}

// ---------------------------------------------------------------- formatter

type fmtJob struct {
	files  []string
	dir    string
	out    *fdesc
	errf   *fdesc
	next   int
	bad    bool
	done   bool
	status uint32
	fault  *Fault
	stdout bool
	p      *Proc
	owned  []*fdesc
}

func (j *fmtJob) finish(status uint32) {
	j.done = true
	j.status = status
	for _, d := range j.owned {
		if d.pipe != nil && !d.rd {
			d.pipe.writers--
		}
	}
}

func (j *fmtJob) say(msg string) {
	d := j.errf
	if d == nil {
		return
	}
	switch {
	case d.std == 1:
		j.p.Stdout = append(j.p.Stdout, msg...)
	case d.std == 2:
		j.p.Stderr = append(j.p.Stderr, msg...)
	case d.pipe != nil:
		d.pipe.buf = append(d.pipe.buf, msg...)
	}
}

func (w *World) spawn(p *Proc, r *request, op *Op) (int64, syscall.Errno, []byte) {
	name, dir := r.strs[0], r.strs[1]
	nargv := int(r.ints[0])
	argv := r.strs[2 : 2+nargv]
	nfiles := int(r.ints[1])
	var fds []*fdesc
	for i := 0; i < nfiles; i++ {
		fds = append(fds, p.fds[int(r.ints[2+i])])
	}
	op.Path = name
	op.Len = nargv
	n, _, _, e := w.FS.Lookup(p.cwd, name, false)
	if e != 0 {
		return -1, e, nil
	}
	if n.Mode&0o111 == 0 {
		return -1, syscall.EACCES, nil
	}
	base := path.Base(name)
	if base != "goimports" && base != "gofmt" {
		w.Infra = fmt.Errorf("the tool started %q, which the simulator does not know", name)
		return -1, syscall.ENOENT, nil
	}
	j := &fmtJob{p: p, dir: p.cwdPath}
	if dir != "" {
		d, _, _ := p.abs(-100, dir)
		j.dir = d
	}
	wr := false
	for i := 1; i < len(argv); i++ {
		a := argv[i]
		if strings.HasPrefix(a, "-") {
			switch strings.TrimLeft(a, "-") {
			case "w":
				wr = true
			case "e", "v", "format-only", "s", "":
			case "local", "srcdir":
				i++
			default:
				if strings.HasPrefix(strings.TrimLeft(a, "-"), "local=") {
					continue
				}
				w.Infra = fmt.Errorf("option %q of the formatter is not simulated", a)
				return -1, syscall.ENOENT, nil
			}
			continue
		}
		j.files = append(j.files, a)
	}
	if !wr {
		j.stdout = true
	}
	if len(fds) > 1 {
		j.out = fds[1]
	}
	if len(fds) > 2 {
		j.errf = fds[2]
	}
	for _, d := range fds {
		if d != nil && d.pipe != nil {
			c := *d
			if !d.rd {
				d.pipe.writers++
			}
			j.owned = append(j.owned, &c)
		}
	}
	for i := range w.Faults {
		f := &w.Faults[i]
		if strings.HasPrefix(f.Kind, "fmt-") && f.Proc == p.ID {
			j.fault = f
		}
	}
	w.nextPid++
	p.jobs[w.nextPid] = j
	return int64(w.nextPid), 0, nil
}

func (w *World) stepJobSilent(p *Proc, j *fmtJob) { w.jobStep(p, j) }

// stepJob formats one file; the parent stays parked in its wait.
func (w *World) stepJob(p *Proc, j *fmtJob) { w.jobStep(p, j) }

func (w *World) jobStep(p *Proc, j *fmtJob) {
	p.n++
	op := Op{N: p.n, Proc: p.ID, Op: "fmt"}
	defer func() { w.log(p, op) }()
	// A crash of the whole process group can also hit while the formatter works:
	for i := range w.Faults {
		f := &w.Faults[i]
		if f.Proc == p.ID && f.At == p.n && strings.HasPrefix(f.Kind, "crash") {
			p.Fired = append(p.Fired, f.Kind+"::fmt:output")
			op.Fault = f.Kind
			if f.Kind == "crash-mid" && j.next < len(j.files) {
				w.fmtOne(p, j, &op, f.Arg%10)
			}
			p.Crashed = true
			p.finish()
			return
		}
	}
	if j.next >= len(j.files) {
		op.Op = "fmt-end"
		if j.bad {
			j.finish(2 << 8)
		} else {
			j.finish(0)
		}
		return
	}
	if f := j.fault; f != nil && j.next == f.Arg%max(1, len(j.files)) {
		p.Fired = append(p.Fired, f.Kind+":"+f.Errno+":fmt:output")
		op.Fault = f.Kind
		switch f.Kind {
		case "fmt-exit": // fails at this file for reasons of its own
			j.say("goimports: cannot process " + j.files[j.next] + "\n")
			j.bad = true
			j.next++
			j.fault = nil
			return
		case "fmt-abort":
			j.say("goimports: internal error\n")
			j.finish(1 << 8)
			return
		case "fmt-kill":
			j.finish(9)
			return
		case "fmt-torn": // dies while it rewrites a file
			w.fmtOne(p, j, &op, 5)
			j.finish(9)
			return
		case "fmt-enospc":
			w.fmtOne(p, j, &op, 3)
			j.say("goimports: write " + j.files[j.next-1] + ": no space left on device\n")
			j.bad = true
			j.fault = nil
			return
		}
	}
	w.fmtOne(p, j, &op, 10)
}

// fmtOne formats the next file, writing only tenths/10 of the result when that is less than 10.
func (w *World) fmtOne(p *Proc, j *fmtJob, op *Op, tenths int) {
	f := j.files[j.next]
	j.next++
	a := f
	if !strings.HasPrefix(a, "/") {
		a = path.Join(j.dir, f)
	}
	op.Path, op.Area = a, w.AreaOf(a)
	n, _, _, e := w.FS.Lookup(w.FS.Root, a, false)
	if e != 0 || !n.IsReg() {
		j.say("stat " + f + ": no such file or directory\n")
		j.bad = true
		op.Errno = e
		return
	}
	op.Exists = true
	out, err := FormatGo(f, n.Data, w.NoModule)
	if err != nil {
		j.say(err.Error() + "\n")
		j.bad = true
		op.Errno = syscall.EINVAL
		return
	}
	if j.stdout {
		if d := j.out; d != nil && d.pipe != nil {
			d.pipe.buf = append(d.pipe.buf, out...)
		}
		return
	}
	if string(out) == string(n.Data) && tenths >= 10 {
		return
	}
	if tenths < 10 {
		out = out[:len(out)*tenths/10]
	}
	n.Data = append([]byte(nil), out...)
	n.IsSynced = false
	n.Mtime = w.mtime()
	op.Mod = true
}

// Digest is a text from which two executions can be compared.
func (w *World) Digest() uint64 {
	h := uint64(1)
	for _, o := range w.Trace {
		h = core.MixStr(h, o.String())
	}
	for _, p := range w.Procs {
		h = core.MixStr(h, string(p.Stdout)+"\x00"+string(p.Stderr))
		h = core.Mix(h, uint64(p.Exit))
	}
	return core.MixStr(h, w.FS.Hash("/"))
}

// PowerLoss decides what survives of what changed since the given state: data that was not synced may be kept,
// cut, zeroed, or lost; entries that were created may be missing.
func PowerLoss(before, now *vfs.FS, rng *core.Rng) *vfs.FS {
	out := now.Clone()
	var walk func(b, n *vfs.Inode)
	walk = func(b, n *vfs.Inode) {
		names := make([]string, 0, len(n.Kids))
		for k := range n.Kids {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			kid := n.Kids[k]
			var old *vfs.Inode
			if b != nil {
				old = b.Kids[k]
			}
			if kid.IsDir() {
				if old == nil && rng.Chance(1, 8) {
					delete(n.Kids, k)
					continue
				}
				if old != nil && !old.IsDir() {
					old = nil
				}
				walk(old, kid)
				continue
			}
			if !kid.IsReg() {
				continue
			}
			if old != nil && old.IsReg() && string(old.Data) == string(kid.Data) {
				continue
			}
			if kid.IsSynced {
				if old == nil && rng.Chance(1, 8) {
					delete(n.Kids, k)
				}
				continue
			}
			d := kid.Data
			switch rng.Intn(6) {
			case 0: // everything made it
			case 1:
				d = nil
			case 2:
				d = d[:rng.Intn(len(d)+1)]
			case 3:
				z := append([]byte(nil), d...)
				for i := rng.Intn(len(z) + 1); i < len(z); i++ {
					z[i] = 0
				}
				d = z
			case 4:
				if old == nil {
					delete(n.Kids, k)
					continue
				}
				d = old.Data
			case 5:
				if old != nil && old.IsReg() { // new length, old blocks
					z := append([]byte(nil), d...)
					copy(z, old.Data)
					d = z
				}
			}
			kid.Data = append([]byte(nil), d...)
		}
		if b != nil { // removals may not have reached the disk
			gone := make([]string, 0, len(b.Kids))
			for k := range b.Kids {
				gone = append(gone, k)
			}
			sort.Strings(gone)
			for _, k := range gone {
				v := b.Kids[k]
				if n.Kids[k] == nil && v.IsReg() && rng.Chance(1, 4) {
					c := *v
					c.Parent = n
					n.Kids[k] = &c
				}
			}
		}
	}
	walk(before.Root, out.Root)
	return out
}
