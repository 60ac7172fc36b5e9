// Part of the simulated build of the tool only: connects every system call of the process to the simulator.
package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"syscall"
	"unsafe"
)

const (
	simReqFD = 3
	simRepFD = 4
)

const (
	opHello = iota + 1
	opOpen
	opClose
	opRead
	opWrite
	opPread
	opPwrite
	opStat
	opFstat
	opGetdents
	opMkdir
	opUnlink
	opRename
	opLink
	opSymlink
	opReadlink
	opChmod
	opFchmod
	opChown
	opTruncate
	opFtruncate
	opFsync
	opSeek
	opGetcwd
	opChdir
	opFchdir
	opDup
	opAccess
	opFcntl
	opUtimes
	opPipe
	opSpawn
	opWait
	opExit
	opNow
	opRandom
	opGetpid
	opPanic
	opOther
)

var simBuf = make([]byte, 0, 1<<16)
var simIn = make([]byte, 1<<16)

func simFatal(msg string) {
	b := []byte("simchild: " + msg + "\n")
	syscall.RawSyscall(syscall.SYS_WRITE, 2, uintptr(unsafe.Pointer(&b[0])), uintptr(len(b)))
	syscall.RawSyscall(syscall.SYS_EXIT_GROUP, 97, 0, 0)
}

func simWriteAll(b []byte) {
	for len(b) > 0 {
		n, _, e := syscall.RawSyscall(syscall.SYS_WRITE, simReqFD, uintptr(unsafe.Pointer(&b[0])), uintptr(len(b)))
		if e == syscall.EINTR {
			continue
		}
		if e != 0 {
			simFatal("write: " + e.Error())
		}
		b = b[n:]
	}
}

func simReadAll(b []byte) {
	for len(b) > 0 {
		n, _, e := syscall.RawSyscall(syscall.SYS_READ, simRepFD, uintptr(unsafe.Pointer(&b[0])), uintptr(len(b)))
		if e == syscall.EINTR {
			continue
		}
		if e != 0 || n == 0 {
			simFatal("read from simulator failed")
		}
		b = b[n:]
	}
}

type simArg interface{}

// simCall sends one operation to the simulator and waits for the answer.  The whole process waits: no other
// goroutine runs until the simulator has decided.
func simCall(op int, args ...simArg) (ret int64, errno syscall.Errno, data []byte) {
	for {
		b := append(simBuf[:0], 0, 0, 0, 0, byte(op))
		for _, a := range args {
			switch v := a.(type) {
			case int:
				b = append(b, 'i')
				b = binary.LittleEndian.AppendUint64(b, uint64(v))
			case string:
				b = append(b, 's')
				b = binary.LittleEndian.AppendUint32(b, uint32(len(v)))
				b = append(b, v...)
			case []byte:
				b = append(b, 's')
				b = binary.LittleEndian.AppendUint32(b, uint32(len(v)))
				b = append(b, v...)
			}
		}
		binary.LittleEndian.PutUint32(b, uint32(len(b)-4))
		simBuf = b
		simWriteAll(b)
		var h [17]byte
		simReadAll(h[:])
		ret = int64(binary.LittleEndian.Uint64(h[0:]))
		errno = syscall.Errno(binary.LittleEndian.Uint32(h[8:]))
		n := int(binary.LittleEndian.Uint32(h[12:]))
		if n > 0 {
			if n > len(simIn) {
				simIn = make([]byte, 2*n)
			}
			simReadAll(simIn[:n])
			data = simIn[:n]
		}
		if h[16]&1 != 0 {
			// The simulator asks to let other goroutines of this process run first, then to repeat.
			runtime.Gosched()
			continue
		}
		return
	}
}

func simErr(e syscall.Errno) error {
	if e == 0 {
		return nil
	}
	return e
}

func simStat(data []byte, st *syscall.Stat_t) {
	g := func(i int) int64 { return int64(binary.LittleEndian.Uint64(data[8*i:])) }
	*st = syscall.Stat_t{}
	st.Dev = 1
	st.Ino = uint64(g(0))
	st.Mode = uint32(g(1))
	st.Size = g(2)
	st.Nlink = uint64(g(3))
	st.Mtim.Sec = g(4)
	st.Mtim.Nsec = g(5)
	st.Ctim = st.Mtim
	st.Atim = st.Mtim
	st.Blksize = 4096
	st.Blocks = (st.Size + 511) / 512
}

func simInstall() {
	e1 := func(op int, args ...simArg) error {
		_, e, _ := simCall(op, args...)
		return simErr(e)
	}
	syscall.Sim_openat = func(dirfd int, path string, flags int, mode uint32) (int, error) {
		r, e, _ := simCall(opOpen, dirfd, path, flags, int(mode))
		if e != 0 {
			return -1, e
		}
		return int(r), nil
	}
	syscall.Sim_Close = func(fd int) error { return e1(opClose, fd) }
	syscall.Sim_read = func(fd int, p []byte) (int, error) {
		r, e, d := simCall(opRead, fd, len(p))
		if e != 0 {
			return -1, e
		}
		copy(p, d)
		return int(r), nil
	}
	syscall.Sim_write = func(fd int, p []byte) (int, error) {
		r, e, _ := simCall(opWrite, fd, p)
		if e != 0 {
			return -1, e
		}
		return int(r), nil
	}
	syscall.Sim_pread = func(fd int, p []byte, off int64) (int, error) {
		r, e, d := simCall(opPread, fd, len(p), int(off))
		if e != 0 {
			return -1, e
		}
		copy(p, d)
		return int(r), nil
	}
	syscall.Sim_pwrite = func(fd int, p []byte, off int64) (int, error) {
		r, e, _ := simCall(opPwrite, fd, p, int(off))
		if e != 0 {
			return -1, e
		}
		return int(r), nil
	}
	syscall.Sim_fstatat = func(fd int, path string, st *syscall.Stat_t, flags int) error {
		_, e, d := simCall(opStat, fd, path, flags)
		if e != 0 {
			return e
		}
		simStat(d, st)
		return nil
	}
	syscall.Sim_Fstat = func(fd int, st *syscall.Stat_t) error {
		_, e, d := simCall(opFstat, fd)
		if e != 0 {
			return e
		}
		simStat(d, st)
		return nil
	}
	syscall.Sim_Getdents = func(fd int, buf []byte) (int, error) {
		r, e, d := simCall(opGetdents, fd, len(buf))
		if e != 0 {
			return -1, e
		}
		copy(buf, d)
		return int(r), nil
	}
	syscall.Sim_Mkdirat = func(fd int, path string, mode uint32) error { return e1(opMkdir, fd, path, int(mode)) }
	syscall.Sim_unlinkat = func(fd int, path string, flags int) error { return e1(opUnlink, fd, path, flags) }
	syscall.Sim_Renameat = func(ofd int, o string, nfd int, n string) error { return e1(opRename, ofd, o, nfd, n) }
	syscall.Sim_linkat = func(ofd int, o string, nfd int, n string, flags int) error {
		return e1(opLink, ofd, o, nfd, n)
	}
	syscall.Sim_symlinkat = func(o string, nfd int, n string) error { return e1(opSymlink, o, nfd, n) }
	syscall.Sim_readlinkat = func(fd int, path string, buf []byte) (int, error) {
		_, e, d := simCall(opReadlink, fd, path)
		if e != 0 {
			return -1, e
		}
		return copy(buf, d), nil
	}
	syscall.Sim_fchmodat = func(fd int, path string, mode uint32) error { return e1(opChmod, fd, path, int(mode)) }
	syscall.Sim_fchmodat2 = func(fd int, path string, mode uint32, flags int) error {
		return e1(opChmod, fd, path, int(mode))
	}
	syscall.Sim_Fchmod = func(fd int, mode uint32) error { return e1(opFchmod, fd, int(mode)) }
	syscall.Sim_Fchownat = func(fd int, path string, u, g, flags int) error { return e1(opChown, fd, path) }
	syscall.Sim_Fchown = func(fd int, u, g int) error { return e1(opOther, "fchown", fd) }
	syscall.Sim_Truncate = func(path string, n int64) error { return e1(opTruncate, path, int(n)) }
	syscall.Sim_Ftruncate = func(fd int, n int64) error { return e1(opFtruncate, fd, int(n)) }
	syscall.Sim_Fsync = func(fd int) error { return e1(opFsync, fd) }
	syscall.Sim_Fdatasync = func(fd int) error { return e1(opFsync, fd) }
	syscall.Sim_Seek = func(fd int, off int64, whence int) (int64, error) {
		r, e, _ := simCall(opSeek, fd, int(off), whence)
		return r, simErr(e)
	}
	syscall.Sim_Getcwd = func(buf []byte) (int, error) {
		_, e, d := simCall(opGetcwd)
		if e != 0 {
			return 0, e
		}
		n := copy(buf, d)
		if n < len(buf) {
			buf[n] = 0
		}
		return n + 1, nil
	}
	syscall.Sim_Chdir = func(path string) error { return e1(opChdir, path) }
	syscall.Sim_Fchdir = func(fd int) error { return e1(opFchdir, fd) }
	syscall.Sim_Dup = func(fd int) (int, error) {
		r, e, _ := simCall(opDup, fd)
		return int(r), simErr(e)
	}
	syscall.Sim_Dup2 = func(a, b int) error { return e1(opOther, "dup2", a, b) }
	syscall.Sim_Dup3 = func(a, b, c int) error { return e1(opOther, "dup3", a, b) }
	syscall.Sim_Fallocate = func(fd int, mode uint32, off int64, n int64) error { return e1(opOther, "fallocate", fd) }
	acc := func(fd int, path string, mode uint32) error { return e1(opAccess, fd, path, int(mode)) }
	syscall.Sim_faccessat = acc
	syscall.Sim_faccessat2 = func(fd int, path string, mode uint32, flags int) error { return acc(fd, path, mode) }
	syscall.Sim_fcntl = func(fd, cmd, arg int) (int, error) {
		r, e, _ := simCall(opFcntl, fd, cmd, arg)
		return int(r), simErr(e)
	}
	syscall.Sim_Flock = func(fd, how int) error { return e1(opFcntl, fd, -1, how) }
	syscall.Sim_Getpid = func() int { r, _, _ := simCall(opGetpid); return int(r) }
	syscall.Sim_Getppid = func() int { return 1 }
	syscall.Sim_Mknodat = func(fd int, path string, mode uint32, dev int) error { return e1(opOther, "mknod", path) }
	syscall.Sim_Sync = func() {}
	syscall.Sim_Umask = func(m int) int { return 0o22 }
	syscall.Sim_Uname = func(u *syscall.Utsname) error {
		*u = syscall.Utsname{}
		_, _, d := simCall(opOther, "uname")
		for i := 0; i < len(d) && i < 60; i++ {
			u.Nodename[i] = int8(d[i])
		}
		return nil
	}
	syscall.Sim_sendfile = func(o, i int, off *int64, n int) (int, error) { return -1, syscall.ENOSYS }
	syscall.Sim_Splice = func(r int, ro *int64, w int, wo *int64, n, f int) (int64, error) { return -1, syscall.EINVAL }
	syscall.Sim_Kill = func(pid int, sig syscall.Signal) error { return e1(opOther, "kill", pid, int(sig)) }
	syscall.Sim_Statfs = func(path string, b *syscall.Statfs_t) error { return syscall.ENOSYS }
	syscall.Sim_Fstatfs = func(fd int, b *syscall.Statfs_t) error { return syscall.ENOSYS }
	syscall.Sim_utimensat = func(fd int, path string, t *[2]syscall.Timespec, flag int) error {
		sec := 0
		if t != nil {
			sec = int(t[1].Sec)
		}
		return e1(opUtimes, fd, path, sec)
	}
	syscall.Sim_utimes = func(path string, t *[2]syscall.Timeval) error { return e1(opUtimes, -100, path, int(t[1].Sec)) }
	syscall.Sim_Getuid = func() int { return 1000 }
	syscall.Sim_Geteuid = func() int { return 1000 }
	syscall.Sim_Getgid = func() int { return 1000 }
	syscall.Sim_Getegid = func() int { return 1000 }
	syscall.Sim_Chroot = func(p string) error { return e1(opOther, "chroot", p) }
	syscall.Sim_Unmount = func(p string, f int) error { return e1(opOther, "unmount", p) }
	syscall.Sim_Setxattr = func(p, a string, d []byte, f int) error { return syscall.ENOTSUP }
	syscall.Sim_Removexattr = func(p, a string) error { return syscall.ENOTSUP }
	syscall.Sim_Sethostname = func(p []byte) error { return e1(opOther, "sethostname") }
	syscall.Sim_pipe = func(p []int, flags int) error {
		r, e, _ := simCall(opPipe)
		if e != 0 {
			return e
		}
		p[0], p[1] = int(r), int(r)+1
		return nil
	}
	syscall.Sim_spawn = func(name string, argv []string, dir string, env []string, files []uintptr) (int, error) {
		args := []simArg{name, dir, len(argv)}
		for _, a := range argv {
			args = append(args, a)
		}
		args = append(args, len(files))
		for _, f := range files {
			args = append(args, int(f))
		}
		for _, e := range env {
			args = append(args, e)
		}
		r, e, _ := simCall(opSpawn, args...)
		return int(r), simErr(e)
	}
	syscall.Sim_wait = func(pid int) (uint32, error) {
		r, e, _ := simCall(opWait, pid)
		return uint32(r), simErr(e)
	}
	syscall.Sim_now = func() (int64, int32, int64) {
		_, _, d := simCall(opNow)
		w := int64(binary.LittleEndian.Uint64(d))
		m := int64(binary.LittleEndian.Uint64(d[8:]))
		return w / 1e9, int32(w % 1e9), m
	}
	syscall.Sim_getrandom = func(p []byte) (int, error) {
		_, _, d := simCall(opRandom, len(p))
		return copy(p, d), nil
	}
	syscall.Sim_exit = func(code int) {
		simCall(opExit, code)
		syscall.RawSyscall(syscall.SYS_EXIT_GROUP, 0, 0, 0)
	}
}

func main() {
	debug.SetGCPercent(-1)
	runtime.GOMAXPROCS(1)
	_, _, d := simCall(opHello)
	// Plan: seed, number of arguments, arguments, environment.
	var strs []string
	seed := binary.LittleEndian.Uint64(d)
	nargs := int(binary.LittleEndian.Uint32(d[8:]))
	for p := 12; p < len(d); {
		n := int(binary.LittleEndian.Uint32(d[p:]))
		strs = append(strs, string(d[p+4:p+4+n]))
		p += 4 + n
	}
	os.Args = strs[:nargs]
	os.Clearenv()
	for _, kv := range strs[nargs:] {
		for i := 0; i < len(kv); i++ {
			if kv[i] == '=' {
				os.Setenv(kv[:i], kv[i+1:])
				break
			}
		}
	}
	runtime.SimSetSeed(seed)
	simInstall()
	defer func() {
		if r := recover(); r != nil {
			simCall(opPanic, fmt.Sprintf("panic: %v\n\n%s", r, debug.Stack()))
			syscall.RawSyscall(syscall.SYS_EXIT_GROUP, 2, 0, 0)
		}
	}()
	metamodelMain()
	simCall(opExit, 0)
	syscall.RawSyscall(syscall.SYS_EXIT_GROUP, 0, 0, 0)
}
