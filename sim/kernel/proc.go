package kernel

import (
	"encoding/json"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/google/capslock/internal/verifsim/scn"
)

// ---- helpers for simulated programs

// ReadFile reads a whole file.
func (p *Proc) ReadFile(path string) ([]byte, syscall.Errno) {
	fd, e := p.Open(atFDCWD, path, syscall.O_RDONLY, 0)
	if e != 0 {
		return nil, e
	}
	defer p.Close(fd)
	var out []byte
	buf := make([]byte, 65536)
	for {
		n, e := p.Read(fd, buf)
		if e == syscall.EINTR {
			continue
		}
		if e != 0 {
			return nil, e
		}
		if n == 0 {
			return out, 0
		}
		out = append(out, buf[:n]...)
	}
}

// WriteFile writes a whole file.
func (p *Proc) WriteFile(path string, data []byte, mode uint32) syscall.Errno {
	fd, e := p.Open(atFDCWD, path, syscall.O_WRONLY|syscall.O_CREAT|syscall.O_TRUNC, mode)
	if e != 0 {
		return e
	}
	defer p.Close(fd)
	for len(data) > 0 {
		n, e := p.Write(fd, data)
		if e == syscall.EINTR {
			continue
		}
		if e != 0 {
			return e
		}
		data = data[n:]
	}
	return 0
}

// MkdirAll creates a directory and its parents.
func (p *Proc) MkdirAll(path string) syscall.Errno {
	var st syscall.Stat_t
	if p.Stat(atFDCWD, path, &st, 0) == 0 {
		if st.Mode&syscall.S_IFMT != syscall.S_IFDIR {
			return syscall.ENOTDIR
		}
		return 0
	}
	if i := strings.LastIndexByte(strings.TrimRight(path, "/"), '/'); i > 0 {
		if e := p.MkdirAll(path[:i]); e != 0 {
			return e
		}
	}
	if e := p.Mkdir(atFDCWD, path, 0o755); e != 0 && e != syscall.EEXIST {
		return e
	}
	return 0
}

// List returns the sorted names in a directory; it makes no kernel calls of its
// own besides one open and one read of the directory.
func (p *Proc) List(path string) (names []string, dirs map[string]bool, e syscall.Errno) {
	p.lock()
	k := p.k
	defer k.mu.Unlock()
	v := p.enter("list", path, 0)
	defer func() { p.leave("list", path, v, e, len(names)) }()
	if v.err != 0 {
		return nil, nil, v.err
	}
	_, _, n, _, e := k.walk(join(p.cwd, path), true, 0)
	if e != 0 {
		return nil, nil, e
	}
	if !n.isDir() {
		return nil, nil, syscall.ENOTDIR
	}
	dirs = map[string]bool{}
	names = sortedKids(n)
	for _, s := range names {
		if n.kids[s].isDir() {
			dirs[s] = true
		}
	}
	return names, dirs, 0
}

// Permute shuffles a listing when the scenario asks for it.
func (p *Proc) Permute(n int, swap func(i, j int)) {
	x := p.k.Sc.ListOrder
	if x == 0 {
		return
	}
	for i := n - 1; i > 0; i-- {
		x = x*6364136223846793005 + 1442695040888963407
		swap(i, int((x>>33)%uint64(i+1)))
	}
}

// Exists reports whether a path exists.
func (p *Proc) Exists(path string) bool {
	var st syscall.Stat_t
	return p.Stat(atFDCWD, path, &st, 0) == 0
}

// IsDir reports whether a path is a directory.
func (p *Proc) IsDir(path string) bool {
	var st syscall.Stat_t
	return p.Stat(atFDCWD, path, &st, 0) == 0 && st.Mode&syscall.S_IFMT == syscall.S_IFDIR
}

// RemoveAll removes a tree.
func (p *Proc) RemoveAll(path string) syscall.Errno {
	names, dirs, e := p.List(path)
	if e == syscall.ENOENT {
		return 0
	}
	if e == syscall.ENOTDIR {
		return p.Unlink(atFDCWD, path, 0)
	}
	if e != 0 {
		return e
	}
	for _, n := range names {
		if dirs[n] {
			if e := p.RemoveAll(path + "/" + n); e != 0 {
				return e
			}
		} else if e := p.Unlink(atFDCWD, path+"/"+n, 0); e != 0 {
			return e
		}
	}
	return p.Unlink(atFDCWD, path, 0x200)
}

// Print writes a string to a descriptor.
func (p *Proc) Print(fd int, s string) syscall.Errno {
	b := []byte(s)
	for len(b) > 0 {
		n, e := p.Write(fd, b)
		if e == syscall.EINTR {
			continue
		}
		if e != 0 {
			return e
		}
		b = b[n:]
	}
	return 0
}

// ---- end of simulation

// finish reports the result and ends the real process.
func (k *Kernel) finish(status string, code int, text string) {
	k.done = true
	sched, dispatch := runtime.SimSched()
	m, pre := runtime.SimCounters()
	runtime.SimSchedule(1, 0)
	r := k.Res
	r.Status, r.Code, r.Panic = status, code, text
	r.Stdout, r.Stderr = string(k.stdout), string(k.stderr)
	r.Cwd = k.Main.cwd
	r.FS = k.dumpFS()
	r.Ops = k.ops
	for _, c := range k.children {
		st := c.status
		if !c.exited {
			st = -1
		}
		r.Children = append(r.Children, scn.Child{Label: c.Label, Args: c.Args, Dir: c.cwd, Status: st, Seen: c.Seen})
	}
	r.Fired = k.fired
	r.Enospc, r.Shorts, r.Delays, r.Jumps = k.enospc, k.shorts, k.delays, k.jumps
	r.Events, r.EvHash = k.events, k.evHash
	r.Sched, r.Dispatch = sched, dispatch
	r.Mallocs, r.Preempts = m, pre
	r.SimNanos = k.now() - k.start
	r.Unknown = k.unknown
	for i, n := range syscall.SimUnhandled {
		if n > 0 {
			r.Trap = append(r.Trap, i)
		}
	}
	for fd := range k.Main.fds {
		if fd > 2 {
			r.OpenFDs++
		}
	}
	r.Log = k.log
	b, err := json.Marshal(r)
	if err != nil {
		b = []byte(`{"status":"simerror"}`)
	}
	runtime.SimRealWrite(3, b)
	runtime.SimRealExit(0)
}

// Stdout returns what was written to the standard output from the given offset.
func (k *Kernel) Stdout(from int) string {
	k.mu.Lock()
	defer k.mu.Unlock()
	return string(k.stdout[from:])
}

// Finish ends the simulation from a harness.
func (k *Kernel) Finish(status string, code int) {
	k.mu.Lock()
	k.finish(status, code, "")
}

func toErr(e syscall.Errno) error {
	if e == 0 {
		return nil
	}
	return e
}

// Install makes the kernel serve the main program's system calls.
func (k *Kernel) Install() {
	p := k.Main
	runtime.SimHooks(func(code int) {
		k.mu.TryLock()
		k.finish("exit", code, "")
	}, func(text string) {
		k.mu.TryLock()
		k.finish("panic", 2, text)
	})
	unsupported := func(name string) error {
		k.mu.Lock()
		k.unknown = append(k.unknown, "main: system call "+name)
		k.mu.Unlock()
		return syscall.ENOSYS
	}
	t := &syscall.SimTable{
		Xfaccessat: func(dirfd int, path string, mode uint32) error {
			var st syscall.Stat_t
			if e := p.Stat(dirfd, path, &st, 0); e != 0 {
				return e
			}
			if mode&1 != 0 && st.Mode&syscall.S_IFMT == syscall.S_IFREG && st.Mode&0o111 == 0 {
				return syscall.EACCES
			}
			return nil
		},
		Xfchmodat: func(dirfd int, path string, mode uint32) error { return toErr(p.Chmod(dirfd, path, mode)) },
		Xlinkat: func(a int, b string, c int, d string, flags int) error {
			return toErr(p.Link(a, b, c, d))
		},
		Xopenat: func(dirfd int, path string, flags int, mode uint32) (int, error) {
			fd, e := p.Open(dirfd, path, flags, mode)
			return fd, toErr(e)
		},
		Xpipe2: func(fds *[2]int32, flags int) error { return toErr(p.Pipe(fds)) },
		Xreadlinkat: func(dirfd int, path string, buf []byte) (int, error) {
			n, e := p.Readlink(dirfd, path, buf)
			if e != 0 {
				return -1, e
			}
			return n, nil
		},
		Xsymlinkat: func(old string, d int, n string) error { return toErr(p.Symlink(old, d, n)) },
		Xunlinkat:  func(d int, path string, flags int) error { return toErr(p.Unlink(d, path, flags)) },
		Xutimensat: func(dirfd int, path string, times *[2]syscall.Timespec, flag int) error { return nil },
		XGetcwd: func(buf []byte) (int, error) {
			s, e := p.Getcwd()
			if e != 0 {
				return 0, e
			}
			if len(s)+1 > len(buf) {
				return 0, syscall.ERANGE
			}
			copy(buf, s)
			buf[len(s)] = 0
			return len(s) + 1, nil
		},
		Xwait4: func(pid int, st *int32, opt int, ru *syscall.Rusage) (int, error) {
			n, e := p.Wait(pid, st, opt)
			return n, toErr(e)
		},
		XChdir: func(path string) error { return toErr(p.Chdir(path)) },
		XClose: func(fd int) error { return toErr(p.Close(fd)) },
		XDup: func(fd int) (int, error) {
			n, e := p.Dup(fd, 0)
			return n, toErr(e)
		},
		XDup3: func(a, b, f int) error { return unsupported("dup3") },
		XFchdir: func(fd int) error {
			k.mu.Lock()
			f := p.fds[fd]
			k.mu.Unlock()
			if f == nil {
				return syscall.EBADF
			}
			return toErr(p.Chdir(f.path))
		},
		XFchmod:   func(fd int, mode uint32) error { return nil },
		XFchownat: func(d int, path string, u, g, f int) error { return nil },
		XFchown:   func(fd, u, g int) error { return nil },
		Xfcntl: func(fd, cmd, arg int) (int, error) {
			switch cmd {
			case syscall.F_DUPFD, syscall.F_DUPFD_CLOEXEC:
				n, e := p.Dup(fd, arg)
				return n, toErr(e)
			case syscall.F_GETFL:
				k.mu.Lock()
				defer k.mu.Unlock()
				if f := p.fds[fd]; f != nil {
					return f.flags & (syscall.O_ACCMODE | syscall.O_APPEND), nil
				}
				return -1, syscall.EBADF
			}
			return 0, nil
		},
		XFdatasync: func(fd int) error { return p.sync(fd) },
		XFlock:     func(fd, how int) error { return nil },
		XFsync:     func(fd int) error { return p.sync(fd) },
		XGetdents: func(fd int, buf []byte) (int, error) {
			n, e := p.Getdents(fd, buf)
			if e != 0 {
				return -1, e
			}
			return n, nil
		},
		XGetpid:  func() int { return p.Pid },
		XGetppid: func() int { return 1 },
		XKill:    func(pid int, sig syscall.Signal) error { return toErr(p.Kill(pid, int(sig))) },
		XMkdirat: func(d int, path string, mode uint32) error { return toErr(p.Mkdir(d, path, mode)) },
		Xread: func(fd int, b []byte) (int, error) {
			n, e := p.Read(fd, b)
			if e != 0 {
				return -1, e
			}
			return n, nil
		},
		Xwrite: func(fd int, b []byte) (int, error) {
			n, e := p.Write(fd, b)
			if e != 0 {
				if e == syscall.EPIPE && (fd == 1 || fd == 2) {
					k.mu.Lock()
					k.finish("sigpipe", 141, "")
				}
				return -1, e
			}
			return n, nil
		},
		XFstat: func(fd int, st *syscall.Stat_t) error { return toErr(p.Fstat(fd, st)) },
		Xfstatat: func(d int, path string, st *syscall.Stat_t, flags int) error {
			return toErr(p.Stat(d, path, st, flags))
		},
		XFtruncate: func(fd int, n int64) error { return toErr(p.Truncate(fd, n)) },
		XTruncate: func(path string, n int64) error {
			fd, e := p.Open(atFDCWD, path, syscall.O_WRONLY, 0)
			if e != 0 {
				return e
			}
			defer p.Close(fd)
			return toErr(p.Truncate(fd, n))
		},
		Xpread: func(fd int, b []byte, off int64) (int, error) {
			n, e := p.readAt(fd, b, off)
			if e != 0 {
				return -1, e
			}
			return n, nil
		},
		Xpwrite: func(fd int, b []byte, off int64) (int, error) {
			n, e := p.writeAt(fd, b, off)
			if e != 0 {
				return -1, e
			}
			return n, nil
		},
		XRenameat: func(a int, b string, c int, d string) error { return toErr(p.Rename(a, b, c, d)) },
		XSeek: func(fd int, off int64, whence int) (int64, error) {
			n, e := p.Seek(fd, off, whence)
			return n, toErr(e)
		},
		XUname: func(u *syscall.Utsname) error {
			*u = syscall.Utsname{}
			for i, c := range "6.1.0-sim" {
				u.Release[i] = int8(c)
			}
			return nil
		},
		XUmask: func(mask int) int { return 0o022 },
		ForkExec: func(argv0 string, argv []string, attr *syscall.ProcAttr) (int, error) {
			var files []int
			for _, f := range attr.Files {
				files = append(files, int(int32(f)))
			}
			env := attr.Env
			pid, e := p.Spawn(argv0, argv, env, attr.Dir, files)
			return pid, toErr(e)
		},
	}
	t.Xfaccessat2 = func(dirfd int, path string, mode uint32, flags int) error {
		return t.Xfaccessat(dirfd, path, mode)
	}
	syscall.Sim = t
	runtime.SimSchedule(k.Sc.Seed*0xD1342543DE82EF95+7, k.Sc.Prem)
	go func() {
		// When every goroutine is blocked the simulated clock jumps forward to
		// the next timer; reaching this one means nothing else can happen.
		time.Sleep(100 * 365 * 24 * time.Hour)
		k.mu.Lock()
		k.finish("hang", -1, "")
	}()
}

func (p *Proc) sync(fd int) error {
	p.lock()
	defer p.k.mu.Unlock()
	v := p.enter("fsync", "", 0)
	p.leave("fsync", "", v, v.err, fd)
	return toErr(v.err)
}

// SortedEnv is used by stubs that print their environment.
func (p *Proc) SortedEnv() []string {
	e := append([]string(nil), p.EnvL...)
	sort.Strings(e)
	return e
}
