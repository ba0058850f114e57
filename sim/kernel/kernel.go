// Package kernel is the simulated operating system: an in-memory file system,
// pipes, processes, a clock, seeded yields and injected faults.  All state
// lives in one process and every decision comes from the scenario's seed.
package kernel

import (
	"bytes"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/google/capslock/internal/verifsim/scn"
)

// Program is the body of a simulated executable.
type Program func(p *Proc)

// Programs maps names found in simulated executables to their bodies.
var Programs = map[string]Program{}

// K is the running kernel.
var K *Kernel

type Kernel struct {
	mu      sync.Mutex
	cond    *sync.Cond
	Sc      *scn.Scenario
	root    *inode
	nextIno uint64
	initial map[string]uint64
	quiet   []string
	procs   map[int]*Proc
	Main    *Proc
	nextPid int
	rng     uint64
	disk    int64
	spawned map[string]int

	faults []scn.Fault
	fired  []scn.Fault

	ops      []scn.OpRec
	log      []string
	evHash   uint64
	events   int
	maxEv    int
	enospc   int
	shorts   int
	delays   int
	jumps    int
	jumpAt   int
	stdout   []byte
	stderr   []byte
	start    int64
	unknown  []string
	done     bool
	Res      *scn.Result // filled by harnesses before the end
	children []*Proc
}

// Proc is a simulated process.
type Proc struct {
	k      *Kernel
	Pid    int
	Label  string
	Args   []string
	EnvL   []string
	cwd    string
	fds    map[int]*file
	counts map[string]int
	status int // wait status once done
	exited bool
	waited bool
	killed int // pending fatal signal
	budget int // remaining stdout bytes before a shaped death; -1 means none
	dieSig int
	dieNow int // exit code to use at death when dieSig is 0
	Seen   []string
}

type pipe struct {
	buf     []byte
	readers int
	writers int
}

type file struct {
	node  *inode
	path  string
	off   int64
	flags int
	pr    *pipe // read end
	pw    *pipe // write end
	out   int   // 1 or 2 for the simulated standard streams
	null  bool
	refs  int
	dents []string
	dpos  int
	ferr  syscall.Errno // sticky error after a torn write
}

const atFDCWD = -100

func (k *Kernel) now() int64 { return time.Now().UnixNano() }

func (k *Kernel) rand() uint64 {
	k.rng ^= k.rng << 13
	k.rng ^= k.rng >> 7
	k.rng ^= k.rng << 17
	return k.rng
}

// New builds the kernel for a scenario.
func New(sc *scn.Scenario, base []scn.File) *Kernel {
	k := &Kernel{Sc: sc, procs: map[int]*Proc{}, nextPid: 1000, rng: sc.Seed*0x9E3779B97F4A7C15 | 1,
		disk: sc.Disk, spawned: map[string]int{}, faults: sc.Faults, maxEv: sc.MaxEvents, evHash: 14695981039346656037}
	k.cond = sync.NewCond(&k.mu)
	if k.maxEv == 0 {
		k.maxEv = 2_000_000
	}
	k.Res = &scn.Result{}
	k.root = k.newInode(syscall.S_IFDIR | 0o755)
	k.start = k.now()
	k.install(base)
	k.install(sc.Files)
	k.quiet = []string{"/goroot/"}
	k.snapshot()
	if sc.ClockJump != 0 {
		k.jumpAt = 1 + int(k.rand()%200)
	}
	p := k.newProc("main")
	p.cwd = sc.Cwd
	p.fds[0] = &file{null: true, refs: 1, path: "<stdin>"}
	p.fds[1] = &file{out: 1, refs: 1, path: "<stdout>"}
	p.fds[2] = &file{out: 2, refs: 1, path: "<stderr>"}
	p.Args = sc.Args
	p.EnvL = sc.Env
	k.Main = p
	K = k
	return k
}

func (k *Kernel) newProc(label string) *Proc {
	k.nextPid += 1 + int(k.rand()%3)
	p := &Proc{k: k, Pid: k.nextPid, Label: label, fds: map[int]*file{}, counts: map[string]int{}, budget: -1}
	k.procs[p.Pid] = p
	return p
}

func (k *Kernel) note(s string) {
	for i := 0; i < len(s); i++ {
		k.evHash ^= uint64(s[i])
		k.evHash *= 1099511628211
	}
	k.evHash ^= '\n'
	k.evHash *= 1099511628211
	if k.Sc.KeepLog {
		k.log = append(k.log, s)
	}
}

// Unknown records a request that a stub cannot serve.
func (p *Proc) Unknown(what string) {
	p.k.mu.Lock()
	p.k.unknown = append(p.k.unknown, p.Label+": "+what)
	p.k.mu.Unlock()
}

// Note records what a stub observed.
func (p *Proc) Note(s string) {
	p.k.mu.Lock()
	p.Seen = append(p.Seen, s)
	p.k.note(p.Label + " saw " + s)
	p.k.mu.Unlock()
}

// verdict says what an injected fault does to the current operation.
type verdict struct {
	err   syscall.Errno
	limit int // -1 means no limit
	after bool
	f     *scn.Fault
	rec   int
}

// enter is called, with the lock held, at the start of each kernel call.
func (p *Proc) enter(op, path string, n int) verdict {
	k := p.k
	if k.done {
		k.mu.Unlock()
		select {}
	}
	k.events++
	if k.events > k.maxEv {
		k.finish("livelock", -1, "")
	}
	if k.jumpAt != 0 && k.events == k.jumpAt {
		k.jumps++
		runtime.SimClockAdd(k.Sc.ClockJump * 1e9)
		k.cond.Broadcast()
	}
	p.counts[op]++
	c := p.counts[op]
	p.counts[op+" "+path]++
	pc := p.counts[op+" "+path]
	k.ops = append(k.ops, scn.OpRec{Proc: p.Label, Op: op, N: c, PN: pc, Path: path, Len: n})
	v := verdict{limit: -1, rec: len(k.ops) - 1}
	if p.killed != 0 {
		p.die()
	}
	for i := range k.faults {
		f := &k.faults[i]
		if f.Proc != p.Label || f.Op != op || f.Path == "" && f.N != c || f.Path != "" && (f.Path != path || f.N != pc) {
			continue
		}
		k.fired = append(k.fired, *f)
		k.note("fault " + f.Proc + " " + op + " " + strconv.Itoa(c) + " " + f.Kind + " " + f.Err)
		v.f = f
		switch f.Kind {
		case "err":
			v.err = errno(f.Err)
		case "short":
			v.limit = f.Arg
		case "shorterr":
			v.limit = f.Arg
			v.err = errno(f.Err)
		case "kill":
			if p == k.Main {
				k.finish("killed", 137, "")
			}
			p.killed = 9
			p.die()
		case "killafter":
			v.after = true
		}
	}
	return v
}

// leave is called, with the lock held, at the end of each kernel call.
func (p *Proc) leave(op, path string, v verdict, e syscall.Errno, n int) {
	k := p.k
	s := p.Label + " " + op + " " + path + " = " + strconv.Itoa(n)
	if e != 0 {
		s += " errno " + strconv.Itoa(int(e))
		k.ops[v.rec].Err = strconv.Itoa(int(e))
	}
	k.note(s)
	if v.after {
		if p == k.Main {
			k.finish("killed", 137, "")
		}
		p.killed = 9
		p.die()
	}
}

// die ends a child process because of a signal.  Called with the lock held.
func (p *Proc) die() {
	if p == p.k.Main {
		p.k.finish("killed", 128+p.killed, "")
	}
	// The caller's deferred calls release the lock.
	p.terminate(p.killed & 0x7f)
	runtime.Goexit()
}

// terminate marks the process as finished.  Called with the lock held.
func (p *Proc) terminate(status int) {
	if p.exited {
		return
	}
	p.exited = true
	p.status = status
	var fds []int
	for fd := range p.fds {
		fds = append(fds, fd)
	}
	sort.Ints(fds)
	for _, fd := range fds {
		p.k.drop(p.fds[fd])
		delete(p.fds, fd)
	}
	p.k.note(p.Label + " ended status " + strconv.Itoa(status))
	p.k.cond.Broadcast()
}

func (k *Kernel) drop(f *file) {
	f.refs--
	if f.refs > 0 {
		return
	}
	if f.pr != nil {
		f.pr.readers--
	}
	if f.pw != nil {
		f.pw.writers--
	}
	k.cond.Broadcast()
}

func errno(name string) syscall.Errno {
	switch name {
	case "EIO":
		return syscall.EIO
	case "ENOSPC":
		return syscall.ENOSPC
	case "EACCES":
		return syscall.EACCES
	case "ENOENT":
		return syscall.ENOENT
	case "EMFILE":
		return syscall.EMFILE
	case "ENFILE":
		return syscall.ENFILE
	case "ENOMEM":
		return syscall.ENOMEM
	case "EINTR":
		return syscall.EINTR
	case "EAGAIN":
		return syscall.EAGAIN
	case "EROFS":
		return syscall.EROFS
	case "EPIPE":
		return syscall.EPIPE
	case "EDQUOT":
		return syscall.EDQUOT
	case "ESTALE":
		return syscall.ESTALE
	case "EBUSY":
		return syscall.EBUSY
	case "EPERM":
		return syscall.EPERM
	case "EEXIST":
		return syscall.EEXIST
	case "ENOEXEC":
		return syscall.ENOEXEC
	case "E2BIG":
		return syscall.E2BIG
	case "ETXTBSY":
		return syscall.ETXTBSY
	case "ELOOP":
		return syscall.ELOOP
	}
	return syscall.EIO
}

func (p *Proc) lock() {
	k := p.k
	if k.Sc.Yld > 0 && int(k.rand()%100) < k.Sc.Yld {
		runtime.Gosched()
	}
	k.mu.Lock()
}

func (p *Proc) abs(dirfd int, path string) (string, syscall.Errno) {
	if path == "" {
		return "", syscall.ENOENT
	}
	if strings.HasPrefix(path, "/") {
		return path, 0
	}
	if dirfd == atFDCWD {
		return join(p.cwd, path), 0
	}
	f := p.fds[dirfd]
	if f == nil {
		return "", syscall.EBADF
	}
	if f.node == nil || !f.node.isDir() {
		return "", syscall.ENOTDIR
	}
	return join(f.path, path), 0
}

func (p *Proc) newfd(f *file, min int) int {
	f.refs++
	for fd := min; ; fd++ {
		if p.fds[fd] == nil {
			p.fds[fd] = f
			return fd
		}
	}
}

// Open opens a file.
func (p *Proc) Open(dirfd int, path string, flags int, mode uint32) (fd int, e syscall.Errno) {
	p.lock()
	k := p.k
	defer k.mu.Unlock()
	op := "open"
	if flags&syscall.O_CREAT != 0 {
		op = "create"
	}
	v := p.enter(op, path, 0)
	fd = -1
	defer func() { p.leave(op, path, v, e, fd) }()
	if v.err != 0 {
		return -1, v.err
	}
	abs, e := p.abs(dirfd, path)
	if e != 0 {
		return -1, e
	}
	if abs == "/dev/null" {
		return p.newfd(&file{null: true, path: abs}, 0), 0
	}
	follow := flags&syscall.O_NOFOLLOW == 0
	parent, name, node, real, e := k.walk(abs, follow, 0)
	if e == syscall.ENOENT && flags&syscall.O_CREAT != 0 && parent != nil {
		if k.disk >= 0 && k.disk < 64 {
			k.enospc++
			return -1, syscall.ENOSPC
		}
		node = k.newInode(syscall.S_IFREG | mode&0o777&^0o022)
		parent.kids[name] = node
		parent.mtime = k.now()
		return p.newfd(&file{node: node, path: real, flags: flags}, 0), 0
	}
	if e != 0 {
		return -1, e
	}
	if flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0 {
		return -1, syscall.EEXIST
	}
	if node.isLink() {
		return -1, syscall.ELOOP
	}
	if flags&syscall.O_DIRECTORY != 0 && !node.isDir() {
		return -1, syscall.ENOTDIR
	}
	acc := flags & syscall.O_ACCMODE
	if node.isDir() && acc != syscall.O_RDONLY {
		return -1, syscall.EISDIR
	}
	if flags&syscall.O_TRUNC != 0 && acc != syscall.O_RDONLY {
		k.free(len(node.data))
		node.data = nil
		node.mtime = k.now()
	}
	return p.newfd(&file{node: node, path: real, flags: flags}, 0), 0
}

func (k *Kernel) free(n int) {
	if k.disk >= 0 {
		k.disk += int64(n)
	}
}

// Close closes a descriptor.
func (p *Proc) Close(fd int) (e syscall.Errno) {
	p.lock()
	defer p.k.mu.Unlock()
	f := p.fds[fd]
	path := ""
	if f != nil {
		path = f.path
	}
	v := p.enter("close", path, 0)
	defer func() { p.leave("close", path, v, e, fd) }()
	if f == nil {
		return syscall.EBADF
	}
	delete(p.fds, fd)
	p.k.drop(f)
	return v.err
}

// Read reads from a descriptor.
func (p *Proc) Read(fd int, b []byte) (n int, e syscall.Errno) { return p.readAt(fd, b, -1) }

func (p *Proc) readAt(fd int, b []byte, off int64) (n int, e syscall.Errno) {
	p.lock()
	k := p.k
	defer k.mu.Unlock()
	f := p.fds[fd]
	path := ""
	if f != nil {
		path = f.path
	}
	op := "read"
	if f != nil && f.pr != nil {
		op = "readpipe"
	}
	v := p.enter(op, path, len(b))
	defer func() { p.leave(op, path, v, e, n) }()
	if f == nil {
		return 0, syscall.EBADF
	}
	if v.err != 0 {
		return 0, v.err
	}
	if v.limit > 0 && len(b) > v.limit {
		k.shorts++
		b = b[:v.limit]
	} else if k.Sc.ShortReads > 0 && len(b) > 1 && (p == k.Main) {
		m := 1 + int(k.rand()%uint64(k.Sc.ShortReads))
		if m < len(b) {
			k.shorts++
			b = b[:m]
		}
	}
	switch {
	case f.null:
		return 0, 0
	case f.pr != nil:
		for len(f.pr.buf) == 0 && f.pr.writers > 0 {
			k.cond.Wait()
			if p.killed != 0 {
				p.die()
			}
		}
		n = copy(b, f.pr.buf)
		f.pr.buf = f.pr.buf[n:]
		k.cond.Broadcast()
		return n, 0
	case f.node == nil:
		return 0, syscall.EBADF
	case f.node.isDir():
		return 0, syscall.EISDIR
	}
	o := off
	if off < 0 {
		o = f.off
	}
	if o < int64(len(f.node.data)) {
		n = copy(b, f.node.data[o:])
	}
	if off < 0 {
		f.off += int64(n)
	}
	return n, 0
}

const pipeCap = 65536

// Write writes to a descriptor.
func (p *Proc) Write(fd int, b []byte) (n int, e syscall.Errno) { return p.writeAt(fd, b, -1) }

func (p *Proc) writeAt(fd int, b []byte, off int64) (n int, e syscall.Errno) {
	p.lock()
	k := p.k
	defer k.mu.Unlock()
	f := p.fds[fd]
	path := ""
	if f != nil {
		path = f.path
	}
	v := p.enter("write", path, len(b))
	defer func() { p.leave("write", path, v, e, n) }()
	if f == nil {
		return 0, syscall.EBADF
	}
	if f.ferr != 0 {
		return 0, f.ferr
	}
	if v.limit >= 0 && len(b) > v.limit {
		k.shorts++
		b = b[:v.limit]
		if fd == 2 && p != k.Main && !k.Sc.Ragged {
			// Messages of children are lost in whole lines; see known-findings.txt.
			b = b[:bytes.LastIndexByte(b, '\n')+1]
		}
		if v.err != 0 {
			f.ferr = v.err
			if len(b) == 0 {
				return 0, v.err
			}
		}
	} else if v.err != 0 {
		return 0, v.err
	}
	if fd == 1 && p.budget >= 0 {
		if len(b) >= p.budget {
			b = b[:p.budget]
			defer func() {
				if p.dieSig != 0 {
					p.killed = p.dieSig
					p.die()
				}
				p.terminate(p.dieNow << 8)
				runtime.Goexit()
			}()
		}
		p.budget -= len(b)
	}
	switch {
	case f.null:
		return len(b), 0
	case f.out == 1:
		k.stdout = append(k.stdout, b...)
		return len(b), 0
	case f.out == 2:
		k.stderr = append(k.stderr, b...)
		return len(b), 0
	case f.pw != nil:
		total := 0
		for len(b) > 0 {
			for len(f.pw.buf) >= pipeCap && f.pw.readers > 0 {
				k.cond.Wait()
				if p.killed != 0 {
					p.die()
				}
			}
			if f.pw.readers == 0 {
				if total > 0 {
					return total, 0
				}
				return 0, syscall.EPIPE
			}
			m := pipeCap - len(f.pw.buf)
			if m > len(b) {
				m = len(b)
			}
			f.pw.buf = append(f.pw.buf, b[:m]...)
			b = b[m:]
			total += m
			k.cond.Broadcast()
		}
		return total, 0
	case f.node == nil:
		return 0, syscall.EBADF
	}
	if f.flags&syscall.O_ACCMODE == syscall.O_RDONLY {
		return 0, syscall.EBADF
	}
	o := off
	if off < 0 {
		o = f.off
		if f.flags&syscall.O_APPEND != 0 {
			o = int64(len(f.node.data))
		}
	}
	grow := o + int64(len(b)) - int64(len(f.node.data))
	if k.disk >= 0 && grow > k.disk {
		k.enospc++
		b = b[:len(b)-int(grow-k.disk)]
		if len(b) == 0 {
			return 0, syscall.ENOSPC
		}
		grow = k.disk
	}
	if grow > 0 {
		if k.disk >= 0 {
			k.disk -= grow
		}
		f.node.data = append(f.node.data, make([]byte, grow)...)
	}
	copy(f.node.data[o:], b)
	f.node.mtime = k.now()
	if off < 0 {
		f.off = o + int64(len(b))
	}
	return len(b), 0
}

func (k *Kernel) fill(st *syscall.Stat_t, n *inode) {
	*st = syscall.Stat_t{}
	st.Ino = n.ino
	st.Dev = 1
	st.Mode = n.mode
	st.Nlink = uint64(n.nlink)
	if n.isDir() {
		st.Nlink = 2
		st.Size = 4096
	} else {
		st.Size = int64(len(n.data))
		if n.isLink() {
			st.Size = int64(len(n.target))
		}
	}
	st.Blksize = 4096
	st.Blocks = (st.Size + 511) / 512
	st.Mtim = syscall.NsecToTimespec(n.mtime)
	st.Atim, st.Ctim = st.Mtim, st.Mtim
}

// Stat stats a path.
func (p *Proc) Stat(dirfd int, path string, st *syscall.Stat_t, flags int) (e syscall.Errno) {
	p.lock()
	k := p.k
	defer k.mu.Unlock()
	v := p.enter("stat", path, 0)
	defer func() { p.leave("stat", path, v, e, 0) }()
	if v.err != 0 {
		return v.err
	}
	abs, e := p.abs(dirfd, path)
	if e != 0 {
		return e
	}
	if abs == "/dev/null" {
		*st = syscall.Stat_t{Mode: syscall.S_IFCHR | 0o666}
		return 0
	}
	_, _, n, _, e := k.walk(abs, flags&0x100 == 0, 0)
	if e != 0 {
		return e
	}
	k.fill(st, n)
	return 0
}

// Fstat stats a descriptor.
func (p *Proc) Fstat(fd int, st *syscall.Stat_t) (e syscall.Errno) {
	p.lock()
	k := p.k
	defer k.mu.Unlock()
	v := p.enter("fstat", "", 0)
	defer func() { p.leave("fstat", "", v, e, fd) }()
	if v.err != 0 {
		return v.err
	}
	f := p.fds[fd]
	if f == nil {
		return syscall.EBADF
	}
	*st = syscall.Stat_t{}
	switch {
	case f.pr != nil || f.pw != nil:
		st.Mode = syscall.S_IFIFO | 0o600
	case f.node != nil:
		k.fill(st, f.node)
	case f.null:
		st.Mode = syscall.S_IFCHR | 0o666
	default:
		st.Mode = syscall.S_IFIFO | 0o600
	}
	return 0
}

// Mkdir creates a directory.
func (p *Proc) Mkdir(dirfd int, path string, mode uint32) (e syscall.Errno) {
	p.lock()
	k := p.k
	defer k.mu.Unlock()
	v := p.enter("mkdir", path, 0)
	defer func() { p.leave("mkdir", path, v, e, 0) }()
	if v.err != 0 {
		return v.err
	}
	abs, e := p.abs(dirfd, path)
	if e != 0 {
		return e
	}
	parent, name, _, _, e := k.walk(strings.TrimRight(abs, "/"), true, 0)
	if e == 0 {
		return syscall.EEXIST
	}
	if e != syscall.ENOENT || parent == nil {
		return e
	}
	if k.disk >= 0 && k.disk < 64 {
		k.enospc++
		return syscall.ENOSPC
	}
	parent.kids[name] = k.newInode(syscall.S_IFDIR | mode&0o7777&^0o022)
	parent.mtime = k.now()
	return 0
}

// Unlink removes a directory entry.
func (p *Proc) Unlink(dirfd int, path string, flags int) (e syscall.Errno) {
	p.lock()
	k := p.k
	defer k.mu.Unlock()
	op := "unlink"
	if flags&0x200 != 0 {
		op = "rmdir"
	}
	v := p.enter(op, path, 0)
	defer func() { p.leave(op, path, v, e, 0) }()
	if v.err != 0 {
		return v.err
	}
	abs, e := p.abs(dirfd, path)
	if e != 0 {
		return e
	}
	parent, name, n, _, e := k.walk(strings.TrimRight(abs, "/"), false, 0)
	if e != 0 {
		return e
	}
	if flags&0x200 != 0 {
		if !n.isDir() {
			return syscall.ENOTDIR
		}
		if len(n.kids) > 0 {
			return syscall.ENOTEMPTY
		}
	} else if n.isDir() {
		return syscall.EISDIR
	}
	if parent == nil {
		return syscall.EBUSY
	}
	delete(parent.kids, name)
	parent.mtime = k.now()
	n.nlink--
	if n.nlink <= 0 {
		k.free(len(n.data))
	}
	return 0
}

// Rename renames a file.
func (p *Proc) Rename(od int, oldp string, nd int, newp string) (e syscall.Errno) {
	p.lock()
	k := p.k
	defer k.mu.Unlock()
	v := p.enter("rename", oldp+" "+newp, 0)
	defer func() { p.leave("rename", oldp+" "+newp, v, e, 0) }()
	if v.err != 0 {
		return v.err
	}
	a, e := p.abs(od, oldp)
	if e != 0 {
		return e
	}
	b, e := p.abs(nd, newp)
	if e != 0 {
		return e
	}
	op, on, n, _, e := k.walk(a, false, 0)
	if e != 0 {
		return e
	}
	np, nn, old, _, e := k.walk(b, false, 0)
	if e != 0 && (e != syscall.ENOENT || np == nil) {
		return e
	}
	if old != nil && old.isDir() {
		if !n.isDir() {
			return syscall.EISDIR
		}
		if len(old.kids) > 0 {
			return syscall.ENOTEMPTY
		}
	}
	delete(op.kids, on)
	np.kids[nn] = n
	return 0
}

// Link creates a hard link.
func (p *Proc) Link(od int, oldp string, nd int, newp string) (e syscall.Errno) {
	p.lock()
	k := p.k
	defer k.mu.Unlock()
	v := p.enter("link", oldp+" "+newp, 0)
	defer func() { p.leave("link", oldp+" "+newp, v, e, 0) }()
	if v.err != 0 {
		return v.err
	}
	a, e := p.abs(od, oldp)
	if e != 0 {
		return e
	}
	b, e := p.abs(nd, newp)
	if e != 0 {
		return e
	}
	_, _, n, _, e := k.walk(a, false, 0)
	if e != 0 {
		return e
	}
	np, nn, _, _, e := k.walk(b, false, 0)
	if e == 0 {
		return syscall.EEXIST
	}
	if e != syscall.ENOENT || np == nil {
		return e
	}
	n.nlink++
	np.kids[nn] = n
	return 0
}

// Symlink creates a symbolic link.
func (p *Proc) Symlink(target string, nd int, newp string) (e syscall.Errno) {
	p.lock()
	k := p.k
	defer k.mu.Unlock()
	v := p.enter("symlink", newp, 0)
	defer func() { p.leave("symlink", newp, v, e, 0) }()
	if v.err != 0 {
		return v.err
	}
	b, e := p.abs(nd, newp)
	if e != 0 {
		return e
	}
	np, nn, _, _, e := k.walk(b, false, 0)
	if e == 0 {
		return syscall.EEXIST
	}
	if e != syscall.ENOENT || np == nil {
		return e
	}
	n := k.newInode(syscall.S_IFLNK | 0o777)
	n.target = target
	np.kids[nn] = n
	return 0
}

// Readlink reads a symbolic link.
func (p *Proc) Readlink(dirfd int, path string, buf []byte) (m int, e syscall.Errno) {
	p.lock()
	k := p.k
	defer k.mu.Unlock()
	v := p.enter("readlink", path, 0)
	defer func() { p.leave("readlink", path, v, e, m) }()
	if v.err != 0 {
		return 0, v.err
	}
	a, e := p.abs(dirfd, path)
	if e != 0 {
		return 0, e
	}
	_, _, n, _, e := k.walk(a, false, 0)
	if e != 0 {
		return 0, e
	}
	if !n.isLink() {
		return 0, syscall.EINVAL
	}
	return copy(buf, n.target), 0
}

// Chmod changes permission bits.
func (p *Proc) Chmod(dirfd int, path string, mode uint32) (e syscall.Errno) {
	p.lock()
	k := p.k
	defer k.mu.Unlock()
	v := p.enter("chmod", path, 0)
	defer func() { p.leave("chmod", path, v, e, 0) }()
	if v.err != 0 {
		return v.err
	}
	a, e := p.abs(dirfd, path)
	if e != 0 {
		return e
	}
	_, _, n, _, e := k.walk(a, true, 0)
	if e != 0 {
		return e
	}
	n.mode = n.mode&syscall.S_IFMT | mode&0o7777
	return 0
}

// Chdir changes the working directory.
func (p *Proc) Chdir(path string) (e syscall.Errno) {
	p.lock()
	k := p.k
	defer k.mu.Unlock()
	v := p.enter("chdir", path, 0)
	defer func() { p.leave("chdir", path, v, e, 0) }()
	if v.err != 0 {
		return v.err
	}
	a, e := p.abs(atFDCWD, path)
	if e != 0 {
		return e
	}
	_, _, n, real, e := k.walk(a, true, 0)
	if e != 0 {
		return e
	}
	if !n.isDir() {
		return syscall.ENOTDIR
	}
	p.cwd = real
	return 0
}

// Cwd returns the working directory.
func (p *Proc) Cwd() string { return p.cwd }

// Getcwd returns the working directory, as the system call.
func (p *Proc) Getcwd() (s string, e syscall.Errno) {
	p.lock()
	k := p.k
	defer k.mu.Unlock()
	v := p.enter("getcwd", "", 0)
	defer func() { p.leave("getcwd", s, v, e, 0) }()
	if v.err != 0 {
		return "", v.err
	}
	if _, _, _, _, e := k.walk(p.cwd, true, 0); e != 0 {
		return "", syscall.ENOENT
	}
	return p.cwd, 0
}

// Pipe makes a pipe.
func (p *Proc) Pipe(fds *[2]int32) (e syscall.Errno) {
	p.lock()
	defer p.k.mu.Unlock()
	v := p.enter("pipe", "", 0)
	defer func() { p.leave("pipe", "", v, e, 0) }()
	if v.err != 0 {
		return v.err
	}
	pp := &pipe{readers: 1, writers: 1}
	fds[0] = int32(p.newfd(&file{pr: pp, path: "<pipe>"}, 0))
	fds[1] = int32(p.newfd(&file{pw: pp, path: "<pipe>"}, 0))
	return 0
}

// Dup duplicates a descriptor.
func (p *Proc) Dup(fd, min int) (n int, e syscall.Errno) {
	p.lock()
	defer p.k.mu.Unlock()
	v := p.enter("dup", "", 0)
	defer func() { p.leave("dup", "", v, e, n) }()
	if v.err != 0 {
		return -1, v.err
	}
	f := p.fds[fd]
	if f == nil {
		return -1, syscall.EBADF
	}
	return p.newfd(f, min), 0
}

// Getdents fills buf with directory entries.
func (p *Proc) Getdents(fd int, buf []byte) (n int, e syscall.Errno) {
	p.lock()
	k := p.k
	defer k.mu.Unlock()
	f := p.fds[fd]
	path := ""
	if f != nil {
		path = f.path
	}
	v := p.enter("getdents", path, len(buf))
	defer func() { p.leave("getdents", path, v, e, n) }()
	if v.err != 0 {
		return 0, v.err
	}
	if f == nil {
		return 0, syscall.EBADF
	}
	if f.node == nil || !f.node.isDir() {
		return 0, syscall.ENOTDIR
	}
	if f.dents == nil || f.dpos == 0 {
		f.dents = sortedKids(f.node)
		seed := k.Sc.Seed
		sort.SliceStable(f.dents, func(i, j int) bool {
			return hashBytes([]byte(f.dents[i]))^seed < hashBytes([]byte(f.dents[j]))^seed
		})
	}
	for f.dpos < len(f.dents) {
		name := f.dents[f.dpos]
		kid := f.node.kids[name]
		if kid == nil {
			f.dpos++
			continue
		}
		rec := (19 + len(name) + 1 + 7) &^ 7
		if n+rec > len(buf) {
			break
		}
		b := buf[n : n+rec]
		for i := range b {
			b[i] = 0
		}
		for i := 0; i < 8; i++ {
			b[i] = byte(kid.ino >> (8 * i))
			b[8+i] = byte(uint64(f.dpos+1) >> (8 * i))
		}
		b[16], b[17] = byte(rec), byte(rec>>8)
		switch {
		case kid.isDir():
			b[18] = 4
		case kid.isLink():
			b[18] = 10
		default:
			b[18] = 8
		}
		copy(b[19:], name)
		n += rec
		f.dpos++
	}
	return n, 0
}

// Seek moves a file offset.
func (p *Proc) Seek(fd int, off int64, whence int) (o int64, e syscall.Errno) {
	p.lock()
	defer p.k.mu.Unlock()
	v := p.enter("lseek", "", 0)
	defer func() { p.leave("lseek", "", v, e, int(o)) }()
	if v.err != 0 {
		return 0, v.err
	}
	f := p.fds[fd]
	if f == nil {
		return 0, syscall.EBADF
	}
	if f.node == nil {
		return 0, syscall.ESPIPE
	}
	switch whence {
	case 0:
		f.off = off
	case 1:
		f.off += off
	case 2:
		f.off = int64(len(f.node.data)) + off
	}
	if f.node.isDir() && f.off == 0 {
		f.dpos = 0
	}
	return f.off, 0
}

// Truncate changes the size of an open file.
func (p *Proc) Truncate(fd int, size int64) (e syscall.Errno) {
	p.lock()
	defer p.k.mu.Unlock()
	v := p.enter("truncate", "", 0)
	defer func() { p.leave("truncate", "", v, e, 0) }()
	if v.err != 0 {
		return v.err
	}
	f := p.fds[fd]
	if f == nil || f.node == nil {
		return syscall.EBADF
	}
	for int64(len(f.node.data)) < size {
		f.node.data = append(f.node.data, 0)
	}
	p.k.free(len(f.node.data) - int(size))
	f.node.data = f.node.data[:size]
	return 0
}

// Spawn starts a simulated child process.
func (p *Proc) Spawn(argv0 string, argv, env []string, dir string, files []int) (pid int, e syscall.Errno) {
	p.lock()
	k := p.k
	defer k.mu.Unlock()
	v := p.enter("exec", argv0, 0)
	defer func() { p.leave("exec", argv0, v, e, pid) }()
	if v.err != 0 {
		return -1, v.err
	}
	cwd := p.cwd
	if dir != "" {
		_, _, n, real, e := k.walk(join(cwd, dir), true, 0)
		if e != 0 {
			return -1, e
		}
		if !n.isDir() {
			return -1, syscall.ENOTDIR
		}
		cwd = real
	}
	_, _, n, _, e := k.walk(join(cwd, argv0), true, 0)
	if e != 0 {
		return -1, e
	}
	if n.isDir() || n.mode&0o111 == 0 {
		return -1, syscall.EACCES
	}
	prog, ok := strings.CutPrefix(string(n.data), "SIMPROG ")
	if !ok {
		return -1, syscall.ENOEXEC
	}
	body := Programs[prog]
	if body == nil {
		return -1, syscall.ENOEXEC
	}
	k.spawned[prog]++
	c := k.newProc(prog + "#" + strconv.Itoa(k.spawned[prog]))
	c.Args = append([]string(nil), argv...)
	c.EnvL = append([]string(nil), env...)
	c.cwd = cwd
	for i, fd := range files {
		if fd < 0 {
			continue
		}
		if f := p.fds[fd]; f != nil {
			f.refs++
			c.fds[i] = f
		}
	}
	k.children = append(k.children, c)
	delay := 0
	if k.Sc.Slow > 0 {
		delay = int(k.rand() % uint64(k.Sc.Slow))
	}
	if v.f != nil {
		switch v.f.Kind {
		case "child-delay":
			delay = v.f.Arg
		case "child-exit":
			c.budget, c.dieNow = v.f.After, v.f.Arg
		case "child-signal":
			c.budget, c.dieSig = v.f.After, v.f.Arg
		}
	}
	shaped := c.budget
	go func() {
		if delay > 0 {
			k.mu.Lock()
			k.delays++
			k.mu.Unlock()
			time.Sleep(time.Duration(delay) * time.Millisecond)
		}
		if shaped == 0 {
			k.mu.Lock()
			c.shapedDeath()
		}
		body(c)
		c.Exit(0)
	}()
	return c.Pid, 0
}

func (p *Proc) shapedDeath() {
	if p.dieSig != 0 {
		p.terminate(p.dieSig & 0x7f)
	} else {
		p.terminate(p.dieNow << 8)
	}
	p.k.mu.Unlock()
	runtime.Goexit()
}

// Exit ends a child process.
func (p *Proc) Exit(code int) {
	p.k.mu.Lock()
	if p.budget >= 0 {
		p.shapedDeath()
	}
	p.terminate(code << 8)
	p.k.mu.Unlock()
	runtime.Goexit()
}

// Die ends a child process as a signal does.
func (p *Proc) Die(sig int) {
	p.k.mu.Lock()
	p.terminate(sig & 0x7f)
	p.k.mu.Unlock()
	runtime.Goexit()
}

// Wait waits for a child.
func (p *Proc) Wait(pid int, status *int32, options int) (wpid int, e syscall.Errno) {
	p.lock()
	k := p.k
	defer k.mu.Unlock()
	v := p.enter("wait", "", 0)
	defer func() { p.leave("wait", "", v, e, wpid) }()
	if v.err != 0 {
		return -1, v.err
	}
	c := k.procs[pid]
	if c == nil || c.waited {
		return -1, syscall.ECHILD
	}
	for !c.exited {
		if options&1 != 0 {
			return 0, 0
		}
		k.cond.Wait()
	}
	c.waited = true
	if status != nil {
		*status = int32(c.status)
	}
	return pid, 0
}

// Kill signals a child.
func (p *Proc) Kill(pid int, sig int) (e syscall.Errno) {
	p.lock()
	k := p.k
	defer k.mu.Unlock()
	v := p.enter("kill", "", 0)
	defer func() { p.leave("kill", "", v, e, pid) }()
	c := k.procs[pid]
	if c == nil || c.waited {
		return syscall.ESRCH
	}
	if sig != 0 && !c.exited {
		c.killed = sig
		k.cond.Broadcast()
	}
	return 0
}

// Sleep blocks the process for simulated time.
func (p *Proc) Sleep(d time.Duration) { time.Sleep(d) }

// Env looks up an environment variable; the last definition wins.
func (p *Proc) Env(name string) string {
	for i := len(p.EnvL) - 1; i >= 0; i-- {
		if v, ok := strings.CutPrefix(p.EnvL[i], name+"="); ok {
			return v
		}
	}
	return ""
}
