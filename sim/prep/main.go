// Command prep writes the build overlay used by the simulator: patched copies
// of a few standard library files (the seams), plus overlay entries that make
// the simulator packages and the simulated programs visible inside the module
// under test.  Nothing is written to the Go installation or to the module.
//
// Usage: prep -goroot DIR -repo DIR -sim DIR -out DIR
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

var (
	goroot = flag.String("goroot", "", "Go installation")
	repo   = flag.String("repo", "/repo", "module under test")
	sim    = flag.String("sim", "", "simulator sources")
	out    = flag.String("out", "", "output directory")
)

func die(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "prep: "+format+"\n", args...)
	os.Exit(3)
}

type patch struct{ old, new string }

func main() {
	flag.Parse()
	src := filepath.Join(*goroot, "src")
	replace := map[string]string{}
	emit := func(target, content string) {
		p := filepath.Join(*out, "std", strings.ReplaceAll(strings.TrimPrefix(target, src+"/"), "/", "__"))
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			die("%v", err)
		}
		if old, err := os.ReadFile(p); err != nil || string(old) != content {
			if err := os.WriteFile(p, []byte(content), 0o644); err != nil {
				die("%v", err)
			}
		}
		replace[target] = p
	}
	read := func(rel string) string {
		b, err := os.ReadFile(filepath.Join(src, rel))
		if err != nil {
			die("%v", err)
		}
		return string(b)
	}
	apply := func(rel string, ps ...patch) {
		s := read(rel)
		for _, p := range ps {
			if n := strings.Count(s, p.old); n != 1 {
				die("%s: %d occurrences of %q", rel, n, p.old)
			}
			s = strings.Replace(s, p.old, p.new, 1)
		}
		emit(filepath.Join(src, rel), s)
	}

	// ---- runtime: seeded randomness, cooperative single-P scheduling with
	// seeded preemption points, no time-driven background monitor.
	apply("runtime/rand.go",
		patch{"	seed := &globalRand.seed\n	if startupRand != nil {",
			"	seed := &globalRand.seed\n	if simSeedEarly(seed) {\n	} else if startupRand != nil {"},
		// One stream for the whole process: which thread runs a goroutine
		// depends on the real scheduler and must not matter.
		patch{"func rand() uint64 {\n", "func rand() uint64 {\n	if simRandOn {\n		return simRand()\n	}\n"},
		patch{"	mp.cheaprand = rand()\n", "	mp.cheaprand = bootstrapRand()\n"})
	emit(filepath.Join(src, "runtime/iface.go"), strings.ReplaceAll(read("runtime/iface.go"), "cheaprand()", "uint32(rand())"))
	apply("runtime/select.go", patch{"j := cheaprandn(uint32(norder + 1))", "j := randn(uint32(norder + 1))"})
	apply("runtime/proc.go",
		patch{"const haveSysmon = GOARCH != \"wasm\"", "const haveSysmon = false"},
		patch{"const randomizeScheduler = raceenabled", "const randomizeScheduler = true"},
		patch{"	if !haveSysmon && next {", "	if false {"},
		// A locked main thread makes the number of threads, and with it the
		// addresses of heap objects, depend on real time.
		patch{"	lockOSThread()\n\n	if mp", "	if mp"},
		patch{"	needUnlock := true\n", "	needUnlock := false\n"},
		patch{"	needUnlock = false\n	unlockOSThread()\n", ""},
		patch{"		for i := uint32(1); i <= n; i++ {\n			j := cheaprandn(i + 1)", "		for i := uint32(1); i <= n; i++ {\n			j := randn(i + 1)"},
		patch{"			j := cheaprandn(i + 1)\n			pp.runq", "			j := randn(i + 1)\n			pp.runq"},
		patch{"func execute(gp *g, inheritTime bool) {\n", "func execute(gp *g, inheritTime bool) {\n	simDispatch(gp.goid)\n"},
		patch{"func runExitHooks(code int) {\n", "func runExitHooks(code int) {\n	if simExitHook != nil {\n		simExitHook(code)\n	}\n"})
	apply("runtime/panic.go",
		patch{"	preprintpanics(&p)\n\n	fatalpanic(&p)", "	preprintpanics(&p)\n	if simPanicHook != nil {\n		simPanicHook(simPanicText(&p))\n	}\n	fatalpanic(&p)"})
	apply("runtime/time_fake.go",
		patch{"	if !(fd == 1 || fd == 2) {\n		// Do an ordinary write.", "	if true {\n		// Do an ordinary write."},
		patch{"	return faketime / 1e9, int32(faketime % 1e9), faketime", "	w := faketime + simWall\n	return w / 1e9, int32(w % 1e9), faketime"})
	apply("runtime/malloc.go",
		patch{"	userSize := size\n	if asanenabled {", "	simMallocPoint()\n	userSize := size\n	if asanenabled {"})
	emit(filepath.Join(src, "runtime/zz_sim.go"), runtimeSim)

	// ---- syscall: every entry used by os, os/exec and internal/poll becomes
	// a call into the simulated kernel once one is installed.
	hooks := []string{"faccessat", "faccessat2", "fchmodat", "linkat", "openat", "pipe2", "readlinkat",
		"symlinkat", "unlinkat", "utimensat", "Getcwd", "wait4", "Chdir", "Close", "Dup", "Dup3",
		"Fchdir", "Fchmod", "Fchownat", "fcntl", "Fdatasync", "Flock", "Fsync", "Getdents", "Getpid",
		"Getppid", "Kill", "Mkdirat", "read", "write", "Fchown", "Fstat", "fstatat", "Ftruncate",
		"pread", "pwrite", "Renameat", "Seek", "Truncate", "Uname", "Umask"}
	want := map[string]bool{}
	for _, h := range hooks {
		want[h] = true
	}
	z := read("syscall/zsyscall_linux_amd64.go")
	re := regexp.MustCompile(`(?m)^func (\w+)\(([^)]*)\) (\([^)]*\)) \{\n`)
	var decls strings.Builder
	z = re.ReplaceAllStringFunc(z, func(m string) string {
		sub := re.FindStringSubmatch(m)
		name, params, results := sub[1], sub[2], sub[3]
		if !want[name] {
			return m
		}
		delete(want, name)
		var args []string
		for _, p := range strings.Split(params, ", ") {
			if p != "" {
				args = append(args, strings.Fields(p)[0])
			}
		}
		exportedParams := strings.ReplaceAll(params, "*[2]_C_int", "*[2]int32")
		exportedParams = strings.ReplaceAll(exportedParams, "*_C_int", "*int32")
		fmt.Fprintf(&decls, "	X%s func(%s) %s\n", name, exportedParams, results)
		call := fmt.Sprintf("Sim.X%s(%s)", name, strings.Join(args, ", "))
		if name == "pipe2" {
			call = "Sim.Xpipe2((*[2]int32)(unsafe.Pointer(p)), flags)"
		}
		if name == "wait4" {
			call = "Sim.Xwait4(pid, (*int32)(unsafe.Pointer(wstatus)), options, rusage)"
		}
		return m + "	if Sim != nil {\n		return " + call + "\n	}\n"
	})
	for h := range want {
		die("zsyscall: no function %s", h)
	}
	emit(filepath.Join(src, "syscall/zsyscall_linux_amd64.go"), z)
	emit(filepath.Join(src, "syscall/zz_sim.go"), strings.Replace(syscallSim, "@HOOKS@", decls.String(), 1))
	guard := "	if Sim != nil {\n		return ^uintptr(0), 0, simUnhandled(trap)\n	}\n"
	// With simulated time the standard library sends descriptors 1 and 2 past
	// the system call layer; the simulated kernel has to see those writes.
	apply("syscall/time_fake.go", patch{"const faketime = true", "const faketime = false"})
	apply("syscall/syscall_linux.go",
		patch{"func RawSyscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n",
			"func RawSyscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n" + guard},
		patch{"func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n",
			"func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n" + guard},
		patch{"func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n",
			"func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n" + guard})
	apply("syscall/exec_unix.go",
		patch{"	var wstatus WaitStatus\n\n	if attr == nil {\n		attr = &zeroProcAttr\n	}\n",
			"	var wstatus WaitStatus\n\n	if attr == nil {\n		attr = &zeroProcAttr\n	}\n	if Sim != nil {\n		return Sim.ForkExec(argv0, argv, attr)\n	}\n"})
	apply("internal/syscall/unix/at.go",
		patch{"func Unlinkat(dirfd int, path string, flags int) error {\n",
			"func Unlinkat(dirfd int, path string, flags int) error {\n	if syscall.Sim != nil {\n		return syscall.Sim.Xunlinkat(dirfd, path, flags)\n	}\n"},
		patch{"func Openat(dirfd int, path string, flags int, perm uint32) (int, error) {\n",
			"func Openat(dirfd int, path string, flags int, perm uint32) (int, error) {\n	if syscall.Sim != nil {\n		return syscall.Sim.Xopenat(dirfd, path, flags, perm)\n	}\n"})
	apply("internal/syscall/unix/at_fstatat.go",
		patch{"func Fstatat(dirfd int, path string, stat *syscall.Stat_t, flags int) error {\n",
			"func Fstatat(dirfd int, path string, stat *syscall.Stat_t, flags int) error {\n	if syscall.Sim != nil {\n		return syscall.Sim.Xfstatat(dirfd, path, stat, flags)\n	}\n"})
	apply("internal/syscall/unix/fcntl_unix.go",
		patch{"func Fcntl(fd int, cmd int, arg int) (int, error) {\n",
			"func Fcntl(fd int, cmd int, arg int) (int, error) {\n	if syscall.Sim != nil {\n		return syscall.Sim.Xfcntl(fd, cmd, arg)\n	}\n"})
	apply("internal/poll/fd_poll_runtime.go",
		patch{"func (pd *pollDesc) init(fd *FD) error {\n",
			"func (pd *pollDesc) init(fd *FD) error {\n	if syscall.Sim != nil {\n		return syscall.EPERM\n	}\n"})

	std := map[string]string{}
	for k, v := range replace {
		std[k] = v
	}

	// ---- the simulator packages, seen as packages of the module under test.
	for _, d := range []string{"scn", "kernel", "boot", "stubs", "drv", "api"} {
		files, err := filepath.Glob(filepath.Join(*sim, d, "*.go"))
		if err != nil || len(files) == 0 {
			continue
		}
		for _, f := range files {
			replace[filepath.Join(*repo, "internal/verifsim", d, filepath.Base(f))] = f
		}
	}
	// ---- the programs under test boot the simulated kernel first.
	for _, c := range []string{"capslock", "capslock-git-diff"} {
		p := filepath.Join(*out, "boot_"+c+".go")
		if err := os.WriteFile(p, []byte("package main\n\nimport _ \"github.com/google/capslock/internal/verifsim/boot\"\n"), 0o644); err != nil {
			die("%v", err)
		}
		replace[filepath.Join(*repo, "cmd", c, "zz_verifsim.go")] = p
	}
	write := func(name string, m map[string]string) {
		b, _ := json.MarshalIndent(map[string]any{"Replace": m}, "", " ")
		if err := os.WriteFile(filepath.Join(*out, name), b, 0o644); err != nil {
			die("%v", err)
		}
	}
	write("overlay-sim.json", replace)
	for k := range std {
		delete(replace, k)
	}
	write("overlay-drv.json", replace)
}

const runtimeSim = `package runtime

import (
	"internal/stringslite"
	"unsafe"
)

var (
	simExitHook  func(code int)
	simPanicHook func(text string)
	simState     uint64 // preemption generator state
	simEvery     uint32 // mean allocations between forced preemptions; 0 means none
	simLeft      uint32
	simMallocs   uint64
	simPreempts  uint64
	simBudget    uint64 // allocation budget; 0 means unlimited
	simOver      func()
)

// SimHooks installs the functions called before the process ends.
func SimHooks(exit func(code int), pan func(text string)) { simExitHook, simPanicHook = exit, pan }

// SimSchedule sets the seeded preemption schedule.
func SimSchedule(seed uint64, every uint32) {
	simState = seed | 1
	simRandState = seed * 0xD1342543DE82EF95
	simRandOn = true
	simEvery = every
	simLeft = every
}

var (
	simRandOn    bool
	simRandState uint64
)

//go:nosplit
func simRand() uint64 {
	simRandState += 0x9E3779B97F4A7C15
	x := simRandState
	x = (x ^ x>>30) * 0xBF58476D1CE4E5B9
	x = (x ^ x>>27) * 0x94D049BB133111EB
	return x ^ x>>31
}

// SimCounters reports allocation points passed and forced preemptions.
func SimCounters() (mallocs, preempts uint64) { return simMallocs, simPreempts }

var simSchedHash, simDispatches uint64

// SimSched reports a hash of the sequence of goroutine dispatches so far.
func SimSched() (hash, dispatches uint64) { return simSchedHash, simDispatches }

//go:nosplit
func simDispatch(goid uint64) {
	simDispatches++
	h := simSchedHash ^ goid
	h *= 0x9E3779B97F4A7C15
	simSchedHash = h ^ h>>29
}

var simWall int64

// SimClockAdd sets the simulated wall clock forward or back.  Timers use the
// monotonic clock and do not notice.
func SimClockAdd(d int64) { simWall += d }

// SimRealWrite writes to a real descriptor.
func SimRealWrite(fd uintptr, b []byte) {
	for len(b) > 0 {
		n := write1(fd, unsafe.Pointer(&b[0]), int32(len(b)))
		if n <= 0 {
			return
		}
		b = b[n:]
	}
}

// SimRealExit ends the process.
func SimRealExit(code int) { exit(int32(code)) }

func simPanicText(p *_panic) string {
	switch v := p.arg.(type) {
	case string:
		return v
	case error:
		return v.Error()
	}
	return "panic"
}

func simSeedEarly(seed *[32]byte) bool {
	const prefix = "VERIFSIM_RTSEED="
	n := int32(0)
	for argv_index(argv, argc+1+n) != nil {
		n++
	}
	for i := int32(0); i < n; i++ {
		p := argv_index(argv, argc+1+i)
		s := unsafe.String(p, findnull(p))
		if stringslite.HasPrefix(s, prefix) {
			s = s[len(prefix):]
			x := uint64(14695981039346656037)
			for j := 0; j < len(s); j++ {
				x ^= uint64(s[j])
				x *= 1099511628211
			}
			for j := range seed {
				x ^= x << 13
				x ^= x >> 7
				x ^= x << 17
				seed[j] = byte(x >> 32)
			}
			return true
		}
	}
	return false
}

// simMallocPoint is a seeded preemption point.
//
//go:nosplit
func simMallocPoint() {
	gp := getg()
	if simEvery == 0 || gp != gp.m.curg {
		return
	}
	simMallocs++
	if simLeft > 0 {
		simLeft--
		return
	}
	if gp.m.locks != 0 || gp.m.preemptoff != "" {
		return
	}
	x := simState
	x ^= x << 13
	x ^= x >> 7
	x ^= x << 17
	simState = x
	simLeft = uint32(x>>33) % (2 * simEvery)
	simPreempts++
	gp.preempt = true
	gp.stackguard0 = stackPreempt
}
`

const syscallSim = `package syscall

// SimTable is the simulated kernel.
type SimTable struct {
@HOOKS@
	ForkExec func(argv0 string, argv []string, attr *ProcAttr) (pid int, err error)
}

// Sim is nil until a simulated kernel is installed.
var Sim *SimTable

// SimUnhandled records system calls that reached no simulated entry.
var SimUnhandled [512]int32

//go:nosplit
func simUnhandled(trap uintptr) Errno {
	if trap < 512 {
		SimUnhandled[trap]++
	}
	return ENOSYS
}
`
