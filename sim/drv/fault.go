package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/google/capslock/internal/verifsim/scn"
)

// faultErrs lists the errors an operation can fail with.
var faultErrs = map[string][]string{
	"open":     {"EACCES", "ENOENT", "EMFILE", "EIO", "EINTR", "ENFILE", "ENOMEM"},
	"create":   {"EACCES", "ENOSPC", "EROFS", "EMFILE"},
	"read":     {"EIO", "EINTR", "ESTALE"},
	"readpipe": {"EIO", "EINTR"},
	"write":    {"ENOSPC", "EIO", "EPIPE", "EINTR", "EDQUOT"},
	"close":    {"EIO", "EINTR"},
	"stat":     {"EIO", "EACCES", "ENOENT"},
	"fstat":    {"EIO", "ENOMEM"},
	"mkdir":    {"EACCES", "ENOSPC", "EEXIST", "EROFS"},
	"unlink":   {"EACCES", "EIO", "EBUSY"},
	"rmdir":    {"EACCES", "EIO", "EBUSY"},
	"rename":   {"EIO", "EACCES", "ENOSPC"},
	"chdir":    {"EACCES", "ENOENT", "EIO"},
	"getcwd":   {"ENOENT", "EACCES"},
	"pipe":     {"EMFILE", "ENFILE"},
	"dup":      {"EMFILE"},
	"getdents": {"EIO", "ENOENT"},
	"list":     {"EIO", "EACCES", "EMFILE"},
	"exec":     {"EAGAIN", "ENOENT", "EACCES", "ENOMEM"},
	"wait":     {"EINTR"},
	"lseek":    {"EIO"},
	"fsync":    {"EIO"},
}

// chooseFaults picks operations of an undisturbed run to disturb.  Classes of
// operations are chosen first, so that rare ones are disturbed as often as
// frequent ones.
func chooseFaults(r *rng, ops []scn.OpRec, n int, ok func(o scn.OpRec) bool) []scn.Fault {
	byClass := map[string][]scn.OpRec{}
	piped := map[string][]scn.OpRec{} // what each child says
	for _, o := range ops {
		if faultErrs[o.Op] == nil || !ok(o) {
			continue
		}
		who := o.Proc
		if i := strings.IndexByte(who, '#'); i >= 0 {
			who = who[:i]
		}
		class := who + " " + o.Op
		if o.Op == "write" || o.Op == "read" {
			class += " " + pathClass(o.Path)
		}
		if o.Op == "exec" {
			// Each command is a class of its own.
			class += fmt.Sprint(" ", o.Path, " ", o.N)
		}
		byClass[class] = append(byClass[class], o)
		if o.Op == "write" && o.Path == "<pipe>" {
			piped[o.Proc] = append(piped[o.Proc], o)
		}
	}
	classes := sortedKeys(byClass)
	var out []scn.Fault
	used := map[string]bool{}
	for ; n > 0 && len(classes) > 0; n-- {
		o := pick(r, byClass[pick(r, classes)])
		if len(piped) > 0 && r.pct(8) {
			o = pick(r, piped[pick(r, sortedKeys(piped))])
		}
		if k := fmt.Sprint(o.Proc, " ", o.Op, " ", o.N); used[k] {
			continue
		} else {
			used[k] = true
		}
		f := scn.Fault{Proc: o.Proc, Op: o.Op, N: o.N, Kind: "err", Err: pick(r, faultErrs[o.Op])}
		if o.Path != "" && !strings.Contains(o.Path, "tmp") {
			f.Path, f.N = o.Path, o.PN
		}
		switch o.Op {
		case "read", "readpipe":
			if r.pct(25) {
				f.Kind, f.Err, f.Arg = "short", "", r.in(1, 40)
			}
		case "write":
			switch {
			case r.pct(15):
				f.Kind, f.Err, f.Arg = "short", "", r.n(max(1, o.Len))
			case r.pct(40):
				f.Kind, f.Arg = "shorterr", r.n(max(1, o.Len))
				f.Err = pick(r, []string{"ENOSPC", "EIO", "EPIPE", "EDQUOT"})
			}
		case "exec":
			switch r.n(5) {
			case 0, 1:
				f.Kind, f.Err, f.Arg = "child-exit", "", r.in(1, 3)
				if strings.HasSuffix(o.Path, "/capslock") && r.pct(40) {
					f.Arg = 0 // a truncated report looks like success
				}
				f.After = pick(r, []int{0, 0, r.n(100), r.n(5000), 1 << 20})
			case 2:
				f.Kind, f.Err, f.Arg = "child-signal", "", pick(r, []int{9, 15, 6, 11})
				f.After = pick(r, []int{0, r.n(100), r.n(5000), 1 << 20})
			case 3:
				f.Kind, f.Err, f.Arg = "child-delay", "", r.in(1, 100000)
			}
		}
		if r.pct(6) {
			f.Kind, f.Err = pick(r, []string{"kill", "killafter"}), ""
		}
		out = append(out, f)
	}
	return out
}

func pathClass(p string) string {
	switch {
	case strings.HasPrefix(p, "<"):
		return p
	case strings.HasSuffix(p, ".go"):
		return "source"
	case strings.Contains(p, "map.cm"), strings.Contains(p, "base.json"):
		return "input"
	}
	return ""
}

func describe(fs []scn.Fault) string {
	var l []string
	for _, f := range fs {
		s := fmt.Sprintf("%s %s %s#%d %s", f.Proc, f.Op, f.Path, f.N, f.Kind)
		if f.Err != "" {
			s += " " + f.Err
		}
		l = append(l, s)
	}
	return strings.Join(l, ", ")
}

// countFaults adds the faults that fired to the statistics.
func (j *judgeCtx) countFaults(res *scn.Result) {
	for _, f := range res.Fired {
		who := f.Proc
		if i := strings.IndexByte(who, '#'); i >= 0 {
			who = who[:i]
		}
		j.r.probe("fault: "+who+" "+f.Op+" "+f.Kind, 1)
	}
}

// honest demands that a disturbed run either gave what the undisturbed one did
// or says that it failed.  Statuses up to ok count as success.
func honest(clean, res *scn.Result, fs []scn.Fault, ok int) {
	switch res.Status {
	case "killed", "sigpipe", "panic":
		return
	case "exit":
	default:
		fail("stuck", fmt.Sprintf("run ended with %s after %s", res.Status, describe(res.Fired)))
	}
	if res.Code > ok {
		return
	}
	if res.Code != clean.Code {
		fail("verdict", fmt.Sprintf("exit status %d instead of %d after %s", res.Code, clean.Code, describe(res.Fired)))
	}
	if res.Stdout != clean.Stdout {
		fail("output", fmt.Sprintf("exit status %d with different output after %s: %s", res.Code, describe(res.Fired), diffText(clean.Stdout, res.Stdout)))
	}
}

// faultWorld builds the scenarios of the fault checks: an analysis of local
// packages, or of packages that have to be obtained first.
func faultWorld(prop string, c *Case) func() *scn.Scenario {
	w := render(c.Prog)
	var files []scn.File
	args := append([]string{c.pkgsArg()}, c.Args...)
	if c.Mode == "compare" {
		args = append(args, "-output=compare", "base.json")
		files = append(files, scn.File{Path: "/work/base.json", Data: c.S["base"]})
	}
	return func() *scn.Scenario {
		var s *scn.Scenario
		if c.S["user"] != "" {
			m := []string{}
			if c.Prog.Custom {
				m = append(m, "-capability_map=map.cm")
				if c.Prog.NoBltin {
					m = append(m, "-disable_builtin")
				}
			}
			s = remoteScenario(prop, c, w, append(m, args...)...)
		} else {
			s = w.scenario(prop, append(c.Prog.mapArgs(), args...)...)
		}
		s.Files = append(s.Files, files...)
		c.apply(s)
		return s
	}
}

// genFaultCase makes a case for the fault checks.
func genFaultCase(r *rng, remote int) *Case {
	pf := profile{size: 7, maxPkgs: 4, custom: 45, nobuiltin: 50, mods: true, mains: 10}
	var c *Case
	if r.pct(remote) {
		pf.mains = 0
		c = genRemote(r, pf)
		if c.S["user"] == "same" {
			c.S["user"] = "plain"
		}
	} else {
		c = genAnalysis(r, pf)
		c.S = map[string]string{}
		// Only packages of the current module: others could be obtained
		// elsewhere after a failure.
		c.Query = []string{"./..."}
		for i, k := range c.Prog.Pkgs {
			if k.Mod == 0 && r.pct(20) {
				c.Query = []string{c.Prog.pkgPath(i)}
			}
		}
		if len(queriedSet(render(c.Prog), c.Query)) == 0 {
			c.Query = []string{c.Prog.pkgPath(0)}
		}
	}
	c.ShortReads = 0
	if r.pct(10) {
		c.ShortReads = r.in(100, 3000)
	}
	c.Args = genOutput(r)
	if r.pct(25) {
		c.Mode = "compare"
		c.Args = nil
		if g := pick(r, []string{"", "function", "package", "intermediate"}); g != "" {
			c.Args = append(c.Args, "-granularity="+g)
		}
	}
	if r.pct(10) {
		c.Args = append(c.Args, "-v="+pick(r, []string{"1", "2"}))
	}
	c.N = r.in(1, 1<<40)
	return c
}

// fsDiff compares two states of the simulated file system outside the places
// that may change.
func fsDiff(before, after map[string]scn.FSEnt, may func(path string) bool) string {
	var l []string
	for p, e := range after {
		o, ok := before[p]
		switch {
		case may(p):
		case !ok:
			l = append(l, p+" appeared")
		case o.Hash != e.Hash || o.Size != e.Size:
			l = append(l, p+" changed")
		case o.Mode != e.Mode:
			l = append(l, p+" has another mode")
		}
	}
	for p := range before {
		if _, ok := after[p]; !ok && !may(p) {
			l = append(l, p+" is gone")
		}
	}
	sort.Strings(l)
	if len(l) > 6 {
		l = append(l[:6], fmt.Sprintf("and %d more", len(l)-6))
	}
	return strings.Join(l, "; ")
}
