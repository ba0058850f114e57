package main

import (
	"fmt"
	"strings"

	"github.com/google/capslock/internal/verifsim/scn"
)

// Options that a program must not accept.
var (
	badGranularities = []string{"Package", "PACKAGE", "packages", "func", "functions", "file", "pack", "module", "none", " package", "package ", "package,function", "unset", "0", "1", "intermediates", "Intermediate", "inter", "-package", "true"}
	badCapabilities  = []string{"NOSUCH", "files", "FILES,", ",FILES", ",", "FILES,,NETWORK", "FILES,-NETWORK", "-FILES,NETWORK", "-FILES,-NETWORK,EXEC", "FILES,NETWORK,-EXEC", "--FILES", "CAPABILITY_NOSUCH", "CAPABILITY_", "FILES NETWORK", " FILES", "FILES, NETWORK",
		"CAPABILITY_CAPABILITY_FILES", "-", "2", "ALL", "FILES,NOSUCH", "-UNANALYZED,-NOSUCH", "+FILES", "!FILES", "FILES;NETWORK", "Capability_FILES", "capability_files", "FILE", "*"}
	unknownOptions = []string{"-nosuch", "--nosuch=1", "-Output=json", "-package=.", "-output.json", "-=x", "-granularities=package", "-jsonn", "---output=json"}
)

var booleans = map[string]bool{"noisy": true, "omit_paths": true, "force_local_module": true, "disable_builtin": true}

// respell writes options in another of the ways that mean the same.
func respell(r *rng, args []string) (out []string) {
	for _, a := range args {
		if !strings.HasPrefix(a, "-") {
			out = append(out, a)
			continue
		}
		name, val, has := strings.Cut(strings.TrimLeft(a, "-"), "=")
		dash := pick(r, []string{"-", "-", "--"})
		switch {
		case !has && r.pct(40):
			out = append(out, dash+name+pick(r, []string{"=true", "=1", "=T", "=t", "=TRUE", "=True"}))
		case !has:
			out = append(out, dash+name)
		case r.pct(30) && !booleans[name] && !(name == "v" && (val == "false" || val == "true")):
			out = append(out, dash+name, val)
		default:
			out = append(out, dash+name+"="+val)
		}
	}
	return out
}

// neutral chooses options that say what holds anyway, or that ask for messages
// and profiles.
func neutral(r *rng, given []string, options []string) (out []string) {
	for _, o := range options {
		name, _, _ := strings.Cut(o, "=")
		used := false
		for _, g := range given {
			n, _, _ := strings.Cut(g, "=")
			used = used || n == name
		}
		if !used && r.pct(15) {
			out = append(out, o)
		}
	}
	return out
}

// damageRequest makes a request one that has to be refused.
func damageRequest(r *rng, kind string, opts, args []string) ([]string, []string) {
	drop := func(name string) {
		var l []string
		for _, o := range opts {
			if n, _, _ := strings.Cut(o, "="); n != name {
				l = append(l, o)
			}
		}
		opts = l
	}
	set := func(name, val string) {
		drop(name)
		opts = append(opts, name+"="+val)
	}
	switch kind {
	case "unknown":
		opts = append(opts, pick(r, unknownOptions))
	case "boolean":
		opts = append(opts, pick(r, []string{"-omit_paths=maybe", "-noisy=2", "-force_local_module=yes", "-disable_builtin=", "-omit_paths=on"}))
	case "gitboolean":
		opts = append(opts, pick(r, []string{"-v=maybe", "-v=2", "-v=yes"}))
	case "number":
		set("-v", pick(r, []string{"high", "1.5", "", "0x", "true"}))
	case "granularity":
		set("-granularity", pick(r, badGranularities))
	case "capabilities":
		set("-capabilities", pick(r, badCapabilities))
	case "nomap":
		drop("-capability_map")
		drop("-disable_builtin")
		opts = append(opts, "-disable_builtin")
	case "map":
		set("-capability_map", pick(r, []string{"/nosuch/x.cm", "nosuch.cm", "/work", "/home/u/bad.cm", "/home/u/base.json/x"}))
	case "surplus":
		args = append(args, pick(r, []string{".", "x", "base.json", "", "json", "-", "example.com/x"}))
		if len(args) > 1 && r.pct(50) {
			shuffle(r, args)
		}
	case "few":
		args = args[:r.n(min(len(args), 2))]
	case "many":
		for n := r.in(1, 3); len(args) <= 3 || n > 0; n-- {
			args = append(args, pick(r, []string{"HEAD", ".", "./...", "x"}))
		}
	case "late":
		// Options that come after arguments are arguments.
		if len(args) == 0 {
			args = []string{"x"}
		}
		args = append(args, pick(r, []string{"-granularity=function", "-output=json", "-omit_paths", "-v=1", "-capabilities=FILES"}))
	case "profile":
		set("-cpuprofile", pick(r, []string{"/nosuch/dir/cpu", "/home/u/base.json/x", "/work"}))
	case "value":
		args = nil
		opts = append(opts, pick(r, []string{"-output", "--granularity", "-capability_map", "-capabilities"}))
	case "nopackages":
		drop("-packages")
		if r.pct(50) {
			opts = append(opts, pick(r, []string{"-packages=", "-packages=,"}))
		}
	default:
		simFail("no request %q", kind)
	}
	return opts, args
}

func init() {
	pf := profile{size: 7, maxPkgs: 4, custom: 40, nobuiltin: 50, mods: true}
	properties["P20"] = &property{
		id: "P20", level: "exploration", quick: 18000, thorough: 180000,
		rule:   "One case is a generated program or repository and a request in some spelling and order of its options, with or without one thing that makes it impossible to carry out; it is non-trivial when the request has to be refused, or is carried out and found capabilities, and distinct by what is wrong and the request.",
		bins:   []string{"cmd/capslock with all packages of the repository, and cmd/capslock-git-diff"},
		assume: []string{"the analyser that the comparison tool calls is a stand-in, which refuses the same granularities and capability lists as the real one"},
		gen: func(r *rng, i int) *Case {
			var c *Case
			if r.pct(30) {
				c = genGitCase(r, r.in(1, 3), false)
				c.Mode = pick(r, []string{"", "", "unknown", "gitboolean", "granularity", "granularity", "capabilities", "capabilities", "few", "many", "late", "value"})
			} else {
				remote := r.pct(8)
				if remote {
					// The packages have to be obtained into a temporary module.
					x := pf
					x.custom = 0
					c = genRemote(r, x)
				} else {
					c = genAnalysis(r, pf)
				}
				c.Args = genOutput(r)
				if r.pct(20) {
					c.Args = append(c.Args[:0:0], "-output=compare", "base.json")
					if r.pct(50) {
						c.Args = append([]string{"-granularity=" + pick(r, []string{"package", "function"})}, c.Args...)
					}
				}
				c.Mode = pick(r, []string{"", "", "", "unknown", "boolean", "number", "granularity", "granularity", "capabilities", "capabilities", "capabilities", "nomap", "map", "surplus", "surplus", "few", "late", "late", "profile", "value", "nopackages"})
				if remote {
					c.Mode = ""
				}
			}
			c.N = r.in(1, 1<<40)
			return c
		},
		judge: func(j *judgeCtx, c *Case) {
			r := newRng(uint64(c.N))
			kind := c.Mode
			var mk func() *scn.Scenario
			var none []string
			if c.Git != nil {
				mk = func() *scn.Scenario { return c.Git.scenario("P20") }
				none = []string{pick(r, []string{"-v=false", "-v=true", "-v"}), "-granularity=intermediate", "-capabilities=-UNANALYZED"}
			} else {
				w := render(c.Prog)
				if len(queriedSet(w, c.Query)) == 0 {
					return
				}
				remote := c.S["user"] != ""
				if q, _, ok := remoteRequest(c, w); remote && (!ok || len(q) == 0) {
					return
				}
				mk = func() *scn.Scenario {
					args := append(append(c.Prog.mapArgs(), c.pkgsArg()), c.Args...)
					s := w.scenario("P20", args...)
					if remote {
						s = remoteScenario("P20", c, w, args...)
					}
					for f, t := range map[string]string{"/work/base.json": "{}\n", "/home/u/base.json": "{}\n", "/home/u/bad.cm": "func a.F CAPABILITY_FILES\nfunc a.G CAPABILITY_NOSUCH\n"} {
						s.Files = append(s.Files, scn.File{Path: f, Data: t})
					}
					return s
				}
				none = []string{pick(r, []string{"-v=0", "-v=1", "-v=2"}), "-granularity=", "-capabilities=", "-buildtags=", "-goos=", "-goarch=", "-memprofile=" + pick(r, []string{"", "/home/u/m.prof", "m.prof"}), "-cpuprofile=", "-noisy=false", "-omit_paths=0", "-force_local_module=F", "-disable_builtin=false", "-capability_map=", "-output="}
			}
			// Split the request, change it, and put it together in another way.
			vary := func(damage bool) *scn.Scenario {
				s := mk()
				var opts, args []string
				for _, a := range s.Args[1:] {
					if strings.HasPrefix(a, "-") && args == nil {
						opts = append(opts, a)
					} else {
						args = append(args, a)
					}
				}
				if !damage {
					opts = append(opts, neutral(r, opts, none)...)
				}
				if damage {
					opts, args = damageRequest(r, kind, opts, args)
				}
				if !(damage && kind == "value") {
					shuffle(r, opts)
				}
				last := opts
				if damage {
					// The option that is wrong stays as it is.
					last = append([]string(nil), opts...)
				} else {
					last = respell(r, opts)
					if r.pct(10) {
						last = append(last, "--")
					}
				}
				s.Args = append(append(s.Args[:1:1], last...), args...)
				c.apply(s)
				return s
			}
			if kind == "few" && c.Git == nil {
				compare := false
				for _, a := range c.Args {
					compare = compare || a == "base.json"
				}
				if !compare {
					return
				}
			}
			if kind != "" {
				s := vary(true)
				res := j.run(s)
				j.show(s, res)
				what := fmt.Sprintf("the request %q", s.Args[1:])
				if res.Status == "exit" && res.Code != 2 {
					fail("accepted", fmt.Sprintf("%s (%s) ended with status %d instead of 2", what, kind, res.Code))
				}
				wantExit(res, 2)
				if res.Stdout != "" {
					fail("output", fmt.Sprintf("%s (%s) was refused, but the output is %q", what, kind, tail(res.Stdout, 200)))
				}
				if strings.TrimSpace(res.Stderr) == "" {
					fail("silent", what+" ("+kind+") was refused without a message")
				}
				j.r.probe("refused: "+kind, 1)
				j.nontrivial(fmt.Sprint(kind, s.Args[1:]))
				return
			}
			a := mk()
			c.apply(a)
			ra := j.run(a)
			j.show(a, ra)
			b := vary(false)
			rb := j.run(b)
			j.show(b, rb)
			if c.Git != nil {
				if _, ok := c.Git.judgeVerdict(ra); !ok {
					return
				}
			} else if ra.Status != "exit" || ra.Code > 1 {
				fail("refused", fmt.Sprintf("the request %q ended with %s %d: %s", a.Args[1:], ra.Status, ra.Code, tail(ra.Stderr, 300)))
			}
			if rb.Status != ra.Status || rb.Code != ra.Code {
				fail("spelling", fmt.Sprintf("%q ends with status %d, but %q with %s %d: %s", a.Args[1:], ra.Code, b.Args[1:], rb.Status, rb.Code, tail(rb.Stderr, 300)))
			}
			if ra.Stdout != rb.Stdout {
				fail("spelling", fmt.Sprintf("%q and %q: %s", a.Args[1:], b.Args[1:], diffText(ra.Stdout, rb.Stdout)))
			}
			for _, a := range b.Args[1:] {
				if strings.HasSuffix(a, "m.prof") {
					p := "/work/m.prof"
					if strings.HasSuffix(a, "/home/u/m.prof") {
						p = "/home/u/m.prof"
					}
					if rb.FS[p].Size == 0 {
						fail("profile", fmt.Sprintf("%q wrote no profile", b.Args[1:]))
					}
					j.r.probe("profile written", 1)
				}
			}
			j.r.probe("carried out", 1)
			if len(ra.Stdout) > 100 {
				j.nontrivial(fmt.Sprint(b.Args[1:]))
			}
		},
	}
}
