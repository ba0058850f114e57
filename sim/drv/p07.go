package main

import (
	"fmt"
	"strings"

	"github.com/google/capslock/internal/verifsim/scn"
)

// addUserFiles puts files around that are none of the analyser's business.
func addUserFiles(s *scn.Scenario, tmp string) {
	add := func(path, data string) { s.Files = append(s.Files, scn.File{Path: path, Data: data}) }
	add(tmp+"/keep.txt", "a file of somebody else\n")
	add(tmp+"/123456789/go.mod", "module capslockmodule\n")
	add(tmp+"/capslock/a.go", "package a\n")
	add("/work/.hidden", "x\n")
	add("/work/notes.txt", "x\n")
	add("/home/u/notes.txt", "x\n")
	for _, x := range []string{".old", ".bak", ".tmp", "~", ".1"} {
		add("/work/mem.out"+x, "x\n")
		add("/home/u/mem.out"+x, "x\n")
	}
	s.Files = append(s.Files, scn.File{Path: "/home/u/link", Link: "/work/notes.txt"},
		scn.File{Path: "/work/emptydir", Dir: true})
}

// envOf gives the value of an environment variable of a scenario.
func envOf(s *scn.Scenario, name string) string {
	v := ""
	for _, e := range s.Env {
		if x, ok := strings.CutPrefix(e, name+"="); ok {
			v = x
		}
	}
	return v
}

func under(p, dir string) bool { return p == dir || strings.HasPrefix(p, dir+"/") }

// onlyFlag gives a scenario that ends at once, to learn its initial files.
func initialFS(j *judgeCtx, s *scn.Scenario) map[string]scn.FSEnt {
	q := *s
	q.Args = []string{s.Args[0], "-no_such_flag"}
	q.Faults, q.Disk = nil, -1
	res := j.run(&q)
	if res.Status != "exit" || res.Code != 2 {
		simFail("a run with an unknown flag ended with %s %d", res.Status, res.Code)
	}
	return res.FS
}

// leftovers lists what a run left in the temporary directory.
func leftovers(before, after map[string]scn.FSEnt, tmp string) []string {
	var l []string
	for p := range after {
		if _, ok := before[p]; !ok && p != tmp && under(p, tmp) {
			l = append(l, p)
		}
	}
	return l
}

// removalDisturbed says whether a fault can have kept the program from
// removing its temporary directory.
func removalDisturbed(res *scn.Result, tmp string) bool {
	for _, f := range res.Fired {
		if f.Proc != "main" || f.Kind == "short" {
			continue
		}
		switch f.Op {
		case "unlink", "rmdir":
			return true
		case "open", "close", "getdents", "fstat", "stat", "lseek":
			// Directories are removed by names relative to their parents.
			if f.Path == "" || under(f.Path, tmp) || f.Path[0] != '/' && f.Path != "map.cm" && f.Path != "base.json" {
				return true
			}
		}
	}
	return false
}

func init() {
	properties["P07"] = &property{
		id: "P07", level: "fault_enumeration", quick: 10000, thorough: 100000,
		rule: "One case is a generated program, command line and surroundings, run undisturbed and then killed or disturbed at seeded operations, and after a kill run again from the files that were left; it is non-trivial when the run used a temporary module or a fault fired, and distinct by the faults, the way the run ended and the surroundings.",
		bins: []string{"cmd/capslock with all packages of the repository"},
		gen: func(r *rng, i int) *Case {
			c := genFaultCase(r, 70)
			c.S["mem"] = pick(r, []string{"", "", "", "/work/mem.out", "/home/u/mem.out", "mem.out"})
			c.S["bad"] = pick(r, []string{"", "", "", "", "", "map", "flag", "gran", "missing", "extra", "buildenv"})
			if r.pct(6) {
				c.Disk = int64(r.in(1, 4000))
			}
			return c
		},
		judge: func(j *judgeCtx, c *Case) {
			if !c.baseline(j, "P07") {
				return
			}
			base := faultWorld("P07", c)
			mk := func() *scn.Scenario {
				s := base()
				if m := c.S["mem"]; m != "" {
					s.Args = append(s.Args[:1:1], append([]string{"-memprofile=" + m}, s.Args[1:]...)...)
				}
				add := func(a string) { s.Args = append(s.Args[:1:1], append([]string{a}, s.Args[1:]...)...) }
				switch c.S["bad"] {
				case "map":
					add("-capability_map=/home/u/notes.txt")
				case "flag":
					add("-disable_builtin")
				case "gran":
					add("-granularity=none")
				case "missing":
					for i, a := range s.Args {
						if strings.HasPrefix(a, "-packages=") {
							s.Args[i] += ",gone.example/x"
						}
					}
				case "extra":
					s.Args = append(s.Args, "surplus")
				case "buildenv":
					s.Env = append(s.Env, "GOFLAGS=-mod=mod", "GO111MODULE=on")
				}
				addUserFiles(s, envOf(s, "TMPDIR"))
				return s
			}
			s := mk()
			tmp := envOf(s, "TMPDIR")
			mem := c.S["mem"]
			if mem == "mem.out" {
				mem = "/work/mem.out"
			}
			before := initialFS(j, s)
			may := func(p string) bool {
				if _, ok := before[p]; !ok && under(p, tmp) {
					return true
				}
				return under(p, "/gomodcache") || p == mem && mem != ""
			}
			check := func(res *scn.Result, what string) {
				if d := fsDiff(before, res.FS, may); d != "" {
					fail("changed", fmt.Sprintf("%s that ended with %s %d: %s", what, res.Status, res.Code, d))
				}
				switch res.Status {
				case "killed", "sigpipe":
					return
				case "exit", "panic":
				default:
					fail("stuck", what+" ended with "+res.Status)
				}
				if l := leftovers(before, res.FS, tmp); len(l) > 0 && !removalDisturbed(res, tmp) {
					fail("leftover", fmt.Sprintf("%s that ended with %s %d left %s behind", what, res.Status, res.Code, tail(strings.Join(l, " "), 200)))
				}
			}
			s.Faults, s.Disk = nil, -1
			clean := j.run(s)
			j.show(s, clean)
			check(clean, "an undisturbed run")
			temp := 0
			for _, o := range clean.Ops {
				if o.Proc == "main" && o.Op == "mkdir" {
					temp++
				}
			}
			j.r.probe("undisturbed runs using a temporary module", min(temp, 1))
			if c.Faults == nil && (c.Disk == 0 || c.N%2 == 0) {
				r := &rng{uint64(c.N)}
				c.Faults = chooseFaults(r, clean.Ops, 1+r.n(2), func(o scn.OpRec) bool {
					return o.Proc == "main" || o.Op != "stat"
				})
				if len(c.Faults) > 0 && r.pct(40) {
					c.Faults[0].Kind, c.Faults[0].Err = pick(r, []string{"kill", "killafter"}), ""
				}
			}
			s = mk()
			res := j.run(s)
			j.show(s, res)
			j.countFaults(res)
			if len(res.Fired) == 0 && res.Enospc == 0 {
				if temp > 0 {
					j.nontrivial(fmt.Sprint("none ", clean.Code, c.S))
				}
				return
			}
			check(res, "a run with "+describe(res.Fired))
			j.nontrivial(fmt.Sprint(describe(res.Fired), res.Status, res.Code, c.S["user"], c.S["bad"]))
			if res.Status != "killed" {
				return
			}
			// Run again with the files that the killed run left.
			s = mk()
			s.Faults, s.Disk = nil, -1
			for _, p := range sortedKeys(res.FS) {
				e := res.FS[p]
				if o, ok := before[p]; ok && o.Hash == e.Hash && o.Size == e.Size {
					continue
				}
				f := scn.File{Path: p, Data: e.Data}
				switch e.Mode & 0o170000 {
				case 0o040000:
					f.Dir, f.Data = true, ""
				case 0o120000:
					f.Link, f.Data = e.Data, ""
				}
				s.Files = append(s.Files, f)
			}
			before = initialFS(j, s)
			again := j.run(s)
			j.show(s, again)
			check(again, "a run after one that was killed")
			if again.Status != clean.Status || again.Code != clean.Code || again.Stdout != clean.Stdout {
				fail("history", fmt.Sprintf("after a killed run (%s) the next gave %s %d instead of %s %d: %s", describe(c.Faults), again.Status, again.Code, clean.Status, clean.Code, diffText(clean.Stdout, again.Stdout)))
			}
			j.r.probe("runs repeated after a kill", 1)
		},
	}
}
