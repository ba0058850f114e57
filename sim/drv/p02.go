package main

import (
	"fmt"
	"strings"

	"github.com/google/capslock/internal/verifsim/scn"
)

// genVariation makes an execution that differs in everything that must not
// matter.
func genVariation(r *rng) Knobs {
	k := genKnobs(r)
	if r.pct(50) {
		k.ListOrder = r.next()>>1 | 1
	}
	if r.pct(30) {
		k.ShortReads = pick(r, []int{1, 7, 100, 1000, 5000})
		if k.ShortReads < 100 {
			k.Prem = 0
		}
	}
	if r.pct(25) {
		k.Slow = r.in(1, 20000)
	}
	if r.pct(15) {
		k.ClockJump = int64(r.in(-100000, 10000000))
	}
	return k
}

var capFilters = []string{"FILES", "NETWORK", "-FILES", "-UNANALYZED", "CAPABILITY_EXEC,READ_SYSTEM_STATE", "-NETWORK,-FILES,-EXEC",
	"FILES,NETWORK,RUNTIME,READ_SYSTEM_STATE,MODIFY_SYSTEM_STATE,OPERATING_SYSTEM,SYSTEM_CALLS,ARBITRARY_EXECUTION,CGO,UNANALYZED,UNSAFE_POINTER,REFLECT,EXEC"}

// genOutput chooses an output mode and options that apply to it.
func genOutput(r *rng) []string {
	var a []string
	switch m := pick(r, []string{"", "json", "json", "j", "m", "machine", "v", "verbose", "g", "graph", "graph"}); m {
	case "":
	default:
		a = append(a, "-output="+m)
	}
	if g := pick(r, []string{"", "", "function", "package", "intermediate", "intermediate"}); g != "" {
		a = append(a, "-granularity="+g)
	}
	if r.pct(20) {
		a = append(a, "-omit_paths")
	}
	if r.pct(35) {
		a = append(a, "-capabilities="+pick(r, capFilters))
	}
	if r.pct(10) {
		a = append(a, "-noisy")
	}
	return a
}

// thinned is a report with some entries missing, as an old baseline.
func thinned(rep string, n int) string {
	var out []string
	skip := false
	k := 0
	for _, l := range strings.Split(rep, "\n") {
		if strings.TrimRight(l, " ") == "\t\t{" {
			k++
			skip = n > 0 && (k*7+n)%3 == 0
		}
		if !skip {
			out = append(out, l)
		}
		if strings.HasPrefix(l, "\t\t}") {
			skip = false
		}
	}
	s := strings.Join(out, "\n")
	// An entry that was last in its list leaves a comma behind.
	return strings.ReplaceAll(strings.ReplaceAll(s, "},\n\t],", "}\n\t],"), "},\n\t]\n", "}\n\t]\n")
}

func diffText(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		x, y := "<end>", "<end>"
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			return fmt.Sprintf("line %d: %q and %q", i+1, tail(x, 200), tail(y, 200))
		}
	}
	return "no difference"
}

func init() {
	pf := profile{size: 14, maxPkgs: 6, custom: 45, nobuiltin: 50, mods: true, mains: 10}
	properties["P02"] = &property{
		id: "P02", level: "exploration", quick: 3500, thorough: 35000,
		rule: "One case is one world and one command line run under three or four different schedules, hash seeds, listing orders, delays and read sizes; it is non-trivial when the output names a capability, and distinct by its output and options.",
		bins: []string{"cmd/capslock with all packages of the repository"},
		gen: func(r *rng, i int) *Case {
			q := pf
			switch i % 8 {
			case 3:
				q.size = 40
			case 7:
				q.opaque = 30
			}
			c := genAnalysis(r, q)
			c.ShortReads = 0
			c.Args = genOutput(r)
			if r.pct(15) {
				c.Mode = "compare"
				c.N = r.n(5)
				c.Args = nil
				if g := pick(r, []string{"", "function", "package", "intermediate"}); g != "" {
					c.Args = append(c.Args, "-granularity="+g)
				}
			}
			for n := r.in(2, 3); n > 0; n-- {
				c.Alt = append(c.Alt, genVariation(r))
			}
			return c
		},
		judge: func(j *judgeCtx, c *Case) {
			w := render(c.Prog)
			if len(queriedSet(w, c.Query)) == 0 {
				return
			}
			args := append(c.Prog.mapArgs(), c.pkgsArg())
			args = append(args, c.Args...)
			var extra []scn.File
			if c.Mode == "compare" {
				s := w.scenario("P02", append(args, "-output=json")...)
				c.apply(s)
				res := j.run(s)
				wantExit(res, 0)
				extra = append(extra, scn.File{Path: "/work/base.json", Data: thinned(res.Stdout, c.N)})
				args = append(args, "-output=compare", "base.json")
			}
			j.count(w)
			var first *scn.Result
			for i, k := range append([]Knobs{c.knobs()}, c.Alt...) {
				s := w.scenario("P02", args...)
				s.Files = append(s.Files, extra...)
				c.apply(s)
				k.apply(s)
				res := j.run(s)
				if verbose {
					for _, f := range s.Files {
						fmt.Printf("=== %s\n%s\n", f.Path, f.Data)
					}
					fmt.Println(s.Args, res.Status, res.Code, res.Stdout, res.Stderr, res.Panic)
				}
				if i == 0 {
					first = res
					if res.Status != "exit" || res.Code > 1 || res.Code == 1 && c.Mode != "compare" {
						fail("no-report", fmt.Sprintf("run ended with %s %d: %s%s", res.Status, res.Code, tail(res.Stderr, 800), tail(res.Panic, 800)))
					}
					continue
				}
				if res.Status != first.Status || res.Code != first.Code {
					fail("status", fmt.Sprintf("%s %d and %s %d: %s", first.Status, first.Code, res.Status, res.Code, tail(res.Stderr, 500)))
				}
				if res.Stdout != first.Stdout {
					fail("output", diffText(first.Stdout, res.Stdout))
				}
			}
			if strings.Contains(first.Stdout, "CAPABILITY_") {
				j.nontrivial(fmt.Sprint(hashString(first.Stdout), c.Args, c.Mode))
			}
		},
	}
}
