package main

import (
	"fmt"
	"os"
	"strings"
)

// genAnalysis makes a program, a custom map and a query.
func genAnalysis(r *rng, pf profile) *Case {
	c := &Case{}
	c.setKnobs(genKnobs(r))
	if r.pct(15) {
		c.ShortReads = r.in(1, 3000)
	}
	c.Prog = genProg(r, pf)
	if r.pct(pf.custom) {
		c.Prog.Custom = true
		c.Prog.NoBltin = r.pct(pf.nobuiltin)
		w := render(c.Prog)
		w.sources()
		c.Prog.Ents = genEntries(r, w, c.Prog.NoBltin)
	}
	c.Prog.Noisy = r.pct(pf.noisy)
	c.Query = genQuery(r, c.Prog)
	return c
}

func (c *Case) pkgsArg() string { return "-packages=" + strings.Join(c.Query, ",") }

func init() {
	pf := profile{size: 14, maxPkgs: 6, custom: 55, nobuiltin: 75, mods: true, mains: 10, noisy: 12}
	properties["P01"] = &property{
		id: "P01", level: "exploration", quick: 4000, thorough: 40000,
		rule: "Seeded random programs with known call edges, analysed under a random goroutine schedule; a case is non-trivial when at least one function is expected to have a capability, and distinct by its set of expected pairs and the call forms used.",
		bins: []string{"cmd/capslock with all packages of the repository"},
		known: []known{{
			what: "an interface call on a value of an instantiated generic type with a value receiver is not followed",
			fails: func(j *judgeCtx) bool {
				s := rawScenario("P01", map[string]string{
					"/work/go.mod": "module example.com/known\n\ngo 1.23\n",
					"/work/a.go": `package known

import "os"

type G[T any] struct{ v T }

func (g G[T]) M() { os.Getpid() }

type I interface{ M() }

func F() {
	var i I = G[int]{}
	i.M()
}
`}, "-packages=.", "-output=json")
				res := j.run(s)
				return res.Status == "exit" && res.Code == 0 && !strings.Contains(res.Stdout, `"example.com/known.F"`)
			},
		}},
		gen: func(r *rng, i int) *Case {
			q := pf
			if i%4 == 3 {
				q.size = 40
			}
			c := genAnalysis(r, q)
			c.Gran = pick(r, []string{"", "", "", "function", "package"})
			return c
		},
		judge: func(j *judgeCtx, c *Case) {
			w := render(c.Prog)
			args := append(c.Prog.mapArgs(), c.pkgsArg(), "-output=json")
			if c.Gran != "" {
				args = append(args, "-granularity="+c.Gran)
			}
			s := w.scenario("P01", args...)
			c.apply(s)
			q := queriedSet(w, c.Query)
			f := w.solve(q)
			want := w.expected(f)
			res := j.run(s)
			if verbose {
				for _, f := range s.Files {
					fmt.Printf("=== %s\n%s\n", f.Path, f.Data)
				}
				fmt.Println(s.Args, res.Status, res.Code, res.Stdout, res.Stderr, res.Panic)
				os.Stdout.Sync()
			}
			if len(q) == 0 {
				return
			}
			j.count(w)
			wantExit(res, 0)
			rep, err := parseReport(res.Stdout)
			if err != nil {
				fail("bad-report", err.Error())
			}
			got := map[[2]string]bool{}
			if c.Gran == "package" {
				pw := map[[2]string]bool{}
				for k := range want {
					pw[[2]string{w.m.nodes[k[0]].pkg, k[1]}] = true
				}
				want = pw
			}
			for _, ci := range rep.CapabilityInfo {
				if len(ci.Path) == 0 {
					fail("bad-report", "entry without a path")
				}
				k := [2]string{ci.Path[0].Name, ci.Capability}
				if c.Gran == "package" {
					k[0] = ci.PackageDir
				}
				if got[k] {
					fail("duplicate", k[0]+" "+k[1]+" reported twice")
				}
				got[k] = true
			}
			if d := setDiff(got, want); d != "" {
				class := "missing"
				if !strings.Contains(d, "missing") {
					class = "unexpected"
				}
				fail(class, d)
			}
			if len(want) > 0 {
				j.nontrivial(fmt.Sprint(setHash(want), len(w.forms), len(want)))
			}
		},
	}
}
