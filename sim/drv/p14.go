package main

import "fmt"

// opaqueCaps are the capabilities standing for code that the analysis cannot
// see through.
var opaqueCaps = map[string]bool{"UNSAFE_POINTER": true, "REFLECT": true, "ARBITRARY_EXECUTION": true, "CGO": true}

func init() {
	pf := profile{size: 14, maxPkgs: 6, custom: 35, mods: true, mains: 10, opaque: 45, opaqueFns: 18, noisy: 12}
	properties["P14"] = &property{
		id: "P14", level: "exploration", quick: 10000, thorough: 100000,
		rule: "One case is one random program in which functions of every kind contain unsafe conversions, reflect stores, bodyless and C functions, or harmless lookalikes; it is non-trivial when one is expected to be flagged, and distinct by the set of expected pairs.",
		bins: []string{"cmd/capslock with all packages of the repository"},
		gen: func(r *rng, i int) *Case {
			q := pf
			q.opaque = pick(r, []int{10, 40, 80})
			q.opaqueFns = pick(r, []int{0, 10, 40})
			if i%8 == 3 {
				q.size = 40
			}
			return genAnalysis(r, q)
		},
		judge: func(j *judgeCtx, c *Case) {
			w := render(c.Prog)
			s := w.scenario("P14", append(c.Prog.mapArgs(), c.pkgsArg(), "-output=json")...)
			c.apply(s)
			q := queriedSet(w, c.Query)
			if len(q) == 0 {
				return
			}
			f := w.solve(q)
			want := map[[2]string]bool{}
			for k := range w.expected(f) {
				if opaqueCaps[k[1]] {
					want[k] = true
				}
			}
			res := j.run(s)
			j.show(s, res)
			j.count(w)
			wantExit(res, 0)
			rep, err := parseReport(res.Stdout)
			if err != nil {
				fail("bad-report", err.Error())
			}
			got := map[[2]string]bool{}
			for _, ci := range rep.CapabilityInfo {
				if opaqueCaps[ci.Capability] && len(ci.Path) > 0 {
					got[[2]string{ci.Path[0].Name, ci.Capability}] = true
				}
			}
			if d := setDiff(got, want); d != "" {
				fail("flagged", d)
			}
			for _, fn := range c.Prog.Fns {
				for _, o := range fn.Opaque {
					j.r.probe(o+" in "+fn.Kind, 1)
				}
				switch fn.Kind {
				case "asm", "asmmethod", "linkname", "cgo", "varunsafe":
					j.r.probe(fn.Kind, 1)
				}
			}
			if len(want) > 0 {
				j.nontrivial(fmt.Sprint(setHash(want), len(want)))
			}
		},
	}
}
