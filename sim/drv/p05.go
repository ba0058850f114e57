package main

import (
	"fmt"
	"strings"

	"github.com/google/capslock/internal/verifsim/scn"
)

// editProg makes a later or earlier version of a program.
func editProg(r *rng, p *Prog) *Prog {
	q := p.clone()
	for n := r.n(4); n > 0; n-- {
		switch r.n(6) {
		case 0:
			if len(q.Fns) > 1 {
				q.dropFns(map[int]bool{pick(r, q.Fns).ID: true})
			}
		case 1, 2:
			f := pick(r, q.Fns)
			if len(f.Calls) > 0 {
				i := r.n(len(f.Calls))
				f.Calls = append(f.Calls[:i], f.Calls[i+1:]...)
			}
		case 3:
			f := pick(r, q.Fns)
			switch f.Kind {
			case "asm", "asmmethod", "linkname", "cgo", "varunsafe":
			default:
				f.Calls = append(f.Calls, &Call{Form: "direct", To: -1, To2: -1, Std: pick(r, stdLeaves)})
			}
		case 4:
			if len(q.Ents) > 0 {
				i := r.n(len(q.Ents))
				q.Ents = append(q.Ents[:i], q.Ents[i+1:]...)
			}
		case 5:
			for _, f := range q.Fns {
				for i, k := range f.Opaque {
					switch {
					case k == "reflectpair":
						f.Opaque[i] = "plainpair"
					case k == "plainpair":
						f.Opaque[i] = "reflectpair"
					case r.pct(30):
						f.Opaque[i] = pick(r, opaqueKinds)
					}
				}
			}
		}
	}
	return q
}

// pairs is the set of pairs a report at the given granularity has.
func (w *world) pairs(f *facts, gran, filter string) map[[2]string]bool {
	switch gran {
	case "intermediate":
		_, m := w.onPaths(f, capFilter(filter))
		return m
	case "package", "":
		m := map[[2]string]bool{}
		for k := range w.expected(f) {
			m[[2]string{w.m.nodes[k[0]].pkg, k[1]}] = true
		}
		return m
	}
	return w.expected(f)
}

// damage spoils a report so that it is not one any more.
func damage(r *rng, rep string) (string, string) {
	body := strings.TrimSpace(rep)
	switch r.n(8) {
	case 0:
		return "", "empty"
	case 1:
		return rep + "}", "trailing"
	case 2:
		return strings.Replace(body, "{", `{"capability_inf0": [],`, 1), "field"
	case 3:
		return `{"capabilityInfo":[{"packageName":"a","capability":"CAPABILITY_NOT_KNOWN","packageDir":"a.b/c"}]}`, "enum"
	case 4:
		return strings.Repeat("\x00", len(body)), "zeros"
	}
	return body[:r.n(len(body))], "truncated"
}

func init() {
	pf := profile{size: 12, maxPkgs: 5, custom: 45, nobuiltin: 50, mods: true, mains: 10, noisy: 12}
	properties["P05"] = &property{
		id: "P05", level: "fault_enumeration", quick: 4500, thorough: 45000,
		rule: "One case is a pair of program versions, the report of the older as a baseline, and the comparison of the newer with it; some have a damaged baseline or a fault while it is read. A case is non-trivial when the versions differ, are equal with something reported, or the baseline is bad, and distinct by both sets of pairs and the kind.",
		bins: []string{"cmd/capslock with all packages of the repository"},
		gen: func(r *rng, i int) *Case {
			q := pf
			switch i % 8 {
			case 3:
				q.size = 30
			case 5, 7:
				q.opaque, q.opaqueFns = 20, 10
			}
			var c *Case
			if i%16 == 6 {
				// In a temporary module, far from the baseline.
				c = genRemote(r, q)
				c.S["user"] = pick(r, []string{"none", "plain"})
				c.S["work"] = ""
			} else {
				c = genAnalysis(r, q)
				c.S = map[string]string{}
			}
			c.Gran = pick(r, []string{"", "package", "function", "function", "intermediate", "intermediate"})
			switch r.n(10) {
			case 0, 1:
				c.Kind = "same"
				c.Old = c.Prog.clone()
			case 2, 3:
				c.Kind = "bad"
				c.Old = editProg(r, c.Prog)
				c.N = r.in(1, 1<<30)
			case 4:
				c.Kind = "readfault"
				c.Old = editProg(r, c.Prog)
				c.N = r.in(1, 1<<30)
			default:
				c.Kind = "edit"
				c.Old = editProg(r, c.Prog)
			}
			if r.pct(25) {
				c.S["omit"] = pick(r, []string{"both", "old", "new"})
			}
			if c.Gran == "intermediate" && r.pct(40) {
				c.S["filter"] = pick(r, capFilters)
			}
			c.S["where"] = pick(r, []string{"base.json", "/home/u/base.json", "./base.json", "../home/u/base.json"})
			if c.Gran == "" || c.Gran == "package" {
				c.S["oldgran"] = pick(r, []string{"package", "function", ""})
			} else {
				c.S["oldgran"] = c.Gran
			}
			if r.pct(15) {
				c.S["extra"] = pick(r, []string{"-memprofile=/home/u/mem.prof", "-v=1", "-v=2", "-force_local_module"})
				if c.S["user"] != "" && c.S["extra"] == "-force_local_module" {
					c.S["extra"] = "-memprofile=mem.prof"
				}
			}
			c.Alt = []Knobs{genVariation(r)}
			return c
		},
		judge: func(j *judgeCtx, c *Case) {
			old := render(c.Old)
			w := render(c.Prog)
			args := []string{}
			if c.S["filter"] != "" {
				args = append(args, "-capabilities="+c.S["filter"])
			}
			remote := c.S["user"] != ""
			mapArgs := func(p *Prog) []string {
				l := p.mapArgs()
				for i, a := range l {
					if remote && strings.HasPrefix(a, "-capability_map=") {
						l[i] = "-capability_map=map.cm"
					}
				}
				return l
			}
			scenario := func(w *world, args []string) *scn.Scenario {
				if !remote {
					return w.scenario("P05", args...)
				}
				d := *c
				d.Prog = w.p
				return remoteScenario("P05", &d, w, args...)
			}
			queried := func(w *world) map[string]bool {
				if !remote {
					return queriedSet(w, c.Query)
				}
				d := *c
				d.Prog = w.p
				q, _, ok := remoteRequest(&d, w)
				if !ok {
					return nil
				}
				return q
			}
			oargs := append(append(mapArgs(c.Old), c.pkgsArg(), "-output=json"), args...)
			if g := c.S["oldgran"]; g != "" {
				oargs = append(oargs, "-granularity="+g)
			}
			if o := c.S["omit"]; o == "both" || o == "old" {
				oargs = append(oargs, "-omit_paths")
			}
			so := scenario(old, oargs)
			c.apply(so)
			oq := queried(old)
			nq := queried(w)
			if len(oq) == 0 || len(nq) == 0 {
				return
			}
			ro := j.run(so)
			j.show(so, ro)
			wantExit(ro, 0)
			had := old.pairs(old.solve(oq), c.Gran, c.S["filter"])

			name := c.S["where"]
			path := "/home/u/base.json"
			if !strings.Contains(name, "home") {
				path = "/work/base.json"
			}
			text := ro.Stdout
			r := &rng{uint64(c.N)}
			kind := c.Kind
			if c.Kind == "bad" {
				text, kind = damage(r, text)
				kind = "bad " + kind
			}
			nargs := append(append(mapArgs(c.Prog), c.pkgsArg(), "-output=compare"), args...)
			if c.Gran != "" {
				nargs = append(nargs, "-granularity="+c.Gran)
			}
			if o := c.S["omit"]; o == "both" || o == "new" {
				nargs = append(nargs, "-omit_paths")
			}
			if x := c.S["extra"]; x != "" {
				nargs = append(nargs, x)
			}
			nargs = append(nargs, name)
			build := func() *scn.Scenario {
				sn := scenario(w, nargs)
				sn.Files = append(sn.Files, scn.File{Path: path, Data: text})
				c.apply(sn)
				if len(c.Alt) > 0 {
					c.Alt[0].apply(sn)
				}
				return sn
			}
			sn := build()
			have := w.pairs(w.solve(nq), c.Gran, c.S["filter"])
			if c.Kind == "bad" && r.pct(15) {
				kind = "bad missing"
				sn.Files = sn.Files[:len(sn.Files)-1]
			} else if c.Kind == "bad" && r.pct(10) {
				kind = "bad directory"
				sn.Files[len(sn.Files)-1] = scn.File{Path: path, Dir: true}
			}
			var at []scn.OpRec
			if c.Kind == "readfault" {
				// Find out how the baseline is read, and break one of these
				// operations.
				dry := j.run(sn)
				for _, o := range dry.Ops {
					if o.Proc == "main" && (o.Path == path || o.Path == name) {
						switch o.Op {
						case "open", "read":
							at = append(at, o)
						}
					}
				}
				if len(at) == 0 {
					fail("verdict", "the comparison does not read the baseline")
				}
				o := pick(r, at)
				kind = "readfault " + o.Op
				sn = build()
				sn.Faults = []scn.Fault{{Proc: "main", Op: o.Op, Path: o.Path, N: o.PN, Kind: "err", Err: pick(r, []string{"EIO", "EACCES", "ENOMEM", "ESTALE"})}}
			}
			res := j.run(sn)
			if strings.HasPrefix(kind, "readfault") && len(res.Fired) == 0 {
				// The reads were split differently this time.
				kind = "readfault open"
				sn.Faults[0].Op, sn.Faults[0].Path, sn.Faults[0].N = at[0].Op, at[0].Path, at[0].PN
				res = j.run(sn)
			}
			j.show(sn, res)
			j.count(w)
			if strings.HasPrefix(kind, "readfault") && len(res.Fired) == 0 {
				simFail("the fault did not fire")
			}
			if c.Kind == "bad" || c.Kind == "readfault" {
				if res.Status != "exit" || res.Code != 2 {
					fail("bad-baseline", fmt.Sprintf("%s: ended with %s %d", kind, res.Status, res.Code))
				}
				if len(parseCompare(res.Stdout)) > 0 {
					fail("bad-baseline", kind+": printed a verdict")
				}
				j.r.probe(kind, 1)
				j.nontrivial(fmt.Sprint(kind, c.Gran, c.S, setHash(had)))
				return
			}
			gained, lost := map[[2]string]bool{}, map[[2]string]bool{}
			for k := range have {
				if !had[k] {
					gained[k] = true
				}
			}
			for k := range had {
				if !have[k] {
					lost[k] = true
				}
			}
			want := 0
			if len(gained)+len(lost) > 0 {
				want = 1
			}
			if res.Status != "exit" || res.Code != want {
				fail("verdict", fmt.Sprintf("ended with %s %d instead of exit %d: gained %s lost %s: %s%s", res.Status, res.Code, want, setDiff(gained, nil), setDiff(lost, nil), tail(res.Stderr, 500), tail(res.Panic, 500)))
			}
			if want == 0 && res.Stdout != "" {
				fail("verdict", "prints text although nothing changed: "+tail(res.Stdout, 300))
			}
			g, l := map[[2]string]bool{}, map[[2]string]bool{}
			for _, ch := range parseCompare(res.Stdout) {
				k := [2]string{ch.key, ch.cap}
				m := g
				if !ch.gained {
					m = l
				}
				if m[k] {
					fail("named", fmt.Sprintf("%v is named twice", k))
				}
				m[k] = true
			}
			if d := setDiff(g, gained); d != "" {
				fail("named", "gained: "+d)
			}
			if d := setDiff(l, lost); d != "" {
				fail("named", "lost: "+d)
			}
			if want == 1 || len(have) > 0 {
				j.r.probe(fmt.Sprintf("%s exit %d", c.Kind, want), 1)
				j.nontrivial(fmt.Sprint(kind, c.Gran, setHash(had), setHash(have)))
			}
		},
	}
}
