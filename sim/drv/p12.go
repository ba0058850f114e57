package main

import (
	"fmt"
	"strings"

	"github.com/google/capslock/internal/verifsim/scn"
)

// bodied reports whether a function can have more statements.
func bodied(f *Fn) bool {
	switch f.Kind {
	case "asm", "asmmethod", "linkname", "cgo", "varunsafe":
		return false
	}
	return true
}

// togglePairs exchanges the two kinds of pair types.
func togglePairs(p *Prog) *Prog {
	q := p.clone()
	for _, f := range q.Fns {
		for i, k := range f.Opaque {
			switch k {
			case "reflectpair":
				f.Opaque[i] = "plainpair"
			case "plainpair":
				f.Opaque[i] = "reflectpair"
			}
		}
	}
	return q
}

var analyses = map[string]bool{"info": true, "stats": true, "counts": true, "graph": true, "run": true}

// alone lists the operations that a given one needs, and itself.
func alone(ops []scn.APIOp, i int) (out []scn.APIOp) {
	o := ops[i]
	o.Worker = 0
	class := func(n int) {
		var chain []scn.APIOp
		for n >= 0 {
			next := -1
			for _, d := range ops {
				if (d.Op == "default" || d.Op == "loadmap" || d.Op == "exclude") && d.Slot == n {
					d.Worker = 0
					chain = append([]scn.APIOp{d}, chain...)
					if d.Op == "exclude" {
						next = d.Class
					}
					break
				}
			}
			n = next
		}
		out = append(out, chain...)
	}
	for _, d := range ops {
		if d.Op == "conf" && d.Conf == o.Conf {
			class(d.Class)
			d.Worker = 0
			out = append(out, d)
			break
		}
	}
	for _, d := range ops {
		if d.Op == "load" && d.Slot == o.Slot {
			d.Worker = 0
			out = append(out, d)
			break
		}
	}
	return append(out, o)
}

// treeOf says which version of the files a slot was loaded from.
func (c *Case) treeOf(slot int) int {
	tree := 0
	for _, phase := range []func(w int) bool{
		func(w int) bool { return w == 0 }, func(w int) bool { return w > 0 }, func(w int) bool { return w < 0 },
	} {
		for _, o := range c.API.Ops {
			if phase(o.Worker) {
				switch {
				case o.Op == "edit":
					tree = o.Text
				case o.Op == "load" && o.Slot == slot:
					return tree
				}
			}
		}
	}
	return tree
}

// otherMap is a map with about half of the entries, some of them changed.
func (p *Prog) otherMap() string {
	q := p.clone()
	var l []*Ent
	for i, e := range q.Ents {
		if i%3 == 1 {
			continue
		}
		if i%3 == 2 && e.Cap != "" {
			e.Cap = capNames[(i+len(e.Name))%len(capNames)]
		}
		l = append(l, e)
	}
	q.Ents = l
	return q.capmap()
}

func init() {
	pf := profile{size: 14, maxPkgs: 5, custom: 60, nobuiltin: 30, mods: true, mains: 10, opaque: 20}
	properties["P12"] = &property{
		id: "P12", level: "exploration", quick: 2000, thorough: 20000,
		rule: "One case is a history of loads and analyses in one process, partly concurrent, over a generated program; the result of each analysis is compared with the same analysis made alone in a fresh process. It is non-trivial when an analysis with earlier or concurrent company found a capability, and distinct by the history and the results.",
		bins: []string{"packages analyzer and interesting, called by a harness"},
		gen: func(r *rng, i int) *Case {
			c := genAnalysis(r, pf)
			c.N = r.in(1, 1<<40)
			c.API = &scn.API{}
			ops := &c.API.Ops
			add := func(o scn.APIOp) { *ops = append(*ops, o) }
			add(scn.APIOp{Op: "default", Slot: 0})
			add(scn.APIOp{Op: "default", Slot: 1, Noisy: true})
			classes := []int{0, 0, 1}
			if c.Prog.Custom {
				add(scn.APIOp{Op: "loadmap", Slot: 2})
				add(scn.APIOp{Op: "loadmap", Slot: 3, NoBlt: true})
				add(scn.APIOp{Op: "loadmap", Slot: 5, Text: 1})
				add(scn.APIOp{Op: "loadmap", Slot: 6, Text: 1, NoBlt: true})
				classes = append(classes, 2, 2, 3, 4, 5, 6)
				shuffle(r, (*ops)[2:])
				add(scn.APIOp{Op: "exclude", Slot: 4, Class: 2})
			}
			confs, slots := 0, 0
			conf := func(w int) int {
				caps := ""
				if r.pct(25) {
					caps = pick(r, []string{"FILES", "-FILES", "NETWORK,EXEC", "-UNANALYZED"})
				}
				add(scn.APIOp{Worker: w, Op: "conf", Conf: confs, Class: pick(r, classes), Gran: pick(r, []string{"", "", "function", "package", "intermediate"}), Caps: caps, Omit: r.pct(25), NoBlt: r.pct(20)})
				confs++
				return confs - 1
			}
			edit := func(w int) {
				if c.Old == nil {
					for _, m := range c.Prog.Mods[1:] {
						// Edits to modules that have to be downloaded are not seen.
						m.Where = "replace"
					}
					// Types whose names stay the same while what they
					// are changes.
					for _, f := range c.Prog.Fns {
						if r.pct(25) && bodied(f) {
							f.Opaque = append(f.Opaque, pick(r, []string{"plainpair", "reflectpair"}))
						}
					}
					if r.pct(50) {
						c.Old = editProg(r, editProg(r, c.Prog))
					} else {
						c.Old = togglePairs(c.Prog)
					}
				}
				add(scn.APIOp{Worker: w, Op: "edit", Text: r.n(2)})
			}
			load := func(w int) int {
				o := scn.APIOp{Worker: w, Op: "load", Slot: slots, Pkgs: genQuery(r, c.Prog)}
				if r.pct(15) {
					o.Tags = pick(r, []string{"extra", "netgo,purego"})
				}
				if r.pct(10) {
					o.GOOS = pick(r, []string{"linux", "windows", "darwin"})
				}
				add(o)
				slots++
				return slots - 1
			}
			run := func(w int, cs, ls []int, print bool) {
				o := scn.APIOp{Worker: w, Conf: pick(r, cs), Slot: pick(r, ls)}
				o.Op = pick(r, []string{"info", "info", "stats", "counts", "graph"})
				if print && r.pct(50) {
					o.Op = "run"
					o.Out = pick(r, []string{"", "json", "m", "v", "g", "compare"})
					if o.Out == "compare" {
						o.Args = []string{"base.json"}
					}
				}
				add(o)
			}
			var cs, ls []int
			for n := r.in(1, 2); n > 0; n-- {
				if r.pct(25) {
					edit(0)
				}
				cs, ls = append(cs, conf(0)), append(ls, load(0))
			}
			for n := r.in(0, 4); n > 0; n-- {
				run(0, cs, ls, true)
			}
			if r.pct(35) {
				edit(0)
			}
			if r.pct(60) {
				for w := r.in(2, 3); w > 0; w-- {
					c2, l2 := []int{conf(w)}, []int{load(w)}
					for n := r.in(1, 3); n > 0; n-- {
						run(w, c2, l2, w == 1)
					}
					cs, ls = append(cs, c2...), append(ls, l2...)
				}
			}
			if r.pct(30) {
				if r.pct(50) {
					edit(-1)
				}
				ls = append(ls, load(-1))
			}
			for n := r.in(1, 4); n > 0; n-- {
				run(-1, cs, ls, true)
			}
			return c
		},
		judge: func(j *judgeCtx, c *Case) {
			w := render(c.Prog)
			trees := []*world{w}
			api := &scn.API{Texts: []string{c.Prog.capmap(), c.Prog.otherMap()}}
			if c.Old != nil {
				trees = append(trees, render(c.Old))
				for _, t := range trees {
					api.Trees = append(api.Trees, t.sources())
				}
			}
			mk := func(tree int, ops []scn.APIOp) *scn.Scenario {
				s := trees[tree].scenario("P12")
				if c.Prog.Custom && tree > 0 {
					// The map is the same in all versions.
					for i, f := range s.Files {
						if f.Path == "/home/u/map.cm" {
							s.Files[i].Data = c.Prog.capmap()
						}
					}
				}
				s.Files = append(s.Files, scn.File{Path: "/work/base.json", Data: "{}\n"})
				s.API = &scn.API{Ops: ops, Texts: api.Texts, Trees: api.Trees}
				return s
			}
			s := mk(0, c.API.Ops)
			c.apply(s)
			res := j.run(s)
			j.count(w)
			if verbose {
				j.show(s, res)
				for _, x := range res.API {
					fmt.Printf("%d: %+v\n   -> %+v\n", x.Op, c.API.Ops[x.Op], x)
				}
			}
			if res.Status == "panic" {
				fail("crash", "the history ended with "+res.Panic)
			}
			wantExit(res, 0)
			// Compare the last of the operations of each kind.
			done := map[string]*scn.APIRes{}
			n := 0
			label := ""
			for k := len(res.API) - 1; k >= 0; k-- {
				x := res.API[k]
				o := c.API.Ops[x.Op]
				if !analyses[o.Op] {
					continue
				}
				label += o.Op + o.Out
				what := fmt.Sprintf("operation %d (%s %s), number %d of the history", x.Op, o.Op, o.Out, k)
				key := fmt.Sprint(o.Op, o.Out, o.Slot, o.Conf)
				ref := done[key]
				if ref == nil {
					if n++; n > 6 {
						continue
					}
					a := alone(c.API.Ops, x.Op)
					q := mk(c.treeOf(o.Slot), a)
					c.apply(q)
					rr := j.run(q)
					if rr.Status == "panic" {
						fail("crash", what+" alone ended with "+rr.Panic)
					}
					wantExit(rr, 0)
					y := rr.API[len(rr.API)-1]
					ref = &y
					done[key] = ref
				}
				if x.Panic != ref.Panic || x.Err != ref.Err {
					fail("error", fmt.Sprintf("%s ended with %q %q, alone with %q %q", what, x.Panic, x.Err, ref.Panic, ref.Err))
				}
				if x.Out != ref.Out {
					d := diffText(ref.Out, x.Out)
					if o.Op != "graph" && o.Op != "run" {
						d = diffText(strings.ReplaceAll(ref.Out, "{", "\n{"), strings.ReplaceAll(x.Out, "{", "\n{"))
					}
					fail("result", what+" differs from the same alone: "+d)
				}
				if x.Panic != "" {
					fail("crash", what+" panicked: "+x.Panic)
				}
				if k > 0 && strings.Contains(x.Out, "CAPABILITY_") {
					j.nontrivial(label + fmt.Sprint(hashString(x.Out)))
				}
				j.r.probe("analysis: "+o.Op+" "+o.Out, 1)
				if o.Worker > 0 {
					j.r.probe("concurrent analyses", 1)
				}
			}
		},
	}
}
