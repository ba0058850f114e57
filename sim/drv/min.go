package main

import (
	"encoding/json"
	"os"
	"sync"
	"time"
)

func (c *Case) clone() *Case {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	q := new(Case)
	if err := json.Unmarshal(b, q); err != nil {
		panic(err)
	}
	return q
}

// minimise shrinks a violating case while it keeps failing in the same way.
func minimise(p *property, r *runner, c *Case, v *verdict) (*Case, *verdict) {
	budget := 60 * time.Second
	if d, err := time.ParseDuration(os.Getenv("VERIF_MIN")); err == nil {
		budget = d
	}
	end := time.Now().Add(budget)
	for progress := true; progress; {
		progress = false
		for stage := range reducers {
			for from := 0; ; {
				cands := reducers[stage](c)
				if from >= len(cands) || time.Now().After(end) {
					break
				}
				// Try a batch at a time; take the first that still fails.
				m := min(*workers, len(cands)-from)
				vs := make([]*verdict, m)
				var wg sync.WaitGroup
				for k := 0; k < m; k++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						if x, err := judge(p, r, cands[from+k]); err == nil && x.class == v.class {
							vs[k] = x
						}
					}()
				}
				wg.Wait()
				took := false
				for k := 0; k < m; k++ {
					if vs[k] != nil {
						c, v = cands[from+k], vs[k]
						took, progress = true, true
						from += k
						break
					}
				}
				if !took {
					from += m
				}
			}
		}
		if time.Now().After(end) {
			break
		}
	}
	return c, v
}

// reducers propose smaller cases.
var reducers = []func(*Case) []*Case{
	func(c *Case) (out []*Case) {
		with := func(f func(*Case)) {
			q := c.clone()
			f(q)
			out = append(out, q)
		}
		if len(c.Faults) > 1 {
			for i := range c.Faults {
				with(func(q *Case) { q.Faults = append(q.Faults[:i], q.Faults[i+1:]...) })
			}
		}
		if len(c.Alt) > 1 {
			for i := range c.Alt {
				with(func(q *Case) { q.Alt = append(q.Alt[:i], q.Alt[i+1:]...) })
			}
		}
		if c.Prem != 0 {
			with(func(q *Case) { q.Prem = 0 })
		}
		if c.Yld != 0 {
			with(func(q *Case) { q.Yld = 0 })
		}
		if c.ShortReads != 0 {
			with(func(q *Case) { q.ShortReads = 0 })
		}
		if c.Slow != 0 {
			with(func(q *Case) { q.Slow = 0 })
		}
		if c.ClockJump != 0 {
			with(func(q *Case) { q.ClockJump = 0 })
		}
		if c.ListOrder != 0 {
			with(func(q *Case) { q.ListOrder = 0 })
		}
		for i := range c.Args {
			with(func(q *Case) { q.Args = append(q.Args[:i], q.Args[i+1:]...) })
		}
		if len(c.Query) > 1 {
			for i := range c.Query {
				with(func(q *Case) { q.Query = append(q.Query[:i], q.Query[i+1:]...) })
			}
		}
		for i, k := range c.Alt {
			if k.Prem != 0 {
				with(func(q *Case) { q.Alt[i].Prem = 0 })
			}
			if k.Yld != 0 {
				with(func(q *Case) { q.Alt[i].Yld = 0 })
			}
			if k.ShortReads != 0 {
				with(func(q *Case) { q.Alt[i].ShortReads = 0 })
			}
			if k.ListOrder != 0 {
				with(func(q *Case) { q.Alt[i].ListOrder = 0 })
			}
			if k.Slow != 0 {
				with(func(q *Case) { q.Alt[i].Slow = 0 })
			}
			if k.ClockJump != 0 {
				with(func(q *Case) { q.Alt[i].ClockJump = 0 })
			}
		}
		return out
	},
	func(c *Case) (out []*Case) { // whole packages
		if c.Prog == nil {
			return nil
		}
		for i, k := range c.Prog.Pkgs {
			if !k.Dead {
				q := c.clone()
				q.Prog.dropPkg(i)
				var query []string
				for _, n := range q.Query {
					if n != c.Prog.pkgPath(i) && n != "./"+k.Rel && (n != "." || k.Rel != "") {
						query = append(query, n)
					}
				}
				if q.Query = query; len(query) == 0 {
					continue
				}
				if c.Old != nil {
					q.Old.dropPkg(i)
				}
				out = append(out, q)
			}
		}
		return out
	},
	func(c *Case) (out []*Case) { // groups of functions, then single ones
		if c.Prog == nil {
			return nil
		}
		for n := len(c.Prog.Fns) / 2; n >= 1; n /= 2 {
			for i := 0; i < len(c.Prog.Fns); i += n {
				q := c.clone()
				ids := map[int]bool{}
				for k := i; k < i+n && k < len(c.Prog.Fns); k++ {
					ids[c.Prog.Fns[k].ID] = true
				}
				q.Prog.dropFns(ids)
				if q.Old != nil {
					q.Old.dropFns(ids)
				}
				out = append(out, q)
			}
		}
		return out
	},
	func(c *Case) (out []*Case) { // map entries
		if c.Prog == nil {
			return nil
		}
		for n := len(c.Prog.Ents); n >= 1; n /= 2 {
			for i := 0; i < len(c.Prog.Ents); i += n {
				q := c.clone()
				q.Prog.Ents = append(q.Prog.Ents[:i], q.Prog.Ents[min(i+n, len(q.Prog.Ents)):]...)
				out = append(out, q)
			}
		}
		return out
	},
	func(c *Case) (out []*Case) { // calls
		if c.Prog == nil {
			return nil
		}
		for fi, f := range c.Prog.Fns {
			for ci := range f.Calls {
				q := c.clone()
				g := q.Prog.Fns[fi]
				g.Calls = append(g.Calls[:ci], g.Calls[ci+1:]...)
				out = append(out, q)
			}
			for oi := range f.Opaque {
				q := c.clone()
				g := q.Prog.Fns[fi]
				g.Opaque = append(g.Opaque[:oi], g.Opaque[oi+1:]...)
				out = append(out, q)
			}
		}
		return out
	},
	func(c *Case) (out []*Case) { // simpler forms
		if c.Prog == nil {
			return nil
		}
		with := func(f func(*Prog)) {
			q := c.clone()
			f(q.Prog)
			out = append(out, q)
		}
		for fi, f := range c.Prog.Fns {
			if f.Kind != "func" && f.Kind != "init" {
				with(func(p *Prog) { p.Fns[fi].Kind = "func" })
			}
			for ci, k := range f.Calls {
				if len(k.Ctx) > 0 {
					with(func(p *Prog) { p.Fns[fi].Calls[ci].Ctx = nil })
				}
				if k.Sub != "" {
					with(func(p *Prog) { p.Fns[fi].Calls[ci].Sub = "" })
				}
				if k.Form != "direct" {
					with(func(p *Prog) { p.Fns[fi].Calls[ci].Form = "direct" })
				}
				if k.V != 0 {
					with(func(p *Prog) { p.Fns[fi].Calls[ci].V = 0 })
				}
				if k.To >= 0 {
					with(func(p *Prog) { p.Fns[fi].Calls[ci].To = -1 })
				}
			}
		}
		for i := range c.Prog.Chaff {
			with(func(p *Prog) { p.Chaff = append(p.Chaff[:i], p.Chaff[i+1:]...) })
		}
		for i, k := range c.Prog.Pkgs {
			if k.Files > 1 {
				with(func(p *Prog) { p.Pkgs[i].Files = 1 })
			}
			if len(k.Blank) > 0 {
				with(func(p *Prog) { p.Pkgs[i].Blank = nil })
			}
		}
		return out
	},
	func(c *Case) (out []*Case) { // lines of text
		for ti := range c.Text {
			out = append(out, shrinkText(c, ti)...)
		}
		return out
	},
	func(c *Case) []*Case {
		if c.Git == nil {
			return nil
		}
		return shrinkGit(c)
	},
	func(c *Case) (out []*Case) {
		if c.API == nil {
			return nil
		}
		for i := range c.API.Ops {
			q := c.clone()
			q.API.Ops = append(q.API.Ops[:i], q.API.Ops[i+1:]...)
			out = append(out, q)
		}
		return out
	},
}

func (p *Prog) dropFns(ids map[int]bool) {
	var keep []*Fn
	for _, f := range p.Fns {
		if ids[f.ID] {
			continue
		}
		var calls []*Call
		for _, c := range f.Calls {
			if c.To >= 0 && ids[c.To] {
				continue
			}
			if c.To2 >= 0 && ids[c.To2] {
				c.To2 = -1
			}
			calls = append(calls, c)
		}
		f.Calls = calls
		keep = append(keep, f)
	}
	p.Fns = keep
}

func (p *Prog) dropPkg(i int) {
	ids := map[int]bool{}
	for _, f := range p.Fns {
		if f.Pkg == i {
			ids[f.ID] = true
		}
	}
	p.dropFns(ids)
	p.Pkgs[i].Dead = true
}
