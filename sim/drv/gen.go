package main

import (
	"path"
	"sort"
	"strings"

	"github.com/google/capslock/internal/verifsim/scn"
)

// profile says which kinds of programs to generate.
type profile struct {
	size      int // mean number of functions
	maxPkgs   int
	custom    int // percentage of programs with a custom map
	nobuiltin int // ... that also disable the built-in one
	noisy     int // percentage that look into unanalysed functions
	opaque    int // percentage of functions with opaque constructs
	opaqueFns int // percentage of functions without a Go body
	forms     []string
	mods      bool
	entries   bool
	mains     int // percentage of main packages
}

var capNames = []string{"FILES", "NETWORK", "RUNTIME", "READ_SYSTEM_STATE", "MODIFY_SYSTEM_STATE", "OPERATING_SYSTEM", "SYSTEM_CALLS", "ARBITRARY_EXECUTION", "CGO", "UNANALYZED", "UNSAFE_POINTER", "REFLECT", "EXEC"}

var stdLeaves = func() []string {
	var l []string
	for k := range stdCalls {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}()

var subForms = []string{"direct", "defer", "go", "sortsort", "sortslice", "sortslicefn", "once", "onceclosure", "iface", "phi", "field", "closure", "rangefunc", "slicenr", "oncenr", "hofclosure", "sortiface", "bound", "map", "slicearg", "sortarg", "lookalike"}

func genProg(r *rng, pf profile) *Prog {
	p := &Prog{}
	// A swarm of features: each program uses a random subset of the forms.
	fs := pf.forms
	if fs == nil {
		fs = append([]string(nil), forms...)
		shuffle(r, fs)
		fs = fs[:r.in(4, len(fs))]
	}
	var ctxs []string
	for _, c := range contexts {
		if r.pct(50) {
			ctxs = append(ctxs, c)
		}
	}
	p.Mods = []*Mod{{Path: pick(r, []string{"example.com/app", "example.org/x/tool", "corp.example/m"}), Where: "main"}}
	if pf.mods {
		for i, n := 0, r.n(3); i < n; i++ {
			p.Mods = append(p.Mods, &Mod{Path: []string{"dep.example/one", "dep.example/one/two", "lib.test/zed/v2", "a.test/b"}[i+r.n(2)*2], Ver: pick(r, []string{"v1.2.3", "v0.1.0", "v2.0.0"}), Where: pick(r, []string{"cache", "cache", "replace", "proxy"})})
			if p.Mods[i+1].Path == "lib.test/zed/v2" {
				p.Mods[i+1].Ver = "v2.0.0"
			}
		}
		seen := map[string]bool{}
		var keep []*Mod
		for _, m := range p.Mods {
			if !seen[m.Path] {
				seen[m.Path] = true
				keep = append(keep, m)
			}
		}
		p.Mods = keep
	}
	np := r.in(1, pf.maxPkgs)
	used := map[string]bool{}
	for i := 0; i < np; i++ {
		k := &Pkg{Mod: 0, Files: r.in(1, 3)}
		if len(p.Mods) > 1 && i > 0 && r.pct(60) {
			// Modules later in the list are imported by earlier ones.
			lo := p.Pkgs[i-1].Mod
			k.Mod = r.in(lo, len(p.Mods)-1)
		} else if i > 0 {
			k.Mod = p.Pkgs[i-1].Mod
		}
		name := pick(r, []string{"alpha", "beta", "gamma", "util", "internalx", "net", "os", "zz", "sort", "sync"})
		k.Rel = name
		if r.pct(25) {
			k.Rel = name + "/" + pick(r, []string{"sub", "deep/er", "x"})
		}
		if r.pct(20) && i < np {
			k.Rel = ""
		}
		for used[p.Mods[k.Mod].Path+"/"+k.Rel] {
			k.Rel = name + itoa(i)
			if used[p.Mods[k.Mod].Path+"/"+k.Rel] {
				k.Rel += "x"
			}
		}
		used[p.Mods[k.Mod].Path+"/"+k.Rel] = true
		k.Name = path.Base(k.Rel)
		if k.Rel == "" {
			k.Name = "root"
		}
		if k.Name == "er" || k.Name == "x" || k.Name == "sub" {
			k.Name = name
		}
		if k.Mod == 0 && r.pct(pf.mains) {
			k.Main, k.Name = true, "main"
		}
		for j := i + 1; j < np; j++ {
			if r.pct(15) {
				k.Blank = append(k.Blank, j)
			}
		}
		p.Pkgs = append(p.Pkgs, k)
	}
	// A nested module path shadows directories of its parent.
	for _, k := range p.Pkgs {
		if p.Mods[k.Mod].Path == "dep.example/one" && strings.HasPrefix(k.Rel, "two") {
			k.Rel = "one" + k.Rel
		}
	}
	nf := r.in(max(2, pf.size/2), pf.size*3/2)
	lit := map[int]bool{}
	for i := 0; i < nf; i++ {
		f := &Fn{ID: i, Pkg: r.n(np), File: r.n(3), Priv: r.pct(25)}
		f.Kind = pick(r, []string{"func", "func", "func", "func", "vmethod", "pmethod", "vmethod", "pmethod", "generic", "gmethod", "init", "varinit", "varlit"})
		if r.pct(pf.opaqueFns) {
			f.Kind = pick(r, []string{"asm", "linkname", "cgo", "varunsafe", "asmmethod"})
		}
		if f.Kind == "varlit" {
			if lit[f.Pkg] {
				f.Kind = "func"
			}
			lit[f.Pkg] = true
		}
		switch {
		case f.Kind == "generic":
			f.T = pick(r, typeArgs)
			if t := pick(r, typeArgs[1:]); r.pct(50) && t != f.T {
				f.T2 = t
			}
		case f.Kind == "gmethod":
			f.T = pick(r, typeArgs[:8])
		}
		p.Fns = append(p.Fns, f)
	}
	p.Next = nf
	dense := r.in(1, 3)
	leafPct := r.in(15, 60)
	for _, f := range p.Fns {
		switch f.Kind {
		case "asm", "asmmethod", "linkname", "cgo", "varunsafe":
			continue
		}
		if r.pct(pf.opaque) {
			f.Opaque = append(f.Opaque, pick(r, opaqueKinds))
		}
		for n := r.n(dense + 1); n >= 0; n-- {
			if c := genCall(r, p, f, fs, ctxs, leafPct); c != nil {
				f.Calls = append(f.Calls, c)
			}
		}
	}
	if r.pct(30) {
		hubs(r, p)
	}
	return p
}

// hubs makes many of the calls lead to the same few functions.
func hubs(r *rng, p *Prog) {
	std, to := pick(r, stdLeaves), pick(r, p.Fns).ID
	sp, tp := r.n(100), r.n(100)
	for _, f := range p.Fns {
		var ok bool
		for _, t := range targets(p, f) {
			ok = ok || t == to
		}
		for _, c := range f.Calls {
			if c.To < 0 && r.pct(sp) {
				c.Std = std
			}
			if c.To >= 0 && ok && r.pct(tp) {
				c.To = to
			}
		}
		if n := len(f.Calls); n > 0 && r.pct(tp) {
			c := *f.Calls[r.n(n)]
			f.Calls = append(f.Calls, &c)
		}
	}
}

// targets lists the functions f may call.
func targets(p *Prog, f *Fn) []int {
	var l []int
	for _, g := range p.Fns {
		if !callable(g) || g.Dead || p.Pkgs[g.Pkg].Dead {
			continue
		}
		if g.Pkg == f.Pkg || (g.Pkg > f.Pkg && !p.Pkgs[g.Pkg].Main && !g.Priv && p.Pkgs[g.Pkg].Mod >= p.Pkgs[f.Pkg].Mod) {
			if (f.Kind == "generic" || f.Kind == "gmethod") && g.ID <= f.ID {
				// Keep instances out of cycles with each other.
				if g.Kind == "generic" || g.Kind == "gmethod" {
					continue
				}
			}
			if f.Kind == "varinit" || f.Kind == "varlit" {
				// Initialisers must not refer to themselves.
				if g.Pkg == f.Pkg {
					continue
				}
			}
			l = append(l, g.ID)
		}
	}
	return l
}

func genCall(r *rng, p *Prog, f *Fn, fs, ctxs []string, leafPct int) *Call {
	c := &Call{To: -1, To2: -1, Std: pick(r, stdLeaves), V: r.n(1000), Form: pick(r, fs)}
	l := targets(p, f)
	if len(l) > 0 && !r.pct(leafPct) {
		c.To = pick(r, l)
	}
	if len(l) > 0 && r.pct(60) {
		c.To2 = pick(r, l)
	}
	if r.pct(40) {
		c.Sub = pick(r, subForms)
	}
	if len(ctxs) > 0 && r.pct(40) {
		c.Ctx = append(c.Ctx, pick(r, ctxs))
		if r.pct(30) {
			c.Ctx = append(c.Ctx, pick(r, ctxs))
		}
	}
	return c
}

// genEntries chooses entries of the custom map for a rendered program.
func genEntries(r *rng, w *world, noBuiltin bool) []*Ent {
	var names, std []string
	for _, n := range sortedKeys(w.m.nodes) {
		x := w.m.nodes[n]
		if x.synth {
			if x.origin != "" && x.origin != "~" && !strings.Contains(x.origin, "[") {
				names = append(names, x.origin)
			}
			continue
		}
		if strings.Contains(n, "~") || strings.ContainsAny(n, " #") {
			continue
		}
		if x.report {
			names = append(names, n)
		} else {
			std = append(std, n)
		}
	}
	seen := map[string]bool{}
	var out []*Ent
	add := func(e *Ent) {
		k := e.Kind + " " + e.Name + " " + e.To
		if !seen[k] {
			seen[k] = true
			out = append(out, e)
		}
	}
	safe := r.n(30)
	one := func(l []string) {
		if len(l) == 0 {
			return
		}
		k := pick(r, capNames)
		if r.pct(safe) {
			k = "SAFE"
		} else if r.pct(10) {
			k = "UNSPECIFIED"
		}
		switch r.n(10) {
		case 0:
			add(&Ent{Kind: "unanalyzed", Name: pick(r, l)})
		default:
			add(&Ent{Kind: "func", Name: pick(r, l), Cap: k})
		}
	}
	for i, n := 0, r.in(1, 6); i < n; i++ {
		if noBuiltin {
			one(std)
		}
		if r.pct(40) {
			one(names)
		}
	}
	if r.pct(35) {
		// Whole packages.
		var l []string
		for i, k := range w.p.Pkgs {
			if !k.Dead {
				l = append(l, w.p.pkgPath(i))
			}
		}
		if noBuiltin {
			l = append(l, "os", "syscall", "net", "os/exec", "errors")
		}
		k := pick(r, capNames)
		if r.pct(40) {
			k = "SAFE"
		}
		add(&Ent{Kind: "package", Name: pick(r, l), Cap: k})
	}
	if r.pct(10) {
		add(&Ent{Kind: "cgo_suffix", Name: pick(r, []string{".fn1", "Fn2", "0", ".init", "$1"})})
	}
	if r.pct(40) {
		for i, n := 0, r.in(1, 3); i < n && len(names) > 0; i++ {
			a := pick(r, names)
			var l []string
			for _, to := range sortedKeys(w.m.edges[a]) {
				if t := w.m.nodes[to]; t != nil && (!t.synth || isInstance(to)) && !strings.ContainsAny(to, " #~") && (!isInstance(to) || !strings.ContainsAny(to, "($")) {
					l = append(l, to)
				}
			}
			if len(l) > 0 {
				add(&Ent{Kind: "ignore_edge", Name: a, To: pick(r, l)})
			}
		}
	}
	return out
}

// gomod renders the go.mod file of a module.
func (w *world) gomod(i int) string {
	m := w.p.Mods[i]
	direct := map[int]bool{}
	for k, pk := range w.p.Pkgs {
		if pk.Mod != i {
			continue
		}
		for _, f := range w.files[k] {
			for to, tk := range w.p.Pkgs {
				if _, ok := f.imports[w.p.pkgPath(to)]; ok {
					direct[tk.Mod] = true
				}
			}
		}
	}
	s := "module " + m.Path + "\n\ngo 1.23\n"
	for j, d := range w.p.Mods {
		if j <= i || d.Where == "work" {
			continue
		}
		s += "\nrequire " + d.Path + " " + d.Ver
		if !direct[j] {
			s += " // indirect"
		}
		s += "\n"
		if d.Where == "replace" && i == 0 {
			s += "\nreplace " + d.Path + " => " + w.modDir(j) + "\n"
		}
	}
	return s
}

// scenario makes the simulated world of a program.
func (w *world) scenario(prop string, args ...string) *scn.Scenario {
	s := &scn.Scenario{Prop: prop, Disk: -1, Cwd: "/work", Base: basePath,
		Env:  []string{"PATH=/usr/bin", "HOME=/home/u", "TMPDIR=/tmp"},
		Args: append([]string{"/usr/bin/capslock"}, args...)}
	src := w.sources()
	for _, f := range sortedKeys(src) {
		s.Files = append(s.Files, scn.File{Path: f, Data: src[f]})
	}
	for i := range w.p.Mods {
		s.Files = append(s.Files, scn.File{Path: w.modDir(i) + "/go.mod", Data: w.gomod(i)})
	}
	if w.p.Custom {
		s.Files = append(s.Files, scn.File{Path: "/home/u/map.cm", Data: w.p.capmap()})
	}
	return s
}

// basePath is relative to the directory simulated processes run in.
const basePath = "base.json"

// mapArgs are the options selecting the capability map.
func (p *Prog) mapArgs() []string {
	var a []string
	if p.Noisy {
		a = append(a, "-noisy")
	}
	if !p.Custom {
		return a
	}
	a = append(a, "-capability_map=/home/u/map.cm")
	if p.NoBltin {
		a = append(a, "-disable_builtin")
	}
	return a
}
