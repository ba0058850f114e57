package main

import (
	"sort"
	"strings"
)

// classes is what the capability maps in effect say about functions.
type classes struct {
	fns    map[string]string // capability names without prefix
	una    map[string]bool
	pkgs   map[string]string
	edges  map[[2]string]bool
	sufs   []string
	extras bool // constructs in the source code count too
}

func newClasses(p *Prog) *classes {
	c := &classes{map[string]string{}, map[string]bool{}, map[string]string{}, map[[2]string]bool{}, nil, true}
	if !(p.Custom && p.NoBltin) {
		for n, k := range builtinClass {
			if k != "UNANALYZED" {
				c.fns[n] = k
			} else if !p.Noisy {
				c.una[n] = true
			}
		}
		for n, k := range builtinPkgClass {
			c.pkgs[n] = k
		}
		c.sufs = []string{"_cgo_runtime_cgocall"}
	} else {
		c.extras = false
	}
	if p.Custom {
		for _, e := range p.Ents {
			switch e.Kind {
			case "func":
				c.fns[e.Name] = e.Cap
			case "package":
				c.pkgs[e.Name] = e.Cap
			case "unanalyzed":
				if !p.Noisy {
					c.una[e.Name] = true
				}
			case "ignore_edge":
				c.edges[[2]string{e.Name, e.To}] = true
			case "cgo_suffix":
				c.sufs = append(c.sufs, e.Name)
			}
		}
	}
	return c
}

// of gives the class of a function: "" when it has none.
func (c *classes) of(n *mnode) string {
	name := n.name
	if n.synth {
		if n.origin == "" || n.origin == "~" {
			// Wrappers are never classified.  Methods of instances are
			// covered by entries for their package only.
			if n.origin == "~" {
				return c.pkg(n.pkg)
			}
			return ""
		}
		name = n.origin
	}
	for _, s := range c.sufs {
		if strings.HasSuffix(name, s) {
			return "CGO"
		}
	}
	if k, ok := c.fns[name]; ok {
		if k == "UNSPECIFIED" {
			return ""
		}
		return k
	}
	if c.una[name] {
		return "UNANALYZED"
	}
	return c.pkg(n.pkg)
}

func (c *classes) pkg(p string) string {
	if k := c.pkgs[p]; k != "UNSPECIFIED" {
		return k
	}
	return ""
}

// capmap renders the custom capability map.
func (p *Prog) capmap() string {
	var b strings.Builder
	for _, e := range p.Ents {
		switch e.Kind {
		case "func", "package":
			b.WriteString(e.Kind + " " + e.Name + " CAPABILITY_" + e.Cap + "\n")
		case "ignore_edge":
			b.WriteString(e.Kind + " " + e.Name + " " + e.To + "\n")
		default:
			b.WriteString(e.Kind + " " + e.Name + "\n")
		}
	}
	return b.String()
}

// facts is what the reference model derives for a program.
type facts struct {
	class   map[string]string          // explicit class by node
	has     map[string]map[string]bool // node to capabilities it reaches or has
	direct  map[string]map[string]bool // node to capabilities it has itself
	queried map[string]bool
	caps    map[string]bool
	calls   map[[2]string]bool // calls that count
	synth   []string
}

// solve computes which function has which capability: a function has the
// capability it is classified with, or else those of its own code and of the
// functions it can call.
func (w *world) solve(queried map[string]bool) *facts {
	c := newClasses(w.p)
	f := &facts{class: map[string]string{}, has: map[string]map[string]bool{}, direct: map[string]map[string]bool{}, queried: queried, caps: map[string]bool{}, calls: map[[2]string]bool{}}
	rev := map[string][]string{}
	loaded := w.loaded(queried)
	in := func(n string) bool {
		x := w.m.nodes[n]
		return x != nil && (stdPkgs[x.pkg] || loaded[x.pkg])
	}
	for from, tos := range w.m.edges {
		for to, e := range tos {
			if !in(from) || !in(to) || !e.possible(loaded) {
				continue
			}
			if !c.edges[[2]string{from, to}] {
				rev[to] = append(rev[to], from)
				f.calls[[2]string{from, to}] = true
			}
		}
	}
	for name, n := range w.m.nodes {
		if !in(name) {
			continue
		}
		k := c.of(n)
		f.class[name] = k
		d := map[string]bool{}
		if k != "" && k != "SAFE" {
			d[k] = true
		} else if k == "" && c.extras {
			for x := range n.extra {
				d[x] = true
			}
		}
		if len(d) > 0 {
			f.direct[name] = d
		}
	}
	for name, d := range f.direct {
		for k := range d {
			q := []string{name}
			for len(q) > 0 {
				v := q[0]
				q = q[1:]
				if f.has[v][k] {
					continue
				}
				if f.has[v] == nil {
					f.has[v] = map[string]bool{}
				}
				f.has[v][k] = true
				for _, u := range rev[v] {
					if f.class[u] == "" {
						q = append(q, u)
					}
				}
			}
		}
	}
	return f
}

func (e *medge) possible(loaded map[string]bool) bool {
	for n := range e.need {
		if loaded[n] {
			return true
		}
	}
	return e.need == nil
}

// loaded is the set of packages that the queried ones depend on, and those.
func (w *world) loaded(queried map[string]bool) map[string]bool {
	byPath := map[string]int{}
	for i := range w.p.Pkgs {
		byPath[w.p.pkgPath(i)] = i
	}
	out := map[string]bool{}
	var visit func(s string)
	visit = func(s string) {
		i, ok := byPath[s]
		if !ok || out[s] {
			return
		}
		out[s] = true
		for _, f := range w.files[i] {
			for imp := range f.imports {
				visit(imp)
			}
		}
	}
	for q := range queried {
		visit(q)
	}
	return out
}

// expected lists the (function, capability) pairs of the report.
func (w *world) expected(f *facts) map[[2]string]bool {
	out := map[[2]string]bool{}
	for name, caps := range f.has {
		n := w.m.nodes[name]
		if n == nil || !n.report || !f.queried[n.pkg] {
			continue
		}
		for k := range caps {
			out[[2]string{name, k}] = true
		}
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
