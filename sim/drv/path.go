package main

import (
	"fmt"
	"regexp"
	"strings"
)

var instMethod = regexp.MustCompile(`(\]\)\.\w+)\[[^\]]*\]`)

// candidates lists the nodes of the model that a printed name can stand for.
// The names of wrappers and of some instances are not predicted.
func (w *world) candidates(f *facts, name string) []string {
	// Methods of instances show their type arguments twice.
	name = instMethod.ReplaceAllString(name, "$1")
	if _, ok := w.m.nodes[name]; ok && !strings.HasPrefix(name, "~") {
		return []string{name}
	}
	if f.synth == nil {
		f.synth = []string{}
		for _, n := range sortedKeys(w.m.nodes) {
			if strings.HasPrefix(n, "~") {
				f.synth = append(f.synth, n)
			}
		}
	}
	return f.synth
}

// isCall says whether the model has the call at the position printed.
func (w *world) isCall(f *facts, from, to string, site *repSite) bool {
	e := w.m.edges[from][to]
	if e == nil || !f.calls[[2]string{from, to}] {
		return false
	}
	x := w.m.nodes[from]
	if isStd(x.pkg) {
		return true // positions inside the standard library are not predicted
	}
	if site == nil || site.Filename == "" {
		return e.bare
	}
	return e.sites[site.Filename+":"+string(site.Line)] || e.sites[site.Filename+":*"]
}

// checkPath checks that a printed path is one of the program and ends in a
// function with the capability.  It says whether the path is direct and which
// packages it can pass through.
func (w *world) checkPath(f *facts, k string, path []repFn) (direct, transitive bool, pkgs map[string]bool) {
	type state struct {
		node   string
		direct bool
	}
	show := func() string {
		var l []string
		for _, p := range path {
			s := p.Name
			if p.Site != nil {
				s = p.Site.Filename + ":" + string(p.Site.Line) + ":" + s
			}
			l = append(l, s)
		}
		return k + ": " + strings.Join(l, " > ")
	}
	if len(path) == 0 {
		fail("path", "empty path for "+k)
	}
	pkgs = map[string]bool{}
	first := w.m.nodes[path[0].Name]
	if first == nil {
		fail("path", "begins with an unknown function: "+show())
	}
	if path[0].Site != nil {
		fail("path", "the first function has a call site: "+show())
	}
	cur := map[state]bool{{first.name, true}: true}
	note := func(i int, n string) {
		x := w.m.nodes[n]
		// Outputs for people do not name the packages at all.
		if !strings.HasPrefix(n, "~") && path[i].Package != x.pkg && (path[i].Package != "" || path[0].Package != "") {
			fail("path", fmt.Sprintf("%s is said to be in package %s: %s", n, path[i].Package, show()))
		}
		pkgs[x.pkg] = true
		if x.synth && path[i].Package != "" {
			pkgs[path[i].Package] = true
		}
	}
	note(0, first.name)
	for i := 1; i < len(path); i++ {
		next := map[state]bool{}
		for s := range cur {
			if f.class[s.node] != "" {
				continue // classified functions end the path
			}
			for _, n := range w.candidates(f, path[i].Name) {
				if w.isCall(f, s.node, n, path[i].Site) {
					x := w.m.nodes[n]
					next[state{n, s.direct && (x.pkg == first.pkg || isStd(x.pkg))}] = true
				}
			}
		}
		if len(next) == 0 {
			why := "is not called there by the one before it"
			for s := range cur {
				if f.class[s.node] != "" {
					why = "follows a classified function"
				}
			}
			fail("path", fmt.Sprintf("function %d %s: %s", i+1, why, show()))
		}
		for s := range next {
			note(i, s.node)
		}
		cur = next
	}
	ok := false
	for s := range cur {
		if f.direct[s.node][k] {
			ok = true
			if s.direct {
				direct = true
			} else {
				transitive = true
			}
		}
	}
	if !ok {
		fail("path", "the last function does not have the capability: "+show())
	}
	return direct, transitive, pkgs
}

// parseSite parses text like file.go:3:4.
func parseSite(s string) *repSite {
	l := strings.Split(s, ":")
	if len(l) != 3 {
		return nil
	}
	x := &repSite{Filename: l[0]}
	x.Line = jsonNumber(l[1])
	x.Column = jsonNumber(l[2])
	return x
}
