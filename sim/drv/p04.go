package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
)

var graphEdge = regexp.MustCompile(`^\s*"((?:[^"\\]|\\.)*)"\s*->\s*"((?:[^"\\]|\\.)*)"\s*;?$`)

// graphName undoes the quoting of a name in the graph.
var graphName = strings.NewReplacer(`\\`, `\`, `\"`, `"`)

// parseGraph reads the graph output into a set of edges.
func parseGraph(out string) map[[2]string]bool {
	l := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	if l[0] != "digraph {" || l[len(l)-1] != "}" {
		fail("graph", "not a graph: "+tail(out, 200))
	}
	m := map[[2]string]bool{}
	for _, s := range l[1 : len(l)-1] {
		x := graphEdge.FindStringSubmatch(s)
		if x == nil {
			fail("graph", "bad line "+s)
		}
		m[[2]string{instMethod.ReplaceAllString(graphName.Replace(x[1]), "$1"), instMethod.ReplaceAllString(graphName.Replace(x[2]), "$1")}] = true
	}
	return m
}

// contract removes nodes, connecting what calls them with what they call.
func contract(edges map[[2]string]bool, drop func(string) bool) map[[2]string]bool {
	adj := map[string][]string{}
	for e := range edges {
		adj[e[0]] = append(adj[e[0]], e[1])
	}
	out := map[[2]string]bool{}
	for from := range adj {
		if drop(from) {
			continue
		}
		seen := map[string]bool{}
		var visit func(n string)
		visit = func(n string) {
			for _, t := range adj[n] {
				if !drop(t) {
					out[[2]string{from, t}] = true
				} else if !seen[t] {
					seen[t] = true
					visit(t)
				}
			}
		}
		visit(from)
	}
	return out
}

// onPaths finds the functions and calls on some path from a requested package
// to one of the capabilities.
func (w *world) onPaths(f *facts, has func(k string) bool) (edges map[[2]string]bool, pkgs map[[2]string]bool) {
	edges, pkgs = map[[2]string]bool{}, map[[2]string]bool{}
	out := map[string][]string{}
	for e := range f.calls {
		out[e[0]] = append(out[e[0]], e[1])
	}
	for _, k := range capNames {
		if !has(k) {
			continue
		}
		seen := map[string]bool{}
		var q []string
		for n, caps := range f.has {
			x := w.m.nodes[n]
			if caps[k] && x.report && f.queried[x.pkg] {
				seen[n] = true
				q = append(q, n)
			}
		}
		for len(q) > 0 {
			v := q[0]
			q = q[1:]
			if x := w.m.nodes[v]; !strings.HasPrefix(v, "~") {
				pkgs[[2]string{x.pkg, k}] = true
			}
			if f.direct[v][k] {
				edges[[2]string{v, "CAPABILITY_" + k}] = true
			}
			if f.class[v] != "" {
				continue
			}
			for _, t := range out[v] {
				if f.has[t][k] {
					edges[[2]string{v, t}] = true
					if !seen[t] {
						seen[t] = true
						q = append(q, t)
					}
				}
			}
		}
	}
	return edges, pkgs
}

// capFilter evaluates a capability list option.
func capFilter(s string) func(k string) bool {
	if s == "" {
		return func(string) bool { return true }
	}
	neg := s[0] == '-'
	m := map[string]bool{}
	for _, x := range strings.Split(s, ",") {
		m[strings.TrimPrefix(strings.TrimPrefix(x, "-"), "CAPABILITY_")] = true
	}
	return func(k string) bool { return m[k] != neg }
}

func pathText(p []repFn) string {
	var b strings.Builder
	for _, f := range p {
		if f.Site != nil {
			fmt.Fprintf(&b, "%s:%s:%s:", f.Site.Filename, f.Site.Line, f.Site.Column)
		}
		b.WriteString(f.Name + " ")
	}
	return b.String()
}

var outputModes = []string{"default", "machine", "verbose", "package", "omit-function", "omit-package", "intermediate", "omit-intermediate", "graph", "filter-graph", "filter-intermediate", "omit-verbose"}

func init() {
	pf := profile{size: 14, maxPkgs: 6, custom: 50, nobuiltin: 60, mods: true, mains: 10, noisy: 12}
	properties["P04"] = &property{
		id: "P04", level: "exploration", quick: 3500, thorough: 35000,
		rule: "One case is one random program analysed to JSON at function granularity and in two to four other output modes; it is non-trivial when something is reported, and distinct by the reported entries and the modes.",
		bins: []string{"cmd/capslock with all packages of the repository"},
		gen: func(r *rng, i int) *Case {
			q := pf
			switch i % 8 {
			case 3:
				q.size = 40
			case 5, 7:
				q.opaque, q.opaqueFns = 20, 10
			}
			c := genAnalysis(r, q)
			l := append([]string(nil), outputModes...)
			shuffle(r, l)
			for _, m := range l[:r.in(2, 4)] {
				c.Args = append(c.Args, m)
				c.Alt = append(c.Alt, genKnobs(r))
			}
			c.S = map[string]string{"filter": pick(r, capFilters)}
			return c
		},
		judge: func(j *judgeCtx, c *Case) {
			w := render(c.Prog)
			q := queriedSet(w, c.Query)
			if len(q) == 0 {
				return
			}
			base := append(c.Prog.mapArgs(), c.pkgsArg())
			run := func(k *Knobs, args ...string) string {
				s := w.scenario("P04", append(append([]string(nil), base...), args...)...)
				c.apply(s)
				if k != nil {
					k.apply(s)
				}
				res := j.run(s)
				j.show(s, res)
				wantExit(res, 0)
				return res.Stdout
			}
			rep := func(out string) *report {
				r, err := parseReport(out)
				if err != nil {
					fail("bad-report", err.Error())
				}
				return r
			}
			fn := rep(run(nil, "-output=json", "-granularity=function"))
			f := w.solve(q)
			j.count(w)
			counts := map[string]*[3]int{}
			pkgs := map[[2]string]bool{}
			byStart := map[[2]string]repCap{}
			for _, ci := range fn.CapabilityInfo {
				n := counts[ci.Capability]
				if n == nil {
					n = new([3]int)
					counts[ci.Capability] = n
				}
				n[0]++
				if ci.CapabilityType == "CAPABILITY_TYPE_DIRECT" {
					n[1]++
				} else {
					n[2]++
				}
				pkgs[[2]string{ci.PackageDir, ci.Capability}] = true
				byStart[[2]string{ci.Path[0].Name, ci.Capability}] = ci
			}
			wantMods := []string{}
			for _, m := range fn.ModuleInfo {
				wantMods = append(wantMods, m.Path+" "+m.Version)
			}
			sort.Strings(wantMods)
			// text checks the default and verbose outputs.
			text := func(out, mode string) {
				st, _ := parseStats(out)
				var mods []string
				in := false
				for _, l := range strings.Split(out, "\n") {
					if l == "Analyzed packages:" {
						in = true
					} else if in && strings.HasPrefix(l, "  ") {
						mods = append(mods, strings.TrimSpace(l))
					} else {
						in = false
					}
				}
				sort.Strings(mods)
				if strings.Join(mods, ",") != strings.Join(wantMods, ",") {
					fail("modules", fmt.Sprintf("%s lists modules %v, json %v", mode, mods, wantMods))
				}
				for k, n := range counts {
					s := st[k]
					if s == nil {
						fail("counts", fmt.Sprintf("%s does not mention %s", mode, k))
					}
					if s.count != itoa(n[0]) {
						fail("counts", fmt.Sprintf("%s counts %s references to %s, json has %d", mode, s.count, k, n[0]))
					}
					if mode != "default" && (s.direct != itoa(n[1]) || s.transitive != itoa(n[2])) {
						fail("counts", fmt.Sprintf("%s: %s direct and %s transitive references to %s, json has %d and %d", mode, s.direct, s.transitive, k, n[1], n[2]))
					}
					if mode == "verbose" {
						if len(s.example) == 0 {
							fail("example", "no example for "+k)
						}
						ci, ok := byStart[[2]string{s.example[0].Name, k}]
						if !ok {
							fail("example", fmt.Sprintf("the example for %s starts with %s, which json does not report", k, s.example[0].Name))
						}
						if pathText(ci.Path) != pathText(s.example) {
							fail("example", fmt.Sprintf("verbose and json paths for %s differ: %s and %s", k, pathText(s.example), pathText(ci.Path)))
						}
					}
				}
				for k := range st {
					if counts[k] == nil {
						fail("counts", fmt.Sprintf("%s mentions %s, json does not", mode, k))
					}
				}
				if none := strings.Contains(out, "Capslock found no capabilities"); none != (len(counts) == 0) {
					fail("counts", fmt.Sprintf("%s says no capabilities: %v, json has %d", mode, none, len(counts)))
				}
			}
			entries := func(r *report, mode string) map[[2]string]bool {
				m := map[[2]string]bool{}
				for _, ci := range r.CapabilityInfo {
					k := [2]string{ci.PackageDir, ci.Capability}
					if m[k] {
						fail("duplicate", fmt.Sprintf("%s: %v twice", mode, k))
					}
					m[k] = true
				}
				return m
			}
			same := func(got, want map[[2]string]bool, mode string) {
				if d := setDiff(got, want); d != "" {
					fail("entries", mode+": "+d)
				}
			}
			info := func(r *report, mode string) {
				if fmt.Sprint(r.ModuleInfo, r.PackageInfo) != fmt.Sprint(fn.ModuleInfo, fn.PackageInfo) {
					fail("modules", fmt.Sprintf("%s: %v and %v", mode, fmt.Sprint(r.ModuleInfo, r.PackageInfo), fmt.Sprint(fn.ModuleInfo, fn.PackageInfo)))
				}
			}
			graph := func(out string, has func(string) bool) {
				want, _ := w.onPaths(f, has)
				known := func(n string) bool {
					_, ok := w.m.nodes[n]
					return ok && !strings.HasPrefix(n, "~") || strings.HasPrefix(n, "CAPABILITY_")
				}
				drop := func(n string) bool { return !known(n) }
				if d := setDiff(contract(parseGraph(out), drop), contract(want, drop)); d != "" {
					fail("graph", d)
				}
			}
			for i, mode := range c.Args {
				var k *Knobs
				if i < len(c.Alt) {
					k = &c.Alt[i]
				}
				switch mode {
				case "default":
					text(run(k), mode)
				case "verbose":
					text(run(k, "-output=verbose"), mode)
				case "omit-verbose":
					text(run(k, "-output=v", "-omit_paths"), mode)
				case "machine":
					got := strings.Fields(run(k, "-output=machine"))
					var want []string
					for _, k := range sortedKeys(counts) {
						want = append(want, "CAPABILITY_"+k)
					}
					sort.Strings(got)
					if strings.Join(got, " ") != strings.Join(want, " ") {
						fail("machine", fmt.Sprintf("machine output %v, json has %v", got, want))
					}
				case "package", "omit-package":
					a := []string{"-output=json", "-granularity=package"}
					if mode != "package" {
						a = append(a, "-omit_paths")
					}
					r := rep(run(k, a...))
					same(entries(r, mode), pkgs, mode)
					info(r, mode)
					for _, ci := range r.CapabilityInfo {
						if mode == "omit-package" {
							if len(ci.Path) != 0 || ci.DepPath != "" {
								fail("omit", "paths are not omitted")
							}
							// Some function of the package has this label.
							ok := false
							for _, x := range fn.CapabilityInfo {
								ok = ok || x.PackageDir == ci.PackageDir && x.Capability == ci.Capability && x.CapabilityType == ci.CapabilityType
							}
							if !ok {
								fail("omit", fmt.Sprintf("no function of %s has label %s for %s", ci.PackageDir, ci.CapabilityType, ci.Capability))
							}
							continue
						}
						x := byStart[[2]string{ci.Path[0].Name, ci.Capability}]
						if len(x.Path) == 0 || pathText(x.Path) != pathText(ci.Path) || x.CapabilityType != ci.CapabilityType || x.PackageDir != ci.PackageDir || x.PackageName != ci.PackageName {
							fail("entries", fmt.Sprintf("package entry %v is not one of the function entries", ci))
						}
					}
				case "omit-function":
					r := rep(run(k, "-output=j", "-omit_paths"))
					info(r, mode)
					if len(r.CapabilityInfo) != len(fn.CapabilityInfo) {
						fail("omit", fmt.Sprintf("%d entries instead of %d", len(r.CapabilityInfo), len(fn.CapabilityInfo)))
					}
					for i, ci := range r.CapabilityInfo {
						x := fn.CapabilityInfo[i]
						if len(ci.Path) != 1 || ci.Path[0].Name != x.Path[0].Name || ci.Path[0].Package != x.Path[0].Package || ci.Capability != x.Capability || ci.CapabilityType != x.CapabilityType || ci.PackageDir != x.PackageDir || ci.PackageName != x.PackageName || ci.DepPath != "" {
							fail("omit", fmt.Sprintf("entry %v instead of %v", ci, x))
						}
					}
				case "intermediate", "omit-intermediate", "filter-intermediate":
					a := []string{"-output=json", "-granularity=intermediate"}
					has := capFilter("")
					if mode == "omit-intermediate" {
						a = append(a, "-omit_paths")
					}
					if mode == "filter-intermediate" {
						a = append(a, "-capabilities="+c.S["filter"])
						has = capFilter(c.S["filter"])
					}
					r := rep(run(k, a...))
					_, want := w.onPaths(f, has)
					same(entries(r, mode), want, mode)
					for _, ci := range r.CapabilityInfo {
						if (len(ci.Path) == 0) != (mode == "omit-intermediate") {
							fail("omit", fmt.Sprintf("entry with a path of %d functions", len(ci.Path)))
						}
					}
				case "graph":
					graph(run(k, "-output=graph"), capFilter(""))
				case "filter-graph":
					graph(run(k, "-output=g", "-capabilities="+c.S["filter"]), capFilter(c.S["filter"]))
				}
				j.r.probe("mode "+mode, 1)
			}
			if len(counts) > 0 {
				j.nontrivial(fmt.Sprint(setHash(pkgs), len(fn.CapabilityInfo), c.Args))
			}
		},
	}
}
