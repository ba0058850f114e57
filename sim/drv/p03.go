package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/google/capslock/internal/verifsim/scn"
)

var (
	statLine = regexp.MustCompile(`^CAPABILITY_([A-Z_]+): (\d+) references(?: \((\d+) direct, (\d+) transitive\))?$`)
	siteText = regexp.MustCompile(`^(\S+?\.go:\d+:\d+):(.*)$`)
	diffLine = regexp.MustCompile(`^Package (.*) (has new|no longer has) capability CAPABILITY_([A-Z_]+) `)
)

// stat is one capability of the default or verbose output.
type stat struct {
	count, direct, transitive string
	example                   []repFn
}

// parseStats reads the default and verbose outputs.
func parseStats(out string) (map[string]*stat, []string) {
	m := map[string]*stat{}
	var order []string
	var cur *stat
	in := false
	for _, l := range strings.Split(out, "\n") {
		if x := statLine.FindStringSubmatch(l); x != nil {
			cur = &stat{count: x[2], direct: x[3], transitive: x[4]}
			if m[x[1]] != nil {
				fail("stats", x[1]+" appears twice")
			}
			m[x[1]] = cur
			order = append(order, x[1])
			in = false
			continue
		}
		if strings.HasPrefix(l, "Example ") && cur != nil {
			in = true
			continue
		}
		if in && strings.HasPrefix(l, "  ") {
			l = strings.TrimSpace(l)
			fn := repFn{Name: l}
			if x := siteText.FindStringSubmatch(l); x != nil {
				fn.Name, fn.Site = x[2], parseSite(x[1])
			}
			cur.example = append(cur.example, fn)
			continue
		}
		in = false
	}
	return m, order
}

// change is one pair named by a comparison.
type change struct {
	key, cap string
	gained   bool
	path     []repFn
}

func parseCompare(out string) (l []change) {
	for _, s := range strings.Split(out, "\n") {
		if x := diffLine.FindStringSubmatch(s); x != nil {
			l = append(l, change{key: x[1], cap: x[3], gained: x[2] == "has new"})
			continue
		}
		f := strings.Fields(s)
		switch {
		case len(f) == 0 || len(l) == 0:
		case len(f) >= 2 && parseSite(f[0]) != nil:
			c := &l[len(l)-1]
			c.path = append(c.path, repFn{Name: strings.TrimSpace(s[strings.Index(s, f[0])+len(f[0]):]), Site: parseSite(f[0])})
		default:
			c := &l[len(l)-1]
			c.path = append(c.path, repFn{Name: strings.TrimSpace(s)})
		}
	}
	return l
}

func init() {
	pf := profile{size: 14, maxPkgs: 6, custom: 50, nobuiltin: 65, mods: true, mains: 10, noisy: 12}
	properties["P03"] = &property{
		id: "P03", level: "exploration", quick: 5000, thorough: 50000,
		rule: "One case is one random program with known call sites and the paths printed for it in one output mode; it is non-trivial when at least one path with a call was checked, and distinct by the set of checked paths.",
		bins: []string{"cmd/capslock with all packages of the repository"},
		gen: func(r *rng, i int) *Case {
			q := pf
			switch i % 8 {
			case 3:
				q.size = 40
			case 5, 7:
				q.opaque, q.opaqueFns = 20, 10
			}
			c := genAnalysis(r, q)
			c.Mode = pick(r, []string{"json", "json", "json", "j", "verbose", "compare"})
			c.Gran = pick(r, []string{"", "function", "package", "intermediate", "intermediate"})
			if c.Mode == "verbose" {
				c.Gran = ""
			}
			return c
		},
		judge: func(j *judgeCtx, c *Case) {
			w := render(c.Prog)
			args := append(c.Prog.mapArgs(), c.pkgsArg(), "-output="+c.Mode)
			if c.Gran != "" {
				args = append(args, "-granularity="+c.Gran)
			}
			if c.Mode == "compare" {
				args = append(args, "/home/u/empty.json")
			}
			s := w.scenario("P03", args...)
			s.Files = append(s.Files, scn.File{Path: "/home/u/empty.json", Data: "{}\n"})
			c.apply(s)
			q := queriedSet(w, c.Query)
			if len(q) == 0 {
				return
			}
			f := w.solve(q)
			res := j.run(s)
			j.show(s, res)
			j.count(w)
			want := 0
			if c.Mode == "compare" && len(w.expected(f)) > 0 {
				want = 1
			}
			wantExit(res, want)
			seen := map[string]bool{}
			check := func(k, key, label, dep string, path []repFn) {
				direct, transitive, pkgs := w.checkPath(f, k, path)
				first := w.m.nodes[path[0].Name]
				if !q[first.pkg] {
					fail("start", fmt.Sprintf("path for %s %s starts in %s, which was not requested", k, key, first.name))
				}
				switch c.Gran {
				case "intermediate":
					if key != "" && !pkgs[key] {
						fail("start", fmt.Sprintf("path for %s does not pass through %s: %v", k, key, path))
					}
				default:
					if !first.report {
						fail("start", "reported function "+first.name+" is not one of the program")
					}
					if key != "" && first.pkg != key && !(c.Mode == "compare" && c.Gran == "function" && first.name == key) {
						fail("start", fmt.Sprintf("path for %s %s starts in %s", k, key, first.name))
					}
				}
				switch label {
				case "CAPABILITY_TYPE_DIRECT":
					if !direct {
						fail("label", fmt.Sprintf("direct path for %s leaves the package: %v", k, path))
					}
				case "CAPABILITY_TYPE_TRANSITIVE":
					if !transitive {
						fail("label", fmt.Sprintf("transitive path for %s stays in the package: %v", k, path))
					}
				case "":
				default:
					fail("label", "unknown label "+label)
				}
				var names []string
				for _, p := range path {
					names = append(names, p.Name)
				}
				if dep != "" && dep != strings.Join(names, " ") {
					fail("path", "the path is also given as "+dep)
				}
				if len(path) > 1 {
					seen[k+" "+strings.Join(names, " ")] = true
				}
			}
			switch c.Mode {
			case "json", "j":
				rep, err := parseReport(res.Stdout)
				if err != nil {
					fail("bad-report", err.Error())
				}
				for _, ci := range rep.CapabilityInfo {
					if c.Gran != "intermediate" && ci.CapabilityType == "" {
						fail("label", "entry without a label")
					}
					if len(ci.Path) > 0 && ci.Path[0].Package == "" || c.Gran != "intermediate" && ci.DepPath == "" {
						fail("path", "incomplete entry for "+ci.Capability+" in "+ci.PackageDir)
					}
					for i, k := range c.Prog.Pkgs {
						if ci.PackageDir == c.Prog.pkgPath(i) && ci.PackageName != k.Name {
							fail("start", "package "+ci.PackageDir+" is said to be named "+ci.PackageName)
						}
					}
					check(ci.Capability, ci.PackageDir, ci.CapabilityType, ci.DepPath, ci.Path)
				}
			case "verbose":
				st, _ := parseStats(res.Stdout)
				for _, k := range sortedKeys(st) {
					check(k, "", "", "", st[k].example)
				}
			case "compare":
				for _, ch := range parseCompare(res.Stdout) {
					check(ch.cap, ch.key, "", "", ch.path)
				}
			}
			if len(seen) > 0 {
				j.nontrivial(fmt.Sprint(hashString(strings.Join(sortedKeys(seen), "\n"))))
			}
		},
	}
}
