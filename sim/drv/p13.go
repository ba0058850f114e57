package main

import (
	"fmt"
	"strings"

	"github.com/google/capslock/internal/verifsim/scn"
)

// Texts that make a file fail to parse or type-check when added to its end.
var badSyntax = []string{
	"func zzbroken( {\n", "}\n", "func zzbroken() { if }\n", "var zzbroken = \"\n", "/* zz\n", "const = 1\n", "func zzbroken() { x := = 1 }\n", "\x00\n",
}

var badTypes = []string{
	"var zzbroken int = \"x\"\n", "func zzbroken() { undefinedName() }\n", "func zzbroken() int {}\n", "func zzbroken() { x := 1 }\n",
	"func zzbroken() {}\nfunc zzbroken() {}\n", "var _ interface{ ZZ() } = struct{}{}\n", "type zzbroken struct{ zzbroken }\n",
	"var _ zzbroken\n", "func zzbroken() { for { break zz } }\n", "func zzbroken[T any](T) {}\nvar _ = zzbroken[int, int]\n",
	"func zzbroken() { return 1 }\n", "var zz1 = zz2\nvar zz2 = zz1\n",
}

// breakWorld damages the package with index pi in one way.  It reports whether
// the damage concerns everything, this package only, or nothing at all.
func breakWorld(c *Case, w *world, s *scn.Scenario, pi int) string {
	p := w.p
	dir, name, imp := w.dir(pi), p.Pkgs[pi].Name, p.pkgPath(pi)
	add := func(file, data string) { s.Files = append(s.Files, scn.File{Path: file, Data: data}) }
	var files []int
	for i, f := range s.Files {
		if strings.HasPrefix(f.Path, dir+"/") && !strings.Contains(f.Path[len(dir)+1:], "/") && strings.HasSuffix(f.Path, ".go") && w.files[pi][f.Path[len(dir)+1:]] != nil {
			files = append(files, i)
		}
	}
	if len(files) == 0 {
		return "nothing"
	}
	file := &s.Files[files[c.N%len(files)]]
	v := c.N / 7
	switch c.Mode {
	case "syntax":
		file.Data += "\n" + badSyntax[v%len(badSyntax)]
	case "type":
		file.Data += "\n" + badTypes[v%len(badTypes)]
	case "many":
		for i := 0; i < 3+v%60; i++ {
			file.Data += "\nvar zzbroken" + itoa(i) + " int = \"a string that is not an integer\"\n"
		}
	case "unusedimport":
		add(dir+"/zz.go", "package "+name+"\n\nimport \"os\"\n")
	case "missingimport":
		m := p.Mods[v%len(p.Mods)].Path
		add(dir+"/zz.go", "package "+name+"\n\nimport _ \""+[]string{"none.example/such", m + "/no/such", "nosuchstd", "os/nosuch"}[v%4]+"\"\n")
	case "cycle":
		to := imp
		for i := range p.Pkgs {
			if q := p.pkgPath(i); !p.Pkgs[i].Dead && !p.Pkgs[i].Main && w.loaded(map[string]bool{q: true})[imp] {
				if to == imp || v%2 == 0 {
					to = q
				}
			}
		}
		add(dir+"/zz.go", "package "+name+"\n\nimport _ \""+to+"\"\n")
	case "name":
		add(dir+"/zz.go", "package zzother\n")
	case "clause":
		add(dir+"/zz.go", []string{"", "// nothing here\n", "import \"os\"\n", "packag " + name + "\n", "package\n"}[v%5])
	case "excluded":
		add(dir+"/zz.go", "package "+name+"\n\nimport _ \""+imp+"/zzdep\"\n")
		add(dir+"/zzdep/"+[]string{"a.go", "a_test.go", "a_windows.go", "a.txt"}[v%4], "//go:build "+[]string{"never", "linux", "linux", "linux"}[v%4]+"\n\npackage zzdep\n")
	case "deep":
		// The damaged package is only reached through a blank import.
		add(dir+"/zz.go", "package "+name+"\n\nimport _ \""+imp+"/zzdep\"\n")
		add(dir+"/zzdep/a.go", "package zzdep\n\n"+badTypes[v%len(badTypes)])
	case "std":
		var l []string
		for _, f := range w.files[pi] {
			for m := range f.imports {
				if isStd(m) && m != "unsafe" {
					l = append(l, m)
				}
			}
		}
		if len(l) == 0 {
			return "nothing"
		}
		m := l[0]
		for _, x := range l {
			if x < m {
				m = x
			}
		}
		base := m[strings.LastIndexByte(m, '/')+1:]
		add("/goroot/src/"+m+"/zz.go", "package "+base+"\n\n"+badTypes[v%len(badTypes)])
	case "gomod":
		for i := range s.Files {
			if f := &s.Files[i]; f.Path == w.modDir(0)+"/go.mod" {
				f.Data = []string{"", f.Data + "nonsense\n", "go 1.23\n", f.Data + "require zz\n"}[v%4]
			}
		}
		return "all"
	case "module":
		if p.Pkgs[pi].Mod == 0 {
			return "nothing"
		}
		m := p.Mods[p.Pkgs[pi].Mod]
		d := w.modDir(p.Pkgs[pi].Mod)
		if m.Where == "proxy" {
			d = "/gomodcache/" + m.Path + "@" + m.Ver
		}
		add(d+".broken", "checksum mismatch")
	case "unreadable":
		at := strings.Replace(file.Path, "/goproxy/", "/gomodcache/", 1)
		s.Faults = []scn.Fault{{Proc: "main", Op: []string{"open", "read", "read", "fstat"}[v%4], Path: at, N: 1, Kind: "err", Err: []string{"EIO", "EACCES", "EMFILE"}[v%3]}}
	case "nomatch":
		return "all"
	case "empty":
		// The request names a package without files to compile.
		add(dir+"/zzempty/"+[]string{"a.go", "a_test.go", "a_windows.go", "a.txt"}[v%4], "//go:build "+[]string{"never", "linux", "linux", "linux"}[v%4]+"\n\npackage zzempty\n")
		return "all"
	// The remaining kinds put errors where they must not matter.
	case "oktest":
		add(dir+"/zz_test.go", "package "+name+"\n\n"+badTypes[v%len(badTypes)])
		return "nothing"
	case "oktagged":
		add(dir+"/zz.go", "//go:build never\n\npackage "+name+"\n\n"+badSyntax[v%len(badSyntax)])
		return "nothing"
	case "okname":
		add(dir+"/"+[]string{"_zz.go", ".zz.go", "zz_windows.go", "zz_linux_arm64.go", "zz.go.txt", "testdata/zz.go", "_zz/zz.go"}[v%7], "package "+name+"\n\n"+badTypes[v%len(badTypes)])
		return "nothing"
	default:
		simFail("no damage %q", c.Mode)
	}
	return "package"
}

var damages = []string{"syntax", "syntax", "type", "type", "type", "many", "unusedimport", "missingimport", "missingimport", "cycle", "name", "clause", "excluded", "excluded", "deep", "std", "gomod", "module", "module", "module", "empty", "empty",
	"unreadable", "unreadable", "nomatch", "oktest", "oktagged", "okname"}

// publish puts the modules of a program on the proxy.
func publish(p *Prog, w *world, s *scn.Scenario) {
	for i, m := range p.Mods {
		ver := m.Ver
		if ver == "" {
			ver = "v1.9.0"
		}
		from, to := w.modDir(i)+"/", "/goproxy/"+m.Path+"@"+ver+"/"
		if from == to {
			continue
		}
		for _, f := range append([]scn.File(nil), s.Files...) {
			if rest, ok := strings.CutPrefix(f.Path, from); ok && !f.Dir {
				if rest == "go.mod" {
					var l []string
					for _, x := range strings.Split(f.Data, "\n") {
						if !strings.HasPrefix(x, "replace ") {
							l = append(l, x)
						}
					}
					f.Data = strings.Join(l, "\n")
				}
				f.Path = to + rest
				s.Files = append(s.Files, f)
			}
		}
	}
}

func init() {
	pf := profile{size: 8, maxPkgs: 5, custom: 25, nobuiltin: 50, mods: true, mains: 10}
	properties["P13"] = &property{
		id: "P13", level: "fault_enumeration", quick: 12000, thorough: 120000,
		rule: "One case is a generated program with one load, parse, type, import, constraint, module or read error put into one package (or where it must not matter), run in a random output mode; it is non-trivial when the error concerns a package that is loaded, and distinct by kind of error, distance of the package from the requested ones, output mode and options.",
		bins: []string{"cmd/capslock with all packages of the repository"},
		gen: func(r *rng, i int) *Case {
			c := genAnalysis(r, pf)
			c.Mode = pick(r, damages)
			c.N = r.n(1 << 20)
			if r.pct(20) && c.Mode != "gomod" && c.Mode != "nomatch" {
				// The packages are only found by the second attempt.
				m := c.Mode
				c = genRemote(r, pf)
				c.Mode, c.N = m, r.n(1<<20)
			}
			if c.Mode == "module" && r.pct(50) {
				for _, m := range c.Prog.Mods[1:] {
					m.Ver = c.Prog.Mods[len(c.Prog.Mods)-1].Ver
				}
			}
			c.Args = genOutput(r)
			if r.pct(40) && c.S == nil {
				c.Args = append(c.Args, "-force_local_module")
			}
			if r.pct(10) {
				c.Args = append(c.Args, "-output=compare", "base.json")
			}
			if r.pct(15) {
				c.Args = append([]string{"-v=" + pick(r, []string{"1", "2"})}, c.Args...)
			}
			if c.Mode == "nomatch" {
				m := c.Prog.Mods[r.n(len(c.Prog.Mods))].Path
				bad := pick(r, []string{"./nosuch", "./nosuch/...", m + "/nosuch/...", m + "/nosuch", "none.example/x", "none.example/x/...", "nosuchstd", "nosuch.go", "", "../outside", "os/nosuch/..."})
				if r.pct(30) && !strings.HasSuffix(bad, "...") && bad != "nosuch.go" {
					// Unlike a pattern, a package that is not there is an error
					// even beside others.
					c.Query = append(c.Query, bad)
					shuffle(r, c.Query)
				} else {
					c.Query = []string{bad}
				}
			}
			published := c.S == nil && r.pct(40) && (c.Mode == "type" || c.Mode == "many" || c.Mode == "unusedimport")
			if r.pct(30) || published {
				if c.S == nil {
					c.S = map[string]string{}
				}
				if !published || r.pct(30) {
					c.S["near"] = "1"
				}
			}
			if published {
				// Versions without the error could be obtained, but are not
				// what was asked for.
				c.S["published"] = "1"
				for i, q := range c.Query {
					if rest, ok := strings.CutPrefix(q, "."); ok && !strings.HasPrefix(rest, ".") {
						c.Query[i] = c.Prog.Mods[0].Path + rest
					}
				}
			}
			return c
		},
		judge: func(j *judgeCtx, c *Case) {
			w := render(c.Prog)
			q := queriedSet(w, c.Query)
			remote := c.S["user"] != ""
			if remote {
				var ok bool
				if q, _, ok = remoteRequest(c, w); !ok {
					return
				}
			}
			if len(q) == 0 && c.Mode != "nomatch" {
				return
			}
			loaded := w.loaded(q)
			// Choose the package to damage, mostly a loaded one.
			var cand []int
			for i, k := range c.Prog.Pkgs {
				if k.Dead {
					continue
				}
				path := c.Prog.pkgPath(i)
				if c.S["near"] != "" && loaded[path] && !q[path] || c.S["near"] == "" {
					cand = append(cand, i)
				}
			}
			if len(cand) == 0 {
				for i, k := range c.Prog.Pkgs {
					if !k.Dead {
						cand = append(cand, i)
					}
				}
			}
			pi := cand[c.N/977%len(cand)]
			if c.Mode == "empty" {
				k := c.clone()
				at := c.N % (len(k.Query) + 1)
				k.Query = append(k.Query[:at:at], append([]string{c.Prog.pkgPath(pi) + "/zzempty"}, k.Query[at:]...)...)
				c = k
			}
			mk := func(args ...string) *scn.Scenario {
				if !remote {
					s := w.scenario("P13", append(append(c.Prog.mapArgs(), c.pkgsArg()), args...)...)
					if c.S["published"] != "" {
						publish(c.Prog, w, s)
					}
					s.Files = append(s.Files, scn.File{Path: "/work/base.json", Data: "{}"})
					return s
				}
				args = append([]string{c.pkgsArg()}, args...)
				if c.Prog.Custom {
					args = append([]string{"-capability_map=map.cm"}, args...)
					if c.Prog.NoBltin {
						args = append([]string{"-disable_builtin"}, args...)
					}
				}
				s := remoteScenario("P13", c, w, args...)
				s.Files = append(s.Files, scn.File{Path: "/work/base.json", Data: "{}"})
				return s
			}
			var args []string
			if c.Mode == "gomod" && !strings.HasPrefix(c.Query[0], ".") {
				// The packages may be obtained without this module.
				args = append(args, "-force_local_module")
			}
			s := mk(append(args, c.Args...)...)
			c.apply(s)
			what := breakWorld(c, w, s, pi)
			imp := c.Prog.pkgPath(pi)
			bad := what == "all" || what == "package" && loaded[imp]
			if what == "package" && c.Mode == "module" {
				for i := range c.Prog.Pkgs {
					if loaded[c.Prog.pkgPath(i)] && c.Prog.Pkgs[i].Mod == c.Prog.Pkgs[pi].Mod {
						bad = true
					}
				}
			}
			if c.Mode == "std" && !bad {
				return
			}
			if what == "package" && (c.Mode == "excluded" || c.Mode == "deep") && !bad {
				// The package added below may be matched by a pattern.
				for _, pat := range c.Query {
					if strings.Contains(pat, "...") {
						return
					}
				}
			}
			if bad {
				res := j.run(s)
				j.show(s, res)
				if c.Mode == "unreadable" && len(res.Fired) == 0 {
					return
				}
				if res.Stdout != "" {
					fail("report", fmt.Sprintf("%s error in %s, but the output is %q", c.Mode, imp, tail(res.Stdout, 300)))
				}
				wantExit(res, 2)
				dist := "dependency"
				if q[imp] {
					dist = "requested"
				}
				if remote {
					dist += ", in the temporary module"
				}
				j.r.probe("error: "+c.Mode+" in "+dist+" package", 1)
				j.nontrivial(fmt.Sprint(c.Mode, c.N/7%12, dist, c.Args, len(q)))
				return
			}
			// Nothing that is loaded has an error.
			s = mk(append(args, "-output=json")...)
			c.apply(s)
			breakWorld(c, w, s, pi)
			res := j.run(s)
			j.show(s, res)
			wantExit(res, 0)
			rep, err := parseReport(res.Stdout)
			if err != nil {
				fail("bad-report", err.Error())
			}
			got := map[[2]string]bool{}
			for _, ci := range rep.CapabilityInfo {
				got[[2]string{ci.Path[0].Name, ci.Capability}] = true
			}
			if d := setDiff(got, w.expected(w.solve(q))); d != "" {
				fail("findings", d)
			}
			j.r.probe("harmless: "+c.Mode, 1)
		},
	}
}
