package main

import (
	"fmt"
	"go/build/constraint"
	"path"
	"sort"
	"strings"

	"github.com/google/capslock/internal/verifsim/scn"
)

// selected says whether the build settings of a program select a file.
func (p *Prog) selected(name, header string) bool {
	goos, arch := p.GOOS, p.GOARCH
	if goos == "" {
		goos = "linux"
	}
	if arch == "" {
		arch = "amd64"
	}
	tags := map[string]bool{goos: true, arch: true, "gc": true, "go1.1": true, "go1.20": true, "go1.23": true}
	for _, t := range strings.Split(p.Tags, ",") {
		tags[t] = true
	}
	switch goos {
	case "windows", "plan9", "js":
	default:
		tags["unix"] = true
	}
	if goos == "android" {
		tags["linux"] = true
	}
	if goos == "linux" && arch == "amd64" {
		tags["cgo"] = true
	}
	base := name
	if i := strings.LastIndexByte(base, '.'); i >= 0 {
		base = base[:i]
	}
	base = strings.TrimSuffix(base, "_test")
	el := strings.Split(base, "_")
	if n := len(el); n > 1 {
		last := el[n-1]
		isOS := func(s string) bool {
			return strings.Contains(" linux windows darwin android plan9 freebsd js ", " "+s+" ")
		}
		isArch := func(s string) bool { return strings.Contains(" amd64 arm64 386 arm wasm riscv64 ", " "+s+" ") }
		if n > 2 && isOS(el[n-2]) && isArch(last) {
			if !tags[el[n-2]] || !tags[last] {
				return false
			}
		} else if (isOS(last) || isArch(last)) && !tags[last] {
			return false
		}
	}
	for _, l := range strings.Split(header, "\n") {
		if constraint.IsGoBuild(l) {
			x, err := constraint.Parse(l)
			if err != nil {
				panic(err)
			}
			return x.Eval(func(t string) bool { return tags[t] })
		}
	}
	return true
}

// emitChaff adds the build-constrained and unrelated files of a program.
func (w *world) emitChaff() {
	p := w.p
	w.ignored = map[int][]string{}
	for _, c := range p.Chaff {
		k := p.Pkgs[c.Pkg]
		if k.Dead {
			continue
		}
		id := itoa(c.Fn)
		text := func(header, fn, std string) string {
			sc := stdCalls[std]
			h := ""
			if header != "" {
				h = header + "\n\n"
			}
			return h + "package " + k.Name + "\n\nimport \"" + sc.pkg + "\"\n\nfunc " + fn + "() {\n\t" + sc.call + "\n}\n"
		}
		// one adds a function calling std in a file with the given constraints.
		one := func(name, header, fn, std string) {
			if strings.HasSuffix(name, "_test.go") || strings.HasPrefix(name, "_") || strings.HasPrefix(name, ".") || strings.Contains(name, "/") {
				w.extra[w.dir(c.Pkg)+"/"+name] = text(header, fn, std)
				if !p.selected(name, header) && strings.HasSuffix(name, "_test.go") {
					w.ignored[c.Pkg] = append(w.ignored[c.Pkg], name)
				}
				return
			}
			if !p.selected(name, header) {
				w.extra[w.dir(c.Pkg)+"/"+name] = text(header, fn, std)
				w.ignored[c.Pkg] = append(w.ignored[c.Pkg], name)
				return
			}
			f := w.file(c.Pkg, name)
			f.header = header
			e := (&em{w, f, "", map[string]int{}}).fnEm(fn)
			sc := stdCalls[std]
			e.std(sc.pkg)
			w.stdNode(sc.node)
			e.decl(ln("func "+fn+"() {"), ln("\t"+sc.call, e.to(sc.node)), ln("}"))
		}
		switch c.Kind {
		case "go":
			one(c.Name, c.Header, "Chaff"+id, c.Std)
		case "var":
			// Two variants of one function, of which exactly one is used.
			x := strings.TrimPrefix(c.Header, "//go:build ")
			one("v"+id+"_a.go", "//go:build "+x, "Var"+id, c.Std)
			one("v"+id+"_b.go", "//go:build !("+x+")", "Var"+id, c.Std2)
			f := w.file(c.Pkg, "v"+id+".go")
			e := (&em{w, f, "", map[string]int{}}).fnEm("UseVar" + id)
			e.decl(ln("func UseVar"+id+"() {"), ln("\tVar"+id+"()", e.to(e.path()+".Var"+id)), ln("}"))
		case "imp":
			// A further import that only some builds have.
			to := c.To
			if to <= c.Pkg || to >= len(p.Pkgs) || p.Pkgs[to].Dead || p.Pkgs[to].Main {
				continue
			}
			if !p.selected(c.Name, c.Header) {
				w.extra[w.dir(c.Pkg)+"/"+c.Name] = c.Header + "\n\npackage " + k.Name + "\n\nimport _ \"" + p.pkgPath(to) + "\"\n"
				w.ignored[c.Pkg] = append(w.ignored[c.Pkg], c.Name)
				continue
			}
			f := w.file(c.Pkg, c.Name)
			f.header = c.Header
			if f.imports[p.pkgPath(to)] == "" {
				f.imports[p.pkgPath(to)] = "_"
			}
		case "asm", "text":
			data := "// assembly\n"
			if c.Header != "" {
				data = c.Header + "\n\n" + data
			}
			w.extra[w.dir(c.Pkg)+"/"+c.Name] = data
			if c.Kind == "asm" && !p.selected(c.Name, c.Header) {
				w.ignored[c.Pkg] = append(w.ignored[c.Pkg], c.Name)
			}
		case "ghost":
			// A directory without a file for this build.
			w.extra[w.dir(c.Pkg)+"/ghost"+id+"/g.go"] = "//go:build absent\n\npackage ghost\n\nimport \"os\"\n\nfunc G() { os.Getenv(\"x\") }\n"
		case "nested":
			// Another module inside the directory tree of this one.
			w.extra[w.dir(c.Pkg)+"/nested"+id+"/go.mod"] = "module nested.example/n\n\ngo 1.23\n"
			w.extra[w.dir(c.Pkg)+"/nested"+id+"/g.go"] = "package nested\n\nimport \"os\"\n\nfunc G() { os.Getenv(\"x\") }\n"
		}
	}
}

func genConstraint(r *rng) string {
	t := func() string {
		s := pick(r, []string{"linux", "windows", "darwin", "amd64", "arm64", "unix", "cgo", "foo", "bar", "go1.20", "go1.99", "gc", "never", "ignore"})
		if r.pct(35) {
			s = "!" + s
		}
		return s
	}
	s := t()
	switch r.n(4) {
	case 0:
		s += " && " + t()
	case 1:
		s += " || " + t()
	case 2:
		s = "(" + s + " || " + t() + ") && " + t()
	}
	return s
}

func genChaff(r *rng, p *Prog) {
	for i, n := 0, r.in(1, 7); i < n; i++ {
		c := &Chaff{Pkg: r.n(len(p.Pkgs)), Fn: i, Std: pick(r, stdLeaves), Std2: pick(r, stdLeaves)}
		c.Kind = pick(r, []string{"go", "go", "go", "go", "var", "var", "var", "imp", "imp", "asm", "text", "ghost", "nested"})
		id := itoa(i)
		if r.pct(60) || c.Kind == "var" || c.Kind == "imp" {
			c.Header = "//go:build " + genConstraint(r)
			if r.pct(20) && c.Kind != "var" {
				c.Header = "// A comment.\n\n" + c.Header
			}
		}
		suffix := pick(r, []string{"", "", "_linux", "_windows", "_darwin", "_amd64", "_arm64", "_linux_amd64", "_windows_amd64", "_linux_arm64", "_unix", "_android", "_foo"})
		switch c.Kind {
		case "go":
			c.Name = "c" + id + suffix + ".go"
			switch r.n(10) {
			case 0:
				c.Name = "c" + id + suffix + "_test.go"
			case 1:
				c.Name = pick(r, []string{"_c" + id + ".go", ".c" + id + ".go", "testdata/c" + id + ".go", "_sub/c" + id + ".go"})
			case 2:
				c.Name = pick(r, []string{"linux", "windows", "amd64", "arm64"}) + id + ".go" // no constraint
			}
		case "imp":
			c.Name = "i" + id + suffix + ".go"
			c.To = r.n(len(p.Pkgs))
		case "asm":
			c.Name = "s" + id + suffix + pick(r, []string{".s", ".h"})
		case "text":
			c.Name = "t" + id + suffix + pick(r, []string{".txt", ".go.orig", ".md"})
		}
		p.Chaff = append(p.Chaff, c)
	}
}

func init() {
	pf := profile{size: 8, maxPkgs: 6, custom: 20, nobuiltin: 50, mods: true, mains: 10}
	properties["P15"] = &property{
		id: "P15", level: "exploration", quick: 12000, thorough: 120000,
		rule: "One case is a generated program with build-constrained, test, hidden and foreign files, module versions, replacements and workspaces, analysed for some operating system, architecture and tags given by options or environment; it is non-trivial when a file was left out or a versioned module used, and distinct by settings, ignored files, modules and packages.",
		bins: []string{"cmd/capslock with all packages of the repository"},
		gen: func(r *rng, i int) *Case {
			c := &Case{S: map[string]string{}}
			c.setKnobs(genKnobs(r))
			p := genProg(r, pf)
			c.Prog = p
			if r.pct(15) {
				// The name of a module does not need a dot.
				p.Mods[0].Path = pick(r, []string{"app", "tool/x", "m"})
			}
			if r.pct(60) {
				p.GOOS = pick(r, []string{"linux", "windows", "darwin", "android"})
			}
			if r.pct(40) {
				p.GOARCH = pick(r, []string{"amd64", "arm64"})
			}
			if r.pct(50) {
				p.Tags = pick(r, []string{"foo", "bar", "foo,bar", "bar,foo", "never", "foo,linuxx"})
			}
			for _, k := range []string{"os", "arch", "tags"} {
				c.S[k] = pick(r, []string{"flag", "flag", "env", "both"})
			}
			if r.pct(15) && len(p.Mods) > 1 {
				// Only modules no versioned module depends on can be in the
				// workspace alone.
				p.Mods[1].Where = "work"
			}
			if r.pct(30) {
				c.S["low"] = "1"
			}
			genChaff(r, p)
			if k := pick(r, p.Pkgs); r.pct(8) && !k.Dead && p.Mods[k.Mod].Where == "main" {
				// The files of one package are named instead.
				k.Cmd = true
			}
			if r.pct(pf.custom) {
				p.Custom, p.NoBltin = true, r.pct(50)
				w := render(p)
				w.sources()
				p.Ents = genEntries(r, w, p.NoBltin)
			}
			c.Query = genQuery(r, p)
			c.Gran = pick(r, []string{"", "", "function", "package"})
			c.Mode = pick(r, []string{"json", "json", "json", "j", "", "v"})
			return c
		},
		judge: func(j *judgeCtx, c *Case) {
			p := c.Prog
			w := render(p)
			q, pats := queriedSet(w, c.Query), c.pkgsArg()
			for i, k := range p.Pkgs {
				if !k.Cmd || k.Dead || len(w.files[i]) == 0 {
					continue
				}
				q = map[string]bool{p.pkgPath(i): true}
				w.ignored[i] = nil
				pats = "-packages="
				for n, f := range sortedKeys(w.files[i]) {
					if n > 0 {
						pats += ","
					}
					pats += "./" + path.Join(k.Rel, f)
				}
				j.r.probe("files named", 1)
			}
			if len(q) == 0 {
				return
			}
			args := append(p.mapArgs(), pats)
			if c.Mode != "" {
				args = append(args, "-output="+c.Mode)
			}
			if c.Gran != "" {
				args = append(args, "-granularity="+c.Gran)
			}
			var env []string
			set := func(how, flag, name, val, decoy string) {
				switch {
				case val == "":
				case how == "env":
					env = append(env, name+"="+val)
				case how == "both":
					env = append(env, name+"="+decoy)
					fallthrough
				default:
					args = append(args, "-"+flag+"="+val)
				}
			}
			set(c.S["os"], "goos", "GOOS", p.GOOS, "plan9")
			set(c.S["arch"], "goarch", "GOARCH", p.GOARCH, "386")
			if p.Tags != "" && c.S["tags"] == "env" {
				env = append(env, "GOFLAGS=-tags="+p.Tags)
			} else {
				set(c.S["tags"], "buildtags", "GOFLAGS", p.Tags, "-tags=never2")
			}
			s := w.scenario("P15", args...)
			c.apply(s)
			s.Env = append(s.Env, env...)
			work := "go 1.23\n\nuse .\n"
			for i, m := range p.Mods {
				if m.Where == "work" {
					work += "use .." + w.modDir(i) + "\n"
				}
				// The main module asks for an older version than another one.
				if c.S["low"] != "" && i >= 2 && m.Where == "cache" && p.Mods[1].Where != "work" {
					for k := range s.Files {
						if f := &s.Files[k]; f.Path == "/work/go.mod" {
							f.Data = strings.Replace(f.Data, "require "+m.Path+" "+m.Ver, "require "+m.Path+" v0.0.1", 1)
						}
					}
					old := "/gomodcache/" + m.Path + "@v0.0.1"
					s.Files = append(s.Files, scn.File{Path: old + "/go.mod", Data: w.gomod(i)})
					for pi, k := range p.Pkgs {
						if k.Mod == i && !k.Dead {
							d := old
							if k.Rel != "" {
								d += "/" + k.Rel
							}
							s.Files = append(s.Files, scn.File{Path: d + "/f0.go", Data: "package " + k.Name + "\n\nimport \"os\"\n\nfunc Old" + itoa(pi) + "() { os.Getenv(\"x\") }\n"})
						}
					}
					j.r.probe("older version required", 1)
				}
			}
			if strings.Count(work, "use") > 1 {
				s.Files = append(s.Files, scn.File{Path: "/work/go.work", Data: work})
				j.r.probe("workspace", 1)
			}
			res := j.run(s)
			j.show(s, res)
			wantExit(res, 0)
			f := w.solve(q)
			loaded := w.loaded(q)
			wantPkgs, wantMods := map[[2]string]bool{}, map[[2]string]bool{}
			ignored := 0
			for i, k := range p.Pkgs {
				path := p.pkgPath(i)
				if k.Dead || !loaded[path] {
					continue
				}
				l := append([]string(nil), w.ignored[i]...)
				sort.Strings(l)
				ignored += len(l)
				wantPkgs[[2]string{path, strings.Join(l, " ")}] = true
				if m := p.Mods[k.Mod]; m.Where != "main" && m.Where != "work" {
					wantMods[[2]string{m.Path, m.Ver}] = true
				}
			}
			gotMods := map[[2]string]bool{}
			addMod := func(path, ver string) {
				k := [2]string{path, ver}
				if gotMods[k] {
					fail("modules", "module "+path+" listed twice")
				}
				gotMods[k] = true
			}
			if !strings.HasPrefix(c.Mode, "j") {
				in := false
				for _, l := range strings.Split(res.Stdout, "\n") {
					if strings.HasPrefix(l, "Analyzed packages") {
						in = true
					} else if !strings.HasPrefix(l, "  ") {
						in = false
					} else if fs := strings.Fields(l); in && len(fs) == 2 {
						addMod(fs[0], fs[1])
					}
				}
			} else {
				rep, err := parseReport(res.Stdout)
				if err != nil {
					fail("bad-report", err.Error())
				}
				for _, m := range rep.ModuleInfo {
					addMod(m.Path, m.Version)
				}
				gotPkgs := map[[2]string]bool{}
				for _, x := range rep.PackageInfo {
					l := append([]string(nil), x.IgnoredFiles...)
					sort.Strings(l)
					k := [2]string{x.Path, strings.Join(l, " ")}
					if gotPkgs[k] {
						fail("packages", "package "+x.Path+" listed twice")
					}
					gotPkgs[k] = true
				}
				if d := setDiff(gotPkgs, wantPkgs); d != "" {
					fail("packages", d)
				}
				got, want := map[[2]string]bool{}, w.expected(f)
				for _, ci := range rep.CapabilityInfo {
					k := [2]string{ci.Path[0].Name, ci.Capability}
					if c.Gran == "package" {
						k[0] = ci.PackageDir
					}
					got[k] = true
				}
				if c.Gran == "package" {
					pw := map[[2]string]bool{}
					for k := range want {
						pw[[2]string{w.m.nodes[k[0]].pkg, k[1]}] = true
					}
					want = pw
				}
				if d := setDiff(got, want); d != "" {
					fail("findings", d)
				}
			}
			if d := setDiff(gotMods, wantMods); d != "" {
				fail("modules", d)
			}
			if ignored > 0 {
				j.r.probe("files left out", 1)
			}
			if ignored > 0 || len(wantMods) > 0 {
				j.nontrivial(fmt.Sprint(p.GOOS, p.GOARCH, p.Tags, c.S, setHash(wantPkgs), setHash(wantMods), c.Mode, c.Gran))
			}
		},
	}
}
