package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/google/capslock/internal/verifsim/scn"
)

// genRemote makes a program whose modules are on the proxy, and a directory
// from which they cannot be found.
func genRemote(r *rng, pf profile) *Case {
	c := &Case{S: map[string]string{}}
	c.setKnobs(genKnobs(r))
	p := genProg(r, pf)
	c.Prog = p
	for i, m := range p.Mods {
		if m.Ver == "" {
			m.Ver = pick(r, []string{"v1.4.0", "v0.3.1"})
		}
		m.Where = "proxy"
		if i > 0 && r.pct(15) {
			m.Where = "cache"
		}
	}
	if r.pct(pf.custom) {
		p.Custom, p.NoBltin = true, r.pct(pf.nobuiltin)
		w := render(p)
		w.sources()
		p.Ents = genEntries(r, w, p.NoBltin)
	}
	c.Query = genQuery(r, p)
	for i, q := range c.Query {
		if rest, ok := strings.CutPrefix(q, "."); ok {
			c.Query[i] = p.Mods[0].Path + rest
		}
		if strings.Contains(strings.TrimSuffix(q, "/..."), "...") {
			c.Query[i] = p.Mods[0].Path + "/..."
		}
	}
	if len(p.Mods) > 1 && r.pct(25) {
		// Everything of several modules.
		c.Query = nil
		for _, m := range p.Mods {
			if m.Where == "proxy" {
				c.Query = append(c.Query, m.Path+"/...")
			}
		}
		shuffle(r, c.Query)
	}
	c.S["user"] = pick(r, []string{"none", "none", "plain", "plain", "broken", "conflict", "partial", "same"})
	c.S["work"] = pick(r, []string{"", "", "", "cwd", "root", "tmp", "env"})
	c.S["tmp"] = pick(r, []string{"/tmp", "/tmp", "/tmp", "/work/t", "/var/tmp/x"})
	c.S["tmpmod"] = pick(r, []string{"", "", "", "1"})
	c.S["older"] = pick(r, []string{"", "1"})
	return c
}

// remoteScenario is the world of a case made by genRemote.
func remoteScenario(prop string, c *Case, w *world, args ...string) *scn.Scenario {
	p := c.Prog
	s := w.scenario(prop, args...)
	for i := range s.Files {
		if s.Files[i].Path == "/home/u/map.cm" {
			s.Files[i].Path = "/work/map.cm"
		}
	}
	add := func(path, data string) { s.Files = append(s.Files, scn.File{Path: path, Data: data}) }
	code := func(pkg string) string {
		return "package " + pkg + "\n\nimport \"net\"\n\nfunc User() { net.Dial(\"x\", \"y\") }\n"
	}
	switch c.S["user"] {
	case "none":
		s.Files = append(s.Files, scn.File{Path: "/work", Dir: true})
	case "plain":
		add("/work/go.mod", "module user.example/u\n\ngo 1.23\n")
		add("/work/a.go", code("u"))
	case "broken":
		add("/work/go.mod", "module user.example/u\n\nnonsense\n")
		add("/work/a.go", code("u"))
	case "conflict":
		add("/work/go.mod", "module user.example/u\n\ngo 1.23\n\nrequire other.example/o v0.0.1\n")
		add("/work/a.go", code("u"))
	case "partial":
		// An older version is in use here, and has none of the packages.
		mod := "module user.example/u\n\ngo 1.23\n"
		for _, m := range p.Mods {
			mod += "\nrequire " + m.Path + " v0.0.1\n"
			add("/gomodcache/"+m.Path+"@v0.0.1/go.mod", "module "+m.Path+"\n")
			add("/gomodcache/"+m.Path+"@v0.0.1/oldonly/a.txt", "nothing")
		}
		add("/work/go.mod", mod)
		add("/work/a.go", code("u"))
	case "same":
		add("/work/go.mod", "module "+p.Mods[0].Path+"\n\ngo 1.23\n")
		add("/work/zzlocal/a.go", "//go:build absent\n\n"+code("zzlocal"))
	}
	if c.S["older"] != "" {
		for _, m := range p.Mods {
			if m.Where != "proxy" {
				continue
			}
			add("/goproxy/"+m.Path+"@v0.0.2/go.mod", "module "+m.Path+"\n")
			add("/goproxy/"+m.Path+"@v0.0.2/f0.go", code("old"))
			add("/gomodcache/"+m.Path+"@v0.0.2/go.mod", "module "+m.Path+"\n")
			add("/gomodcache/"+m.Path+"@v0.0.2/f0.go", code("old"))
		}
	}
	tmp := c.S["tmp"]
	s.Files = append(s.Files, scn.File{Path: tmp, Dir: true})
	if tmp != "/tmp" {
		for i, e := range s.Env {
			if strings.HasPrefix(e, "TMPDIR=") {
				s.Env[i] = "TMPDIR=" + tmp
			}
		}
	}
	if c.S["tmpmod"] != "" {
		add(tmp+"/go.mod", "module around.example/tmp\n\ngo 1.23\n")
		add(tmp+"/a.go", code("tmp"))
	}
	// Workspaces that have nothing to do with the request.
	work := "go 1.23\n\nuse ./elsewhere\n"
	ws := map[string]string{"cwd": "/work", "root": "", "tmp": tmp, "env": "/home/u"}
	if d, ok := ws[c.S["work"]]; ok {
		add(d+"/go.work", work)
		add(d+"/elsewhere/go.mod", "module else.example/where\n\ngo 1.23\n")
		add(d+"/elsewhere/a.go", code("where"))
		if c.S["work"] == "env" {
			s.Env = append(s.Env, "GOWORK=/home/u/go.work")
		}
	}
	return s
}

// remoteRequest computes what a request for remote packages means: the
// packages it names once they are obtained, the modules then present, and
// whether all can be obtained.
func remoteRequest(c *Case, w *world) (q map[string]bool, build map[int]bool, ok bool) {
	p := c.Prog
	build = map[int]bool{}
	ok = true
	low := len(p.Mods)
	for _, pat := range c.Query {
		base := strings.TrimSuffix(pat, "/...")
		best := -1
		for i, m := range p.Mods {
			if m.Where != "proxy" || base != m.Path && !strings.HasPrefix(base, m.Path+"/") {
				continue
			}
			// A module is only used for a package it has, or below one.
			has := base == m.Path
			for pi, k := range p.Pkgs {
				if path := p.pkgPath(pi); k.Mod == i && !k.Dead && (path == base || strings.HasPrefix(path, base+"/")) {
					has = true
				}
			}
			if has && (best < 0 || len(m.Path) > len(p.Mods[best].Path)) {
				best = i
			}
		}
		if best < 0 {
			ok = false
			continue
		}
		low = min(low, best)
	}
	for i := low; i < len(p.Mods); i++ {
		build[i] = true
	}
	q = queriedSet(w, c.Query)
	for i, k := range p.Pkgs {
		if !build[k.Mod] {
			delete(q, p.pkgPath(i))
		}
	}
	// A package named exactly must be there.
	for _, pat := range c.Query {
		if !strings.HasSuffix(pat, "/...") && !q[pat] {
			ok = false
		}
	}
	return q, build, ok
}

// findings compares a JSON report with the model.
func findings(w *world, q map[string]bool, out string) {
	rep, err := parseReport(out)
	if err != nil {
		fail("bad-report", err.Error())
	}
	got := map[[2]string]bool{}
	for _, ci := range rep.CapabilityInfo {
		got[[2]string{ci.Path[0].Name, ci.Capability}] = true
	}
	if d := setDiff(got, w.expected(w.solve(q))); d != "" {
		fail("findings", d)
	}
	gotMods, wantMods := map[[2]string]bool{}, map[[2]string]bool{}
	for _, m := range rep.ModuleInfo {
		gotMods[[2]string{m.Path, m.Version}] = true
	}
	var gotPkgs, wantPkgs []string
	for _, x := range rep.PackageInfo {
		gotPkgs = append(gotPkgs, x.Path)
	}
	loaded := w.loaded(q)
	for i, k := range w.p.Pkgs {
		if path := w.p.pkgPath(i); loaded[path] {
			wantPkgs = append(wantPkgs, path)
			if m := w.p.Mods[k.Mod]; m.Where != "main" && m.Where != "work" {
				wantMods[[2]string{m.Path, m.Ver}] = true
			}
		}
	}
	if d := setDiff(gotMods, wantMods); d != "" {
		fail("modules", d)
	}
	sort.Strings(wantPkgs)
	if a, b := strings.Join(gotPkgs, " "), strings.Join(wantPkgs, " "); a != b {
		fail("packages", fmt.Sprintf("listed %s instead of %s", a, b))
	}
}

func init() {
	pf := profile{size: 8, maxPkgs: 5, custom: 25, nobuiltin: 50, mods: true}
	properties["P16"] = &property{
		id: "P16", level: "exploration", quick: 9000, thorough: 90000,
		rule: "One case is a generated program on the simulated module proxy, requested from a directory that does not have it, with unrelated modules, workspaces and versions around; it is non-trivial when the retry in a temporary module took place, and distinct by surroundings, request, modules and findings.",
		bins: []string{"cmd/capslock with all packages of the repository"},
		gen: func(r *rng, i int) *Case {
			c := genRemote(r, pf)
			if r.pct(12) {
				c.Args = append(c.Args, "-force_local_module")
			}
			if r.pct(15) {
				bad := pick(r, []string{"none.example/x", "none.example/x/...", c.Prog.Mods[0].Path + "/nosuch", "./here", "nosuchstd"})
				c.Query = append(c.Query, bad)
				shuffle(r, c.Query)
			}
			if r.pct(15) {
				c.Args = append(c.Args, "-v="+pick(r, []string{"1", "2"}))
			}
			c.Mode = pick(r, []string{"json", "json", "json", "compare"})
			return c
		},
		judge: func(j *judgeCtx, c *Case) {
			w := render(c.Prog)
			q, _, ok := remoteRequest(c, w)
			if len(c.Query) == 0 {
				return
			}
			args := append([]string{}, c.Args...)
			args = append(args, c.pkgsArg())
			if c.Prog.Custom {
				args = append(args, "-capability_map=map.cm")
				if c.Prog.NoBltin {
					args = append(args, "-disable_builtin")
				}
			}
			for _, a := range c.Args {
				if a == "-force_local_module" {
					ok = false
				}
			}
			s := remoteScenario("P16", c, w, append(args, "-output=json")...)
			c.apply(s)
			res := j.run(s)
			j.show(s, res)
			if res.Cwd != "/work" && res.Code != 2 {
				fail("directory", "ended in directory "+res.Cwd)
			}
			if !ok {
				if res.Stdout != "" {
					fail("report", fmt.Sprintf("packages cannot be obtained, but the output is %q", tail(res.Stdout, 300)))
				}
				wantExit(res, 2)
				j.r.probe("not obtainable or disabled", 1)
				return
			}
			if len(q) == 0 {
				return
			}
			wantExit(res, 0)
			findings(w, q, res.Stdout)
			j.r.probe("retry in a temporary module", 1)
			j.nontrivial(fmt.Sprint(c.S, c.Query, len(c.Prog.Mods), hashString(res.Stdout)))
			if c.Mode == "compare" {
				s := remoteScenario("P16", c, w, append(args, "-output=compare", "base.json")...)
				s.Files = append(s.Files, scn.File{Path: "/work/base.json", Data: res.Stdout})
				c.apply(s)
				res := j.run(s)
				j.show(s, res)
				wantExit(res, 0)
				if res.Stdout != "" {
					fail("compare", "differs from its own report: "+tail(res.Stdout, 300))
				}
			}
		},
	}
}
