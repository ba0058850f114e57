// Package stubs holds the simulated child programs: go, git and capslock.
// They are models of the real programs, computed from the simulated file
// system only.
package stubs

import (
	"encoding/json"
	"go/build/constraint"
	"go/parser"
	"go/token"
	"maps"
	"path"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/google/capslock/internal/verifsim/kernel"
)

const (
	goRoot   = "/goroot"
	modCache = "/gomodcache"
	goProxy  = "/goproxy"
)

func init() {
	kernel.Programs["go"] = goMain
}

type module struct {
	path, version, dir string
	main, indirect     bool
	gover              string
	broken             string
	replaced           string // as written in go.mod
}

type goCtx struct {
	p          *kernel.Proc
	mods       []*module // main modules first
	goos, arch string
	tags       map[string]bool
	cgo        bool
	modfile    string
	noMod      bool
	workErr    string
	order      []*listPkg
	byPath     map[string]*listPkg
	building   map[string]bool
	stdOnly    map[string]bool
}

type listModule struct {
	Path      string       `json:",omitempty"`
	Version   string       `json:",omitempty"`
	Main      bool         `json:",omitempty"`
	Indirect  bool         `json:",omitempty"`
	Dir       string       `json:",omitempty"`
	GoMod     string       `json:",omitempty"`
	GoVersion string       `json:",omitempty"`
	Replace   *listModule  `json:",omitempty"`
	Error     *moduleError `json:",omitempty"`
}

type moduleError struct{ Err string }

type listError struct {
	ImportStack []string
	Pos         string
	Err         string
}

type listPkg struct {
	Dir               string            `json:",omitempty"`
	ImportPath        string            `json:",omitempty"`
	Name              string            `json:",omitempty"`
	Root              string            `json:",omitempty"`
	Standard          bool              `json:",omitempty"`
	Goroot            bool              `json:",omitempty"`
	DepOnly           bool              `json:",omitempty"`
	Incomplete        bool              `json:",omitempty"`
	Module            *listModule       `json:",omitempty"`
	GoFiles           []string          `json:",omitempty"`
	CgoFiles          []string          `json:",omitempty"`
	CompiledGoFiles   []string          `json:",omitempty"`
	IgnoredGoFiles    []string          `json:",omitempty"`
	IgnoredOtherFiles []string          `json:",omitempty"`
	CFiles            []string          `json:",omitempty"`
	HFiles            []string          `json:",omitempty"`
	SFiles            []string          `json:",omitempty"`
	TestGoFiles       []string          `json:",omitempty"`
	XTestGoFiles      []string          `json:",omitempty"`
	ForTest           string            `json:",omitempty"`
	Imports           []string          `json:",omitempty"`
	ImportMap         map[string]string `json:",omitempty"`
	Deps              []string          `json:",omitempty"`
	Error             *listError        `json:",omitempty"`
	DepsErrors        []*listError      `json:",omitempty"`

	deps map[string]bool
}

func goMain(p *kernel.Proc) {
	args := p.Args[1:]
	if len(args) == 0 {
		p.Print(2, "Go is a tool for managing Go source code.\n")
		p.Exit(2)
	}
	if d, ok := strings.CutPrefix(args[0], "-C"); ok {
		rest := args[1:]
		d = strings.TrimPrefix(d, "=")
		if d == "" {
			d, rest = rest[0], rest[1:]
		}
		if e := p.Chdir(d); e != 0 {
			p.Print(2, "go: chdir "+d+": "+e.Error()+"\n")
			p.Exit(1)
		}
		args = rest
	}
	switch args[0] {
	case "version":
		p.Print(1, "go version go1.23.12 linux/amd64\n")
		p.Exit(0)
	case "env":
		goEnv(p, args[1:])
	case "list":
		goList(p, args[1:])
	case "mod":
		goMod(p, args[1:])
	case "get":
		goGet(p, args[1:])
	default:
		p.Unknown("go " + strings.Join(args, " "))
		p.Print(2, "go "+args[0]+": unknown command\n")
		p.Exit(2)
	}
}

func fail(p *kernel.Proc, s string) {
	p.Print(2, "go: "+s+"\n")
	p.Exit(1)
}

func goEnv(p *kernel.Proc, args []string) {
	asJSON := false
	var names []string
	for _, a := range args {
		if a == "-json" {
			asJSON = true
		} else if strings.HasPrefix(a, "-") {
			p.Unknown("go env " + a)
			p.Exit(2)
		} else {
			names = append(names, a)
		}
	}
	mod, _ := findUp(p, p.Cwd(), "go.mod")
	if mod == "" {
		mod = "/dev/null"
	}
	work := ""
	if w := p.Env("GOWORK"); w != "off" {
		work, _ = findUp(p, p.Cwd(), "go.work")
	}
	def := func(name, d string) string {
		if v := p.Env(name); v != "" {
			return v
		}
		return d
	}
	vals := map[string]string{"GOMOD": mod, "GOPATH": def("GOPATH", "/gopath"), "GOROOT": goRoot, "GOOS": def("GOOS", "linux"),
		"GOARCH": def("GOARCH", "amd64"), "GOVERSION": "go1.23.12", "GOMODCACHE": modCache, "GOFLAGS": p.Env("GOFLAGS"),
		"GO111MODULE": p.Env("GO111MODULE"), "GOWORK": work, "CGO_ENABLED": def("CGO_ENABLED", "1"), "GOPROXY": "simulated",
		"GOEXPERIMENT": "", "GOTOOLDIR": goRoot + "/pkg/tool", "GOHOSTOS": "linux", "GOHOSTARCH": "amd64", "GOCACHE": "/gocache"}
	if asJSON {
		m := map[string]string{}
		for _, n := range names {
			m[n] = vals[n]
		}
		if len(names) == 0 {
			m = vals
		}
		b, _ := json.MarshalIndent(m, "", "\t")
		p.Print(1, string(b)+"\n")
	} else {
		for _, n := range names {
			p.Print(1, vals[n]+"\n")
		}
	}
	p.Exit(0)
}

// findUp looks for a file in dir and its parents.
func findUp(p *kernel.Proc, dir, name string) (file, in string) {
	for {
		f := path.Join(dir, name)
		if p.Exists(f) && !p.IsDir(f) {
			return f, dir
		}
		if dir == "/" || dir == "" {
			return "", ""
		}
		dir = path.Dir(dir)
	}
}

type modFile struct {
	path     string
	gover    string
	requires [][2]string
	replaces map[string]string
	direct   map[string]bool
	bad      string
}

func parseMod(data string) *modFile {
	m := &modFile{replaces: map[string]string{}, direct: map[string]bool{}}
	block := ""
	for _, line := range strings.Split(data, "\n") {
		indirect := false
		if i := strings.Index(line, "//"); i >= 0 {
			indirect = strings.HasPrefix(strings.TrimSpace(line[i+2:]), "indirect")
			line = line[:i]
		}
		f := strings.Fields(line)
		if len(f) == 0 {
			continue
		}
		if block != "" {
			if f[0] == ")" {
				block = ""
				continue
			}
			f = append([]string{block}, f...)
		} else if len(f) == 2 && f[1] == "(" {
			block = f[0]
			continue
		}
		switch f[0] {
		case "module":
			if len(f) == 2 {
				m.path = strings.Trim(f[1], `"`)
			}
		case "go":
			m.gover = f[1]
		case "require":
			if len(f) >= 3 {
				m.requires = append(m.requires, [2]string{f[1], f[2]})
				if !indirect {
					m.direct[f[1]] = true
				}
			} else {
				m.bad = "usage: require module/path v1.2.3"
			}
		case "replace":
			for i := range f {
				if f[i] == "=>" && i+1 < len(f) {
					m.replaces[f[1]] = f[i+1]
				}
			}
		case "toolchain", "exclude", "retract", "godebug", "use":
		default:
			m.bad = "unknown directive: " + f[0]
		}
	}
	if m.path == "" {
		m.bad = "no module declaration in go.mod"
	}
	return m
}

func versionLess(a, b string) bool {
	pa := strings.Split(strings.TrimPrefix(a, "v"), ".")
	pb := strings.Split(strings.TrimPrefix(b, "v"), ".")
	for i := 0; i < len(pa) && i < len(pb); i++ {
		x, _ := strconv.Atoi(pa[i])
		y, _ := strconv.Atoi(pb[i])
		if x != y {
			return x < y
		}
	}
	return len(pa) < len(pb)
}

func readMod(p *kernel.Proc, file string) (*modFile, string) {
	b, e := p.ReadFile(file)
	if e != 0 {
		return nil, "reading " + file + ": " + e.Error()
	}
	m := parseMod(string(b))
	if m.bad != "" {
		return nil, "errors parsing " + file + ":\n" + m.bad
	}
	return m, ""
}

func newCtx(p *kernel.Proc, tags string) *goCtx {
	c := &goCtx{p: p, goos: "linux", arch: "amd64", cgo: true, tags: map[string]bool{}, byPath: map[string]*listPkg{}, building: map[string]bool{}}
	if v := p.Env("GOOS"); v != "" {
		c.goos = v
	}
	if v := p.Env("GOARCH"); v != "" {
		c.arch = v
	}
	if !knownOS[c.goos] || !knownArch[c.arch] {
		p.Print(2, "go: unsupported GOOS/GOARCH pair "+c.goos+"/"+c.arch+"\n")
		p.Exit(2)
	}
	if v := p.Env("CGO_ENABLED"); v == "0" || (v == "" && (c.goos != "linux" || c.arch != "amd64")) {
		c.cgo = false
	}
	for _, f := range strings.Fields(p.Env("GOFLAGS")) {
		if t, ok := strings.CutPrefix(f, "-tags="); ok && tags == "" {
			tags = t
		}
	}
	for _, t := range strings.FieldsFunc(tags, func(r rune) bool { return r == ',' || r == ' ' }) {
		c.tags[t] = true
	}
	var mains []string
	if w := p.Env("GOWORK"); w != "off" {
		wf := w
		if wf == "" {
			wf, _ = findUp(p, p.Cwd(), "go.work")
		}
		if wf != "" {
			b, e := p.ReadFile(wf)
			if e != 0 {
				fail(p, "reading go.work: "+e.Error())
			}
			for _, line := range strings.Split(string(b), "\n") {
				f := strings.Fields(line)
				if len(f) == 2 && f[0] == "use" {
					mains = append(mains, path.Join(path.Dir(wf), f[1]))
				}
			}
		}
	}
	if mains == nil {
		mf, dir := findUp(p, p.Cwd(), "go.mod")
		if mf == "" {
			c.noMod = true
			return c
		}
		c.modfile = mf
		mains = []string{dir}
	}
	reqs := map[string]string{}
	replaced, written := map[string]string{}, map[string]string{}
	govers, direct := map[string]string{}, map[string]bool{}
	var work [][2]string
	for _, d := range mains {
		m, bad := readMod(p, path.Join(d, "go.mod"))
		if bad != "" {
			fail(p, bad)
		}
		c.mods = append(c.mods, &module{path: m.path, dir: d, main: true, gover: m.gover})
		work = append(work, m.requires...)
		maps.Copy(direct, m.direct)
		for k, v := range m.replaces {
			written[k] = v
			if !path.IsAbs(v) {
				v = path.Join(d, v)
			}
			replaced[k] = v
		}
	}
	for len(work) > 0 {
		r := work[0]
		work = work[1:]
		if old, ok := reqs[r[0]]; ok && !versionLess(old, r[1]) {
			continue
		}
		reqs[r[0]] = r[1]
		dir := modCache + "/" + r[0] + "@" + r[1]
		if d, ok := replaced[r[0]]; ok {
			dir = d
		} else if !p.IsDir(dir) {
			if p.IsDir(goProxy + "/" + r[0] + "@" + r[1]) {
				if s := download(p, r[0]+"@"+r[1], dir); s != "" {
					fail(p, r[0]+"@"+r[1]+": "+s)
				}
			} else {
				continue
			}
		}
		if !p.Exists(dir + "/go.mod") {
			continue
		}
		m, bad := readMod(p, dir+"/go.mod")
		if bad != "" {
			fail(p, r[0]+"@"+r[1]+": "+bad)
		}
		work = append(work, m.requires...)
		govers[r[0]] = m.gover
	}
	var paths []string
	for m := range reqs {
		paths = append(paths, m)
	}
	sort.Strings(paths)
	for _, m := range paths {
		if c.mods[0].path == m {
			continue
		}
		mod := &module{path: m, version: reqs[m], dir: modCache + "/" + m + "@" + reqs[m], gover: "1.21", indirect: !direct[m]}
		if d, ok := replaced[m]; ok {
			mod.dir, mod.replaced = d, written[m]
		}
		if gv, ok := govers[m]; ok {
			mod.gover = gv
		}
		// A scenario marks a module that fails verification this way.
		if b, e := p.ReadFile(mod.dir + ".broken"); e == 0 {
			mod.broken = string(b)
		}
		c.mods = append(c.mods, mod)
	}
	return c
}

var knownOS = map[string]bool{"linux": true, "windows": true, "darwin": true, "plan9": true, "freebsd": true, "openbsd": true, "js": true, "android": true, "netbsd": true, "wasip1": true, "ios": true, "solaris": true, "aix": true, "dragonfly": true, "illumos": true}
var knownArch = map[string]bool{"amd64": true, "386": true, "arm": true, "arm64": true, "wasm": true, "riscv64": true, "ppc64le": true, "s390x": true, "mips": true, "mipsle": true, "mips64": true, "mips64le": true, "ppc64": true, "loong64": true}

func (c *goCtx) tagOK(t string) bool {
	if t == c.goos || t == c.arch || c.tags[t] || t == "gc" {
		return true
	}
	if t == "cgo" {
		return c.cgo
	}
	if t == "unix" {
		return c.goos != "windows" && c.goos != "plan9" && c.goos != "js" && c.goos != "wasip1"
	}
	if t == "linux" && c.goos == "android" || t == "darwin" && c.goos == "ios" || t == "solaris" && c.goos == "illumos" {
		return true
	}
	if n, ok := strings.CutPrefix(t, "go1."); ok {
		v, err := strconv.Atoi(n)
		return err == nil && v <= 23
	}
	return false
}

func (c *goCtx) nameOK(name string) bool {
	name = name[:len(name)-len(path.Ext(name))]
	i := strings.Index(name, "_")
	if i < 0 {
		return true
	}
	l := strings.Split(name[i:], "_")
	if n := len(l); n > 0 && l[n-1] == "test" {
		l = l[:n-1]
	}
	n := len(l)
	if n >= 2 && knownOS[l[n-2]] && knownArch[l[n-1]] {
		return c.tagOK(l[n-1]) && c.tagOK(l[n-2])
	}
	if n >= 1 && (knownOS[l[n-1]] || knownArch[l[n-1]]) {
		return c.tagOK(l[n-1])
	}
	return true
}

func (c *goCtx) headerOK(src string) bool {
	for _, line := range strings.Split(src, "\n") {
		t := strings.TrimSpace(line)
		if t == "" || strings.HasPrefix(t, "//") {
			if constraint.IsGoBuild(t) {
				x, err := constraint.Parse(t)
				if err != nil {
					return false
				}
				return x.Eval(c.tagOK)
			}
			continue
		}
		break
	}
	return true
}

// resolve finds the directory for an import path.
func (c *goCtx) resolve(imp string) (dir string, m *module, std bool, why string) {
	if c.p.IsDir(goRoot+"/src/"+imp) && !strings.Contains(strings.SplitN(imp, "/", 2)[0], ".") {
		return goRoot + "/src/" + imp, nil, true, ""
	}
	var best *module
	for _, mod := range c.mods {
		if imp == mod.path || strings.HasPrefix(imp, mod.path+"/") {
			if best == nil || len(mod.path) > len(best.path) {
				d := path.Join(mod.dir, strings.TrimPrefix(imp, mod.path))
				if c.p.IsDir(d) {
					best = mod
				}
			}
		}
	}
	if best != nil {
		return path.Join(best.dir, strings.TrimPrefix(imp, best.path)), best, false, ""
	}
	if !strings.Contains(strings.SplitN(imp, "/", 2)[0], ".") {
		return "", nil, false, "package " + imp + " is not in std (" + goRoot + "/src/" + imp + ")"
	}
	if c.noMod {
		return "", nil, false, "no required module provides package " + imp + ": go.mod file not found in current directory or any parent directory; see 'go help modules'"
	}
	for _, mod := range c.mods {
		if imp == mod.path || strings.HasPrefix(imp, mod.path+"/") {
			if mod.main {
				return "", nil, false, "no required module provides package " + imp + "; to add it:\n\tgo get " + imp
			}
			return "", nil, false, "module " + mod.path + "@" + mod.version + " found, but does not contain package " + imp
		}
	}
	return "", nil, false, "no required module provides package " + imp + "; to add it:\n\tgo get " + imp
}

func (c *goCtx) modInfo(m *module) *listModule {
	if m == nil {
		return nil
	}
	lm := &listModule{Path: m.path, Version: m.version, Main: m.main, Indirect: m.indirect, Dir: m.dir, GoMod: path.Join(m.dir, "go.mod"), GoVersion: m.gover}
	if m.replaced != "" {
		lm.Replace = &listModule{Path: m.replaced, Dir: m.dir, GoMod: lm.GoMod, GoVersion: m.gover}
	}
	if m.broken != "" {
		lm.Error = &moduleError{m.broken}
	}
	return lm
}

// load loads a package and, depth first, its dependencies.
func (c *goCtx) load(imp, pos string, stack []string, depsWanted bool) *listPkg {
	if lp, ok := c.byPath[imp]; ok {
		if c.building[imp] {
			lp.Error = &listError{ImportStack: append(append([]string(nil), stack...), imp), Pos: pos, Err: "import cycle not allowed"}
			lp.Incomplete = true
		}
		return lp
	}
	if imp == "unsafe" {
		lp := &listPkg{Dir: goRoot + "/src/unsafe", ImportPath: "unsafe", Name: "unsafe", Standard: true, Goroot: true, Root: goRoot, GoFiles: []string{"unsafe.go"}, CompiledGoFiles: []string{"unsafe.go"}}
		c.byPath[imp] = lp
		c.order = append(c.order, lp)
		return lp
	}
	dir, m, std, why := c.resolve(imp)
	if why != "" {
		lp := &listPkg{ImportPath: imp, Incomplete: true, Error: &listError{ImportStack: stack, Pos: pos, Err: why}}
		c.byPath[imp] = lp
		c.order = append(c.order, lp)
		return lp
	}
	lp := &listPkg{Dir: dir, ImportPath: imp, Module: c.modInfo(m), Standard: std, Goroot: std}
	if std {
		lp.Root = goRoot
	} else if m != nil {
		lp.Root = m.dir
	}
	c.byPath[imp] = lp
	c.fill(lp, nil, stack, depsWanted)
	return lp
}

func (c *goCtx) fill(lp *listPkg, only []string, stack []string, depsWanted bool) {
	c.building[lp.ImportPath] = true
	names, dirs, e := c.p.List(lp.Dir)
	if e != 0 {
		lp.Error = &listError{ImportStack: stack, Err: "open " + lp.Dir + ": " + e.Error()}
		lp.Incomplete = true
	}
	if only != nil {
		names = only
	}
	imports := map[string]string{}
	fset := token.NewFileSet()
	usesCgo := false
	for _, n := range names {
		if dirs[n] || strings.HasPrefix(n, "_") || strings.HasPrefix(n, ".") {
			continue
		}
		ext := path.Ext(n)
		switch ext {
		case ".go", ".s", ".c", ".h":
		default:
			continue
		}
		b, e := c.p.ReadFile(path.Join(lp.Dir, n))
		if e != 0 {
			lp.Error = &listError{ImportStack: stack, Err: "open " + path.Join(lp.Dir, n) + ": " + e.Error()}
			lp.Incomplete = true
			continue
		}
		src := string(b)
		if !c.nameOK(n) || !c.headerOK(src) {
			if ext == ".go" {
				lp.IgnoredGoFiles = append(lp.IgnoredGoFiles, n)
			} else {
				lp.IgnoredOtherFiles = append(lp.IgnoredOtherFiles, n)
			}
			continue
		}
		if strings.HasSuffix(n, "_test.go") && lp.ForTest == "" {
			if f, _ := parser.ParseFile(fset, n, src, parser.PackageClauseOnly); f != nil && f.Name != nil && strings.HasSuffix(f.Name.Name, "_test") {
				lp.XTestGoFiles = append(lp.XTestGoFiles, n)
			} else {
				lp.TestGoFiles = append(lp.TestGoFiles, n)
			}
			continue
		}
		switch ext {
		case ".s":
			lp.SFiles = append(lp.SFiles, n)
			continue
		case ".c":
			lp.CFiles = append(lp.CFiles, n)
			continue
		case ".h":
			lp.HFiles = append(lp.HFiles, n)
			continue
		}
		f, err := parser.ParseFile(fset, path.Join(lp.Dir, n), src, parser.ImportsOnly)
		if f == nil || f.Name == nil {
			lp.GoFiles = append(lp.GoFiles, n)
			if err != nil && lp.Error == nil {
				lp.Error = &listError{ImportStack: stack, Pos: path.Join(lp.Dir, n) + ":1:1", Err: err.Error()}
				lp.Incomplete = true
			}
			continue
		}
		isCgo := false
		for _, im := range f.Imports {
			s, _ := strconv.Unquote(im.Path.Value)
			if s == "C" {
				isCgo = true
			}
		}
		if isCgo && !c.cgo {
			lp.IgnoredGoFiles = append(lp.IgnoredGoFiles, n)
			continue
		}
		if err != nil && lp.Error == nil {
			lp.Error = &listError{ImportStack: stack, Pos: path.Join(lp.Dir, n) + ":1:1", Err: err.Error()}
			lp.Incomplete = true
		}
		if lp.Name == "" || f.Name.Name != "documentation" {
			if lp.Name != "" && lp.Name != f.Name.Name && lp.Error == nil {
				lp.Error = &listError{ImportStack: stack, Pos: path.Join(lp.Dir, n) + ":1:1",
					Err: "found packages " + lp.Name + " and " + f.Name.Name + " in " + lp.Dir}
				lp.Incomplete = true
			}
			lp.Name = f.Name.Name
		}
		for _, im := range f.Imports {
			s, _ := strconv.Unquote(im.Path.Value)
			if s != "C" {
				if _, ok := imports[s]; !ok {
					imports[s] = fset.Position(im.Pos()).String()
				}
			}
		}
		if isCgo {
			usesCgo = true
			lp.CgoFiles = append(lp.CgoFiles, n)
		} else {
			lp.GoFiles = append(lp.GoFiles, n)
		}
	}
	if len(lp.GoFiles)+len(lp.CgoFiles) == 0 && lp.Error == nil {
		why := "no Go files in " + lp.Dir
		if len(lp.IgnoredGoFiles) > 0 {
			why = "build constraints exclude all Go files in " + lp.Dir
		} else if len(lp.TestGoFiles)+len(lp.XTestGoFiles) > 0 {
			why = "no non-test Go files in " + lp.Dir
		}
		lp.Error = &listError{ImportStack: stack, Err: why}
		lp.Incomplete = true
	}
	lp.CompiledGoFiles = append(lp.CompiledGoFiles, lp.GoFiles...)
	if usesCgo {
		// The files the cgo tool would produce are part of the scenario.
		gen := "/gocache/cgo/" + strings.Fields(lp.ImportPath)[0]
		lp.CompiledGoFiles = append([]string{gen + "/_cgo_gotypes.go"}, lp.CompiledGoFiles...)
		for _, n := range lp.CgoFiles {
			lp.CompiledGoFiles = append(lp.CompiledGoFiles, gen+"/"+strings.TrimSuffix(n, ".go")+".cgo1.go")
		}
		for _, s := range []string{"unsafe", "syscall", "runtime/cgo"} {
			if c.p.IsDir(goRoot+"/src/"+s) || s == "unsafe" {
				if _, ok := imports[s]; !ok {
					imports[s] = ""
				}
			}
		}
	}
	var list []string
	for s, pos := range maps.Clone(imports) {
		// The standard library vendors some packages.
		if lp.Standard && c.p.IsDir(goRoot+"/src/vendor/"+s) {
			if lp.ImportMap == nil {
				lp.ImportMap = map[string]string{}
			}
			lp.ImportMap[s] = "vendor/" + s
			delete(imports, s)
			s = "vendor/" + s
			imports[s] = pos
		}
		// An external test imports the package with its tests.
		if v := s + " [" + s + ".test]"; s == lp.ForTest && lp.ImportPath != v && c.byPath[v] != nil {
			lp.ImportMap = map[string]string{s: v}
			delete(imports, s)
			imports[v] = pos
		}
	}
	for s := range imports {
		list = append(list, s)
	}
	sort.Strings(list)
	lp.Imports = list
	lp.deps = map[string]bool{}
	if depsWanted {
		st := append(append([]string(nil), stack...), lp.ImportPath)
		for _, s := range list {
			d := c.load(s, imports[s], st, true)
			lp.deps[s] = true
			for k := range d.deps {
				lp.deps[k] = true
			}
			if d.Incomplete {
				lp.Incomplete = true
			}
		}
		for k := range lp.deps {
			lp.Deps = append(lp.Deps, k)
		}
		sort.Strings(lp.Deps)
	}
	c.building[lp.ImportPath] = false
	c.order = append(c.order, lp)
}

// dirsUnder lists the directories holding Go files below root.
func (c *goCtx) dirsUnder(root string, sub bool) []string {
	var out []string
	var rec func(d string, top bool)
	rec = func(d string, top bool) {
		names, dirs, e := c.p.List(d)
		if e != 0 && (!top || e != syscall.ENOENT) {
			fail(c.p, "pattern: open "+d+": "+e.Error())
		}
		if !top && sub {
			for _, n := range names {
				if n == "go.mod" {
					return
				}
			}
		}
		has := false
		for _, n := range names {
			if !dirs[n] && strings.HasSuffix(n, ".go") && !strings.HasPrefix(n, "_") && !strings.HasPrefix(n, ".") {
				has = true
			}
		}
		if has {
			out = append(out, d)
		}
		for _, n := range names {
			if dirs[n] && !strings.HasPrefix(n, ".") && !strings.HasPrefix(n, "_") && n != "testdata" && !(sub && n == "vendor") {
				rec(d+"/"+n, false)
			}
		}
	}
	rec(root, true)
	return out
}

// usable reports whether a wildcard match has files left after constraints.
func (c *goCtx) usable(d string) bool {
	names, dirs, e := c.p.List(d)
	if e != 0 {
		fail(c.p, "open "+d+": "+e.Error())
	}
	for _, n := range names {
		if dirs[n] || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		b, e := c.p.ReadFile(path.Join(d, n))
		if e != 0 || (c.nameOK(n) && c.headerOK(string(b))) {
			return true
		}
	}
	return false
}

func matchWild(pat, s string) bool {
	pre, ok := strings.CutSuffix(pat, "/...")
	if ok && !strings.Contains(pre, "...") {
		return s == pre || strings.HasPrefix(s, pre+"/")
	}
	parts := strings.Split(pat, "...")
	if !strings.HasPrefix(s, parts[0]) {
		return false
	}
	s = s[len(parts[0]):]
	for i, q := range parts[1:] {
		if i == len(parts)-2 {
			return strings.HasSuffix(s, q)
		}
		j := strings.Index(s, q)
		if j < 0 {
			return false
		}
		s = s[j+len(q):]
	}
	return s == ""
}

// importPathOf maps a directory to an import path.
func (c *goCtx) importPathOf(dir string) (string, string) {
	if r, ok := strings.CutPrefix(dir, goRoot+"/src/"); ok {
		return r, ""
	}
	best := ""
	ok := false
	for _, m := range c.mods {
		if dir == m.dir {
			return m.path, ""
		}
		if r, in := strings.CutPrefix(dir, m.dir+"/"); in {
			if !ok || len(m.path+"/"+r) < len(best) {
				best, ok = m.path+"/"+r, true
			}
		}
	}
	if ok {
		return best, ""
	}
	if c.noMod {
		return "", "go.mod file not found in current directory or any parent directory; see 'go help modules'"
	}
	return "", "directory " + dir + " outside main module or its selected dependencies"
}

func goList(p *kernel.Proc, args []string) {
	var (
		pats                     []string
		tags, format             string
		asJSON, deps, find, errs bool
		listM, tests             bool
	)
	for i := 0; i < len(args); i++ {
		a := args[i]
		if a == "--" {
			pats = append(pats, args[i+1:]...)
			break
		}
		if !strings.HasPrefix(a, "-") {
			pats = append(pats, a)
			continue
		}
		name, val, has := strings.Cut(strings.TrimLeft(a, "-"), "=")
		on := !has || val == "true" || val == "t" || val == "1"
		switch name {
		case "e":
			errs = on
		case "json":
			asJSON = true
		case "deps":
			deps = on
		case "find":
			find = on
		case "compiled", "test", "export", "pgo", "mod", "modfile", "overlay", "buildvcs", "trimpath", "buildmode":
			if name == "test" {
				tests = on
			}
		case "tags":
			if !has {
				i++
				val = args[i]
			}
			tags = val
		case "f":
			if !has {
				i++
				val = args[i]
			}
			format = val
		case "m":
			listM = true
		case "C":
			i++
		default:
			p.Unknown("go list " + a)
			p.Exit(2)
		}
	}
	if format != "" && !listM {
		rep := strings.NewReplacer("{{context.ReleaseTags}}", "[go1.1 go1.2 go1.3 go1.4 go1.5 go1.6 go1.7 go1.8 go1.9 go1.10 go1.11 go1.12 go1.13 go1.14 go1.15 go1.16 go1.17 go1.18 go1.19 go1.20 go1.21 go1.22 go1.23]",
			"{{context.GOARCH}}", func() string {
				if a := p.Env("GOARCH"); a != "" {
					return a
				}
				return "amd64"
			}(), "{{context.Compiler}}", "gc")
		if strings.Contains(format, "{{context.") {
			p.Print(1, rep.Replace(format)+"\n")
			p.Exit(0)
		}
	}
	c := newCtx(p, tags)
	if listM {
		m := ""
		if len(c.mods) > 0 {
			m = c.mods[0].path
		}
		p.Print(1, m+"\n")
		p.Exit(0)
	}
	if len(pats) == 0 {
		pats = []string{"."}
	}
	roots := map[string]bool{}
	var rootList []string
	add := func(imp string) {
		if !roots[imp] {
			roots[imp] = true
			rootList = append(rootList, imp)
		}
	}
	bad := map[string]string{}
	var cmdline *listPkg
	var gofiles []string
	for _, pat := range pats {
		switch {
		case pat == "":
			bad[""] = `malformed import path "": empty string`
			add("")
		case pat == "std":
			for _, d := range c.dirsUnder(goRoot+"/src", false) {
				if c.usable(d) {
					add(strings.TrimPrefix(d, goRoot+"/src/"))
				}
			}
			add("unsafe")
		case strings.HasSuffix(pat, ".go"):
			gofiles = append(gofiles, pat)
		case strings.HasPrefix(pat, ".") || strings.HasPrefix(pat, "/"):
			dir, wild := pat, false
			if d, ok := strings.CutSuffix(pat, "/..."); ok {
				dir, wild = d, true
			} else if pat == "..." {
				dir, wild = ".", true
			}
			abs := dir
			if !path.IsAbs(abs) {
				abs = path.Join(p.Cwd(), dir)
			}
			abs = path.Clean(abs)
			if !wild {
				imp, why := c.importPathOf(abs)
				if why == "" && !p.IsDir(abs) {
					why = "stat " + abs + ": directory not found"
				}
				if why != "" {
					if c.noMod && !errs {
						fail(p, why)
					}
					bad[pat] = why
					add(pat)
					continue
				}
				add(imp)
				continue
			}
			if c.noMod {
				p.Print(2, "pattern "+pat+": directory prefix "+dir+" does not contain main module or its selected dependencies\n")
				p.Exit(1)
			}
			n := 0
			inMod := false
			for _, m := range c.mods {
				if abs == m.dir || strings.HasPrefix(abs, m.dir+"/") || strings.HasPrefix(m.dir, abs+"/") {
					inMod = true
				}
			}
			if !inMod {
				p.Print(2, "pattern "+pat+": directory prefix "+dir+" does not contain main module or its selected dependencies\n")
				p.Exit(1)
			}
			for _, d := range c.dirsUnder(abs, true) {
				imp, why := c.importPathOf(d)
				if why == "" && c.usable(d) {
					add(imp)
					n++
				}
			}
			if n == 0 {
				p.Print(2, "go: warning: \""+pat+"\" matched no packages\n")
			}
		case strings.Contains(pat, "..."):
			n := 0
			for _, m := range c.mods {
				pre := strings.SplitN(pat, "...", 2)[0]
				if !strings.HasPrefix(m.path, strings.TrimSuffix(pre, "/")) && !strings.HasPrefix(pre, m.path) {
					continue
				}
				for _, d := range c.dirsUnder(m.dir, true) {
					imp := m.path + strings.TrimPrefix(d, m.dir)
					if matchWild(pat, imp) && c.usable(d) {
						add(imp)
						n++
					}
				}
			}
			if !strings.Contains(strings.SplitN(pat, "/", 2)[0], ".") {
				for _, d := range c.dirsUnder(goRoot+"/src", false) {
					if imp := strings.TrimPrefix(d, goRoot+"/src/"); matchWild(pat, imp) && c.usable(d) {
						add(imp)
						n++
					}
				}
			}
			if n == 0 {
				p.Print(2, "go: warning: \""+pat+"\" matched no packages\n")
			}
		default:
			add(path.Clean(pat))
		}
	}
	if gofiles != nil {
		dir := path.Join(p.Cwd(), path.Dir(gofiles[0]))
		if path.IsAbs(gofiles[0]) {
			dir = path.Dir(gofiles[0])
		}
		var base []string
		for _, f := range gofiles {
			if !p.Exists(f) {
				p.Print(2, "no required module provides package "+f+"; to add it:\n\tgo get "+f+"\n")
				p.Exit(1)
			}
			base = append(base, path.Base(f))
		}
		cmdline = &listPkg{ImportPath: "command-line-arguments", Dir: dir}
		c.byPath[cmdline.ImportPath] = cmdline
		c.fill(cmdline, base, nil, deps)
		add(cmdline.ImportPath)
	}
	for _, r := range rootList {
		if why := bad[r]; why != "" {
			lp := &listPkg{ImportPath: r, Incomplete: true, Error: &listError{Err: why}}
			c.byPath[r] = lp
			c.order = append(c.order, lp)
			continue
		}
		c.load(r, "", nil, deps && !find)
	}
	if tests {
		// The packages with their tests, without the generated main packages.
		for _, r := range rootList {
			lp := c.byPath[r]
			if lp.Error != nil && len(lp.TestGoFiles)+len(lp.XTestGoFiles) == 0 {
				continue
			}
			variant := func(name string, files []string) {
				v := &listPkg{ImportPath: name + " [" + r + ".test]", ForTest: r, Dir: lp.Dir, Module: lp.Module, Standard: lp.Standard, Goroot: lp.Goroot, Root: lp.Root}
				c.byPath[v.ImportPath] = v
				roots[v.ImportPath] = true
				c.fill(v, files, nil, deps && !find)
			}
			if len(lp.TestGoFiles) > 0 {
				var l []string
				for _, f := range [][]string{lp.GoFiles, lp.CgoFiles, lp.SFiles, lp.CFiles, lp.HFiles, lp.TestGoFiles} {
					l = append(l, f...)
				}
				variant(r, l)
			}
			if len(lp.XTestGoFiles) > 0 {
				variant(r+"_test", lp.XTestGoFiles)
			}
		}
	}
	if !asJSON {
		for _, lp := range c.order {
			if !roots[lp.ImportPath] && !deps {
				continue
			}
			if lp.Error != nil && !errs {
				fail(p, lp.Error.Err)
			}
			switch format {
			case "", "{{.ImportPath}}":
				p.Print(1, lp.ImportPath+"\n")
			case "{{.Dir}}":
				p.Print(1, lp.Dir+"\n")
			default:
				p.Unknown("go list -f " + format)
			}
		}
		p.Exit(0)
	}
	var out strings.Builder
	p.Permute(len(c.order), func(i, j int) { c.order[i], c.order[j] = c.order[j], c.order[i] })
	for _, lp := range c.order {
		lp.DepOnly = !roots[lp.ImportPath]
		if lp.DepOnly && !deps {
			continue
		}
		if lp.Error != nil && !errs {
			fail(p, lp.Error.Err)
		}
		q := *lp
		if find {
			q.Imports, q.Deps = nil, nil
		}
		b, _ := json.MarshalIndent(&q, "", "\t")
		out.Write(b)
		out.WriteByte('\n')
	}
	p.Print(1, out.String())
	p.Exit(0)
}

func goMod(p *kernel.Proc, args []string) {
	switch {
	case len(args) >= 2 && args[0] == "init":
		if p.Exists("go.mod") {
			fail(p, p.Cwd()+"/go.mod already exists")
		}
		if e := p.WriteFile("go.mod", []byte("module "+args[1]+"\n\ngo 1.23\n"), 0o644); e != 0 {
			fail(p, "writing go.mod: "+e.Error())
		}
		p.Print(2, "go: creating new go.mod: module "+args[1]+"\n")
		p.Exit(0)
	case len(args) >= 1 && (args[0] == "tidy" || args[0] == "download" || args[0] == "verify"):
		p.Exit(0)
	default:
		p.Unknown("go mod " + strings.Join(args, " "))
		p.Exit(2)
	}
}

func copyTree(p *kernel.Proc, from, to string) string {
	names, dirs, e := p.List(from)
	if e != 0 {
		return e.Error()
	}
	if e := p.MkdirAll(to); e != 0 {
		return "mkdir " + to + ": " + e.Error()
	}
	for _, n := range names {
		if dirs[n] {
			if s := copyTree(p, from+"/"+n, to+"/"+n); s != "" {
				return s
			}
			continue
		}
		b, e := p.ReadFile(from + "/" + n)
		if e == 0 {
			e = p.WriteFile(to+"/"+n, b, 0o644)
		}
		if e != 0 {
			return "copying " + to + "/" + n + ": " + e.Error()
		}
	}
	return ""
}

// proxyModule finds the newest module on the simulated proxy that holds the
// package or pattern.
func proxyModule(p *kernel.Proc, imp, version string, exact bool) (mod, ver string) {
	var mods []string
	var rec func(d, pre string)
	rec = func(d, pre string) {
		names, dirs, e := p.List(d)
		if e != 0 {
			if e != syscall.ENOENT {
				fail(p, "module proxy: "+e.Error())
			}
			return
		}
		for _, n := range names {
			if !dirs[n] {
				continue
			}
			if strings.Contains(n, "@") {
				mods = append(mods, pre+n)
			} else {
				rec(d+"/"+n, pre+n+"/")
			}
		}
	}
	rec(goProxy, "")
	for _, mv := range mods {
		m, v, _ := strings.Cut(mv, "@")
		if version != "" && version != "latest" && v != version {
			continue
		}
		if imp == m || strings.HasPrefix(imp, m+"/") {
			sub := strings.TrimPrefix(imp, m)
			if sub != "" && !p.IsDir(goProxy+"/"+mv+sub) {
				continue
			}
			if sub != "" && exact && !hasGo(p, goProxy+"/"+mv+sub) {
				continue
			}
			if len(m) > len(mod) || len(m) == len(mod) && versionLess(ver, v) {
				mod, ver = m, v
			}
		}
	}
	return mod, ver
}

// hasGo reports whether a directory has Go files at all.
func hasGo(p *kernel.Proc, dir string) bool {
	names, dirs, _ := p.List(dir)
	for _, n := range names {
		if !dirs[n] && strings.HasSuffix(n, ".go") {
			return true
		}
	}
	return false
}

// download fetches a module.  As the real command does, it unpacks beside the
// final place and renames, so that a failure never leaves a partial module.
func download(p *kernel.Proc, modver, dir string) string {
	p.Print(2, "go: downloading "+strings.Replace(modver, "@", " ", 1)+"\n")
	p.Sleep(20_000_000)
	tmp := dir + ".tmp-1"
	if s := copyTree(p, goProxy+"/"+modver, tmp); s != "" {
		p.RemoveAll(tmp)
		return s
	}
	if e := p.Rename(-100, tmp, -100, dir); e != 0 {
		p.RemoveAll(tmp)
		return "rename: " + e.Error()
	}
	return ""
}

func goGet(p *kernel.Proc, args []string) {
	var pats []string
	update := false
	for _, a := range args {
		switch {
		case a == "-u":
			update = true
		case a == "--" || a == "-d" || a == "-v" || a == "-x" || a == "-t":
		case strings.HasPrefix(a, "-tags") || strings.HasPrefix(a, "-mod"):
		case strings.HasPrefix(a, "-"):
			p.Unknown("go get " + a)
			p.Exit(2)
		default:
			pats = append(pats, a)
		}
	}
	mf, _ := findUp(p, p.Cwd(), "go.mod")
	if mf == "" {
		fail(p, "go.mod file not found in current directory or any parent directory.\n\t'go get' is no longer supported outside a module.")
	}
	if w := p.Env("GOWORK"); w != "off" {
		if wf, wd := findUp(p, p.Cwd(), "go.work"); wf != "" {
			b, _ := p.ReadFile(wf)
			in := false
			for _, line := range strings.Split(string(b), "\n") {
				f := strings.Fields(line)
				if len(f) == 2 && f[0] == "use" && path.Join(wd, f[1]) == path.Dir(mf) {
					in = true
				}
			}
			if !in {
				fail(p, "current directory is contained in a module that is not one of the workspace modules listed in go.work")
			}
		}
	}
	for _, pat := range pats {
		name, version, _ := strings.Cut(pat, "@")
		if name == "" {
			fail(p, `malformed import path "": empty string`)
		}
		if strings.HasPrefix(name, ".") || strings.HasPrefix(name, "/") {
			fail(p, "package "+name+" is not in a module root")
		}
		base := strings.TrimSuffix(strings.TrimSuffix(name, "..."), "/")
		if !strings.Contains(strings.SplitN(base, "/", 2)[0], ".") {
			if base == "" || p.IsDir(goRoot+"/src/"+base) {
				continue
			}
			fail(p, "package "+name+" is not in std ("+goRoot+"/src/"+name+")")
		}
		mod, ver := proxyModule(p, base, version, base == name)
		if mod == "" {
			fail(p, "module "+base+": no matching versions for query \"upgrade\"")
		}
		data, e := p.ReadFile(mf)
		if e != 0 {
			fail(p, "reading go.mod: "+e.Error())
		}
		dir := modCache + "/" + mod + "@" + ver
		if !p.IsDir(dir) {
			if s := download(p, mod+"@"+ver, dir); s != "" {
				fail(p, mod+"@"+ver+": "+s)
			}
		}
		sumFile := path.Join(path.Dir(mf), "go.sum")
		sum, _ := p.ReadFile(sumFile)
		if l := mod + " " + ver + " h1:0000000000000000000000000000000000000000000=\n"; !strings.Contains(string(sum), l) {
			if e := p.WriteFile(sumFile, []byte(string(sum)+l), 0o644); e != 0 {
				fail(p, "updating go.sum: "+e.Error())
			}
		}
		line := "require " + mod + " " + ver + " // indirect\n"
		if !strings.Contains(string(data), line) {
			// Written whole: the real command locks and replaces the contents.
			if e := p.WriteFile(mf+".tmp-1", []byte(string(data)+line), 0o644); e != 0 {
				p.Unlink(-100, mf+".tmp-1", 0)
				fail(p, "updating go.mod: "+e.Error())
			}
			if e := p.Rename(-100, mf+".tmp-1", -100, mf); e != 0 {
				fail(p, "updating go.mod: "+e.Error())
			}
		}
		p.Print(2, "go: added "+mod+" "+ver+"\n")
	}
	if update {
		for _, m := range newCtx(p, "").mods {
			if mod, ver := proxyModule(p, m.path, "", false); !m.main && mod == m.path && versionLess(m.version, ver) {
				data, e := p.ReadFile(mf)
				if e == 0 {
					e = p.WriteFile(mf, []byte(string(data)+"require "+mod+" "+ver+"\n"), 0o644)
				}
				if e != 0 {
					fail(p, "updating go.mod: "+e.Error())
				}
			}
		}
	}
	p.Exit(0)
}
