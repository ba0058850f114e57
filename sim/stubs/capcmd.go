package stubs

import (
	"encoding/json"
	"path"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/google/capslock/internal/verifsim/kernel"
	"github.com/google/capslock/internal/verifsim/scn"
)

func init() {
	kernel.Programs["capslock"] = capMain
}

var capNumbers = map[string]int{"SAFE": 1, "FILES": 2, "NETWORK": 3, "RUNTIME": 4, "READ_SYSTEM_STATE": 5, "MODIFY_SYSTEM_STATE": 6,
	"OPERATING_SYSTEM": 7, "SYSTEM_CALLS": 8, "ARBITRARY_EXECUTION": 9, "CGO": 10, "UNANALYZED": 11, "UNSAFE_POINTER": 12, "REFLECT": 13, "EXEC": 14}

// capMain models the capslock program for the tools that call it: what it
// reports is read from simcaps.json files in the package directories.
func capMain(p *kernel.Proc) {
	flags := map[string]string{}
	args := p.Args[1:]
	for i := 0; i < len(args); i++ {
		a := args[i]
		if !strings.HasPrefix(a, "-") {
			p.Unknown("capslock " + a)
			p.Exit(2)
		}
		name, val, has := strings.Cut(strings.TrimLeft(a, "-"), "=")
		boolean := name == "noisy" || name == "omit_paths" || name == "force_local_module" || name == "disable_builtin"
		if !has && !boolean {
			i++
			if i >= len(args) {
				p.Print(2, "flag needs an argument: "+a+"\n")
				p.Exit(2)
			}
			val = args[i]
		}
		switch name {
		case "packages", "output", "granularity", "capabilities", "omit_paths", "noisy", "force_local_module", "goos", "goarch", "buildtags":
		default:
			p.Unknown("capslock " + a)
			p.Exit(2)
		}
		flags[name] = val
	}
	if o := flags["output"]; o != "json" && o != "j" {
		p.Unknown("capslock -output=" + o)
		p.Exit(2)
	}
	p.Note("dir=" + p.Cwd() + " packages=" + flags["packages"] + " granularity=" + flags["granularity"] + " capabilities=" + flags["capabilities"])
	want := map[string]bool{}
	neg := false
	if c := flags["capabilities"]; c != "" {
		for i, s := range strings.Split(c, ",") {
			if s == "" {
				p.Print(2, "parsing flag -capabilities: empty capability in list\n")
				p.Exit(2)
			}
			s, no := strings.CutPrefix(s, "-")
			if i > 0 && no != neg {
				p.Print(2, "parsing flag -capabilities: mix of negated and unnegated capabilities\n")
				p.Exit(2)
			}
			neg = no
			s = strings.TrimPrefix(s, "CAPABILITY_")
			if capNumbers[s] == 0 && s != "UNSPECIFIED" {
				p.Print(2, "parsing flag -capabilities: unknown capability \""+s+"\"\n")
				p.Exit(2)
			}
			want[s] = true
		}
	}
	has := func(c string) bool {
		if len(want) == 0 {
			return true
		}
		return want[c] != neg
	}
	gran := flags["granularity"]
	if gran == "" {
		gran = "function"
	}
	if gran != "function" && gran != "package" && gran != "intermediate" {
		p.Print(2, "parsing flag -granularity: unknown granularity: \""+gran+"\"\n")
		p.Exit(2)
	}
	var files []*scn.CapFile
	var walk func(d string, rec bool)
	walk = func(d string, rec bool) {
		names, dirs, e := p.List(d)
		if e != 0 {
			if e != syscall.ENOENT {
				p.Print(2, "Error loading packages: "+e.Error()+"\n")
				p.Exit(2)
			}
			return
		}
		for _, n := range names {
			if n == "simcaps.json" {
				b, e := p.ReadFile(d + "/" + n)
				if e != 0 {
					p.Print(2, "Error loading packages: "+e.Error()+"\n")
					p.Exit(2)
				}
				f := new(scn.CapFile)
				if err := json.Unmarshal(b, f); err != nil {
					p.Unknown("simcaps.json: " + err.Error())
				}
				files = append(files, f)
			}
			if rec && dirs[n] && !strings.HasPrefix(n, ".") && n != "testdata" {
				walk(d+"/"+n, rec)
			}
		}
	}
	mod := ""
	if mf, dir := findUp(p, p.Cwd(), "go.mod"); mf != "" {
		b, e := p.ReadFile(mf)
		if e != 0 {
			p.Print(2, "Error loading packages: "+e.Error()+"\n")
			p.Exit(2)
		}
		mod = parseMod(string(b)).path
		for _, pat := range strings.Split(flags["packages"], ",") {
			base, rec := strings.CutSuffix(pat, "/...")
			switch {
			case strings.HasPrefix(pat, ".") || path.IsAbs(pat):
				if !path.IsAbs(base) {
					base = path.Join(p.Cwd(), base)
				}
				walk(base, rec)
			case base == mod || strings.HasPrefix(base, mod+"/"):
				walk(path.Join(dir, strings.TrimPrefix(base, mod)), rec)
			}
		}
	}
	if len(files) == 0 {
		p.Print(2, "No packages matching "+flags["packages"]+"\n")
		p.Exit(2)
	}
	type site struct {
		Filename string `json:"filename"`
		Line     string `json:"line"`
		Column   string `json:"column"`
	}
	type function struct {
		Name    string `json:"name"`
		Site    *site  `json:"site,omitempty"`
		Package string `json:"package,omitempty"`
	}
	type info struct {
		PackageName string     `json:"packageName"`
		Capability  string     `json:"capability"`
		Path        []function `json:"path,omitempty"`
		PackageDir  string     `json:"packageDir"`
		key         string
	}
	var out []info
	seen := map[string]bool{}
	for _, f := range files {
		if f.Broken {
			p.Print(2, "Some packages had errors. Aborting analysis.\n")
			p.Exit(2)
		}
	}
	sort.SliceStable(files, func(i, j int) bool { return files[i].Package < files[j].Package })
	for _, f := range files {
		for _, e := range f.Entries {
			var fns []function
			for i, x := range e.Path {
				fn := function{Name: x.Name, Package: x.Pkg}
				if i > 0 && x.File != "" {
					fn.Site = &site{x.File, strconv.Itoa(x.Line), strconv.Itoa(x.Col)}
				}
				fns = append(fns, fn)
			}
			if _, ok := flags["omit_paths"]; ok {
				fns = fns[:1]
			}
			add := func(pkg, name, key string) {
				k := e.Cap + "|" + key
				if seen[k] {
					return
				}
				seen[k] = true
				out = append(out, info{PackageName: name, Capability: "CAPABILITY_" + e.Cap, Path: fns, PackageDir: pkg, key: key})
			}
			switch gran {
			case "function":
				add(f.Package, f.Name, e.Path[0].Name)
			case "package":
				add(f.Package, f.Name, f.Package)
			case "intermediate":
				if !has(e.Cap) {
					continue
				}
				for _, x := range e.Path {
					if x.Pkg != "" {
						add(x.Pkg, path.Base(x.Pkg), x.Pkg)
					}
				}
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool {
		a, b := capNumbers[strings.TrimPrefix(out[i].Capability, "CAPABILITY_")], capNumbers[strings.TrimPrefix(out[j].Capability, "CAPABILITY_")]
		if a != b {
			return a < b
		}
		return out[i].key < out[j].key
	})
	failing := ""
	for _, f := range files {
		if f.Fail != "" {
			// A report that is well formed, but only the beginning of one.
			failing = f.Fail
			out = out[:min(f.Keep, len(out))]
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"capabilityInfo": out}, "", "\t")
	if e := p.Print(1, string(b)+"\n"); e != 0 {
		p.Print(2, e.Error()+"\n")
		p.Exit(2)
	}
	switch failing {
	case "":
		p.Exit(0)
	case "signal":
		p.Print(2, "fatal error: out of memory\n")
		p.Die(int(syscall.SIGKILL))
	}
	code, _ := strconv.Atoi(failing)
	p.Print(2, "Error: analysis failed\n")
	p.Exit(code)
}
