package main

import (
	"encoding/json"
	"strconv"
	"strings"
)

// Prog is the abstract form of a generated Go program.  Programs are
// minimised in this form and rendered to source afterwards.
type Prog struct {
	Mods    []*Mod
	Pkgs    []*Pkg
	Fns     []*Fn
	Custom  bool   // a custom capability map is given
	NoBltin bool   // ... and the built-in one disabled
	Ents    []*Ent // entries of the custom map
	Noisy   bool   // look into functions which are not analysed by default
	Query   []string
	Chaff   []*Chaff
	Tags    string
	GOOS    string
	GOARCH  string
	Next    int
}

// Mod is a module of the generated world.
type Mod struct {
	Path, Ver string
	Where     string // main, cache, replace, proxy, work
}

// Pkg is a package.  Packages only import packages with a greater index.
type Pkg struct {
	Mod   int
	Rel   string // directory relative to the module
	Name  string
	Files int
	Blank []int
	Dead  bool
	Main  bool
	Cmd   bool // named by its files
}

// Fn is a function, method, or package initialiser.
type Fn struct {
	ID     int
	Pkg    int
	Kind   string // func vmethod pmethod generic gmethod init varinit varlit asm linkname
	File   int
	Priv   bool
	Calls  []*Call
	Opaque []string
	Dead   bool
	T      string `json:",omitempty"` // type argument of a generic function or type
	T2     string `json:",omitempty"` // that of another instance, if any
}

// Call is one call made by a function.
type Call struct {
	Form string
	To   int // function ID; -1 for a standard library function
	To2  int
	Std  string
	Ctx  []string
	Sub  string // form used inside a function literal
	V    int    // variant
	ID   int
}

// Ent is an entry of the custom capability map.  Fn >= 0 refers to the node of
// a generated function, so that entries follow the functions when minimising.
type Ent struct {
	Kind string // func package unanalyzed ignore_edge cgo_suffix
	Name string
	To   string
	Cap  string
}

// Chaff is an extra file: build constrained variants, tests, other text.
type Chaff struct {
	Pkg    int
	Name   string
	Header string // text above the package clause
	Fn     int    // number used in names
	Std    string // standard library function called there
	Std2   string
	To     int // package imported there
	Kind   string
}

func (p *Prog) clone() *Prog {
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	q := new(Prog)
	if err := json.Unmarshal(b, q); err != nil {
		panic(err)
	}
	return q
}

func (p *Prog) pkgPath(i int) string {
	k := p.Pkgs[i]
	if k.Cmd {
		return "command-line-arguments"
	}
	if k.Rel == "" {
		return p.Mods[k.Mod].Path
	}
	return p.Mods[k.Mod].Path + "/" + k.Rel
}

func (p *Prog) fn(id int) *Fn {
	for _, f := range p.Fns {
		if f.ID == id {
			return f
		}
	}
	return nil
}

func fnName(f *Fn) string {
	if f.Priv {
		return "fn" + itoa(f.ID)
	}
	return "Fn" + itoa(f.ID)
}

func typeName(f *Fn) string { return "Ty" + itoa(f.ID) }

func itoa(i int) string {
	if i < 0 {
		return "-" + itoa(-i)
	}
	if i < 10 {
		return string(rune('0' + i))
	}
	return itoa(i/10) + itoa(i%10)
}

// node is the name by which the function appears in reports.
func (p *Prog) node(f *Fn) string {
	path := p.pkgPath(f.Pkg)
	switch f.Kind {
	case "vmethod":
		return "(" + path + "." + typeName(f) + ")." + fnName(f)
	case "pmethod", "asmmethod":
		return "(*" + path + "." + typeName(f) + ")." + fnName(f)
	case "generic":
		return path + "." + fnName(f) + "[" + typeArg(f.T) + "]"
	case "gmethod":
		return "(" + path + "." + typeName(f) + "[" + typeArg(f.T) + "])." + fnName(f)
	}
	return path + "." + fnName(f)
}

func callable(f *Fn) bool {
	switch f.Kind {
	case "init", "varinit", "varlit", "varunsafe":
		return false
	}
	return true
}

// typeArg is the name of a type argument in reports, given the source text.
func typeArg(src string) string {
	if src == "" {
		return "int"
	}
	if i := strings.IndexByte(src, '`'); i >= 0 {
		j := strings.LastIndexByte(src, '`')
		return src[:i] + strconv.Quote(src[i+1:j]) + src[j+1:]
	}
	return src
}

// typeArgs are the source texts of type arguments.  Those after the first
// eight have no names that can be told apart in methods.
var typeArgs = []string{"", "string", "*int", "error", "struct{X int `json:\"x\"`}", "struct{}", "func(int) error", "struct{X *int; Y *int}", "[]byte", "map[string][2]int", "chan<- []any"}

// otherNode is the name of the second instance of a generic function.
func (p *Prog) otherNode(f *Fn) string {
	return p.pkgPath(f.Pkg) + "." + fnName(f) + "[" + typeArg(f.T2) + "]"
}

func isInstance(name string) bool { return strings.Contains(name, "[") }
