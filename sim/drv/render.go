package main

import (
	"path"
	"sort"
	"strings"
)

type mark struct{ from, to string }

type eline struct {
	s     string
	marks []mark
}

func ln(s string, m ...mark) eline { return eline{s, m} }

// gofile is a source file being assembled.
type gofile struct {
	pkg     int
	name    string
	header  string
	imports map[string]string // path to alias
	body    []eline
}

// world is a rendered program with the model of its calls.
type world struct {
	p     *Prog
	files map[int]map[string]*gofile
	extra map[string]string // further files, by absolute path
	m     *model
	seq   int
	forms map[string]int
	look  map[int]bool
	dup   map[string][]string // instance to generic function and other instance
	// ignored lists the files of a package left out by build constraints.
	ignored map[int][]string
}

type mnode struct {
	name   string
	pkg    string
	report bool   // appears in reports when its package is requested
	synth  bool   // name not predicted: wrapper or instance
	origin string // for instances: the name the capability map knows
	extra  map[string]bool
}

type medge struct {
	sites map[string]bool // file:line
	bare  bool            // call has no position in the source
	need  map[string]bool // if not nil, one of these packages must be loaded
}

type model struct {
	nodes map[string]*mnode
	edges map[string]map[string]*medge
}

func newModel() *model {
	return &model{map[string]*mnode{}, map[string]map[string]*medge{}}
}

func (m *model) node(name, pkg string) *mnode {
	n := m.nodes[name]
	if n == nil {
		n = &mnode{name: name, pkg: pkg, report: true, extra: map[string]bool{}}
		m.nodes[name] = n
	}
	return n
}

func (m *model) synth(name, pkg, origin string) {
	n := m.node(name, pkg)
	n.report = false
	n.synth = true
	n.origin = origin
}

func (m *model) edge(from, to string) *medge {
	if m.edges[from] == nil {
		m.edges[from] = map[string]*medge{}
	}
	e := m.edges[from][to]
	if e == nil {
		e = &medge{sites: map[string]bool{}}
		m.edges[from][to] = e
	}
	return e
}

func (m *model) bare(from, to string) { m.edge(from, to).bare = true }

func (w *world) file(pkg int, name string) *gofile {
	if w.files[pkg] == nil {
		w.files[pkg] = map[string]*gofile{}
	}
	f := w.files[pkg][name]
	if f == nil {
		f = &gofile{pkg: pkg, name: name, imports: map[string]string{}}
		w.files[pkg][name] = f
	}
	return f
}

func (w *world) uid() string {
	w.seq++
	return itoa(w.seq)
}

// em is the place code is being emitted to: a file and the innermost function.
type em struct {
	w    *world
	f    *gofile
	node string
	anon map[string]int
}

func (e *em) path() string { return e.w.p.pkgPath(e.f.pkg) }

func (e *em) std(p string) string {
	e.f.imports[p] = ""
	return path.Base(p) + "."
}

func (e *em) imp(pkg int) string {
	if pkg == e.f.pkg {
		return ""
	}
	a := "p" + itoa(pkg)
	e.f.imports[e.w.p.pkgPath(pkg)] = a
	return a + "."
}

// closure names the next function literal of the current function.
func (e *em) closure() *em {
	e.anon[e.node]++
	name := e.node + "$" + itoa(e.anon[e.node])
	n := e.w.m.node(name, e.path())
	if isInstance(name) {
		n.report, n.synth = false, true
		if o := e.w.m.nodes[e.node].origin; o == "~" {
			n.origin = o
		} else if o != "" {
			n.origin = o + strings.TrimPrefix(name, e.node)
		}
	}
	return &em{e.w, e.f, name, e.anon}
}

func (e *em) decl(l ...eline) {
	e.f.body = append(e.f.body, l...)
}

// fnEm starts a new top-level function of this file.
func (e *em) fnEm(name string) *em {
	node := e.path() + "." + name
	if strings.HasPrefix(name, "(") {
		node = name
	}
	e.w.m.node(node, e.path())
	return &em{e.w, e.f, node, e.anon}
}

// needed notes that a call happens only in programs including this package.
func (e *em) needed(from, to string) {
	x := e.w.m.edge(from, to)
	if x.need == nil {
		x.need = map[string]bool{}
	}
	x.need[e.path()] = true
}

func (e *em) to(n string) mark { return mark{e.node, n} }

// target describes what a call should reach.
type target struct {
	node   string
	call   string // call expression
	val    string // function value expression of type func()
	chain  []string
	method bool
	typ    string // receiver type
	ptr    bool
	name   string // method name
}

// stdCalls are the standard library calls a generated function can make.
var stdCalls = map[string]struct{ pkg, call, node string }{
	"os.Open":        {"os", `os.Open("x")`, "os.Open"},
	"os.ReadFile":    {"os", `os.ReadFile("x")`, "os.ReadFile"},
	"os.WriteFile":   {"os", `os.WriteFile("x", nil, 0)`, "os.WriteFile"},
	"os.Remove":      {"os", `os.Remove("x")`, "os.Remove"},
	"os.Stat":        {"os", `os.Stat("x")`, "os.Stat"},
	"os.Getenv":      {"os", `os.Getenv("x")`, "os.Getenv"},
	"os.Setenv":      {"os", `os.Setenv("x", "y")`, "os.Setenv"},
	"os.Getpid":      {"os", `os.Getpid()`, "os.Getpid"},
	"os.Exit":        {"os", `os.Exit(1)`, "os.Exit"},
	"net.Dial":       {"net", `net.Dial("x", "y")`, "net.Dial"},
	"net.LookupHost": {"net", `net.LookupHost("x")`, "net.LookupHost"},
	"net.ParseIP":    {"net", `net.ParseIP("x")`, "net.ParseIP"},
	"exec.Command":   {"os/exec", `exec.Command("x")`, "os/exec.Command"},
	"exec.Run":       {"os/exec", `(&exec.Cmd{}).Run()`, "(*os/exec.Cmd).Run"},
	"exec.LookPath":  {"os/exec", `exec.LookPath("x")`, "os/exec.LookPath"},
	"file.Read":      {"os", `(&os.File{}).Read(nil)`, "(*os.File).Read"},
	"time.Now":       {"time", `time.Now()`, "time.Now"},
	"syscall.Mount":  {"syscall", `syscall.Mount("x")`, "syscall.Mount"},
	"syscall.Getpid": {"syscall", `syscall.Getpid()`, "syscall.Getpid"},
	"strconv.Itoa":   {"strconv", `strconv.Itoa(3)`, "strconv.Itoa"},
	"errors.New":     {"errors", `errors.New("x")`, "errors.New"},
	"wire.Send":      {"text/wire", `wire.Send("x")`, "text/wire.Send"},
}

// stdEdges are the calls inside the simulated standard library.
var stdEdges = map[string][]string{
	"text/wire.Send":                  {"vendor/golang.org/x/frame.Write"},
	"vendor/golang.org/x/frame.Write": {"syscall.Open"},
	"os.Open":                         {"os.openFile"},
	"os.Create":                       {"os.openFile"},
	"os.openFile":                     {"syscall.Open"},
	"os.ReadFile":                     {"os.Open"},
	"os.WriteFile":                    {"os.Create"},
	"os.Remove":                       {"syscall.Open"},
	"os.Stat":                         {"syscall.Open"},
	"os.Getenv":                       {"syscall.Getpid"},
	"os.Setenv":                       {"syscall.Getpid"},
	"os.Getpid":                       {"syscall.Getpid"},
	"os.Exit":                         {"syscall.Getpid"},
	"(*os/exec.Cmd).Run":              {"os.Open"},
	"os/exec.LookPath":                {"os.Stat"},
	"(*os.File).Read":                 {"syscall.Read"},
	"time.Now":                        {"runtime.NumGoroutine"},
	"strconv.Itoa":                    {"strconv.Itoa"},
	"os.init":                         {"errors.New"},
	"io.init":                         {"errors.New"},
	"sort.Stable":                     {"sort.Sort"},
	"(*sync.Once).Do":                 {"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock"},
}

// builtinClass is what the documentation says about these functions.
var builtinClass = map[string]string{
	"os.Open": "FILES", "os.ReadFile": "FILES", "os.WriteFile": "FILES", "os.Remove": "FILES", "os.Stat": "FILES", "os.Create": "FILES",
	"(*os.File).Read": "FILES", "os/exec.LookPath": "FILES",
	"os.Getenv": "READ_SYSTEM_STATE", "os.Getpid": "READ_SYSTEM_STATE", "os.Setenv": "MODIFY_SYSTEM_STATE", "os.Exit": "SAFE",
	"net.Dial": "NETWORK", "net.LookupHost": "NETWORK", "net.ParseIP": "SAFE",
	"os/exec.Command": "EXEC", "(*os/exec.Cmd).Run": "EXEC",
	"time.Now": "SAFE", "time.AfterFunc": "SAFE",
	"syscall.Mount": "SYSTEM_CALLS", "syscall.Getpid": "SYSTEM_CALLS", "syscall.Open": "SYSTEM_CALLS", "syscall.Read": "SYSTEM_CALLS",
	"(*sync.Once).Do": "UNANALYZED", "sort.Slice": "UNANALYZED", "sort.SliceStable": "UNANALYZED", "sort.Sort": "UNANALYZED", "sort.Stable": "UNANALYZED",
	"sort.IsSorted": "UNANALYZED", "fmt.Sprint": "SAFE", "fmt.Println": "SAFE",
	"errors.New": "SAFE", "strconv.Itoa": "SAFE",
	"reflect.ValueOf": "SAFE", "(reflect.Value).IsValid": "SAFE",
	"os.init": "SAFE", "net.init": "SAFE", "os/exec.init": "SAFE", "syscall.init": "SAFE", "reflect.init": "SAFE", "runtime.init": "SAFE",
	"runtime/cgo.init": "SAFE", "sync.init": "SAFE", "unsafe.init": "SAFE",
}

var builtinPkgClass = map[string]string{"time": "SAFE", "fmt": "SAFE", "math": "SAFE", "os": "OPERATING_SYSTEM", "os/exec": "EXEC", "net": "NETWORK",
	"syscall": "SYSTEM_CALLS", "runtime": "RUNTIME", "reflect": "REFLECT"}

func stdPkgOf(node string) string {
	s := strings.TrimPrefix(strings.TrimPrefix(node, "("), "*")
	i := strings.LastIndexByte(s, '/')
	j := strings.IndexByte(s[i+1:], '.')
	return s[:i+1+j]
}

func (w *world) stdNode(n string) {
	if _, ok := w.m.nodes[n]; ok {
		return
	}
	x := w.m.node(n, stdPkgOf(n))
	x.report = false
	for _, t := range stdEdges[n] {
		w.stdNode(t)
		w.m.bare(n, t)
	}
}

// target resolves a call for use in the current place.  Standard library
// functions become values through a helper function.
func (e *em) target(to int, stdName string, asValue bool) *target {
	p := e.w.p
	if to < 0 {
		sc := stdCalls[stdName]
		if !asValue {
			e.std(sc.pkg)
			e.w.stdNode(sc.node)
			return &target{node: sc.node, call: sc.call, chain: []string{sc.node}}
		}
		name := "hlp" + e.w.uid()
		h := e.fnEm(name)
		e.std(sc.pkg)
		e.w.stdNode(sc.node)
		e.decl(ln("func "+name+"() {"), ln("\t"+sc.call, h.to(sc.node)), ln("}"))
		return &target{node: h.node, call: name + "()", val: name, chain: []string{h.node}}
	}
	f := p.fn(to)
	pre := e.imp(f.Pkg)
	node := p.node(f)
	t := &target{node: node, chain: []string{node}}
	switch f.Kind {
	case "vmethod", "pmethod", "gmethod", "asmmethod":
		t.method = true
		t.typ = pre + typeName(f)
		t.name = fnName(f)
		if f.Kind == "gmethod" {
			t.typ += "[" + f.typeSrc() + "]"
		}
		recv := t.typ + "{}"
		if f.Kind == "pmethod" || f.Kind == "asmmethod" {
			t.ptr = true
			recv = "(&" + t.typ + "{})"
		}
		t.call = recv + "." + t.name + "()"
		t.val = recv + "." + t.name
		b := node + "$bound"
		e.w.m.synth(b, p.pkgPath(f.Pkg), "")
		e.w.m.bare(b, node)
		t.chain = []string{b, node}
	case "generic":
		src := f.typeSrc()
		if f.T2 != "" && e.pick2() {
			src = f.T2
			t.node = p.otherNode(f)
			t.chain = []string{t.node}
		}
		t.val = pre + fnName(f) + "[" + src + "]"
		t.call = t.val + "()"
	default:
		t.val = pre + fnName(f)
		t.call = t.val + "()"
	}
	return t
}

// typeSrc is the source text of the type argument.
func (f *Fn) typeSrc() string {
	if f.T == "" {
		return "int"
	}
	return f.T
}

// pick2 says whether the current function uses the second instance.
func (e *em) pick2() bool {
	return len(e.node)%2 == 1
}

// meth gives a target as a method of some type in this or another package.
func (e *em) meth(c *Call, to int, std string) *target {
	if to >= 0 {
		if t := e.target(to, "", true); t.method {
			return t
		}
	}
	id := e.w.uid()
	t := &target{method: true, typ: "Ad" + id, name: "Md" + id, ptr: c.V%3 == 1}
	if c.V%2 == 0 && !isInstance(e.node) {
		t.typ = "ad" + id
	}
	star := ""
	if t.ptr {
		star = "*"
	}
	t.node = "(" + star + e.path() + "." + t.typ + ")." + t.name
	a := e.fnEm(t.node)
	in := a.target(to, std, false)
	e.decl(ln("type "+t.typ+" struct{ x int }"), ln("func (r "+star+t.typ+") "+t.name+"() {"), ln("\t"+in.call, a.to(in.node)), ln("}"))
	return t
}

// recv is an expression of the receiver; wrapped says that a pointer is used
// where the method has a value receiver.
func (t *target) recv() string {
	if t.ptr {
		return "(&" + t.typ + "{})"
	}
	return t.typ + "{}"
}

// viaIface records what a dynamic call through an interface holding the
// expression reaches, and gives the expression.
func (e *em) viaIface(t *target, v int) (expr string, first string) {
	if isInstance(t.typ) {
		// Known finding: see knownGenericDispatch.
		v = 1
	}
	if !t.ptr && v%2 == 1 {
		wr := "~w" + t.node
		e.w.m.synth(wr, e.w.m.nodes[t.node].pkg, "")
		e.w.m.bare(wr, t.node)
		return "&" + t.typ + "{}", wr
	}
	return t.recv(), t.node
}

// call emits the statements of one call.
func (e *em) call(c *Call) []eline {
	body := e.form(c)
	e.w.forms[c.Form]++
	for i := len(c.Ctx) - 1; i >= 0; i-- {
		body = e.context(c.Ctx[i], body)
	}
	return body
}

func (e *em) context(x string, b []eline) []eline {
	wrap := func(a string, z ...string) []eline {
		out := []eline{ln(a)}
		out = append(out, b...)
		for _, s := range z {
			out = append(out, ln(s))
		}
		return out
	}
	id := e.w.uid()
	switch x {
	case "block":
		return wrap("{", "}")
	case "if":
		return wrap("if cond {", "}")
	case "else":
		return append([]eline{ln("if cond {"), ln("\t_ = 0")}, wrap("} else {", "}")...)
	case "elseif":
		return append([]eline{ln("if cond {"), ln("\t_ = 0")}, wrap("} else if !cond {", "}")...)
	case "for":
		return wrap("for i"+id+" := 0; i"+id+" < 2; i"+id+"++ {", "}")
	case "range":
		return wrap("for range []int{1, 2} {", "}")
	case "switch":
		return append([]eline{ln("switch {"), ln("case !cond:")}, append(wrap("case cond:", "default:"), ln("}"))...)
	case "tswitch":
		return append([]eline{ln("switch any(cond).(type) {"), ln("case int:")}, wrap("case bool:", "}")...)
	case "default":
		return append([]eline{ln("switch {"), ln("case cond:")}, wrap("default:", "}")...)
	case "select":
		return append([]eline{ln("select {")}, wrap("case <-chn:", "default:", "}")...)
	case "selectdef":
		return append([]eline{ln("select {"), ln("case <-chn:")}, wrap("default:", "}")...)
	case "selectsend":
		return append([]eline{ln("select {")}, wrap("case chn <- 1:", "default:", "}")...)
	case "label":
		l := "L" + id
		out := []eline{ln(l + ":")}
		if len(b) == 1 && !strings.Contains(b[0].s, ":=") && !strings.HasPrefix(strings.TrimSpace(b[0].s), "var ") {
			out = append(out, b...)
		} else {
			out = append(out, wrap("{", "}")...)
		}
		return append(out, ln("if cond {"), ln("\tgoto "+l), ln("}"))
	case "labelfor":
		l := "L" + id
		return append([]eline{ln(l + ":")}, wrap("for {", "\tbreak "+l, "}")...)
	case "ifinit", "forinit", "forpost", "switchinit", "tswitchinit":
		if len(b) != 1 || !simpleCall(b[0].s) {
			return wrap("{", "}")
		}
		f := map[string]string{"ifinit": "if %; cond {", "forinit": "for %; cond; {", "forpost": "for ; cond; % {", "switchinit": "switch %; {", "tswitchinit": "switch %; any(cond).(type) {"}[x]
		return []eline{{strings.Replace(f, "%", b[0].s, 1), b[0].marks}, ln("}")}
	}
	return b
}

// simpleCall says whether a line is a call that can be in the head of a
// statement.  Calls of sort functions are not replaced there.
func simpleCall(s string) bool {
	for _, x := range []string{"{", "\n", "//", ".Sort(", ".Stable(", ".IsSorted(", ":=", " = ", "go ", "defer ", "var ", "if ", "return", "_ "} {
		if strings.Contains(s, x) {
			return false
		}
	}
	return strings.HasSuffix(s, ")")
}

var contexts = []string{"block", "if", "else", "elseif", "for", "range", "switch", "tswitch", "default", "select", "selectdef", "selectsend", "label", "labelfor", "ifinit", "forinit", "forpost", "switchinit", "tswitchinit"}

// forms lists the ways a generated function can call another one.
var forms = []string{
	"direct", "defer", "go", "paren", "closure", "goclosure", "deferclosure", "nested", "localvar", "phi", "global", "field", "ptrfield", "map", "slice",
	"array", "chan", "iface", "iface2", "ifaceparam", "ifacefield", "ifacechan", "ifacemap", "embed", "embedptr", "embediface", "ifaceembed", "bound", "thunk", "ifacebound", "hof", "hofclosure",
	"hofpkg", "ret", "retfunc", "retiface", "variadic", "sortslice", "sortstable", "sortslicefn", "sortsort", "sortiface", "once", "onceclosure", "oncefield", "oncenr", "sortnr", "slicenr", "slicearg", "sortarg", "sortgeneric", "stringer", "afterfunc",
	"rangefunc", "gdispatch", "gtype", "ghof", "assert", "tswitchcall", "anyparam", "funcptr", "captured", "recclosure", "handler", "selectrecv", "alias",
	"lookalike", "godirectiface", "rangefuncs", "namedconv", "mapiface", "args", "assignop", "cond", "retcall", "multi",
}

func (e *em) form(c *Call) []eline {
	w := e.w
	id := w.uid()
	if isInstance(e.node) || strings.HasPrefix(e.node, "~") {
		switch c.Form {
		case "oncenr", "sortnr", "slicenr", "slicearg", "stringer", "afterfunc":
			c.Form = "direct"
		}
	}
	direct := func() *target { return e.target(c.To, c.Std, false) }
	value := func() *target { return e.target(c.To, c.Std, true) }
	// funcType declares a fresh function type.
	funcType := func() string {
		n := "Ft" + id
		e.decl(ln("type " + n + " func()"))
		return n
	}
	ifaceType := func(m string) string {
		n := "If" + id
		e.decl(ln("type " + n + " interface{ " + m + "() }"))
		return n
	}
	// inner is the body of a function literal making the call.
	inner := func(k *em) []eline {
		sub := *c
		sub.Form, sub.Sub = "direct", ""
		if c.Sub != "" {
			sub.Form = c.Sub
		}
		w.forms[c.Form+"/"+sub.Form]++
		var out []eline
		for _, l := range k.form(&sub) {
			out = append(out, eline{"\t" + l.s, l.marks})
		}
		return out
	}
	cat := func(parts ...any) []eline {
		var out []eline
		for _, p := range parts {
			switch p := p.(type) {
			case eline:
				out = append(out, p)
			case []eline:
				out = append(out, p...)
			}
		}
		return out
	}
	switch c.Form {
	case "direct":
		t := direct()
		return []eline{ln(t.call, e.to(t.node))}
	case "defer", "go":
		t := direct()
		return []eline{ln(c.Form+" "+t.call, e.to(t.node))}
	case "paren":
		t := value()
		if t.method {
			return []eline{ln(t.call, e.to(t.node))}
		}
		return []eline{ln("("+t.val+")()", e.to(t.node))}
	case "args":
		// The call is an operand of another call.
		t := direct()
		name := "arg" + id
		h := e.fnEm(name)
		e.decl(ln("func "+name+"() int {"), ln("\t"+t.call, h.to(t.node)), ln("\treturn 1"), ln("}"))
		sink := "sink" + id
		s := e.fnEm(sink)
		e.decl(ln("func " + sink + "(a, b int) int { return a + b }"))
		return []eline{ln("_ = "+sink+"(1, "+name+"())", e.to(h.node), e.to(s.node))}
	case "assignop":
		t := direct()
		name := "arg" + id
		h := e.fnEm(name)
		e.decl(ln("func "+name+"() int {"), ln("\tdefer func() {}()", mark{h.node, h.node + "$1"}), ln("\t"+t.call, h.to(t.node)), ln("\treturn 1"), ln("}"))
		h.closure()
		return []eline{ln("a" + id + " := []int{0, 1}"), ln("a"+id+"["+name+"()]++", e.to(h.node)), ln("_ = a" + id)}
	case "cond":
		t := direct()
		name := "arg" + id
		h := e.fnEm(name)
		e.decl(ln("func "+name+"() bool {"), ln("\t"+t.call, h.to(t.node)), ln("\treturn cond"), ln("}"))
		switch c.V % 4 {
		case 0:
			return []eline{ln("if "+name+"() {", e.to(h.node)), ln("\t_ = 0"), ln("}")}
		case 1:
			return []eline{ln("for "+name+"() {", e.to(h.node)), ln("\tbreak"), ln("}")}
		case 2:
			return []eline{ln("switch "+name+"() {", e.to(h.node)), ln("case true:"), ln("}")}
		}
		return []eline{ln("_ = cond && "+name+"()", e.to(h.node))}
	case "multi":
		t := direct()
		name := "arg" + id
		h := e.fnEm(name)
		e.decl(ln("func "+name+"() (int, error) {"), ln("\t"+t.call, h.to(t.node)), ln("\treturn 1, nil"), ln("}"))
		return []eline{ln("if n"+id+", err := "+name+"(); err == nil {", e.to(h.node)), ln("\t_ = n" + id), ln("}")}
	case "retcall":
		t := direct()
		name := "rc" + id
		h := e.fnEm(name)
		in := "ri" + id
		h2 := e.fnEm(in)
		e.decl(ln("func "+in+"() int {"), ln("\t"+t.call, h2.to(t.node)), ln("\treturn 2"), ln("}"))
		e.decl(ln("func "+name+"() int {"), ln("\treturn "+in+"()", h.to(h2.node)), ln("}"))
		return []eline{ln(name+"()", e.to(h.node))}
	case "closure", "goclosure", "deferclosure":
		k := e.closure()
		kw := map[string]string{"closure": "", "goclosure": "go ", "deferclosure": "defer "}[c.Form]
		if c.V%2 == 0 && c.Sub == "" {
			t := k.target(c.To, c.Std, false)
			return []eline{ln(kw+"func() { "+t.call+" }()", e.to(k.node), k.to(t.node))}
		}
		return cat(ln(kw+"func() {", e.to(k.node)), inner(k), ln("}()", e.to(k.node)))
	case "nested":
		k := e.closure()
		k2 := k.closure()
		return cat(ln("func() {", e.to(k.node)), ln("\tfunc() {", k.to(k2.node)), inner(k2), ln("\t}()", k.to(k2.node)), ln("}()", e.to(k.node)))
	case "captured":
		k := e.closure()
		t := value()
		ft := funcType()
		return []eline{ln("f" + id + " := " + ft + "(" + t.val + ")"), ln("if cond {"), ln("\tf" + id + " = " + t.val), ln("}"), ln("func() { f"+id+"() }()", e.to(k.node), k.to(t.chain[0]))}
	case "recclosure":
		k := e.closure()
		ft := funcType()
		return cat(ln("var f"+id+" "+ft), ln("f"+id+" = func() {"), inner(k), ln("\tif cond {"), ln("\t\tf"+id+"()", k.to(k.node)), ln("\t}"), ln("}"), ln("f"+id+"()", e.to(k.node)))
	case "localvar":
		t := value()
		return []eline{ln("f" + id + " := " + t.val), ln("f"+id+"()", e.to(t.chain[0]))}
	case "phi":
		t := value()
		t2 := e.target(c.To2, c.Std, true)
		return []eline{ln("f" + id + " := " + t.val), ln("if cond {"), ln("\tf" + id + " = " + t2.val), ln("}"), ln("f"+id+"()", e.to(t.chain[0]), e.to(t2.chain[0]))}
	case "funcptr":
		t := value()
		ft := funcType()
		return []eline{ln("f" + id + " := " + ft + "(" + t.val + ")"), ln("q" + id + " := &f" + id), ln("(*q"+id+")()", e.to(t.chain[0]))}
	case "global":
		t := value()
		ft := funcType()
		// The variable is set by a function that nobody needs to call.
		e.fnEm("set" + id)
		e.decl(ln("var gv"+id+" "+ft), ln("func set"+id+"() { gv"+id+" = "+t.val+" }"))
		return []eline{ln("gv"+id+"()", e.to(t.chain[0]))}
	case "field":
		t := value()
		ft := funcType()
		e.decl(ln("type St" + id + " struct { n int; f " + ft + " }"))
		return []eline{ln("s" + id + " := St" + id + "{f: " + t.val + "}"), ln("s"+id+".f()", e.to(t.chain[0]))}
	case "ptrfield":
		t := value()
		ft := funcType()
		e.decl(ln("type St" + id + " struct { f " + ft + "; n int }"))
		return []eline{ln("s" + id + " := &St" + id + "{}"), ln("s" + id + ".f = " + t.val), ln("s"+id+".f()", e.to(t.chain[0]))}
	case "map":
		t := value()
		ft := funcType()
		return []eline{ln("m" + id + " := map[string]" + ft + "{\"a\": " + t.val + "}"), ln("m"+id+"[\"a\"]()", e.to(t.chain[0]))}
	case "slice":
		t := value()
		ft := funcType()
		return []eline{ln("s" + id + " := []" + ft + "{" + t.val + "}"), ln("s"+id+"[0]()", e.to(t.chain[0]))}
	case "array":
		t := value()
		ft := funcType()
		return []eline{ln("var s" + id + " [2]" + ft), ln("s" + id + "[1] = " + t.val), ln("s"+id+"[1]()", e.to(t.chain[0]))}
	case "rangefuncs":
		t := value()
		ft := funcType()
		return []eline{ln("for _, f" + id + " := range []" + ft + "{" + t.val + "} {"), ln("\tf"+id+"()", e.to(t.chain[0])), ln("}")}
	case "chan":
		t := value()
		ft := funcType()
		return []eline{ln("c" + id + " := make(chan " + ft + ", 1)"), ln("c" + id + " <- " + t.val), ln("(<-c"+id+")()", e.to(t.chain[0]))}
	case "selectrecv":
		t := value()
		ft := funcType()
		return []eline{ln("c" + id + " := make(chan " + ft + ", 1)"), ln("c" + id + " <- " + t.val), ln("select {"), ln("case f" + id + " := <-c" + id + ":"), ln("\tf"+id+"()", e.to(t.chain[0])), ln("}")}
	case "namedconv":
		t := value()
		ft := funcType()
		e.decl(ln("type Fu" + id + " func()"))
		return []eline{ln("f" + id + " := Fu" + id + "(" + ft + "(" + t.val + "))"), ln("var g" + id + " = []Fu" + id + "{f" + id + "}"), ln("g"+id+"[0]()", e.to(t.chain[0]))}
	case "handler":
		t := value()
		n := "Hf" + id
		node := "(" + e.path() + "." + n + ").Serve" + id
		h := e.fnEm(node)
		e.decl(ln("type "+n+" func()"), ln("func (h "+n+") Serve"+id+"() {"), ln("\th()", h.to(t.chain[0])), ln("}"))
		it := ifaceType("Serve" + id)
		return []eline{ln("var i" + id + " " + it + " = " + n + "(" + t.val + ")"), ln("i"+id+".Serve"+id+"()", e.to(node))}
	case "iface", "godirectiface":
		t := e.meth(c, c.To, c.Std)
		it := ifaceType(t.name)
		x, first := e.viaIface(t, c.V)
		kw := ""
		if c.Form == "godirectiface" {
			kw = []string{"go ", "defer "}[c.V%2]
		}
		return []eline{ln("var i" + id + " " + it + " = " + x), ln(kw+"i"+id+"."+t.name+"()", e.to(first))}
	case "iface2":
		// Two implementations of one interface.
		name := "Mt" + id
		it := ifaceType(name)
		var nodes []mark
		for k, to := range []int{c.To, c.To2} {
			ty := "Im" + id + string(rune('a'+k))
			a := e.fnEm("(" + e.path() + "." + ty + ")." + name)
			in := a.target(to, c.Std, false)
			e.decl(ln("type "+ty+" struct{}"), ln("func ("+ty+") "+name+"() {"), ln("\t"+in.call, a.to(in.node)), ln("}"))
			nodes = append(nodes, e.to(a.node))
		}
		return []eline{ln("var i" + id + " " + it + " = Im" + id + "a{}"), ln("if cond {"), ln("\ti" + id + " = Im" + id + "b{}"), ln("}"), ln("i"+id+"."+name+"()", nodes...)}
	case "ifaceparam":
		t := e.meth(c, c.To, c.Std)
		it := ifaceType(t.name)
		x, first := e.viaIface(t, c.V)
		h := e.fnEm("use" + id)
		e.decl(ln("func use"+id+"(i "+it+") {"), ln("\ti."+t.name+"()", h.to(first)), ln("}"))
		return []eline{ln("use"+id+"("+x+")", e.to(h.node))}
	case "ifacefield":
		t := e.meth(c, c.To, c.Std)
		it := ifaceType(t.name)
		x, first := e.viaIface(t, c.V)
		e.decl(ln("type Sf" + id + " struct { i " + it + " }"))
		return []eline{ln("s" + id + " := Sf" + id + "{" + x + "}"), ln("s"+id+".i."+t.name+"()", e.to(first))}
	case "ifacechan":
		t := e.meth(c, c.To, c.Std)
		it := ifaceType(t.name)
		x, first := e.viaIface(t, c.V)
		return []eline{ln("c" + id + " := make(chan " + it + ", 1)"), ln("c" + id + " <- " + x), ln("(<-c"+id+")."+t.name+"()", e.to(first))}
	case "ifacemap":
		t := e.meth(c, c.To, c.Std)
		it := ifaceType(t.name)
		x, first := e.viaIface(t, c.V)
		return []eline{ln("m" + id + " := map[int]" + it + "{1: " + x + "}"), ln("for _, v := range m" + id + " {"), ln("\tv."+t.name+"()", e.to(first)), ln("}")}
	case "mapiface":
		// A global registry.
		t := e.meth(c, c.To, c.Std)
		it := ifaceType(t.name)
		x, first := e.viaIface(t, c.V)
		e.decl(ln("var reg" + id + " = map[string]" + it + "{}"))
		return []eline{ln("reg" + id + "[\"k\"] = " + x), ln("if v, ok := reg" + id + "[\"k\"]; ok {"), ln("\tv."+t.name+"()", e.to(first)), ln("}")}
	case "retiface":
		t := e.meth(c, c.To, c.Std)
		it := ifaceType(t.name)
		x, first := e.viaIface(t, c.V)
		h := e.fnEm("mk" + id)
		e.decl(ln("func mk"+id+"() "+it+" {"), ln("\treturn "+x), ln("}"))
		return []eline{ln("mk"+id+"()."+t.name+"()", e.to(h.node), e.to(first))}
	case "embed", "embedptr":
		t := e.meth(c, c.To, c.Std)
		fld := t.typ
		if i := strings.LastIndexByte(fld, '.'); i >= 0 {
			fld = fld[i+1:]
		}
		if i := strings.IndexByte(fld, '['); i >= 0 {
			fld = fld[:i]
		}
		if c.Form == "embedptr" {
			e.decl(ln("type Em" + id + " struct { *" + t.typ + " }"))
			return []eline{ln("x" + id + " := Em" + id + "{&" + t.typ + "{}}"), ln("x"+id+"."+t.name+"()", e.to(t.node))}
		}
		e.decl(ln("type Em" + id + " struct { " + t.typ + "; n int }"))
		return []eline{ln("x" + id + " := Em" + id + "{}"), ln("x"+id+"."+t.name+"()", e.to(t.node))}
	case "embediface":
		t := e.meth(c, c.To, c.Std)
		it := ifaceType(t.name)
		x, first := e.viaIface(t, c.V)
		e.decl(ln("type Em" + id + " struct { " + it + " }"))
		return []eline{ln("x" + id + " := Em" + id + "{" + x + "}"), ln("x"+id+"."+t.name+"()", e.to(first))}
	case "ifaceembed":
		// Dynamic call of a promoted method.
		t := e.meth(c, c.To, c.Std)
		it := ifaceType(t.name)
		e.decl(ln("type Em" + id + " struct { " + t.typ + " }"))
		wr := "~p" + id
		w.m.synth(wr, w.m.nodes[t.node].pkg, "")
		w.m.bare(wr, t.node)
		amp := ""
		if t.ptr || c.V%2 == 0 {
			amp = "&"
		}
		return []eline{ln("var i" + id + " " + it + " = " + amp + "Em" + id + "{}"), ln("i"+id+"."+t.name+"()", e.to(wr))}
	case "bound":
		t := e.meth(c, c.To, c.Std)
		b := t.node + "$bound"
		w.m.synth(b, w.m.nodes[t.node].pkg, "")
		w.m.bare(b, t.node)
		return []eline{ln("f" + id + " := " + t.recv() + "." + t.name), ln("f"+id+"()", e.to(b))}
	case "thunk":
		t := e.meth(c, c.To, c.Std)
		b := t.node + "$thunk"
		w.m.synth(b, w.m.nodes[t.node].pkg, "")
		w.m.bare(b, t.node)
		if t.ptr {
			return []eline{ln("f" + id + " := (*" + t.typ + ")." + t.name), ln("f"+id+"(&"+t.typ+"{})", e.to(b))}
		}
		return []eline{ln("f" + id + " := " + t.typ + "." + t.name), ln("f"+id+"("+t.typ+"{})", e.to(b))}
	case "ifacebound":
		t := e.meth(c, c.To, c.Std)
		it := ifaceType(t.name)
		x, first := e.viaIface(t, c.V)
		b := "~ib" + id
		w.m.synth(b, e.path(), "")
		w.m.bare(b, first)
		return []eline{ln("var i" + id + " " + it + " = " + x), ln("f" + id + " := i" + id + "." + t.name), ln("f"+id+"()", e.to(b))}
	case "alias":
		t := e.meth(c, c.To, c.Std)
		e.decl(ln("type Al" + id + " = " + t.typ))
		if t.ptr {
			return []eline{ln("(&Al"+id+"{})."+t.name+"()", e.to(t.node))}
		}
		return []eline{ln("Al"+id+"{}."+t.name+"()", e.to(t.node))}
	case "hof":
		t := value()
		h := e.fnEm("hof" + id)
		e.decl(ln("func hof"+id+"(f func()) {"), ln("\tf()", h.to(t.chain[0])), ln("}"))
		return []eline{ln("hof"+id+"("+t.val+")", e.to(h.node))}
	case "hofclosure":
		h := e.fnEm("hof" + id)
		k := e.closure()
		e.decl(ln("func hof"+id+"(f func()) {"), ln("\tif f != nil {"), ln("\t\tf()", h.to(k.node)), ln("\t}"), ln("}"))
		return cat(ln("hof"+id+"(func() {", e.to(h.node)), inner(k), ln("})", e.to(h.node)))
	case "hofpkg":
		// The function value travels down to a package that does not
		// import this one.
		q := -1
		for i := e.f.pkg + 1; i < len(w.p.Pkgs); i++ {
			if !w.p.Pkgs[i].Dead && !w.p.Pkgs[i].Main {
				q = i
				if i%(c.V%3+1) == 0 {
					break
				}
			}
		}
		t := value()
		if q < 0 {
			return []eline{ln(t.call, e.to(t.node))}
		}
		o := &em{w, w.file(q, "zaux.go"), "", e.anon}
		h := o.fnEm("Hof" + id)
		e.needed(h.node, t.chain[0])
		o.decl(ln("func Hof"+id+"(f func()) {"), ln("\tf()", h.to(t.chain[0])), ln("}"))
		return []eline{ln(e.imp(q)+"Hof"+id+"("+t.val+")", e.to(h.node))}
	case "lookalike":
		// Functions and methods of the same names as those of the standard
		// library, which do not call what they are given.
		q := -1
		for i := e.f.pkg; i < len(w.p.Pkgs); i++ {
			if i == e.f.pkg || !w.p.Pkgs[i].Dead && !w.p.Pkgs[i].Main {
				q = i
				if n := w.p.Pkgs[i].Name; n == "sort" || n == "sync" {
					break
				}
			}
		}
		look := w.p.pkgPath(q)
		if !w.look[q] {
			w.look[q] = true
			o := &em{w, w.file(q, "zaux.go"), "", e.anon}
			for _, n := range []string{"Slice", "SliceStable", "Sort", "Stable", "(*" + look + ".Once).Do"} {
				o.fnEm(n)
			}
			o.decl(ln("type Once struct{ n int }"), ln("func (o *Once) Do(f func()) { o.n++ }"),
				ln("func Slice(x any, less func(i, j int) bool) {}"), ln("func SliceStable(x any, less func(i, j int) bool) {}"),
				ln("type Interface interface {"), ln("\tLen() int"), ln("\tLess(i, j int) bool"), ln("\tSwap(i, j int)"), ln("}"),
				ln("func Sort(x Interface) {}"), ln("func Stable(x Interface) {}"))
		}
		s := e.imp(q)
		switch c.V % 5 {
		case 0, 1:
			k := e.closure()
			do := e.to("(*" + look + ".Once).Do")
			return cat(ln("var lo"+id+" "+s+"Once"), ln("lo"+id+".Do(func() {", do), inner(k), ln("})", do))
		case 2, 3:
			k := e.closure()
			t := k.target(c.To, c.Std, false)
			fn := []string{"Slice", "SliceStable"}[c.V%2]
			return []eline{ln(s+fn+"([]int{2, 1}, func(i, j int) bool { "+t.call+"; return i < j })", e.to(look+"."+fn), k.to(t.node))}
		}
		ty := "Lo" + id
		e.decl(ln("type " + ty + " []int"))
		for i, m := range []string{"Len", "Less", "Swap"} {
			h := e.fnEm("(" + e.path() + "." + ty + ")." + m)
			e.decl(ln("func (x " + ty + ") " + m + []string{"() int", "(i, j int) bool", "(i, j int)"}[i] + " {"))
			if i == c.V/10%3 {
				t := h.target(c.To, c.Std, false)
				e.decl(ln("\t"+t.call, h.to(t.node)))
			}
			e.decl(ln("\t"+[]string{"return 2", "return i < j", "_ = i"}[i]), ln("}"))
		}
		fn := []string{"Sort", "Stable"}[c.V/5%2]
		return []eline{ln(s+fn+"("+ty+"{2, 1})", e.to(look+"."+fn))}
	case "ret":
		h := e.fnEm("mk" + id)
		k := h.closure()
		e.decl(cat(ln("func mk"+id+"() func() {"), ln("\treturn func() {"), inner(k), ln("\t}"), ln("}"))...)
		return []eline{ln("mk"+id+"()()", e.to(h.node), e.to(k.node))}
	case "retfunc":
		t := value()
		h := e.fnEm("mk" + id)
		e.decl(ln("func mk"+id+"() func() {"), ln("\treturn "+t.val), ln("}"))
		return []eline{ln("f"+id+" := mk"+id+"()", e.to(h.node)), ln("f"+id+"()", e.to(t.chain[0]))}
	case "variadic":
		t := value()
		t2 := e.target(c.To2, c.Std, true)
		ft := funcType()
		h := e.fnEm("all" + id)
		e.decl(ln("func all"+id+"(fs ..."+ft+") {"), ln("\tfor _, f := range fs {"), ln("\t\tf()", h.to(t.chain[0]), h.to(t2.chain[0])), ln("\t}"), ln("}"))
		return []eline{ln("all"+id+"("+t.val+", "+t2.val+")", e.to(h.node))}
	case "sortslice", "sortstable":
		s := e.std("sort")
		fn := "Slice"
		if c.Form == "sortstable" {
			fn = "SliceStable"
		}
		k := e.closure()
		t := k.target(c.To, c.Std, false)
		w.m.bare(e.node, k.node)
		if c.V%2 == 0 {
			return []eline{ln(s+fn+"([]int{2, 1}, func(i, j int) bool { "+t.call+"; return i < j })", e.to(k.node), k.to(t.node))}
		}
		return []eline{ln("less" + id + " := func(i, j int) bool {"), ln("\t"+t.call, k.to(t.node)), ln("\treturn i < j"), ln("}"), ln(s+fn+"([]int{2, 1}, less"+id+")", e.to(k.node))}
	case "sortslicefn":
		s := e.std("sort")
		fn := []string{"Slice", "SliceStable"}[c.V%2]
		if c.V%4 < 2 {
			h := e.fnEm("less" + id)
			t := h.target(c.To, c.Std, false)
			e.decl(ln("func less"+id+"(i, j int) bool {"), ln("\t"+t.call, h.to(t.node)), ln("\treturn i > j"), ln("}"))
			w.m.bare(e.node, h.node)
			return []eline{ln(s+fn+"([]int{2, 1}, less"+id+")", e.to(h.node))}
		}
		node := "(" + e.path() + ".Ls" + id + ").Cmp" + id
		h := e.fnEm(node)
		t := h.target(c.To, c.Std, false)
		e.decl(ln("type Ls"+id+" struct{ n int }"), ln("func (l Ls"+id+") Cmp"+id+"(i, j int) bool {"), ln("\t"+t.call, h.to(t.node)), ln("\treturn i > j"), ln("}"))
		w.m.bare(e.node, node)
		return []eline{ln("l" + id + " := Ls" + id + "{1}"), ln(s+fn+"([]int{2, 1}, l"+id+".Cmp"+id+")", e.to(node))}
	case "sortsort", "sortiface", "sortnr":
		s := e.std("sort")
		star := ""
		if c.V%3 == 0 {
			star = "*"
		}
		ty := "So" + id
		meths := []string{"Len", "Less", "Swap"}
		which := (c.V / 3) % 3
		e.decl(ln("type " + ty + " []int"))
		var all []string
		for i, m := range meths {
			node := "(" + star + e.path() + "." + ty + ")." + m
			h := e.fnEm(node)
			sig := []string{"() int", "(i, j int) bool", "(i, j int)"}[i]
			ret := []string{"return 2", "return i < j", "_ = i"}[i]
			e.decl(ln("func (x " + star + ty + ") " + m + sig + " {"))
			if i == which {
				t := h.target(c.To, c.Std, false)
				e.decl(ln("\t"+t.call, h.to(t.node)))
			}
			e.decl(ln("\t"+ret), ln("}"))
			all = append(all, node)
		}
		arg := ty + "{2, 1}"
		if star != "" {
			arg = "&" + arg
		}
		fn := []string{"Sort", "Stable", "IsSorted"}[(c.V/9)%3]
		var out []eline
		switch {
		case c.Form == "sortiface":
			out = append(out, ln("var si"+id+" "+s+"Interface = "+arg))
			arg = "si" + id
		case c.V%2 == 0:
			out = append(out, ln("v"+id+" := "+arg))
			arg = "v" + id
		}
		if c.Form == "sortnr" {
			// Positions in which the call is not replaced by calls of the methods.
			w.stdNode("sort." + fn)
			tgt := "sort." + fn
			if fn == "Stable" {
				w.stdNode("sort.Sort")
				tgt = "sort.Sort"
			}
			for i, n := range all {
				if fn == "IsSorted" && i == 2 {
					continue
				}
				w.m.bare(tgt, n)
				e.needed(tgt, n)
			}
			if fn == "IsSorted" {
				return append(out, ln("_ = "+s+fn+"("+arg+")", e.to("sort."+fn)))
			}
			if c.V%2 == 0 && c.V/27%2 == 0 {
				f := []string{"if %; cond {", "for %; cond; {", "for ; cond; % {", "switch %; {", "switch %; any(cond).(type) {"}[c.V/54%5]
				return append(out, ln(strings.Replace(f, "%", s+fn+"("+arg+")", 1), e.to("sort."+fn)), ln("}"))
			}
			return append(out, ln([]string{"go ", "defer "}[c.V%2]+s+fn+"("+arg+")", e.to("sort."+fn)))
		}
		var mk []mark
		for _, n := range all {
			w.m.bare(e.node, n)
			mk = append(mk, e.to(n))
		}
		return append(out, ln(s+fn+"("+arg+")", mk...))
	case "once":
		s := e.std("sync")
		t := value()
		first := t.node // a method value is called directly after the rewrite
		e.decl(ln("var once" + id + " " + s + "Once"))
		w.m.bare(e.node, first)
		return []eline{ln("once"+id+".Do("+t.val+")", e.to(first))}
	case "onceclosure":
		s := e.std("sync")
		k := e.closure()
		w.m.bare(e.node, k.node)
		return cat(ln("var o"+id+" = &"+s+"Once{}"), ln("o"+id+".Do(func() {", e.to(k.node)), inner(k), ln("})", e.to(k.node)))
	case "oncefield":
		s := e.std("sync")
		k := e.closure()
		t := k.target(c.To, c.Std, false)
		w.m.bare(e.node, k.node)
		e.decl(ln("type Of" + id + " struct { o [2]" + s + "Once }"))
		return []eline{ln("var of" + id + " Of" + id), ln("of"+id+".o[1].Do(func() { "+t.call+" })", e.to(k.node), k.to(t.node))}
	case "oncenr":
		// Not replaced: the receiver is computed by a call, or the call is
		// deferred.
		s := e.std("sync")
		w.stdNode("(*sync.Once).Do")
		t := value()
		w.m.bare("(*sync.Once).Do", t.chain[0])
		e.needed("(*sync.Once).Do", t.chain[0])
		if c.V%2 == 0 {
			h := e.fnEm("getonce" + id)
			in := h.target(c.To2, c.Std, false)
			body := []eline{ln("\t"+in.call, h.to(in.node))}
			get := "getonce" + id + "()"
			rt, ret := "int", "1"
			arr := "var oa" + id + " [3]" + s + "Once"
			var recv string
			switch c.V / 2 % 12 {
			case 0:
				rt, recv = "*"+s+"Once", get
			case 1:
				rt, recv = "*"+s+"Once", "(*"+get+")"
			case 2:
				recv = "oa" + id + "[" + get + "]"
			case 3:
				recv = "oa" + id + "[1:][" + get + "-1]"
			case 4:
				recv = "oa" + id + "[" + get + ":][0]"
			case 5:
				recv = "oa" + id + "[:1+" + get + "][0]"
			case 6:
				recv = "oa" + id + "[:1:" + get + "][0]"
			case 7:
				rt, recv = "*"+s+"Once", "[]*"+s+"Once{"+get+"}[0]"
			case 8:
				rt, recv = "*"+s+"Once", "map[int]*"+s+"Once{1: "+get+"}[1]"
			case 9:
				rt, recv = "any", get+".(*"+s+"Once)"
			case 10:
				recv = "(&oa" + id + "[-(-" + get + ")])"
			case 11:
				e.decl(ln("type Oh" + id + " struct{ o " + s + "Once }"))
				rt, recv = "*Oh"+id, get+".o"
				ret = "new(Oh" + id + ")"
			}
			if rt != "int" && ret == "1" {
				ret = "new(" + s + "Once)"
			}
			e.decl(cat(ln("func getonce"+id+"() "+rt+" {"), body, ln("\treturn "+ret), ln("}"))...)
			do := ln(recv+".Do("+t.val+")", e.to(h.node), e.to("(*sync.Once).Do"))
			if rt == "int" {
				return []eline{ln(arr), do}
			}
			return []eline{do}
		}
		return []eline{ln("var o" + id + " " + s + "Once"), ln("defer o"+id+".Do("+t.val+")", e.to("(*sync.Once).Do"))}
	case "slicearg":
		// The slice is computed by a call, which must not be lost.
		s := e.std("sort")
		fn := []string{"Slice", "SliceStable"}[c.V%2]
		w.stdNode("sort." + fn)
		g := e.fnEm("items" + id)
		in := g.target(c.To2, c.Std, false)
		e.decl(ln("func items"+id+"() []int {"), ln("\t"+in.call, g.to(in.node)), ln("\treturn nil"), ln("}"))
		h := e.fnEm("less" + id)
		t := h.target(c.To, c.Std, false)
		e.decl(ln("func less"+id+"(i, j int) bool {"), ln("\t"+t.call, h.to(t.node)), ln("\treturn i > j"), ln("}"))
		w.m.bare("sort."+fn, h.node)
		e.needed("sort."+fn, h.node)
		arg := []string{"items" + id + "()", "items" + id + "()[1:]", "[][]int{items" + id + "()}[0]"}[c.V/2%3]
		return []eline{ln(s+fn+"("+arg+", less"+id+")", e.to(g.node), e.to("sort."+fn))}
	case "sortarg", "sortgeneric":
		// The value to sort is computed by a call, or has the type of a
		// type parameter.
		s := e.std("sort")
		ty := "Sa" + id
		var all []string
		e.decl(ln("type " + ty + " []int"))
		for i, m := range []string{"Len", "Less", "Swap"} {
			node := "(" + e.path() + "." + ty + ")." + m
			h := e.fnEm(node)
			e.decl(ln("func (x " + ty + ") " + m + []string{"() int", "(i, j int) bool", "(i, j int)"}[i] + " {"))
			if i == c.V%3 {
				t := h.target(c.To, c.Std, false)
				e.decl(ln("\t"+t.call, h.to(t.node)))
			}
			e.decl(ln("\t"+[]string{"return 2", "return i < j", "_ = i"}[i]), ln("}"))
			all = append(all, node)
		}
		fn := []string{"Sort", "Stable", "IsSorted"}[c.V/3%3]
		from := e
		var mk []mark
		if c.Form == "sortgeneric" {
			g := "~g" + id
			w.m.synth(g, e.path(), e.path()+".gs"+id)
			w.m.node(e.path()+".gs"+id, e.path())
			from = &em{w, e.f, g, e.anon}
		} else {
			h := e.fnEm("items" + id)
			in := h.target(c.To2, c.Std, false)
			e.decl(ln("func items"+id+"() "+ty+" {"), ln("\t"+in.call, h.to(in.node)), ln("\treturn nil"), ln("}"))
			mk = append(mk, e.to(h.node))
		}
		for _, n := range all {
			w.m.bare(from.node, n)
			mk = append(mk, from.to(n))
		}
		if c.Form == "sortgeneric" {
			e.decl(ln("func gs"+id+"[T "+s+"Interface](t T) {"), ln("\t"+s+fn+"(t)", mk...), ln("}"))
			return []eline{ln("gs"+id+"("+ty+"{1})", e.to(from.node))}
		}
		return []eline{ln(s+fn+"(items"+id+"())", mk...)}
	case "slicenr":
		s := e.std("sort")
		fn := []string{"Slice", "SliceStable"}[c.V%2]
		w.stdNode("sort." + fn)
		h := e.fnEm("less" + id)
		t := h.target(c.To, c.Std, false)
		e.decl(ln("func less"+id+"(i, j int) bool {"), ln("\t"+t.call, h.to(t.node)), ln("\treturn i > j"), ln("}"))
		w.m.bare("sort."+fn, h.node)
		e.needed("sort."+fn, h.node)
		return []eline{ln([]string{"go ", "defer "}[c.V/2%2]+s+fn+"([]int{2, 1}, less"+id+")", e.to("sort."+fn))}
	case "stringer":
		s := e.std("fmt")
		w.stdNode("fmt.Sprint")
		node := "(" + e.path() + ".Sg" + id + ").String"
		h := e.fnEm(node)
		t := h.target(c.To, c.Std, false)
		e.decl(ln("type Sg"+id+" struct{ n int }"), ln("func (Sg"+id+") String() string {"), ln("\t"+t.call, h.to(t.node)), ln("\treturn \"\""), ln("}"))
		w.m.bare("fmt.Sprint", node)
		e.needed("fmt.Sprint", node)
		return []eline{ln("_ = "+s+"Sprint(1, Sg"+id+"{})", e.to("fmt.Sprint"))}
	case "afterfunc":
		s := e.std("time")
		w.stdNode("time.AfterFunc")
		t := value()
		w.m.bare("time.AfterFunc", t.chain[0])
		e.needed("time.AfterFunc", t.chain[0])
		return []eline{ln(s+"AfterFunc(1, "+t.val+")", e.to("time.AfterFunc"))}
	case "rangefunc":
		h := e.fnEm("seq" + id)
		k := e.closure()
		e.decl(ln("func seq"+id+"(yield func(int) bool) {"), ln("\tif !yield(1) {", h.to(k.node)), ln("\t\treturn"), ln("\t}"), ln("}"))
		if strings.HasPrefix(c.Sub, "defer") || c.Sub == "oncenr" || c.Sub == "sortnr" || c.Sub == "slicenr" || c.Sub == "godirectiface" {
			c.Sub = "" // a deferred call would belong to the function around the loop
		}
		w.m.bare(e.node, h.node)
		return cat(ln("for v := range seq"+id+" {", e.to(h.node)), ln("\t_ = v"), inner(k), ln("}"))
	case "gdispatch":
		t := e.meth(c, c.To, c.Std)
		it := ifaceType(t.name)
		g := "~g" + id
		w.m.synth(g, e.path(), e.path()+".gd"+id)
		w.m.node(e.path()+".gd"+id, e.path())
		ge := &em{w, e.f, g, e.anon}
		e.decl(ln("func gd"+id+"[T "+it+"](t T) {"), ln("\tt."+t.name+"()", ge.to(t.node)), ln("}"))
		return []eline{ln("gd"+id+"("+t.recv()+")", e.to(g))}
	case "gtype":
		g := "~g" + id
		w.m.synth(g, e.path(), "(*"+e.path()+".Gt"+id+"[T]).Mg"+id)
		ge := &em{w, e.f, g, e.anon}
		t := ge.target(c.To, c.Std, false)
		e.decl(ln("type Gt"+id+"[T any] struct{ v T }"), ln("func (g *Gt"+id+"[T]) Mg"+id+"() {"), ln("\t"+t.call, ge.to(t.node)), ln("}"))
		return []eline{ln("x" + id + " := &Gt" + id + "[string]{}"), ln("x"+id+".Mg"+id+"()", e.to(g))}
	case "ghof":
		t := value()
		ft := funcType()
		g := "~g" + id
		w.m.synth(g, e.path(), e.path()+".gh"+id)
		w.m.node(e.path()+".gh"+id, e.path())
		ge := &em{w, e.f, g, e.anon}
		e.decl(ln("func gh"+id+"[F ~func()](f F) {"), ln("\tf()", ge.to(t.chain[0])), ln("}"))
		return []eline{ln("gh"+id+"("+ft+"("+t.val+"))", e.to(g))}
	case "assert":
		t := e.meth(c, c.To, c.Std)
		it := ifaceType(t.name)
		x, first := e.viaIface(t, c.V)
		return []eline{ln("var a" + id + " any = " + x), ln("if cond {"), ln("\ta" + id + " = " + x), ln("}"), ln("a"+id+".("+it+")."+t.name+"()", e.to(first))}
	case "tswitchcall":
		t := e.meth(c, c.To, c.Std)
		x := t.recv()
		ty := t.typ
		if t.ptr {
			ty = "*" + ty
		}
		return []eline{ln("var a" + id + " any = " + x), ln("switch v := a" + id + ".(type) {"), ln("case int:"), ln("\t_ = v"), ln("case " + ty + ":"), ln("\tv."+t.name+"()", e.to(t.node)), ln("}")}
	case "anyparam":
		t := e.meth(c, c.To, c.Std)
		it := ifaceType(t.name)
		x, first := e.viaIface(t, c.V)
		h := e.fnEm("take" + id)
		e.decl(ln("func take"+id+"(a any) {"), ln("\tif i, ok := a.("+it+"); ok {"), ln("\t\ti."+t.name+"()", h.to(first)), ln("\t}"), ln("}"))
		return []eline{ln("take"+id+"("+x+")", e.to(h.node))}
	}
	panic("unknown form " + c.Form)
}

// opaqueKinds are constructs the analysis cannot see through, or that look
// like them and are harmless.
var opaqueKinds = []string{"unsafe", "unsafenamed", "unsafeclosure", "uintptr", "topointer", "reflectglobal", "reflectptr", "reflectslice", "reflectarray", "reflectstruct", "reflectnested",
	"reflectlocal", "reflectlocalstruct", "reflectlocalarray", "reflectclosure", "reflectescape", "reflectmap",
	"unsafearg", "unsafereturn", "unsafelit", "unsafecond", "unsafefield", "unsafedefer", "reflectalias", "reflectaliasstruct", "reflectembed", "reflectmatrix", "reflectcapture", "reflectrec", "reflectparam", "reflectrange",
	"reflectret", "reflectpointer", "reflectchan", "reflectiface", "reflectnamedresult", "reflectpair", "plainpair", "reflectfield", "reflectelem", "reflectdeep", "reflectownpointer",
	"unsafegeneric", "uintptrgeneric", "unsafetogeneric", "unsafemethod",
	"unsafetonamed", "uintptrnamed", "reflectwholearray", "reflectonlyembed", "reflectblank", "reflectembedded2", "reflectanon", "reflectslot"}

func (e *em) opaque(kind string) []eline {
	id := e.w.uid()
	flag := func(c string) { e.w.m.nodes[e.node].extra[c] = true }
	val := func() string {
		s := e.std("reflect")
		e.w.stdNode("reflect.ValueOf")
		return s + "ValueOf(1)"
	}
	vm := e.to("reflect.ValueOf")
	switch kind {
	case "unsafe":
		s := e.std("unsafe")
		flag("UNSAFE_POINTER")
		return []eline{ln("u" + id + " := 1"), ln("_ = *(*float64)(" + s + "Pointer(&u" + id + "))")}
	case "unsafenamed":
		s := e.std("unsafe")
		flag("UNSAFE_POINTER")
		e.decl(ln("type Up"+id+" "+s+"Pointer"), ln("type Pt"+id+" *int"))
		return []eline{ln("var u" + id + " Up" + id), ln("var q" + id + " Pt" + id + " = Pt" + id + "(u" + id + ")"), ln("_ = q" + id)}
	case "unsafeclosure":
		s := e.std("unsafe")
		k := e.closure()
		e.w.m.nodes[k.node].extra["UNSAFE_POINTER"] = true
		return []eline{ln("func() {", e.to(k.node)), ln("\tu" + id + " := 1"), ln("\t_ = *(*uint)(" + s + "Pointer(&u" + id + "))"), ln("}()", e.to(k.node))}
	case "uintptr":
		s := e.std("unsafe")
		return []eline{ln("u" + id + " := 1"), ln("_ = uintptr(" + s + "Pointer(&u" + id + "))")}
	case "topointer":
		s := e.std("unsafe")
		return []eline{ln("u" + id + " := 1"), ln("_ = " + s + "Pointer(&u" + id + ")"), ln("_ = " + s + "Sizeof(u" + id + ")")}
	case "reflectglobal":
		v := val()
		flag("REFLECT")
		e.decl(ln("var rv" + id + " reflect.Value"))
		return []eline{ln("rv"+id+" = "+v, vm)}
	case "reflectptr":
		v := val()
		h := e.fnEm("set" + id)
		e.w.m.nodes[h.node].extra["REFLECT"] = true
		e.decl(ln("func set"+id+"(q *reflect.Value) {"), ln("\t*q = "+v, mark{h.node, "reflect.ValueOf"}), ln("}"))
		return []eline{ln("set"+id+"(nil)", e.to(h.node))}
	case "reflectslice":
		v := val()
		flag("REFLECT")
		return []eline{ln("s" + id + " := make([]reflect.Value, 2)"), ln("s"+id+"[1] = "+v, vm)}
	case "reflectarray":
		v := val()
		flag("REFLECT")
		e.decl(ln("var ra" + id + " [3]reflect.Value"))
		return []eline{ln("ra"+id+"[2] = "+v, vm)}
	case "reflectstruct":
		v := val()
		flag("REFLECT")
		e.decl(ln("type Rs"+id+" struct { n int; v reflect.Value }"), ln("var rs"+id+" *Rs"+id))
		return []eline{ln("*rs"+id+" = Rs"+id+"{1, "+v+"}", vm)}
	case "reflectnested":
		v := val()
		flag("REFLECT")
		e.decl(ln("type Rn"+id+" struct { a [2]struct{ v reflect.Value } }"), ln("var rn"+id+" Rn"+id))
		return []eline{ln("var t" + id + " Rn" + id), ln("t"+id+".a[1].v = "+v, vm), ln("rn" + id + " = t" + id)}
	case "reflectescape":
		// The variable is captured by reference and so is not local.
		v := val()
		flag("REFLECT")
		e.decl(ln("var re" + id + " *reflect.Value"))
		return []eline{ln("var t" + id + " reflect.Value"), ln("re" + id + " = &t" + id), ln("t"+id+" = "+v, vm)}
	case "reflectclosure":
		v := val()
		k := e.closure()
		e.w.m.nodes[k.node].extra["REFLECT"] = true
		e.decl(ln("var rv" + id + " reflect.Value"))
		return []eline{ln("func() { rv"+id+" = "+v+" }()", e.to(k.node), k.to("reflect.ValueOf"))}
	case "reflectlocal":
		v := val()
		return []eline{ln("l"+id+" := "+v, vm), ln("if cond {"), ln("\tl"+id+" = "+v, vm), ln("}"), ln("_ = l" + id)}
	case "reflectlocalstruct":
		v := val()
		e.decl(ln("type Rl" + id + " struct { v reflect.Value }"))
		return []eline{ln("var t" + id + " Rl" + id), ln("t"+id+".v = "+v, vm), ln("_ = t" + id)}
	case "reflectlocalarray":
		v := val()
		return []eline{ln("var t" + id + " [2]reflect.Value"), ln("t"+id+"[1] = "+v, vm), ln("_ = t" + id)}
	case "reflectmap":
		v := val()
		return []eline{ln("m" + id + " := map[int]reflect.Value{}"), ln("m"+id+"[1] = "+v, vm)}
	}
	switch kind {
	case "unsafearg":
		// The conversion is an argument of a call.
		s := e.std("unsafe")
		flag("UNSAFE_POINTER")
		h := e.fnEm("sink" + id)
		e.decl(ln("func sink" + id + "(q *uint) {}"))
		return []eline{ln("u" + id + " := 1"), ln("sink"+id+"((*uint)("+s+"Pointer(&u"+id+")))", e.to(h.node))}
	case "unsafereturn":
		s := e.std("unsafe")
		h := e.fnEm("conv" + id)
		e.w.m.nodes[h.node].extra["UNSAFE_POINTER"] = true
		e.decl(ln("func conv" + id + "(q *int) *[4]byte { return (*[4]byte)(" + s + "Pointer(q)) }"))
		return []eline{ln("_ = conv"+id+"(nil)", e.to(h.node))}
	case "unsafelit":
		s := e.std("unsafe")
		flag("UNSAFE_POINTER")
		return []eline{ln("u" + id + " := 1"), ln("_ = []struct{ q *uint16 }{{q: (*uint16)(" + s + "Pointer(&u" + id + "))}}")}
	case "unsafecond":
		s := e.std("unsafe")
		flag("UNSAFE_POINTER")
		return []eline{ln("var u" + id + " " + s + "Pointer"), ln("switch {"), ln("case cond && *(*bool)(u" + id + "):"), ln("}")}
	case "unsafefield":
		s := e.std("unsafe")
		flag("UNSAFE_POINTER")
		e.decl(ln("type Uf" + id + " struct{ p " + s + "Pointer }"))
		return []eline{ln("var u" + id + " Uf" + id), ln("for range 2 {"), ln("\t_ = (*Uf" + id + ")(u" + id + ".p)"), ln("}")}
	case "unsafedefer":
		s := e.std("unsafe")
		k := e.closure()
		e.w.m.nodes[k.node].extra["UNSAFE_POINTER"] = true
		return []eline{ln("defer func() {", e.to(k.node)), ln("\tvar u" + id + " " + s + "Pointer"), ln("\t_ = (*int)(u" + id + ")"), ln("}()", e.to(k.node))}
	case "reflectalias":
		v := val()
		flag("REFLECT")
		e.decl(ln("type Ra"+id+" = reflect.Value"), ln("var rb"+id+" Ra"+id))
		return []eline{ln("rb"+id+" = "+v, vm)}
	case "reflectaliasstruct":
		v := val()
		flag("REFLECT")
		e.decl(ln("type Ra"+id+" = struct{ v [1]reflect.Value; n int }"), ln("var rb"+id+" *Ra"+id))
		return []eline{ln("*rb"+id+" = Ra"+id+"{v: [1]reflect.Value{"+v+"}}", vm)}
	case "reflectembed":
		v := val()
		flag("REFLECT")
		e.decl(ln("type Re"+id+" struct{ reflect.Value }"), ln("type Rf"+id+" struct{ n int; Re"+id+" }"), ln("var rg"+id+" Rf"+id))
		return []eline{ln("rg"+id+" = Rf"+id+"{1, Re"+id+"{"+v+"}}", vm)}
	case "reflectmatrix":
		v := val()
		flag("REFLECT")
		e.decl(ln("var rm" + id + " [2][2]reflect.Value"))
		return []eline{ln("rm"+id+"[1][0] = "+v, vm)}
	case "reflectcapture":
		v := val()
		k := e.closure()
		e.w.m.nodes[k.node].extra["REFLECT"] = true
		return []eline{ln("var t" + id + " reflect.Value"), ln("func() { t"+id+" = "+v+" }()", e.to(k.node), k.to("reflect.ValueOf")), ln("_ = t" + id)}
	case "reflectrec":
		v := val()
		flag("REFLECT")
		e.decl(ln("type Rr"+id+" struct { next *Rr"+id+"; v reflect.Value }"), ln("var rr"+id+" *Rr"+id))
		return []eline{ln("rr"+id+".next.v = "+v, vm)}
	case "reflectparam":
		v := val()
		h := e.fnEm("put" + id)
		e.w.m.nodes[h.node].extra["REFLECT"] = true
		e.decl(ln("func put"+id+"(q []reflect.Value, i int) {"), ln("\tq[i] = "+v, mark{h.node, "reflect.ValueOf"}), ln("}"))
		return []eline{ln("put"+id+"(nil, 0)", e.to(h.node))}
	case "reflectrange":
		v := val()
		flag("REFLECT")
		e.decl(ln("var rh" + id + " [2]reflect.Value"))
		return []eline{ln("for i := range rh" + id + " {"), ln("\trh"+id+"[i] = "+v, vm), ln("}")}
	case "reflectret":
		v := val()
		h := e.fnEm("get" + id)
		e.decl(ln("func get"+id+"() reflect.Value { return "+v+" }", mark{h.node, "reflect.ValueOf"}))
		return []eline{ln("_ = get"+id+"()", e.to(h.node))}
	case "reflectpointer":
		// The pointer is stored, not the value.
		e.std("reflect")
		e.decl(ln("var rp" + id + " *reflect.Value"))
		return []eline{ln("rp" + id + " = nil"), ln("if rp" + id + " != nil {"), ln("\t_ = *rp" + id), ln("}")}
	case "reflectchan":
		v := val()
		return []eline{ln("c" + id + " := make(chan reflect.Value, 1)"), ln("c"+id+" <- "+v, vm)}
	case "reflectiface":
		v := val()
		e.decl(ln("var ri" + id + " any"))
		return []eline{ln("ri"+id+" = "+v, vm)}
	case "reflectnamedresult":
		v := val()
		h := e.fnEm("res" + id)
		e.decl(ln("func res"+id+"() (v reflect.Value) {"), ln("\tv = "+v, mark{h.node, "reflect.ValueOf"}), ln("\treturn"), ln("}"))
		return []eline{ln("_ = res"+id+"()", e.to(h.node))}
	}
	// generic declares a generic function and gives the name of an instance.
	generic := func(name, targ string, extra bool) string {
		g := e.path() + "." + name
		e.w.m.node(g, e.path())
		e.w.m.synth(g+"["+targ+"]", e.path(), g)
		if extra {
			e.w.m.nodes[g].extra["UNSAFE_POINTER"] = true
			e.w.m.nodes[g+"["+targ+"]"].extra["UNSAFE_POINTER"] = true
		}
		return g + "[" + targ + "]"
	}
	switch kind {
	case "unsafegeneric", "uintptrgeneric":
		// The pointer's type is a type parameter.
		s := e.std("unsafe")
		v := e.w.seq
		c := []string{"~" + s + "Pointer", s + "Pointer | *int", "interface{ ~" + s + "Pointer | *int }", "Uc" + id, "interface{ any; Uc" + id + " }", "Ud" + id}[v%6]
		if kind == "uintptrgeneric" {
			c = []string{"~" + s + "Pointer | ~uintptr", s + "Pointer", "Uc" + id, "Ud" + id}[v%4]
		}
		e.decl(ln("type Uc" + id + " interface{ ~" + s + "Pointer }"))
		e.decl(ln("type Ud" + id + " interface{ Uc" + id + "; comparable }"))
		if kind == "uintptrgeneric" {
			g := generic("ug"+id, "unsafe.Pointer", false)
			e.decl(ln("func ug" + id + "[P " + c + "](p P) uintptr { return uintptr(p) }"))
			return []eline{ln("u" + id + " := 1"), ln("_ = ug"+id+"("+s+"Pointer(&u"+id+"))", e.to(g))}
		}
		g := generic("ug"+id, "unsafe.Pointer", true)
		e.decl(ln("func ug" + id + "[P " + c + "](p P) *int { return (*int)(p) }"))
		return []eline{ln("u" + id + " := 1"), ln("_ = ug"+id+"("+s+"Pointer(&u"+id+"))", e.to(g))}
	case "unsafetogeneric":
		s := e.std("unsafe")
		g := generic("ug"+id, "*int8", true)
		e.decl(ln("func ug" + id + "[T ~*int8 | ~*uint8](p " + s + "Pointer) T { return T(p) }"))
		return []eline{ln("_ = ug"+id+"[*int8](nil)", e.to(g))}
	case "unsafemethod":
		// In a method of a struct that holds the pointer.
		s := e.std("unsafe")
		n := "(*" + e.path() + ".Um" + id + ").get"
		e.w.m.node(n, e.path()).extra["UNSAFE_POINTER"] = true
		e.decl(ln("type Um"+id+" struct{ p "+s+"Pointer }"), ln("func (m *Um"+id+") get() (q *int) {"), ln("\tfor q == nil {"), ln("\t\tq = (*int)((m.p))"), ln("\t}"), ln("\treturn"), ln("}"))
		return []eline{ln("_ = (&Um"+id+"{}).get()", e.to(n))}
	case "unsafetonamed":
		// A pointer of another kind, but no integer.
		s := e.std("unsafe")
		flag("UNSAFE_POINTER")
		e.decl(ln("type Ut" + id + " " + s + "Pointer"))
		return []eline{ln("var u" + id + " " + s + "Pointer"), ln("_ = Ut" + id + "(u" + id + ")")}
	case "uintptrnamed":
		s := e.std("unsafe")
		e.decl(ln("type Ui"+id+" uintptr"), ln("type Uj"+id+" = Ui"+id), ln("type Uk"+id+" "+s+"Pointer"))
		return []eline{ln("var u" + id + " Uk" + id), ln("_ = Ui" + id + "(u" + id + ")"), ln("_ = Uj" + id + "(" + s + "Pointer(nil))")}
	case "reflectwholearray":
		v := val()
		flag("REFLECT")
		e.decl(ln("var rg" + id + " [1]reflect.Value"))
		return []eline{ln("h"+id+" := [1]reflect.Value{"+v+"}", vm), ln("rg" + id + " = h" + id)}
	case "reflectonlyembed":
		v := val()
		flag("REFLECT")
		e.decl(ln("type Rw"+id+" struct { n int; reflect.Value }"), ln("var rg"+id+" Rw"+id))
		return []eline{ln("var h" + id + " Rw" + id), ln("h"+id+".Value = "+v, vm), ln("rg" + id + " = h" + id)}
	case "reflectembedded2":
		v := val()
		flag("REFLECT")
		e.decl(ln("type Rw"+id+" struct { n int; reflect.Value }"), ln("type Rx"+id+" struct { Rw"+id+"; m string }"), ln("var rg"+id+" Rx"+id))
		return []eline{ln("var h" + id + " Rx" + id), ln("h"+id+".Rw"+id+".Value = "+v, vm), ln("rg" + id + " = h" + id)}
	case "reflectblank":
		e.std("reflect")
		flag("REFLECT")
		e.decl(ln("type Rw"+id+" struct { n int; _ reflect.Value }"), ln("var rg"+id+" Rw"+id))
		return []eline{ln("var h" + id + " Rw" + id), ln("rg" + id + " = h" + id)}
	case "reflectanon":
		v := val()
		flag("REFLECT")
		e.decl(ln("var rg" + id + " struct { a struct { n int; v [1][2]reflect.Value } }"))
		return []eline{ln("h" + id + " := rg" + id), ln("h"+id+".a.v[0][1] = "+v, vm), ln("rg" + id + " = h" + id)}
	case "reflectslot":
		// Its address is taken, so the variable is not local.
		v := val()
		flag("REFLECT")
		h := e.fnEm("copy" + id)
		e.w.m.nodes[h.node].extra["REFLECT"] = true
		e.decl(ln("func copy"+id+"(to, from *[1]reflect.Value) {"), ln("\t*to = *from"), ln("}"))
		return []eline{ln("h"+id+" := [1]reflect.Value{"+v+"}", vm), ln("copy"+id+"(nil, &h"+id+")", e.to(h.node))}
	case "reflectfield":
		// Through a pointer that is kept in a local variable.
		v := val()
		flag("REFLECT")
		e.decl(ln("var rg" + id + " reflect.Value"))
		return []eline{ln("var h" + id + " struct { n int; p *reflect.Value }"), ln("h" + id + ".p = &rg" + id), ln("*h"+id+".p = "+v, vm)}
	case "reflectelem":
		v := val()
		flag("REFLECT")
		e.decl(ln("var rg"+id+" reflect.Value"), ln("var rx"+id+" int"))
		return []eline{ln("var h" + id + " [3]*reflect.Value"), ln("h" + id + "[rx" + id + "] = &rg" + id), ln("*h"+id+"[rx"+id+"] = "+v, vm)}
	case "reflectdeep":
		// Into a field of something a local struct points to.
		v := val()
		flag("REFLECT")
		e.decl(ln("type Rd"+id+" struct { n int; v reflect.Value }"), ln("var rg"+id+" Rd"+id))
		return []eline{ln("var h" + id + " struct { n int; p *Rd" + id + " }"), ln("h" + id + ".p = &rg" + id), ln("h"+id+".p.v = "+v, vm)}
	case "reflectownpointer":
		// Into a slice that is a field of a local struct: the elements are not
		// part of the variable.
		v := val()
		flag("REFLECT")
		e.decl(ln("var rg" + id + " []reflect.Value"))
		return []eline{ln("var h" + id + " struct { n int; s []reflect.Value }"), ln("h" + id + ".s = rg" + id), ln("h"+id+".s[0] = "+v, vm)}
	case "reflectpair":
		// The same names as in plainpair, so that an edit changes one type.
		v := val()
		flag("REFLECT")
		e.decl(ln("type Pr"+id+" struct { n int; v reflect.Value }"), ln("var pr"+id+" *Pr"+id))
		return []eline{ln("pw"+id+" := Pr"+id+"{1, "+v+"}", vm), ln("*pr" + id + " = pw" + id)}
	case "plainpair":
		e.decl(ln("type Pr"+id+" struct { n, v int }"), ln("var pr"+id+" *Pr"+id))
		return []eline{ln("pw" + id + " := Pr" + id + "{1, 2}"), ln("*pr" + id + " = pw" + id)}
	}
	panic("unknown opaque kind " + kind)
}

func (w *world) emitFn(f *Fn, initNo int) {
	p := w.p
	file := w.file(f.Pkg, "f"+itoa(f.File%max(1, p.Pkgs[f.Pkg].Files))+".go")
	path := p.pkgPath(f.Pkg)
	e := &em{w, file, "", map[string]int{}}
	init := path + ".init"
	var body []eline
	fill := func() {
		for _, o := range f.Opaque {
			body = append(body, e.opaque(o)...)
		}
		for _, c := range f.Calls {
			body = append(body, e.call(c)...)
		}
	}
	put := func(head eline, tail ...string) {
		file.body = append(file.body, head)
		for _, l := range body {
			file.body = append(file.body, eline{"\t" + l.s, l.marks})
		}
		for _, s := range tail {
			file.body = append(file.body, ln(s))
		}
	}
	switch f.Kind {
	case "func":
		e.node = p.node(f)
		w.m.node(e.node, path)
		fill()
		put(ln("func "+fnName(f)+"() {"), "}")
	case "vmethod", "pmethod":
		e.node = p.node(f)
		w.m.node(e.node, path)
		fill()
		star := ""
		if f.Kind == "pmethod" {
			star = "*"
		}
		file.body = append(file.body, ln("type "+typeName(f)+" struct{ n int }"))
		put(ln("func (r "+star+typeName(f)+") "+fnName(f)+"() {"), "}")
	case "generic":
		e.node = p.node(f)
		w.m.synth(e.node, path, path+"."+fnName(f))
		fill()
		put(ln("func "+fnName(f)+"[T any]() {"), "}")
		file.body = append(file.body, ln("var inst"+itoa(f.ID)+" = "+fnName(f)+"["+f.typeSrc()+"]"))
		if f.T2 != "" {
			file.body = append(file.body, ln("var other"+itoa(f.ID)+" = "+fnName(f)+"["+f.T2+"]"))
		}
	case "gmethod":
		e.node = p.node(f)
		w.m.synth(e.node, path, "("+path+"."+typeName(f)+"[T])."+fnName(f))
		fill()
		file.body = append(file.body, ln("type "+typeName(f)+"[T any] struct{ v T }"))
		put(ln("func (r "+typeName(f)+"[T]) "+fnName(f)+"() {"), "}")
		file.body = append(file.body, ln("var inst"+itoa(f.ID)+" = "+typeName(f)+"["+f.typeSrc()+"]{}."+fnName(f)))
	case "init":
		e.node = path + ".init#" + itoa(initNo)
		w.m.node(e.node, path)
		w.m.bare(init, e.node)
		fill()
		put(ln("func init() {"), "}")
	case "varinit":
		e.node = p.node(f)
		w.m.node(e.node, path)
		fill()
		file.body = append(file.body, ln("var vi"+itoa(f.ID)+" = "+fnName(f)+"()", mark{init, e.node}))
		put(ln("func "+fnName(f)+"() int {"), "\treturn 1", "}")
	case "varlit":
		e.node = init + "$1"
		w.m.node(e.node, path)
		fill()
		put(ln("var vl"+itoa(f.ID)+" = func() int {", mark{init, e.node}), "\treturn 1")
		file.body = append(file.body, ln("}()", mark{init, e.node}))
	case "varunsafe":
		s := e.std("unsafe")
		e.node = init
		w.m.node(init, path).extra["UNSAFE_POINTER"] = true
		file.body = append(file.body, ln("var ux"+itoa(f.ID)+" int"), ln("var uy"+itoa(f.ID)+" = *(*float64)("+s+"Pointer(&ux"+itoa(f.ID)+"))"))
	case "asm":
		e.node = p.node(f)
		n := w.m.node(e.node, path)
		n.extra["ARBITRARY_EXECUTION"] = true
		file.body = append(file.body, ln("func "+fnName(f)+"()"))
		w.extra[w.dir(f.Pkg)+"/asm.s"] = "TEXT x(SB),0,$0\n"
	case "asmmethod":
		e.node = p.node(f)
		n := w.m.node(e.node, path)
		n.extra["ARBITRARY_EXECUTION"] = true
		file.body = append(file.body, ln("type "+typeName(f)+" struct{ n int }"), ln("func (*"+typeName(f)+") "+fnName(f)+"()"))
		w.extra[w.dir(f.Pkg)+"/asm.s"] = "TEXT x(SB),0,$0\n"
	case "linkname":
		e.node = p.node(f)
		n := w.m.node(e.node, path)
		n.extra["ARBITRARY_EXECUTION"] = true
		if _, ok := file.imports["unsafe"]; !ok {
			file.imports["unsafe"] = "_"
		}
		if _, ok := w.files[f.Pkg]; ok {
			w.extra[w.dir(f.Pkg)+"/asm.s"] = "TEXT x(SB),0,$0\n"
		}
		file.body = append(file.body, ln("//go:linkname "+fnName(f)+" runtime.hidden"), ln("func "+fnName(f)+"()"))
	case "cgo":
		// The function lives in a file that the cgo tool has translated.
		e.node = p.node(f)
		w.m.node(e.node, path)
		cf, call := "_Cfunc_c"+itoa(f.ID), "_cgo_runtime_cgocall"
		w.m.node(path+"."+cf, path)
		w.m.node(path+"."+call, path)
		w.m.edge(e.node, path+"."+cf).sites["c"+itoa(f.ID)+".go:6"] = true
		w.m.bare(path+"."+cf, path+"."+call)
		w.m.edge(path+"."+cf, path+"."+call).sites["_cgo_gotypes.go:*"] = true
		src := "package " + p.Pkgs[f.Pkg].Name + "\n\n"
		w.extra[w.dir(f.Pkg)+"/c"+itoa(f.ID)+".go"] = src + "// void c" + itoa(f.ID) + "(void);\nimport \"C\"\n\nfunc " + fnName(f) + "() { C.c" + itoa(f.ID) + "() }\n"
		gen := "/gocache/cgo/" + path
		w.extra[gen+"/c"+itoa(f.ID)+".cgo1.go"] = "// Code generated by cmd/cgo; DO NOT EDIT.\n\n//line c" + itoa(f.ID) + ".go:1:1\n" + src + "// void c" + itoa(f.ID) +
			"(void);\nimport _ \"unsafe\"\n\nfunc " + fnName(f) + "() { (" + cf + ")() }\n"
		g := gen + "/_cgo_gotypes.go"
		if w.extra[g] == "" {
			w.extra[g] = "// Code generated by cmd/cgo; DO NOT EDIT.\n\npackage " + p.Pkgs[f.Pkg].Name + "\n\nimport \"unsafe\"\n\nimport _ \"runtime/cgo\"\n\nimport \"syscall\"\n\nvar _ syscall.Errno\n\ntype _Ctype_void [0]byte\n\n//go:linkname _cgo_runtime_cgocall runtime.cgocall\nfunc _cgo_runtime_cgocall(unsafe.Pointer, uintptr) int32\n\n"
		}
		w.extra[g] += "var __cgofn_c" + itoa(f.ID) + " byte\nvar _cgo_c" + itoa(f.ID) + " = unsafe.Pointer(&__cgofn_c" + itoa(f.ID) + ")\n\nfunc " + cf + "() (r1 _Ctype_void) {\n\t_cgo_runtime_cgocall(_cgo_c" + itoa(f.ID) +
			", uintptr(unsafe.Pointer(&r1)))\n\treturn\n}\n\n"
		for _, s := range []string{"syscall", "runtime/cgo", "unsafe"} {
			if _, ok := file.imports[s]; !ok {
				file.imports[s] = "_"
			}
		}
	default:
		panic("unknown kind " + f.Kind)
	}
}

// dir is the directory of a package in the simulated file system.
func (w *world) dir(pkg int) string {
	k := w.p.Pkgs[pkg]
	d := w.modDir(k.Mod)
	if k.Rel != "" {
		d += "/" + k.Rel
	}
	return d
}

func (w *world) modDir(i int) string {
	m := w.p.Mods[i]
	switch m.Where {
	case "main":
		return "/work"
	case "cache":
		return "/gomodcache/" + m.Path + "@" + m.Ver
	case "proxy":
		return "/goproxy/" + m.Path + "@" + m.Ver
	case "work":
		return "/other" + itoa(i)
	}
	return "/repl" + itoa(i)
}

// render turns a program into source files and a model of its calls.
func render(p *Prog) *world {
	w := &world{p: p, files: map[int]map[string]*gofile{}, extra: map[string]string{}, m: newModel(), forms: map[string]int{}, look: map[int]bool{}, dup: map[string][]string{}}
	inits := map[int]int{}
	// Initialisers are numbered in the order of files, then of position.
	order := append([]*Fn(nil), p.Fns...)
	sort.SliceStable(order, func(i, j int) bool {
		a, b := order[i], order[j]
		if a.Pkg != b.Pkg {
			return a.Pkg < b.Pkg
		}
		return a.File%max(1, p.Pkgs[a.Pkg].Files) < b.File%max(1, p.Pkgs[b.Pkg].Files)
	})
	for i, k := range p.Pkgs {
		if k.Dead {
			continue
		}
		f := w.file(i, "f0.go")
		f.body = append(f.body, ln("var cond bool"), ln("var chn chan int"))
		w.m.node(p.pkgPath(i)+".init", p.pkgPath(i))
		for _, b := range k.Blank {
			if !p.Pkgs[b].Dead && !p.Pkgs[b].Main {
				f.imports[p.pkgPath(b)] = "_" // given a name if it is used too
			}
		}
		if k.Main {
			f.body = append(f.body, ln("func main() {}"))
			w.m.node(p.pkgPath(i)+".main", p.pkgPath(i))
		}
	}
	for _, f := range order {
		if f.Dead || p.Pkgs[f.Pkg].Dead || !callable(f) {
			continue
		}
		path := p.pkgPath(f.Pkg)
		switch f.Kind {
		case "generic":
			w.m.synth(p.node(f), path, path+"."+fnName(f))
			w.m.node(path+"."+fnName(f), path)
			w.dup[p.node(f)] = []string{path + "." + fnName(f)}
			if f.T2 != "" {
				w.m.synth(p.otherNode(f), path, path+"."+fnName(f))
				w.dup[p.node(f)] = append(w.dup[p.node(f)], p.otherNode(f))
			}
		case "gmethod":
			w.m.synth(p.node(f), path, "("+path+"."+typeName(f)+"[T])."+fnName(f))
		default:
			w.m.node(p.node(f), path)
		}
	}
	for _, f := range order {
		if f.Dead || p.Pkgs[f.Pkg].Dead {
			continue
		}
		if f.Kind == "init" {
			inits[f.Pkg]++
		}
		w.emitFn(f, inits[f.Pkg])
	}
	w.emitChaff()
	return w
}

// sources produces the files and completes the model with positions.
func (w *world) sources() map[string]string {
	out := map[string]string{}
	p := w.p
	for f, s := range w.extra {
		out[f] = s
	}
	for pi, files := range w.files {
		for name, f := range files {
			var b strings.Builder
			if f.header != "" {
				b.WriteString(f.header + "\n\n")
			}
			b.WriteString("package " + p.Pkgs[pi].Name + "\n\n")
			var imps []string
			for s := range f.imports {
				imps = append(imps, s)
			}
			sort.Strings(imps)
			if len(imps) > 0 {
				b.WriteString("import (\n")
				for _, s := range imps {
					b.WriteByte('\t')
					if a := f.imports[s]; a != "" {
						b.WriteString(a + " ")
					}
					b.WriteString("\"" + s + "\"\n")
				}
				b.WriteString(")\n\n")
			}
			line := 1 + strings.Count(b.String(), "\n")
			for _, l := range f.body {
				b.WriteString(l.s)
				b.WriteByte('\n')
				for _, m := range l.marks {
					w.m.edge(m.from, m.to).sites[name+":"+itoa(line)] = true
				}
				line += 1 + strings.Count(l.s, "\n")
			}
			out[w.dir(pi)+"/"+name] = b.String()
			// Package initialisation runs that of the imported packages.
			from := p.pkgPath(pi) + ".init"
			for s := range f.imports {
				if s == "unsafe" {
					continue
				}
				if stdPkgs[s] {
					w.stdInit(s)
				}
				w.m.bare(from, s+".init")
			}
		}
	}
	// The body of a generic function is present once more, uninstantiated.
	for _, inst := range sortedKeys(w.dup) {
		for _, orig := range w.dup[inst] {
			w.copyBody(inst, orig)
		}
	}
	return out
}

// copyBody gives another function the calls, function literals and constructs
// of an instance.
func (w *world) copyBody(inst, orig string) {
	node := func(name, from string) *mnode {
		x := w.m.nodes[from]
		y := w.m.node(name, x.pkg)
		if isInstance(orig) {
			y.report, y.synth, y.origin = x.report, x.synth, x.origin
		}
		return y
	}
	{
		for _, n := range sortedKeys(w.m.nodes) {
			if x := w.m.nodes[n]; (n == inst || strings.HasPrefix(n, inst+"$") && !strings.HasSuffix(n, "$bound")) && len(x.extra) > 0 {
				y := node(orig+strings.TrimPrefix(n, inst), n)
				for k := range x.extra {
					y.extra[k] = true
				}
			}
		}
		swap := func(n string) string {
			if n == inst {
				return orig
			}
			if r, ok := strings.CutPrefix(n, inst+"$"); ok {
				return orig + "$" + r
			}
			return ""
		}
		for _, from := range sortedKeys(w.m.edges) {
			f2 := swap(from)
			if f2 == "" {
				// Helpers are given the function literals of both.
				for to, e := range w.m.edges[from] {
					if t2 := swap(to); t2 != "" && t2 != orig && !strings.HasPrefix(from, inst) {
						node(t2, to)
						x := w.m.edge(from, t2)
						x.bare = x.bare || e.bare
						x.need = e.need
						for k := range e.sites {
							x.sites[k] = true
						}
					}
				}
				continue
			}
			node(f2, from)
			for to, e := range w.m.edges[from] {
				t2 := to
				if s := swap(to); s != "" && s != orig {
					t2 = s
					node(t2, to)
				}
				x := w.m.edge(f2, t2)
				x.bare = x.bare || e.bare
				for k := range e.sites {
					x.sites[k] = true
				}
			}
		}
	}
}

func (w *world) stdInit(pkg string) {
	n := pkg + ".init"
	if _, ok := w.m.nodes[n]; ok && len(w.m.edges[n]) > 0 {
		return
	}
	x := w.m.node(n, pkg)
	x.report = false
	for _, t := range stdEdges[n] {
		w.stdNode(t)
		w.m.bare(n, t)
	}
	for _, s := range stdImports[pkg] {
		if s == "unsafe" {
			continue
		}
		w.m.bare(n, s+".init")
		w.stdInit(s)
	}
}

// stdImports holds the imports of the simulated standard library packages.
var stdImports = map[string][]string{}
