package main

import (
	"fmt"
	"strings"

	"github.com/google/capslock/internal/verifsim/scn"
)

// Names the built-in map may or may not have something to say about.
var (
	mapFns = []string{"os.Open", "os/exec.Command", "(*os/exec.Cmd).Run", "net.Dial", "runtime.GC", "os.Getenv", "os.Setenv", "fmt.Println",
		"(*sync.Once).Do", "(*sync.Pool).Get", "sort.Sort", "reflect.ValueOf", "strings.Map", "syscall.Read", "time.Now", "(*os.File).Read",
		"syscall.Close", "os/signal.init", "(*log.Logger).Output", "encoding/json.Marshal", "example.com/a.F", "(*example.com/a.T).M",
		"(example.com/a.T).M", "example.com/b.init", "example.com/b.G$1", "sync/atomic.AddInt64", "math/rand.Int", "unicode.IsUpper",
		"(*bufio.Reader).Read", "(*bufio.Writer).Write", "(*net.OpError).Error", "os.Expand", "(os/exec.wrappedError).Error", "mime/multipart.readMIMEHeader"}
	mapPkgs = []string{"os", "net", "syscall", "fmt", "strings", "reflect", "runtime", "unicode", "os/exec", "example.com/a", "example.com/b", "golang.org/x/sys/unix", "math", "os/user", "plugin", "crypto/sha512", "os/signal", "runtime/debug", "net/http", "hash/adler32"}
	mapCaps = []string{"UNSPECIFIED", "SAFE", "FILES", "NETWORK", "RUNTIME", "READ_SYSTEM_STATE", "MODIFY_SYSTEM_STATE", "OPERATING_SYSTEM", "SYSTEM_CALLS",
		"ARBITRARY_EXECUTION", "CGO", "UNANALYZED", "UNSAFE_POINTER", "REFLECT", "EXEC"}
	mapEdges = [][2]string{{"(*sync.Pool).Get", "fmt.init$1"}, {"fmt.newPrinter", "(*sync.Pool).Get"}, {"example.com/a.F", "os.Open"}, {"os.Open", "example.com/a.F"}, {"sort.Sort", "fmt.Println"}, {"go/printer.newPrinter", "(*sync.Pool).Get"},
		{"database/sql.convertAssignRows", "(reflect.Value).Set"}, {"log/slog/internal/buffer.New", "(*sync.Pool).Get"}}
)

const nowhere = "nowhere.example/x"

// mapModel is what a text says.
type mapModel struct {
	fn, pkg map[string]string
	unan    map[string]bool
	edge    map[[2]string]bool
	suffix  []string
	bad     bool // must be rejected
	long    bool // may be rejected
}

func parseMapModel(text string) *mapModel {
	m := &mapModel{fn: map[string]string{}, pkg: map[string]string{}, unan: map[string]bool{}, edge: map[[2]string]bool{}}
	caps := map[string]bool{}
	for _, c := range mapCaps {
		caps["CAPABILITY_"+c] = true
	}
	for _, line := range strings.Split(text, "\n") {
		if len(line) > 60000 {
			m.long = true
		}
		line, _, _ = strings.Cut(line, "#")
		f := strings.Fields(line)
		if len(f) == 0 {
			continue
		}
		if len(f) < 2 {
			m.bad = true
			continue
		}
		three := len(f) >= 3
		switch f[0] {
		case "func", "package":
			t := m.fn
			if f[0] == "package" {
				t = m.pkg
			}
			if !three || !caps[f[2]] || t[f[1]] != "" {
				m.bad = true
				continue
			}
			t[f[1]] = strings.TrimPrefix(f[2], "CAPABILITY_")
		case "unanalyzed":
			if m.unan[f[1]] {
				m.bad = true
			}
			m.unan[f[1]] = true
		case "ignore_edge":
			if !three || m.edge[[2]string{f[1], f[2]}] {
				m.bad = true
				continue
			}
			m.edge[[2]string{f[1], f[2]}] = true
		case "cgo_suffix":
			m.suffix = append(m.suffix, f[1])
		default:
			m.bad = true
		}
	}
	return m
}

func genMapText(r *rng) string {
	used := map[string]bool{}
	var lines []string
	fresh := func(l []string) string {
		for n := 0; n < 5; n++ {
			if x := pick(r, l); !used[x] {
				used[x] = true
				return x
			}
		}
		x := "example.com/z" + itoa(r.n(1000000)) + ".F"
		used[x] = true
		return x
	}
	n := r.in(0, 14)
	if r.pct(4) {
		n = r.in(200, 900)
	}
	for ; n > 0; n-- {
		c := "CAPABILITY_" + pick(r, mapCaps)
		var f []string
		switch r.n(10) {
		case 0, 1, 2, 3:
			f = []string{"func", fresh(mapFns), c}
		case 4, 5:
			f = []string{"package", fresh(mapPkgs), c}
		case 6:
			f = []string{"unanalyzed", fresh(mapFns)}
		case 7:
			e := pick(r, mapEdges)
			if used[e[0]+" "+e[1]] {
				continue
			}
			used[e[0]+" "+e[1]] = true
			f = []string{"ignore_edge", e[0], e[1]}
		case 8:
			s := pick(r, []string{"_Cx", "_Cy"})
			if used[s] {
				continue
			}
			used[s] = true
			f = []string{"cgo_suffix", s}
		case 9:
			f = []string{pick(r, []string{"", "#", "# func os.Open CAPABILITY_SAFE", "#package"})}
		}
		sep := pick(r, []string{" ", "\t", "  ", " \t "})
		l := strings.Join(f, sep)
		if r.pct(15) {
			l = "  " + l
		}
		if r.pct(15) {
			l += pick(r, []string{" # ", " # ", "#", " #", "\t#", "##"}) + pick(r, []string{"why", "func", "#", "x y z", ""})
		}
		if r.pct(10) {
			l += pick(r, []string{"\r", " ", "\t"})
		}
		lines = append(lines, l)
	}
	if r.pct(4) {
		// A line about as long as can be read, or longer.
		l := "# " + strings.Repeat("x", pick(r, []int{100, 4090, 65530, 65534, 65536, 70000, 140000}))
		if r.pct(50) {
			l = "func example.com/long.F CAPABILITY_FILES " + l
		}
		lines = append(lines, l)
	}
	if r.pct(30) && len(lines) > 0 {
		// Something wrong in one line.
		var f string
		switch r.n(8) {
		case 0:
			f = pick(r, lines)
		case 1:
			f = "func os.Open"
		case 2:
			f = "package"
		case 3:
			f = "function os.Open CAPABILITY_FILES"
		case 4:
			f = "func os.Read CAPABILITY_FILE"
		case 5:
			f = "ignore_edge os.Open"
		case 6:
			f = "package os/x FILES"
		case 7:
			f = "unanalyzed"
		}
		i := r.n(len(lines) + 1)
		lines = append(lines[:i:i], append([]string{f}, lines[i:]...)...)
	}
	if r.pct(50) {
		shuffle(r, lines)
	}
	if r.n(300) == 0 {
		// A very large map, with its entries anywhere in it.
		fill := "# " + strings.Repeat("y", r.in(500, 5000))
		var big []string
		for n, at := 0, r.in(1<<17, 1<<22); n < at; n += len(fill) + 1 {
			big = append(big, fill)
		}
		i := r.n(len(lines) + 1)
		lines = append(lines[:i:i], append(big, lines[i:]...)...)
	}
	text := strings.Join(lines, "\n")
	if r.pct(70) {
		text += "\n"
	}
	return text
}

func genQueries(r *rng) []string {
	var q []string
	for n := r.in(3, 25); n > 0; n-- {
		if r.pct(20) {
			e := pick(r, mapEdges)
			q = append(q, "edge "+e[0]+"|"+e[1])
			continue
		}
		f := pick(r, mapFns)
		if r.pct(10) {
			f = pick(r, []string{"example.com/long.F", "example.com/a.F_Cx", "example.com/a.F_Cy", "example.com/q.H", "example.com/a._cgo_runtime_cgocall", "example.com/a._Cfunc_CString"})
		}
		q = append(q, pick(r, append([]string{nowhere}, mapPkgs...))+"|"+f)
	}
	return q
}

// clsModel says where a classifier slot comes from.
type clsModel struct {
	user    *mapModel
	builtin bool
	noUnan  bool
}

func (c *clsModel) answer(q string, b *builtinModel) (string, bool) {
	p, n, _ := strings.Cut(q, "|")
	if f, ok := strings.CutPrefix(p, "edge "); ok {
		if c.user != nil && c.user.edge[[2]string{f, n}] || c.builtin && b.edge[q] {
			return "false", true
		}
		return "true", true
	}
	u := c.user
	if u == nil {
		u = parseMapModel("")
	}
	for _, s := range u.suffix {
		if strings.HasSuffix(n, s) {
			return "CGO", true
		}
	}
	if k := u.fn[n]; k != "" {
		if u.unan[n] {
			return "", false
		}
		return k, true
	}
	if u.unan[n] {
		if !c.noUnan {
			return "UNANALYZED", true
		}
		if c.builtin && b.level[n] != 0 {
			return "", false // not said
		}
	} else if c.builtin {
		switch b.level[n] {
		case 'f':
			return b.fn[n], true
		case 'u':
			if !c.noUnan {
				return "UNANALYZED", true
			}
		}
	}
	if k := u.pkg[p]; k != "" {
		return k, true
	}
	if c.builtin {
		return b.pkg[p], true
	}
	return "UNSPECIFIED", true
}

// builtinModel is what the built-in map says, as asked in a fresh process.
type builtinModel struct {
	level map[string]byte // 'f' for a function, 'u' for an unanalysed one
	fn    map[string]string
	pkg   map[string]string
	edge  map[string]bool
}

func askBuiltin(j *judgeCtx, names, pkgs, edges []string) *builtinModel {
	b := &builtinModel{level: map[string]byte{}, fn: map[string]string{}, pkg: map[string]string{}, edge: map[string]bool{}}
	// A package the built-in map classifies shows which functions it leaves
	// unspecified on purpose.
	pkgs = append([]string{"syscall", "net", "os/exec"}, pkgs...)
	var q []string
	for _, p := range pkgs {
		q = append(q, p+"|"+nowhere+".none")
	}
	for _, n := range names {
		q = append(q, nowhere+"|"+n, "syscall|"+n, "net|"+n, "os/exec|"+n)
	}
	q = append(q, edges...)
	s := apiScenario("P11", &scn.API{Ops: []scn.APIOp{
		{Op: "default", Slot: 0}, {Op: "query", Class: 0, Quer: q},
		{Op: "default", Noisy: true, Slot: 1}, {Op: "query", Class: 1, Quer: q},
	}})
	res := j.run(s)
	j.show(s, res)
	wantExit(res, 0)
	a, x := strings.Fields(res.API[1].Out), strings.Fields(res.API[3].Out)
	if len(a) != len(q) || len(x) != len(q) {
		fail("crash", fmt.Sprintf("asking the built-in classifier ended in %q %q", res.API[1].Panic, res.API[3].Panic))
	}
	for _, p := range pkgs {
		b.pkg[p] = a[0]
		a, x = a[1:], x[1:]
	}
	b.pkg[nowhere] = "UNSPECIFIED"
	for _, n := range names {
		switch {
		case a[0] != x[0]:
			b.level[n] = 'u'
		case a[0] != "UNSPECIFIED":
			b.level[n], b.fn[n] = 'f', a[0]
		default:
			for i, p := range []string{"syscall", "net", "os/exec"} {
				if b.pkg[p] != "UNSPECIFIED" && a[i+1] == "UNSPECIFIED" {
					b.level[n], b.fn[n] = 'f', a[0]
				}
			}
		}
		a, x = a[4:], x[4:]
	}
	for i, e := range edges {
		b.edge[e] = a[i] == "false"
	}
	return b
}

func apiScenario(prop string, a *scn.API) *scn.Scenario {
	return &scn.Scenario{Prop: prop, Disk: -1, Cwd: "/", Seed: 1, Env: []string{"PATH=/usr/bin", "HOME=/root", "TMPDIR=/tmp"}, Args: []string{"/usr/bin/capslock"}, API: a}
}

func init() {
	properties["P11"] = &property{
		id: "P11", level: "fault_enumeration", quick: 20000, thorough: 200000,
		rule: "One case is a set of map texts and a history of loads (with chosen read sizes, empty reads and failures), derived classifiers and queries, some of them concurrent; every outcome is compared with a model of the texts on top of the built-in answers of a fresh process. It is non-trivial when a map was loaded and asked, and distinct by the texts, histories and outcomes.",
		bins: []string{"package interesting, called by a harness"},
		gen: func(r *rng, i int) *Case {
			c := &Case{}
			c.setKnobs(genKnobs(r))
			for n := r.in(1, 4); n > 0; n-- {
				c.Text = append(c.Text, genMapText(r))
			}
			c.API = &scn.API{}
			a := c.API
			slot := 2
			var setup []int
			a.Ops = append(a.Ops, scn.APIOp{Op: "default", Slot: 0}, scn.APIOp{Op: "default", Noisy: true, Slot: 1})
			setup = append(setup, 0, 1)
			load := func(w int, mine *[]int) {
				o := scn.APIOp{Worker: w, Op: "loadmap", Slot: slot, Text: r.n(len(c.Text)), NoBlt: r.pct(25), Shuf: r.next() >> 1}
				if r.pct(75) {
					o.Chunk = pick(r, []int{1, 2, 3, 7, 16, 100, 4096, 65536})
				}
				if r.pct(25) {
					o.FailAt = 1 + r.n(len(c.Text[o.Text])+1)
				}
				a.Ops = append(a.Ops, o)
				*mine = append(*mine, slot)
				slot++
			}
			step := func(w int, mine *[]int) {
				all := append(append([]int(nil), setup...), *mine...)
				switch k := r.n(10); {
				case k < 3 && slot < 60:
					load(w, mine)
				case k == 3 && slot < 60:
					a.Ops = append(a.Ops, scn.APIOp{Worker: w, Op: "exclude", Class: pick(r, all), Slot: slot})
					*mine = append(*mine, slot)
					slot++
				default:
					a.Ops = append(a.Ops, scn.APIOp{Worker: w, Op: "query", Class: pick(r, all), Quer: genQueries(r)})
				}
			}
			var mine []int
			load(0, &mine)
			for n := r.in(0, 5); n > 0; n-- {
				step(0, &mine)
			}
			setup = append(setup, mine...)
			if r.pct(60) {
				for w := r.in(2, 4); w > 0; w-- {
					var own []int
					for n := r.in(1, 5); n > 0; n-- {
						step(w, &own)
					}
				}
			}
			for n := 2; n < slot; n++ {
				a.Ops = append(a.Ops, scn.APIOp{Worker: -1, Op: "query", Class: n, Quer: genQueries(r)})
			}
			a.Ops = append(a.Ops, scn.APIOp{Worker: -1, Op: "query", Class: 0, Quer: genQueries(r)}, scn.APIOp{Worker: -1, Op: "query", Class: 1, Quer: genQueries(r)})
			return c
		},
		judge: func(j *judgeCtx, c *Case) {
			// What is asked.
			names, pkgs, edges := map[string]bool{}, map[string]bool{}, map[string]bool{}
			for _, o := range c.API.Ops {
				for _, q := range o.Quer {
					p, n, _ := strings.Cut(q, "|")
					if strings.HasPrefix(p, "edge ") {
						edges[q] = true
					} else if p != nowhere {
						pkgs[p], names[n] = true, true
					} else {
						names[n] = true
					}
				}
			}
			b := askBuiltin(j, sortedKeys(names), sortedKeys(pkgs), sortedKeys(edges))
			a := *c.API
			a.Texts = c.Text
			s := apiScenario("P11", &a)
			c.apply(s)
			res := j.run(s)
			j.show(s, res)
			if res.Status == "panic" {
				fail("crash", "loading and asking ended with "+res.Panic)
			}
			wantExit(res, 0)
			cls := map[int]*clsModel{}
			texts := map[int]*mapModel{}
			for i, t := range c.Text {
				texts[i] = parseMapModel(t)
			}
			byOp := map[int]scn.APIRes{}
			for _, x := range res.API {
				byOp[x.Op] = x
			}
			asked, rejected := 0, 0
			for i, o := range a.Ops {
				x, ok := byOp[i]
				if !ok {
					simFail("no result for operation %d", i)
				}
				what := fmt.Sprintf("operation %d (%s)", i, o.Op)
				if x.Panic != "" {
					fail("crash", what+" panicked: "+x.Panic)
				}
				switch o.Op {
				case "default":
					cls[o.Slot] = &clsModel{builtin: true, noUnan: o.Noisy}
				case "loadmap":
					m := texts[o.Text]
					mustFail := m.bad || o.FailAt > 0
					switch {
					case mustFail && x.Err == "":
						fail("accepted", fmt.Sprintf("%s accepted text %d (failing at byte %d)", what, o.Text, o.FailAt-1))
					case !mustFail && !m.long && x.Err != "":
						fail("rejected", what+" rejected a well-formed map: "+x.Err)
					case x.Err == "":
						cls[o.Slot] = &clsModel{user: m, builtin: !o.NoBlt}
						j.r.probe("maps loaded", 1)
					default:
						rejected++
						j.r.probe("maps rejected", 1)
						if o.FailAt > 0 {
							j.r.probe("streams failed", 1)
						}
					}
				case "exclude":
					if q := cls[o.Class]; q != nil {
						d := *q
						d.noUnan = true
						cls[o.Slot] = &d
					}
				case "query":
					q := cls[o.Class]
					if q == nil {
						continue
					}
					got := strings.Fields(x.Out)
					if len(got) != len(o.Quer) {
						simFail("%d answers to %d questions", len(got), len(o.Quer))
					}
					for n, g := range got {
						w, said := q.answer(o.Quer[n], b)
						if said && w != g {
							fail("answer", fmt.Sprintf("%s: classifier %d answers %s for %q instead of %s", what, o.Class, g, o.Quer[n], w))
						}
						asked++
					}
				}
			}
			j.r.probe("answers compared", asked)
			if len(cls) > 2 || rejected > 0 {
				j.nontrivial(fmt.Sprint(c.Text, len(cls), rejected, asked, len(a.Ops)))
			}
		},
	}
}
