package main

import (
	"encoding/json"
	"fmt"
	"path"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/google/capslock/internal/verifsim/scn"
)

// GitCase is a repository, the place the tool is run from, and its arguments.
type GitCase struct {
	Commits []*GCommit
	Refs    map[string]int // full name to commit
	Head    string         // "ref: ..." or "#n"
	Reflog  map[string][]int
	Remotes []string
	ModDir  string // where the module is in the repository
	Sub     string // current directory, relative to the top
	Work    GTree  // files of the work tree
	Staged  bool   // the index has them too
	Linked  bool   // run from a linked work tree
	Pkgs    string // package argument, "" for none
	Gran    string
	Caps    string
	SetGran bool
	SetCaps bool
	Verbose bool
	Rev     [2]string
	Want    [2]int // commit named by the revision, -1 for the current files, -2 for none
	Env     []string
	ToolTmp string
}

// GCommit is one commit.
type GCommit struct {
	ID      string
	Parents []int
	Msg     string
	Time    int64
	Tree    GTree
}

// GTree is the packages of a tree, by directory.
type GTree map[string]*GPkg

// GPkg is what the analyser finds in a package.
type GPkg struct {
	Broken  bool   `json:",omitempty"`
	Fail    string `json:",omitempty"`
	Keep    int    `json:",omitempty"`
	Entries []GEntry
}

// GEntry is a path to a capability.  The functions are written dir:name, or
// !pkg:name for packages outside the module.
type GEntry struct {
	Cap string
	Fns []string
}

const gitModule = "example.com/repo"

func (t GTree) clone() GTree {
	b, _ := json.Marshal(t)
	var u GTree
	json.Unmarshal(b, &u)
	if u == nil {
		u = GTree{}
	}
	return u
}

func (g *GitCase) importPath(dir string) string {
	if g.ModDir != "" {
		dir = strings.TrimPrefix(strings.TrimPrefix(dir, g.ModDir), "/")
	}
	if dir == "" {
		return gitModule
	}
	return gitModule + "/" + dir
}

func (g *GitCase) fn(s string) scn.CapFn {
	dir, name, _ := strings.Cut(s, ":")
	if p, ok := strings.CutPrefix(dir, "!"); ok {
		return scn.CapFn{Name: p + "." + name, Pkg: p}
	}
	p := g.importPath(dir)
	return scn.CapFn{Name: p + "." + name, Pkg: p}
}

// files renders a tree.
func (g *GitCase) files(t GTree) map[string]string {
	out := map[string]string{path.Join(g.ModDir, "go.mod"): "module " + gitModule + "\n\ngo 1.23\n"}
	for _, d := range sortedKeys(t) {
		k := t[d]
		c := scn.CapFile{Package: g.importPath(d), Name: path.Base(g.importPath(d)), Broken: k.Broken, Fail: k.Fail, Keep: k.Keep}
		for i, e := range k.Entries {
			ce := scn.CapEntry{Cap: e.Cap}
			for n, f := range e.Fns {
				x := g.fn(f)
				if n > 0 {
					x.File, x.Line, x.Col = "f"+itoa(i)+".go", 10+n, 3
				}
				ce.Path = append(ce.Path, x)
			}
			c.Entries = append(c.Entries, ce)
		}
		b, _ := json.Marshal(c)
		out[path.Join(d, "simcaps.json")] = string(b)
	}
	return out
}

// report computes the pairs the analyser reports for a tree, or false when the
// analysis fails.
func (g *GitCase) report(t GTree) (map[[2]string]bool, bool) {
	exists := false
	if g.Sub == "" || under(g.Sub, g.ModDir) && g.Sub == g.ModDir {
		exists = true
	}
	for d := range t {
		if under(d, g.Sub) {
			exists = true
		}
	}
	if !exists {
		return nil, false
	}
	inModule := g.ModDir == "" || under(g.Sub, g.ModDir)
	pats := g.Pkgs
	if pats == "" {
		pats = "./..."
	}
	sel := map[string]bool{}
	for _, pat := range strings.Split(pats, ",") {
		base, wild := strings.CutSuffix(pat, "/...")
		dir := ""
		switch {
		case strings.HasPrefix(base, "."):
			dir = path.Join(g.Sub, base)
			if dir == "." {
				dir = ""
			}
		case under(base, gitModule):
			dir = path.Join(g.ModDir, strings.TrimPrefix(strings.TrimPrefix(base, gitModule), "/"))
		default:
			continue
		}
		for d := range t {
			if d == dir || wild && (dir == "" || under(d, dir)) {
				sel[d] = true
			}
		}
	}
	if len(sel) == 0 || !inModule {
		return nil, false
	}
	caps := "-UNANALYZED"
	if g.SetCaps {
		caps = g.Caps
	}
	has := func(k string) bool {
		if caps == "" {
			return true
		}
		neg, in := false, false
		for _, c := range strings.Split(caps, ",") {
			if t, ok := strings.CutPrefix(c, "-"); ok {
				neg, c = true, t
			}
			in = in || strings.TrimPrefix(c, "CAPABILITY_") == k
		}
		return in != neg
	}
	out := map[[2]string]bool{}
	for d := range sel {
		if t[d].Broken {
			return nil, false
		}
		for _, e := range t[d].Entries {
			switch g.gran() {
			case "function":
				out[[2]string{g.fn(e.Fns[0]).Name, e.Cap}] = true
			case "package":
				out[[2]string{g.importPath(d), e.Cap}] = true
			case "intermediate":
				if has(e.Cap) {
					for _, f := range e.Fns {
						out[[2]string{g.fn(f).Pkg, e.Cap}] = true
					}
				}
			}
		}
	}
	return out, true
}

func (g *GitCase) gran() string {
	switch {
	case !g.SetGran:
		return "intermediate"
	case g.Gran == "":
		return "function"
	}
	return g.Gran
}

func (g *GitCase) ancestors(i int) map[int]bool {
	out := map[int]bool{}
	w := []int{i}
	for len(w) > 0 {
		x := w[0]
		w = w[1:]
		if !out[x] {
			out[x] = true
			w = append(w, g.Commits[x].Parents...)
		}
	}
	return out
}

var gitCapNames = []string{"FILES", "NETWORK", "RUNTIME", "READ_SYSTEM_STATE", "OPERATING_SYSTEM", "SYSTEM_CALLS", "ARBITRARY_EXECUTION", "CGO", "UNANALYZED", "UNSAFE_POINTER", "REFLECT", "EXEC", "MODIFY_SYSTEM_STATE"}

// genGit makes a repository.  With marks, every commit and the work tree can be
// told apart by their reports.
func genGit(r *rng, commits int, marks bool) *GitCase {
	g := &GitCase{Refs: map[string]int{}, Reflog: map[string][]int{}}
	if r.pct(25) {
		g.ModDir = pick(r, []string{"tool", "src/tool", " tool", "my tool", "-x/é'q", "tool "})
	}
	dirs := []string{"", "a", "a/b", "cmd/x", "sub", "sub/deep", "internal/z", "docs"}
	for i, d := range dirs {
		dirs[i] = path.Join(g.ModDir, d)
	}
	caps := append([]string(nil), gitCapNames...)
	shuffle(r, caps)
	caps = caps[:r.in(2, 6)]
	if r.pct(50) {
		g.Sub = pick(r, dirs)
	} else {
		g.Sub = g.ModDir
	}
	fn := func() string {
		if r.pct(25) {
			return "!" + pick(r, []string{"os", "net", "dep.example/q", "syscall"}) + ":" + pick(r, []string{"Open", "Dial", "Run"})
		}
		return pick(r, dirs) + ":" + pick(r, []string{"F", "G", "H", "(*T).M", "init", "F$1", "G[int]", "f"})
	}
	entry := func(dir string) GEntry {
		e := GEntry{Cap: pick(r, caps), Fns: []string{dir + ":" + pick(r, []string{"F", "G", "H", "(*T).M", "init", "F$1", "F$1$1", "init#1", "G[int]", "f", "(T).M", "Fa"})}}
		for n := r.n(4); n > 0; n-- {
			e.Fns = append(e.Fns, fn())
		}
		e.Fns = append(e.Fns, "!"+pick(r, []string{"os", "syscall", "net"})+":X")
		return e
	}
	big := r.pct(12)
	mutate := func(t GTree) GTree {
		t = t.clone()
		for n := r.in(5, 30); big && n > 0 && r.pct(97); n-- {
			// Many packages at once.
			d := path.Join(g.Sub, "p"+itoa(r.n(40)))
			if t[d] == nil {
				t[d] = &GPkg{Entries: []GEntry{entry(d)}}
			}
		}
		for n := r.n(4); n >= 0; n-- {
			d := pick(r, dirs)
			k := t[d]
			switch {
			case k == nil:
				k = &GPkg{}
				for m := r.n(3); m >= 0; m-- {
					k.Entries = append(k.Entries, entry(d))
				}
				t[d] = k
			case r.pct(10) && len(t) > 1:
				delete(t, d)
			case r.pct(50) || len(k.Entries) == 0:
				k.Entries = append(k.Entries, entry(d))
			default:
				i := r.n(len(k.Entries))
				k.Entries = append(k.Entries[:i:i], k.Entries[i+1:]...)
			}
		}
		if r.pct(2) {
			for _, d := range sortedKeys(t) {
				t[d].Broken = r.pct(30)
			}
		}
		return t
	}
	for i := 0; i < commits; i++ {
		c := &GCommit{Msg: pick(r, []string{"fix", "add", "revert main", "merge", "wip: 100%", "a very long message about something"}) + " n" + itoa(i) + "n", Time: int64(1000 + i)}
		for len(c.ID) < 40 {
			c.ID += fmt.Sprintf("%08x", uint32(r.next()))
		}
		if i > 0 {
			c.Parents = []int{r.in(max(0, i-3), i-1)}
			if i > 1 && r.pct(20) {
				if q := r.n(i); q != c.Parents[0] {
					c.Parents = append(c.Parents, q)
				}
			}
			c.Tree = mutate(g.Commits[c.Parents[0]].Tree)
		} else {
			c.Tree = mutate(mutate(GTree{g.ModDir: &GPkg{}}))
		}
		g.Commits = append(g.Commits, c)
	}
	// Names.
	names := []string{"main", "feature", "v1", "rel/1.0", "sub", "origin", "topic-x", "dev", "go.mod"}
	any := func() int { return r.n(commits) }
	g.Refs["refs/heads/main"] = any()
	for _, n := range names {
		if r.pct(40) {
			g.Refs["refs/heads/"+n] = any()
		}
		if r.pct(25) && n != "main" {
			g.Refs["refs/tags/"+n] = any()
		}
		if r.pct(30) {
			g.Refs["refs/remotes/origin/"+n] = any()
		}
		if r.pct(10) {
			g.Refs["refs/remotes/up/"+n] = any()
		}
	}
	if r.pct(20) {
		// A branch named like another commit's abbreviation.
		g.Refs["refs/heads/"+g.Commits[any()].ID[:8]] = any()
	}
	if r.pct(15) {
		// A local branch named like a remote one.
		g.Refs["refs/heads/origin/main"] = any()
	}
	g.Remotes = []string{"origin", "up"}
	var heads []string
	for _, f := range sortedKeys(g.Refs) {
		if strings.HasPrefix(f, "refs/heads/") {
			heads = append(heads, f)
		}
		if !strings.HasPrefix(f, "refs/tags/") {
			l := []int{g.Refs[f]}
			for n := r.n(3); n > 0; n-- {
				l = append(l, any())
			}
			g.Reflog[f] = l
		}
	}
	g.Head = "ref: " + pick(r, heads)
	if r.pct(25) {
		g.Head = "#" + itoa(any())
	}
	g.Reflog["HEAD"] = []int{g.head(), any(), any()}
	g.Work = g.Commits[g.head()].Tree.clone()
	if r.pct(60) {
		g.Work = mutate(g.Work)
		g.Staged = r.pct(40)
	}
	if marks {
		n := len(g.Commits)
		mark := func(t GTree, i int) {
			for _, at := range []string{g.Sub, g.ModDir} {
				for k := 0; k <= n; k++ {
					d := path.Join(at, "mb"+itoa(k))
					if k == i {
						d = path.Join(at, "ma"+itoa(k))
					}
					t[d] = &GPkg{Entries: []GEntry{{Cap: caps[0], Fns: []string{d + ":Mark", "!os:X"}}}}
				}
			}
		}
		for i, c := range g.Commits {
			if !(g.Sub != "" && len(c.Tree) < 3) {
				mark(c.Tree, i)
			}
		}
		mark(g.Work, n)
	}
	// There is always something in the current directory.
	if _, ok := g.Work[path.Join(g.Sub, "wd")]; !ok {
		g.Work[path.Join(g.Sub, "wd")] = &GPkg{}
	}
	g.SetGran = r.pct(75)
	g.Gran = pick(r, []string{"package", "function", "intermediate", "", "package", "function"})
	if r.pct(40) {
		g.SetCaps = true
		g.Caps = pick(r, []string{"", caps[0], "-" + caps[1], caps[0] + "," + caps[1], "CAPABILITY_" + caps[0], "-FILES,-NETWORK"})
	}
	switch r.n(8) {
	case 0:
		g.Pkgs = "."
	case 1:
		g.Pkgs = gitModule + "/..."
	case 2:
		g.Pkgs = "./..."
	case 3:
		g.Pkgs = g.importPath(pick(r, dirs)) + "/..."
	case 4:
		g.Pkgs = "./a,./sub/..."
	}
	g.Linked = r.pct(12)
	g.Verbose = r.pct(15)
	return g
}

func (g *GitCase) head() int {
	if f, ok := strings.CutPrefix(g.Head, "ref: "); ok {
		return g.Refs[f]
	}
	n, _ := strconv.Atoi(g.Head[1:])
	return n
}

// named resolves a reference name by git's rules.
func (g *GitCase) named(n string) (int, string) {
	for _, f := range []string{n, "refs/" + n, "refs/tags/" + n, "refs/heads/" + n, "refs/remotes/" + n} {
		if i, ok := g.Refs[f]; ok {
			return i, f
		}
	}
	return -2, ""
}

// genRev chooses a revision and says which commit it names.
func (g *GitCase) genRev(r *rng) (string, int) {
	any := func() int { return r.n(len(g.Commits)) }
	name := func() string {
		f := pick(r, sortedKeys(g.Refs))
		short := strings.TrimPrefix(f, "refs/")
		switch r.n(5) {
		case 0:
			return f
		case 1:
			return short
		}
		for _, p := range []string{"heads/", "tags/", "remotes/"} {
			short = strings.TrimPrefix(short, p)
		}
		return short
	}
	base, at, ref := "", 0, ""
	switch r.n(10) {
	case 0:
		return ".", -1
	case 1:
		base, at, ref = pick(r, []string{"HEAD", "@"}), g.head(), "HEAD"
	case 2:
		at = any()
		base = g.Commits[at].ID
	case 3:
		at = any()
		base = g.Commits[at].ID[:pick(r, []int{7, 9, 12, 20})]
		if i, _ := g.named(base); i >= 0 {
			at = i
		}
		for i, c := range g.Commits {
			if i != at && strings.HasPrefix(c.ID, base) {
				base = g.Commits[at].ID
			}
		}
	case 4:
		if r.pct(60) {
			if r.pct(50) {
				return pick(r, []string{"nonesuch", "main~90", "deadbeef", "origin/none", "HEAD@{77}", "v9", "HEAD^{/zzz}"}), -2
			}
			// The youngest commit with a message.
			i := any()
			if g.ancestors(g.head())[i] {
				return "HEAD^{/n" + itoa(i) + "n}", i
			}
			return "HEAD^{/n" + itoa(i) + "n}", -2
		}
		base = name()
		at, ref = g.named(base)
	default:
		base = name()
		at, ref = g.named(base)
	}
	for n := r.n(3); n > 0 && at >= 0 && r.pct(60); n-- {
		c := g.Commits[at]
		switch k := r.n(6); {
		case k == 0 && ref != "" && len(g.Reflog[ref]) > 0 && !strings.ContainsAny(base, "^~{"):
			i := r.n(len(g.Reflog[ref]))
			if base == "@" {
				continue
			}
			base, at = base+"@{"+itoa(i)+"}", g.Reflog[ref][i]
		case k == 1 && len(c.Parents) > 1:
			base, at = base+"^2", c.Parents[1]
		case k == 2:
			base += "^{commit}"
		case k == 3:
			base += "^0"
		case k == 4 && len(c.Parents) > 0:
			base, at = base+"^", c.Parents[0]
		case k == 5 && len(c.Parents) > 0:
			base, at = base+"~1", c.Parents[0]
			if p := g.Commits[at].Parents; len(p) > 0 {
				base, at = base[:len(base)-1]+"2", p[0]
			}
		}
	}
	return base, at
}

const (
	gitTop    = "/home/u/repo"
	gitLinked = "/home/u/linked"
)

func (g *GitCase) top() string {
	if g.Linked {
		return gitLinked
	}
	return gitTop
}

// scenario makes the simulated world.
func (g *GitCase) scenario(prop string) *scn.Scenario {
	db := &scn.GitDB{Commits: map[string]*scn.GitCommit{}, Refs: map[string]string{}, Reflog: map[string][]string{}, Index: map[string]string{}, Remotes: map[string]string{}}
	for _, c := range g.Commits {
		x := &scn.GitCommit{Msg: c.Msg, Time: c.Time, Tree: g.files(c.Tree)}
		for _, q := range c.Parents {
			x.Parents = append(x.Parents, g.Commits[q].ID)
		}
		db.Commits[c.ID] = x
	}
	for f, i := range g.Refs {
		db.Refs[f] = g.Commits[i].ID
	}
	for f, l := range g.Reflog {
		for _, i := range l {
			db.Reflog[f] = append(db.Reflog[f], g.Commits[i].ID)
		}
	}
	for _, m := range g.Remotes {
		db.Remotes[m] = "https://" + m + ".example/repo"
	}
	db.Head = g.Head
	if g.Head[0] == '#' {
		db.Head = g.Commits[g.head()].ID
	}
	work := g.files(g.Work)
	db.Index = db.Commits[g.Commits[g.head()].ID].Tree
	if g.Staged {
		db.Index = work
	}
	s := &scn.Scenario{Prop: prop, Disk: -1, Cwd: path.Join(g.top(), g.Sub),
		Env: append([]string{"PATH=/usr/bin", "HOME=/home/u", "TMPDIR=/tmp", "PWD=" + path.Join(g.top(), g.Sub)}, g.Env...)}
	add := func(p, data string) { s.Files = append(s.Files, scn.File{Path: p, Data: data}) }
	for _, b := range []string{"git", "capslock", "go"} {
		s.Files = append(s.Files, scn.File{Path: "/usr/bin/" + b, Data: "SIMPROG " + b, Exec: true})
	}
	if g.Linked {
		// The main work tree is on another commit.
		m := *db
		m.Head = g.Commits[0].ID
		m.Index = m.Commits[m.Head].Tree
		l := &scn.GitDB{Refs: db.Refs, Head: db.Head, Reflog: db.Reflog, Index: db.Index, Remotes: db.Remotes, Alternates: []string{gitTop + "/.git"}, Work: gitLinked}
		b, _ := json.Marshal(l)
		add(gitTop+"/.git/worktrees/linked/simgit.json", string(b))
		add(gitLinked+"/.git", "gitdir: "+gitTop+"/.git/worktrees/linked\n")
		db = &m
		mw := db.Index
		for _, f := range sortedKeys(mw) {
			add(gitTop+"/"+f, mw[f])
		}
	}
	b, _ := json.Marshal(db)
	add(gitTop+"/.git/simgit.json", string(b))
	add(gitTop+"/.git/config", "[core]\n")
	for _, f := range sortedKeys(work) {
		add(g.top()+"/"+f, work[f])
	}
	add(g.top()+"/untracked.txt", "mine\n")
	add("/tmp/keep.txt", "keep\n")
	add("/tmp/2468/.git/config", "keep\n")
	if g.ToolTmp != "" {
		s.Env = append(s.Env, "CAPSLOCKTOOLSTMPDIR="+g.ToolTmp)
		add(g.ToolTmp+"/other.txt", "keep\n")
	}
	s.Args = []string{"/usr/bin/capslock-git-diff"}
	if g.Verbose {
		s.Args = append(s.Args, "-v")
	}
	if g.SetGran {
		s.Args = append(s.Args, "-granularity="+g.Gran)
	}
	if g.SetCaps {
		s.Args = append(s.Args, "-capabilities="+g.Caps)
	}
	s.Args = append(s.Args, g.Rev[0], g.Rev[1])
	if g.Pkgs != "" {
		s.Args = append(s.Args, g.Pkgs)
	}
	return s
}

// want computes what the tool should find.
func (g *GitCase) want() (old, cur map[[2]string]bool, ok bool) {
	tree := func(i int) GTree {
		if i == -1 {
			return g.Work
		}
		return g.Commits[i].Tree
	}
	if g.Want[0] == -2 || g.Want[1] == -2 {
		return nil, nil, false
	}
	old, ok1 := g.report(tree(g.Want[0]))
	cur, ok2 := g.report(tree(g.Want[1]))
	return old, cur, ok1 && ok2
}

// added lists the pairs in cur that are not in old.
func added(old, cur map[[2]string]bool) map[[2]string]bool {
	out := map[[2]string]bool{}
	for k := range cur {
		if !old[k] {
			out[k] = true
		}
	}
	return out
}

var (
	reNamed = regexp.MustCompile(`^(?:Packages?|Functions?) (.+) (?:has|have) capability CAPABILITY_(\w+):$`)
	reAdded = regexp.MustCompile(`^Added (\d+) new (capability|capabilities|use|uses)\b.*:$`)
	reSkip  = regexp.MustCompile(`^\(\.\.\.(\d+) commits omitted\.\.\.\)$`)
)

// gitOutput is the parsed output of the tool.
type gitOutput struct {
	pairs   map[[2]string]bool
	newCaps []string
	oldCaps []string
	nCaps   int
	nUses   int
	commits []string
	skipped int
	skipAt  int
	listed  bool
	named   []gitNamed
}

// gitNamed is a message about added pairs and the path below it.
type gitNamed struct {
	names []string
	cap   string
	path  []string
}

func parseGitOutput(out string) *gitOutput {
	o := &gitOutput{pairs: map[[2]string]bool{}, skipAt: -1}
	var into *[]string
	inCommits := false
	var in *gitNamed
	for _, line := range strings.Split(out, "\n") {
		switch {
		case strings.HasPrefix(line, "Commits between"):
			inCommits, o.listed = true, true
			continue
		case line == "":
			inCommits, into, in = false, nil, nil
			continue
		}
		if inCommits {
			if m := reSkip.FindStringSubmatch(line); m != nil {
				o.skipped, _ = strconv.Atoi(m[1])
				o.skipAt = len(o.commits)
			} else {
				o.commits = append(o.commits, line)
			}
			continue
		}
		if m := reNamed.FindStringSubmatch(line); m != nil {
			l := strings.Split(m[1], ", ")
			for _, n := range l {
				o.pairs[[2]string{n, m[2]}] = true
			}
			o.named = append(o.named, gitNamed{names: l, cap: m[2]})
			into, in = nil, &o.named[len(o.named)-1]
			continue
		}
		if in != nil {
			in.path = append(in.path, line)
			continue
		}
		if m := reAdded.FindStringSubmatch(line); m != nil {
			n, _ := strconv.Atoi(m[1])
			if strings.HasPrefix(m[2], "cap") {
				o.nCaps, into = n, &o.newCaps
			} else {
				o.nUses, into = n, &o.oldCaps
			}
			continue
		}
		if f := strings.Fields(line); into != nil && len(f) > 0 && strings.HasPrefix(f[0], "CAPABILITY_") {
			*into = append(*into, strings.TrimSuffix(strings.TrimPrefix(f[0], "CAPABILITY_"), ":"))
		}
	}
	return o
}

// judgeVerdict checks the exit status and the named pairs.
func (g *GitCase) judgeVerdict(res *scn.Result) (add map[[2]string]bool, ok bool) {
	old, cur, ok := g.want()
	if !ok {
		if res.Status != "exit" || res.Code != 2 {
			fail("no-error", fmt.Sprintf("ended with %s %d although a revision cannot be analysed", res.Status, res.Code))
		}
		return nil, false
	}
	add = added(old, cur)
	code := 0
	if len(add) > 0 {
		code = 1
	}
	wantExit(res, code)
	if d := setDiff(parseGitOutput(res.Stdout).pairs, add); d != "" {
		fail("pairs", "added capabilities: "+d)
	}
	return add, true
}

// isPath tells whether a printed path is one of the second revision which has
// all that is named.
func (g *GitCase) isPath(m gitNamed) bool {
	t := g.Work
	if g.Want[1] >= 0 {
		t = g.Commits[g.Want[1]].Tree
	}
	for _, k := range t {
	entry:
		for i, e := range k.Entries {
			if e.Cap != m.cap || len(e.Fns) != len(m.path) {
				continue
			}
			has := map[string]bool{}
			for n, f := range e.Fns {
				x := g.fn(f)
				site := ""
				if n > 0 {
					site = fmt.Sprintf("f%d.go:%d:3", i, 10+n)
				}
				rest, ok := strings.CutPrefix(m.path[n], site)
				if !ok || strings.TrimSpace(rest) != x.Name {
					continue entry
				}
				has[x.Name] = has[x.Name] || g.gran() == "function"
				has[x.Pkg] = has[x.Pkg] || g.gran() != "function"
			}
			for _, n := range m.names {
				if !has[n] {
					continue entry
				}
			}
			return true
		}
	}
	return false
}

// judgeDetails checks the summary and the list of commits.
func (g *GitCase) judgeDetails(res *scn.Result, add map[[2]string]bool) {
	old, _, _ := g.want()
	oldCaps := map[string]bool{}
	for k := range old {
		oldCaps[k[1]] = true
	}
	nc, oc, uses := map[string]bool{}, map[string]bool{}, 0
	for k := range add {
		if oldCaps[k[1]] {
			oc[k[1]] = true
			uses++
		} else {
			nc[k[1]] = true
		}
	}
	o := parseGitOutput(res.Stdout)
	if o.nCaps != len(nc) || o.nUses != uses {
		fail("counts", fmt.Sprintf("counted %d new capabilities and %d new uses instead of %d and %d", o.nCaps, o.nUses, len(nc), uses))
	}
	same := func(what string, got []string, want map[string]bool) {
		l := append([]string(nil), got...)
		sort.Strings(l)
		if strings.Join(l, " ") != strings.Join(sortedKeys(want), " ") {
			fail("summary", fmt.Sprintf("%s: listed %v instead of %v", what, l, sortedKeys(want)))
		}
	}
	seen := map[[2]string]bool{}
	for _, m := range o.named {
		for _, n := range m.names {
			if seen[[2]string{n, m.cap}] {
				fail("twice", fmt.Sprintf("%s %s is named twice", n, m.cap))
			}
			seen[[2]string{n, m.cap}] = true
		}
		if !g.isPath(m) {
			fail("path", fmt.Sprintf("no path of the second revision with capability %s through %v:\n%s", m.cap, m.names, strings.Join(m.path, "\n")))
		}
	}
	same("new capabilities", o.newCaps, nc)
	same("existing capabilities", o.oldCaps, oc)
	if g.Want[0] < 0 || g.Want[1] < 0 {
		return
	}
	not := g.ancestors(g.Want[0])
	want := map[string]bool{}
	for i := range g.ancestors(g.Want[1]) {
		if !not[i] {
			want[g.Commits[i].ID[:7]+" "+g.Commits[i].Msg] = true
		}
	}
	got := map[string]bool{}
	for _, l := range o.commits {
		if !want[l] {
			fail("commits", fmt.Sprintf("listed %q, which is not a commit of the second revision only", l))
		}
		if got[l] {
			fail("commits", fmt.Sprintf("listed %q twice", l))
		}
		got[l] = true
	}
	if len(got)+o.skipped != len(want) {
		fail("commits", fmt.Sprintf("listed %d commits and omitted %d of %d", len(got), o.skipped, len(want)))
	}
}

func shrinkGit(c *Case) []*Case {
	var out []*Case
	try := func(f func(g *GitCase) bool) {
		d := c.clone()
		if f(d.Git) {
			out = append(out, d)
		}
	}
	try(func(g *GitCase) bool { ok := g.Verbose; g.Verbose = false; return ok })
	try(func(g *GitCase) bool { ok := g.Linked; g.Linked = false; return ok })
	try(func(g *GitCase) bool { ok := g.SetCaps; g.SetCaps = false; return ok })
	try(func(g *GitCase) bool { ok := g.Pkgs != ""; g.Pkgs = ""; return ok })
	try(func(g *GitCase) bool { ok := g.ToolTmp != ""; g.ToolTmp = ""; return ok })
	try(func(g *GitCase) bool { ok := len(g.Env) > 0; g.Env = nil; return ok })
	for _, f := range sortedKeys(c.Git.Refs) {
		try(func(g *GitCase) bool {
			if g.Head == "ref: "+f {
				return false
			}
			for _, v := range g.Rev {
				if strings.Contains(v, path.Base(f)) {
					return false
				}
			}
			delete(g.Refs, f)
			delete(g.Reflog, f)
			return true
		})
	}
	trees := func(g *GitCase) []GTree {
		l := []GTree{g.Work}
		for _, c := range g.Commits {
			l = append(l, c.Tree)
		}
		return l
	}
	dirs := map[string]bool{}
	for _, t := range trees(c.Git) {
		for d := range t {
			dirs[d] = true
		}
	}
	for _, d := range sortedKeys(dirs) {
		try(func(g *GitCase) bool {
			for _, t := range trees(g) {
				delete(t, d)
			}
			return path.Base(d) != "wd"
		})
		for i := range trees(c.Git) {
			try(func(g *GitCase) bool {
				t := trees(g)[i]
				k := t[d]
				if k == nil || len(k.Entries) == 0 {
					return false
				}
				k.Entries = k.Entries[:len(k.Entries)-1]
				return true
			})
		}
	}
	return out
}
