package stubs

import (
	"encoding/json"
	"path"
	"sort"
	"strconv"
	"strings"

	"github.com/google/capslock/internal/verifsim/kernel"
	"github.com/google/capslock/internal/verifsim/scn"
)

const dbName = "simgit.json"

func init() {
	kernel.Programs["git"] = gitMain
}

type repo struct {
	p      *kernel.Proc
	gitdir string // absolute
	top    string // absolute top of the work tree, "" when bare
	db     *scn.GitDB
	objs   map[string]*scn.GitCommit
}

func gfail(p *kernel.Proc, code int, s string) {
	p.Print(2, s+"\n")
	p.Exit(code)
}

// gout writes to the standard output; like git, it fails when it cannot.
func gout(p *kernel.Proc, s string) {
	if e := p.Print(1, s); e != 0 {
		gfail(p, 128, "fatal: write failure on standard output: "+e.Error())
	}
}

func (r *repo) load() string {
	b, e := r.p.ReadFile(r.gitdir + "/" + dbName)
	if e != 0 {
		return "fatal: cannot read repository: " + e.Error()
	}
	r.db = new(scn.GitDB)
	if err := json.Unmarshal(b, r.db); err != nil {
		return "fatal: corrupt repository: " + err.Error()
	}
	r.objs = map[string]*scn.GitCommit{}
	seen := map[string]bool{}
	var rec func(db *scn.GitDB)
	rec = func(db *scn.GitDB) {
		for id, c := range db.Commits {
			r.objs[id] = c
		}
		for _, a := range db.Alternates {
			if seen[a] {
				continue
			}
			seen[a] = true
			b, e := r.p.ReadFile(a + "/" + dbName)
			d := new(scn.GitDB)
			if e != 0 || json.Unmarshal(b, d) != nil {
				gfail(r.p, 128, "fatal: cannot read alternate "+a)
			}
			rec(d)
		}
	}
	rec(r.db)
	if r.db.Work != "" {
		r.top = r.db.Work
	}
	return ""
}

func (r *repo) save() string {
	b, _ := json.Marshal(r.db)
	tmp := r.gitdir + "/" + dbName + ".lock"
	if e := r.p.WriteFile(tmp, b, 0o644); e != 0 {
		r.p.Unlink(-100, tmp, 0)
		return "fatal: unable to write repository: " + e.Error()
	}
	if e := r.p.Rename(-100, tmp, -100, r.gitdir+"/"+dbName); e != 0 {
		return "fatal: unable to write repository: " + e.Error()
	}
	if x := r.p.Env("GIT_INDEX_FILE"); x != "" && len(r.db.Index) > 0 {
		if !path.IsAbs(x) {
			x = path.Join(r.p.Cwd(), x)
		}
		b, _ := json.Marshal(r.db.Index)
		if e := r.p.WriteFile(x, b, 0o644); e != 0 {
			return "fatal: unable to write index: " + e.Error()
		}
	}
	return ""
}

// openRepo finds the repository as git does: GIT_DIR, or upwards from the
// current directory.
func openRepo(p *kernel.Proc) *repo {
	r := &repo{p: p}
	if g := p.Env("GIT_DIR"); g != "" {
		r.gitdir = g
		if !path.IsAbs(g) {
			r.gitdir = path.Join(p.Cwd(), g)
		}
		r.top = p.Cwd()
		if w := p.Env("GIT_WORK_TREE"); w != "" {
			r.top = w
			if !path.IsAbs(w) {
				r.top = path.Join(p.Cwd(), w)
			}
		}
		if !p.Exists(r.gitdir + "/" + dbName) {
			gfail(p, 128, "fatal: not a git repository: '"+g+"'")
		}
	} else {
		d := p.Cwd()
		for {
			if p.Exists(d + "/.git/" + dbName) {
				r.gitdir, r.top = path.Join(d, ".git"), d
				break
			}
			if b, e := p.ReadFile(d + "/.git"); e == 0 {
				// A linked work tree.
				if g, ok := strings.CutPrefix(strings.TrimSpace(string(b)), "gitdir: "); ok {
					r.gitdir, r.top = g, d
					break
				}
			}
			if p.Exists(d + "/" + dbName) {
				r.gitdir = d
				break
			}
			if d == "/" {
				gfail(p, 128, "fatal: not a git repository (or any of the parent directories): .git")
			}
			d = path.Dir(d)
		}
	}
	if s := r.load(); s != "" {
		gfail(p, 128, s)
	}
	return r
}

func isHex(s string) bool {
	for _, c := range s {
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f') {
			return false
		}
	}
	return len(s) > 0
}

func (r *repo) headCommit() string {
	if ref, ok := strings.CutPrefix(r.db.Head, "ref: "); ok {
		return r.db.Refs[ref]
	}
	return r.db.Head
}

// resolve turns a revision into a commit, or "".
func (r *repo) resolve(rev string) string {
	base := rev
	i := strings.IndexAny(rev, "^~")
	if t, ok := strings.CutPrefix(rev, ":/"); ok {
		return r.byMessage(t, nil)
	}
	if i >= 0 {
		base = rev[:i]
	}
	id := r.resolveName(base)
	if id == "" || i < 0 {
		return id
	}
	rest := rev[i:]
	for rest != "" {
		op := rest[0]
		rest = rest[1:]
		if op == '^' && strings.HasPrefix(rest, "{") {
			j := strings.Index(rest, "}")
			if j < 0 {
				return ""
			}
			if t, ok := strings.CutPrefix(rest[1:j], "/"); ok {
				if id = r.byMessage(t, []string{id}); id == "" {
					return ""
				}
				rest = rest[j+1:]
				continue
			}
			switch rest[1:j] {
			case "commit", "", "object":
			default:
				return ""
			}
			rest = rest[j+1:]
			continue
		}
		n := 1
		j := 0
		for j < len(rest) && rest[j] >= '0' && rest[j] <= '9' {
			j++
		}
		if j > 0 {
			n, _ = strconv.Atoi(rest[:j])
			rest = rest[j:]
		}
		switch op {
		case '^':
			if n == 0 {
				continue
			}
			c := r.objs[id]
			if c == nil || n > len(c.Parents) {
				return ""
			}
			id = c.Parents[n-1]
		case '~':
			for ; n > 0; n-- {
				c := r.objs[id]
				if c == nil || len(c.Parents) == 0 {
					return ""
				}
				id = c.Parents[0]
			}
		default:
			return ""
		}
	}
	return id
}

// byMessage finds the youngest commit, reachable from the given ones or from
// any reference, whose message contains the text.
func (r *repo) byMessage(text string, from []string) string {
	if from == nil {
		from = append(from, r.headCommit())
		for _, id := range r.db.Refs {
			from = append(from, id)
		}
	}
	in := map[string]bool{}
	for _, id := range from {
		r.ancestors(id, in)
	}
	best := ""
	for id := range in {
		if c := r.objs[id]; strings.Contains(c.Msg, text) && (best == "" || c.Time > r.objs[best].Time) {
			best = id
		}
	}
	return best
}

func (r *repo) resolveName(name string) string {
	if name == "@" {
		name = "HEAD"
	}
	if j := strings.Index(name, "@{"); j >= 0 && strings.HasSuffix(name, "}") {
		ref, what := name[:j], name[j+2:len(name)-1]
		n, err := strconv.Atoi(what)
		if err != nil {
			return ""
		}
		if ref == "" {
			ref = "HEAD"
		}
		full := r.fullRef(ref)
		if full == "" {
			return ""
		}
		l := r.db.Reflog[full]
		if n < len(l) {
			return l[n]
		}
		if n == 0 {
			return r.resolveName(ref)
		}
		return ""
	}
	if len(name) == 40 && isHex(name) {
		if r.objs[name] != nil {
			return name
		}
		return ""
	}
	if full := r.fullRef(name); full != "" {
		if full == "HEAD" {
			return r.headCommit()
		}
		return r.db.Refs[full]
	}
	if len(name) >= 4 && isHex(name) {
		var got []string
		for id := range r.objs {
			if strings.HasPrefix(id, name) {
				got = append(got, id)
			}
		}
		if len(got) == 1 {
			return got[0]
		}
	}
	return ""
}

func (r *repo) fullRef(name string) string {
	if name == "HEAD" {
		return "HEAD"
	}
	for _, f := range []string{name, "refs/" + name, "refs/tags/" + name, "refs/heads/" + name, "refs/remotes/" + name, "refs/remotes/" + name + "/HEAD"} {
		if f == name && !strings.HasPrefix(name, "refs/") && name != strings.ToUpper(name) {
			continue
		}
		if _, ok := r.db.Refs[f]; ok {
			return f
		}
	}
	return ""
}

func gitMain(p *kernel.Proc) {
	args := p.Args[1:]
	for len(args) > 0 && strings.HasPrefix(args[0], "-") {
		switch {
		case args[0] == "-C" && len(args) > 1:
			if e := p.Chdir(args[1]); e != 0 {
				gfail(p, 128, "fatal: cannot change to '"+args[1]+"': "+e.Error())
			}
			args = args[2:]
		case args[0] == "-c" && len(args) > 1:
			args = args[2:]
		case strings.HasPrefix(args[0], "--git-dir="):
			p.EnvL = append(p.EnvL, "GIT_DIR="+args[0][len("--git-dir="):])
			args = args[1:]
		case strings.HasPrefix(args[0], "--work-tree="):
			p.EnvL = append(p.EnvL, "GIT_WORK_TREE="+args[0][len("--work-tree="):])
			args = args[1:]
		case args[0] == "--no-pager" || args[0] == "--no-optional-locks" || args[0] == "--no-replace-objects":
			args = args[1:]
		default:
			p.Unknown("git " + strings.Join(args, " "))
			p.Exit(129)
		}
	}
	if len(args) == 0 {
		p.Exit(1)
	}
	cmd, args := args[0], args[1:]
	switch cmd {
	case "rev-parse":
		gitRevParse(p, args)
	case "clone":
		gitClone(p, args)
	case "checkout", "switch":
		gitCheckout(p, cmd, args)
	case "log", "rev-list":
		gitLog(p, cmd, args)
	case "worktree":
		gitWorktree(p, args)
	case "reset":
		gitReset(p, args)
	case "cat-file":
		r := openRepo(p)
		if len(args) == 2 && (args[0] == "-e" || args[0] == "-t") {
			if r.resolve(args[1]) == "" {
				gfail(p, 128, "fatal: Not a valid object name "+args[1])
			}
			if args[0] == "-t" {
				gout(p, "commit\n")
			}
			p.Exit(0)
		}
		p.Unknown("git cat-file " + strings.Join(args, " "))
		p.Exit(129)
	case "show-ref":
		gitShowRef(p, args)
	case "merge-base":
		gitMergeBase(p, args)
	case "status", "diff":
		gitStatus(p, cmd, args)
	case "stash":
		gitStash(p, args)
	case "branch":
		gitBranch(p, args)
	case "fetch":
		gitFetch(p, args)
	case "config":
		p.Exit(1)
	case "version", "--version":
		gout(p, "git version 2.43.0\n")
		p.Exit(0)
	case "symbolic-ref":
		r := openRepo(p)
		ref, ok := strings.CutPrefix(r.db.Head, "ref: ")
		if !ok {
			gfail(p, 128, "fatal: ref HEAD is not a symbolic ref")
		}
		gout(p, ref+"\n")
		p.Exit(0)
	default:
		p.Unknown("git " + cmd + " " + strings.Join(args, " "))
		gfail(p, 1, "git: '"+cmd+"' is not a git command. See 'git --help'.")
	}
}

func (r *repo) prefix() string {
	if r.top == "" || r.p.Cwd() == r.top {
		return ""
	}
	s, ok := strings.CutPrefix(r.p.Cwd(), strings.TrimSuffix(r.top, "/")+"/")
	if !ok {
		return ""
	}
	return s + "/"
}

func gitRevParse(p *kernel.Proc, args []string) {
	r := openRepo(p)
	verify, quiet, short := false, false, false
	abs := false
	named := ""
	for _, a := range args {
		switch {
		case a == "--git-dir" && abs, a == "--absolute-git-dir":
			gout(p, r.gitdir+"\n")
		case a == "--path-format=absolute":
			abs = true
		case a == "--git-dir":
			if g := p.Env("GIT_DIR"); g != "" {
				gout(p, g+"\n")
			} else if r.gitdir == path.Join(p.Cwd(), ".git") {
				gout(p, ".git\n")
			} else if r.gitdir == p.Cwd() {
				gout(p, ".\n")
			} else {
				gout(p, r.gitdir+"\n")
			}
		case a == "--git-common-dir":
			d := r.gitdir
			if r.db.Work != "" {
				d = r.db.Alternates[0]
			}
			if d == path.Join(p.Cwd(), ".git") {
				d = ".git"
			}
			gout(p, d+"\n")
		case a == "--show-prefix":
			gout(p, r.prefix()+"\n")
		case a == "--show-toplevel":
			if r.top == "" {
				gfail(p, 128, "fatal: this operation must be run in a work tree")
			}
			gout(p, r.top+"\n")
		case a == "--show-cdup":
			gout(p, strings.Repeat("../", strings.Count(r.prefix(), "/"))+"\n")
		case a == "--is-inside-work-tree":
			gout(p, strconv.FormatBool(r.top != "")+"\n")
		case a == "--verify":
			verify = true
		case a == "-q" || a == "--quiet":
			quiet = true
		case a == "--short" || strings.HasPrefix(a, "--short="):
			short = true
		case a == "--abbrev-ref" || a == "--symbolic-full-name":
			named = a
		case a == "--is-bare-repository":
			gout(p, strconv.FormatBool(r.top == "")+"\n")
		case a == "--is-shallow-repository" || a == "--is-inside-git-dir":
			gout(p, "false\n")
		case a == "--revs-only" || a == "--symbolic":
		case a == "--end-of-options" || a == "--":
		case strings.HasPrefix(a, "-"):
			p.Unknown("git rev-parse " + a)
			p.Exit(129)
		default:
			id := r.resolve(a)
			if id == "" {
				if quiet {
					p.Exit(1)
				}
				if verify {
					gfail(p, 128, "fatal: Needed a single revision")
				}
				gfail(p, 128, "fatal: ambiguous argument '"+a+"': unknown revision or path not in the working tree.")
			}
			if named != "" {
				full := r.fullRef(a)
				if ref, ok := strings.CutPrefix(r.db.Head, "ref: "); ok && (a == "HEAD" || a == "@") {
					full = ref
				}
				if named == "--abbrev-ref" {
					for _, k := range []string{"refs/heads/", "refs/tags/", "refs/remotes/"} {
						full = strings.TrimPrefix(full, k)
					}
				}
				if full != "" {
					gout(p, full+"\n")
				}
				continue
			}
			if short {
				id = id[:7]
			}
			gout(p, id+"\n")
		}
	}
	p.Exit(0)
}

func gitClone(p *kernel.Proc, args []string) {
	var pos []string
	shared, nocheckout, bare, notags, single := false, false, false, false, false
	branch := ""
	origin := "origin"
	raw := false
	for i := 0; i < len(args); i++ {
		a := args[i]
		switch {
		case raw || !strings.HasPrefix(a, "-"):
			pos = append(pos, a)
		case a == "--":
			raw = true
		case a == "--shared" || a == "-s":
			shared = true
		case a == "--no-checkout" || a == "-n":
			nocheckout = true
		case a == "--bare" || a == "--mirror":
			bare = true
		case a == "--no-tags":
			notags = true
		case a == "-q" || a == "--quiet" || a == "-l" || a == "--local" || a == "--no-local" || a == "--no-hardlinks" || a == "-v" || a == "--progress" || a == "--no-single-branch":
		case a == "--single-branch" || strings.HasPrefix(a, "--depth=") || a == "--depth" && i+1 < len(args):
			if a == "--depth" {
				i++
			}
			// Depths are ignored for repositories on the same disk, except
			// that there is just one branch.
			single = true
		case strings.HasPrefix(a, "--filter=") || a == "--recurse-submodules" || a == "--no-recurse-submodules" || a == "--reject-shallow" || a == "--no-reject-shallow" || a == "--no-shallow-submodules":
		case (a == "-c" || a == "--config" || a == "--template") && i+1 < len(args):
			i++
		case strings.HasPrefix(a, "--config=") || strings.HasPrefix(a, "--template="):
		case (a == "-b" || a == "--branch") && i+1 < len(args):
			i++
			branch = args[i]
		case strings.HasPrefix(a, "--branch="):
			branch = a[len("--branch="):]
		case (a == "-o" || a == "--origin") && i+1 < len(args):
			i++
			origin = args[i]
		default:
			p.Unknown("git clone " + a)
			p.Exit(129)
		}
	}
	if len(pos) != 2 {
		p.Unknown("git clone " + strings.Join(args, " "))
		p.Exit(129)
	}
	src, dst := pos[0], pos[1]
	abs := func(s string) string {
		s = strings.TrimPrefix(s, "file://")
		if !path.IsAbs(s) {
			s = path.Join(p.Cwd(), s)
		}
		return path.Clean(s)
	}
	src, dst = abs(src), abs(dst)
	gd := ""
	for _, c := range []string{src + "/.git", src} {
		if p.Exists(c + "/" + dbName) {
			gd = c
			break
		}
	}
	if gd == "" {
		gfail(p, 128, "fatal: repository '"+pos[0]+"' does not exist")
	}
	s := &repo{p: p, gitdir: gd}
	if e := s.load(); e != "" {
		gfail(p, 128, e)
	}
	made := false
	if p.IsDir(dst) {
		names, _, _ := p.List(dst)
		if len(names) > 0 {
			gfail(p, 128, "fatal: destination path '"+pos[1]+"' already exists and is not an empty directory.")
		}
	} else {
		if e := p.MkdirAll(dst); e != 0 {
			gfail(p, 128, "fatal: could not create work tree dir '"+pos[1]+"': "+e.Error())
		}
		made = true
	}
	d := &repo{p: p, gitdir: dst + "/.git", top: dst}
	if bare {
		d.gitdir, d.top = dst, ""
	}
	d.db = &scn.GitDB{Commits: map[string]*scn.GitCommit{}, Refs: map[string]string{}, Reflog: map[string][]string{}, Index: map[string]string{}, Remotes: map[string]string{origin: gd}}
	// Objects reachable from what is fetched.
	var tips []string
	only := s.db.Head
	if branch != "" {
		only = "ref: refs/heads/" + branch
	}
	for ref, id := range s.db.Refs {
		switch {
		case single && "ref: "+ref != only && !strings.HasPrefix(ref, "refs/tags/"):
		case strings.HasPrefix(ref, "refs/heads/"):
			if bare {
				d.db.Refs[ref] = id
			} else {
				d.db.Refs["refs/remotes/"+origin+"/"+strings.TrimPrefix(ref, "refs/heads/")] = id
			}
			tips = append(tips, id)
		case strings.HasPrefix(ref, "refs/tags/") && !notags:
			d.db.Refs[ref] = id
			tips = append(tips, id)
		}
	}
	head := s.db.Head
	if h := s.headCommit(); h != "" {
		tips = append(tips, h)
	}
	if branch != "" {
		if _, ok := s.db.Refs["refs/heads/"+branch]; !ok {
			p.RemoveAll(d.gitdir)
			gfail(p, 128, "fatal: Remote branch "+branch+" not found in upstream origin")
		}
		head = "ref: refs/heads/" + branch
	}
	if ref, ok := strings.CutPrefix(head, "ref: "); ok {
		if id, ok := s.db.Refs[ref]; ok {
			d.db.Refs[ref] = id
			if !bare {
				d.db.Refs["refs/remotes/"+origin+"/HEAD"] = id
			}
			d.db.Reflog["HEAD"] = []string{id}
			d.db.Reflog[ref] = []string{id}
		}
	} else if head != "" {
		d.db.Reflog["HEAD"] = []string{head}
	}
	d.db.Head = head
	if w := p.Env("GIT_WORK_TREE"); w != "" && !bare {
		d.db.Work = abs(w)
	}
	if shared {
		d.db.Alternates = []string{gd}
	} else {
		for len(tips) > 0 {
			id := tips[0]
			tips = tips[1:]
			if d.db.Commits[id] != nil || s.objs[id] == nil {
				continue
			}
			d.db.Commits[id] = s.objs[id]
			tips = append(tips, s.objs[id].Parents...)
		}
	}
	undo := func() {
		p.RemoveAll(d.gitdir)
		if made {
			p.RemoveAll(dst)
		}
	}
	if e := p.MkdirAll(d.gitdir); e != 0 {
		undo()
		gfail(p, 128, "fatal: could not create leading directories: "+e.Error())
	}
	if e := d.save(); e != "" {
		undo()
		gfail(p, 128, e)
	}
	p.WriteFile(d.gitdir+"/config", []byte("[remote \""+origin+"\"]\n\turl = "+gd+"\n"), 0o644)
	p.Print(2, "Cloning into '"+pos[1]+"'...\ndone.\n")
	if !nocheckout && !bare {
		if s := d.load(); s != "" {
			gfail(p, 128, s)
		}
		if id := d.headCommit(); id != "" {
			if s := d.writeTree(id); s != "" {
				gfail(p, 128, s)
			}
			if s := d.save(); s != "" {
				gfail(p, 128, s)
			}
		}
	}
	p.Exit(0)
}

// writeTree updates the work tree and the index to a commit.
func (r *repo) writeTree(id string) string {
	c := r.objs[id]
	if c == nil {
		return "fatal: unable to read tree " + id
	}
	var paths []string
	for f := range c.Tree {
		paths = append(paths, f)
	}
	sort.Strings(paths)
	var old []string
	for f := range r.db.Index {
		if _, ok := c.Tree[f]; !ok {
			old = append(old, f)
		}
	}
	sort.Strings(old)
	for _, f := range old {
		r.p.Unlink(-100, r.top+"/"+f, 0)
		delete(r.db.Index, f)
		for d := path.Dir(f); d != "."; d = path.Dir(d) {
			if r.p.Unlink(-100, r.top+"/"+d, 0x200) != 0 {
				break
			}
		}
	}
	for _, f := range paths {
		if e := r.p.MkdirAll(path.Dir(r.top + "/" + f)); e != 0 {
			return "error: unable to create file " + f + ": " + e.Error()
		}
		if e := r.p.WriteFile(r.top+"/"+f, []byte(c.Tree[f]), 0o644); e != 0 {
			return "error: unable to write file " + f + ": " + e.Error()
		}
		if r.db.Index == nil {
			r.db.Index = map[string]string{}
		}
		r.db.Index[f] = c.Tree[f]
	}
	return ""
}

// dirty lists tracked files whose contents differ from the index and that a
// switch to the commit would change.
func (r *repo) dirty(id string) []string {
	var out []string
	for f, was := range r.db.Index {
		if r.objs[id].Tree[f] == was {
			continue
		}
		b, e := r.p.ReadFile(r.top + "/" + f)
		if e == 0 && string(b) != was {
			out = append(out, f)
		}
	}
	sort.Strings(out)
	return out
}

func gitCheckout(p *kernel.Proc, cmd string, args []string) {
	r := openRepo(p)
	if r.top == "" {
		gfail(p, 128, "fatal: this operation must be run in a work tree")
	}
	rev, force, detach, seenDash := "", false, false, false
	newBranch := ""
	for i := 0; i < len(args); i++ {
		a := args[i]
		switch {
		case a == "--":
			seenDash = true
		case a == "-q" || a == "--quiet" || a == "--no-progress" || a == "--end-of-options" || a == "--no-guess" || a == "--recurse-submodules":
		case a == "--detach" || a == "-d":
			detach = true
		case a == "-f" || a == "--force":
			force = true
		case (a == "-b" || a == "-B" || a == "-c") && i+1 < len(args):
			i++
			newBranch = args[i]
		case strings.HasPrefix(a, "-"):
			p.Unknown("git checkout " + a)
			p.Exit(129)
		case rev == "" && !seenDash:
			rev = a
		default:
			p.Unknown("git checkout " + strings.Join(args, " "))
			p.Exit(129)
		}
	}
	if rev == "" {
		rev = "HEAD"
	}
	id, head := "", ""
	if b, ok := r.db.Refs["refs/heads/"+rev]; ok && !detach {
		id, head = b, "ref: refs/heads/"+rev
	} else if id = r.resolve(rev); id != "" {
		head = id
		if rev == "HEAD" && !detach {
			head = r.db.Head
		}
	} else if !detach {
		// Guess a remote branch of that name.
		var got []string
		for name := range r.db.Remotes {
			if v, ok := r.db.Refs["refs/remotes/"+name+"/"+rev]; ok {
				got = append(got, v)
			}
		}
		if len(got) == 1 {
			id, head = got[0], "ref: refs/heads/"+rev
			r.db.Refs["refs/heads/"+rev] = id
		}
	}
	if id == "" || r.objs[id] == nil {
		if seenDash {
			gfail(p, 128, "fatal: invalid reference: "+rev)
		}
		gfail(p, 1, "error: pathspec '"+rev+"' did not match any file(s) known to git")
	}
	if newBranch != "" {
		r.db.Refs["refs/heads/"+newBranch] = id
		head = "ref: refs/heads/" + newBranch
	}
	if d := r.dirty(id); len(d) > 0 && !force {
		gfail(p, 1, "error: Your local changes to the following files would be overwritten by checkout:\n\t"+strings.Join(d, "\n\t"))
	}
	if s := r.writeTree(id); s != "" {
		r.save()
		gfail(p, 128, s)
	}
	r.db.Head = head
	if r.db.Reflog == nil {
		r.db.Reflog = map[string][]string{}
	}
	r.db.Reflog["HEAD"] = append([]string{id}, r.db.Reflog["HEAD"]...)
	if s := r.save(); s != "" {
		gfail(p, 128, s)
	}
	p.Print(2, "HEAD is now at "+id[:7]+" "+r.objs[id].Msg+"\n")
	p.Exit(0)
}

func gitReset(p *kernel.Proc, args []string) {
	r := openRepo(p)
	hard := false
	rev := "HEAD"
	for _, a := range args {
		switch {
		case a == "--hard":
			hard = true
		case a == "-q" || a == "--quiet" || a == "--":
		case strings.HasPrefix(a, "-"):
			p.Unknown("git reset " + a)
			p.Exit(129)
		default:
			rev = a
		}
	}
	id := r.resolve(rev)
	if id == "" {
		gfail(p, 128, "fatal: ambiguous argument '"+rev+"'")
	}
	if ref, ok := strings.CutPrefix(r.db.Head, "ref: "); ok {
		r.db.Refs[ref] = id
	} else {
		r.db.Head = id
	}
	if hard {
		if s := r.writeTree(id); s != "" {
			gfail(p, 128, s)
		}
	}
	if s := r.save(); s != "" {
		gfail(p, 128, s)
	}
	p.Exit(0)
}

func (r *repo) ancestors(id string, into map[string]bool) {
	w := []string{id}
	for len(w) > 0 {
		x := w[0]
		w = w[1:]
		if into[x] || r.objs[x] == nil {
			continue
		}
		into[x] = true
		w = append(w, r.objs[x].Parents...)
	}
}

func gitLog(p *kernel.Proc, cmd string, args []string) {
	r := openRepo(p)
	oneline := cmd == "rev-list"
	full := cmd == "rev-list"
	max := -1
	count := false
	var revs []string
	dashes := false
	first, reverse, all, merges, format := false, false, false, 0, ""
	for i := 0; i < len(args); i++ {
		a := args[i]
		switch {
		case a == "--":
			i = len(args)
			dashes = true
		case a == "--oneline" || a == "--pretty=oneline" || a == "--format=oneline":
			oneline = true
		case a == "--first-parent":
			first = true
		case a == "--no-merges":
			merges = 1
		case a == "--merges":
			merges = 2
		case a == "--reverse":
			reverse = true
		case a == "--all" || a == "--branches":
			all = true
		case strings.HasPrefix(a, "--format=") || strings.HasPrefix(a, "--pretty="):
			_, format, _ = strings.Cut(a, "=")
		case a == "-s" || a == "--no-patch" || a == "--decorate=no" || a == "--color=never" || a == "--no-show-signature" || a == "--no-notes" || strings.HasPrefix(a, "--abbrev="):
		case a == "--no-decorate" || a == "--no-color" || a == "--topo-order" || a == "--date-order" || a == "--end-of-options":
		case a == "--abbrev-commit":
		case a == "--count":
			count = true
		case (a == "-n" || a == "--max-count") && i+1 < len(args):
			i++
			max, _ = strconv.Atoi(args[i])
		case strings.HasPrefix(a, "-n") && len(a) > 2:
			max, _ = strconv.Atoi(a[2:])
		case strings.HasPrefix(a, "--max-count="):
			max, _ = strconv.Atoi(a[len("--max-count="):])
		case strings.HasPrefix(a, "-") && len(a) > 1 && a[1] >= '0' && a[1] <= '9':
			max, _ = strconv.Atoi(a[1:])
		case strings.HasPrefix(a, "-"):
			p.Unknown("git " + cmd + " " + a)
			p.Exit(129)
		case strings.Contains(a, "..."):
			x, y, _ := strings.Cut(a, "...")
			revs = append(revs, x, y)
			if id := r.mergeBase(r.resolve(x), r.resolve(y)); id != "" {
				revs = append(revs, "^"+id)
			}
		case strings.Contains(a, ".."):
			x, y, _ := strings.Cut(a, "..")
			if x == "" {
				x = "HEAD"
			}
			if y == "" {
				y = "HEAD"
			}
			revs = append(revs, "^"+x, y)
		default:
			revs = append(revs, a)
		}
	}
	if all {
		for ref := range r.db.Refs {
			if contains(args, "--all") || strings.HasPrefix(ref, "refs/heads/") {
				revs = append(revs, ref)
			}
		}
		sort.Strings(revs)
	}
	if len(revs) == 0 {
		revs = []string{"HEAD"}
	}
	not, in := map[string]bool{}, map[string]bool{}
	for _, v := range revs {
		n, neg := strings.CutPrefix(v, "^")
		if !dashes && p.Exists(n) {
			gfail(p, 128, "fatal: ambiguous argument '"+n+"': both revision and filename")
		}
		id := r.resolve(n)
		if id == "" {
			gfail(p, 128, "fatal: ambiguous argument '"+v+"': unknown revision or path not in the working tree.")
		}
		switch {
		case neg:
			r.ancestors(id, not)
		case first:
			for id != "" {
				in[id] = true
				l := r.objs[id].Parents
				if id = ""; len(l) > 0 {
					id = l[0]
				}
			}
		default:
			r.ancestors(id, in)
		}
	}
	var ids []string
	for id := range in {
		n := len(r.objs[id].Parents)
		if !not[id] && !(merges == 1 && n > 1) && !(merges == 2 && n < 2) {
			ids = append(ids, id)
		}
	}
	sort.Slice(ids, func(i, j int) bool {
		a, b := r.objs[ids[i]], r.objs[ids[j]]
		if a.Time != b.Time {
			return a.Time > b.Time
		}
		return ids[i] < ids[j]
	})
	if max >= 0 && len(ids) > max {
		ids = ids[:max]
	}
	if reverse {
		for i, k := 0, len(ids)-1; i < k; i, k = i+1, k-1 {
			ids[i], ids[k] = ids[k], ids[i]
		}
	}
	if count {
		gout(p, strconv.Itoa(len(ids))+"\n")
		p.Exit(0)
	}
	var b strings.Builder
	for _, id := range ids {
		c := r.objs[id]
		switch {
		case format != "" && strings.Contains(format, "%"):
			l := strings.NewReplacer("%H", id, "%h", id[:7], "%s", c.Msg, "%n", "\n", "%%", "%").Replace(strings.TrimPrefix(strings.TrimPrefix(format, "tformat:"), "format:"))
			b.WriteString(l + "\n")
		case full && cmd == "rev-list" && !contains(args, "--oneline"):
			b.WriteString(id + "\n")
		case oneline:
			b.WriteString(id[:7] + " " + c.Msg + "\n")
		default:
			b.WriteString("commit " + id + "\n\n    " + c.Msg + "\n\n")
		}
	}
	gout(p, b.String())
	p.Exit(0)
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func gitWorktree(p *kernel.Proc, args []string) {
	r := openRepo(p)
	if len(args) == 0 {
		p.Exit(129)
	}
	sub := args[0]
	var pos []string
	force := false
	for _, a := range args[1:] {
		switch {
		case a == "--detach" || a == "-q" || a == "--quiet" || a == "--":
		case a == "--force" || a == "-f":
			force = true
		case strings.HasPrefix(a, "-"):
			p.Unknown("git worktree " + sub + " " + a)
			p.Exit(129)
		default:
			pos = append(pos, a)
		}
	}
	abs := func(s string) string {
		if !path.IsAbs(s) {
			s = path.Join(p.Cwd(), s)
		}
		return path.Clean(s)
	}
	switch {
	case sub == "add" && len(pos) >= 1:
		dst := abs(pos[0])
		rev := "HEAD"
		if len(pos) > 1 {
			rev = pos[1]
		}
		id := r.resolve(rev)
		if id == "" {
			gfail(p, 128, "fatal: invalid reference: "+rev)
		}
		if names, _, e := p.List(dst); e == 0 && len(names) > 0 {
			gfail(p, 128, "fatal: '"+dst+"' already exists")
		}
		g := r.gitdir + "/worktrees/" + path.Base(dst)
		w := &repo{p: p, gitdir: g, top: dst, db: &scn.GitDB{Refs: r.db.Refs, Head: id, Alternates: []string{r.gitdir}, Work: dst, Index: map[string]string{}}}
		w.objs = r.objs
		if e := p.MkdirAll(g); e != 0 {
			gfail(p, 128, "fatal: could not create directory: "+e.Error())
		}
		if e := p.MkdirAll(dst); e != 0 {
			gfail(p, 128, "fatal: could not create directory: "+e.Error())
		}
		if e := p.WriteFile(dst+"/.git", []byte("gitdir: "+g+"\n"), 0o644); e != 0 {
			gfail(p, 128, "fatal: "+e.Error())
		}
		if s := w.writeTree(id); s != "" {
			gfail(p, 128, s)
		}
		if s := w.save(); s != "" {
			gfail(p, 128, s)
		}
	case sub == "remove" && len(pos) == 1:
		dst := abs(pos[0])
		_ = force
		p.RemoveAll(dst)
		p.RemoveAll(r.gitdir + "/worktrees/" + path.Base(dst))
		p.Unlink(-100, r.gitdir+"/worktrees", 0x200)
	case sub == "prune":
		names, _, _ := p.List(r.gitdir + "/worktrees")
		for _, n := range names {
			w := &repo{p: p, gitdir: r.gitdir + "/worktrees/" + n}
			if w.load() == "" && !p.IsDir(w.top) {
				p.RemoveAll(w.gitdir)
			}
		}
		p.Unlink(-100, r.gitdir+"/worktrees", 0x200)
	default:
		p.Unknown("git worktree " + strings.Join(args, " "))
		p.Exit(129)
	}
	p.Exit(0)
}

func (r *repo) mergeBase(a, b string) string {
	x, y := map[string]bool{}, map[string]bool{}
	r.ancestors(a, x)
	r.ancestors(b, y)
	best := ""
	for id := range x {
		if !y[id] {
			continue
		}
		// Not an ancestor of another common one.
		z := map[string]bool{}
		if best != "" {
			r.ancestors(best, z)
			if z[id] {
				continue
			}
			z = map[string]bool{}
			r.ancestors(id, z)
			if !z[best] && id > best {
				continue
			}
		}
		best = id
	}
	return best
}

func gitMergeBase(p *kernel.Proc, args []string) {
	r := openRepo(p)
	ancestor := false
	var ids []string
	for _, a := range args {
		switch {
		case a == "--is-ancestor":
			ancestor = true
		case a == "--" || a == "--all":
		case strings.HasPrefix(a, "-"):
			p.Unknown("git merge-base " + a)
			p.Exit(129)
		default:
			id := r.resolve(a)
			if id == "" {
				gfail(p, 128, "fatal: Not a valid object name "+a)
			}
			ids = append(ids, id)
		}
	}
	if len(ids) != 2 {
		p.Unknown("git merge-base " + strings.Join(args, " "))
		p.Exit(129)
	}
	if ancestor {
		in := map[string]bool{}
		r.ancestors(ids[1], in)
		if in[ids[0]] {
			p.Exit(0)
		}
		p.Exit(1)
	}
	id := r.mergeBase(ids[0], ids[1])
	if id == "" {
		p.Exit(1)
	}
	gout(p, id+"\n")
	p.Exit(0)
}

func gitShowRef(p *kernel.Proc, args []string) {
	r := openRepo(p)
	verify, quiet, hash := false, false, false
	in := ""
	var pos []string
	for _, a := range args {
		switch {
		case a == "--verify":
			verify = true
		case a == "-q" || a == "--quiet":
			quiet = true
		case a == "-s" || a == "--hash":
			hash = true
		case a == "--heads" || a == "--branches":
			in = "refs/heads/"
		case a == "--tags":
			in = "refs/tags/"
		case a == "--":
		case strings.HasPrefix(a, "-"):
			p.Unknown("git show-ref " + a)
			p.Exit(129)
		default:
			pos = append(pos, a)
		}
	}
	var refs []string
	for ref := range r.db.Refs {
		ok := len(pos) == 0
		for _, a := range pos {
			ok = ok || ref == a || !verify && strings.HasSuffix(ref, "/"+a)
		}
		if ok && strings.HasPrefix(ref, in) {
			refs = append(refs, ref)
		}
	}
	sort.Strings(refs)
	if verify && len(refs) < len(pos) || len(refs) == 0 {
		if verify && !quiet {
			gfail(p, 128, "fatal: '"+strings.Join(pos, " ")+"' - not a valid ref")
		}
		p.Exit(1)
	}
	for _, ref := range refs {
		switch {
		case quiet:
		case hash:
			gout(p, r.db.Refs[ref]+"\n")
		default:
			gout(p, r.db.Refs[ref]+" "+ref+"\n")
		}
	}
	p.Exit(0)
}

// changes lists the tracked files that differ from the current commit, in the
// index or in the work tree.
func (r *repo) changes() []string {
	head := map[string]string{}
	if c := r.objs[r.headCommit()]; c != nil {
		head = c.Tree
	}
	seen := map[string]bool{}
	var out []string
	for _, m := range []map[string]string{head, r.db.Index} {
		for f := range m {
			if seen[f] {
				continue
			}
			seen[f] = true
			b, e := r.p.ReadFile(r.top + "/" + f)
			was, ok := r.db.Index[f]
			if !ok || was != head[f] || e != 0 || string(b) != was {
				out = append(out, f)
			}
		}
	}
	sort.Strings(out)
	return out
}

func gitStatus(p *kernel.Proc, cmd string, args []string) {
	r := openRepo(p)
	if r.top == "" {
		gfail(p, 128, "fatal: this operation must be run in a work tree")
	}
	quiet, fails, names := false, false, cmd == "status"
	for _, a := range args {
		switch {
		case a == "--quiet" || a == "-q":
			quiet, fails = true, true
		case a == "--exit-code":
			fails = true
		case a == "--name-only" || a == "--name-status" || a == "--porcelain" || a == "-s" || a == "--short" || a == "--stat" || strings.HasPrefix(a, "--porcelain="):
			names = true
		case a == "--" || a == "HEAD" || a == "--cached" || strings.HasPrefix(a, "--untracked-files") || strings.HasPrefix(a, "-u"):
		default:
			p.Unknown("git " + cmd + " " + a)
			p.Exit(129)
		}
	}
	l := r.changes()
	if !quiet && !names {
		p.Unknown("git " + cmd + " " + strings.Join(args, " "))
		p.Exit(129)
	}
	for _, f := range l {
		if cmd == "status" {
			f = " M " + f
		}
		if !quiet {
			gout(p, f+"\n")
		}
	}
	if fails && len(l) > 0 {
		p.Exit(1)
	}
	p.Exit(0)
}

// gitStash puts changes away in a file of the repository, and restores them.
func gitStash(p *kernel.Proc, args []string) {
	r := openRepo(p)
	sub := "push"
	for _, a := range args {
		switch {
		case a == "push" || a == "pop" || a == "apply" || a == "drop":
			sub = a
		case a == "-q" || a == "--quiet" || a == "-u" || a == "--include-untracked" || a == "--index" || a == "--keep-index" || a == "--all" || a == "-a":
		default:
			p.Unknown("git stash " + a)
			p.Exit(129)
		}
	}
	file := r.gitdir + "/simstash.json"
	switch sub {
	case "push":
		saved := map[string]string{}
		for _, f := range r.changes() {
			if b, e := p.ReadFile(r.top + "/" + f); e == 0 {
				saved[f] = string(b)
			}
		}
		if len(saved) == 0 {
			gout(p, "No local changes to save\n")
			p.Exit(0)
		}
		b, _ := json.Marshal(saved)
		if e := p.WriteFile(file, b, 0o644); e != 0 {
			gfail(p, 1, "fatal: cannot save: "+e.Error())
		}
		if id := r.headCommit(); id != "" {
			r.writeTree(id)
		}
		r.save()
	default:
		b, e := p.ReadFile(file)
		if e != 0 {
			gfail(p, 1, "No stash entries found.")
		}
		saved := map[string]string{}
		json.Unmarshal(b, &saved)
		if sub != "drop" {
			for _, f := range sortedNames(saved) {
				p.WriteFile(r.top+"/"+f, []byte(saved[f]), 0o644)
			}
		}
		if sub != "apply" {
			p.Unlink(-100, file, 0)
		}
	}
	p.Exit(0)
}

func sortedNames(m map[string]string) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func gitBranch(p *kernel.Proc, args []string) {
	r := openRepo(p)
	var pos []string
	current, del, force := false, false, false
	for _, a := range args {
		switch {
		case a == "--show-current":
			current = true
		case a == "-D" || a == "-d" || a == "--delete":
			del = true
		case a == "-f" || a == "--force":
			force = true
		case a == "-q" || a == "--quiet" || a == "--no-track" || a == "--":
		case strings.HasPrefix(a, "-"):
			p.Unknown("git branch " + a)
			p.Exit(129)
		default:
			pos = append(pos, a)
		}
	}
	switch {
	case current:
		if ref, ok := strings.CutPrefix(r.db.Head, "ref: refs/heads/"); ok {
			gout(p, ref+"\n")
		}
		p.Exit(0)
	case del && len(pos) > 0:
		for _, b := range pos {
			if r.db.Refs["refs/heads/"+b] == "" || r.db.Head == "ref: refs/heads/"+b {
				gfail(p, 1, "error: branch '"+b+"' not found.")
			}
			delete(r.db.Refs, "refs/heads/"+b)
		}
	case len(pos) > 0:
		rev := "HEAD"
		if len(pos) > 1 {
			rev = pos[1]
		}
		id := r.resolve(rev)
		if id == "" {
			gfail(p, 128, "fatal: not a valid object name: '"+rev+"'")
		}
		if r.db.Refs["refs/heads/"+pos[0]] != "" && !force {
			gfail(p, 128, "fatal: a branch named '"+pos[0]+"' already exists")
		}
		r.db.Refs["refs/heads/"+pos[0]] = id
	default:
		p.Unknown("git branch " + strings.Join(args, " "))
		p.Exit(129)
	}
	if s := r.save(); s != "" {
		gfail(p, 128, s)
	}
	p.Exit(0)
}

// gitFetch brings the branches of a remote up to date.
func gitFetch(p *kernel.Proc, args []string) {
	r := openRepo(p)
	var pos []string
	for _, a := range args {
		switch {
		case a == "-q" || a == "--quiet" || a == "--tags" || a == "--all" || a == "--prune" || a == "--no-tags" || strings.HasPrefix(a, "--depth="):
		case strings.HasPrefix(a, "-"):
			p.Unknown("git fetch " + a)
			p.Exit(129)
		default:
			pos = append(pos, a)
		}
	}
	name := "origin"
	if len(pos) > 0 {
		name = pos[0]
	}
	src := r.db.Remotes[name]
	if src == "" {
		gfail(p, 128, "fatal: '"+name+"' does not appear to be a git repository")
	}
	s := &repo{p: p, gitdir: src}
	if e := s.load(); e != "" {
		gfail(p, 128, e)
	}
	for ref, id := range s.db.Refs {
		if b, ok := strings.CutPrefix(ref, "refs/heads/"); ok {
			r.db.Refs["refs/remotes/"+name+"/"+b] = id
		} else if strings.HasPrefix(ref, "refs/tags/") && r.db.Refs[ref] == "" {
			r.db.Refs[ref] = id
		}
	}
	if r.db.Commits == nil {
		r.db.Commits = map[string]*scn.GitCommit{}
	}
	for id, c := range s.objs {
		if r.objs[id] == nil {
			r.db.Commits[id] = c
		}
	}
	for _, a := range pos[min(1, len(pos)):] {
		id := s.resolve(a)
		if id == "" {
			gfail(p, 128, "fatal: couldn't find remote ref "+a)
		}
		r.db.Refs["FETCH_HEAD"] = id
	}
	if e := r.save(); e != "" {
		gfail(p, 128, e)
	}
	p.Exit(0)
}
