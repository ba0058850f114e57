package kernel

import (
	"sort"
	"strings"
	"syscall"

	"github.com/google/capslock/internal/verifsim/scn"
)

type inode struct {
	ino    uint64
	mode   uint32 // type and permission bits
	data   []byte
	kids   map[string]*inode
	target string
	nlink  int
	mtime  int64
}

func (n *inode) isDir() bool  { return n.mode&syscall.S_IFMT == syscall.S_IFDIR }
func (n *inode) isLink() bool { return n.mode&syscall.S_IFMT == syscall.S_IFLNK }

func (k *Kernel) newInode(mode uint32) *inode {
	k.nextIno++
	n := &inode{ino: k.nextIno, mode: mode, nlink: 1, mtime: k.now()}
	if n.isDir() {
		n.kids = map[string]*inode{}
	}
	return n
}

// clean resolves "." and ".." lexically after joining with the base.
func join(base, p string) string {
	if !strings.HasPrefix(p, "/") {
		p = base + "/" + p
	}
	return p
}

// walk finds the inode for an absolute path.  It returns the parent directory
// and the last component as well, and the absolute path without symbolic links
// in its directory part.
func (k *Kernel) walk(abs string, follow bool, depth int) (parent *inode, name string, node *inode, real string, err syscall.Errno) {
	if depth > 20 {
		return nil, "", nil, "", syscall.ELOOP
	}
	parts := strings.Split(abs, "/")
	type frame struct {
		n    *inode
		name string
	}
	stack := []frame{{k.root, ""}}
	path := func() string {
		if len(stack) == 1 {
			return "/"
		}
		var b strings.Builder
		for _, f := range stack[1:] {
			b.WriteByte('/')
			b.WriteString(f.name)
		}
		return b.String()
	}
	var rest []string
	for _, c := range parts {
		if c != "" && c != "." {
			rest = append(rest, c)
		}
	}
	trailing := strings.HasSuffix(abs, "/") || strings.HasSuffix(abs, "/.")
	for i, c := range rest {
		last := i == len(rest)-1
		cur := stack[len(stack)-1].n
		if !cur.isDir() {
			return nil, "", nil, "", syscall.ENOTDIR
		}
		if len(c) > 255 {
			return nil, "", nil, "", syscall.ENAMETOOLONG
		}
		if c == ".." {
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
			}
			continue
		}
		kid := cur.kids[c]
		if kid == nil {
			if last {
				p := path()
				if p == "/" {
					p = ""
				}
				return cur, c, nil, p + "/" + c, syscall.ENOENT
			}
			return nil, "", nil, "", syscall.ENOENT
		}
		if kid.isLink() && (!last || follow || trailing) {
			t := kid.target
			if !strings.HasPrefix(t, "/") {
				t = path() + "/" + t
			}
			return k.walk(t+"/"+strings.Join(rest[i+1:], "/")+map[bool]string{true: "/", false: ""}[trailing && !last], follow, depth+1)
		}
		stack = append(stack, frame{kid, c})
	}
	top := stack[len(stack)-1]
	if trailing && !top.n.isDir() {
		return nil, "", nil, "", syscall.ENOTDIR
	}
	var par *inode
	if len(stack) > 1 {
		par = stack[len(stack)-2].n
	}
	return par, top.name, top.n, path(), 0
}

func (k *Kernel) mkdirAll(abs string) *inode {
	cur := k.root
	for _, c := range strings.Split(abs, "/") {
		if c == "" {
			continue
		}
		kid := cur.kids[c]
		if kid == nil {
			kid = k.newInode(syscall.S_IFDIR | 0o755)
			cur.kids[c] = kid
		}
		cur = kid
	}
	return cur
}

func (k *Kernel) install(files []scn.File) {
	for _, f := range files {
		if f.Dir {
			k.mkdirAll(f.Path)
			continue
		}
		i := strings.LastIndexByte(f.Path, '/')
		d := k.mkdirAll(f.Path[:i])
		var n *inode
		if f.Link != "" {
			n = k.newInode(syscall.S_IFLNK | 0o777)
			n.target = f.Link
		} else {
			mode := uint32(0o644)
			if f.Exec {
				mode = 0o755
			}
			n = k.newInode(syscall.S_IFREG | mode)
			n.data = []byte(f.Data)
		}
		d.kids[f.Path[i+1:]] = n
	}
}

func hashBytes(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h ^= uint64(c)
		h *= 1099511628211
	}
	return h
}

func (k *Kernel) dumpFS() map[string]scn.FSEnt {
	out := map[string]scn.FSEnt{}
	var rec func(p string, n *inode)
	rec = func(p string, n *inode) {
		e := scn.FSEnt{Mode: n.mode, Size: len(n.data), Hash: hashBytes(n.data)}
		if n.isLink() {
			e.Data = n.target
		} else if old, ok := k.initial[p]; !n.isDir() && (!ok || old != e.Hash) && len(n.data) <= 1<<20 {
			e.Data = string(n.data)
		}
		if p != "" {
			for _, pre := range k.quiet {
				if strings.HasPrefix(p, pre) {
					if old, ok := k.initial[p]; ok && (n.isDir() || old == e.Hash) {
						goto skip
					}
				}
			}
			out[p] = e
		}
	skip:
		for name, kid := range n.kids {
			rec(p+"/"+name, kid)
		}
	}
	rec("", k.root)
	return out
}

func (k *Kernel) snapshot() {
	k.initial = map[string]uint64{}
	var rec func(p string, n *inode)
	rec = func(p string, n *inode) {
		k.initial[p] = hashBytes(n.data)
		for name, kid := range n.kids {
			rec(p+"/"+name, kid)
		}
	}
	rec("", k.root)
}

func sortedKids(n *inode) []string {
	var names []string
	for name := range n.kids {
		names = append(names, name)
	}
	sort.Strings(names)
	return names
}
