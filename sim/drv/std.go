package main

import (
	"encoding/json"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/google/capslock/internal/verifsim/scn"
)

// loadStd reads the simulated standard library, records its imports, and
// writes the tree shared by all scenarios to file base.
func loadStd(dir, base string) error {
	var files []scn.File
	fset := token.NewFileSet()
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return err
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		rel, err := filepath.Rel(dir, p)
		if err != nil {
			return err
		}
		files = append(files, scn.File{Path: "/goroot/src/" + rel, Data: string(b)})
		if strings.HasSuffix(p, "_windows.go") {
			return nil
		}
		f, err := parser.ParseFile(fset, p, b, parser.ImportsOnly)
		if err != nil {
			return err
		}
		pkg := filepath.Dir(rel)
		stdPkgs[pkg] = true
		for _, s := range f.Imports {
			i, _ := strconv.Unquote(s.Path.Value)
			if strings.Contains(i, ".") {
				i = "vendor/" + i
			}
			stdImports[pkg] = append(stdImports[pkg], i)
		}
		return nil
	})
	if err != nil {
		return err
	}
	for _, prog := range []string{"go", "git", "capslock"} {
		files = append(files, scn.File{Path: "/usr/bin/" + prog, Data: "SIMPROG " + prog, Exec: true})
	}
	for _, d := range []string{"/tmp", "/home/u", "/gomodcache", "/gocache"} {
		files = append(files, scn.File{Path: d, Dir: true})
	}
	b, err := json.Marshal(files)
	if err != nil {
		return err
	}
	if old, err := os.ReadFile(base); err == nil && string(old) == string(b) {
		return nil
	}
	tmp := base + "." + strconv.Itoa(os.Getpid())
	if err := os.WriteFile(tmp, b, 0o644); err != nil {
		return err
	}
	return os.Rename(tmp, base)
}

var stdPkgs = map[string]bool{}

func isStd(pkg string) bool { return stdPkgs[pkg] || !strings.Contains(pkg, ".") }
