From 2cd0164d375d19c9e6fb6acb8919a3bb5cb1b1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:00 +0000
Subject: [PATCH 01/17] fix: use the classifier's own ignored calls

IncludeCall consulted the built-in capability map whatever classifier it
was called on.  An ignore_edge line in a custom capability map had no
effect, and the built-in ignored calls still applied when the built-in
map was disabled.
---
 interesting/interesting.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interesting/interesting.go b/interesting/interesting.go
index 19770be..5be9707 100644
--- a/interesting/interesting.go
+++ b/interesting/interesting.go
@@ -183,7 +183,7 @@ func LoadClassifier(source string, r io.Reader, excludeBuiltin bool) (*Classifie
 func (c *Classifier) IncludeCall(edge *callgraph.Edge) bool {
 	caller := edge.Caller.Func.String()
 	callee := edge.Callee.Func.String()
-	_, ok := internalMap.ignoredEdges[[2]string{caller, callee}]
+	_, ok := c.ignoredEdges[[2]string{caller, callee}]
 	return !ok
 }
 
-- 
2.43.0


From 04326940ebcd7c9788c42035c3f39fbf6e6df9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:16 +0000
Subject: [PATCH 02/17] fix: print capability graphs in a fixed order

CapabilityGraph visited capabilities in map order, so the lines of a graph
restricted by -capabilities, and the capabilities of one function, came in
a different order from one run to the next.
---
 analyzer/analyzer.go |  8 ++++----
 analyzer/util.go     | 11 +++++++++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/analyzer/analyzer.go b/analyzer/analyzer.go
index 6e24058..567056b 100644
--- a/analyzer/analyzer.go
+++ b/analyzer/analyzer.go
@@ -359,8 +359,8 @@ func searchForwardsFromQueriedFunctions(
 			outputNode(bfsFromQueries, v, bfsFromCapabilities)
 		}
 		if outputCapability != nil {
-			for c, nodes := range nodesByCapability {
-				if _, ok := nodes[v]; ok {
+			for _, c := range nodesByCapability.sortedCapabilities() {
+				if _, ok := nodesByCapability[c][v]; ok {
 					outputCapability(v, c)
 				}
 			}
@@ -468,9 +468,9 @@ func CapabilityGraph(pkgs []*packages.Package,
 	}
 	if filter != nil {
 		// Consider each capability individually.
-		for c, ns := range nodesByCapability {
+		for _, c := range nodesByCapability.sortedCapabilities() {
 			if filter(c) {
-				search(nodesetPerCapability{c: ns})
+				search(nodesetPerCapability{c: nodesByCapability[c]})
 			}
 		}
 	} else {
diff --git a/analyzer/util.go b/analyzer/util.go
index 836da8f..f5c6c8d 100644
--- a/analyzer/util.go
+++ b/analyzer/util.go
@@ -12,6 +12,7 @@ import (
 	"go/types"
 	"os"
 	"path"
+	"slices"
 	"strings"
 
 	cpb "github.com/google/capslock/proto"
@@ -53,6 +54,16 @@ func (nc nodesetPerCapability) add(cap cpb.Capability, node *callgraph.Node) {
 	m[node] = struct{}{}
 }
 
+// sortedCapabilities returns the capabilities in nc in increasing order.
+func (nc nodesetPerCapability) sortedCapabilities() []cpb.Capability {
+	cs := make([]cpb.Capability, 0, len(nc))
+	for c := range nc {
+		cs = append(cs, c)
+	}
+	slices.Sort(cs)
+	return cs
+}
+
 // byFunction is a slice of *callgraph.Node that can be sorted using sort.Sort.
 // The ordering is first by package name, then function name.
 type byFunction []*callgraph.Node
-- 
2.43.0


From a3f4194ac8bef4e48947372bed27fab6c0d10525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:34 +0000
Subject: [PATCH 03/17] fix: order functions which have the same name

The searches of the call graph sort functions by name, so that their results
do not depend on map iteration order.  Functions with the same name, such as
the wrappers made for two uses of a bound method, were left in an arbitrary
order.  The example call paths then differed from one run to the next.  Break
such ties with the calls to and from the functions.
---
 analyzer/util.go | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/analyzer/util.go b/analyzer/util.go
index f5c6c8d..464aa11 100644
--- a/analyzer/util.go
+++ b/analyzer/util.go
@@ -106,8 +106,41 @@ func (s byCallee) Swap(i, j int) {
 	s[i], s[j] = s[j], s[i]
 }
 
+// nodeCompare orders nodes by their functions.
+//
+// Different functions can have the same name; for example, each expression
+// that makes a bound method has its own wrapper function.  nodeCompare orders
+// those functions by the calls to them, and then by the calls they make.
 func nodeCompare(a, b *callgraph.Node) int {
-	return funcCompare(a.Func, b.Func)
+	if c := funcCompare(a.Func, b.Func); c != 0 || a == b {
+		return c
+	}
+	if c := edgesCompare(a.In, b.In); c != 0 {
+		return c
+	}
+	return edgesCompare(a.Out, b.Out)
+}
+
+// edgesCompare is a lexicographic ordering of two sets of callgraph edges.
+func edgesCompare(a, b []*callgraph.Edge) int {
+	edgeCompare := func(a, b *callgraph.Edge) int {
+		if c := funcCompare(a.Caller.Func, b.Caller.Func); c != 0 {
+			return c
+		}
+		if c := funcCompare(a.Callee.Func, b.Callee.Func); c != 0 {
+			return c
+		}
+		if p1, p2 := callsitePosition(a), callsitePosition(b); positionLess(p1, p2) {
+			return -1
+		} else if positionLess(p2, p1) {
+			return +1
+		}
+		return 0
+	}
+	a, b = slices.Clone(a), slices.Clone(b)
+	slices.SortFunc(a, edgeCompare)
+	slices.SortFunc(b, edgeCompare)
+	return slices.CompareFunc(a, b, edgeCompare)
 }
 
 // funcCompare orders by package path, then by whether the function is a
-- 
2.43.0


From 200e44dc1b6e15cdd7cdd03611c1d82e66074b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:44:17 +0000
Subject: [PATCH 04/17] fix: compare intermediate packages when paths are
 omitted

With -omit_paths, entries have no call path.  Comparing at intermediate
granularity took the packages from the paths only, and so never found a
difference.  Use the package of the entry as well.
---
 analyzer/compare.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/analyzer/compare.go b/analyzer/compare.go
index 2cc3c9e..bfd9aa7 100644
--- a/analyzer/compare.go
+++ b/analyzer/compare.go
@@ -87,6 +87,10 @@ func populateMap(cil *cpb.CapabilityInfoList, g Granularity) capabilitiesMap {
 				m[mk] = ci
 			}
 		case GranularityIntermediate:
+			// The path may have been omitted.
+			if mk.key = ci.GetPackageDir(); mk.key != "" {
+				m[mk] = ci
+			}
 			for _, f := range ci.Path {
 				mk.key = f.GetPackage()
 				if mk.key != "" {
-- 
2.43.0


From 9df23c0ff2ac4d787e30df3ea4045aade2298cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:41 +0000
Subject: [PATCH 05/17] fix: treat vendored standard library packages as
 standard library

The standard library contains copies of packages from other modules, with
import paths such as vendor/golang.org/x/net/idna.  A call path through one of
them was labelled transitive although it stays in the standard library.
---
 analyzer/util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/analyzer/util.go b/analyzer/util.go
index 464aa11..bda9742 100644
--- a/analyzer/util.go
+++ b/analyzer/util.go
@@ -229,6 +229,10 @@ func callsitePosition(edge *callgraph.Edge) token.Position {
 }
 
 func isStdLib(p string) bool {
+	if strings.HasPrefix(p, "vendor/") {
+		// The standard library's copy of a package from another module.
+		return true
+	}
 	if strings.Contains(p, ".") {
 		return false
 	}
-- 
2.43.0


From 4a3e103f7211db2596a8b6e8c546b2ed5f186eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:09 +0000
Subject: [PATCH 06/17] fix: recognise standard library packages without
 listing them

The list of standard library packages came from a second go list command, run
in the current directory for the current platform.  With -goos or -goarch,
packages that only exist on the other platform were reported as if they were
not part of the standard library.  When packages were loaded in a temporary
module because the current one cannot be used, the command failed and the
program panicked.  Standard library packages can be recognised by not being
part of a module.
---
 analyzer/load.go | 25 +++++--------------------
 1 file changed, 5 insertions(+), 20 deletions(-)

diff --git a/analyzer/load.go b/analyzer/load.go
index 5f30575..dc1800a 100644
--- a/analyzer/load.go
+++ b/analyzer/load.go
@@ -11,18 +11,12 @@ import (
 	"os"
 	"path"
 	"sort"
-	"sync"
 
 	cpb "github.com/google/capslock/proto"
 	"golang.org/x/tools/go/packages"
 	"google.golang.org/protobuf/proto"
 )
 
-var (
-	standardLibraryPackagesOnce sync.Once
-	standardLibraryPackagesMap  map[string]struct{}
-)
-
 // LoadConfig specifies the build tags, GOOS value, and GOARCH value to use
 // when loading packages.  These will be used to determine when a file's build
 // constraint is satisfied.  See
@@ -76,18 +70,10 @@ func LoadPackages(packageNames []string, lcfg LoadConfig) ([]*packages.Package,
 	return packages.Load(cfg, packageNames...)
 }
 
-func standardLibraryPackages() map[string]struct{} {
-	standardLibraryPackagesOnce.Do(func() {
-		pkgs, err := packages.Load(nil, "std")
-		if err != nil {
-			panic(err.Error())
-		}
-		standardLibraryPackagesMap = make(map[string]struct{})
-		for _, p := range pkgs {
-			standardLibraryPackagesMap[p.PkgPath] = struct{}{}
-		}
-	})
-	return standardLibraryPackagesMap
+// isStandardLibraryPackage returns true if pkg is part of the Go standard
+// library.  Those packages do not belong to a module.
+func isStandardLibraryPackage(pkg *packages.Package) bool {
+	return pkg.Module == nil && pkg.PkgPath != "command-line-arguments" && isStdLib(pkg.PkgPath)
 }
 
 func collectModuleInfo(pkgs []*packages.Package) []*cpb.ModuleInfo {
@@ -123,9 +109,8 @@ func collectModuleInfo(pkgs []*packages.Package) []*cpb.ModuleInfo {
 
 func collectPackageInfo(pkgs []*packages.Package) []*cpb.PackageInfo {
 	var out []*cpb.PackageInfo
-	std := standardLibraryPackages()
 	forEachPackageIncludingDependencies(pkgs, func(pkg *packages.Package) {
-		if _, ok := std[pkg.PkgPath]; ok {
+		if isStandardLibraryPackage(pkg) {
 			// Skip this package since it is part of the Go standard library.
 			return
 		}
-- 
2.43.0


From 2c702348cea0f9b385265c4c4a95d866696ac412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:18:09 +0000
Subject: [PATCH 07/17] fix: report errors reading a capability map

The capability map was parsed with a bufio.Scanner whose error was not
checked.  A read error, or a line that is too long, made the parser use
only the entries before it.
---
 interesting/interesting.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interesting/interesting.go b/interesting/interesting.go
index 5be9707..00437bb 100644
--- a/interesting/interesting.go
+++ b/interesting/interesting.go
@@ -115,6 +115,9 @@ func parseCapabilityMap(source string, r io.Reader) (*Classifier, error) {
 			return nil, fmt.Errorf("%v:%v: unsupported keyword %q", source, line, args[0])
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, fmt.Errorf("%v:%v: %w", source, line+1, err)
+	}
 	return ret, nil
 }
 
-- 
2.43.0


From acfefaecae07f31796a81223a7f5fbcb7513c8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:18:28 +0000
Subject: [PATCH 08/17] fix: report errors writing the report

Errors writing JSON, machine and comparison output were ignored, so the
exit status said that the report was complete when part of it, or all of
it, was lost.
---
 analyzer/compare.go | 37 ++++++++++++++++++++++---------------
 analyzer/scan.go    |  8 +++++---
 2 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/analyzer/compare.go b/analyzer/compare.go
index bfd9aa7..908245f 100644
--- a/analyzer/compare.go
+++ b/analyzer/compare.go
@@ -7,8 +7,10 @@
 package analyzer
 
 import (
+	"bufio"
 	"fmt"
 	"go/types"
+	"io"
 	"os"
 	"sort"
 	"text/tabwriter"
@@ -57,7 +59,12 @@ func compare(baselineFilename string, pkgs []*packages.Package, queriedPackages
 		return false, fmt.Errorf("Comparison file should include output from running `%s -output=j`. Error from parsing comparison file: %v", programName(), err.Error())
 	}
 	cil := GetCapabilityInfo(pkgs, queriedPackages, config)
-	return diffCapabilityInfoLists(baseline, cil, config.Granularity), nil
+	w := bufio.NewWriter(os.Stdout)
+	different = diffCapabilityInfoLists(w, baseline, cil, config.Granularity)
+	if err := w.Flush(); err != nil {
+		return false, fmt.Errorf("writing comparison: %w", err)
+	}
+	return different, nil
 }
 
 type mapKey struct {
@@ -102,7 +109,7 @@ func populateMap(cil *cpb.CapabilityInfoList, g Granularity) capabilitiesMap {
 	return m
 }
 
-func diffCapabilityInfoLists(baseline, current *cpb.CapabilityInfoList, g Granularity) (different bool) {
+func diffCapabilityInfoLists(w io.Writer, baseline, current *cpb.CapabilityInfoList, g Granularity) (different bool) {
 	baselineMap := populateMap(baseline, g)
 	currentMap := populateMap(current, g)
 	var keys []mapKey
@@ -125,34 +132,34 @@ func diffCapabilityInfoLists(baseline, current *cpb.CapabilityInfoList, g Granul
 		ciCurrent, inCurrent := currentMap[key]
 		if !inBaseline && inCurrent {
 			if different {
-				fmt.Println()
+				fmt.Fprintln(w)
 			}
 			different = true
-			fmt.Printf("Package %s has new capability %s compared to the baseline.\n",
+			fmt.Fprintf(w, "Package %s has new capability %s compared to the baseline.\n",
 				key.key, key.capability)
-			printCallPath(ciCurrent.Path)
+			printCallPath(w, ciCurrent.Path)
 		}
 		if inBaseline && !inCurrent {
 			if different {
-				fmt.Println()
+				fmt.Fprintln(w)
 			}
 			different = true
-			fmt.Printf("Package %s no longer has capability %s which was in the baseline.\n",
+			fmt.Fprintf(w, "Package %s no longer has capability %s which was in the baseline.\n",
 				key.key, key.capability)
-			printCallPath(ciBaseline.Path)
+			printCallPath(w, ciBaseline.Path)
 		}
 	}
 	return different
 }
 
-func printCallPath(fns []*cpb.Function) {
+func printCallPath(w io.Writer, fns []*cpb.Function) {
 	tw := tabwriter.NewWriter(
-		os.Stdout, // output
-		10,        // minwidth
-		8,         // tabwidth
-		2,         // padding
-		' ',       // padchar
-		0)         // flags
+		w,   // output
+		10,  // minwidth
+		8,   // tabwidth
+		2,   // padding
+		' ', // padchar
+		0)   // flags
 	for _, f := range fns {
 		if f.Site != nil {
 			fmt.Fprint(tw, f.Site.GetFilename(), ":", f.Site.GetLine(), ":", f.Site.GetColumn())
diff --git a/analyzer/scan.go b/analyzer/scan.go
index d603b75..2147e13 100644
--- a/analyzer/scan.go
+++ b/analyzer/scan.go
@@ -57,8 +57,8 @@ func RunCapslock(args []string, output string, pkgs []*packages.Package, queried
 		if err != nil {
 			return fmt.Errorf("internal error: couldn't marshal protocol buffer: %s", err.Error())
 		}
-		fmt.Println(string(b))
-		return nil
+		_, err = fmt.Println(string(b))
+		return err
 	} else if output == "m" || output == "machine" {
 		var cs []string
 		cil := GetCapabilityCounts(pkgs, queriedPackages, config)
@@ -67,7 +67,9 @@ func RunCapslock(args []string, output string, pkgs []*packages.Package, queried
 		}
 		sort.Strings(cs)
 		for _, c := range cs {
-			fmt.Println(c)
+			if _, err := fmt.Println(c); err != nil {
+				return err
+			}
 		}
 		return nil
 	} else if output == "v" || output == "verbose" {
-- 
2.43.0


From d188152d34ef346bd3fd9dde129d1cbae4de73b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:17 +0000
Subject: [PATCH 09/17] fix: remove the temporary clones of capslock-git-diff

Each run left two clones of the repository, with checked out files, in
the temporary directory.
---
 cmd/capslock-git-diff/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/capslock-git-diff/main.go b/cmd/capslock-git-diff/main.go
index d2189e4..5333398 100644
--- a/cmd/capslock-git-diff/main.go
+++ b/cmd/capslock-git-diff/main.go
@@ -92,6 +92,7 @@ func AnalyzeAtRevision(rev, pkgname string) (cil *cpb.CapabilityInfoList, err er
 	if err != nil {
 		return nil, fmt.Errorf("creating temporary directory: %w", err)
 	}
+	defer os.RemoveAll(tmpdir)
 	// Get the location of the .git directory, so we can make a temporary clone.
 	var b bytes.Buffer
 	if err = run(&b, "git", "rev-parse", "--git-dir"); err != nil {
-- 
2.43.0


From 91a6611e1c298429463338170601c8ad4241b7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:17 +0000
Subject: [PATCH 10/17] fix: look up revisions in the user's repository

capslock-git-diff looked up the revisions it was given in a clone of the
repository.  There, origin/main is the local branch main, so a comparison
with a remote branch used the wrong commit.  Revisions such as
branch~1, refs/heads/branch and branch@{1} were not found.
---
 cmd/capslock-git-diff/main.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cmd/capslock-git-diff/main.go b/cmd/capslock-git-diff/main.go
index 5333398..c38730e 100644
--- a/cmd/capslock-git-diff/main.go
+++ b/cmd/capslock-git-diff/main.go
@@ -101,6 +101,15 @@ func AnalyzeAtRevision(rev, pkgname string) (cil *cpb.CapabilityInfoList, err er
 	gitdir := strings.TrimSuffix(b.String(), "\n")
 	vlog("git directory: %q", gitdir)
 	b.Reset()
+	// Find the commit.  We do this before cloning, because the revision's name
+	// can mean something else, or nothing, in the clone.  For example,
+	// origin/main in the clone is the branch main of this repository.
+	if err = run(&b, "git", "rev-parse", "--verify", rev); err != nil {
+		return nil, err
+	}
+	commit := strings.TrimSuffix(b.String(), "\n")
+	vlog("commit: %q", commit)
+	b.Reset()
 	// Get the relative directory within the git repository.
 	if err = run(&b, "git", "rev-parse", "--show-prefix"); err != nil {
 		return nil, err
@@ -130,7 +139,7 @@ func AnalyzeAtRevision(rev, pkgname string) (cil *cpb.CapabilityInfoList, err er
 	}
 	vlog("switched to directory %q", tmpdir)
 	// Checkout the revision.
-	if err = run(nil, "git", "checkout", rev, "--"); err != nil {
+	if err = run(nil, "git", "checkout", commit, "--"); err != nil {
 		return nil, err
 	}
 	// Go to the same directory in the clone.
-- 
2.43.0


From 7f0e0d504637da65d2ce84d232bb7462d2ce29ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:17 +0000
Subject: [PATCH 11/17] fix: check out revisions in the clone when GIT_DIR is
 set

If GIT_DIR or GIT_INDEX_FILE was set to an absolute path, the checkout
made by capslock-git-diff changed the current branch and the index of the
user's repository instead of those of the temporary clone.
---
 cmd/capslock-git-diff/main.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/cmd/capslock-git-diff/main.go b/cmd/capslock-git-diff/main.go
index c38730e..bd3cee3 100644
--- a/cmd/capslock-git-diff/main.go
+++ b/cmd/capslock-git-diff/main.go
@@ -59,10 +59,33 @@ func vlog(format string, a ...any) {
 	log.Printf(format, a...)
 }
 
+// environWithoutRepository returns the environment without the variables which
+// tell git to use a particular repository.  They are set, for example, in
+// commands that git runs as hooks.
+func environWithoutRepository() (env []string) {
+	for _, v := range os.Environ() {
+		name, _, _ := strings.Cut(v, "=")
+		switch name {
+		case "GIT_DIR", "GIT_WORK_TREE", "GIT_INDEX_FILE", "GIT_PREFIX", "GIT_COMMON_DIR",
+			"GIT_OBJECT_DIRECTORY", "GIT_ALTERNATE_OBJECT_DIRECTORIES":
+		default:
+			env = append(env, v)
+		}
+	}
+	return env
+}
+
 // run executes the specified command and writes its stdout to w.
 func run(w io.Writer, command string, args ...string) error {
+	return runEnv(nil, w, command, args...)
+}
+
+// runEnv is like run, but also specifies the environment of the command.
+// If env is nil, the current environment is used.
+func runEnv(env []string, w io.Writer, command string, args ...string) error {
 	vlog("running %s with args %q", command, args)
 	cmd := exec.Command(command, args...)
+	cmd.Env = env
 	cmd.Stdout = w
 	var stderr bytes.Buffer
 	if *verbose {
@@ -118,7 +141,8 @@ func AnalyzeAtRevision(rev, pkgname string) (cil *cpb.CapabilityInfoList, err er
 	vlog("current path in repository: %q", prefix)
 	b.Reset()
 	// Clone the repo.
-	if err = run(nil, "git", "clone", "--shared", "--no-checkout", "--", gitdir, tmpdir); err != nil {
+	env := environWithoutRepository()
+	if err = runEnv(env, nil, "git", "clone", "--shared", "--no-checkout", "--", gitdir, tmpdir); err != nil {
 		return nil, err
 	}
 	// Temporarily switch directory.
@@ -139,7 +163,7 @@ func AnalyzeAtRevision(rev, pkgname string) (cil *cpb.CapabilityInfoList, err er
 	}
 	vlog("switched to directory %q", tmpdir)
 	// Checkout the revision.
-	if err = run(nil, "git", "checkout", commit, "--"); err != nil {
+	if err = runEnv(env, nil, "git", "checkout", commit, "--"); err != nil {
 		return nil, err
 	}
 	// Go to the same directory in the clone.
-- 
2.43.0


From 8e72614cbada541a41ac2102859cf90997bb9547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:17 +0000
Subject: [PATCH 12/17] fix: report errors in the output of capslock-git-diff

Errors writing the comparison, and errors listing the commits between the
two revisions, were ignored.  The exit status then said that the output
was complete.

Listing commits now also works for a revision which has the same name as
a file; that was one of the ignored errors.
---
 cmd/capslock-git-diff/main.go | 91 +++++++++++++++++++++--------------
 1 file changed, 54 insertions(+), 37 deletions(-)

diff --git a/cmd/capslock-git-diff/main.go b/cmd/capslock-git-diff/main.go
index bd3cee3..c3843dc 100644
--- a/cmd/capslock-git-diff/main.go
+++ b/cmd/capslock-git-diff/main.go
@@ -29,6 +29,7 @@
 package main
 
 import (
+	"bufio"
 	"bytes"
 	"flag"
 	"fmt"
@@ -52,6 +53,9 @@ var (
 	flagCapabilities = flag.String("capabilities", "-UNANALYZED", "if non-empty, a comma-separated list of capabilities to pass to capslock")
 )
 
+// stdout buffers the output, and keeps the first error writing it.
+var stdout = bufio.NewWriter(os.Stdout)
+
 func vlog(format string, a ...any) {
 	if !*verbose {
 		return
@@ -241,7 +245,15 @@ func main() {
 		log.Print(err)
 		os.Exit(2)
 	}
-	different := diffCapabilityInfoLists(cil1, cil2, revisions, pkgname)
+	different, err := diffCapabilityInfoLists(cil1, cil2, revisions, pkgname)
+	if err != nil {
+		log.Print(err)
+		os.Exit(2)
+	}
+	if err := stdout.Flush(); err != nil {
+		log.Printf("writing comparison: %v", err)
+		os.Exit(2)
+	}
 	if different {
 		os.Exit(1)
 	}
@@ -300,12 +312,12 @@ func cover(pending map[string]bool, ci *cpb.CapabilityInfo) (covered []string) {
 func sortAndPrintCapabilities(cs []cpb.Capability) {
 	slices.Sort(cs)
 	tw := tabwriter.NewWriter(
-		os.Stdout, // output
-		10,        // minwidth
-		8,         // tabwidth
-		4,         // padding
-		' ',       // padchar
-		0)         // flags
+		stdout, // output
+		10,     // minwidth
+		8,      // tabwidth
+		4,      // padding
+		' ',    // padchar
+		0)      // flags
 	capabilityDescription := map[cpb.Capability]string{
 		2:  "Access to the file system",
 		3:  "Access to the network",
@@ -351,39 +363,41 @@ func summarizeNewCapabilities(keys []mapKey, baselineMap, currentMap capabilitie
 	}
 	if n := len(newlyUsedCapabilities); n > 0 {
 		if n == 1 {
-			fmt.Println("\nAdded 1 new capability:")
+			fmt.Fprintln(stdout, "\nAdded 1 new capability:")
 		} else {
-			fmt.Printf("\nAdded %d new capabilities:\n", n)
+			fmt.Fprintf(stdout, "\nAdded %d new capabilities:\n", n)
 		}
 		sortAndPrintCapabilities(newlyUsedCapabilities)
 	}
 	if n := newUsesOfExistingCapabilities; n > 0 {
 		if n == 1 {
-			fmt.Println("\nAdded 1 new use of existing capability:")
+			fmt.Fprintln(stdout, "\nAdded 1 new use of existing capability:")
 		} else {
-			fmt.Printf("\nAdded %d new uses of existing capabilities:\n", n)
+			fmt.Fprintf(stdout, "\nAdded %d new uses of existing capabilities:\n", n)
 		}
 		sortAndPrintCapabilities(existingCapabilitiesWithNewUses)
 	}
 	if len(newlyUsedCapabilities) == 0 && newUsesOfExistingCapabilities == 0 {
 		switch *granularity {
 		case "package":
-			fmt.Printf("\nBetween those commits, none of those packages gained a new capability.\n")
+			fmt.Fprintf(stdout, "\nBetween those commits, none of those packages gained a new capability.\n")
 		case "intermediate":
-			fmt.Printf("\nBetween those commits, there were no uses of capabilities via a new package.\n")
+			fmt.Fprintf(stdout, "\nBetween those commits, there were no uses of capabilities via a new package.\n")
 		case "function", "":
-			fmt.Printf("\nBetween those commits, no functions in those packages gained a new capability.\n")
+			fmt.Fprintf(stdout, "\nBetween those commits, no functions in those packages gained a new capability.\n")
 		}
 	}
 	return newlyUsedCapabilities, existingCapabilitiesWithNewUses
 }
 
-func diffCapabilityInfoLists(baseline, current *cpb.CapabilityInfoList, revisions [2]string, pkgname string) (different bool) {
-	fmt.Printf("Comparing capabilities in %q between revisions %q and %q\n\n",
+func diffCapabilityInfoLists(baseline, current *cpb.CapabilityInfoList, revisions [2]string, pkgname string) (different bool, err error) {
+	fmt.Fprintf(stdout, "Comparing capabilities in %q between revisions %q and %q\n\n",
 		pkgname, revisions[0], revisions[1])
 	if revisions[0] != "." && revisions[1] != "." {
-		fmt.Println("Commits between the two revisions:")
-		listCommits(revisions)
+		fmt.Fprintln(stdout, "Commits between the two revisions:")
+		if err := listCommits(revisions); err != nil {
+			return false, err
+		}
 	}
 	granularityDescription := map[string]string{
 		"package":      "Package",
@@ -415,11 +429,11 @@ func diffCapabilityInfoLists(baseline, current *cpb.CapabilityInfoList, revision
 		for _, c := range list {
 			switch *granularity {
 			case "package":
-				fmt.Printf("\nNew packages with capability %s:\n", c)
+				fmt.Fprintf(stdout, "\nNew packages with capability %s:\n", c)
 			case "intermediate":
-				fmt.Printf("\nNew packages in call paths to capability %s:\n", c)
+				fmt.Fprintf(stdout, "\nNew packages in call paths to capability %s:\n", c)
 			case "function":
-				fmt.Printf("\nNew functions with capability %s:\n", c)
+				fmt.Fprintf(stdout, "\nNew functions with capability %s:\n", c)
 			}
 
 			pending := make(map[string]bool)
@@ -445,25 +459,25 @@ func diffCapabilityInfoLists(baseline, current *cpb.CapabilityInfoList, revision
 				ci := currentMap[key]
 				if keys := cover(pending, ci); len(keys) > 1 {
 					// This call path can be the example for multiple keys.
-					fmt.Printf("\n%ss %s have capability %s:\n", granularityDescription, strings.Join(keys, ", "), key.capability)
+					fmt.Fprintf(stdout, "\n%ss %s have capability %s:\n", granularityDescription, strings.Join(keys, ", "), key.capability)
 				} else {
-					fmt.Printf("\n%s %s has capability %s:\n", granularityDescription, key.key, key.capability)
+					fmt.Fprintf(stdout, "\n%s %s has capability %s:\n", granularityDescription, key.key, key.capability)
 				}
 				printCallPath(ci.Path)
 			}
 		}
 	}
-	return different
+	return different, nil
 }
 
 func printCallPath(fns []*cpb.Function) {
 	tw := tabwriter.NewWriter(
-		os.Stdout, // output
-		10,        // minwidth
-		8,         // tabwidth
-		2,         // padding
-		' ',       // padchar
-		0)         // flags
+		stdout, // output
+		10,     // minwidth
+		8,      // tabwidth
+		2,      // padding
+		' ',    // padchar
+		0)      // flags
 	for _, f := range fns {
 		if f.Site != nil {
 			fmt.Fprint(tw, f.Site.GetFilename(), ":", f.Site.GetLine(), ":", f.Site.GetColumn())
@@ -473,19 +487,22 @@ func printCallPath(fns []*cpb.Function) {
 	tw.Flush()
 }
 
-func listCommits(revisions [2]string) {
+func listCommits(revisions [2]string) error {
 	var b bytes.Buffer
-	run(&b, "git", "log", "--no-decorate", "--oneline", "^"+revisions[0], revisions[1])
+	if err := run(&b, "git", "log", "--no-decorate", "--oneline", "^"+revisions[0], revisions[1], "--"); err != nil {
+		return err
+	}
 	lines := strings.Split(b.String(), "\n")
 	if len(lines) <= 120 {
-		os.Stdout.Write(b.Bytes())
-		return
+		stdout.Write(b.Bytes())
+		return nil
 	}
 	for i := 0; i < 50; i++ {
-		fmt.Println(lines[i])
+		fmt.Fprintln(stdout, lines[i])
 	}
-	fmt.Printf("(...%d commits omitted...)\n", len(lines)-100)
+	fmt.Fprintf(stdout, "(...%d commits omitted...)\n", len(lines)-100)
 	for i := -50; i < 0; i++ {
-		fmt.Println(lines[len(lines)+i])
+		fmt.Fprintln(stdout, lines[len(lines)+i])
 	}
+	return nil
 }
-- 
2.43.0


From 848b1f0bf7701cba5943cf730b5600176459b483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:10:09 +0000
Subject: [PATCH 13/17] fix: let unanalyzed entries of a capability map
 override built-in function entries

A capability map passed by the caller always overrides the built-in one.
An "unanalyzed" entry did not, if the built-in map has a "func" entry for
the same function, because function entries are looked up first.
---
 interesting/interesting.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/interesting/interesting.go b/interesting/interesting.go
index 00437bb..12df862 100644
--- a/interesting/interesting.go
+++ b/interesting/interesting.go
@@ -173,6 +173,11 @@ func LoadClassifier(source string, r io.Reader, excludeBuiltin bool) (*Classifie
 		dst.cgoSuffixes = append(dst.cgoSuffixes, src.cgoSuffixes...)
 	}
 	cc(ret, internalMap)
+	for name := range userClassifier.unanalyzedCategory {
+		// Function entries take precedence over unanalyzed entries, so a builtin
+		// one would hide the caller's entry.
+		delete(ret.functionCategory, name)
+	}
 	cc(ret, userClassifier)
 	sort.Strings(ret.cgoSuffixes)
 	ret.cgoSuffixes = slices.Compact(ret.cgoSuffixes) // remove duplicates
-- 
2.43.0


From f8ca6e3ba1d6663ad600898712203defa025b5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:10:31 +0000
Subject: [PATCH 14/17] fix: do not change the configuration passed to an
 analysis

Analyses with an unset granularity stored their default granularity in the
caller's Config. Using that Config again for another kind of analysis, which
has a different default, gave a different result.
---
 analyzer/analyzer.go | 5 ++++-
 analyzer/compare.go  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/analyzer/analyzer.go b/analyzer/analyzer.go
index 567056b..05a7832 100644
--- a/analyzer/analyzer.go
+++ b/analyzer/analyzer.go
@@ -84,7 +84,10 @@ func GetClassifier(excludeUnanalyzed bool) *interesting.Classifier {
 //     in pkgs to a function with a capability.
 func GetCapabilityInfo(pkgs []*packages.Package, queriedPackages map[*types.Package]struct{}, config *Config) *cpb.CapabilityInfoList {
 	if config.Granularity == GranularityUnset {
-		config.Granularity = GranularityFunction
+		// Use a copy, so that the caller can use config again.
+		c := *config
+		c.Granularity = GranularityFunction
+		config = &c
 	}
 	if config.Granularity == GranularityIntermediate {
 		return intermediatePackages(pkgs, queriedPackages, config)
diff --git a/analyzer/compare.go b/analyzer/compare.go
index 908245f..d45625b 100644
--- a/analyzer/compare.go
+++ b/analyzer/compare.go
@@ -47,7 +47,10 @@ func GranularityFromString(g string) (Granularity, error) {
 
 func compare(baselineFilename string, pkgs []*packages.Package, queriedPackages map[*types.Package]struct{}, config *Config) (different bool, err error) {
 	if config.Granularity == GranularityUnset {
-		config.Granularity = GranularityPackage
+		// Use a copy, so that the caller can use config again.
+		c := *config
+		c.Granularity = GranularityPackage
+		config = &c
 	}
 	compareData, err := os.ReadFile(baselineFilename)
 	if err != nil {
-- 
2.43.0


From 79b688830f58890d1cc97483fde99e1b519a582e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:52 +0000
Subject: [PATCH 15/17] fix: keep calls in other arguments of sort.Slice

The call of sort.Slice or sort.SliceStable is replaced by a call of its
function argument, so a call in the slice argument was not analyzed.  Do not
replace it in that case.
---
 analyzer/util.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/analyzer/util.go b/analyzer/util.go
index bda9742..64fa6cb 100644
--- a/analyzer/util.go
+++ b/analyzer/util.go
@@ -331,6 +331,14 @@ func (m *packageFunctionMatcher) match(typeInfo *types.Info, call *ast.CallExpr)
 		// The function call doesn't have enough arguments.
 		return nil
 	}
+	for i, arg := range call.Args {
+		if i != m.functionTypedParameterIndex && mayHaveSideEffects(arg) {
+			// The call may be something like sort.Slice(foo(), bar), which we can't
+			// rewrite to a call to bar because then the analysis would not see the
+			// call to foo.
+			return nil
+		}
+	}
 	return call.Args[m.functionTypedParameterIndex]
 }
 
-- 
2.43.0


From 34d160d9b79663658470e938ee8578fd9ab0be93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:58:40 +0000
Subject: [PATCH 16/17] fix: escape backslashes in node names in graph output

---
 analyzer/graph.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/analyzer/graph.go b/analyzer/graph.go
index e3de0da..24d0b94 100644
--- a/analyzer/graph.go
+++ b/analyzer/graph.go
@@ -117,15 +117,20 @@ func newGraphBuilder(w io.Writer, nodeNamer func(any) string) graphBuilder {
 	return gb
 }
 
+// dotEscaper escapes a node name for use in a quoted string in the graph.
+// Names can contain both quotes and backslashes, as the name of an instance of
+// a generic function includes any struct tags in its type arguments.
+var dotEscaper = strings.NewReplacer(`\`, `\\`, `"`, `\"`)
+
 func (gb *graphBuilder) Edge(from, to interface{}) {
 	if gb.done {
 		panic("done")
 	}
 	gb.Write([]byte("\t"))
 	gb.Write([]byte(`"`))
-	gb.Write([]byte(strings.ReplaceAll(gb.nodeNamer(from), `"`, `\"`)))
+	gb.Write([]byte(dotEscaper.Replace(gb.nodeNamer(from))))
 	gb.Write([]byte(`" -> "`))
-	gb.Write([]byte(strings.ReplaceAll(gb.nodeNamer(to), `"`, `\"`)))
+	gb.Write([]byte(dotEscaper.Replace(gb.nodeNamer(to))))
 	gb.Write([]byte("\"\n"))
 }
 
-- 
2.43.0


From d3a2ff42769475493a87e573fb515ed116d144b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:58:41 +0000
Subject: [PATCH 17/17] fix: flag conversions of type parameters constrained to
 unsafe.Pointer

---
 analyzer/util.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/analyzer/util.go b/analyzer/util.go
index 64fa6cb..94e3539 100644
--- a/analyzer/util.go
+++ b/analyzer/util.go
@@ -541,7 +541,7 @@ func (v *visitor) Visit(node ast.Node) ast.Visitor {
 			// The argument has no type information.
 			break
 		}
-		if b, ok := argType.Underlying().(*types.Basic); !ok || b.Kind() != types.UnsafePointer {
+		if !mayBeUnsafePointer(argType) {
 			// The argument's type is not equivalent to unsafe.Pointer.
 			break
 		}
@@ -554,6 +554,29 @@ func (v *visitor) Visit(node ast.Node) ast.Visitor {
 	return v
 }
 
+// mayBeUnsafePointer returns true if t's underlying type is unsafe.Pointer, or
+// if t is a type parameter whose constraint admits such a type.
+func mayBeUnsafePointer(t types.Type) bool {
+	switch u := t.Underlying().(type) {
+	case *types.Basic:
+		return u.Kind() == types.UnsafePointer
+	case *types.Interface:
+		// t is a type parameter, or an element of a type parameter's constraint.
+		for i := 0; i < u.NumEmbeddeds(); i++ {
+			if mayBeUnsafePointer(u.EmbeddedType(i)) {
+				return true
+			}
+		}
+	case *types.Union:
+		for i := 0; i < u.Len(); i++ {
+			if mayBeUnsafePointer(u.Term(i).Type()) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 // forEachPackageIncludingDependencies calls fn exactly once for each package
 // that is in pkgs or in the transitive dependencies of pkgs.
 func forEachPackageIncludingDependencies(pkgs []*packages.Package, fn func(*packages.Package)) {
-- 
2.43.0

