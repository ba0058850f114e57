package main

import (
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/google/capslock/internal/verifsim/scn"
)

type repSite struct {
	Filename string
	Line     json.Number
	Column   json.Number
}

type repFn struct {
	Name    string
	Site    *repSite
	Package string
}

type repCap struct {
	PackageName, Capability, DepPath, PackageDir, CapabilityType string
	Path                                                         []repFn
}

type report struct {
	CapabilityInfo []repCap
	ModuleInfo     []struct{ Path, Version string }
	PackageInfo    []struct {
		Path         string
		IgnoredFiles []string
	}
}

func jsonNumber(s string) json.Number { return json.Number(s) }

func (s *repSite) UnmarshalJSON(b []byte) error {
	var m map[string]any
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	s.Filename, _ = m["filename"].(string)
	s.Line = json.Number(fmt.Sprint(m["line"]))
	s.Column = json.Number(fmt.Sprint(m["column"]))
	return nil
}

func parseReport(s string) (*report, error) {
	r := new(report)
	d := json.NewDecoder(strings.NewReader(s))
	if err := d.Decode(r); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, fmt.Errorf("text after the report")
	}
	for i := range r.CapabilityInfo {
		c := &r.CapabilityInfo[i]
		c.Capability = strings.TrimPrefix(c.Capability, "CAPABILITY_")
	}
	return r, nil
}

// queriedSet evaluates package patterns used from directory /work.
func queriedSet(w *world, pats []string) map[string]bool {
	out := map[string]bool{}
	p := w.p
	for _, pat := range pats {
		for i, k := range p.Pkgs {
			if k.Dead {
				continue
			}
			full := p.pkgPath(i)
			pre, wild := strings.CutSuffix(pat, "/...")
			match := false
			if rest, ok := strings.CutPrefix(pre, "."); ok {
				rest = strings.TrimPrefix(rest, "/")
				if p.Mods[k.Mod].Where != "main" {
					continue
				}
				match = k.Rel == rest || wild && (rest == "" || strings.HasPrefix(k.Rel, rest+"/"))
			} else {
				match = full == pre || wild && strings.HasPrefix(full, pre+"/")
				if strings.Contains(pre, "...") || strings.Contains(pat, "...") && !wild {
					match = matchesPattern(full, pat)
				}
			}
			if match {
				out[full] = true
			}
		}
	}
	return out
}

// matchesPattern reports whether a package path matches a pattern.
func matchesPattern(full, pat string) bool {
	x := strings.ReplaceAll(regexp.QuoteMeta(pat), `\.\.\.`, `.*`)
	if pre, ok := strings.CutSuffix(x, "/.*"); ok {
		x = pre + "(/.*)?"
	}
	return regexp.MustCompile("^" + x + "$").MatchString(full)
}

// genQuery chooses package patterns that match something.
func genQuery(r *rng, p *Prog) []string {
	var local, all []string
	for i, k := range p.Pkgs {
		if k.Dead {
			continue
		}
		all = append(all, p.pkgPath(i))
		if k.Mod == 0 {
			if k.Rel == "" {
				local = append(local, ".")
			} else {
				local = append(local, "./"+k.Rel)
			}
		}
	}
	switch r.n(7) {
	case 0, 1, 2:
		if len(local) > 0 {
			return []string{"./..."}
		}
	case 3:
		if len(local) > 0 {
			shuffle(r, local)
			return local[:r.in(1, len(local))]
		}
	case 4:
		m := pick(r, p.Mods).Path
		for _, a := range all {
			if a == m || strings.HasPrefix(a, m+"/") {
				return []string{m + "/..."}
			}
		}
	case 6:
		// Patterns for parts of a module, and others beside them.
		var out []string
		for n := r.in(1, 3); n > 0; n-- {
			i := r.n(len(p.Pkgs))
			k := p.Pkgs[i]
			if k.Dead {
				continue
			}
			pat := p.pkgPath(i)
			dir := strings.LastIndexByte(k.Rel, '/')
			switch v := r.n(6); {
			case v == 0 && dir >= 0:
				pat = p.Mods[k.Mod].Path + "/" + k.Rel[:dir] + "/..."
			case v == 1 && dir >= 0 && k.Mod == 0:
				pat = "./" + k.Rel[:dir] + "/..."
			case v == 2:
				pat += "/..."
			case v == 3 && len(k.Rel) > 2:
				pat = pat[:len(pat)-r.in(1, 2)] + "..."
			case v == 4 && dir >= 0:
				pat = p.Mods[k.Mod].Path + "/..." + k.Rel[dir:]
			}
			out = append(out, pat)
		}
		if out != nil {
			return out
		}
	}
	shuffle(r, all)
	return all[:r.in(1, len(all))]
}

func setDiff(got, want map[[2]string]bool) string {
	var l []string
	for k := range got {
		if !want[k] {
			l = append(l, "unexpected "+k[0]+" "+k[1])
		}
	}
	for k := range want {
		if !got[k] {
			l = append(l, "missing "+k[0]+" "+k[1])
		}
	}
	sort.Strings(l)
	if len(l) > 6 {
		l = append(l[:6], fmt.Sprintf("and %d more", len(l)-6))
	}
	return strings.Join(l, "; ")
}

// setHash identifies a set of pairs.
func setHash(m map[[2]string]bool) uint64 {
	var h uint64
	for k := range m {
		h += hashString(k[0] + " " + k[1])
	}
	return h
}

// wantExit demands that a run ended normally with the given code.
func wantExit(res *scn.Result, code int) {
	if res.Status != "exit" || res.Code != code {
		fail("no-report", fmt.Sprintf("run ended with %s %d instead of exit %d: %s%s", res.Status, res.Code, code, tail(res.Stderr, 800), tail(res.Panic, 800)))
	}
}

// nontrivial counts a distinct case.
func (j *judgeCtx) nontrivial(label string) {
	j.r.mu.Lock()
	j.r.labels[label] = true
	j.r.mu.Unlock()
}

func (j *judgeCtx) count(w *world) {
	j.r.mu.Lock()
	for k, n := range w.forms {
		j.r.forms[k] += n
	}
	j.r.mu.Unlock()
}

// show prints a run when replaying verbosely.
func (j *judgeCtx) show(s *scn.Scenario, res *scn.Result) {
	if !verbose {
		return
	}
	for _, f := range s.Files {
		fmt.Printf("=== %s\n%s\n", f.Path, f.Data)
	}
	fmt.Println(s.Args, res.Status, res.Code, res.Stdout, res.Stderr, res.Panic)
}
