// Command api performs sequences of library operations in one process.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/types"
	"io"
	"maps"
	"os"
	"runtime"
	"slices"
	"strings"
	"sync"

	"github.com/google/capslock/analyzer"
	"github.com/google/capslock/interesting"
	"github.com/google/capslock/internal/verifsim/boot"
	"github.com/google/capslock/internal/verifsim/scn"
	cpb "github.com/google/capslock/proto"
	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
)

// chunked is a stream that delivers its text in pieces, and can fail.
type chunked struct {
	text   string
	pos    int
	max    int
	failAt int // number of bytes before the failure, or -1
	state  uint64
	empty  int
}

func (c *chunked) rand(n int) int {
	c.state += 0x9e3779b97f4a7c15
	z := c.state
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return int((z ^ z>>31) % uint64(n))
}

func (c *chunked) failure() error {
	switch c.state >> 40 % 3 {
	case 0:
		return io.ErrUnexpectedEOF
	case 1:
		return fmt.Errorf("connection lost: %w", io.EOF)
	}
	return errors.New("input/output error")
}

func (c *chunked) Read(b []byte) (int, error) {
	runtime.Gosched()
	end := len(c.text)
	if c.failAt >= 0 && c.failAt < end {
		end = c.failAt
	}
	if len(b) == 0 {
		return 0, nil
	}
	if c.max > 0 && c.empty < 20 && c.rand(12) == 0 {
		c.empty++
		return 0, nil
	}
	n := end - c.pos
	if c.max > 0 && n > 0 {
		n = min(n, 1+c.rand(c.max))
	}
	n = min(n, len(b))
	copy(b, c.text[c.pos:c.pos+n])
	c.pos += n
	if c.pos == end && (n == 0 || c.rand(2) == 0) {
		if c.failAt >= 0 {
			return n, c.failure()
		}
		return n, io.EOF
	}
	return n, nil
}

type loaded struct {
	pkgs    []*packages.Package
	queried map[*types.Package]struct{}
}

type state struct {
	api   *scn.API
	class []*interesting.Classifier
	conf  []*analyzer.Config
	load  []loaded
	res   []scn.APIRes
	mu    sync.Mutex
}

var prog = ssa.NewProgram(nil, 0)

func node(name string) *callgraph.Node {
	return &callgraph.Node{Func: prog.NewFunction(name, types.NewSignatureType(nil, nil, nil, nil, nil, false), "")}
}

func render(m proto.Message) string {
	b, err := protojson.Marshal(m)
	if err != nil {
		return "unprintable: " + err.Error()
	}
	var out bytes.Buffer
	if err := json.Compact(&out, b); err != nil {
		return "invalid: " + err.Error()
	}
	return out.String()
}

func (s *state) do(o *scn.APIOp) (out string, err error) {
	switch o.Op {
	case "loadmap":
		c, err := interesting.LoadClassifier("map", &chunked{text: s.api.Texts[o.Text], max: o.Chunk, failAt: o.FailAt - 1, state: o.Shuf}, o.NoBlt)
		if err != nil {
			return "", err
		}
		s.class[o.Slot] = c
	case "default":
		s.class[o.Slot] = analyzer.GetClassifier(o.Noisy)
	case "exclude":
		if c := s.class[o.Class]; c != nil {
			s.class[o.Slot] = interesting.ClassifierExcludingUnanalyzed(c)
		}
	case "query":
		c := s.class[o.Class]
		if c == nil {
			return "", errors.New("no classifier")
		}
		var l []string
		for _, q := range o.Quer {
			a, b, ok := strings.Cut(q, "|")
			if !ok {
				return "", errors.New("bad query " + q)
			}
			if x, ok := strings.CutPrefix(a, "edge "); ok {
				l = append(l, fmt.Sprint(c.IncludeCall(&callgraph.Edge{Caller: node(x), Callee: node(b)})))
				continue
			}
			l = append(l, strings.TrimPrefix(c.FunctionCategory(a, b).String(), "CAPABILITY_"))
			runtime.Gosched()
		}
		return strings.Join(l, " "), nil
	case "conf":
		g, err := analyzer.GranularityFromString(o.Gran)
		if err != nil {
			return "", err
		}
		set, err := analyzer.NewCapabilitySet(o.Caps)
		if err != nil {
			return "", err
		}
		s.conf[o.Conf] = &analyzer.Config{Classifier: s.class[o.Class], DisableBuiltin: o.NoBlt, Granularity: g, CapabilitySet: set, OmitPaths: o.Omit}
	case "edit":
		t := s.api.Trees[o.Text]
		for _, old := range s.api.Trees {
			for _, f := range slices.Sorted(maps.Keys(old)) {
				if _, ok := t[f]; !ok {
					if err := os.Remove(f); err != nil && !os.IsNotExist(err) {
						return "", err
					}
				}
			}
		}
		for _, f := range slices.Sorted(maps.Keys(t)) {
			if err := os.WriteFile(f, []byte(t[f]), 0o666); err != nil {
				return "", err
			}
		}
	case "load":
		p, err := analyzer.LoadPackages(o.Pkgs, analyzer.LoadConfig{BuildTags: o.Tags, GOOS: o.GOOS})
		if err != nil {
			return "", err
		}
		for _, k := range p {
			for _, e := range k.Errors {
				return "", e
			}
		}
		if len(p) == 0 {
			return "", errors.New("no packages")
		}
		s.load[o.Slot] = loaded{p, analyzer.GetQueriedPackages(p)}
		var l []string
		for _, k := range p {
			l = append(l, k.PkgPath)
		}
		return strings.Join(l, " "), nil
	default:
		l, c := s.load[o.Slot], s.conf[o.Conf]
		if l.pkgs == nil || c == nil {
			return "", errors.New("nothing loaded")
		}
		switch o.Op {
		case "info":
			return render(analyzer.GetCapabilityInfo(l.pkgs, l.queried, c)), nil
		case "stats":
			return render(analyzer.GetCapabilityStats(l.pkgs, l.queried, c)), nil
		case "counts":
			return render(analyzer.GetCapabilityCounts(l.pkgs, l.queried, c)), nil
		case "graph":
			var b strings.Builder
			analyzer.CapabilityGraph(l.pkgs, l.queried, c, nil,
				func(e *callgraph.Edge) {
					fmt.Fprintf(&b, "%v -> %v\n", e.Caller.Func, e.Callee.Func)
				},
				func(n *callgraph.Node, k cpb.Capability) { fmt.Fprintf(&b, "%v: %v\n", n.Func, k) }, nil)
			return b.String(), nil
		case "run":
			n := len(boot.K.Stdout(0))
			err := analyzer.RunCapslock(o.Args, o.Out, l.pkgs, l.queried, c)
			return boot.K.Stdout(n), err
		}
		return "", errors.New("unknown operation " + o.Op)
	}
	return "", nil
}

func (s *state) one(i int) {
	r := scn.APIRes{Op: i}
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.Panic = fmt.Sprint(e)
			}
		}()
		out, err := s.do(&s.api.Ops[i])
		r.Out = out
		if err != nil {
			r.Err = err.Error()
			if r.Err == "" {
				r.Err = "error"
			}
		}
	}()
	s.mu.Lock()
	r.Seq = len(s.res)
	s.res = append(s.res, r)
	s.mu.Unlock()
}

func main() {
	api := boot.Scenario.API
	s := &state{api: api, class: make([]*interesting.Classifier, 64), conf: make([]*analyzer.Config, 64), load: make([]loaded, 64)}
	// Worker 0 first, then the others at the same time, and then worker -1.
	phase := func(ok func(w int) bool) {
		by := map[int][]int{}
		var order []int
		for i := range api.Ops {
			if w := api.Ops[i].Worker; ok(w) {
				if by[w] == nil {
					order = append(order, w)
				}
				by[w] = append(by[w], i)
			}
		}
		var wg sync.WaitGroup
		for _, w := range order {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, i := range by[w] {
					s.one(i)
				}
			}()
		}
		wg.Wait()
	}
	phase(func(w int) bool { return w == 0 })
	phase(func(w int) bool { return w > 0 })
	phase(func(w int) bool { return w < 0 })
	boot.K.Res.API = s.res
	boot.K.Finish("exit", 0)
}
