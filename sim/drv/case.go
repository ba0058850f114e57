package main

import (
	"github.com/google/capslock/internal/verifsim/scn"
	"strings"
)

// Case is one generated situation.  It holds everything that determines the
// executions made to judge it, so that it can be stored, minimised and
// replayed.
type Case struct {
	Prop string
	Kind string `json:",omitempty"`
	Seed uint64 // runtime schedule
	Prem uint32
	Yld  int

	Prog  *Prog    `json:",omitempty"`
	Args  []string `json:",omitempty"`
	Query []string `json:",omitempty"`
	Gran  string   `json:",omitempty"`
	Mode  string   `json:",omitempty"`
	N     int      `json:",omitempty"`

	Faults     []scn.Fault `json:",omitempty"`
	ShortReads int         `json:",omitempty"`
	Slow       int         `json:",omitempty"`
	ClockJump  int64       `json:",omitempty"`
	ListOrder  uint64      `json:",omitempty"`
	Disk       int64       `json:",omitempty"` // 0 means unlimited
	Alt        []Knobs     `json:",omitempty"` // further executions of the same thing

	Git  *GitCase          `json:",omitempty"`
	Text []string          `json:",omitempty"`
	API  *scn.API          `json:",omitempty"`
	Old  *Prog             `json:",omitempty"`
	Raw  []scn.File        `json:",omitempty"`
	S    map[string]string `json:",omitempty"`
}

// Knobs are the parts of an execution that must not change its outcome.
type Knobs struct {
	Seed       uint64
	Prem       uint32
	Yld        int
	ShortReads int
	Slow       int
	ClockJump  int64
	ListOrder  uint64
}

func genKnobs(r *rng) Knobs {
	k := Knobs{Seed: r.next()>>1 | 1, Yld: pick(r, []int{0, 10, 30, 70})}
	k.Prem = uint32(pick(r, []int{0, 50, 200, 1000, 5000}))
	return k
}

func (k Knobs) apply(s *scn.Scenario) {
	s.Seed, s.Prem, s.Yld = k.Seed, k.Prem, k.Yld
	s.ShortReads, s.Slow, s.ClockJump, s.ListOrder = k.ShortReads, k.Slow, k.ClockJump, k.ListOrder
}

func (c *Case) knobs() Knobs {
	return Knobs{c.Seed, c.Prem, c.Yld, c.ShortReads, c.Slow, c.ClockJump, c.ListOrder}
}

func (c *Case) setKnobs(k Knobs) {
	c.Seed, c.Prem, c.Yld, c.ShortReads, c.Slow, c.ClockJump, c.ListOrder = k.Seed, k.Prem, k.Yld, k.ShortReads, k.Slow, k.ClockJump, k.ListOrder
}

func (c *Case) apply(s *scn.Scenario) {
	c.knobs().apply(s)
	s.Faults = c.Faults
	if c.Disk != 0 {
		s.Disk = c.Disk
	}
}

// verdict is the outcome of judging a case.
type verdict struct {
	class  string // "" when the property held
	detail string
	hashes []uint64 // event hashes of the executions, in order
}

// judgeCtx is passed to the code that judges a case.
type judgeCtx struct {
	r *runner
	v *verdict
}

// run executes a scenario and notes its event hash.
func (j *judgeCtx) run(s *scn.Scenario) *scn.Result {
	res := j.r.run(s)
	j.v.hashes = append(j.v.hashes, res.EvHash)
	return res
}

// property is one checked property.
type property struct {
	id    string
	level string
	// gen makes the i-th case, nil if there is none.
	gen func(r *rng, i int) *Case
	// judge runs a case; it reports a violation through fail.
	judge           func(j *judgeCtx, c *Case)
	quick, thorough int // numbers of cases
	rule            string
	bins            []string
	assume          []string
	known           []known
}

func (p *property) stubs() []string {
	if strings.Contains(p.bins[0], "git-diff") {
		return []string{"operating system kernel", "git command", "the analyser the program calls"}
	}
	if p.id == "P11" {
		return []string{"operating system kernel", "the stream the map is read from"}
	}
	return []string{"operating system kernel", "go command", "standard library sources being analysed"}
}

// known is a defect that is recorded in known-findings.txt and not repaired.
// Generated cases keep clear of exactly this input.
type known struct {
	what string
	// fails says whether the defect is still there.
	fails func(j *judgeCtx) bool
}

// rawScenario is a world made of given files.
func rawScenario(prop string, files map[string]string, args ...string) *scn.Scenario {
	s := &scn.Scenario{Prop: prop, Seed: 1, Disk: -1, Cwd: "/work", Base: basePath,
		Env:  []string{"PATH=/usr/bin", "HOME=/home/u", "TMPDIR=/tmp"},
		Args: append([]string{"/usr/bin/capslock"}, args...)}
	for _, f := range sortedKeys(files) {
		s.Files = append(s.Files, scn.File{Path: f, Data: files[f]})
	}
	return s
}

type violated struct{ class, detail string }

// fail ends judging with a violation.
func fail(class, detail string) { panic(violated{class, detail}) }

var properties = map[string]*property{}
