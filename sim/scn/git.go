package scn

// GitDB is the simulated contents of a .git directory.
type GitDB struct {
	Commits    map[string]*GitCommit `json:"commits"`
	Refs       map[string]string     `json:"refs"`
	Head       string                `json:"head"` // "ref: refs/heads/x" or a commit
	Alternates []string              `json:"alternates,omitempty"`
	Reflog     map[string][]string   `json:"reflog,omitempty"` // newest first
	Index      map[string]string     `json:"index,omitempty"`  // tracked files as last written
	Remotes    map[string]string     `json:"remotes,omitempty"`
	Work       string                `json:"work,omitempty"`      // for linked work trees
	Worktrees  map[string]string     `json:"worktrees,omitempty"` // linked work trees: path to commit
}

// GitCommit is one simulated commit.
type GitCommit struct {
	Parents []string          `json:"parents,omitempty"`
	Msg     string            `json:"msg"`
	Time    int64             `json:"time"`
	Tree    map[string]string `json:"tree"` // path to contents
}

// CapFile is the contents of a simcaps.json file: what the simulated capslock
// finds in the package of that directory.
type CapFile struct {
	Package string     `json:"package"` // import path
	Name    string     `json:"name"`
	Broken  bool       `json:"broken,omitempty"`
	Fail    string     `json:"fail,omitempty"` // how the analyser ends after a partial report: a status or "signal"
	Keep    int        `json:"keep,omitempty"` // how many entries the partial report has
	Entries []CapEntry `json:"entries"`
}

// CapEntry says that a function reaches a capability along a path.
type CapEntry struct {
	Cap  string  `json:"cap"`
	Path []CapFn `json:"path"`
}

// CapFn is one function of a path.
type CapFn struct {
	Name string `json:"name"`
	Pkg  string `json:"pkg,omitempty"`
	File string `json:"file,omitempty"`
	Line int    `json:"line,omitempty"`
	Col  int    `json:"col,omitempty"`
}
