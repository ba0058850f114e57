// Package scn defines the scenario and result formats shared by the driver and
// the simulated programs.
package scn

// File is one entry of the initial simulated file system.
type File struct {
	Path string `json:"path"`
	Data string `json:"data,omitempty"`
	Link string `json:"link,omitempty"` // symbolic link target
	Dir  bool   `json:"dir,omitempty"`
	Exec bool   `json:"exec,omitempty"`
}

// Fault is one injected fault.  It fires at the Nth operation (counted from 1)
// of class Op performed by the process labelled Proc.  If Path is given, only
// operations on it count.
type Fault struct {
	Proc string `json:"proc"` // "main", or a child label such as "go#2"
	Op   string `json:"op"`
	Path string `json:"path,omitempty"`
	N    int    `json:"n"`
	Kind string `json:"kind"` // err, short, shorterr, kill, killafter, child-exit, child-signal, child-delay
	Err  string `json:"err,omitempty"`
	Arg  int    `json:"arg,omitempty"`
	// For shaping child deaths: bytes of standard output written first.
	After int `json:"after,omitempty"`
}

// Scenario is one fully determined simulated execution.
type Scenario struct {
	Prop string   `json:"prop"`
	Name string   `json:"name,omitempty"`
	Seed uint64   `json:"seed"`    // seeds the runtime: map orders, hashes, select, ready queues
	Prem uint32   `json:"preempt"` // mean allocations between forced preemptions; 0 means none
	Yld  int      `json:"yield"`   // percentage of kernel calls that yield first
	Args []string `json:"args"`
	Env  []string `json:"env"`
	Cwd  string   `json:"cwd"`
	// Files lists the initial file system.  Base names shared trees.
	Files  []File  `json:"files"`
	Base   string  `json:"base,omitempty"` // path of a JSON file holding more []File
	Disk   int64   `json:"disk"`           // free bytes; negative means unlimited
	Faults []Fault `json:"faults,omitempty"`
	// ShortReads, when positive, caps every read from a pipe or file at a
	// seeded length of at most this many bytes.
	ShortReads int `json:"shortreads,omitempty"`
	// Slow gives each child a seeded start delay of at most this many
	// simulated milliseconds.
	Slow int `json:"slow,omitempty"`
	// ClockJump, when nonzero, moves the simulated clock by this many seconds
	// at a seeded kernel call.
	ClockJump int64 `json:"clockjump,omitempty"`
	// ListOrder permutes the order in which the simulated go command lists
	// packages and files.
	ListOrder uint64 `json:"listorder,omitempty"`
	MaxEvents int    `json:"maxevents,omitempty"` // livelock bound on kernel calls
	KeepLog   bool   `json:"keeplog,omitempty"`
	API       *API   `json:"api,omitempty"`
	// Ragged allows messages of children to be cut off within a line.
	Ragged bool `json:"ragged,omitempty"`
	// Wall, if positive, limits the run to this many seconds of real time.
	Wall int `json:"-"`
}

// API is a script for the library harness.
type API struct {
	// Trees are versions of the source files, which operations can switch to.
	Trees   []map[string]string `json:"trees,omitempty"`
	Workers int                 `json:"workers"`
	Ops     []APIOp             `json:"ops"`
	Texts   []string            `json:"texts,omitempty"`
}

// APIOp is one library operation performed by the harness.
type APIOp struct {
	Worker int      `json:"w"`
	Op     string   `json:"op"`
	Pkgs   []string `json:"pkgs,omitempty"`
	Slot   int      `json:"slot"`
	Conf   int      `json:"conf"`
	Gran   string   `json:"gran,omitempty"`
	Caps   string   `json:"caps,omitempty"`
	Omit   bool     `json:"omit,omitempty"`
	Out    string   `json:"out,omitempty"`
	Text   int      `json:"text"`
	NoBlt  bool     `json:"noblt,omitempty"`
	Noisy  bool     `json:"noisy,omitempty"`
	Class  int      `json:"class"`
	Chunk  int      `json:"chunk,omitempty"`
	FailAt int      `json:"failat,omitempty"`
	Shuf   uint64   `json:"shuf,omitempty"`
	Tags   string   `json:"tags,omitempty"`
	GOOS   string   `json:"goos,omitempty"`
	Quer   []string `json:"quer,omitempty"`
	Args   []string `json:"args,omitempty"`
}

// OpRec describes one kernel call made during the run.
type OpRec struct {
	Proc string `json:"p"`
	Op   string `json:"o"`
	N    int    `json:"n"`
	PN   int    `json:"k"` // number among the operations on the same path
	Path string `json:"f,omitempty"`
	Len  int    `json:"l,omitempty"`
	Err  string `json:"e,omitempty"`
}

// Child describes one simulated child process.
type Child struct {
	Label  string   `json:"label"`
	Args   []string `json:"args"`
	Dir    string   `json:"dir"`
	Status int      `json:"status"` // wait status, -1 while running
	Seen   []string `json:"seen,omitempty"`
}

// FSEnt is one entry of the final file system.
type FSEnt struct {
	Mode uint32 `json:"m"`
	Size int    `json:"s"`
	Hash uint64 `json:"h"`
	Data string `json:"d,omitempty"`
}

// Result is what a simulated execution produced.
type Result struct {
	Status   string           `json:"status"` // exit, panic, killed, hang, livelock, sigpipe
	Code     int              `json:"code"`
	Panic    string           `json:"panic,omitempty"`
	Stdout   string           `json:"stdout"`
	Stderr   string           `json:"stderr"`
	Cwd      string           `json:"cwd"`
	FS       map[string]FSEnt `json:"fs"`
	Ops      []OpRec          `json:"ops,omitempty"`
	Children []Child          `json:"children,omitempty"`
	Fired    []Fault          `json:"fired,omitempty"`
	Enospc   int              `json:"enospc,omitempty"`
	Shorts   int              `json:"shorts,omitempty"`
	Delays   int              `json:"delays,omitempty"`
	Jumps    int              `json:"jumps,omitempty"`
	Events   int              `json:"events"`
	EvHash   uint64           `json:"evhash"`
	Sched    uint64           `json:"sched"` // hash of the goroutine dispatch sequence
	Dispatch uint64           `json:"dispatch"`
	Mallocs  uint64           `json:"mallocs"`
	Preempts uint64           `json:"preempts"`
	SimNanos int64            `json:"simnanos"`
	Unknown  []string         `json:"unknown,omitempty"` // requests a stub does not implement
	Trap     []int            `json:"trap,omitempty"`    // system calls outside the simulated kernel
	API      []APIRes         `json:"api,omitempty"`
	Log      []string         `json:"log,omitempty"`
	OpenFDs  int              `json:"openfds"`
}

// APIRes is the result of one library operation.
type APIRes struct {
	Op    int    `json:"op"`
	Seq   int    `json:"seq"`
	Err   string `json:"err,omitempty"`
	Panic string `json:"panic,omitempty"`
	Out   string `json:"out,omitempty"`
	N     int    `json:"n,omitempty"`
}
