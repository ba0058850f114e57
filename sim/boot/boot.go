// Package boot installs the simulated kernel before the program under test
// starts.
package boot

import (
	"encoding/json"
	"os"
	"runtime"
	"syscall"

	"github.com/google/capslock/internal/verifsim/kernel"
	"github.com/google/capslock/internal/verifsim/scn"
	_ "github.com/google/capslock/internal/verifsim/stubs"
)

// K is the simulated kernel, and Scenario what it was made from.
var (
	K        *kernel.Kernel
	Scenario *scn.Scenario
)

func fail(s string) {
	runtime.SimRealWrite(2, []byte("verifsim boot: "+s+"\n"))
	runtime.SimRealExit(70)
}

func init() {
	path := os.Getenv("VERIFSIM_SCN")
	if path == "" {
		fail("no scenario")
	}
	b, err := os.ReadFile(path)
	if err != nil {
		fail(err.Error())
	}
	sc := new(scn.Scenario)
	if err := json.Unmarshal(b, sc); err != nil {
		fail(err.Error())
	}
	var base []scn.File
	if sc.Base != "" {
		b, err := os.ReadFile(sc.Base)
		if err != nil {
			fail(err.Error())
		}
		if err := json.Unmarshal(b, &base); err != nil {
			fail(err.Error())
		}
	}
	k := kernel.New(sc, base)
	syscall.Clearenv()
	for _, e := range sc.Env {
		for i := 0; i < len(e); i++ {
			if e[i] == '=' {
				syscall.Setenv(e[:i], e[i+1:])
				break
			}
		}
	}
	os.Args = sc.Args
	K, Scenario = k, sc
	k.Install()
}
