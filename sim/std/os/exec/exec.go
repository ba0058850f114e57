package exec

import "os"

type Cmd struct{ Path string }

func Command(name string, arg ...string) *Cmd { return &Cmd{name} }

func (c *Cmd) Run() error     { _, err := os.Open(c.Path); return err }
func (c *Cmd) String() string { return c.Path }

func LookPath(file string) (string, error) { _, err := os.Stat(file); return file, err }
