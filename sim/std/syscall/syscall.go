package syscall

func Open(name string) int               { return len(name) }
func Read(fd int, p []byte) (int, error) { return len(p), nil }
func Getpid() int                        { return 1 }
func Mount(source string) error          { return nil }

type Errno uintptr
