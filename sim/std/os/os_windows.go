package os

import "internal/syscall/windows"

var handle = windows.Handle()
