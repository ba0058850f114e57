package wire

import "golang.org/x/frame"

func Send(s string) int { return frame.Write(s) }
