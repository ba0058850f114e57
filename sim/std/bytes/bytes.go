package bytes

type Buffer struct{ b []byte }

func (b *Buffer) Write(p []byte) (int, error)       { b.b = append(b.b, p...); return len(p), nil }
func (b *Buffer) WriteString(s string) (int, error) { b.b = append(b.b, s...); return len(s), nil }
func (b *Buffer) String() string                    { return string(b.b) }
