package strings

type Builder struct{ b []byte }

func (b *Builder) WriteString(s string) (int, error) { b.b = append(b.b, s...); return len(s), nil }
func (b *Builder) String() string                    { return string(b.b) }

func ToUpper(s string) string { return Map(func(r rune) rune { return r }, s) }
func Repeat(s string, n int) string {
	r := ""
	for i := 0; i < n; i++ {
		r += s
	}
	return r
}

func Map(mapping func(rune) rune, s string) string {
	r := ""
	for _, c := range s {
		r += string(mapping(c))
	}
	return r
}
