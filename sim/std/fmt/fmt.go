package fmt

type Stringer interface{ String() string }

func Sprint(a ...any) string {
	s := ""
	for _, x := range a {
		if st, ok := x.(Stringer); ok {
			s += st.String()
		}
	}
	return s
}

func Println(a ...any) (int, error) { return len(Sprint(a...)), nil }
