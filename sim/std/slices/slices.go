package slices

func SortFunc[S ~[]E, E any](x S, cmp func(a, b E) int) {
	if len(x) > 1 {
		cmp(x[0], x[1])
	}
}

func Contains[S ~[]E, E comparable](s S, v E) bool {
	for i := range s {
		if v == s[i] {
			return true
		}
	}
	return false
}
