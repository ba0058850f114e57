package iter

type Seq[V any] func(yield func(V) bool)
