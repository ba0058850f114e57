package cgo

type Incomplete struct{ _ int }
