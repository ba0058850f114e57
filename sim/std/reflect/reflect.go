package reflect

import "unsafe"

type Type interface{ Name() string }

type Value struct {
	typ *int
	ptr unsafe.Pointer
}

func ValueOf(i any) Value               { return Value{} }
func (v Value) Int() int64              { return int64(*(*int)(v.ptr)) }
func (v Value) IsValid() bool           { return v.typ != nil }
func (v Value) Call(in []Value) []Value { return in }
func (v Value) Elem() Value             { return v }
func DeepEqual(x, y any) bool           { return x == y }
func Copy(dst, src Value) int           { return 0 }
