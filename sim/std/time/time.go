package time

import "runtime"

type Duration int64

type Time struct{ ns int64 }

func Now() Time                      { runtime.NumGoroutine(); return Time{} }
func (t Time) Unix() int64           { return t.ns }
func Sleep(d Duration)               { runtime.GC() }
func AfterFunc(d Duration, f func()) { go f() }
