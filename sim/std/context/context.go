package context

import "time"

type Context interface {
	Deadline() (deadline time.Time, ok bool)
	Err() error
}

type emptyCtx struct{}

func (emptyCtx) Deadline() (deadline time.Time, ok bool) { return }
func (emptyCtx) Err() error                              { return nil }

func Background() Context { return emptyCtx{} }
