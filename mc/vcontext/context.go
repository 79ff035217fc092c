// Package vcontext replaces context.
package vcontext

import (
	"context"
	"errors"
	"time"

	"gzmc/vs"
	"gzmc/vtime"
)

type (
	Context    = context.Context
	CancelFunc = context.CancelFunc
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

func Background() Context { return context.Background() }
func TODO() Context       { return context.TODO() }

func WithValue(p Context, k, v any) Context { return context.WithValue(p, k, v) }

type ctx struct {
	parent   Context
	done     chan struct{}
	err      error
	deadline time.Time
	hasDL    bool
	children []*ctx
}

func (c *ctx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *ctx) Done() <-chan struct{} { return c.done }
func (c *ctx) Err() error            { vs.Yield(); return c.err }
func (c *ctx) Value(k any) any {
	if k == key {
		return c
	}
	return c.parent.Value(k)
}

type keyT struct{}

var key = &keyT{}

func (c *ctx) cancel(err error) {
	if c.err != nil {
		return
	}
	c.err = err
	vs.Close(c.done)
	for _, k := range c.children {
		k.cancel(err)
	}
}

func newCtx(p Context) *ctx {
	if p == nil {
		panic(errors.New("cannot create context from nil parent"))
	}
	c := &ctx{parent: p, done: make(chan struct{})}
	if pc, ok := p.Value(key).(*ctx); ok {
		if pc.err != nil {
			c.cancel(pc.err)
		} else {
			pc.children = append(pc.children, c)
		}
	}
	return c
}

func WithCancel(p Context) (Context, CancelFunc) {
	c := newCtx(p)
	return c, func() { c.cancel(Canceled) }
}

func WithDeadline(p Context, t time.Time) (Context, CancelFunc) {
	return WithTimeout(p, vtime.Until(t))
}

func WithTimeout(p Context, d time.Duration) (Context, CancelFunc) {
	c := newCtx(p)
	c.deadline, c.hasDL = vtime.Now().Add(d), true
	tm := vtime.AfterFunc(d, func() { c.cancel(DeadlineExceeded) })
	return c, func() { tm.Stop(); c.cancel(Canceled) }
}
