// Package context replaces the standard package in the instrumented copy: under an exploration the channel of a
// context is closed through vsched, so that the scheduler knows of it; deadlines never pass during an exploration.
package context

import (
	rc "context"
	"time"

	"github.com/rmera/boo/zzverif/vsched"
	vs "github.com/rmera/boo/zzverif/vsync"
)

type (
	Context         = rc.Context
	CancelFunc      = rc.CancelFunc
	CancelCauseFunc = rc.CancelCauseFunc
)

var (
	Canceled         = rc.Canceled
	DeadlineExceeded = rc.DeadlineExceeded
)

func Background() Context                            { return rc.Background() }
func TODO() Context                                  { return rc.TODO() }
func WithValue(parent Context, key, val any) Context { return rc.WithValue(parent, key, val) }

type key struct{}

type ctx struct {
	Context
	m        vs.Mutex
	done     chan struct{}
	err      error
	cause    error
	children []*ctx
}

func (c *ctx) Done() <-chan struct{} { return c.done }
func (c *ctx) Err() error {
	c.m.Lock()
	defer c.m.Unlock()
	return c.err
}
func (c *ctx) Value(k any) any {
	if _, ok := k.(key); ok {
		return c
	}
	return c.Context.Value(k)
}

func (c *ctx) cancel(err, cause error) {
	c.m.Lock()
	if c.err != nil {
		c.m.Unlock()
		return
	}
	c.err, c.cause = err, cause
	ch := c.children
	vsched.Close(c.done)
	c.m.Unlock()
	for _, d := range ch {
		d.cancel(err, cause)
	}
}

func with(parent Context) *ctx {
	c := &ctx{Context: parent, done: make(chan struct{})}
	if p, ok := parent.Value(key{}).(*ctx); ok {
		p.m.Lock()
		err, cause := p.err, p.cause
		if err == nil {
			p.children = append(p.children, c)
		}
		p.m.Unlock()
		if err != nil {
			c.cancel(err, cause)
		}
	}
	return c
}

func WithCancel(parent Context) (Context, CancelFunc) {
	if !vsched.Active() {
		return rc.WithCancel(parent)
	}
	c := with(parent)
	return c, func() { c.cancel(Canceled, Canceled) }
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	if !vsched.Active() {
		return rc.WithCancelCause(parent)
	}
	c := with(parent)
	return c, func(cause error) {
		if cause == nil {
			cause = Canceled
		}
		c.cancel(Canceled, cause)
	}
}

func Cause(c Context) error {
	if p, ok := c.Value(key{}).(*ctx); ok {
		p.m.Lock()
		defer p.m.Unlock()
		return p.cause
	}
	return rc.Cause(c)
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	if !vsched.Active() {
		return rc.WithTimeout(parent, d)
	}
	return WithCancel(parent)
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	if !vsched.Active() {
		return rc.WithDeadline(parent, d)
	}
	return WithCancel(parent)
}
