package scontext

import (
	"context"
	"time"
	"verif/simrt"
)

func WithCancel(p context.Context) (context.Context, context.CancelFunc) { return simrt.WithCancel(p) }
func WithDeadline(p context.Context, t time.Time) (context.Context, context.CancelFunc) {
	return simrt.WithDeadline(p, t)
}
func WithTimeout(p context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return simrt.WithTimeout(p, d)
}

func WithCancelCause(p context.Context) (context.Context, context.CancelCauseFunc) {
	return simrt.WithCancelCause(p)
}
func WithDeadlineCause(p context.Context, t time.Time, c error) (context.Context, context.CancelFunc) {
	return simrt.WithDeadlineCause(p, t, c)
}
func WithTimeoutCause(p context.Context, d time.Duration, c error) (context.Context, context.CancelFunc) {
	return simrt.WithTimeoutCause(p, d, c)
}
func Cause(c context.Context) error                            { return simrt.Cause(c) }
func WithoutCancel(p context.Context) context.Context          { return simrt.WithoutCancel(p) }
func AfterFunc(c context.Context, f func()) (stop func() bool) { return simrt.CtxAfterFunc(c, f) }
