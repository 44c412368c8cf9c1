package h

import (
	"context"
	"runtime"
	"strings"
	"sync/atomic"
	"time"
)

// CutCtx is a context that is cancelled when it has been looked at a number of times.
//
// Looks of the database driver do not count and never cancel it: interrupting the pinned driver
// inside a statement can leave the connection with an open statement or transaction (see
// DESIGN.md). The cut falls between two statements or between two rows.
type CutCtx struct {
	context.Context
	cancel func()
	left   atomic.Int64
	seen   atomic.Int64
}

// Cut makes a context cancelled at its nth use (never when n is 0).
func Cut(n int) *CutCtx {
	ctx, cancel := context.WithCancel(context.Background())
	x := &CutCtx{Context: ctx, cancel: cancel}
	x.left.Store(int64(n))
	return x
}

func (x *CutCtx) tick() {
	var pcs [4]uintptr
	frames := runtime.CallersFrames(pcs[:runtime.Callers(3, pcs[:])])
	for {
		f, more := frames.Next()
		if strings.HasPrefix(f.Function, "modernc.org/") {
			return
		}
		if !more {
			break
		}
	}
	x.seen.Add(1)
	if x.left.Add(-1) == 0 {
		x.cancel()
	}
}

func (x *CutCtx) Done() <-chan struct{} { x.tick(); return x.Context.Done() }
func (x *CutCtx) Err() error            { x.tick(); return x.Context.Err() }

// Seen is how often the context has been looked at.
func (x *CutCtx) Seen() int { return int(x.seen.Load()) }

// Stop releases the context.
func (x *CutCtx) Stop() { x.cancel() }

// WasCut tells whether the context has been cancelled.
func (x *CutCtx) WasCut() bool { return x.Context.Err() != nil }

// Calm runs f, again for as long as what it reports is left over from an earlier interruption:
// the database driver may stop the next statement of the connection, too, or still be rolling
// back.
func Calm(f func() error) error {
	for i := 0; ; i++ {
		err := f()
		if i == 50 || err == nil || !(strings.Contains(err.Error(), "interrupted (9)") || strings.Contains(err.Error(), "database is locked")) {
			return err
		}
		time.Sleep(2 * time.Millisecond)
	}
}
