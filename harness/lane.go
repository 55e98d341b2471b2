package kafkamock

// A minimal lane.Lane: no logging, cancellation only. Used symbolically and natively, so that logging
// is outside the encoding while the context semantics are real code.

import (
	"context"
	"log"
	"sync"
	"time"

	"github.com/jimsnab/go-lane"
)

type vLane struct {
	mu     sync.Mutex
	done   chan struct{}
	closed bool
	kids   []*vLane
	err    error
}

func vNewLane() *vLane { return &vLane{done: make(chan struct{})} }

func (l *vLane) envCancel() {
	l.mu.Lock()
	if l.closed {
		l.mu.Unlock()
		return
	}
	l.closed = true
	l.err = context.Canceled
	close(l.done)
	kids := l.kids
	l.mu.Unlock()
	for _, k := range kids {
		k.envCancel()
	}
}

func (l *vLane) derive() *vLane {
	n := vNewLane()
	l.mu.Lock()
	l.kids = append(l.kids, n)
	closed := l.closed
	l.mu.Unlock()
	if closed {
		n.envCancel()
	}
	return n
}

func (l *vLane) Deadline() (time.Time, bool) { return time.Time{}, false }
func (l *vLane) Done() <-chan struct{}       { return l.done }
func (l *vLane) Err() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.err
}
func (l *vLane) Value(key any) any                                   { return nil }
func (l *vLane) LaneId() string                                      { return "v" }
func (l *vLane) SetJourneyId(id string)                              {}
func (l *vLane) SetLogLevel(n lane.LaneLogLevel) lane.LaneLogLevel   { return n }
func (l *vLane) Trace(args ...any)                                   {}
func (l *vLane) Tracef(format string, args ...any)                   {}
func (l *vLane) Debug(args ...any)                                   {}
func (l *vLane) Debugf(format string, args ...any)                   {}
func (l *vLane) Info(args ...any)                                    {}
func (l *vLane) Infof(format string, args ...any)                    {}
func (l *vLane) Warn(args ...any)                                    {}
func (l *vLane) Warnf(format string, args ...any)                    {}
func (l *vLane) Error(args ...any)                                   {}
func (l *vLane) Errorf(format string, args ...any)                   {}
func (l *vLane) PreFatal(args ...any)                                {}
func (l *vLane) PreFatalf(format string, args ...any)                {}
func (l *vLane) Fatal(args ...any)                                   { panic("fatal error logged") }
func (l *vLane) Fatalf(format string, args ...any)                   { panic("fatal error logged") }
func (l *vLane) Logger() *log.Logger                                 { return nil }
func (l *vLane) Close()                                              {}
func (l *vLane) Derive() lane.Lane                                   { return l.derive() }
func (l *vLane) DeriveWithCancel() (lane.Lane, context.CancelFunc) {
	n := l.derive()
	return n, n.envCancel
}
func (l *vLane) DeriveWithDeadline(t time.Time) (lane.Lane, context.CancelFunc) {
	return l.DeriveWithTimeout(time.Until(t))
}
func (l *vLane) DeriveWithTimeout(d time.Duration) (lane.Lane, context.CancelFunc) {
	n := l.derive()
	time.AfterFunc(d, n.envCancel)
	return n, n.envCancel
}
func (l *vLane) DeriveReplaceContext(ctx context.Context) lane.Lane { return l.derive() }
func (l *vLane) EnableStackTrace(level lane.LaneLogLevel, enable bool) bool {
	return false
}
func (l *vLane) AddTee(x lane.Lane)    {}
func (l *vLane) RemoveTee(x lane.Lane) {}
