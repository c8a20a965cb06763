package vh

import (
	"database/sql/driver"
	"fmt"
	"runtime/debug"
	"time"

	nerr "github.com/johnnadratowski/golang-neo4j-bolt-driver/errors"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/messages"
)

// Outcome of a guarded call.
type Outcome struct {
	Panic string
	Hung  bool
}

// Bad describes an abnormal ending ("" if the call returned).
func (o Outcome) Bad() string {
	if o.Hung {
		return "did not return although the server had nothing left to send (hang)"
	}
	if o.Panic != "" {
		return "panicked: " + o.Panic
	}
	return ""
}

// Ticks is how many 50 ms ticks without any server activity count as a hang.
const Ticks = 120

// Guard runs f in its own goroutine and reports panics and hangs. A hang is
// declared only after Ticks ticks during which activity() did not change.
// Ticks are counted by this goroutine's own wakeups, so a starved machine
// stretches them.
func Guard(activity func() int64, f func()) Outcome {
	return GuardN(activity, Ticks, f)
}

// GuardN is Guard with a number of ticks.
func GuardN(activity func() int64, ticks int, f func()) Outcome {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- fmt.Sprintf("%v\n%s", r, debug.Stack())
				return
			}
			done <- ""
		}()
		f()
	}()
	select {
	case p := <-done:
		return Outcome{Panic: p}
	case <-time.After(20 * time.Millisecond):
	}
	last, idle := int64(-1), 0
	for idle < ticks {
		select {
		case p := <-done:
			return Outcome{Panic: p}
		case <-time.After(50 * time.Millisecond):
		}
		a := int64(0)
		if activity != nil {
			a = activity()
		}
		if a != last {
			last, idle = a, 0
		} else {
			idle++
		}
	}
	return Outcome{Hung: true}
}

// Innermost returns the innermost error of a driver error chain.
func Innermost(err error) error {
	if e, ok := err.(*nerr.Error); ok {
		return e.InnerMost()
	}
	return err
}

// IsBadConn reports whether err is the bad-connection error, wrapped or not.
func IsBadConn(err error) bool { return Innermost(err) == driver.ErrBadConn }

// Failure returns the server failure inside err.
func Failure(err error) (map[string]interface{}, bool) {
	switch f := Innermost(err).(type) {
	case messages.FailureMessage:
		return f.Metadata, true
	case *messages.FailureMessage:
		return f.Metadata, true
	}
	return nil, false
}

// Brief is a one-line form of an error.
func Brief(err error) string {
	if err == nil {
		return "nil"
	}
	s := fmt.Sprintf("%T: %v", Innermost(err), err)
	for i, c := range s {
		if c == '\n' && i > 20 {
			s = s[:i]
			break
		}
	}
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}
