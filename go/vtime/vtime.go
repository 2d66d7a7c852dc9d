// Package vtime replaces package time under the controlled scheduler: timers
// and sleeping run on virtual time.
package vtime

import (
	"time"

	"verif.local/mbv/vsched"
)

// Re-exported types.
type (
	Duration   = time.Duration
	Time       = time.Time
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

// Re-exported constants.
const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RFC822      = time.RFC822
	RFC1123     = time.RFC1123
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
)

// Re-exported variables.
var (
	UTC   = time.UTC
	Local = time.Local
)

var epoch = time.Unix(1600000000, 0)

// Now is the (virtual) time.
func Now() Time {
	if vsched.Active() {
		return epoch.Add(Duration(vsched.Now()))
	}
	return time.Now()
}

// Since is time.Since.
func Since(t Time) Duration { return Now().Sub(t) }

// Until is time.Until.
func Until(t Time) Duration { return t.Sub(Now()) }

// Unix is time.Unix.
func Unix(s, n int64) Time { return time.Unix(s, n) }

// Date is time.Date.
func Date(y int, m Month, d, h, mi, s, ns int, l *Location) Time {
	return time.Date(y, m, d, h, mi, s, ns, l)
}

// Parse is time.Parse.
func Parse(l, v string) (Time, error) { return time.Parse(l, v) }

// ParseDuration is time.ParseDuration.
func ParseDuration(s string) (Duration, error) { return time.ParseDuration(s) }

// Sleep sleeps.
func Sleep(d Duration) {
	if vsched.Active() {
		vsched.Sleep(int64(d))
		return
	}
	time.Sleep(d)
}

// Timer replaces time.Timer.
type Timer struct {
	C <-chan Time
	c chan Time
	f func()
	t *vsched.Timer
	n *time.Timer
}

func (t *Timer) fire() {
	if t.f != nil {
		t.f()
		return
	}
	select {
	case t.c <- Now():
	default:
	}
}

// NewTimer is time.NewTimer.
func NewTimer(d Duration) *Timer {
	if !vsched.Active() {
		n := time.NewTimer(d)
		return &Timer{C: n.C, n: n}
	}
	t := &Timer{c: make(chan Time, 1)}
	t.C = t.c
	t.t = vsched.AddTimer(int64(d), t.fire)
	return t
}

// AfterFunc is time.AfterFunc.
func AfterFunc(d Duration, f func()) *Timer {
	if !vsched.Active() {
		return &Timer{n: time.AfterFunc(d, f)}
	}
	t := &Timer{f: f}
	t.t = vsched.AddTimer(int64(d), t.fire)
	return t
}

// Stop stops the timer.
func (t *Timer) Stop() bool {
	if t.n != nil {
		return t.n.Stop()
	}
	vsched.Yield()
	return t.t.Stop()
}

// Reset restarts the timer.
func (t *Timer) Reset(d Duration) bool {
	if t.n != nil {
		return t.n.Reset(d)
	}
	vsched.Yield()
	was := t.t.Stop()
	if t.c != nil {
		vsched.Drain(t.c)
	}
	t.t = vsched.AddTimer(int64(d), t.fire)
	return was
}

// After is time.After.
func After(d Duration) <-chan Time { return NewTimer(d).C }

// Ticker replaces time.Ticker.
type Ticker struct {
	C    <-chan Time
	c    chan Time
	d    Duration
	t    *vsched.Timer
	n    *time.Ticker
	stop bool
}

func (t *Ticker) fire() {
	if t.stop {
		return
	}
	select {
	case t.c <- Now():
	default:
	}
	t.t = vsched.AddTimer(int64(t.d), t.fire)
}

// NewTicker is time.NewTicker.
func NewTicker(d Duration) *Ticker {
	if !vsched.Active() {
		n := time.NewTicker(d)
		return &Ticker{C: n.C, n: n}
	}
	t := &Ticker{c: make(chan Time, 1), d: d}
	t.C = t.c
	t.t = vsched.AddTimer(int64(d), t.fire)
	return t
}

// Tick is time.Tick.
func Tick(d Duration) <-chan Time { return NewTicker(d).C }

// Stop stops the ticker.
func (t *Ticker) Stop() {
	if t.n != nil {
		t.n.Stop()
		return
	}
	t.stop = true
	t.t.Stop()
}

// Reset changes the period.
func (t *Ticker) Reset(d Duration) {
	if t.n != nil {
		t.n.Reset(d)
		return
	}
	t.t.Stop()
	t.d = d
	t.stop = false
	t.t = vsched.AddTimer(int64(d), t.fire)
}
