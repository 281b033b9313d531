// Package time stands in for the standard time package: it reads the
// simulator's clock (testing/synctest's) plus the running node's clock skew.
package time

import (
	"time"

	"verif.local/sim/simrt"
)

type (
	Duration   = time.Duration
	Location   = time.Location
	Month      = time.Month
	ParseError = time.ParseError
	Time       = time.Time
	Weekday    = time.Weekday
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December

	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RFC822      = time.RFC822
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly
)

var (
	UTC   = time.UTC
	Local = time.Local
)

func Now() Time               { return time.Now().Add(simrt.Skew()) }
func Since(t Time) Duration   { return Now().Sub(t) }
func Until(t Time) Duration   { return t.Sub(Now()) }
func Unix(s, n int64) Time    { return time.Unix(s, n) }
func UnixMilli(ms int64) Time { return time.UnixMilli(ms) }
func UnixMicro(us int64) Time { return time.UnixMicro(us) }
func Date(y int, m Month, d, h, mi, s, n int, l *Location) Time {
	return time.Date(y, m, d, h, mi, s, n, l)
}
func Parse(l, v string) (Time, error)          { return time.Parse(l, v) }
func ParseDuration(s string) (Duration, error) { return time.ParseDuration(s) }
func Sleep(d Duration)                         { simrt.TaskSleep(d) }
func FixedZone(n string, o int) *Location      { return time.FixedZone(n, o) }
func LoadLocation(n string) (*Location, error) { return time.LoadLocation(n) }

// Timer and Ticker run on the simulator's clock.
type Timer struct {
	C    <-chan Time
	c    chan Time
	f    func()
	stop func() bool
	real *time.Timer
}

func (t *Timer) start(d Duration) {
	t.stop = simrt.Running().Later(d, func() {
		if t.f != nil {
			t.f()
			return
		}
		select {
		case t.c <- Now():
		default:
		}
	})
}

func (t *Timer) Stop() bool {
	if t.real != nil {
		return t.real.Stop()
	}
	if t.stop == nil {
		panic("time: Stop called on uninitialized Timer")
	}
	was := t.stop()
	t.drain()
	return was
}

// drain: since Go 1.23 no stale value is seen after Stop or Reset.
func (t *Timer) drain() {
	if t.c != nil {
		select {
		case <-t.c:
		default:
		}
	}
}

func (t *Timer) Reset(d Duration) bool {
	if t.real != nil {
		return t.real.Reset(d)
	}
	was := t.Stop()
	t.start(d)
	return was
}

func NewTimer(d Duration) *Timer {
	if simrt.Running() == nil {
		r := time.NewTimer(d)
		return &Timer{C: r.C, real: r}
	}
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	if simrt.Running() == nil {
		return &Timer{real: time.AfterFunc(d, f)}
	}
	t := &Timer{f: f}
	t.start(d)
	return t
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

type Ticker struct {
	C    <-chan Time
	t    *Timer
	d    Duration
	real *time.Ticker
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	if simrt.Running() == nil {
		r := time.NewTicker(d)
		return &Ticker{C: r.C, real: r}
	}
	c := make(chan Time, 1)
	k := &Ticker{C: c, d: d}
	k.t = &Timer{c: c}
	k.t.f = func() {
		select {
		case c <- Now():
		default:
		}
		k.t.start(k.d)
	}
	k.t.start(d)
	return k
}

func (k *Ticker) Stop() {
	if k.real != nil {
		k.real.Stop()
		return
	}
	k.t.Stop()
}

func (k *Ticker) Reset(d Duration) {
	if k.real != nil {
		k.real.Reset(d)
		return
	}
	k.d = d
	k.t.Reset(d)
}

func Tick(d Duration) <-chan Time { return NewTicker(d).C }
