// Package vtime replaces time: the clock is the scheduler's virtual clock.
package vtime

import (
	"time"

	"gzmc/vs"
)

type (
	Duration   = time.Duration
	Time       = time.Time
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December

	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RFC822      = time.RFC822
	RFC1123     = time.RFC1123
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly
)

var (
	UTC           = time.UTC
	Local         = time.Local
	Date          = time.Date
	Unix          = time.Unix
	UnixMilli     = time.UnixMilli
	UnixMicro     = time.UnixMicro
	Parse         = time.Parse
	ParseDuration = time.ParseDuration
)

func Now() time.Time {
	if vs.S == nil {
		return time.Now()
	}
	return vs.Base.Add(vs.Now())
}
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration)           { vs.Sleep(d) }

func After(d time.Duration) <-chan time.Time {
	if vs.S == nil {
		return time.After(d)
	}
	ch := make(chan time.Time, 1)
	if !vs.Dying() {
		vs.AddChanTimer(d, ch)
	}
	return ch
}

func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

type Timer struct {
	C  <-chan time.Time
	ch chan time.Time
	f  func()
	t  *vs.Timer
}

func NewTimer(d time.Duration) *Timer {
	ch := make(chan time.Time, 1)
	t := &Timer{C: ch, ch: ch}
	if !vs.Dying() {
		t.t = vs.AddChanTimer(d, ch)
	}
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	if !vs.Dying() {
		t.t = vs.AddFuncTimer(d, f)
	}
	return t
}

func (t *Timer) Stop() bool {
	vs.Yield()
	if vs.Dying() || t.t == nil {
		return false
	}
	return t.t.Stop()
}

func (t *Timer) Reset(d time.Duration) bool {
	vs.Yield()
	if vs.Dying() || t.t == nil {
		return false
	}
	a := t.t.Stop()
	if t.f != nil {
		t.t = vs.AddFuncTimer(d, t.f)
	} else {
		t.t = vs.AddChanTimer(d, t.ch)
	}
	return a
}

type Ticker struct {
	C       <-chan time.Time
	ch      chan time.Time
	d       time.Duration
	t       *vs.Timer
	stopped bool
	gen     int
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	ch := make(chan time.Time, 1)
	t := &Ticker{C: ch, ch: ch, d: d}
	t.arm()
	return t
}

func (t *Ticker) arm() {
	if vs.Dying() {
		return
	}
	gen := t.gen
	t.t = vs.AddTimer(t.d, func() {
		if t.stopped || gen != t.gen {
			return
		}
		vs.TimerSend(t.ch)
		t.arm()
	})
}
func (t *Ticker) Stop() { t.stopped = true }
func (t *Ticker) Reset(d time.Duration) {
	t.d = d
	t.gen++
	t.stopped = false
	t.arm()
}
