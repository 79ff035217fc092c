package vs

import (
	"fmt"
	"unsafe"
)

type waiter struct {
	t    *Task
	val  interface{}
	vc   VC
	ok   bool
	done bool
	sel  *selState
	idx  int
}

type selState struct {
	t     *Task
	fired *waiter
}

type slot struct {
	v  interface{}
	vc VC
}

type hchan struct {
	ref    interface{}
	cap    int
	buf    []slot
	closed bool
	cvc    VC
	rvc    VC
	recvq  []*waiter
	sendq  []*waiter
}

func chanPtr[T any](ch chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

// early is what was done to channels before any execution (package initialisation).
var early = map[unsafe.Pointer]*hchan{}

// shadowC finds the state of a channel in this execution.
func shadowC[T any](s *Sched, ch chan T) *hchan {
	p := chanPtr(ch)
	h := s.chans[p]
	if h == nil {
		h = &hchan{ref: ch, cap: cap(ch)}
		e := early[p]
		if e == nil {
			e = drain(ch)
			if e.closed || len(e.buf) > 0 {
				early[p] = e
			}
		}
		h.closed = e.closed
		h.buf = append(h.buf, e.buf...)
		s.chans[p] = h
	}
	return h
}

// drain empties the real channel; during executions nothing is ever done to it.
func drain[T any](ch chan T) *hchan {
	e := &hchan{ref: ch}
	for {
		select {
		case v, ok := <-ch:
			if ok {
				e.buf = append(e.buf, slot{v: v})
				continue
			}
			e.closed = true
		default:
		}
		return e
	}
}

func shadowS[T any](s *Sched, ch chan<- T) *hchan {
	return shadowC(s, *(*chan T)(unsafe.Pointer(&ch)))
}
func shadowR[T any](s *Sched, ch <-chan T) *hchan {
	return shadowC(s, *(*chan T)(unsafe.Pointer(&ch)))
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.done || (w.sel != nil && w.sel.fired != nil) || w.t.state == 'd' {
			continue
		}
		return w
	}
	return nil
}

func peekWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		if w.done || (w.sel != nil && w.sel.fired != nil) || w.t.state == 'd' {
			*q = (*q)[1:]
			continue
		}
		return w
	}
	return nil
}

func (w *waiter) fire(s *Sched) {
	w.done = true
	if w.sel != nil {
		w.sel.fired = w
	}
	s.makeReady(w.t)
}

// trySend completes a send if that is possible now. vc is the sender's history.
func (s *Sched) trySend(h *hchan, v interface{}, sender *Task, vc VC) bool {
	if h.closed {
		panic("send on closed channel")
	}
	if w := popWaiter(&h.recvq); w != nil {
		w.val, w.ok = v, true
		if sender != nil && h.cap == 0 {
			sender.vc.join(w.t.pub())
		}
		w.t.vc.join(vc)
		w.fire(s)
		return true
	}
	if len(h.buf) < h.cap {
		if sender != nil {
			sender.vc.join(h.rvc)
		}
		h.buf = append(h.buf, slot{v, append(VC(nil), vc...)})
		return true
	}
	return false
}

// tryRecv completes a receive if that is possible now.
func (s *Sched) tryRecv(h *hchan, t *Task) (v interface{}, ok, done bool) {
	if len(h.buf) > 0 {
		sl := h.buf[0]
		h.buf = h.buf[1:]
		t.vc.join(sl.vc)
		h.rvc.join(t.pub())
		if w := popWaiter(&h.sendq); w != nil {
			w.t.vc.join(h.rvc)
			h.buf = append(h.buf, slot{w.val, w.vc})
			w.ok = true
			w.fire(s)
		}
		return sl.v, true, true
	}
	if w := popWaiter(&h.sendq); w != nil {
		t.vc.join(w.vc)
		w.t.vc.join(t.pub())
		w.ok = true
		w.fire(s)
		return w.val, true, true
	}
	if h.closed {
		t.vc.join(h.cvc)
		return nil, false, true
	}
	return nil, false, false
}

// Sender is the instrumented send statement: Sender(ch)(v).
func Sender[T any](ch chan<- T) func(T) {
	return func(v T) {
		s := S
		if s == nil {
			ch <- v
			return
		}
		Yield()
		if s.dying {
			return
		}
		if ch == nil {
			s.block("send on nil channel")
			return
		}
		h := shadowS(s, ch)
		t := s.cur
		vc := t.pub()
		if s.trySend(h, v, t, vc) {
			return
		}
		w := &waiter{t: t, val: v, vc: vc}
		h.sendq = append(h.sendq, w)
		s.block(fmt.Sprintf("send on chan %T", ch))
		if !w.ok {
			panic("send on closed channel")
		}
	}
}

// TrySend is a non-blocking send for harness code.
func TrySend[T any](ch chan<- T, v T) bool {
	s := S
	t := s.cur
	return s.trySend(shadowS(s, ch), v, t, t.pub())
}

// Recv is the instrumented receive expression.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is the instrumented two-valued receive.
func Recv2[T any](ch <-chan T) (T, bool) {
	var zero T
	s := S
	if s == nil {
		v, ok := <-ch
		return v, ok
	}
	Yield()
	if s.dying {
		return zero, false
	}
	if ch == nil {
		s.block("receive from nil channel")
		return zero, false
	}
	h := shadowR(s, ch)
	t := s.cur
	if v, ok, done := s.tryRecv(h, t); done {
		r, _ := v.(T)
		return r, ok
	}
	w := &waiter{t: t}
	h.recvq = append(h.recvq, w)
	s.block(fmt.Sprintf("receive from chan %T", ch))
	r, _ := w.val.(T)
	return r, w.ok
}

// TryRecv is a non-blocking receive for harness code: (value, open, received-or-closed).
func TryRecv[T any](ch <-chan T) (T, bool, bool) {
	var zero T
	s := S
	if ch == nil {
		return zero, false, false
	}
	h := shadowR(s, ch)
	v, ok, done := s.tryRecv(h, s.cur)
	if !done {
		return zero, false, false
	}
	r, _ := v.(T)
	return r, ok, true
}

// Close is the instrumented close.
func Close[T any](ch chan<- T) {
	s := S
	if s == nil {
		close(ch)
		return
	}
	Yield()
	if s.dying {
		return
	}
	if ch == nil {
		panic("close of nil channel")
	}
	h := shadowS(s, ch)
	if h.closed {
		panic("close of closed channel")
	}
	t := s.cur
	h.closed = true
	h.cvc = t.pub()
	for {
		w := popWaiter(&h.recvq)
		if w == nil {
			break
		}
		w.val, w.ok = nil, false
		w.t.vc.join(h.cvc)
		w.fire(s)
	}
	for {
		w := popWaiter(&h.sendq)
		if w == nil {
			break
		}
		w.ok = false
		w.fire(s)
	}
}

// Len is len of a channel.
func Len[T any](ch <-chan T) int {
	s := S
	if s == nil || ch == nil || s.dying {
		return len(ch)
	}
	Yield()
	return len(shadowR(s, ch).buf)
}

// Zero gives a zero value of the channel's element type (for range statements).
func Zero[T any](ch <-chan T) (z T) { return }

// SelCase is one case of an instrumented select statement.
type SelCase interface {
	ready(s *Sched) bool
	try(s *Sched, t *Task) bool
	enqueue(s *Sched, sel *selState, idx int)
	complete(w *waiter)
}

// RCase is a receive case.
type RCase[T any] struct {
	ch <-chan T
	V  T
	OK bool
}

// RecvCase builds a receive case.
func RecvCase[T any](ch <-chan T) *RCase[T] { return &RCase[T]{ch: ch} }

func (c *RCase[T]) ready(s *Sched) bool {
	if c.ch == nil {
		return false
	}
	h := shadowR(s, c.ch)
	return len(h.buf) > 0 || h.closed || peekWaiter(&h.sendq) != nil
}
func (c *RCase[T]) try(s *Sched, t *Task) bool {
	v, ok, done := s.tryRecv(shadowR(s, c.ch), t)
	if done {
		c.V, _ = v.(T)
		c.OK = ok
	}
	return done
}
func (c *RCase[T]) enqueue(s *Sched, sel *selState, idx int) {
	if c.ch == nil {
		return
	}
	h := shadowR(s, c.ch)
	h.recvq = append(h.recvq, &waiter{t: sel.t, sel: sel, idx: idx})
}
func (c *RCase[T]) complete(w *waiter) {
	c.V, _ = w.val.(T)
	c.OK = w.ok
}

// SCase is a send case.
type SCase[T any] struct {
	ch chan<- T
	v  T
}

// SendCase builds a send case: SendCase(ch)(v).
func SendCase[T any](ch chan<- T) func(T) *SCase[T] {
	return func(v T) *SCase[T] { return &SCase[T]{ch: ch, v: v} }
}

func (c *SCase[T]) ready(s *Sched) bool {
	if c.ch == nil {
		return false
	}
	h := shadowS(s, c.ch)
	return h.closed || len(h.buf) < h.cap || peekWaiter(&h.recvq) != nil
}
func (c *SCase[T]) try(s *Sched, t *Task) bool {
	return s.trySend(shadowS(s, c.ch), c.v, t, t.pub())
}
func (c *SCase[T]) enqueue(s *Sched, sel *selState, idx int) {
	if c.ch == nil {
		return
	}
	h := shadowS(s, c.ch)
	h.sendq = append(h.sendq, &waiter{t: sel.t, sel: sel, idx: idx, val: c.v, vc: sel.t.pub()})
}
func (c *SCase[T]) complete(w *waiter) {
	if !w.ok {
		panic("send on closed channel")
	}
}

// Select performs an instrumented select; -1 is the default clause.
func Select(hasDefault bool, cases ...SelCase) int {
	s := S
	if s == nil {
		panic("vs: select outside of an execution")
	}
	Yield()
	if s.dying {
		runtimeGoexit()
	}
	t := s.cur
	var rdy []int
	for i, c := range cases {
		if c.ready(s) {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		i := rdy[s.choose(len(rdy), 1)]
		if !cases[i].try(s, t) {
			panic("vs: ready select case failed")
		}
		return i
	}
	if hasDefault {
		return -1
	}
	sel := &selState{t: t}
	for i, c := range cases {
		c.enqueue(s, sel, i)
	}
	s.block(fmt.Sprintf("select (%d cases)", len(cases)))
	w := sel.fired
	cases[w.idx].complete(w)
	return w.idx
}

// Block is select{}.
func Block() {
	s := S
	if s == nil {
		select {}
	}
	if s.dying {
		runtimeGoexit()
	}
	s.block("select {}")
}
