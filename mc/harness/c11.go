package main

import (
	"bytes"
	"fmt"
	"time"

	"gzmc/vs"
)

// A request under test and the stick's behaviour towards it.
type act struct {
	at   time.Duration
	what int
}

const (
	aNone = iota
	aAck
	aNak
	aCan
	aAnswer
	aUndecodable // the right node, class and report, but cut short
	aWrongType   // a frame that matches the request without being an application report
	aBadSum
	aUnknownReport
	aReadErr
	aGarbage
	aCallback
	nActs
)

type kind11 struct {
	name   string
	frame  []byte
	ask    func(s *Sys, t time.Duration) *Req
	good   []byte
	cut    []byte
	wrong  []byte
	report bool
}

var kinds11 = []kind11{
	{"report", frame(0, cmd6...), func(s *Sys, t time.Duration) *Req { return s.ask("req", t, 5, cmd6...) },
		ans6, report(6, 0x31, 0x05), frame(0x01, 0x13, 0x01, 6, 0, 0x31, 0x05, 0), true},
	{"send", frame(0, cmd5...), func(s *Sys, t time.Duration) *Req { return s.query("req", t, cmd5...) },
		ans5, report(5, 0x25), frame(0x01, 0x13, 0x01, 5, 0, 0x25, 0x03, 0), false},
	{"list", frame(0, 0x02), func(s *Sys, t time.Duration) *Req { return s.query("req", t, 0x02) },
		nodeListFrame(1, 5), frame(1, 0x02, 0x05, 0x00, 0x1d, 1, 2), frame(0, 0x02), false},
	{"capability", frame(0, 0x41, 9), func(s *Sys, t time.Duration) *Req { return s.query("req", t, 0x41, 9) },
		capFrame(0x53, 0x9c, 0, 4, 0x10, 1), frame(1, 0x41, 0x53, 0x9c), frame(0, 0x41, 9), false},
}

// wrong11 are the kinds of requests, and one that waits for a report where there are none: every answer is a wrong one.
var wrong11 = append(append([]kind11(nil), kinds11...), kind11{"misused", frame(0, 0x41, 9), func(s *Sys, t time.Duration) *Req { return s.ask("req", t, 0, 0x41, 9) },
	capFrame(0x53, 0x9c, 0, 4, 0x10, 1), frame(1, 0x41, 0x53, 0x9c), capFrame(0xd3, 0x9c, 0, 4, 0x11, 1), true})

// feed plays one action on the port; it tells whether a byte sequence was sent.
func (k *kind11) feed(p *Port, a int) {
	switch a {
	case aAck:
		p.Feed(ack)
	case aNak:
		p.Feed(nak)
	case aCan:
		p.Feed(can)
	case aAnswer:
		p.Feed(k.good)
	case aUndecodable:
		p.Feed(k.cut)
	case aWrongType:
		p.Feed(k.wrong)
	case aBadSum:
		b := append([]byte(nil), k.good...)
		b[len(b)-1] ^= 1
		p.Feed(b)
	case aUnknownReport:
		p.Feed(report(6, 0x31, 0x7f, 1))
	case aReadErr:
		p.err = errRead
	case aGarbage:
		p.Feed([]byte{0x01, 0x20, 0x00, 0xff})
	case aCallback:
		p.Feed(frame(0, 0x13, 0x22, 0x00))
	}
}

// judge11 checks what a request's channel did.
func judge11(s *Sys, r *Req, f []byte) {
	if !r.Issued || r.Err != nil {
		fail("the caller of a request is blocked or got an error (%v): %s", r.Err, vs.Dump())
	}
	ws := s.written(f)
	if len(ws) == 0 {
		fail("a request was never written: %s", vs.Dump())
	}
	if r.answers() > 1 {
		fail("a request got %d answers", r.answers())
	}
	if !r.Closed {
		fail("a request's channel is still open %v after the last transmission (timeout %v): %s", now()-ws[len(ws)-1].At, r.Timeout, vs.Dump())
	}
	if late := r.ClosedAt - (ws[len(ws)-1].At + r.Timeout); late > time.Second+10*ms {
		fail("a request's channel was closed %v after its timeout", late)
	}
}

// prompt11 is the limit when a single requester listens all the time: nothing can hold up the end of its request.
func prompt11(s *Sys, r *Req, f []byte) {
	ws := s.written(f)
	if late := r.ClosedAt - (ws[len(ws)-1].At + r.Timeout); late > 250*ms {
		fail("a request's channel was closed %v after its timeout (%v) although nothing was being delivered", late, r.Timeout)
	}
}

// later issues one more request with a well-behaved stick; it must be answered.
func later(s *Sys) {
	s.handler = nil
	s.noAck = false
	r := s.ask("later", 2*time.Second, 3, 0x13, 8, 2, 0x25, 0x02, 0x25)
	f := frame(0, 0x13, 8, 2, 0x25, 0x02, 0x25)
	if !vs.WaitUntil("written", 4*time.Second, func() bool { return len(s.written(f)) > 0 }) {
		fail("a later request was not written: %s", vs.Dump())
	}
	sleep(30 * ms)
	s.Op.Cur().Feed(report(8, 0x25, 0x03, 0x00))
	sleep(2500 * ms)
	if len(r.Reports) != 1 || !r.Closed {
		fail("a later request got %d answers, closed=%v: %s", len(r.Reports), r.Closed, vs.Dump())
	}
}

func init() {
	timeouts := []time.Duration{300 * ms, 2 * time.Second, 20 * ms}
	times := []time.Duration{5 * ms, 0, 100 * ms, 290 * ms, 300 * ms, 310 * ms, 1100 * ms, 2500 * ms}
	// every behaviour: two or three actions at any of these times
	for ki := range wrong11 {
		k := &wrong11[ki]
		for depth := 2; depth <= 3; depth++ {
			depth := depth
			reg(&Scenario{Prop: "C11", Name: fmt.Sprintf("C11/%s%d", k.name, depth), Tier: depth - 2, Bound: [2]int{0, 0}, Run: func() {
				s := start()
				vs.Exploring(true)
				to := timeouts[vs.Choose(2, 0)]
				var as []act
				t := 0
				for i := 0; i < depth; i++ {
					w := vs.Choose(nActs, 0)
					if w == aNone {
						break
					}
					t += vs.Choose(len(times)-t, 0)
					as = append(as, act{times[t], w})
				}
				reopen := 0
				for _, a := range as {
					if a.what == aReadErr {
						reopen = vs.Choose(3, 0)
						break
					}
				}
				vs.Exploring(false)
				s.Op.openErr = func(n int) error {
					if n > 0 && n <= reopen {
						return errOpen
					}
					return nil
				}
				first := true
				s.handler = func(p *Port, f []byte) bool {
					if !bytes.Equal(f, k.frame) {
						return false
					}
					if !first {
						return false
					}
					first = false
					for _, a := range as {
						a := a
						fire := func() { k.feed(s.Op.Cur(), a.what) }
						if a.at == 0 {
							fire()
						} else {
							vs.AddTimer(a.at, fire)
						}
					}
					return true
				}
				r := k.ask(s, to)
				sleep(8 * time.Second)
				judge11(s, r, k.frame)
				prompt11(s, r, k.frame)
				later(s)
				note("ans=%d at %v closed %v", r.answers(), r.GotAt, r.ClosedAt)
			}})
		}
	}
	// timing: the same time for answer and timeout, all schedules
	for ki := range wrong11 {
		k := &wrong11[ki]
		reg(&Scenario{Prop: "C11", Name: "C11/schedule-" + k.name, Bound: [2]int{1, 2}, Fine: true, Run: func() {
			s := start()
			vs.Exploring(true)
			script := [][]act{
				{{5 * ms, aAck}, {300 * ms, aAnswer}},
				{{0, aAnswer}, {0, aNak}},
				{{5 * ms, aNak}, {5 * ms, aAnswer}},
				{{299 * ms, aAck}, {300 * ms, aNak}},
				{{5 * ms, aCan}, {100 * ms, aAnswer}},
				{{5 * ms, aAck}, {6 * ms, aUndecodable}, {300 * ms, aAnswer}},
				{{5 * ms, aAck}, {6 * ms, aWrongType}, {7 * ms, aAnswer}},
				{{0, aAnswer}, {0, aReadErr}},
				{{300 * ms, aReadErr}},
				{{5 * ms, aAnswer}, {6 * ms, aAnswer}, {7 * ms, aAnswer}},
			}[vs.Choose(10, 0)]
			first := true
			s.handler = func(p *Port, f []byte) bool {
				if !bytes.Equal(f, k.frame) || !first {
					return false
				}
				first = false
				for _, a := range script {
					a := a
					vs.AddTimer(a.at, func() { k.feed(s.Op.Cur(), a.what) })
				}
				return true
			}
			r := k.ask(s, 300*ms)
			sleep(4 * time.Second)
			vs.Exploring(false)
			judge11(s, r, k.frame)
			prompt11(s, r, k.frame)
			later(s)
			note("ans=%d closed %v", r.answers(), r.ClosedAt)
		}})
	}
	// every patience: an answer in time is delivered, the channel stays open until then and not longer
	reg(&Scenario{Prop: "C11", Name: "C11/patience", Run: func() {
		s := start()
		vs.Exploring(true)
		k := &kinds11[vs.Choose(len(kinds11), 0)]
		to := []time.Duration{20 * ms, 100 * ms, 300 * ms, 900 * ms, time.Second, 1500 * ms, 2 * time.Second, 3 * time.Second, 4 * time.Second, 5 * time.Second, 6 * time.Second, 8 * time.Second, 10 * time.Second, 12 * time.Second, 20 * time.Second, 30 * time.Second, time.Minute, 10 * time.Minute}[vs.Choose(18, 0)]
		when := vs.Choose(5, 0)
		acked := vs.Choose(2, 0)
		vs.Exploring(false)
		at := []time.Duration{to / 4, to / 2, to * 9 / 10, 0, to + 2*time.Second}[when]
		first := true
		s.handler = func(p *Port, f []byte) bool {
			if !bytes.Equal(f, k.frame) || !first {
				return false
			}
			first = false
			if acked == 1 {
				vs.AddTimer(2*ms, func() { p.Feed(ack) })
			}
			if at > 0 {
				vs.AddTimer(at, func() { p.Feed(k.good) })
			}
			return true
		}
		r := k.ask(s, to)
		sleep(to + 5*time.Second)
		judge11(s, r, k.frame)
		prompt11(s, r, k.frame)
		w := s.written(k.frame)[0].At
		if when < 3 {
			if r.answers() != 1 {
				fail("a request with the timeout %v was answered after %v, its requester got %d answers", to, at, r.answers())
			}
			if d := r.GotAt - w; d < at || d > at+100*ms {
				fail("a request with the timeout %v was answered after %v, its requester got the answer after %v", to, at, d)
			}
		} else {
			if r.answers() != 0 {
				fail("a request with the timeout %v got %d answers without an answer in time", to, r.answers())
			}
			if r.ClosedAt-w < to-5*ms {
				fail("a request with the timeout %v was given up after %v", to, r.ClosedAt-w)
			}
		}
		later(s)
	}})
	// several requests, one of which nobody listens to
	reg(&Scenario{Prop: "C11", Name: "C11/deaf", Bound: [2]int{1, 2}, Fine: true, Run: func() {
		s := start()
		vs.Exploring(true)
		api := vs.Choose(2, 0)
		when := []time.Duration{100 * ms, 10 * ms, 500 * ms}[vs.Choose(3, 0)]
		patience := []time.Duration{time.Second, 20 * time.Second}[vs.Choose(2, 0)]
		vs.GoNamed("deaf", func() {
			if api == 0 {
				s.C.Connection.WriteWithTimeout(raw(cmd5...), patience)
			} else {
				s.C.Connection.WriteAndWaitForReport(raw(cmd5...), patience, 3)
			}
		})
		sleep(60 * ms)
		r := s.ask("req", time.Second, 5, cmd6...)
		r2 := s.query("req2", 500*ms, 0x41, 9)
		sleep(when)
		s.Op.Cur().Feed(ans5)
		sleep(5 * ms)
		s.Op.Cur().Feed(ans5)
		sleep(50 * ms)
		s.Op.Cur().Feed(ans6)
		sleep(8 * time.Second)
		vs.Exploring(false)
		judge11(s, r, frame(0, cmd6...))
		judge11(s, r2, frame(0, 0x41, 9))
		later(s)
		note("%d %v %v", r.answers(), r.ClosedAt, r2.ClosedAt)
	}})
	// many requests at once, partly the same
	reg(&Scenario{Prop: "C11", Name: "C11/many", Bound: [2]int{1, 2}, Fine: true, Run: func() {
		s := start()
		vs.Exploring(true)
		mode := vs.Choose(4, 0)
		r := []*Req{s.ask("a", 400*ms, 5, cmd6...), s.ask("b", 700*ms, 5, cmd6...), s.query("c", 400*ms, cmd5...)}
		vs.AddTimer([]time.Duration{0, 200 * ms, 400 * ms, 550 * ms}[mode], func() { s.Op.Cur().Feed(cat(ans6, ans5)) })
		vs.AddTimer(560*ms, func() { s.Op.Cur().Feed(cat(ans5, ans6)) })
		sleep(5 * time.Second)
		vs.Exploring(false)
		n := len(s.written(frame(0, cmd6...)))
		if n != 2 {
			fail("%d of two equal requests were written", n)
		}
		for i, q := range r {
			judge11(s, q, [][]byte{frame(0, cmd6...), frame(0, cmd6...), frame(0, cmd5...)}[i])
		}
		later(s)
		note("%v %v %v", r[0].ClosedAt, r[1].ClosedAt, r[2].ClosedAt)
	}})
	c12()
}

func c12() {
	type key struct{ node, class, rep byte }
	var keys []key
	for _, n := range []byte{5, 6} {
		for _, c := range []byte{0x31, 0x25} {
			for _, r := range []byte{5, 3} {
				keys = append(keys, key{n, c, r})
			}
		}
	}
	// frames that answer nothing: too short to hold what was asked for, or of another kind
	nothing := [][]byte{
		frame(0x00, 0x04, 0x00, 5), frame(0x00, 0x04, 0x00, 6, 0), frame(0x00, 0x04, 0x00, 5, 1, 0x31), frame(0x00, 0x04, 0x00, 6, 1, 0x25),
		frame(0x00, 0x04), frame(0x01, 0x13, 0x01), frame(0x00, 0x13, 0x08, 0x00), frame(0x00, 0x49, 0x84, 5, 3, 0x04, 0x10, 0x31), report(6, 0x84, 0x07),
	}
	mk := func(k key) []byte {
		if k.node == 0 {
			return nothing[k.class]
		}
		if k.class == 0x25 {
			return report(k.node, k.class, k.rep, 0xff)
		}
		return report(k.node, k.class, k.rep, 1, 2, 0, 7)
	}
	pool := func(name string, nr, np int, bound [2]int, fine bool, tier int) {
		reg(&Scenario{Prop: "C12", Name: "C12/" + name, Bound: bound, Fine: fine, Tier: tier, Run: func() {
			s := start()
			vs.Exploring(true)
			var ks []key
			last := 0
			for i := 0; i < nr; i++ { // requests as a multiset: the order does not matter here
				last += vs.Choose(len(keys)-last, 0)
				ks = append(ks, keys[last])
			}
			var rs []key
			for i := 0; i < np; i++ {
				x := vs.Choose(len(keys)+len(nothing), 0)
				if x < len(keys) {
					rs = append(rs, keys[x])
				} else {
					rs = append(rs, key{0, byte(x - len(keys)), 0})
				}
			}
			if !fine {
				vs.Exploring(false)
			}
			var reqs []*Req
			for i, k := range ks {
				reqs = append(reqs, s.ask(fmt.Sprintf("req%d", i), 30*time.Second, k.rep, 0x13, k.node, 2, k.class, 0x04, 0x25))
			}
			if !vs.WaitUntil("all written", 5*time.Second, func() bool { return len(s.Writes()) == nr }) {
				fail("only %d of %d requests were written", len(s.Writes()), nr)
			}
			sleep(20 * ms)
			done := make([]bool, nr)
			for _, rk := range rs {
				s.Op.Cur().Feed(mk(rk))
				sleep(1200 * ms)
				for i, q := range reqs {
					match := ks[i] == rk
					if match && !done[i] {
						done[i] = true
						if decodable := rk.class == 0x31 && rk.rep == 5 || rk.class == 0x25 && rk.rep == 3; !decodable {
							continue // the request may end without an answer
						}
						if len(q.Reports) != 1 || !q.Closed {
							fail("request for node %d class %x report %x: %d answers, closed=%v after that report came", ks[i].node, ks[i].class, ks[i].rep, len(q.Reports), q.Closed)
						}
						continue
					}
					if !done[i] && (q.Closed || len(q.Reports) > 0) {
						fail("request for node %d class %x report %x was completed (%d answers) by a report of node %d class %x report %x", ks[i].node, ks[i].class, ks[i].rep, len(q.Reports), rk.node, rk.class, rk.rep)
					}
				}
			}
			vs.Exploring(false)
			for i, q := range reqs {
				if len(q.Reports) > 1 {
					fail("request %d got %d answers", i, len(q.Reports))
				}
			}
			note("%v", done)
		}})
	}
	pool("pool", 2, 2, [2]int{0, 0}, false, 0)
	pool("pool3", 3, 2, [2]int{0, 0}, false, 0)
	pool("pool33", 3, 3, [2]int{0, 0}, false, 1)
	pool("schedule", 2, 1, [2]int{1, 2}, true, 0)
	// capability lookups of three nodes
	caps := map[byte][]byte{
		5: {0xd3, 0x9c, 0x00, 0x04, 0x10, 0x01},
		6: {0x53, 0x9c, 0x00, 0x04, 0x11, 0x04},
		7: {0xd3, 0x16, 0x00, 0x03, 0x21, 0x01},
	}
	delays := []time.Duration{5 * ms, 300 * ms, 3 * time.Second, 0, -1, 9 * time.Second}
	for _, fine := range []bool{false, true} {
		fine := fine
		name, bound := "C12/capabilities", [2]int{0, 0}
		if fine {
			name, bound = "C12/capabilities-schedule", [2]int{1, 1}
		}
		reg(&Scenario{Prop: "C12", Name: name, Bound: bound, Fine: false, Run: func() {
			s := newSys(1, 5, 6, 7)
			asked := 0
			answered := 0
			s.handler = func(p *Port, f []byte) bool {
				if len(f) != 6 || f[3] != 0x41 {
					return false
				}
				p.FeedAfter(2*ms, ack)
				d := 5 * ms
				if asked < 4 && !fine {
					d = delays[vs.Choose(len(delays), 0)]
				} else if fine && asked < 2 {
					d = delays[vs.Choose(4, 0)]
				}
				asked++
				if d >= 0 {
					id := f[4]
					vs.AddTimer(d+3*ms, func() {
						answered++
						p.Feed(capFrame(caps[id]...))
					})
				}
				return true
			}
			vs.Exploring(true)
			s.connect("")
			if fine {
				sleep(11 * time.Second)
				vs.Exploring(false)
			}
			vs.WaitUntil("answers", 200*time.Second, func() bool { return answered >= 3 })
			sleep(60 * time.Second)
			vs.Exploring(false)
			var o string
			for _, id := range []byte{5, 6, 7} {
				c := caps[id]
				n := s.node(int(id))
				var got string
				known := false
				if i := n.ProtocolInfo(); i != nil {
					known = true
					got = fmt.Sprintf("listening %v generic %02x specific %02x", i.Listening, i.Generic, i.Specific)
				}
				if !known {
					fail("node %d never got its capabilities although it answered (asked %d, answered %d)", id, asked, answered)
				}
				if want := fmt.Sprintf("listening %v generic %02x specific %02x", c[0]&0x80 != 0, c[4], c[5]); got != want {
					fail("node %d has the capabilities %s, its own are %s", id, got, want)
				}
				o += fmt.Sprint(id, known)
			}
			note("asked=%d t=%v", asked, now())
		}})
	}
}
