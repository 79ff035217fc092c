package main

import (
	"bytes"
	"fmt"
	"io"
	"sort"
	"time"

	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/events"
	"github.com/stampzilla/gozwave/nodes"
	"gzmc/vos"
	"gzmc/vs"
)

// Long sessions (counters that wrap, tables that fill up), large and repeated data, and
// two controllers in one process (state that ought to belong to one of them).

// many reports: the list of nodes 2..232, or a part of it.
func manyNodes(classes []int, ids ...int) []J {
	var l []J
	for _, id := range ids {
		l = append(l, jnode(id, classes...))
	}
	return l
}

func upto(from, to, step int) []int {
	var l []int
	for i := from; i <= to; i += step {
		l = append(l, i)
	}
	return l
}

// acksOf counts the ACK bytes written since startup.
func (s *Sys) onlyAcks(what string, n int) {
	for _, w := range s.Op.writes[s.base:] {
		if !isAck(w.Data) {
			fail("%s: unexpected bytes written: %x", what, w.Data)
		}
	}
	if g := s.Acks(); g != n {
		fail("%s: %d well-formed frames were received, %d ACK bytes sent", what, n, g)
	}
}

// pair starts two controllers, each with its own port and configuration file. Both know nodes 5 and 6.
func pair(cls ...int) (*Sys, *Sys) {
	a := newSys()
	fs := vos.Cur
	fs.Put(cfg, jfile(jnode(5, cls...), jnode(6, cls...)))
	fs.Put(cfg2, jfile(jnode(5, cls...), jnode(6, cls...)))
	a.connect(cfg)
	b := newSysOn(fs)
	b.connect(cfg2)
	return a, b
}

const cfg2 = "/cfg/second.json"

func init() {
	// ---- C07 ----
	reg(&Scenario{Prop: "C07", Name: "C07/repeat", Run: func() {
		menu := [][]byte{sensorReport(5, 1, 7), sensorReport(5, 1, 8), sensorReport(6, 1, 7), ack, frame(0x00, 0x13, 0x22, 0x00)}
		vs.Exploring(true)
		var fs [][]byte
		for i := 0; i < 5; i++ {
			fs = append(fs, menu[vs.Choose(len(menu), 0)])
		}
		mode := vs.Choose(5, 0)
		vs.Exploring(false)
		x := newRxScene()
		switch mode {
		case 0:
			x.chunk(cat(fs...))
		case 1, 2: // apart
			for _, f := range fs {
				x.chunk(f)
				sleep([]time.Duration{41 * ms, 5 * ms}[mode-1])
			}
		case 3: // with empty reads between and inside
			for _, f := range fs {
				x.s.Op.Cur().FeedEmpty()
				x.chunk(f[:len(f)/2])
				x.s.Op.Cur().FeedEmpty()
				x.chunk(f[len(f)/2:])
			}
			x.s.Op.Cur().FeedEmpty()
		case 4: // the end of one with the beginning of the next
			c := cat(fs...)
			for i := 0; i < len(c); i += 11 {
				e := i + 11
				if e > len(c) {
					e = len(c)
				}
				x.chunk(c[i:e])
				sleep(39 * ms)
			}
		}
		sleep(1500 * ms)
		x.verify()
	}})
	reg(&Scenario{Prop: "C07", Name: "C07/sizes", Run: func() {
		vs.Exploring(true)
		ln := 3 + vs.Choose(253, 0)
		mode := vs.Choose(8, 0)
		vs.Exploring(false)
		body := make([]byte, ln-2)
		for i := range body {
			body[i] = []byte{0x01, 0x06, 0x00, 0xff}[i%4]
		}
		body[0] = 0x04
		if ln > 8 { // from an unknown node, no report of its own
			copy(body[1:], []byte{0, 9, byte(ln - 6), 0x71, 0x05})
		}
		f := frame(0, body...)
		x := newRxScene()
		cut := func(b []byte, n int, gap time.Duration) {
			for len(b) > n {
				x.chunk(b[:n])
				b = b[n:]
				if gap > 0 {
					sleep(gap)
				}
			}
			x.chunk(b)
		}
		st := cat(sensorReport(5, 1, 3), f, f, sensorReport(6, 1, 4))
		switch mode {
		case 0:
			x.chunk(st)
		case 1:
			cut(st, 1, 0)
		case 2:
			cut(st, 128, 40*ms)
		case 3:
			cut(st, 127, 1*ms)
		case 4:
			cut(st, ln, 30*ms)
		case 5:
			cut(st, ln+1, 30*ms)
		case 6:
			cut(st, 32, 7*ms)
		case 7: // everything but the last byte, which comes with the next frame
			x.chunk(cat(sensorReport(5, 1, 3), f[:len(f)-1]))
			sleep(40 * ms)
			x.chunk(cat(f[len(f)-1:], f[:1]))
			sleep(40 * ms)
			x.chunk(cat(f[1:], sensorReport(6, 1, 4)))
		}
		sleep(1500 * ms)
		x.verify()
	}})
	// every reception status, and controllers that append signal strength bytes
	reg(&Scenario{Prop: "C07", Name: "C07/status", Run: func() {
		vs.Exploring(true)
		status := byte(vs.Choose(256, 0))
		tail := vs.Choose(4, 0)
		mode := vs.Choose(3, 0)
		vs.Exploring(false)
		x := newRxScene()
		mk := func(node, t byte, v int) []byte {
			f := sensorReport(node, t, v)
			body := append([]byte{}, f[3:len(f)-1]...)
			body[1] = status
			for i := 0; i < tail; i++ {
				body = append(body, []byte{0xba, 0x01, 0x06}[i])
			}
			return frame(0, body...)
		}
		fs := [][]byte{mk(5, 1, 3), mk(6, 1, 4), sensorReport(6, 4, 5)}
		switch mode {
		case 0:
			x.chunk(cat(fs...))
		case 1:
			for _, f := range fs {
				x.chunk(f)
				sleep(20 * ms)
			}
		case 2:
			c := cat(fs...)
			x.chunk(c[:6])
			sleep(30 * ms)
			x.chunk(c[6:20])
			sleep(30 * ms)
			x.chunk(c[20:])
		}
		sleep(1500 * ms)
		x.verify()
	}})
	reg(&Scenario{Prop: "C07", Name: "C07/burst", Run: func() {
		vs.Exploring(true)
		per := 1 + vs.Choose(3, 0)
		mode := vs.Choose(5, 0)
		vs.Exploring(false)
		ids := upto(2, 232, 1)
		s := startWith(manyNodes([]int{0x31}, ids...)...)
		s.drain()
		sleep(50 * ms)
		want := map[int]float64{}
		var st []byte
		for r := 0; r < per; r++ {
			for i, id := range ids {
				v := r*300 + i + 1
				want[id] = float64(v)
				st = append(st, sensorReport(byte(id), 1, v)...)
				if i%50 == 0 {
					st = append(st, 0x06)
				}
			}
		}
		p := s.Op.Cur()
		step := []int{len(st), 128, 14, 64, 5}[mode]
		for i := 0; i < len(st); i += step {
			e := i + step
			if e > len(st) {
				e = len(st)
			}
			p.Feed(st[i:e])
			if mode >= 3 {
				sleep(2 * ms)
			}
		}
		sleep(3 * time.Second)
		s.onlyAcks("a burst", per*len(ids))
		for id, v := range want {
			n := s.node(id)
			rlocked(n, func() {
				if g := n.StateFloat["temperature_c"]; g != v {
					fail("after a burst of %d frames node %d reads %v, its last report said %v", per*len(ids), id, g, v)
				}
			})
		}
		note("%d", per)
	}})
	reg(&Scenario{Prop: "C07", Name: "C07/two", Bound: [2]int{1, 2}, Fine: true, Run: func() {
		a, b := pair(0x31)
		ea, eb := a.drain(), b.drain()
		sleep(50 * ms)
		ea.reset()
		eb.reset()
		vs.Exploring(true)
		cut := 1 + vs.Choose(13, 0)
		f, g := sensorReport(5, 1, 1), sensorReport(5, 1, 2)
		a.Op.Cur().Feed(f[:cut])
		b.Op.Cur().Feed(g[:14-cut])
		sleep(5 * ms)
		a.Op.Cur().Feed(f[cut:])
		b.Op.Cur().Feed(cat(g[14-cut:], sensorReport(6, 1, 3)))
		sleep(1 * time.Second)
		vs.Exploring(false)
		a.onlyAcks("first of two controllers", 1)
		b.onlyAcks("second of two controllers", 2)
		for _, q := range []struct {
			s       *Sys
			e       *Events
			e5, e6  int
			v5, v6  float64
			has6    bool
			subject string
		}{{a, ea, 1, 0, 1, 0, false, "first"}, {b, eb, 1, 1, 2, 3, true, "second"}} {
			if q.e.updated(5) != q.e5 || q.e.updated(6) != q.e6 {
				fail("the %s of two controllers raised %d and %d events", q.subject, q.e.updated(5), q.e.updated(6))
			}
			rlocked(q.s.node(5), func() {
				if v := q.s.node(5).StateFloat["temperature_c"]; v != q.v5 {
					fail("the %s of two controllers has the value %v, should be %v", q.subject, v, q.v5)
				}
			})
			rlocked(q.s.node(6), func() {
				if v, ok := q.s.node(6).StateFloat["temperature_c"]; v != q.v6 || ok != q.has6 {
					fail("the %s of two controllers has the value %v, should be %v", q.subject, v, q.v6)
				}
			})
		}
	}})
	// ---- C25: nodes of one or two controllers that are identified at the same time
	reg(&Scenario{Prop: "C25", Name: "C25/identify", Bound: [2]int{0, 1}, Run: func() {
		vs.Exploring(true)
		two := vs.Choose(2, 0) == 1
		k := vs.Choose(4, 0)
		from := []time.Duration{0, 200 * ms, 450 * ms, 700 * ms, 950 * ms, 1200 * ms}[vs.Choose(6, 0)]
		vs.Exploring(false)
		build := func(s *Sys, kinds ...int) (ds []*dev16) {
			for i, x := range kinds {
				ds = append(ds, newDev16(s, byte(5+i), devices[x]))
			}
			s.handler = func(p *Port, f []byte) bool {
				for _, d := range ds {
					if d.handle(p, f) {
						return true
					}
				}
				return false
			}
			return
		}
		a := newSys(1, 5, 6, 7, 8, 9)
		ds := build(a, 0, 0, 4, 1, 1)
		sys := []*Sys{a}
		if two {
			b := newSysOn(vos.Cur, 1, 5, 6)
			ds = append(ds, build(b, 0, 4)...)
			sys = append(sys, b)
			b.connectStart(cfg2)
		}
		a.connectStart(cfg)
		if from > 0 {
			sleep(from)
		}
		vs.Exploring(true)
		for i, s := range sys {
			s := s
			vs.GoNamed(fmt.Sprintf("user%d", i), func() {
				for j := 0; j < 3; j++ {
					for id := 5; id < 8; id++ {
						n := s.C.Nodes.Get(id)
						if n == nil {
							continue
						}
						switch k {
						case 0:
							readNode(n)
						case 1:
							n.IsDeviceClass(0x10, 1)
							n.HasCommand(0x25)
						case 2:
							if p := s.Op.Cur(); p != nil {
								p.Feed(cat(report(byte(id), 0x25, 3, 0xff), report(byte(id), 0x31, 5, 1, 1, byte(j)), report(byte(id), 0x71, 5, 0, 0, 0, 0xff, 1, 1)))
							}
						case 3:
							s.C.SaveConfigurationToFile()
						}
					}
					sleep(70 * ms)
				}
			})
		}
		sleep(250 * ms)
		vs.Exploring(false)
		sleep(100 * time.Second)
		for _, d := range ds {
			d.final(d.d.classes, d.d.brand, d.d.product, d.d.desc, int(d.d.endpoints))
		}
	}})
	// ---- C08 ----
	reg(&Scenario{Prop: "C08", Name: "C08/flood", Run: func() {
		bad := sensorReport(5, 1, 0x0102)
		bad[9] ^= 0x10
		units := [][]byte{{0x00}, {0xff}, {0x15}, {0x18}, {0x01, 0x01, 0x01}, {0x01, 0x00}, bad, cat(bad, []byte{0x06}), {0x01, 0x03, 0x00, 0x00, 0x00}, {0x7e, 0x01, 0x02, 0x55, 0x55}}
		vs.Exploring(true)
		u := units[vs.Choose(len(units), 0)]
		n := []int{10, 100, 127, 128, 129, 250, 255, 256, 257, 300, 1000, 3000}[vs.Choose(12, 0)]
		mode := vs.Choose(4, 0)
		vs.Exploring(false)
		g := bytes.Repeat(u, n/len(u)+1)
		x := newRxScene()
		switch mode {
		case 0:
			x.chunk(g)
		case 1:
			for i := 0; i < len(g); i += len(u) {
				x.chunk(g[i : i+len(u)])
				if i%50 == 0 {
					sleep(1 * ms)
				}
			}
		case 2:
			for i := 0; i < len(g); i += 100 {
				e := i + 100
				if e > len(g) {
					e = len(g)
				}
				x.chunk(g[i:e])
				sleep(20 * ms)
			}
		case 3:
			x.chunk(cat(g, sensorReport(5, 4, 9)))
		}
		sleep(50 * ms)
		x.chunk(sensorReport(6, 1, 0x77))
		sleep(10 * ms)
		x.chunk(sensorReport(6, 4, 0x78))
		sleep(time.Duration(len(g))*60*ms + 1500*ms)
		if s6(x) < 2 {
			fail("after %d bytes of %x and 50 ms of silence the valid frames were not both delivered (%d)", len(g), u, s6(x))
		}
		x.verify()
	}})
	reg(&Scenario{Prop: "C08", Name: "C08/silence", Run: func() {
		f := sensorReport(5, 4, 0x0601)
		gaps := []time.Duration{40*ms + 1, 42 * ms, 50 * ms, 79 * ms, 100 * ms, 255 * ms, 256 * ms, 300 * ms, 999 * ms, time.Second, 1001 * ms, 1020 * ms, 1039 * ms, 2010 * ms, 59 * time.Second,
			time.Minute, time.Minute + 10*ms, time.Minute + 30*ms, time.Hour, time.Hour + 20*ms, 24*time.Hour + 5*ms, 65536 * ms, 65546 * ms, 4294967296 + 10*ms, 8589934592 + 20*ms}
		vs.Exploring(true)
		k := []int{1, 2, 7, len(f) - 1}[vs.Choose(4, 0)]
		gap := gaps[vs.Choose(len(gaps), 0)]
		mode := vs.Choose(4, 0)
		vs.Exploring(false)
		x := newRxScene()
		if mode == 1 {
			x.chunk(cat(sensorReport(5, 1, 9), f[:k]))
		} else {
			x.chunk(f[:k])
		}
		sleep(gap)
		switch mode {
		case 0, 1:
			x.chunk(sensorReport(6, 1, 4))
		case 2:
			x.chunk(f[k:]) // no longer the end of a frame
		case 3:
			x.chunk(f[k:])
			sleep(5 * ms)
			x.chunk(sensorReport(6, 2, 4))
		}
		sleep(gap)
		x.chunk(sensorReport(6, 1, 0x77))
		sleep(10 * ms)
		x.chunk(sensorReport(6, 4, 0x78))
		sleep(1500 * ms)
		if s6(x) < 2 {
			fail("after %d bytes of a frame and %v of silence the valid frames were not delivered", k, gap)
		}
		x.verify()
	}})
	// ---- C09 ----
	reg(&Scenario{Prop: "C09", Name: "C09/long", Run: func() {
		vs.Exploring(true)
		api := vs.Choose(3, 0)
		every := []int{0, 7, 50}[vs.Choose(3, 0)] // now and then something else than an ACK
		what := 1 + vs.Choose(4, 0)
		vs.Exploring(false)
		s := start()
		l := newLine(s, func(n int, f []byte) answer {
			if every > 0 && n%every == every-1 {
				return answers[what]
			}
			return answers[0]
		})
		var ts []*vs.Task
		for i := 0; i < 20; i++ {
			ts = append(ts, l.caller(3*i%200+i/3, 16, api))
		}
		sleep(120 * time.Second)
		alive(ts...)
		l.judge()
	}})
	reg(&Scenario{Prop: "C09", Name: "C09/two", Bound: [2]int{1, 2}, Fine: true, Run: func() {
		a, b := pair(0x25)
		vs.Exploring(true)
		k := vs.Choose(3, 0)
		la := newLine(a, func(n int, f []byte) answer { return answers[[]int{1, 2, 3}[k]] })
		if k == 2 {
			la.answer = func(n int, f []byte) answer {
				if n == 0 {
					return answers[3]
				}
				return answers[0]
			}
		}
		lb := newLine(b, func(n int, f []byte) answer { return answers[0] })
		t := []*vs.Task{la.caller(1, 2, 0), lb.caller(2, 2, 1), lb.caller(3, 1, 0)}
		sleep(4 * time.Second)
		vs.Exploring(false)
		alive(t...)
		la.judge()
		lb.judge()
		if w := b.Writes(); w[len(w)-1].At-w[0].At > time.Second {
			fail("the commands of a controller wait for another controller's: %v", w[len(w)-1].At-w[0].At)
		}
	}})
	// ---- C10 ----
	reg(&Scenario{Prop: "C10", Name: "C10/long", Run: func() {
		vs.Exploring(true)
		cans := []int{60, 255, 256, 257, 300}[vs.Choose(5, 0)]
		kind := vs.Choose(3, 0)
		fin := vs.Choose(2, 0)
		vs.Exploring(false)
		s := start()
		f5 := frame(0, cmd5...)
		var fed []time.Duration
		s.handler = func(p *Port, f []byte) bool {
			if !bytes.Equal(f, f5) {
				return false
			}
			switch {
			case len(fed) < cans:
				fed = append(fed, now()+5*ms)
				p.FeedAfter(5*ms, can)
			case fin == 1:
				p.FeedAfter(5*ms, nak)
			default:
				p.FeedAfter(5*ms, ack)
				p.FeedAfter(100*ms, ans5)
			}
			return true
		}
		var r *Req
		switch kind {
		case 0:
			r = s.command("cmd5", cmd5...)
		case 1:
			r = s.query("cmd5", time.Hour, cmd5...)
		case 2:
			r = s.ask("cmd5", time.Hour, 3, cmd5...)
		}
		sleep(time.Duration(cans)*400*ms + 10*time.Second)
		w := s.written(f5)
		if len(w) != cans+1 || len(s.Writes()) != len(w) {
			fail("a command that got %d CAN was written %d times", cans, len(w))
		}
		for i, at := range fed {
			if d := w[i+1].At - at; d < 100*ms || d > 3*time.Second {
				fail("the command was written again %v after CAN %d", d, i)
			}
		}
		if kind > 0 {
			if r.answers() != 1-fin || !r.Closed {
				fail("after %d CAN the requester got %d answers, closed=%v", cans, r.answers(), r.Closed)
			}
		}
		later(s)
	}})
	// one refusal after the other: each fails its own request at once
	reg(&Scenario{Prop: "C10", Name: "C10/naks", Run: func() {
		vs.Exploring(true)
		n := []int{5, 40, 300}[vs.Choose(3, 0)]
		mix := vs.Choose(3, 0)
		patience := []time.Duration{time.Hour, time.Second, 400 * ms}[vs.Choose(3, 0)]
		vs.Exploring(false)
		s := start()
		fedNak := map[string]time.Duration{}
		cancelled := map[string]bool{}
		s.handler = func(p *Port, f []byte) bool {
			k := string(f)
			i := int(f[9])
			if mix == 1 && i%5 == 0 && !cancelled[k] {
				cancelled[k] = true
				p.FeedAfter(5*ms, can)
				return true
			}
			if mix == 2 && i%3 == 0 {
				p.FeedAfter(5*ms, ack)
				return true
			}
			fedNak[k] = now() + 5*ms
			p.FeedAfter(5*ms, nak)
			return true
		}
		var rs []*Req
		for i := 0; i < n; i++ {
			pl := []byte{0x13, byte(2 + i%200), 3, 0x31, 4, byte(i / 200), byte(i % 250), 0x25}
			pl = []byte{0x13, byte(2 + i%200), 4, 0x31, 4, byte(i / 200), byte(i % 250), 0x25}
			r := s.ask(fmt.Sprintf("r%d", i), patience, 5, pl...)
			rs = append(rs, r)
			sleep(60 * ms)
		}
		sleep(time.Duration(n)*100*ms + 5*time.Second)
		for i, r := range rs {
			w := s.written(r.Frame)
			at, refused := fedNak[string(r.Frame)]
			times := 1
			if cancelled[string(r.Frame)] {
				times = 2
			}
			if len(w) != times {
				fail("request %d of %d was written %d times, should be %d", i, n, len(w), times)
			}
			if refused && (!r.Closed || r.answers() > 0 || r.ClosedAt > at+100*ms) {
				fail("request %d of %d was refused at %v: closed=%v at %v, %d answers", i, n, at, r.Closed, r.ClosedAt, r.answers())
			}
			if !refused && r.Closed && patience == time.Hour {
				fail("request %d of %d was closed although it was not refused", i, n)
			}
		}
	}})
	reg(&Scenario{Prop: "C10", Name: "C10/two", Bound: [2]int{1, 2}, Fine: true, Run: func() {
		a, b := pair(0x25)
		f5 := frame(0, cmd5...)
		vs.Exploring(true)
		what := vs.Choose(2, 0)
		first := true
		a.handler = func(p *Port, f []byte) bool {
			if first && bytes.Equal(f, f5) {
				first = false
				p.FeedAfter(5*ms, [][]byte{can, nak}[what])
				return true
			}
			return false
		}
		ra, rb := a.ask("a", 5*time.Second, 3, cmd5...), b.ask("b", 5*time.Second, 3, cmd5...)
		sleep(1 * time.Second)
		vs.Exploring(false)
		if n := len(a.written(f5)); n != 2-what {
			fail("the command was written %d times to the port that answered it with %s", n, []string{"CAN", "NAK"}[what])
		}
		if n := len(b.written(f5)); n != 1 {
			fail("the command was written %d times to a port that acknowledged it; another controller's was refused", n)
		}
		if what == 1 && (!ra.Closed || ra.answers() > 0) {
			fail("after a NAK the requester's channel is closed=%v with %d answers", ra.Closed, ra.answers())
		}
		if rb.Closed || rb.answers() > 0 {
			fail("a pending request was closed by another controller's NAK or CAN")
		}
		b.Op.Cur().Feed(ans5)
		a.Op.Cur().Feed(ans5)
		sleep(1 * time.Second)
		if rb.answers() != 1 || ra.answers() != 1-what {
			fail("answers of two controllers: %d and %d", ra.answers(), rb.answers())
		}
	}})
	// ---- C11 ----
	reg(&Scenario{Prop: "C11", Name: "C11/long", Run: func() {
		vs.Exploring(true)
		n := []int{30, 300}[vs.Choose(2, 0)]
		ki := vs.Choose(len(kinds11), 0)
		pat := vs.Choose(6, 0)
		together := vs.Choose(2, 0)
		vs.Exploring(false)
		k := &kinds11[ki]
		s := start()
		i := 0
		s.handler = func(p *Port, f []byte) bool {
			if !bytes.Equal(f, k.frame) {
				return false
			}
			i++
			what := []int{aAnswer, aNone, aUndecodable, aWrongType, aNak, aCallback}
			w := what[pat]
			if i%3 == 0 {
				w = what[i/3%len(what)]
			}
			if w != aNak {
				p.FeedAfter(5*ms, ack)
			}
			vs.AddTimer(10*ms, func() { k.feed(p, w) })
			return true
		}
		var rs []*Req
		for j := 0; j < n; j++ {
			r := k.ask(s, 300*ms)
			rs = append(rs, r)
			if together == 0 {
				sleep(400 * ms)
				if !r.Closed {
					sleep(1100 * ms)
				}
			}
		}
		sleep(time.Duration(n)*time.Second + 10*time.Second)
		w := s.written(k.frame)
		if len(w) != n {
			fail("%d requests were made, %d were written", n, len(w))
		}
		got := 0
		for j, r := range rs {
			if !r.Issued || r.Err != nil {
				fail("caller %d of %d is blocked or got an error: %v", j, n, r.Err)
			}
			if !r.Closed || r.answers() > 1 {
				fail("request %d of %d: closed=%v with %d answers", j, n, r.Closed, r.answers())
			}
			if together == 0 && r.ClosedAt > w[j].At+1310*ms {
				fail("request %d of %d was closed %v after it was written, its timeout is 300 ms", j, n, r.ClosedAt-w[j].At)
			}
			got += r.answers()
		}
		if pat == 0 && together == 0 && got < n/2 {
			fail("%d requests were made, most were answered properly, %d answers were delivered", n, got)
		}
		later(s)
		note("%d", got)
	}})
	reg(&Scenario{Prop: "C11", Name: "C11/two", Bound: [2]int{1, 2}, Fine: true, Run: func() {
		a, b := pair(0x31)
		vs.Exploring(true)
		mode := vs.Choose(3, 0)
		ra, rb := a.ask("a", 400*ms, 5, cmd6...), b.ask("b", 400*ms, 5, cmd6...)
		q := b.query("q", 700*ms, 0x41, 9)
		sleep(150 * ms)
		switch mode {
		case 0:
			a.Op.Cur().Feed(ans6)
		case 1:
			b.Op.Cur().Feed(ans6)
		case 2:
			a.Op.Cur().err = errRead
		}
		sleep(5 * time.Second)
		vs.Exploring(false)
		judge11(a, ra, frame(0, cmd6...))
		judge11(b, rb, frame(0, cmd6...))
		judge11(b, q, frame(0, 0x41, 9))
		if g, w := fmt.Sprint(ra.answers(), rb.answers()), []string{"1 0", "0 1", "0 0"}[mode]; g != w {
			fail("answers of two controllers: %s, should be %s", g, w)
		}
		later(a)
		later(b)
	}})
	// ---- C12 ----
	// the port refuses to write for a while although it can be read
	reg(&Scenario{Prop: "C11", Name: "C11/unwritable", Bound: [2]int{1, 2}, Run: func() {
		vs.Exploring(true)
		n := vs.Choose(4, 0)                                                             // this many writes fail
		from := vs.Choose(5, 0)                                                          // beginning with this one
		to := []time.Duration{300 * ms, 900 * ms, 1500 * ms, 2500 * ms}[vs.Choose(4, 0)] // the timeout of the requests
		werr := []error{errRead, errTemporary, io.EOF, io.ErrShortWrite, errClosed}[vs.Choose(5, 0)]
		vs.Exploring(false)
		s := start()
		s.ev = s.drain()
		count, failed := 0, map[string]bool{}
		s.handler = func(p *Port, f []byte) bool {
			count++
			if i := count - from; i > 0 && i <= n {
				failed[string(f)] = true
				return true
			}
			return false
		}
		s.Op.writeErr = func(f []byte) error {
			if failed[string(f)] {
				return werr
			}
			return nil
		}
		vs.Exploring(true)
		var rs []*Req
		for i := 0; i < 3; i++ {
			rs = append(rs, s.ask("request", to, 3, 0x13, byte(20+i), 2, 0x25, 0x02, 0x25))
		}
		q := s.query("query", to, 0x41, 9)
		c := s.command("command", 0x13, 30, 3, 0x25, 1, 0xff, 0x25)
		sleep(60 * ms)
		vs.Exploring(false)
		sleep(12 * time.Second)
		for i, r := range rs {
			judge11(s, r, frame(0, 0x13, byte(20+i), 2, 0x25, 0x02, 0x25))
		}
		judge11(s, q, frame(0, 0x41, 9))
		if !c.Issued || len(s.written(frame(0, 0x13, 30, 3, 0x25, 1, 0xff, 0x25))) != 1 {
			fail("a command issued while the port cannot be written was written %d times: %s", len(s.written(frame(0, 0x13, 30, 3, 0x25, 1, 0xff, 0x25))), vs.Dump())
		}
		s.Op.writeErr = nil
		later(s)
		s.Op.Cur().Feed(sensorReport(5, 1, 3))
		sleep(50 * ms)
		if s.Acks() < 2 {
			fail("reports are no longer acknowledged")
		}
	}})
	reg(&Scenario{Prop: "C12", Name: "C12/many", Run: func() {
		vs.Exploring(true)
		order := vs.Choose(4, 0)
		per := 1 + vs.Choose(2, 0)
		vs.Exploring(false)
		s := start()
		ids := upto(2, 232, 1)
		var rs []*Req
		var of []int
		for _, id := range ids {
			for k := 0; k < per; k++ {
				cls, rep, get := byte(0x31), byte(5), byte(4)
				if k == 1 {
					cls, rep, get = 0x25, 3, 2
				}
				rs = append(rs, s.ask(fmt.Sprint("node", id), time.Hour, rep, 0x13, byte(id), 2, cls, get, 0x25))
				of = append(of, id)
			}
		}
		if !vs.WaitUntil("all written", time.Minute, func() bool { return len(s.Writes()) == len(rs) }) {
			fail("%d of %d requests were written", len(s.Writes()), len(rs))
		}
		sleep(100 * ms)
		seq := make([]int, len(rs))
		for i := range seq {
			seq[i] = i
		}
		sort.SliceStable(seq, func(x, y int) bool {
			p, q := seq[x], seq[y]
			switch order {
			case 1:
				return p > q
			case 2:
				return of[p]%16 < of[q]%16
			case 3:
				return p%2 > q%2
			}
			return p < q
		})
		done := map[int]bool{}
		for c, i := range seq {
			k := i % per
			if k == 0 {
				s.Op.Cur().Feed(sensorReport(byte(of[i]), 1, of[i]))
			} else {
				s.Op.Cur().Feed(report(byte(of[i]), 0x25, 3, 0xff))
			}
			done[i] = true
			sleep(20 * ms)
			for j, r := range rs {
				if c%16 != 0 && j != i && j != (i+per)%len(rs) && c != len(seq)-1 {
					continue
				}
				if done[j] && (len(r.Reports) != 1 || !r.Closed) {
					fail("the request to node %d got %d answers (closed=%v) after its report, %d requests were pending", of[j], len(r.Reports), r.Closed, len(seq)-c)
				}
				if !done[j] && (len(r.Reports) > 0 || r.Closed) {
					fail("the request to node %d was completed (%d answers) by a report of node %d", of[j], len(r.Reports), of[i])
				}
			}
		}
		note("%d", len(rs))
	}})
	reg(&Scenario{Prop: "C12", Name: "C12/two", Bound: [2]int{1, 2}, Fine: true, Run: func() {
		vs.Exploring(true)
		rep := vs.Choose(2, 0)
		vs.Exploring(false)
		a, b := pair(0x31)
		vs.Exploring(true)
		ra, rb := a.ask("a", 20*time.Second, 5, cmd6...), b.ask("b", 20*time.Second, 5, cmd6...)
		sleep(200 * ms)
		first, second, rf, rs := a, b, ra, rb
		if rep == 1 {
			first, second, rf, rs = b, a, rb, ra
		}
		first.Op.Cur().Feed(ans6)
		sleep(1200 * ms)
		vs.Exploring(false)
		if len(rf.Reports) != 1 || !rf.Closed || len(rs.Reports) > 0 || rs.Closed {
			fail("a report of one controller's node completed: its request %d, the other controller's %d (closed=%v)", len(rf.Reports), len(rs.Reports), rs.Closed)
		}
		second.Op.Cur().Feed(ans6)
		sleep(200 * ms)
		if len(rs.Reports) != 1 || !rs.Closed {
			fail("the second controller's request got %d answers after its own report", len(rs.Reports))
		}
	}})
	// two sticks, the same node ids, different devices
	reg(&Scenario{Prop: "C12", Name: "C12/two-capabilities", Bound: [2]int{0, 1}, Run: func() {
		a := newSys(1, 5, 6)
		b := newSysOn(vos.Cur, 1, 5, 6)
		caps := map[*Sys]map[byte][]byte{
			a: {5: {0xd3, 0x9c, 0x00, 0x04, 0x10, 0x01}, 6: {0x53, 0x9c, 0x00, 0x04, 0x11, 0x04}},
			b: {5: {0xd3, 0x16, 0x00, 0x03, 0x21, 0x01}, 6: {0xd3, 0x9c, 0x00, 0x04, 0x31, 0x01}},
		}
		delays := []time.Duration{5 * ms, 100 * ms, 2 * time.Second}
		for _, s := range []*Sys{a, b} {
			s := s
			s.handler = func(p *Port, f []byte) bool {
				if len(f) != 6 || f[3] != 0x41 {
					return false
				}
				p.FeedAfter(2*ms, ack)
				p.FeedAfter(delays[vs.Choose(3, 0)], capFrame(caps[s][f[4]]...))
				return true
			}
		}
		vs.Exploring(true)
		a.connectStart("")
		b.connectStart("")
		sleep(8 * time.Second)
		vs.Exploring(false)
		sleep(60 * time.Second)
		for _, s := range []*Sys{a, b} {
			for id, c := range caps[s] {
				i := s.node(int(id)).ProtocolInfo()
				if i == nil || i.Generic != c[4] || i.Specific != c[5] || i.Listening != (c[0]&0x80 != 0) {
					fail("node %d of one of two controllers has the capabilities %+v, its own are %x", id, i, c)
				}
			}
		}
	}})
	// ---- C13 ----
	reg(&Scenario{Prop: "C13", Name: "C13/two", Bound: [2]int{1, 1}, Fine: true, Run: func() {
		a, b := pair(0x31)
		a.ev, b.ev = a.drain(), b.drain()
		sleep(50 * ms)
		vs.Exploring(true)
		fails := vs.Choose(2, 0)
		vs.Exploring(false)
		p := a.outages([]outage{{0, fails}})
		vs.Exploring(true)
		rb := b.ask("b", 3*time.Second, 5, cmd6...)
		ra := a.ask("a", 500*ms, 5, cmd6...)
		sleep(100 * ms)
		if !b.flag() {
			fail("the connected flag of a controller is false after another controller lost its port")
		}
		b.Op.Cur().Feed(ans6)
		sleep(400 * ms)
		vs.Exploring(false)
		if len(rb.Reports) != 1 || len(b.Op.opens) != 1 || len(b.Op.closes) > 0 {
			fail("another controller lost its port: a request got %d answers, the port was opened %d times and closed %d times", len(rb.Reports), len(b.Op.opens), len(b.Op.closes))
		}
		sleep(time.Duration(6+fails) * time.Second)
		judge11(a, ra, frame(0, cmd6...))
		p.judge(1)
		if len(b.Op.opens) != 1 {
			fail("the port of another controller was opened again")
		}
	}})
	// a connection that fails leaves nothing that troubles the next one
	reg(&Scenario{Prop: "C14", Name: "C14/again", Bound: [2]int{1, 2}, Fine: true, Run: func() {
		vs.Exploring(true)
		n := 1 + vs.Choose(3, 0)
		delay := []time.Duration{0, 150 * ms, 300 * ms}[vs.Choose(3, 0)]
		vs.Exploring(false)
		bad := newSys()
		bad.Op.openErr = func(int) error { return errOpen }
		bad.Op.openDelay = delay
		vos.Cur.Put(cfg, jfile(jnode(5, 0x31)))
		vs.Exploring(true)
		for i := 0; i < n; i++ {
			s, err := connectTry(bad, cfg)
			if err == nil || s {
				fail("attempt %d: the port could not be opened, connecting returned no error", i)
			}
		}
		opens := len(bad.Op.opens)
		s := newSysOn(vos.Cur)
		ok, err := connectTry(s, cfg)
		vs.Exploring(false)
		if !ok || err != nil {
			fail("after %d failed attempts the port was opened, connecting returned %v", n, err)
		}
		sleep(3 * time.Second)
		if len(bad.Op.opens) != opens {
			fail("a port that could not be opened was opened again after connecting had returned its error")
		}
		if len(s.Op.opens) != 1 {
			fail("the port was opened %d times", len(s.Op.opens))
		}
		s.base = len(s.Op.writes)
		ev := s.drain()
		s.Op.Cur().Feed(sensorReport(5, 1, 3))
		sleep(100 * ms)
		if ev.updated(5) != 1 {
			fail("the controller that was returned is not usable: a report raised %d events", ev.updated(5))
		}
		later(s)
	}})
	// ---- C15 ----
	reg(&Scenario{Prop: "C15", Name: "C15/two", Bound: [2]int{1, 1}, Run: func() {
		a := newSys(1, 5, 7)
		vos.Cur.Put(cfg, jfile(jnode(7, 0x25)))
		b := newSysOn(vos.Cur, 1, 5, 6)
		for _, s := range []*Sys{a, b} {
			s.handler = func(p *Port, f []byte) bool {
				if len(f) == 6 && f[3] == 0x41 {
					p.FeedAfter(2*ms, ack)
					p.FeedAfter(4*ms, capFrame(0xd3, 0x9c, 0, 4, 0x10, 1))
					return true
				}
				return false
			}
		}
		vs.Exploring(true)
		a.connectStart(cfg)
		b.connectStart("")
		ea, eb := a.drain(), b.drain()
		sleep(2 * time.Second)
		vs.Exploring(false)
		for _, q := range []struct {
			s   *Sys
			e   *Events
			ids []int
		}{{a, ea, []int{5, 7}}, {b, eb, []int{5, 6}}} {
			all := q.s.C.Nodes.All()
			if len(all) != 2 {
				fail("two controllers: %d nodes, the list has %v", len(all), q.ids)
			}
			for _, id := range q.ids {
				if all[id] == nil || q.e.discovered(id) != 1 || len(q.s.writtenAll(frame(0, 0x41, byte(id)))) == 0 {
					fail("two controllers: node %d of %v: present %v, %d discovery events", id, q.ids, all[id] != nil, q.e.discovered(id))
				}
			}
		}
		if a.C.Nodes.Get(5) == b.C.Nodes.Get(5) {
			fail("two controllers share a node")
		}
	}})
	// ---- C17 ----
	reg(&Scenario{Prop: "C17", Name: "C17/many", Run: func() {
		wake := func(id int) []byte { return report(byte(id), 0x84, 0x07) }
		vs.Exploring(true)
		nn := []int{2, 30}[vs.Choose(2, 0)]
		wakes := []int{1, 3, 300}[vs.Choose(3, 0)]
		batch := vs.Choose(2, 0)
		vs.Exploring(false)
		ids := upto(232-nn+1, 232, 1)
		s := newSys(append([]int{1}, ids...)...)
		ds := map[int]*dev16{}
		for _, id := range ids {
			ds[id] = newDev16(s, byte(id), sleeper)
		}
		s.handler = func(p *Port, f []byte) bool {
			if d := ds[int(f[4])]; d != nil {
				return d.handle(p, f)
			}
			return false
		}
		s.connectStart("")
		s.drain()
		sleep(time.Duration(nn)*time.Second + 30*time.Second)
		asleep := func(id int) {
			d := ds[id]
			for _, w := range d.frames {
				if d.kind(w.Data) != "capabilities" {
					fail("node %d of %d has not reported a wake-up and was sent %x (%s)", id, nn, w.Data, d.kind(w.Data))
				}
			}
		}
		// wake one after the other (or half of them at once): only they proceed
		for k, id := range ids {
			for _, o := range ids[k:] {
				asleep(o)
			}
			for i := 0; i < wakes && (k == 0 || i < 3); i++ {
				s.Op.Cur().Feed(wake(id))
				if i > 0 && i%10 == 0 {
					sleep(1 * ms)
				}
			}
			if batch == 1 && k%2 == 0 {
				continue
			}
			sleep(3 * time.Second)
			for j := k - batch; j <= k; j++ {
				if j >= 0 && ds[ids[j]].asked["manufacturer"] == 0 {
					fail("node %d waited for a wake-up and did not proceed when %d arrived", ids[j], wakes)
				}
			}
		}
		for i := 0; i < 6; i++ {
			for _, id := range ids {
				s.Op.Cur().Feed(wake(id))
			}
			sleep(time.Duration(nn)*300*ms + 11*time.Second)
		}
		for _, id := range ids {
			ds[id].final(sleeper.classes, sleeper.brand, sleeper.product, sleeper.desc, 1)
		}
	}})
	// ---- C18 ----
	reg(&Scenario{Prop: "C18", Name: "C18/many", Run: func() {
		vs.Exploring(true)
		id := []int{2, 127, 128, 232}[vs.Choose(4, 0)]
		other := []int{3, 5, 231, 100}[vs.Choose(4, 0)]
		rounds := 1 + vs.Choose(2, 0)
		mode := vs.Choose(2, 0)
		vs.Exploring(false)
		s := startWith(jnode(id, 0x31), jnode(other, 0x31))
		ev := s.drain()
		sleep(10 * ms)
		ev.reset()
		a, b := newFolded(), newFolded()
		for r := 0; r < rounds; r++ {
			for typ := 0; typ < 256; typ++ {
				for scale := 0; scale < 4; scale++ {
					p := []byte{0x31, 5, byte(typ), byte(scale<<3 | 2 | r<<5), byte(typ), byte(scale*60 + r)}
					a.apply(p)
					s.Op.Cur().Feed(report(byte(id), p...))
					if mode == 0 || typ%16 == 0 {
						sleep(1 * ms)
					}
					if typ%37 == 0 {
						b.apply(payloads[typ%10])
						s.Op.Cur().Feed(report(byte(other), payloads[typ%10]...))
						a.apply(payloads[(typ+3)%10])
						s.Op.Cur().Feed(report(byte(id), payloads[(typ+3)%10]...))
					}
					if mode == 0 {
						sleep(1 * ms)
					}
				}
				if mode == 0 && typ%32 == 0 {
					a.same("among many reports", s.node(id))
				}
			}
		}
		sleep(500 * ms)
		a.same("after many reports", s.node(id))
		b.same("after many reports of another node", s.node(other))
		if mode == 0 && (ev.updated(id) != a.ev || ev.updated(other) != b.ev) {
			fail("%d and %d update events, should be %d and %d", ev.updated(id), ev.updated(other), a.ev, b.ev)
		}
	}})
	reg(&Scenario{Prop: "C18", Name: "C18/two", Run: func() {
		alphabet := []int{0, 1, 5, 9, 14, 16}
		vs.Exploring(true)
		var seq, at []int
		for i := 0; i < 3; i++ {
			seq = append(seq, alphabet[vs.Choose(len(alphabet), 0)])
			at = append(at, vs.Choose(2, 0))
		}
		vs.Exploring(false)
		a, b := pair(0x25)
		ss := []*Sys{a, b}
		es := []*Events{a.drain(), b.drain()}
		sleep(10 * ms)
		es[0].reset()
		es[1].reset()
		ref := []*folded{newFolded(), newFolded()}
		for i, k := range seq {
			ref[at[i]].apply(payloads[k])
			ss[at[i]].Op.Cur().Feed(report(5, payloads[k]...))
			sleep(5 * ms)
		}
		for round := 0; round < 2; round++ {
			for i, r := range ref {
				r.same("two controllers", ss[i].node(5))
				newFolded().same("two controllers", ss[i].node(6))
				if es[i].updated(5) != r.ev || len(es[i].Evs) != r.ev {
					fail("two controllers: %d events for %d reports that change the state", len(es[i].Evs), r.ev)
				}
				if round == 0 {
					for range r.alarmAt {
						r.clear()
					}
				}
			}
			sleep(1100 * ms)
		}
	}})
	// ---- C19 ----
	reg(&Scenario{Prop: "C19", Name: "C19/many", Run: func() {
		vs.Exploring(true)
		nn := []int{1, 3, 40}[vs.Choose(3, 0)]
		n := []int{2, 20, 300}[vs.Choose(3, 0)]
		gap := []time.Duration{0, 1, 3 * ms, 100 * ms, 999 * ms, 1000 * ms, 1100 * ms}[vs.Choose(7, 0)]
		vs.Exploring(false)
		if nn*n > 1000 {
			n = 1000 / nn
		}
		ids := upto(5, 4+nn, 1)
		s := startWith(manyNodes([]int{0x25}, ids...)...)
		ev := s.drain()
		sleep(10 * ms)
		ev.reset()
		for i := 0; i < n; i++ {
			for _, id := range ids {
				s.Op.Cur().Feed(report(byte(id), 0x71, 5, byte(1+i%20), 1, 0, 0xff, 7, 2))
			}
			b := now()
			for _, id := range ids {
				x := s.node(id)
				rlocked(x, func() {
					if i > 0 && gap > 1 && gap < time.Second && !x.StateBool["alarm"] && i == 1 {
						fail("node %d: the alarm is not set %v after it was raised", id, gap)
					}
				})
			}
			if now() != b {
				fail("reading the nodes took %v during alarms", now()-b)
			}
			if gap > 0 {
				sleep(gap)
			}
		}
		sleep(3 * time.Second)
		for _, id := range ids {
			x := s.node(id)
			rlocked(x, func() {
				if x.StateBool["alarm"] || x.StateFloat["alarm"] != 0 || x.StateFloat["alarmLastType"] != float64(1+(n-1)%20) {
					fail("node %d of %d after %d alarms %v apart: alarm=%v type=%v last=%v", id, nn, n, gap, x.StateBool["alarm"], x.StateFloat["alarm"], x.StateFloat["alarmLastType"])
				}
			})
			if g := ev.updated(id); (nn*n <= 10 || nn <= 5 && gap >= time.Second) && g != 2*n {
				fail("node %d: %d alarms raised %d events", id, n, g)
			}
		}
		note("%d %d %v", nn, n, gap)
	}})
	// ---- C20 ----
	reg(&Scenario{Prop: "C20", Name: "C20/long", Run: func() {
		vs.Exploring(true)
		rounds := []int{10, 70, 300}[vs.Choose(3, 0)]
		up, down := 1+vs.Choose(12, 0), 1+vs.Choose(12, 0)
		vs.Exploring(false)
		s := startWith(jnode(5, 0x25), jnode(6, 0x25), jnode(7, 0x25))
		ch := (<-chan interface{})(s.C.GetNextEvent())
		take := func() int {
			v, ok, _ := vs.TryRecv(ch)
			if !ok || v == nil {
				return 0
			}
			if e, ok := v.(events.NodeUpdated); ok {
				return e.Address
			}
			return -1
		}
		for take() != 0 {
		}
		var q []int
		c := 0
		for r := 0; r < rounds; r++ {
			for i := 0; i < up; i++ {
				id := 5 + c*c%3
				c++
				b := now()
				s.node(id).ProcessEvent(&reports.SwitchMultilevelV1{CurrentValue: float64(c % 99)})
				if now() != b {
					fail("processing a report took %v", now()-b)
				}
				if len(q) < 10 {
					q = append(q, id)
				}
			}
			for i := 0; i < down; i++ {
				w := 0
				if len(q) > 0 {
					w, q = q[0], q[1:]
				}
				if g := take(); g != w {
					fail("round %d (%d raised, %d taken each): the event of node %d was delivered, next is %d (0: none)", r, up, down, g, w)
				}
			}
			sleep(1 * ms)
		}
		note("%d", c)
	}})
	reg(&Scenario{Prop: "C20", Name: "C20/two", Run: func() {
		vs.Exploring(true)
		na, nb := 1+vs.Choose(12, 0), 1+vs.Choose(12, 0)
		vs.Exploring(false)
		a, b := pair(0x25)
		if a.C.GetNextEvent() == b.C.GetNextEvent() {
			fail("two controllers share an event channel")
		}
		drainNow := func(s *Sys) (n int) {
			for {
				if _, ok, _ := vs.TryRecv((<-chan interface{})(s.C.GetNextEvent())); !ok {
					return
				}
				n++
			}
		}
		drainNow(a)
		drainNow(b)
		for i := 0; i < na; i++ {
			a.node(5).ProcessEvent(&reports.SwitchBinaryV1{CurrentValue: true})
		}
		for i := 0; i < nb; i++ {
			b.node(6).ProcessEvent(&reports.SwitchBinaryV1{CurrentValue: true})
		}
		for _, q := range []struct{ got, raised int }{{drainNow(a), na}, {drainNow(b), nb}} {
			w := q.raised
			if w > 10 {
				w = 10
			}
			if q.got != w {
				fail("two controllers raised %d and %d events, one of them delivered %d", na, nb, q.got)
			}
		}
	}})
	// ---- C21 ----
	reg(&Scenario{Prop: "C21", Name: "C21/many", Run: func() {
		vs.Exploring(true)
		n := []int{11, 12, 60, 231}[vs.Choose(4, 0)]
		big := vs.Choose(3, 0)
		vs.Exploring(false)
		s := newSys()
		fs := vos.Cur
		s.connect(cfg)
		want := map[int]string{}
		for id := 2; id < 2+n; id++ {
			x := nodes.New(id)
			x.IsAwake = id%3 == 0
			x.ManufacurerSpecific = &reports.ManufacturerSpecific{Manufacturer: fmt.Sprintf("%04x", id), Type: "0001", ID: fmt.Sprintf("%04x", 65535-id)}
			x.Brand, x.Product, x.Description = fmt.Sprint("brand ", id), "p", string(bytes.Repeat([]byte("long text "), []int{1, 20, 500}[big]))
			x.CommandClasses = classes(byte(id), 0x25, byte(id/2))
			if id%4 > 0 {
				x.Endpoints = eps21(id%128, x.CommandClasses)
			}
			x.StateBool["on"] = id%2 == 0
			x.StateFloat["level"] = float64(id) / 7
			s.C.Nodes.Add(x)
			want[id] = describe(x)
		}
		if err := s.C.SaveConfigurationToFile(); err != nil {
			fail("saving %d nodes failed: %v", n, err)
		}
		file, _ := fs.Get(cfg)
		s2 := newSysOn(fs)
		s2.connect(cfg)
		all := s2.C.Nodes.All()
		if len(all) != n {
			fail("%d nodes were saved, %d were loaded", n, len(all))
		}
		for id, w := range want {
			if all[id] == nil {
				fail("node %d was saved but not loaded", id)
			}
			if g := describe(all[id]); g != w {
				fail("saved was\n%s\nloaded is\n%s", w, g)
			}
		}
		if err := s2.C.SaveConfigurationToFile(); err != nil {
			fail("saving again failed: %v", err)
		}
		again, _ := fs.Get(cfg)
		if !sameJSON(file, again) {
			fail("saving %d nodes again after loading wrote something else", n)
		}
	}})
	// a configuration that shrinks, grows and shrinks again
	reg(&Scenario{Prop: "C21", Name: "C21/sizes", Run: func() {
		vs.Exploring(true)
		var lens []int
		for i := 0; i < 4; i++ {
			lens = append(lens, []int{0, 40, 400, 70000}[vs.Choose(4, 0)])
		}
		vs.Exploring(false)
		s := newSys()
		fs := vos.Cur
		s.connect(cfg)
		n := nodes.New(5)
		s.C.Nodes.Add(n)
		for i, l := range lens {
			n.Lock()
			n.Description = string(bytes.Repeat([]byte{byte('a' + i)}, l))
			n.StateFloat["level"] = float64(i)
			n.Unlock()
			if err := s.C.SaveConfigurationToFile(); err != nil {
				fail("saving failed: %v", err)
			}
			s2 := newSysOn(fs)
			s2.connect(cfg)
			if len(s2.C.Nodes.All()) != 1 {
				fail("%d nodes were loaded after save %d of texts of %v bytes", len(s2.C.Nodes.All()), i, lens)
			}
			if g, w := describe(s2.node(5)), describe(n); g != w {
				fail("save %d of texts of %v bytes: loaded is another node", i, lens)
			}
			vos.Cur = fs
		}
	}})
	// ---- C22: what one save failed to write, another controller's must not lose ----
	reg(&Scenario{Prop: "C23", Name: "C23/two", Run: func() {
		vs.Exploring(true)
		g := []time.Duration{0, 1, 3 * time.Second, 9 * time.Second, 10 * time.Second, 11 * time.Second}[vs.Choose(6, 0)]
		who := vs.Choose(3, 0)
		vs.Exploring(false)
		a, b := pair(0x26)
		a.drain()
		b.drain()
		sleep(15 * time.Second)
		ca, cb := vos.Cur.Changed[cfg], vos.Cur.Changed[cfg2]
		a.Op.Cur().Feed(report(5, 0x26, 3, 10))
		if g > 0 {
			sleep(g)
		}
		if who > 0 {
			b.Op.Cur().Feed(report(5, 0x26, 3, 20))
		}
		if who > 1 {
			a.Op.Cur().Feed(report(6, 0x26, 3, 30))
		}
		if g < 9500*ms && who < 2 {
			sleep(10*time.Second - g - 200*ms)
			if vos.Cur.Changed[cfg] != ca {
				fail("the file was saved before ten quiet seconds had passed")
			}
			sleep(500 * ms)
			if vos.Cur.Changed[cfg] == ca {
				fail("the file was not saved after ten quiet seconds, another controller had an update %v after this one", g)
			}
		}
		sleep(30 * time.Second)
		want := map[int]float64{5: 10}
		if who > 1 {
			want[6] = 30
		}
		a.saved("two controllers", want)
		if (vos.Cur.Changed[cfg2] != cb) != (who > 0) {
			fail("the other controller's file was saved: %v, it had updates: %v", vos.Cur.Changed[cfg2] != cb, who > 0)
		}
		if who > 0 {
			s := newSysOn(vos.Cur)
			s.connect(cfg2)
			if v := s.node(5).StateFloat["level"]; v != 20 {
				fail("the other controller's file has the level %v, should be 20", v)
			}
		}
	}})
	reg(&Scenario{Prop: "C23", Name: "C23/long", Run: func() {
		vs.Exploring(true)
		n := []int{20, 300}[vs.Choose(2, 0)]
		per := []int{1, 5, 40}[vs.Choose(3, 0)]
		gap := []time.Duration{10500 * ms, 20 * time.Second, time.Hour}[vs.Choose(3, 0)]
		bad := vs.Choose(3, 0) // now and then the disk is full
		vs.Exploring(false)
		if n > 20 && per > 1 {
			n = 40
		}
		s := startWith(jnode(5, 0x25))
		s.drain()
		full := false
		vos.Cur.Hook = func(op vos.Op) vos.Fault {
			if full {
				return vos.Fault{Err: errRead}
			}
			return vos.Fault{}
		}
		for i := 0; i < n; i++ {
			full = bad > 0 && i%[]int{1, 3, 2}[bad] == 1
			c := vos.Cur.Changed[cfg]
			var chunk []byte
			for k := 0; k < per; k++ {
				chunk = append(chunk, report(5, 0x26, 3, byte((i*7+k)%100))...)
			}
			s.Op.Cur().Feed(chunk)
			sleep(9800 * ms)
			if vos.Cur.Changed[cfg] != c {
				fail("cycle %d: the file was saved before ten quiet seconds had passed", i)
			}
			sleep(gap - 9800*ms)
			if !full {
				if vos.Cur.Changed[cfg] == c {
					fail("cycle %d of updates %v apart: the file was not saved", i, gap)
				}
				s.saved(fmt.Sprintf("cycle %d", i), map[int]float64{5: float64((i*7 + per - 1) % 100)})
			}
		}
	}})
}

// writtenAll is written, from the very start.
func (s *Sys) writtenAll(f []byte) []Wr {
	var l []Wr
	for _, w := range s.Op.writes {
		if bytes.Equal(w.Data, f) {
			l = append(l, w)
		}
	}
	return l
}
