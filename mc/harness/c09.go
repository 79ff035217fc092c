package main

import (
	"bytes"
	"fmt"
	"time"

	"gzmc/vs"
)

// answer is what the stick does with one command frame.
type answer struct {
	name string
	b    byte // 0: nothing
	at   time.Duration
}

var answers = []answer{
	{"ack", 0x06, 5 * ms}, {"none", 0, 0}, {"nak", 0x15, 5 * ms}, {"can", 0x18, 5 * ms},
	{"ack900", 0x06, 900 * ms}, {"ack0", 0x06, 0}, {"ack1200", 0x06, 1200 * ms}, {"ackack", 0x06, 5 * ms},
}

// line watches the commands of several callers and judges them against C09.
type line struct {
	s       *Sys
	callers [][][]byte // frames in the order issued
	answer  func(n int, f []byte) answer
	fed     []Wr // ACK, NAK and CAN bytes fed, with their time
	n       int
	errs    int
}

func newLine(s *Sys, a func(n int, f []byte) answer) *line {
	l := &line{s: s, answer: a}
	s.handler = func(p *Port, f []byte) bool {
		a := l.answer(l.n, f)
		l.n++
		if a.b == 0 {
			return true
		}
		fire := func() {
			if p.closed || p.err != nil {
				return
			}
			l.fed = append(l.fed, Wr{At: now(), Data: []byte{a.b}})
			if a.name == "ackack" { // the stick acknowledges twice
				p.Feed([]byte{a.b, a.b})
				return
			}
			p.Feed([]byte{a.b})
		}
		if a.at == 0 {
			fire()
		} else {
			vs.AddTimer(a.at, fire)
		}
		return true
	}
	return l
}

// caller issues n commands one after the other in its own task; kind selects the API.
func (l *line) caller(id, n, kind int) *vs.Task { return l.patient(id, n, kind, 200*ms, 3) }

func (l *line) patient(id, n, kind int, wait time.Duration, expect byte) *vs.Task {
	var fs [][]byte
	var ps [][]byte
	for i := 0; i < n; i++ {
		pl := []byte{0x13, byte(20 + id), 3, 0x25, 0x01, byte(id*16 + i), 0x25}
		ps = append(ps, pl)
		fs = append(fs, frame(0, pl...))
	}
	l.callers = append(l.callers, fs)
	s := l.s
	return vs.GoNamed(fmt.Sprintf("caller%d", id), func() {
		for _, pl := range ps {
			var err error
			switch kind {
			case 0:
				err = s.C.Connection.Write(raw(pl...))
			case 1:
				_, err = s.C.Connection.WriteWithTimeout(raw(pl...), wait)
			case 2:
				_, err = s.C.Connection.WriteAndWaitForReport(raw(pl...), wait, expect)
			}
			if err != nil {
				l.errs++
			}
		}
	})
}

func (l *line) judge() {
	s := l.s
	ws := s.Writes()
	if s.Op.doubleWrite != "" {
		fail("%s", s.Op.doubleWrite)
	}
	cans := 0
	for _, a := range l.fed {
		if a.Data[0] == 0x18 {
			cans++
		}
	}
	count := map[string]int{}
	extra := 0
	for i, w := range ws {
		known := false
		for _, fs := range l.callers {
			for _, f := range fs {
				known = known || bytes.Equal(f, w.Data)
			}
		}
		if !known {
			fail("bytes written that are no issued command: %x", w.Data)
		}
		if count[string(w.Data)]++; count[string(w.Data)] > 1 {
			extra++
		}
		if i == 0 {
			continue
		}
		p := ws[i-1]
		if w.At-p.At < 50*ms {
			fail("commands %x and %x were written %v apart", p.Data, w.Data, w.At-p.At)
		}
		answered := w.At-p.At >= time.Second
		for _, a := range l.fed {
			answered = answered || a.At >= p.At && a.At <= w.At
		}
		if !answered {
			fail("command %x was written %v after %x, which had not been answered", w.Data, w.At-p.At, p.Data)
		}
	}
	if extra != cans {
		fail("%d commands were written again, %d CAN were received (writes %x)", extra, cans, datas(ws))
	}
	for c, fs := range l.callers {
		last := -1
		for k, f := range fs {
			first := -1
			for i, w := range ws {
				if bytes.Equal(f, w.Data) {
					first = i
					break
				}
			}
			if first < 0 {
				fail("command %d of caller %d was never written", k, c)
			}
			if first < last {
				fail("caller %d: command %d was written before the one issued before it", c, k)
			}
			last = first
		}
	}
	var o string
	for _, w := range ws {
		o += fmt.Sprintf("%x@%v ", w.Data[7:10], w.At-ws[0].At)
	}
	note("%s", o)
}

func alive(ts ...*vs.Task) {
	for _, t := range ts {
		if !t.Done() {
			fail("a caller is still blocked: %s", vs.Dump())
		}
	}
}

func init() {
	ans := func(n int, f []byte) answer {
		return answers[vs.Choose(len(answers), 0)]
	}
	ack := func(n int, f []byte) answer { return answers[0] }
	reg(&Scenario{Prop: "C09", Name: "C09/answers", Bound: [2]int{0, 1}, Run: func() {
		s := start()
		left := 4
		l := newLine(s, func(n int, f []byte) answer {
			if left == 0 {
				return answers[0]
			}
			left--
			return ans(n, f)
		})
		vs.Exploring(true)
		a, b := l.caller(1, 2, 0), l.caller(2, 2, 1)
		sleep(9 * time.Second)
		vs.Exploring(false)
		alive(a, b)
		l.judge()
	}})
	// a burst of commands, every schedule of its beginning
	for api := 0; api < 3; api++ {
		api := api
		reg(&Scenario{Prop: "C09", Name: fmt.Sprintf("C09/burst%d", api), Bound: [2]int{1, 2}, Run: func() {
			s := start()
			l := newLine(s, func(n int, f []byte) answer { return answers[0] })
			ts := []*vs.Task{l.caller(1, 40, api)}
			vs.Exploring(true)
			sleep(140 * ms)
			vs.Exploring(false)
			sleep(10 * time.Second)
			alive(ts...)
			l.judge()
		}})
	}
	// requests of any patience that the stick does not answer, one at a time or two together
	reg(&Scenario{Prop: "C09", Name: "C09/patience", Run: func() {
		s := start()
		l := newLine(s, func(n int, f []byte) answer {
			if n < 3 {
				return answers[vs.Choose(len(answers), 0)]
			}
			return answers[0]
		})
		vs.Exploring(true)
		wait := []time.Duration{20 * ms, time.Second, 2 * time.Second, 5 * time.Second, 10 * time.Second, 30 * time.Second}[vs.Choose(6, 0)]
		kind := 1 + vs.Choose(2, 0)
		expect := []byte{3, 5, 8, 0}[vs.Choose(4, 0)]
		a := l.patient(1, 3, kind, wait, expect)
		sleep(4 * time.Second)
		b := l.caller(2, 2, 0)
		sleep(40 * time.Second)
		vs.Exploring(false)
		alive(a, b)
		l.judge()
	}})
	// many commands wait at the same time
	reg(&Scenario{Prop: "C09", Name: "C09/many", Bound: [2]int{0, 1}, Run: func() {
		s := start()
		menu := []answer{answers[0], answers[1], answers[3], answers[7]}
		kind := 0
		l := newLine(s, func(n int, f []byte) answer {
			if n == 3 || n == 7 {
				kind = vs.Choose(len(menu), 0)
				return menu[kind]
			}
			return answers[0]
		})
		vs.Exploring(true)
		api := vs.Choose(3, 0)
		n := []int{40, 20}[vs.Choose(2, 0)]
		vs.Exploring(false)
		ts := []*vs.Task{l.caller(1, n, api)}
		for i := 2; i <= 40/n; i++ {
			ts = append(ts, l.caller(i*3, n, 0))
		}
		if n == 20 { // a crowd
			for i := 0; i < 8; i++ {
				ts = append(ts, l.caller(40+i, 3, i%3))
			}
		}
		vs.Exploring(true)
		sleep(12 * time.Second)
		vs.Exploring(false)
		alive(ts...)
		l.judge()
	}})
	for k := 0; k < 3; k++ {
		k := k
		reg(&Scenario{Prop: "C09", Name: fmt.Sprintf("C09/callers%d", k), Bound: [2]int{2, 3}, Fine: true, Run: func() {
			s := start()
			l := newLine(s, func(n int, f []byte) answer {
				if n == k {
					return answers[1+k]
				}
				if k == 0 && n == 1 {
					return answers[7]
				}
				return answers[0]
			})
			vs.Exploring(true)
			a, b, c := l.caller(1, 2, 0), l.caller(2, 1, 1), l.caller(3, 1, 2)
			sleep(4 * time.Second)
			vs.Exploring(false)
			alive(a, b, c)
			l.judge()
		}})
	}
	// the port takes its time to write
	reg(&Scenario{Prop: "C09", Name: "C09/slow", Bound: [2]int{1, 2}, Fine: true, Run: func() {
		s := start()
		l := newLine(s, func(n int, f []byte) answer { return answers[[]int{0, 5, 2, 3}[vs.Choose(4, 1)]] })
		vs.Exploring(true)
		s.Op.writeDelay = []time.Duration{20 * ms, 70 * ms, 300 * ms}[vs.Choose(3, 0)]
		a, b := l.caller(1, 2, 0), l.caller(2, 1, 1)
		sleep(150 * ms)
		s.Op.Cur().Feed(sensorReport(9, 1, 1))
		sleep(11 * time.Second)
		vs.Exploring(false)
		alive(a, b)
		l.judge()
	}})
	// the port is lost at any time; one writer serves the old and the new port
	reg(&Scenario{Prop: "C09", Name: "C09/reconnect", Bound: [2]int{1, 2}, Fine: true, Run: func() {
		s := start()
		l := newLine(s, func(n int, f []byte) answer {
			if n < 3 {
				return answers[[]int{0, 1, 5}[vs.Choose(3, 0)]]
			}
			return answers[0]
		})
		vs.Exploring(true)
		at := []time.Duration{0, 51 * ms, 60 * ms, 300 * ms, 1020 * ms}[vs.Choose(5, 0)]
		again := []time.Duration{0, 1100 * ms, 1300 * ms}[vs.Choose(3, 0)]
		vs.AddTimer(at, func() { s.Op.Cur().err = errRead })
		if again > 0 {
			vs.AddTimer(at+again, func() { s.Op.Cur().err = errRead })
		}
		a, b := l.caller(1, 3, 0), l.caller(2, 1, 0)
		sleep(2500 * ms)
		c, d := l.caller(3, 2, 0), l.caller(4, 1, 1)
		sleep(9 * time.Second)
		vs.Exploring(false)
		alive(a, b, c, d)
		l.judge()
	}})
	// identification of several nodes and a user share the line
	reg(&Scenario{Prop: "C09", Name: "C09/identify", Bound: [2]int{1, 2}, Run: func() {
		s := newSys(1, 5, 6, 7)
		vs.Exploring(true)
		s.connect("")
		sleep(3 * time.Second)
		vs.Exploring(false)
		ws := s.Op.writes
		var cmds []Wr
		for _, w := range ws {
			if !isAck(w.Data) {
				cmds = append(cmds, w)
			}
		}
		for i := 1; i < len(cmds); i++ {
			if d := cmds[i].At - cmds[i-1].At; d < 50*ms {
				fail("commands %x and %x were written %v apart", cmds[i-1].Data, cmds[i].Data, d)
			}
		}
		if s.Op.doubleWrite != "" {
			fail("%s", s.Op.doubleWrite)
		}
		note("%x", datas(cmds))
	}})
	_ = ack
	c10()
}

func c10() {
	reg(&Scenario{Prop: "C10", Name: "C10/busy", Bound: [2]int{0, 1}, Run: busy10})
	for kind := 0; kind < 3; kind++ {
		kind := kind
		for _, fine := range []bool{false, true} {
			fine := fine
			name, bound := fmt.Sprintf("C10/can%d", kind), [2]int{0, 1}
			if fine {
				name, bound = fmt.Sprintf("C10/schedule%d", kind), [2]int{2, 3}
			}
			reg(&Scenario{Prop: "C10", Name: name, Bound: bound, Fine: fine, Run: func() { run10(kind, fine) }})
		}
	}
}

// busy10: a command is cancelled while others wait for the line.
func busy10() {
	s := start()
	f5 := frame(0, cmd5...)
	seen, cans := 0, 0
	var ansAt time.Duration
	var fedCan []time.Duration
	var fedEnd []time.Duration
	gap := 5 * ms
	other := 5 * ms
	s.handler = func(p *Port, f []byte) bool {
		if !bytes.Equal(f, f5) {
			if other >= 0 {
				p.FeedAfter(other, ack)
			}
			return true
		}
		seen++
		if seen <= cans {
			fedCan = append(fedCan, now()+gap)
			p.FeedAfter(gap, can)
			return true
		}
		fedEnd = append(fedEnd, now())
		p.FeedAfter(5*ms, ack)
		p.FeedAfter(300*ms, ans5)
		ansAt = now() + 300*ms
		return true
	}
	vs.Exploring(true)
	kind := vs.Choose(3, 0)
	cans = []int{1, 2, 6, 25}[vs.Choose(4, 0)]
	gap = []time.Duration{5 * ms, 0, 300 * ms}[vs.Choose(3, 0)]
	other = []time.Duration{5 * ms, 120 * ms, 900 * ms, -1}[vs.Choose(4, 0)]
	before := []int{0, 2}[vs.Choose(2, 0)]
	delay := []time.Duration{0, 40 * ms, 90 * ms}[vs.Choose(3, 0)]
	timeout := 60 * time.Second
	var rs []*Req
	var frames [][]byte
	others := func(n int) {
		for i := 0; i < n; i++ {
			pl := []byte{0x13, byte(30 + len(rs)), 3, 0x25, 0x01, 0xff, 0x25}
			frames = append(frames, frame(0, pl...))
			rs = append(rs, s.command(fmt.Sprintf("other%d", len(rs)), pl...))
		}
	}
	others(before)
	if before > 0 {
		sleep(10 * ms)
	}
	var r5 *Req
	switch kind {
	case 0:
		r5 = s.command("cmd5", cmd5...)
	case 1:
		r5 = s.query("cmd5", timeout, cmd5...)
	case 2:
		r5 = s.ask("cmd5", timeout, 3, cmd5...)
	}
	if delay > 0 {
		sleep(delay)
	}
	others(5)
	sleep(time.Duration(15+cans) * time.Second)
	vs.Exploring(false)
	w5 := s.written(f5)
	if len(w5) != 1+cans {
		fail("the command was written %d times, it got %d CAN while %d other commands waited", len(w5), len(fedCan), len(rs))
	}
	for i, at := range fedCan {
		if w5[i+1].At-at < 100*ms {
			fail("the command was written again %v after its CAN", w5[i+1].At-at)
		}
	}
	for i, f := range frames {
		if n := len(s.written(f)); n != 1 {
			fail("another command was written %d times (%d CAN for the command under test)", n, len(fedCan))
		}
		if !rs[i].Issued || rs[i].Err != nil {
			fail("a caller is blocked or got an error: %s", vs.Dump())
		}
	}
	if len(s.Writes()) != len(w5)+len(frames) {
		fail("unexpected frames written: %x", datas(s.Writes()))
	}
	if kind > 0 && (r5.answers() != 1 || !r5.Closed || r5.GotAt > ansAt+time.Second) {
		fail("the requester got %d answers (closed=%v) although the answer came after %d CAN", r5.answers(), r5.Closed, len(fedCan))
	}
	note("%v", w5[len(w5)-1].At-w5[0].At)
}

// can10 plays the stick for one command under test (node 5), one other pending request (node 6) and another caller (node 7).
type can10 struct {
	s      *Sys
	cans   int
	gap    time.Duration
	fin    int
	extra  int
	fedCan []time.Duration
	finAt  time.Duration
	ansAt  time.Duration
	seen   int
}

var (
	cmd5 = []byte{0x13, 5, 2, 0x25, 0x02, 0x25}
	cmd6 = []byte{0x13, 6, 2, 0x31, 0x04, 0x25}
	cmd7 = []byte{0x13, 7, 3, 0x25, 0x01, 0xff, 0x25}
	ans5 = report(5, 0x25, 0x03, 0xff)
	ans6 = sensorReport(6, 1, 2)
)

func run10(kind int, fine bool) {
	s := start()
	c := &can10{s: s}
	f5 := frame(0, cmd5...)
	s.handler = func(p *Port, f []byte) bool {
		if !bytes.Equal(f, f5) {
			return false
		}
		c.seen++
		if c.seen <= c.cans {
			if c.extra == 1 && c.seen == 1 { // the answer overtakes the CAN
				p.FeedAfter(2*ms, ans5)
				c.ansAt = now() + 2*ms
			}
			at := now() + c.gap
			c.fedCan = append(c.fedCan, at)
			p.FeedAfter(c.gap, can)
			return true
		}
		switch c.fin {
		case 0: // normal
			p.FeedAfter(5*ms, ack)
			p.FeedAfter(300*ms, ans5)
			if c.ansAt == 0 {
				c.ansAt = now() + 300*ms
			}
		case 1:
			c.finAt = now() + c.gap
			p.FeedAfter(c.gap, nak)
		case 2: // silence
		case 3: // answer without ACK, within the second
			p.FeedAfter(30*ms, ans5)
			if c.ansAt == 0 {
				c.ansAt = now() + 30*ms
			}
		case 4: // a different node's report first
			p.FeedAfter(5*ms, ack)
			p.FeedAfter(20*ms, report(7, 0x25, 0x03, 0xff))
			p.FeedAfter(60*ms, ans5)
			if c.ansAt == 0 {
				c.ansAt = now() + 60*ms
			}
		}
		return true
	}
	vs.Exploring(true)
	order := 0
	if !fine {
		c.cans = vs.Choose(4, 0)
		c.gap = []time.Duration{5 * ms, 0, 300 * ms, 950 * ms}[vs.Choose(4, 0)]
		c.fin = vs.Choose(5, 0)
		c.extra = vs.Choose(2, 0)
		order = vs.Choose(3, 0)
	} else {
		c.cans = vs.Choose(2, 0)
		c.gap = []time.Duration{5 * ms, 0}[vs.Choose(2, 0)]
		c.fin = vs.Choose(2, 0)
	}
	timeout := 6 * time.Second
	var r6, r5 *Req
	issue := func() {
		switch kind {
		case 0:
			r5 = s.command("cmd5", cmd5...)
		case 1:
			r5 = s.query("cmd5", timeout, cmd5...)
		case 2:
			r5 = s.ask("cmd5", timeout, 3, cmd5...)
		}
	}
	other := func() { r6 = s.ask("cmd6", 30*time.Second, 5, cmd6...) }
	var c7 []*Req
	switch order {
	case 0:
		other()
		sleep(60 * ms)
		issue()
		c7 = append(c7, s.command("cmd7", cmd7...))
	case 1:
		issue()
		other()
		c7 = append(c7, s.command("cmd7", cmd7...))
	case 2:
		issue()
		sleep(120 * ms)
		other()
		c7 = append(c7, s.command("cmd7", cmd7...))
	}
	begin := now()
	sleep(13 * time.Second)
	vs.Exploring(false)
	// judge
	w5 := s.written(f5)
	if want := 1 + len(c.fedCan); len(w5) != want {
		fail("the command was written %d times, it got %d CAN (answer overtaking: %v)", len(w5), len(c.fedCan), c.extra == 1)
	}
	for i, at := range c.fedCan {
		if w5[i+1].At-at < 100*ms {
			fail("the command was written again %v after its CAN", w5[i+1].At-at)
		}
		if w5[i+1].At-at > 3*time.Second {
			fail("the command was written again only %v after its CAN", w5[i+1].At-at)
		}
	}
	if n := len(s.written(frame(0, cmd6...))); n != 1 {
		fail("another request was written %d times", n)
	}
	if n := len(s.written(frame(0, cmd7...))); n != 1 {
		fail("another command was written %d times", n)
	}
	if len(s.Writes()) != len(w5)+2 {
		fail("unexpected frames written: %x", datas(s.Writes()))
	}
	if !r5.Issued || !r6.Issued || !c7[0].Issued || r5.Err != nil || r6.Err != nil || c7[0].Err != nil {
		fail("a caller is blocked or got an error: %s", vs.Dump())
	}
	if kind > 0 {
		deadline := w5[0].At + timeout
		switch {
		case c.ansAt > 0 && c.ansAt < deadline:
			if r5.answers() != 1 || !r5.Closed {
				fail("the requester got %d answers (closed=%v) although the answer came after %d CAN", r5.answers(), r5.Closed, len(c.fedCan))
			}
			if r5.GotAt > c.ansAt+time.Second {
				fail("the answer was delivered %v late", r5.GotAt-c.ansAt)
			}
		case c.finAt > 0 && c.finAt < deadline:
			if r5.answers() != 0 || !r5.Closed {
				fail("after a NAK the requester got %d answers, closed=%v", r5.answers(), r5.Closed)
			}
			if r5.ClosedAt > c.finAt+500*ms {
				fail("after a NAK the requester's channel was closed %v later", r5.ClosedAt-c.finAt)
			}
		default:
			if r5.answers() != 0 {
				fail("the requester got an answer that never came")
			}
		}
	}
	if r6.Closed || r6.answers() > 0 {
		fail("another pending request was completed or closed (%d answers)", r6.answers())
	}
	s.Op.Cur().Feed(ans6)
	sleep(1500 * ms)
	if len(r6.Reports) != 1 || !r6.Closed {
		fail("another pending request no longer gets its answer (%d answers, closed=%v)", r6.answers(), r6.Closed)
	}
	note("w5=%d closed=%v at %v ans=%d", len(w5), r5.Closed, r5.ClosedAt-begin, r5.answers())
}
