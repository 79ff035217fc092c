package main

import (
	"bytes"
	"fmt"
	"io"
	os0 "os"
	"strings"
	"syscall"
	"time"

	gozwave "github.com/stampzilla/gozwave"
	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/events"
	"github.com/stampzilla/gozwave/nodes"
	"gzmc/vos"
	"gzmc/vs"
	"gzmc/vserial"
)

// reopenErrs are what opening the port again may fail with.
var reopenErrs = []error{nil, &os0.PathError{Op: "open", Path: "/dev/x", Err: syscall.ENOENT}, os0.ErrPermission, syscall.EBUSY, io.EOF, errTemporary, syscall.ENODEV}

// errTemporary says that it is temporary, the port is lost all the same.
var errTemporary error = tempErr{}

type tempErr struct{}

func (tempErr) Error() string   { return "read: resource temporarily unavailable" }
func (tempErr) Temporary() bool { return true }
func (tempErr) Timeout() bool   { return true }

// lossErr is what reading returns when the port is lost.
func (o *Opener) lossErr() error {
	if o.readErr != nil {
		return o.readErr
	}
	return errRead
}

// flag is the exported connected flag, read as a careful user would.
func (s *Sys) flag() bool {
	s.C.Connection.RLock()
	defer s.C.Connection.RUnlock()
	return s.C.Connection.Connected
}

// outage is one loss of the port followed by some failing attempts to reopen it.
type outage struct {
	at    time.Duration // from the start, or from the last reopening
	fails int
}

type portEvent struct {
	at      time.Duration
	attempt bool // otherwise: lost
}

// ports plays the outages and records when the port was lost and reopened.
type ports struct {
	s       *Sys
	lost    []time.Duration
	back    []time.Duration
	attempt []time.Duration
	log     []portEvent
	done    bool
}

func (s *Sys) outages(os []outage) *ports {
	p := &ports{s: s}
	fails := 0
	s.Op.openErr = func(n int) error {
		if n == 0 {
			return nil
		}
		p.attempt = append(p.attempt, now())
		p.log = append(p.log, portEvent{now(), true})
		if fails > 0 {
			fails--
			if s.Op.reopenErr != nil {
				return s.Op.reopenErr
			}
			return errOpen
		}
		p.back = append(p.back, now())
		return nil
	}
	vs.GoNamed("outages", func() {
		for i, o := range os {
			if o.at > 0 {
				sleep(o.at)
			}
			fails = o.fails
			cur := s.Op.Cur()
			cur.err = s.Op.lossErr()
			vs.WaitUntil("lost", -1, func() bool { return cur.lost })
			p.lost = append(p.lost, now())
			p.log = append(p.log, portEvent{now(), false})
			if !vs.WaitUntil("reopened", 5*time.Second+time.Duration(2*o.fails)*time.Second, func() bool { return len(p.back) > i }) {
				fail("%v after the port was lost it has not been reopened (%d attempts)", now()-p.lost[i], len(p.attempt))
			}
		}
		p.done = true
	})
	return p
}

// judge checks the attempts, the overlap of ports and that everything works again.
func (p *ports) judge(n int) {
	s := p.s
	if !p.done || len(p.back) != n {
		fail("%d of %d outages ended: %s", len(p.back), n, vs.Dump())
	}
	if s.Op.overlap != "" {
		fail("%s", s.Op.overlap)
	}
	if s.Op.doubleWrite != "" {
		fail("%s", s.Op.doubleWrite)
	}
	if len(s.Op.closes) < n {
		fail("the port was lost %d times but closed %d times", n, len(s.Op.closes))
	}
	// every attempt comes about a second after the loss or the attempt before
	prev := time.Duration(-1)
	for _, e := range p.log {
		if e.attempt {
			if prev >= 0 && e.at-prev > s.Op.closeDelay {
				prev += s.Op.closeDelay // The port is reopened a second after it has been closed
			}
			if prev < 0 {
				fail("the port was opened at %v without having been lost", e.at)
			}
			if d := e.at - prev; d < 500*ms || d > 2500*ms {
				fail("the port was reopened %v after it was lost or failed to open", d)
			}
		}
		prev = e.at
	}
	s.noAck = false
	s.handler = nil
	// exactly as before: command, report, request, on the new port only
	port := s.Op.Cur().id
	mark := len(s.Op.writes)
	ev := len(s.ev.Evs)
	if !s.flag() {
		fail("the connected flag is still false long after the port was reopened")
	}
	s.command("final", 0x13, 30, 3, 0x25, 1, 0xff, 0x25)
	sleep(200 * ms)
	s.Op.Cur().Feed(sensorReport(5, 1, 0x31))
	sleep(200 * ms)
	r := s.ask("final request", 3*time.Second, 3, 0x13, 31, 2, 0x25, 2, 0x25)
	sleep(200 * ms)
	s.Op.Cur().Feed(report(31, 0x25, 3, 0))
	sleep(500 * ms)
	var cmds [][]byte
	acks := 0
	for _, w := range s.Op.writes[mark:] {
		if w.Port != port {
			fail("%x was written to a port that is no longer open", w.Data)
		}
		if isAck(w.Data) {
			acks++
			continue
		}
		cmds = append(cmds, w.Data)
	}
	want := [][]byte{frame(0, 0x13, 30, 3, 0x25, 1, 0xff, 0x25), frame(0, 0x13, 31, 2, 0x25, 2, 0x25)}
	if fmt.Sprintf("%x", cmds) != fmt.Sprintf("%x", want) {
		fail("after reopening the commands %x were written, issued were %x", cmds, want)
	}
	if acks != 2 {
		fail("after reopening 2 reports came, %d were acknowledged", acks)
	}
	if s.ev.updated(5) == 0 || len(s.ev.Evs) != ev+1 {
		fail("after reopening a report was not delivered once")
	}
	if len(r.Reports) != 1 || !r.Closed {
		fail("after reopening a request got %d answers, closed=%v", len(r.Reports), r.Closed)
	}
}

// watchFlag samples the connected flag while the scenario runs.
func (p *ports) watchFlag(until time.Duration) {
	s := p.s
	vs.GoNamed("flag", func() {
		for now() < until {
			sleep(33*ms + 1)
			if lost := len(p.lost) > len(p.back); lost && now() > p.lost[len(p.lost)-1]+s.Op.closeDelay && s.flag() && len(p.lost) > len(p.back) {
				fail("the connected flag is true %v after the port was lost", now()-p.lost[len(p.lost)-1])
			}
		}
	})
}

func init() {
	run := func(recorder, fine, odd bool, losses [][]outage) func() {
		return func() {
			s := newSys()
			s.recorder = recorder
			vos.Cur.Put(cfg, jfile(jnode(5, 0x31)))
			s.connect(cfg)
			s.ev = s.drain()
			sleep(50 * ms)
			vs.Exploring(true)
			os := losses[vs.Choose(len(losses), 0)]
			off := []time.Duration{100 * ms, 0, 30 * ms, 52 * ms, 56 * ms}[vs.Choose(5, 0)]
			when := []time.Duration{300 * ms, 0, 990 * ms, 1000 * ms, 1100 * ms}[vs.Choose(5, 0)]
			os = append([]outage{}, os...)
			if odd { // other errors than an I/O error, and a port that closes slowly
				s.Op.readErr = []error{io.EOF, os0.ErrClosed, syscall.ENODEV, io.ErrUnexpectedEOF, errTemporary, nil}[vs.Choose(6, 0)]
				for _, o := range os {
					if o.fails > 0 {
						s.Op.reopenErr = reopenErrs[vs.Choose(len(reopenErrs), 0)]
						break
					}
				}
				s.Op.closeDelay = []time.Duration{0, 300 * ms, 1300 * ms, 3 * time.Second}[vs.Choose(4, 0)]
			}
			os[0].at += off
			p := s.outages(os)
			p.watchFlag(16 * time.Second)
			begin := now()
			f1 := []byte{0x13, 20, 2, 0x31, 4, 0x25}
			r1 := s.ask("before", 500*ms, 5, f1...)
			sleep(off + when)
			r2 := s.query("down", 700*ms, 0x41, 9)
			r3 := s.command("down", 0x13, 21, 3, 0x25, 1, 0xff, 0x25)
			r4 := s.ask("down", 400*ms, 5, 0x13, 22, 2, 0x31, 4, 0x25)
			end := 9 * time.Second
			for _, o := range os {
				end += o.at + time.Duration(o.fails+1)*time.Second + s.Op.closeDelay + 100*ms
			}
			sleep(end - (now() - begin))
			vs.Exploring(false)
			if !r3.Issued || r3.Err != nil {
				fail("a command issued while the port is down is blocked: %s", vs.Dump())
			}
			judge11(s, r1, frame(0, f1...))
			judge11(s, r2, frame(0, 0x41, 9))
			judge11(s, r4, frame(0, 0x13, 22, 2, 0x31, 4, 0x25))
			p.judge(len(os))
			note("attempts=%d lost=%v back=%v r1=%v", len(p.attempt), p.lost, p.back, r1.ClosedAt)
		}
	}
	var all [][]outage
	for _, f := range []int{0, 1, 3} {
		all = append(all, []outage{{0, f}})
		for _, at := range []time.Duration{0, 100 * ms, 200 * ms, 250 * ms, 1500 * ms} {
			for _, f2 := range []int{0, 1} {
				all = append(all, []outage{{0, f}, {at, f2}})
			}
		}
	}
	all = append(all, []outage{{0, 0}, {0, 0}, {0, 0}}, []outage{{0, 0}, {200 * ms, 1}, {200 * ms, 0}}, []outage{{0, 0}, {1000 * ms, 0}, {1000 * ms, 0}})
	few := [][]outage{{{0, 0}}, {{0, 1}}, {{0, 0}, {100 * ms, 0}}}
	two := [][]outage{{{0, 0}, {200 * ms, 0}}}
	reg(&Scenario{Prop: "C13", Name: "C13/losses", Bound: [2]int{0, 0}, Run: run(false, false, false, all)})
	reg(&Scenario{Prop: "C13", Name: "C13/schedule", Bound: [2]int{1, 2}, Fine: true, Run: run(false, true, false, few)})
	reg(&Scenario{Prop: "C13", Name: "C13/flag", Bound: [2]int{1, 2}, Fine: true, Run: run(false, true, false, two)})
	reg(&Scenario{Prop: "C13", Name: "C13/recorder", Bound: [2]int{0, 1}, Run: run(true, false, false, all[:6])})
	reg(&Scenario{Prop: "C13", Name: "C13/odd", Bound: [2]int{0, 1}, Run: run(false, false, true, append(append([][]outage{{{0, 3}}}, few...), []outage{{1500 * ms, 0}, {1500 * ms, 1}}))})
	// many failing attempts, and many losses
	var many []outage
	for i := 0; i < 30; i++ {
		many = append(many, outage{400 * ms, i % 3 / 2})
	}
	reg(&Scenario{Prop: "C13", Name: "C13/many", Bound: [2]int{0, 0}, Run: run(false, false, false, [][]outage{{{0, 40}, {0, 25}}, many})})
	// frames half received when the port is lost, reports while requests are pending
	reg(&Scenario{Prop: "C13", Name: "C13/partial", Bound: [2]int{1, 2}, Fine: true, Run: func() {
		s := newSys()
		vos.Cur.Put(cfg, jfile(jnode(5, 0x31)))
		s.connect(cfg)
		s.ev = s.drain()
		sleep(50 * ms)
		f := sensorReport(5, 1, 7)
		vs.Exploring(true)
		k := vs.Choose(len(f)+1, 0)
		s.Op.Cur().once = vs.Choose(2, 0) == 1
		s.Op.readErr = []error{nil, errTemporary, io.EOF}[vs.Choose(3, 0)]
		s.Op.Cur().Feed(f[:k])
		p := s.outages([]outage{{0, 0}})
		sleep(1200 * ms)
		vs.Exploring(false)
		sleep(600 * ms)
		p.judge(1)
	}})
	// used as soon as the port is back
	reg(&Scenario{Prop: "C13", Name: "C13/soon", Bound: [2]int{1, 2}, Run: func() {
		s := newSys()
		vos.Cur.Put(cfg, jfile(jnode(5, 0x31)))
		s.connect(cfg)
		s.ev = s.drain()
		sleep(500 * ms)
		vs.Exploring(true)
		before := vs.Choose(2, 0) == 1 // a command and a report came before the loss
		fails := []int{0, 2}[vs.Choose(2, 0)]
		after := []time.Duration{1, 20 * ms, 60 * ms, 120 * ms, 199 * ms, 200 * ms, 201 * ms, 400 * ms}[vs.Choose(8, 0)]
		kind := vs.Choose(4, 0)
		vs.Exploring(false)
		if before {
			s.command("before", 0x13, 30, 3, 0x25, 1, 0, 0x25)
			sleep(200 * ms)
			s.Op.Cur().Feed(sensorReport(5, 1, 0x30))
			sleep(200 * ms)
		}
		p := s.outages([]outage{{0, fails}})
		vs.WaitUntil("back", 10*time.Second, func() bool { return len(p.back) == 1 })
		sleep(after)
		mark, ev, at := len(s.Op.writes), len(s.ev.Evs), now()
		vs.Exploring(true)
		want := frame(0, 0x13, 31, 2, 0x25, 2, 0x25)
		var r *Req
		switch kind {
		case 0:
			r = s.ask("request as soon as the port is back", 3*time.Second, 3, want[3:len(want)-1]...)
		case 1:
			want = frame(0, 0x41, 31)
			r = s.query("request as soon as the port is back", 3*time.Second, want[3:len(want)-1]...)
		case 2:
			s.command("command as soon as the port is back", want[3:len(want)-1]...)
		case 3:
			s.Op.Cur().Feed(sensorReport(5, 1, 0x31))
		}
		sleep(150 * ms)
		vs.Exploring(false)
		sleep(150 * ms)
		if kind < 2 {
			answer := report(31, 0x25, 3, 0)
			if kind == 1 {
				answer = frame(1, 0x41, 0xd3, 0x9c, 0, 4, 0x10, 1)
			}
			s.Op.Cur().Feed(answer)
			sleep(300 * ms)
			if r.answers() != 1 || !r.Closed {
				fail("a request made %v after the port was reopened got %d answers, closed=%v", after, r.answers(), r.Closed)
			}
		}
		if kind < 3 {
			n := 0
			for _, w := range s.Op.writes[mark:] {
				if bytes.Equal(w.Data, want) && w.Port == s.Op.Cur().id {
					n++
					if w.At-at > 120*ms {
						fail("a command made %v after the port was reopened was written %v later", after, w.At-at)
					}
				}
			}
			if n != 1 {
				fail("a command made %v after the port was reopened was written %d times", after, n)
			}
		} else if len(s.ev.Evs) != ev+1 {
			fail("a report received %v after the port was reopened raised %d events", after, len(s.ev.Evs)-ev)
		}
		sleep(5 * time.Second)
		p.judge(1)
	}})
	c14()
}

func c14() {
	type open struct {
		name  string
		fails func(n int) error
		delay time.Duration
		loss  time.Duration // read error this long after the first open
		ok    bool
	}
	errThird := fmt.Errorf("open: device busy")
	at := func(bad ...int) func(int) error {
		return func(n int) error {
			for _, b := range bad {
				if b == n {
					return errOpen
				}
			}
			return nil
		}
	}
	first := func(n int) error {
		if n == 0 {
			return errThird
		}
		return nil
	}
	once := func(err error) func(n int) error {
		return func(n int) error {
			if n == 0 {
				return err
			}
			return nil
		}
	}
	opens := []open{
		{"ok", at(), 0, -1, true},
		{"error", at(0, 1, 2, 3, 4, 5, 6, 7, 8), 0, -1, false},
		{"error once", first, 0, -1, false},
		{"permission once", once(os0.ErrPermission), 0, -1, false},
		{"missing once", once(&os0.PathError{Op: "open", Path: "/dev/x", Err: syscall.ENOENT}), 0, -1, false},
		{"busy once", once(syscall.EBUSY), 0, -1, false},
		{"temporary once", once(errTemporary), 0, -1, false},
		{"eof once", once(io.EOF), 0, -1, false},
		{"lost again and again", at(), 0, -2, true},
		{"slow ok", at(), 3 * time.Second, -1, true},
		{"slow error", at(0), 3 * time.Second, -1, false},
		{"150ms error", at(0), 150 * ms, -1, false},
		{"lost at once", at(), 0, 0, true},
		{"lost at 100ms", at(), 0, 100 * ms, true},
		{"lost at 200ms", at(), 0, 200 * ms, true},
		{"lost, reopen fails", at(1, 2), 0, 50 * ms, true},
		{"lost at 200ms, reopen fails", at(1), 0, 200 * ms, true},
	}
	files := []string{"", cfg, "/cfg/missing.json"}
	reg(&Scenario{Prop: "C14", Name: "C14/outcomes", Bound: [2]int{2, 3}, Fine: true, Run: func() {
		vs.Exploring(true)
		o := opens[vs.Choose(len(opens), 0)]
		file := files[vs.Choose(len(files), 0)]
		vs.Exploring(false)
		s := newSys()
		vos.Cur.Put(cfg, jfile(jnode(5, 0x31)))
		s.Op.openErr = o.fails
		s.Op.openDelay = o.delay
		opened := false
		if o.loss >= 0 {
			vs.GoNamed("loss", func() {
				vs.WaitUntil("open", -1, func() bool { return len(s.Op.ports) > 0 })
				if o.loss > 0 {
					sleep(o.loss)
				}
				s.Op.ports[0].err = errRead
			})
		}
		if o.loss == -2 { // for ten seconds
			vs.GoNamed("losses", func() {
				for i := 0; now() < 10*time.Second; i++ {
					vs.WaitUntil("open", -1, func() bool { return len(s.Op.ports) > i })
					sleep(60 * ms)
					s.Op.ports[i].err = errRead
				}
			})
		}
		_ = opened
		var c *gozwave.Controller
		var err error
		returned := false
		vs.Exploring(true)
		begin := now()
		vs.GoNamed("connect", func() {
			c, err = gozwave.ConnectWithCustomPortOpener("/dev/x", file, s.Op)
			returned = true
		})
		if !vs.WaitUntil("connect", 20*time.Second, func() bool { return returned }) {
			fail("connecting never returns: %s", vs.Dump())
		}
		took := now() - begin
		n := len(s.Op.opens)
		if o.ok {
			if err != nil || c == nil {
				fail("the port was opened, connecting returned %v (controller nil: %v)", err, c == nil)
			}
			vs.Exploring(false)
			sleep(8 * time.Second)
			if o.loss == -2 {
				sleep(6 * time.Second)
			}
			s.C = c
			s.base = len(s.Op.writes)
			ev := s.drain()
			r := s.ask("req", 2*time.Second, 5, cmd6...)
			sleep(300 * ms)
			s.Op.Cur().Feed(ans6)
			sleep(2500 * ms)
			if len(r.Reports) != 1 || !r.Closed {
				fail("the controller that was returned is not usable: a request got %d answers, closed=%v", len(r.Reports), r.Closed)
			}
			if file == cfg {
				s.Op.Cur().Feed(sensorReport(5, 1, 3))
				sleep(100 * ms)
				if ev.updated(5) != 1 {
					fail("the controller that was returned is not usable: a report raised %d events", ev.updated(5))
				}
			}
		} else {
			if err == nil {
				fail("the port could not be opened, connecting returned no error")
			}
			want := o.fails(0)
			if err != want && !strings.Contains(err.Error(), want.Error()) {
				fail("connecting returned the error %q, opening failed with %q", err, want)
			}
			if c != nil {
				fail("connecting returned an error and a controller")
			}
			sleep(10 * time.Second)
			vs.Exploring(false)
			if len(s.Op.opens) != n {
				fail("the library opened the port again %v after it had returned an error", s.Op.opens[n]-begin-took)
			}
			if len(s.Op.writes) > 0 {
				fail("bytes were written although connecting failed: %x", s.Op.writes[0].Data)
			}
		}
		note("%v err=%v opens=%d", took, err, len(s.Op.opens))
	}})
	reg(&Scenario{Prop: "C14", Name: "C14/nil", Run: func() {
		c, err := gozwave.ConnectWithCustomPortOpener("/dev/x", "", nil)
		if c != nil || err == nil {
			fail("connecting without a port opener returned (%v, %v)", c != nil, err)
		}
	}})
	// Connect opens the serial port itself
	reg(&Scenario{Prop: "C14", Name: "C14/serial", Bound: [2]int{1, 2}, Run: func() {
		vs.Exploring(true)
		name := []string{"/dev/ttyACM0", "/dev/ttyUSB7", "COM3", ""}[vs.Choose(4, 0)]
		fails := vs.Choose(3, 0)
		file := files[vs.Choose(len(files), 0)]
		s := newSys(1, 5)
		vos.Cur.Put(cfg, jfile(jnode(5, 0x31)))
		opens := 0
		vserial.Opener = func(c *vserial.Config) (vserial.RWC, error) {
			opens++
			if c.Name != name || c.Baud != 115200 {
				fail("connecting to %q opened %+v, should be that port at 115200 baud", name, *c)
			}
			if fails == 1 && opens == 1 {
				return nil, errOpen
			}
			if fails == 2 && opens > 1 && opens < 4 {
				return nil, errOpen
			}
			r, err := s.Op.Open()
			if err != nil {
				return nil, err
			}
			return r.(vserial.RWC), nil
		}
		var c *gozwave.Controller
		var err error
		returned := false
		vs.GoNamed("connect", func() {
			c, err = gozwave.Connect(name, file)
			returned = true
		})
		if !vs.WaitUntil("connect", 20*time.Second, func() bool { return returned }) {
			fail("connecting never returns: %s", vs.Dump())
		}
		vs.Exploring(false)
		if fails == 1 {
			if c != nil || err == nil || !strings.Contains(err.Error(), errOpen.Error()) {
				fail("the port could not be opened (%v), connecting returned a controller: %v, error %v", errOpen, c != nil, err)
			}
			sleep(20 * time.Second)
			if opens != 1 || len(s.Op.writes) > 0 {
				fail("after an error was returned the port was opened %d times and written %d times", opens-1, len(s.Op.writes))
			}
			return
		}
		if c == nil || err != nil {
			fail("the port was opened, connecting returned a controller: %v, error %v", c != nil, err)
		}
		s.C = c
		ev := s.drain()
		sleep(3 * time.Second)
		if fails == 2 {
			s.Op.Cur().err = errRead
			sleep(8 * time.Second)
			if opens != 4 {
				fail("8s after the port was lost there were %d attempts to open it", opens-1)
			}
		}
		was := ev.updated(5)
		s.Op.Cur().Feed(sensorReport(5, 1, 3))
		sleep(100 * ms)
		if n := c.Nodes.Get(5); n == nil || n.StateFloat["temperature_c"] != 3 || ev.updated(5) != was+1 {
			fail("the controller that was returned is not usable")
		}
	}})
	_ = bytes.Equal
	c15()
}

func c15() {
	capReq := func(id int) string { return string(frame(0, 0x41, byte(id))) }
	// discover starts with saved nodes and a node list and compares.
	discover := func(list, saved []int, judgeEvents bool, explore bool) {
		s := newSys(list...)
		var js []J
		for _, id := range saved {
			js = append(js, jnode(id, 0x25))
		}
		s.handler = func(p *Port, f []byte) bool {
			if len(f) == 6 && f[3] == 0x41 {
				p.FeedAfter(2*ms, ack)
				p.FeedAfter(4*ms, capFrame(0xd3, 0x9c, 0, 4, 0x10, 1))
				return true
			}
			return false
		}
		vos.Cur.Put(cfg, jfile(js...))
		if explore {
			vs.Exploring(true)
		}
		var err error
		s.C, err = gozwave.ConnectWithCustomPortOpener("/dev/x", cfg, s.Op)
		if err != nil {
			fail("setup: %v", err)
		}
		old := s.C.Nodes.All()
		kept := map[int]interface{}{}
		for id, n := range old {
			kept[id] = n
		}
		ev := s.drain()
		wait := 2 * time.Second
		if d := time.Duration(len(list)) * 400 * ms; d > wait {
			wait = d
		}
		sleep(wait)
		vs.Exploring(false)
		expect := map[int]bool{}
		for _, id := range saved {
			expect[id] = true
		}
		asked := map[string]int{}
		for _, w := range s.Op.writes {
			asked[string(w.Data)]++
		}
		isNew := map[int]bool{}
		for _, id := range list {
			if id == 1 {
				continue
			}
			if !expect[id] {
				isNew[id] = true
			}
			expect[id] = true
			n := s.C.Nodes.Get(id)
			if n == nil {
				fail("node %d is in the controller's list %v but was not created", id, list)
			}
			if n.GetID() != id {
				fail("the node found under %d has the id %d", id, n.GetID())
			}
			if asked[capReq(id)] == 0 {
				fail("node %d was never asked for its capabilities (list %v, saved %v)", id, list, saved)
			}
		}
		all := s.C.Nodes.All()
		for id, n := range all {
			if !expect[id] {
				fail("a node %d appeared, the list is %v, saved were %v", id, list, saved)
			}
			if k, ok := kept[id]; ok && k != interface{}(n) {
				fail("node %d was known from the configuration and has been replaced", id)
			}
			if s.C.Nodes.Get(id) != n {
				fail("node %d: listing and looking up return different objects", id)
			}
		}
		if len(all) != len(expect) {
			fail("%d nodes exist, the list is %v, saved were %v", len(all), list, saved)
		}
		for w := range asked {
			if len(w) == 6 && w[3] == 0x41 && !expect[int(w[4])] {
				fail("node %d was asked for its capabilities, the list is %v", w[4], list)
			}
		}
		if judgeEvents {
			for id := range expect {
				want := 1
				if got := ev.discovered(id); got != want {
					fail("%d discovery events for node %d (new: %v), list %v", got, id, isNew[id], list)
				}
			}
			for id := 1; id < 233; id++ {
				if !expect[id] && ev.discovered(id) > 0 {
					fail("a discovery event for node %d, the list is %v", id, list)
				}
			}
		}
		note("%v %v", list, saved)
	}
	reg(&Scenario{Prop: "C15", Name: "C15/single", Run: func() {
		vs.Exploring(true)
		id := 1 + vs.Choose(232, 0)
		with := vs.Choose(2, 0)
		vs.Exploring(false)
		l := []int{id}
		if with == 1 && id != 1 {
			l = []int{1, id}
		}
		discover(l, nil, true, false)
	}})
	reg(&Scenario{Prop: "C15", Name: "C15/subsets", Run: func() {
		ids := []int{1, 2, 3, 8, 9, 232}
		sv := []int{2, 9, 200}
		vs.Exploring(true)
		m, k := vs.Choose(64, 0), vs.Choose(8, 0)
		vs.Exploring(false)
		var l, v []int
		for i, id := range ids {
			if m>>uint(i)&1 == 1 {
				l = append(l, id)
			}
		}
		for i, id := range sv {
			if k>>uint(i)&1 == 1 {
				v = append(v, id)
			}
		}
		discover(l, v, true, false)
	}})
	reg(&Scenario{Prop: "C15", Name: "C15/many", Run: func() {
		vs.Exploring(true)
		n := []int{232, 116, 60, 11}[vs.Choose(4, 0)]
		vs.Exploring(false)
		var l []int
		for i := 1; i <= n; i++ {
			l = append(l, 232/n*i)
		}
		discover(l, []int{2, 58, 116}, false, false)
	}})
	reg(&Scenario{Prop: "C15", Name: "C15/schedule", Bound: [2]int{2, 3}, Fine: true, Run: func() {
		discover([]int{1, 5, 7}, []int{7}, true, true)
	}})
	// the list takes its time
	reg(&Scenario{Prop: "C15", Name: "C15/slow", Run: func() {
		after := []time.Duration{0, 1, 40 * ms, 60 * ms, 300 * ms, 990 * ms, 1100 * ms, 1500 * ms, 2100 * ms, 3 * time.Second, 4 * time.Second, 4800 * ms}
		vs.Exploring(true)
		at := after[vs.Choose(len(after), 0)]
		early := vs.Choose(4, 0) // what arrives meanwhile
		known := vs.Choose(2, 0)
		vs.Exploring(false)
		s := newSys(1, 5)
		s.handler = func(p *Port, f []byte) bool {
			if len(f) == 6 && f[3] == 0x41 {
				p.FeedAfter(2*ms, ack)
				p.FeedAfter(4*ms, capFrame(0xd3, 0x9c, 0, 4, 0x10, 1))
				return true
			}
			if string(f) != listReq {
				return false
			}
			switch early {
			case 0, 1:
				p.FeedAfter(0, ack)
			case 2: // no ACK before the answer
			case 3:
				p.FeedAfter(0, cat(ack, report(9, 0x25, 3, 0xff)))
				p.FeedAfter(at/2, report(5, 0x25, 3, 0xff))
			}
			if early == 1 {
				p.FeedAfter(at/2, capFrame(0xd3, 0x9c, 0, 4, 0x10, 1))
			}
			p.FeedAfter(at, nodeListFrame(1, 5, 7))
			return true
		}
		if known == 1 {
			vos.Cur.Put(cfg, jfile(jnode(7, 0x25)))
		}
		s.connectStart(cfg)
		ev := s.drain()
		sleep(8 * time.Second)
		all := s.C.Nodes.All()
		if len(all) != 2 || all[5] == nil || all[7] == nil {
			fail("the node list 1, 5, 7 arrived %v after it was requested, the nodes are %v", at, keysOf(all))
		}
		for _, id := range []int{5, 7} {
			if ev.discovered(id) != 1 {
				fail("%d discovery events for node %d, the list arrived after %v", ev.discovered(id), id, at)
			}
			if len(s.written(frame(0, 0x41, byte(id)))) == 0 {
				fail("node %d was not asked for its capabilities, the list arrived after %v", id, at)
			}
		}
		if ev.discovered(1)+ev.discovered(9) > 0 {
			fail("a discovery event for a node that is none")
		}
	}})
	// reports of nodes that are not in the list
	reg(&Scenario{Prop: "C15", Name: "C15/strangers", Bound: [2]int{1, 2}, Fine: true, Run: func() {
		from := []byte{1, 9, 2, 6, 232, 0, 255}
		kinds := [][]byte{{0x25, 3, 0xff}, {0x84, 0x07}, {0x71, 0x05, 1, 0xff}, {0x60, 0x08, 0, 2}, {0x72, 0x05, 0, 0x86, 0, 2, 0, 0x4a}, {0x31, 5, 1, 1, 20}, {0x26, 3, 50}}
		vs.Exploring(true)
		who := from[vs.Choose(len(from), 0)]
		k := kinds[vs.Choose(len(kinds), 0)]
		when := vs.Choose(3, 0)
		vs.Exploring(false)
		s := newSys(1, 5)
		s.handler = func(p *Port, f []byte) bool {
			if string(f) == listReq && when == 0 {
				vs.AddTimer(3*ms, func() { vs.Exploring(true) })
				p.FeedAfter(5*ms, cat(report(who, k...), ack, nodeListFrame(1, 5)))
				return true
			}
			return false
		}
		s.connectStart("")
		ev := s.drain()
		sleep(300 * ms)
		vs.Exploring(when == 1)
		if when > 0 {
			s.Op.Cur().Feed(report(who, k...))
		}
		sleep(100 * ms)
		vs.Exploring(false)
		sleep(2 * time.Second)
		if all := s.C.Nodes.All(); len(all) != 1 || all[5] == nil {
			fail("the node list is 1, 5; after a report %x of node %d the nodes are %v", k, who, keysOf(all))
		}
		if s.C.Nodes.Get(int(who)) != nil {
			fail("node %d is not in the node list and can be looked up", who)
		}
		if ev.discovered(int(who))+ev.updated(int(who)) > 0 {
			fail("a report %x of node %d, which is not in the node list, raised an event", k, who)
		}
		if ev.discovered(5) != 1 {
			fail("%d discovery events for node 5", ev.discovered(5))
		}
		for id := 1; id < 233; id++ {
			if id != 5 && len(s.written(frame(0, 0x41, byte(id)))) > 0 {
				fail("node %d, which is not in the node list, was asked for its capabilities", id)
			}
		}
	}})
	// a node can be used as soon as anybody can find it, and is found when its event says so
	reg(&Scenario{Prop: "C15", Name: "C15/found", Bound: [2]int{2, 3}, Fine: true, Run: func() {
		vs.Exploring(true)
		how := vs.Choose(3, 0)
		vs.Exploring(false)
		s := newSys(1, 5)
		s.handler = func(p *Port, f []byte) bool {
			if string(f) == listReq {
				p.FeedAfter(5*ms, ack)
				vs.AddTimer(9*ms, func() { vs.Exploring(true) })
				p.FeedAfter(10*ms, nodeListFrame(1, 5))
				return true
			}
			return false
		}
		s.connectStart("")
		used := 0
		use := func(n *nodes.Node) {
			used++
			n.ProcessEvent(&reports.SwitchBinaryV1{CurrentValue: true})
			n.RequestStates()
			if _, err := n.RequestProtocolInfo(); err == nil {
				fail("the stick did not answer and there are capabilities")
			}
		}
		ch := s.C.GetNextEvent()
		vs.GoNamed("user", func() {
			switch how {
			case 0:
				e := vs.Recv(ch)
				d, ok := e.(events.NodeDiscoverd)
				if !ok || d.Address != 5 {
					fail("the first event is %#v", e)
				}
				n := s.C.Nodes.Get(5)
				if n == nil {
					fail("the discovery event of node 5 was delivered and node 5 cannot be found")
				}
				use(n)
			case 1:
				vs.WaitUntil("answer", time.Second, func() bool { return vs.Now() >= 10*ms })
				for i := 0; i < 30 && used == 0; i++ {
					if n := s.C.Nodes.Get(5); n != nil {
						use(n)
					} else if i > 3 {
						sleep(1 * ms)
					}
				}
			case 2:
				vs.WaitUntil("answer", time.Second, func() bool { return vs.Now() >= 10*ms })
				for i := 0; i < 30 && used == 0; i++ {
					if n := s.C.Nodes.All()[5]; n != nil {
						use(n)
					} else if i > 3 {
						sleep(1 * ms)
					}
				}
			}
		})
		sleep(20 * ms)
		vs.Exploring(false)
		sleep(400 * ms)
		if used == 0 {
			fail("the user did not get to see node 5: %s", vs.Dump())
		}
		n := s.node(5)
		rlocked(n, func() {
			if !n.StateBool["on"] {
				fail("the report that the node processed had no effect")
			}
		})
	}})
	// the list never comes, or is refused: no nodes appear, nothing breaks
	reg(&Scenario{Prop: "C15", Name: "C15/nolist", Run: func() {
		vs.Exploring(true)
		k := vs.Choose(6, 0)
		vs.Exploring(false)
		s := newSys(1, 5)
		s.handler = func(p *Port, f []byte) bool {
			if string(f) != listReq {
				return false
			}
			switch k {
			case 0:
			case 1:
				p.FeedAfter(2*ms, nak)
			case 2:
				p.FeedAfter(2*ms, ack)
				p.FeedAfter(4*ms, frame(1, 0x02, 0x05))
			case 3:
				p.FeedAfter(2*ms, ack)
				p.FeedAfter(6*time.Second, nodeListFrame(1, 5))
			case 4:
				p.FeedAfter(2*ms, ack)
				p.FeedAfter(4*ms, frame(1, 0x02, 0x05, 0x00, 0x03, 0xff, 0xff, 0xff, 0x05, 0))
			case 5:
				p.FeedAfter(2*ms, ack)
				p.FeedAfter(4*ms, nodeListFrame())
			}
			return true
		}
		s.connect("")
		sleep(9 * time.Second)
		if k != 4 {
			if n := len(s.C.Nodes.All()); n != 0 {
				fail("%d nodes appeared without a node list", n)
			}
		}
		later(s)
	}})
}

func keysOf(all map[int]*nodes.Node) []int {
	l := []int{}
	for id := 0; id < 256; id++ {
		if _, ok := all[id]; ok {
			l = append(l, id)
		}
	}
	return l
}
