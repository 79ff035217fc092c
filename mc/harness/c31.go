package main

import (
	"bytes"
	"time"

	"github.com/stampzilla/gozwave/commands/reports"
	"gzmc/vos"
	"gzmc/vs"
)

// C31: nothing accumulates. A history is repeated; after each time, when all of it has ended, the
// goroutines, the timers and the data of the controller are counted. Each must stop growing.

// held is what is there when everything has come to rest.
type held struct{ tasks, timers, size int }

type op31 struct {
	name string
	f    func(s *Sys)
	on   func(p *Port, f []byte) // what the stick does with the frame of this request
}

// get31 is the frame of the request of an operation: a binary switch get to a node of its own.
func get31(id byte) []byte { return []byte{0x13, id, 2, 0x25, 2, 0x25} }

func ops31() []op31 {
	acked := func(p *Port) { p.FeedAfter(5*ms, ack) }
	answer := func(p *Port, f []byte, after time.Duration) { p.FeedAfter(after, report(f[4], 0x25, 3, 0xff)) }
	var ops []op31
	request := func(name string, f func(s *Sys, payload []byte), on func(p *Port, f []byte)) {
		id := byte(40 + len(ops))
		ops = append(ops, op31{name, func(s *Sys) { f(s, get31(id)) }, on})
	}
	ask := func(s *Sys, b []byte) { s.ask("request", 2*time.Second, 3, b...) }
	write := func(s *Sys, b []byte) { s.command("command", b...) }
	untaken := func(s *Sys, b []byte) {
		vs.GoNamed("untaken", func() { s.C.Connection.WriteAndWaitForReport(raw(b...), 2*time.Second, 3) })
	}
	untakenMsg := func(s *Sys, b []byte) {
		vs.GoNamed("untaken", func() { s.C.Connection.WriteWithTimeout(raw(b...), 2*time.Second) })
	}
	request("answered request", ask, func(p *Port, f []byte) { acked(p); answer(p, f, 20*ms) })
	request("request answered without an ACK", ask, func(p *Port, f []byte) { answer(p, f, 20*ms) })
	request("unanswered request", ask, func(p *Port, f []byte) { acked(p) })
	request("request nobody heard", ask, func(p *Port, f []byte) {})
	request("refused request", ask, func(p *Port, f []byte) { p.FeedAfter(5*ms, nak) })
	n := 0
	request("collided request", ask, func(p *Port, f []byte) {
		if n++; n%2 == 1 {
			p.FeedAfter(5*ms, can)
			return
		}
		acked(p)
		answer(p, f, 20*ms)
	})
	m := 0
	request("request answered in the collision", ask, func(p *Port, f []byte) {
		if m++; m%2 == 1 {
			p.FeedAfter(5*ms, cat(can, report(f[4], 0x25, 3, 0)))
			return
		}
		acked(p)
	})
	k := 0
	request("request refused after a collision", ask, func(p *Port, f []byte) {
		if k++; k%2 == 1 {
			p.FeedAfter(5*ms, can)
			return
		}
		p.FeedAfter(5*ms, nak)
	})
	request("request answered too late", ask, func(p *Port, f []byte) { acked(p); answer(p, f, 2500*ms) })
	request("request answered undecodably", ask, func(p *Port, f []byte) {
		acked(p)
		p.FeedAfter(20*ms, report(f[4], 0x25, 3))
	})
	request("request answered twice", ask, func(p *Port, f []byte) {
		acked(p)
		answer(p, f, 20*ms)
		answer(p, f, 40*ms)
	})
	request("query", func(s *Sys, b []byte) { s.query("query", 2*time.Second, b...) }, func(p *Port, f []byte) { acked(p); answer(p, f, 20*ms) })
	request("unanswered query", func(s *Sys, b []byte) { s.query("query", 2*time.Second, b...) }, func(p *Port, f []byte) { acked(p) })
	request("request with an untaken answer", untaken, func(p *Port, f []byte) { acked(p); answer(p, f, 20*ms) })
	request("untaken unanswered request", untaken, func(p *Port, f []byte) { acked(p) })
	request("query with an untaken answer", untakenMsg, func(p *Port, f []byte) { acked(p); answer(p, f, 20*ms) })
	request("command", write, func(p *Port, f []byte) { acked(p) })
	request("command nobody heard", write, func(p *Port, f []byte) {})
	request("refused command", write, func(p *Port, f []byte) { p.FeedAfter(5*ms, nak) })
	c := 0
	request("collided command", write, func(p *Port, f []byte) {
		if c++; c%2 == 1 {
			p.FeedAfter(5*ms, can)
			return
		}
		acked(p)
	})
	request("command and loss of the port", write, func(p *Port, f []byte) {
		vs.AddTimer(30*ms, func() { p.err = errRead })
	})
	request("request and loss of the port", ask, func(p *Port, f []byte) {
		vs.AddTimer(30*ms, func() { p.err = errRead })
	})
	request("switch", func(s *Sys, b []byte) {
		vs.GoNamed("switch", func() {
			s.node(5).On()
			for i := 1; i <= 2; i++ {
				if e := s.node(5).Endpoint(i); e != nil {
					e.On()
				}
			}
		})
	}, nil)
	ops = append(ops, op31{"request with another kind of answer", func(s *Sys) { s.ask("request", 2*time.Second, 0, 0x02) }, nil})
	feed := func(name string, b ...[]byte) {
		ops = append(ops, op31{name, func(s *Sys) {
			vs.WaitUntil("port", 5*time.Second, func() bool { return !s.Op.Cur().closed })
			for _, x := range b {
				s.Op.Cur().Feed(x)
			}
		}, nil})
	}
	feed("level report", report(5, 0x26, 3, 44))
	feed("sensor reports", sensorReport(5, 1, 0x31), sensorReport(5, 3, 0x10))
	feed("alarm", report(5, 0x71, 5, 7, 1, 0, 0xff, 7, 2))
	feed("alarms", report(5, 0x71, 5, 7, 1, 0, 0xff, 7, 2), report(5, 0x71, 5, 8, 1, 0, 0xff, 7, 2))
	feed("wake-up", report(5, 0x84, 7))
	feed("report of an unlisted node", report(99, 0x25, 3, 0xff))
	feed("noise", []byte{0x77, 0x15, 0x99, 0x18, 0x06, 0x02})
	feed("incomplete frame", report(5, 0x26, 3, 44)[:6])
	feed("node list", nodeListFrame(1, 5))
	// other contents each time
	round := 0
	other := func(name string, f func(s *Sys, v int)) {
		ops = append(ops, op31{name, func(s *Sys) { round++; f(s, 0x0123+round*0x0107) }, nil})
	}
	other("other sensor values", func(s *Sys, v int) {
		vs.WaitUntil("port", 5*time.Second, func() bool { return !s.Op.Cur().closed })
		s.Op.Cur().Feed(sensorReport(5, 1, v))
	})
	other("other noise", func(s *Sys, v int) {
		vs.WaitUntil("port", 5*time.Second, func() bool { return !s.Op.Cur().closed })
		s.Op.Cur().Feed([]byte{0x01, 0x04, byte(v), byte(v >> 8), 0x77})
	})
	other("other commands", func(s *Sys, v int) {
		s.command("command", 0x13, 9, 4, 0x70, byte(v), byte(v>>8), 0x25)
		s.ask("request", 2*time.Second, 6, 0x13, 9, 4, 0x70, 5, byte(v), byte(v>>8), 0x25)
	})
	ops = append(ops,
		op31{"save", func(s *Sys) { vs.GoNamed("save", func() { s.C.SaveConfigurationToFile() }) }, nil},
		op31{"load", func(s *Sys) { vs.GoNamed("load", func() { s.C.LoadConfigurationFromFile() }) }, nil},
		op31{"identify", func(s *Sys) { vs.GoNamed("identify", func() { s.node(5).Identify() }) }, nil},
		op31{"list", func(s *Sys) { s.C.Nodes.All(); s.C.Nodes.Get(5); s.C.Nodes.Get(77) }, nil},
		op31{"wake-up call", func(s *Sys) { vs.GoNamed("wake", func() { s.node(5).ProcessEvent(&reports.WakeUp{}) }) }, nil},
	)
	return ops
}

// sys31 is a controller with one known node and a stick that does what the operations say.
func sys31(ops []op31, list ...int) *Sys {
	s := newSys(list...)
	n := jnode(5, 0x25, 0x26, 0x31, 0x60, 0x71)
	n["Endpoints"] = jendpoints(2, 0x25)
	vos.Cur.Put(cfg, jfile(n))
	s.handler = stick31(ops)
	s.connect(cfg)
	s.ev = s.drain()
	return s
}

func stick31(ops []op31) func(p *Port, f []byte) bool {
	return func(p *Port, f []byte) bool {
		if len(f) == 6 && f[3] == 0x41 && f[4] == 5 {
			p.FeedAfter(5*ms, ack)
			p.FeedAfter(20*ms, capFrame(0xd3, 0x9c, 0, 4, 0x11, 1))
			return true
		}
		if len(f) > 8 && bytes.Equal(f[3:len(f)-1], get31(f[4])) && int(f[4])-40 >= 0 && int(f[4])-40 < len(ops) {
			if on := ops[f[4]-40].on; on != nil {
				on(p, f)
				return true
			}
		}
		return false
	}
}

// unsaved31 is the same without a configuration file: the node has been discovered and identified.
func unsaved31(ops []op31) *Sys {
	s, h := newSys(1, 5), stick31(ops)
	d := newDev16(s, 5, devices[1])
	s.handler = func(p *Port, f []byte) bool { return d.handle(p, f) || h(p, f) }
	s.connect("")
	s.ev = s.drain()
	return s
}

func (s *Sys) held() held {
	n, _ := vs.Live(func(string) bool { return true })
	return held{n, vs.Timers(), vs.Size(s.C)}
}

// settles judges a series of measurements: none may still be growing at the end.
func settles(what string, l []held) {
	l = l[len(l)-4:]
	grows := func(f func(held) int) bool {
		for i := 1; i < len(l); i++ {
			if f(l[i]) <= f(l[i-1]) {
				return false
			}
		}
		return true
	}
	_, tasks := vs.Live(func(string) bool { return true })
	for _, x := range []struct {
		name string
		f    func(held) int
	}{
		{"goroutines", func(h held) int { return h.tasks }},
		{"timers", func(h held) int { return h.timers }},
		{"data", func(h held) int { return h.size }},
	} {
		if grows(x.f) {
			fail("%s: the %s of the controller grow each time: %d, %d, %d, %d (still there: %s)", what, x.name, x.f(l[0]), x.f(l[1]), x.f(l[2]), x.f(l[3]), tasks)
		}
	}
}

func init() {
	gaps := []time.Duration{0, 60 * ms, 1100 * ms}
	histories := func(length int) func() {
		return func() {
			ops := ops31()
			vs.Exploring(true)
			var s *Sys
			what := ""
			if length > 2 || vs.Choose(2, 0) == 0 {
				vs.Exploring(false)
				s = sys31(ops)
			} else {
				vs.Exploring(false)
				s = unsaved31(ops)
				what = "without a configuration file: "
			}
			sleep(20 * time.Second)
			vs.Exploring(true)
			var h []op31
			gap := gaps[vs.Choose(len(gaps), 0)]
			for i := 0; i < length; i++ {
				o := ops[vs.Choose(len(ops), 0)]
				h = append(h, o)
				if i > 0 {
					what += ", "
				}
				what += o.name
			}
			vs.Exploring(false)
			var l []held
			for r := 0; r < 6; r++ {
				for _, o := range h {
					o.f(s)
					sleep(gap)
				}
				sleep(25 * time.Second)
				l = append(l, s.held())
			}
			settles(what, l)
			note("%v", l[5])
		}
	}
	reg(&Scenario{Prop: "C31", Name: "C31/pairs", Bound: [2]int{0, 0}, Run: histories(2)})
	reg(&Scenario{Prop: "C31", Name: "C31/triples", Tier: 1, Bound: [2]int{0, 0}, Run: histories(3)})

	// what is left behind after a race, on every schedule
	reg(&Scenario{Prop: "C31", Name: "C31/schedules", Bound: [2]int{1, 2}, Run: func() {
		ops := ops31()
		s := sys31(ops)
		sleep(20 * time.Second)
		vs.Exploring(true)
		a := vs.Choose(len(ops), 0)
		b := vs.Choose(len(ops), 0)
		vs.Exploring(false)
		if b < a {
			return
		}
		play := func() {
			ops[a].f(s)
			ops[b].f(s)
			sleep(200 * ms)
		}
		// what is started when it is needed for the first time is there from now on
		for _, o := range ops {
			switch o.name {
			case "level report", "answered request", "save", "command and loss of the port":
				o.f(s)
				sleep(200 * ms)
			}
		}
		sleep(25 * time.Second)
		var l []held
		for r := 0; r < 4; r++ {
			vs.Exploring(r == 2)
			play()
			vs.Exploring(false)
			sleep(25 * time.Second)
			l = append(l, s.held())
		}
		if l[2].tasks > l[1].tasks && l[3].tasks > l[1].tasks {
			_, tasks := vs.Live(func(string) bool { return true })
			fail("%s, %s at once: %d goroutines are left behind: %d before, %d and %d after (still there: %s)", ops[a].name, ops[b].name, l[2].tasks-l[1].tasks, l[1].tasks, l[2].tasks, l[3].tasks, tasks)
		}
		note("%v", l[3])
	}})

	// nodes that never answer, or never wake up, for days
	reg(&Scenario{Prop: "C31", Name: "C31/unreachable", Bound: [2]int{0, 0}, Run: func() {
		vs.Exploring(true)
		kind := vs.Choose(4, 0)
		losses := vs.Choose(2, 0) == 1
		vs.Exploring(false)
		s := newSys(1, 5, 6)
		d := newDev16(s, 5, devices[0])
		e := newDev16(s, 6, sleeper)
		switch kind {
		case 0: // nobody answers anything
			d.misbehave = func(string, int) int { return mNothing }
			e.misbehave = d.misbehave
		case 1: // capabilities only
			d.misbehave = func(k string, n int) int {
				if k == "capabilities" {
					return mAnswer
				}
				return mAckOnly
			}
			e.misbehave = d.misbehave
		case 2: // refused
			d.misbehave = func(string, int) int { return mNak }
			e.misbehave = d.misbehave
		case 3: // answered wrongly
			d.misbehave = func(string, int) int { return mWrongReport }
			e.misbehave = d.misbehave
		}
		s.handler = func(p *Port, f []byte) bool { return d.handle(p, f) || e.handle(p, f) }
		s.connect("")
		s.ev = s.drain()
		var l []held
		for w := 0; w < 6; w++ {
			if losses {
				s.Op.Cur().err = errRead
			}
			least := held{1 << 30, 1 << 30, 1 << 30}
			for i := 0; i < 300; i++ {
				sleep(time.Second)
				s.ev.reset()
				h := s.held()
				least = held{min(least.tasks, h.tasks), min(least.timers, h.timers), min(least.size, h.size)}
			}
			l = append(l, least)
		}
		settles("nodes that cannot be identified", l)
		note("%v", l)
	}})
}
