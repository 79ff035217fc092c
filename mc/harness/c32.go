package main

import (
	"time"

	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/nodes"
	"github.com/stampzilla/gozwave/serialrecorder"
	"gzmc/vos"
	"gzmc/vs"
	"gzmc/vserial"
)

// C32: no two accesses to a field or package variable, one of them a write, are unordered. Accesses
// are recorded with vector clocks, so a race shows in any execution that contains both accesses,
// whatever their order in it.

// read32 reads a node like a careful user: under the node's lock.
func read32(n *nodes.Node) {
	n.RLock()
	vs.Rd(&n.IsAwake)
	vs.Rd(&n.Brand)
	vs.Rd(&n.Product)
	vs.Rd(&n.Description)
	vs.Rd(&n.ManufacurerSpecific)
	for _, e := range vs.Rd(&n.Endpoints) {
		vs.Rd(&e.Id)
		vs.Rd(&e.CommandClasses)
	}
	for _, c := range vs.Rd(&n.CommandClasses) {
		vs.Rd(&c.ID)
	}
	for _, k := range vs.MapKeys(n.StateBool) {
		vs.MapNext(n.StateBool, k)
	}
	for _, k := range vs.MapKeys(n.StateFloat) {
		vs.MapNext(n.StateFloat, k)
	}
	n.RUnlock()
}

func ops32() []op25 {
	node := func(f func(n *nodes.Node)) func(*Sys, *dev16) {
		return func(s *Sys, d *dev16) {
			if n := s.C.Nodes.Get(5); n != nil {
				f(n)
			}
		}
	}
	var ops []op25
	for _, o := range ops25() { // these need node 5 to be there
		f := o.f
		ops = append(ops, op25{o.name, func(s *Sys, d *dev16) {
			vs.WaitUntil("node", time.Second, func() bool { return d == nil || len(d.frames) > 0 })
			if s.C.Nodes.Get(5) != nil {
				f(s, d)
			}
		}})
	}
	return append(ops,
		op25{"read", node(read32)},
		op25{"read all", func(s *Sys, d *dev16) {
			all := s.C.Nodes.All()
			for _, id := range vs.MapKeys(all) {
				if n, ok := vs.MapNext(all, id); ok {
					read32(n)
				}
			}
		}},
		op25{"connected", func(s *Sys, d *dev16) {
			for i := 0; i < 3; i++ {
				s.C.Connection.RLock()
				vs.Rd(&s.C.Connection.Connected)
				s.C.Connection.RUnlock()
				sleep(100 * ms)
			}
		}},
		op25{"switch", node(func(n *nodes.Node) {
			for i := 0; i < 4; i++ {
				n.On()
				n.Off()
				n.Level(33)
				sleep(30 * ms)
			}
		})},
		op25{"switch endpoints", node(func(n *nodes.Node) {
			for i := 0; i < 8; i++ {
				for k := 0; k < 3; k++ {
					if e := n.Endpoint(k); e != nil {
						e.On()
						e.Level(12)
					}
				}
				sleep(60 * ms)
			}
		})},
		op25{"manufacturer", node(func(n *nodes.Node) { n.RequestManufacturerSpecific() })},
		op25{"endpoints", node(func(n *nodes.Node) { n.RequestEndpoints() })},
		op25{"reports", func(s *Sys, d *dev16) {
			for _, f := range [][]byte{report(5, 0x25, 3, 0xff), report(5, 0x26, 3, 44), sensorReport(5, 1, 0x31), report(5, 0x71, 5, 7, 1, 0, 0xff, 7, 2), report(5, 0x84, 7)} {
				s.Op.Cur().Feed(f)
			}
		}},
		op25{"process", node(func(n *nodes.Node) {
			n.ProcessEvent(&reports.SwitchMultilevelV1{CurrentValue: 3})
			n.ProcessEvent(&reports.WakeUp{})
		})},
	)
}

func init() {
	ops := ops32()
	run := func(k int) func() {
		return func() {
			vs.Exploring(true)
			var p []int
			from := 0
			for i := 0; i < k; i++ {
				from += vs.Choose(len(ops)-from, 0)
				p = append(p, from)
			}
			stage := vs.Choose(4, 0)
			vs.Exploring(false)
			s := newSys(1, 5, 6)
			d, d6 := newDev16(s, 5, devices[0]), newDev16(s, 6, devices[1])
			s.handler = func(p *Port, f []byte) bool { return d.handle(p, f) || d6.handle(p, f) }
			j := jnode(5, 0x25, 0x26, 0x60)
			j["Endpoints"] = jendpoints(2, 0x25)
			switch stage {
			case 1: // being identified
				j["Endpoints"] = nil
				j["is_awake"] = false
			case 2, 3: // new
				j = jnode(7, 0x25)
			}
			vos.Cur.Put(cfg, jfile(j))
			s.connectStart(cfg)
			s.ev = s.drain()
			if stage < 3 {
				sleep(2 * time.Second)
				if stage == 2 {
					d.frames = nil
				}
			}
			vs.Exploring(true)
			what := ""
			done := make([]bool, k)
			for i, x := range p {
				i, x := i, x
				what += ops[x].name + " + "
				vs.GoNamed(ops[x].name, func() { ops[x].f(s, d); done[i] = true })
			}
			sleep(30 * ms)
			vs.Exploring(false)
			for i := 0; i < 6; i++ {
				sleep(3 * time.Second)
				s.Op.Cur().Feed(report(5, 0x84, 7))
			}
			note("%s %d", what, len(s.Op.writes))
		}
	}
	reg(&Scenario{Prop: "C32", Name: "C32/pairs", Bound: [2]int{0, 1}, Fine: true, Races: true, Run: run(2)})
	reg(&Scenario{Prop: "C32", Name: "C32/triples", Tier: 1, Bound: [2]int{0, 0}, Fine: true, Races: true, Run: run(3)})
	// the history operations: requests of every fate
	reg(&Scenario{Prop: "C32", Name: "C32/requests", Bound: [2]int{0, 1}, Fine: true, Races: true, Run: func() {
		ops := ops31()
		s := sys31(ops)
		vs.Exploring(true)
		a := vs.Choose(len(ops), 0)
		b := a + vs.Choose(len(ops)-a, 0)
		ops[a].f(s)
		ops[b].f(s)
		sleep(30 * ms)
		vs.Exploring(false)
		sleep(4 * time.Second)
		ops[b].f(s)
		ops[a].f(s)
		sleep(15 * time.Second)
		note("%s, %s %d", ops[a].name, ops[b].name, len(s.Op.writes))
	}})
	// two controllers in one process
	reg(&Scenario{Prop: "C32", Name: "C32/two", Bound: [2]int{0, 1}, Fine: true, Races: true, Run: func() {
		vs.Exploring(true)
		a, b := vs.Choose(len(ops), 0), vs.Choose(len(ops), 0)
		vs.Exploring(false)
		s, o := newSys(1, 5, 6), newSys(1, 5)
		for _, x := range []*Sys{s, o} {
			d, d6 := newDev16(x, 5, devices[0]), newDev16(x, 6, devices[1])
			x.handler = func(p *Port, f []byte) bool { return d.handle(p, f) || d6.handle(p, f) }
		}
		vos.Cur = vos.NewFS()
		s.connectStart(cfg)
		o.connectStart("/cfg/other.json")
		s.ev, o.ev = s.drain(), o.drain()
		vs.Exploring(true)
		vs.GoNamed("first", func() { sleep(40 * ms); ops[a].f(s, nil) })
		vs.GoNamed("second", func() { sleep(40 * ms); ops[b].f(o, nil) })
		sleep(70 * ms)
		vs.Exploring(false)
		sleep(15 * time.Second)
		note("%s | %s", ops[a].name, ops[b].name)
	}})
	// a node identified twice at once, from the beginning
	reg(&Scenario{Prop: "C32", Name: "C32/identify", Bound: [2]int{2, 2}, Fine: true, Races: true, Run: func() {
		s := newSys(1, 5)
		d := newDev16(s, 5, devices[0])
		s.handler = d.handle
		s.connectStart("")
		s.ev = s.drain()
		vs.WaitUntil("node", time.Second, func() bool { return len(d.frames) > 0 })
		n := s.node(5)
		vs.Exploring(true)
		if k := []string{"", "capabilities", "manufacturer", "endpoints"}[vs.Choose(4, 0)]; k != "" { // when the answer arrives
			vs.Exploring(false)
			vs.WaitUntil("asked", time.Second, func() bool { return d.asked[k] > 0 })
			sleep(19 * ms)
			vs.Exploring(true)
			sleep(ms)
		}
		vs.GoNamed("identify", func() { n.Identify() })
		sleep(5 * ms)
		vs.Exploring(false)
		sleep(15 * time.Second)
	}})
	// the recorder: read, written, reopened and closed
	reg(&Scenario{Prop: "C32", Name: "C32/recorder", Bound: [2]int{1, 2}, Fine: true, Races: true, Run: func() {
		vs.Exploring(true)
		reopen := vs.Choose(3, 0)
		var rows []row28
		calls := 0
		rec := serialrecorder.New("/dev/rec", 115200)
		rec.Logger = &slowLog{}
		p := &raw28{wn: -1, rn: 3, rows: &rows, calls: &calls, next: 1}
		vserial.Opener = func(*vserial.Config) (vserial.RWC, error) { return p, nil }
		h, _ := rec.Open()
		vs.GoNamed("read", func() {
			buf := make([]byte, 4)
			for i := 0; i < 3; i++ {
				h.Read(buf)
			}
		})
		vs.GoNamed("write", func() {
			for i := 0; i < 3; i++ {
				h.Write([]byte{1, 2, 3})
			}
		})
		vs.GoNamed("reopen", func() {
			if reopen > 0 {
				vserial.Opener = func(*vserial.Config) (vserial.RWC, error) { return p, nil }
				rec.Open()
			}
			if reopen > 1 {
				h.Close()
			}
		})
		sleep(2 * time.Second)
	}})
	// the library through the recorder, losing the port
	reg(&Scenario{Prop: "C32", Name: "C32/recorded", Bound: [2]int{0, 1}, Fine: true, Races: true, Run: func() {
		s := newSys()
		s.recorder = true
		n := jnode(5, 0x25, 0x26)
		vos.Cur.Put(cfg, jfile(n))
		s.connect(cfg)
		s.ev = s.drain()
		vs.Exploring(true)
		at := []time.Duration{900 * ms, 999 * ms, time.Second, 1001 * ms, 1100 * ms}[vs.Choose(5, 0)]
		s.Op.Cur().err = errRead
		vs.GoNamed("switch", func() {
			sleep(at)
			s.node(5).On()
			s.node(5).Level(7)
		})
		sleep(1200 * ms)
		vs.Exploring(false)
		sleep(5 * time.Second)
	}})
}
