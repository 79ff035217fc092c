package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/nodes"
	"gzmc/vos"
	"gzmc/vs"
)

// op25 is one use of the library, run in a task of its own.
type op25 struct {
	name string
	f    func(s *Sys, d *dev16)
}

// readNode reads a node's fields like a careful user: under the node's lock.
func readNode(n *nodes.Node) {
	n.RLock()
	_ = n.Brand + n.Product + n.Description
	for _, k := range vs.MapKeys(n.StateBool) {
		vs.MapNext(n.StateBool, k)
	}
	for _, k := range vs.MapKeys(n.StateFloat) {
		vs.MapNext(n.StateFloat, k)
	}
	for _, e := range n.Endpoints {
		_ = e.Id
	}
	for _, c := range n.CommandClasses {
		_ = c.ID
	}
	n.RUnlock()
}

func ops25() []op25 {
	feed := func(f []byte) func(*Sys, *dev16) {
		return func(s *Sys, d *dev16) { s.Op.Cur().Feed(f) }
	}
	return []op25{
		{"list", func(s *Sys, d *dev16) {
			all := s.C.Nodes.All()
			for _, id := range vs.MapKeys(all) {
				if n, ok := vs.MapNext(all, id); ok {
					readNode(n)
				}
			}
		}},
		{"look up", func(s *Sys, d *dev16) {
			readNode(s.C.Nodes.Get(5))
			s.C.Nodes.Get(77)
		}},
		{"report", feed(report(5, 0x26, 3, 44))},
		{"sensor", feed(cat(report(5, 0x31, 5, 1, 1, 20), report(6, 0x31, 5, 1, 1, 20)))},
		{"alarm", feed(report(5, 0x71, 5, 7, 1, 0, 0xff, 7, 2))},
		{"alarms", func(s *Sys, d *dev16) { // overlapping ones, and a report while they are cleared
			a := report(5, 0x71, 5, 7, 1, 0, 0xff, 7, 2)
			s.Op.Cur().Feed(a)
			sleep(300 * ms)
			s.Op.Cur().Feed(a)
			sleep(400 * ms)
			s.Op.Cur().Feed(report(5, 0x26, 3, 44))
			sleep(400 * ms)
			s.Op.Cur().Feed(report(5, 0x26, 3, 45))
		}},
		{"wake-up", feed(report(5, 0x84, 7))},
		{"commands", func(s *Sys, d *dev16) {
			n := s.C.Nodes.Get(5)
			n.On()
			n.Level(20)
			if e := n.Endpoint(1); e != nil {
				e.Off()
			}
		}},
		{"save", func(s *Sys, d *dev16) {
			if err := s.C.SaveConfigurationToFile(); err != nil {
				fail("saving failed: %v", err)
			}
		}},
		{"add", func(s *Sys, d *dev16) { s.C.Nodes.Add(nodes.New(9)) }},
		{"identify", func(s *Sys, d *dev16) { s.C.Nodes.Get(5).Identify() }},
		{"state", func(s *Sys, d *dev16) {
			n := s.C.Nodes.Get(5)
			n.GetID()
			n.HasCommand(0x25)
			n.ProtocolInfo()
			n.IsDeviceClass(0x10, 1)
			n.Endpoint(1)
		}},
		{"read error", func(s *Sys, d *dev16) { s.Op.Cur().err = errRead }},
		{"load", func(s *Sys, d *dev16) { s.C.LoadConfigurationFromFile() }},
		{"request", func(s *Sys, d *dev16) {
			ch, err := s.C.Connection.WriteAndWaitForReport(raw(0x13, 5, 2, 0x25, 2, 0x25), 2*time.Second, 3)
			if err == nil {
				s.Op.Cur().Feed(report(5, 0x25, 3, 0xff))
				vs.Recv2(ch)
			}
		}},
		{"encode", func(s *Sys, d *dev16) {
			if _, err := s.C.Nodes.MarshalJSON(); err != nil {
				fail("encoding the node list failed: %v", err)
			}
		}},
		{"capabilities", func(s *Sys, d *dev16) { s.C.Nodes.Get(5).RequestProtocolInfo() }},
		{"states", func(s *Sys, d *dev16) { s.C.Nodes.Get(5).RequestStates() }},
		{"events", func(s *Sys, d *dev16) {
			for {
				if _, _, ok := vs.TryRecv(s.C.GetNextEvent()); !ok {
					return
				}
			}
		}},
	}
}

func init() {
	ops := ops25()
	var save func(*Sys, *dev16)
	for _, o := range ops {
		if o.name == "save" {
			save = o.f
		}
	}
	// usable checks that everything still works when all is over.
	usable := func(s *Sys, d *dev16, what string) {
		done := false
		vs.GoNamed("afterwards", func() {
			s.C.Nodes.All()
			n := s.C.Nodes.Get(5)
			readNode(n)
			n.On()
			n.GetID()
			s.C.Nodes.Add(nodes.New(10))
			s.C.GetNextEvent()
			if err := s.C.SaveConfigurationToFile(); err != nil {
				fail("%s: saving afterwards failed: %v", what, err)
			}
			done = true
		})
		sleep(20 * time.Second)
		if !done {
			fail("%s: afterwards the library no longer responds: %s", what, vs.Dump())
		}
		s.Op.Cur().Feed(cat(report(5, 0x26, 3, 61), report(5, 0x31, 5, 1, 1, 33)))
		sleep(50 * ms)
		n := s.C.Nodes.Get(5)
		n.RLock()
		l, t := n.StateFloat["level"], n.StateFloat["temperature_c"]
		n.RUnlock()
		if l != 61 || t != 33 {
			fail("%s: afterwards reports are no longer applied (level %v, temperature %v)", what, l, t)
		}
		sleep(15 * time.Second)
		b, _ := vos.Cur.Get(cfg)
		var c struct {
			Nodes map[string]struct{ StateFloat map[string]float64 }
		}
		if err := json.Unmarshal(b, &c); err != nil || c.Nodes["5"].StateFloat["level"] != 61 {
			fail("%s: afterwards updates are no longer saved (%v): %s", what, err, b)
		}
	}
	run := func(k int) func() {
		return func() {
			vs.Exploring(true)
			var p []int
			from := 0
			for i := 0; i < k; i++ {
				from += vs.Choose(len(ops)-from, 0)
				p = append(p, from)
			}
			j := jnode(5, 0x25, 0x26, 0x60)
			if vs.Choose(2, 0) == 1 { // still being identified when it begins
				j["Endpoints"] = nil
				j["is_awake"] = false
			} else {
				j["Endpoints"] = jendpoints(2, 0x25)
			}
			vs.Exploring(false)
			s := newSys(1, 5, 6)
			d, d6 := newDev16(s, 5, devices[0]), newDev16(s, 6, devices[1])
			s.handler = func(p *Port, f []byte) bool { return d.handle(p, f) || d6.handle(p, f) }
			vos.Cur.Put(cfg, jfile(j))
			s.connect(cfg)
			s.ev = s.drain()
			sleep(2 * time.Second)
			vs.Exploring(true)
			what := ""
			done := make([]bool, k)
			for i, x := range p {
				i, x := i, x
				what += ops[x].name + " + "
				vs.GoNamed(ops[x].name, func() { ops[x].f(s, d); done[i] = true })
			}
			what = what[:len(what)-3]
			sleep(50 * ms)
			vs.Exploring(false)
			for i := 0; i < 40; i++ {
				sleep(3 * time.Second)
				if i%2 == 0 {
					s.Op.Cur().Feed(report(5, 0x84, 7)) // a sleeping node wakes up now and then
				}
			}
			for i, x := range p {
				if !done[i] {
					fail("%s: %q does not come to an end: %s", what, ops[x].name, vs.Dump())
				}
			}
			usable(s, d, what)
			note("%s %d", what, len(s.Op.writes))
		}
	}
	reg(&Scenario{Prop: "C25", Name: "C25/pairs", Bound: [2]int{1, 2}, Run: run(2)})
	reg(&Scenario{Prop: "C25", Name: "C25/fine", Bound: [2]int{0, 1}, Fine: true, Run: run(2)})
	reg(&Scenario{Prop: "C25", Name: "C25/triples", Bound: [2]int{0, 1}, Run: run(3)})
	// during the startup
	reg(&Scenario{Prop: "C25", Name: "C25/startup", Bound: [2]int{1, 2}, Run: func() {
		s := newSys(1, 5, 6)
		d, d6 := newDev16(s, 5, devices[0]), newDev16(s, 6, devices[1])
		s.handler = func(p *Port, f []byte) bool { return d.handle(p, f) || d6.handle(p, f) }
		vos.Cur.Put(cfg, jfile(jnode(5, 0x25), jnode(7, 0x26)))
		vs.Exploring(true)
		k := vs.Choose(6, 0)
		s.connectStart(cfg)
		s.ev = s.drain()
		done := false
		vs.GoNamed("user", func() {
			for i := 0; i < 3; i++ {
				switch k {
				case 0:
					ops[0].f(s, d)
				case 1:
					s.Op.Cur().Feed(cat(report(5, 0x26, 3, 44), report(6, 0x26, 3, 44), report(7, 0x31, 5, 1, 1, 20)))
				case 2:
					save(s, d)
				case 3:
					s.C.Nodes.Add(nodes.New(20 + i))
				case 4:
					s.C.Nodes.MarshalJSON()
					s.Op.Cur().Feed(report(6, 0x26, 3, 44))
				case 5:
					if n := s.C.Nodes.Get(6); n != nil {
						readNode(n)
						n.HasCommand(0x25)
						n.IsDeviceClass(0x10, 1)
					}
				}
				sleep(4 * ms)
			}
			done = true
		})
		sleep(300 * ms)
		vs.Exploring(false)
		sleep(30 * time.Second)
		if !done {
			fail("during startup %d does not come to an end: %s", k, vs.Dump())
		}
		usable(s, d, fmt.Sprintf("startup %d", k))
	}})
	// the automatic save, while reports arrive
	reg(&Scenario{Prop: "C25", Name: "C25/autosave", Bound: [2]int{1, 2}, Fine: true, Run: func() {
		s := startWith(jnode(5, 0x25), jnode(6, 0x26), jnode(7, 0x26))
		vs.Exploring(true)
		k := vs.Choose(3, 0)
		who := vs.Choose(3, 0)
		vs.Exploring(false)
		begin := now()
		s.Op.Cur().Feed(report(5, 0x26, 3, 11))
		sleep(10*time.Second - 5*ms - (now() - begin))
		vs.Exploring(true)
		left := 3
		vs.GoNamed("reader", func() { // the save has to wait for this one
			n := s.node(5)
			n.RLock()
			x := n.Brand
			n.RUnlock()
			n.Lock()
			n.Brand = x
			sleep(10 * ms)
			n.Unlock()
			left--
		})
		for i := 0; i < 2; i++ {
			id := 5 + (who+i)%3
			vs.GoNamed("update", func() {
				sleep(8 * ms)
				switch k {
				case 0:
					s.node(id).ProcessEvent(&reports.SwitchBinaryV1{CurrentValue: true})
				case 1:
					s.Op.Cur().Feed(report(byte(id), 0x26, 3, 12))
				case 2:
					s.Op.Cur().Feed(report(byte(id), 0x71, 5, 7, 1, 0, 0xff, 7, 2))
				}
				left--
			})
		}
		sleep(20 * ms)
		vs.Exploring(false)
		sleep(5 * time.Second)
		if left > 0 {
			fail("a report during a save does not come to an end: %s", vs.Dump())
		}
		usable(s, nil, "autosave")
	}})
	// operations while a report is on its way, or another operation has begun
	aligned := func(first, others []string, second int) func() {
		return func() {
			vs.Exploring(true)
			a := first[vs.Choose(len(first), 0)]
			var l []string
			var at []int
			from := 0
			for i := 0; i < second; i++ {
				from += vs.Choose(len(others)-from, 0)
				l, at = append(l, others[from]), append(at, vs.Choose(4, 0))
			}
			vs.Exploring(false)
			var s *Sys
			if second > 1 {
				s = startWith(jnode(5, 0x25, 0x26), jnode(6, 0x26))
			} else { // identified
				s = newSys(1, 5, 6)
				d, d6 := newDev16(s, 5, devices[0]), newDev16(s, 6, devices[1])
				s.handler = func(p *Port, f []byte) bool { return d.handle(p, f) || d6.handle(p, f) }
				s.connect(cfg)
				vos.Cur.Put(cfg, jfile(jnode(6, 0x26), jnode(7, 0x25)))
				sleep(20 * time.Second)
			}
			s.ev = s.drain()
			left := 1 + second
			task := func(name string, passes int) {
				vs.GoNamed(name, func() {
					for ; passes > 0; passes-- {
						vs.Pass()
					}
					vs.Exploring(true)
					for _, o := range ops {
						if o.name == name {
							o.f(s, nil)
						}
					}
					left--
				})
			}
			task(a, 0)
			for i, x := range l {
				task(x, at[i])
			}
			sleep(50 * ms)
			vs.Exploring(false)
			sleep(5 * time.Second)
			if left > 0 {
				fail("%s + %s: %d of the operations did not come to an end: %s", a, strings.Join(l, " + "), left, vs.Dump())
			}
			n := 0
			vs.GoNamed("afterwards", func() {
				s.C.Nodes.Add(nodes.New(10))
				for _, id := range []int{5, 6} {
					x := s.C.Nodes.Get(id)
					x.Lock()
					x.Unlock()
				}
				n++
			})
			s.Op.Cur().Feed(report(5, 0x26, 3, 61))
			sleep(time.Second)
			if n == 0 || s.node(5).StateFloat["level"] != 61 {
				fail("%s + %s: afterwards the library no longer works: %s", a, strings.Join(l, " + "), vs.Dump())
			}
		}
	}
	reg(&Scenario{Prop: "C25", Name: "C25/aligned", Bound: [2]int{1, 2}, Fine: true, Run: aligned([]string{"report", "sensor", "add", "load", "look up"}, []string{"list", "look up", "report", "commands", "add", "state", "encode", "save", "load"}, 1)})
	reg(&Scenario{Prop: "C25", Name: "C25/three", Bound: [2]int{1, 2}, Fine: true, Run: aligned([]string{"report"}, []string{"look up", "add", "encode", "state"}, 2)})
	// two readers of the list and a writer waiting for it: the classic lock order inversion
	reg(&Scenario{Prop: "C25", Name: "C25/locks", Bound: [2]int{2, 3}, Fine: true, Run: func() {
		s := startWith(jnode(5, 0x25), jnode(6, 0x26))
		n := s.node(5)
		vs.Exploring(true)
		sel := vs.Choose(5, 0)
		left := 4
		task := func(name string, f func()) { vs.GoNamed(name, func() { f(); left-- }) }
		task("list", func() { ops[0].f(s, nil) })
		task("write", func() {
			n.Lock()
			n.Description = "x"
			n.Unlock()
		})
		task("add", func() { s.C.Nodes.Add(n) })
		task("other", func() {
			switch sel {
			case 0:
				s.C.Nodes.Get(5)
			case 1:
				s.C.Nodes.MarshalJSON()
			case 2:
				n.HasCommand(0x25)
			case 3:
				s.Op.Cur().Feed(cat(report(5, 0x26, 3, 3), report(6, 0x26, 3, 4)))
			case 4:
				n.Endpoint(1)
			}
		})
		sleep(time.Second)
		vs.Exploring(false)
		if left > 0 {
			fail("%d of the operations did not come to an end: %s", left, vs.Dump())
		}
		usable(s, nil, "locks")
	}})
}
