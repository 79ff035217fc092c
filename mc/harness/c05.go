package main

import (
	"bytes"
	"fmt"
	"math"
	"time"

	"github.com/stampzilla/gozwave/commands"
	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/database"
	"github.com/stampzilla/gozwave/interfaces"
	"github.com/stampzilla/gozwave/nodes"
	"github.com/stampzilla/gozwave/serialapi"
	"gzmc/vos"
	"gzmc/vs"
)

// fakeWriter records what is handed to the connection.
type fakeWriter struct{ sent [][]byte }

func (w *fakeWriter) Write(m interfaces.Encodable) error {
	w.sent = append(w.sent, append([]byte(nil), m.Encode()...))
	return nil
}
func (w *fakeWriter) WriteWithTimeout(m interfaces.Encodable, t time.Duration) (<-chan *serialapi.Message, error) {
	w.sent = append(w.sent, append([]byte(nil), m.Encode()...))
	return nil, fmt.Errorf("fake")
}
func (w *fakeWriter) WriteAndWaitForReport(m interfaces.Encodable, t time.Duration, er byte) (<-chan reports.Report, error) {
	w.sent = append(w.sent, append([]byte(nil), m.Encode()...))
	return nil, fmt.Errorf("fake")
}

func classes(ids ...byte) []*database.CommandClass {
	var l []*database.CommandClass
	for _, i := range ids {
		l = append(l, &database.CommandClass{ID: commands.ZWaveCommand(i)})
	}
	return l
}

// wantCmd computes the payload an operation must send; nil: nothing.
func wantCmd(cls []byte, id int, op string, level float64) []byte {
	has := func(c byte) bool { return bytes.IndexByte(cls, c) >= 0 }
	lv := func() byte {
		switch {
		case op == "On":
			return 99
		case op == "Off" || level < 1:
			return 0
		case level > 99:
			return 99
		}
		return byte(math.Floor(level))
	}
	switch {
	case op != "Level" && has(0x25):
		v := byte(0)
		if op == "On" {
			v = 0xff
		}
		return []byte{0x13, byte(id), 3, 0x25, 1, v, 0x25}
	case has(0x26):
		return []byte{0x13, byte(id), 3, 0x26, 1, lv(), 0x25}
	}
	return nil
}

func wrapEp(p []byte, ep int) []byte {
	if p == nil {
		return nil
	}
	return append([]byte{p[0], p[1], p[2] + 4, 0x60, 0x0d, 0x01, byte(ep)}, p[3:]...)
}

func init() {
	sets := [][]byte{nil, {0x25}, {0x26}, {0x25, 0x26}, {0x26, 0x25}, {0x20, 0x27, 0x72}, {0x72, 0x26, 0x86}, {0x27, 0x25}, {0x31, 0x60}}
	var levels []float64
	for v := -8; v <= 440; v++ {
		levels = append(levels, float64(v)/4)
	}
	levels = append(levels, math.Inf(1), math.Inf(-1), 1e300, -1e300, 255, 256, 257, 355.9, 0.999999, 1.000001, 98.9999, 99.0001, math.SmallestNonzeroFloat64, -0.0, 65536, 4294967297, 1e18)
	reg(&Scenario{Prop: "C05", Name: "C05/commands", Shards: 16, Enum: func(e *Enum) {
		e.Rule = "every node id 1..232 x 9 command class sets x On, Off and Level at 466 levels, on the node and on endpoints 1, 2, 127: exactly the right payload is handed to the connection"
		for id := 1; id <= 232; id++ {
			for si, set := range sets {
				for _, ep := range []int{0, 1, 2, 127} {
					for li := -2; li < len(levels); li++ {
						if e.Tier == 0 && li > 0 && id%16 != si && li%3 != id%3 {
							continue
						}
						if !e.Mine() {
							continue
						}
						op, level := "Level", 0.0
						switch li {
						case -2:
							op = "On"
						case -1:
							op = "Off"
						default:
							level = levels[li]
						}
						n := nodes.New(id)
						w := &fakeWriter{}
						ev := 0
						n.Setup(w, func(interface{}) { ev++ })
						if set != nil {
							n.CommandClasses = classes(set...)
						}
						for k := 1; k <= ep; k++ {
							n.Endpoints = append(n.Endpoints, &nodes.Endpoint{Id: k, CommandClasses: n.CommandClasses})
						}
						nodes.NewList().Add(n)
						what := fmt.Sprintf("node %d classes %x endpoint %d %s(%v)", id, set, ep, op, level)
						want := wantCmd(set, id, op, level)
						e.Guard(func() string { return what }, func() {
							var t interface {
								On()
								Off()
								Level(float64)
							} = n
							if ep > 0 {
								want = wrapEp(want, ep)
								x := n.Endpoint(ep)
								if x == nil {
									e.Fail("%s: the endpoint is missing", what)
									return
								}
								t = x
							}
							switch op {
							case "On":
								t.On()
							case "Off":
								t.Off()
							default:
								t.Level(level)
							}
						})
						got := "nothing"
						if len(w.sent) > 0 {
							got = fmt.Sprintf("%x", w.sent)
						}
						e.Did(got, func() string { return what + " sent " + got })
						if want == nil && len(w.sent) != 0 || want != nil && (len(w.sent) != 1 || !bytes.Equal(w.sent[0], want)) {
							e.Fail("%s sent %s, should send %x", what, got, want)
						}
					}
					if e.Stop() {
						return
					}
				}
			}
		}
	}})
	reg(&Scenario{Prop: "C05", Name: "C05/wire", Bound: [2]int{2, 3}, Fine: true, Run: func() {
		a, b := jnode(5, 0x25), jnode(6, 0x26)
		c := jnode(200, 0x26, 0x25)
		a["Endpoints"] = jendpoints(2, 0x25)
		s := startWith(a, b, c, jnode(7, 0x20))
		var want [][]byte
		var mine [3][][]byte
		exp := func(t int, p []byte) { want = append(want, frame(0, p...)); mine[t] = append(mine[t], frame(0, p...)) }
		n5, n6, n200, n7 := s.node(5), s.node(6), s.node(200), s.node(7)
		e2 := n5.Endpoint(2)
		if e2 == nil {
			fail("endpoint 2 of node 5 is missing")
		}
		exp(0, wantCmd([]byte{0x25}, 5, "On", 0))
		exp(0, wrapEp(wantCmd([]byte{0x25}, 5, "Off", 0), 2))
		exp(1, wantCmd([]byte{0x26}, 6, "Level", 41.9))
		exp(1, wantCmd([]byte{0x26}, 6, "On", 0))
		exp(2, wantCmd([]byte{0x26, 0x25}, 200, "Level", 300))
		exp(2, wantCmd([]byte{0x26, 0x25}, 200, "Off", 0))
		vs.Exploring(true)
		vs.GoNamed("a", func() { n5.On(); n5.Level(50); e2.Off(); e2.Level(3) })
		vs.GoNamed("b", func() { n7.On(); n6.Level(41.9); n6.On() })
		vs.GoNamed("c", func() { n200.Level(300); n200.Off(); n7.Level(3) })
		sleep(3000 * ms)
		vs.Exploring(false)
		ws := datas(s.Writes())
		if len(ws) != len(want) {
			fail("%d frames written, %d expected: %x", len(ws), len(want), ws)
		}
		for t := range mine {
			k := 0
			for _, w := range ws {
				if k < len(mine[t]) && bytes.Equal(w, mine[t][k]) {
					k++
				}
			}
			if k != len(mine[t]) {
				fail("caller %d: frames %x expected in order, written: %x", t, mine[t], ws)
			}
		}
		note("%x", ws)
	}})
	// sequences of operations on a node (or its endpoint) that already has some state, with
	// reports arriving in between: every operation is sent, whatever is known about the node
	reg(&Scenario{Prop: "C05", Name: "C05/state", Run: func() {
		vs.Exploring(true)
		kind := vs.Choose(6, 0) // class 25, 26, both; node or endpoint 2
		set := [][]byte{{0x25}, {0x26}, {0x26, 0x25}}[kind%3]
		ep := kind / 3 * 2
		init := vs.Choose(5, 0)
		var ops []int
		for i := 0; i < 3; i++ {
			ops = append(ops, vs.Choose(6, 0))
		}
		between := vs.Choose(3, 0) // nothing, the device reports what it was told, the opposite
		id := []int{5, 232}[ops[0]%2]
		vs.Exploring(false)
		j := jnode(id, ints(set)...)
		e := jendpoints(3, ints(set)...)
		j["Endpoints"] = e
		for _, m := range []J{j, e[1].(J)} {
			switch init {
			case 1:
				m["StateBool"], m["StateFloat"] = J{"on": true}, J{"level": 99}
			case 2:
				m["StateBool"], m["StateFloat"] = J{"on": false}, J{"level": 0}
			case 3:
				m["StateBool"], m["StateFloat"] = J{"on": true, "alarm": true}, J{"level": 50, "alarm": 7}
			}
		}
		if init == 4 {
			j["is_awake"] = false
		}
		s := startWith(j, jnode(6, 0x25, 0x26))
		var t interface {
			On()
			Off()
			Level(float64)
		} = s.node(id)
		if ep > 0 {
			x := s.node(id).Endpoint(ep)
			if x == nil {
				fail("endpoint %d is missing", ep)
			}
			t = x
		}
		var want [][]byte
		for k, op := range ops {
			name, level := "Level", 0.0
			switch op {
			case 0:
				name, level = "On", 99
				t.On()
			case 1:
				name = "Off"
				t.Off()
			default:
				level = []float64{0, 50, 50.5, 99}[op-2]
				t.Level(level)
			}
			w := wantCmd(set, id, name, level)
			if ep > 0 {
				w = wrapEp(w, ep)
			}
			if w != nil {
				want = append(want, frame(0, w...))
			}
			sleep([]time.Duration{80, 300, 2500}[k] * ms)
			v := byte(level)
			if between == 2 {
				v = 99 - v
			}
			if between > 0 {
				s.Op.Cur().Feed(report(byte(id), set[0], 3, v))
				sleep(20 * ms)
			}
		}
		sleep(1500 * ms)
		if ws := datas(s.Writes()); js(ws) != js(want) {
			fail("operations %v with initial state %d on classes %x endpoint %d wrote %x, should be %x", ops, init, set, ep, ws, want)
		}
		note("%x", want)
	}})
	c06()
}

// ints is b as a list of int.
func ints(b []byte) []int {
	var l []int
	for _, x := range b {
		l = append(l, int(x))
	}
	return l
}

func c06() {
	// a device that reports n endpoints during identification
	ident := func(s *Sys, id, n int) {
		s.handler = func(p *Port, f []byte) bool {
			switch {
			case f[3] == 0x41 && f[4] == byte(id):
				p.FeedAfter(5*ms, ack)
				p.FeedAfter(10*ms, capFrame(0xd3, 0x9c, 0, 0x04, 0x10, 0x01))
				return true
			case f[3] == 0x13 && f[4] == byte(id) && f[6] == 0x72:
				p.FeedAfter(5*ms, ack)
				p.FeedAfter(10*ms, report(byte(id), 0x72, 0x05, 0xff, 0xfe, 0, 1, 0, 1))
				return true
			case f[3] == 0x13 && f[4] == byte(id) && f[6] == 0x60:
				p.FeedAfter(5*ms, ack)
				p.FeedAfter(10*ms, report(byte(id), 0x60, 0x08, 0x40, byte(n)))
				return true
			}
			return false
		}
	}
	check := func(s *Sys, id, n int, how string) {
		nd := s.node(id)
		var eps []*nodes.Endpoint
		rlocked(nd, func() { eps = append(eps, nd.Endpoints...) })
		if len(eps) != n {
			fail("%s: the device reported %d endpoints, the node has %d", how, n, len(eps))
		}
		seen := map[*nodes.Endpoint]bool{}
		for _, k := range []int{-1000000, -2, -1, 0, n + 1, n + 2, 128, 255, 256, 1000000} {
			if (k < 1 || k > n) && nd.Endpoint(k) != nil {
				fail("%s: %d endpoints, Endpoint(%d) returned one (id %d)", how, n, k, nd.Endpoint(k).Id)
			}
		}
		for k := 1; k <= n; k++ {
			e := nd.Endpoint(k)
			if e == nil {
				fail("%s: %d endpoints, Endpoint(%d) is missing", how, n, k)
			}
			if e.Id != k {
				fail("%s: Endpoint(%d) has id %d", how, k, e.Id)
			}
			if seen[e] {
				fail("%s: Endpoint(%d) is the same object as another endpoint", how, k)
			}
			seen[e] = true
			if js(e.CommandClasses) != js(nd.CommandClasses) {
				fail("%s: Endpoint(%d) has classes %s, the node %s", how, k, js(e.CommandClasses), js(nd.CommandClasses))
			}
			if e.StateBool == nil || e.StateFloat == nil {
				fail("%s: Endpoint(%d) has no state", how, k)
			}
			e.StateBool[fmt.Sprint("mark", k)] = true
			e.StateFloat["mark"] = float64(k)
		}
		for k := 1; k <= n; k++ {
			e := nd.Endpoint(k)
			own := fmt.Sprint("mark", k)
			if len(e.StateFloat) != 1 || e.StateFloat["mark"] != float64(k) || nd.StateFloat["mark"] != 0 || len(e.StateBool) != 1 || !e.StateBool[own] || nd.StateBool[own] {
				fail("%s: the state of endpoint %d is shared", how, k)
			}
			delete(e.StateBool, own)
			delete(e.StateFloat, "mark")
		}
		if n > 0 {
			b := len(s.Writes())
			for _, k := range []int{1, n} {
				nd.Endpoint(k).On()
				sleep(200 * ms)
				w := s.Writes()
				want := frame(0, wrapEp(wantCmd([]byte{0x25}, id, "On", 0), k)...)
				if len(w) != b+1 || !bytes.Equal(w[b].Data, want) {
					fail("%s: Endpoint(%d).On() wrote %x, should be %x", how, k, datas(w[b:]), want)
				}
				b++
			}
		}
	}
	reg(&Scenario{Prop: "C06", Name: "C06/endpoints", Run: func() {
		vs.Exploring(true)
		n := vs.Choose(256, 0)
		vs.Exploring(false)
		s := newSys(9)
		ident(s, 9, n)
		vos.Cur.Put(cfg, jfile())
		s.connect(cfg)
		sleep(3000 * ms)
		if n > 127 {
			// the count field has 7 bits; what larger values mean is not specified
			nd := s.node(9)
			for _, k := range []int{-1, 0, 1, 127, 128, 255, 256} {
				if e := nd.Endpoint(k); e != nil && e.Id != k {
					fail("Endpoint(%d) has id %d", k, e.Id)
				}
			}
			return
		}
		check(s, 9, n, "identified")
		if err := s.C.SaveConfigurationToFile(); err != nil {
			fail("save: %v", err)
		}
		s2 := newSysOn(vos.Cur)
		s2.connect(cfg)
		check(s2, 9, n, "restored")
		note("%d", n)
	}})
	reg(&Scenario{Prop: "C06", Name: "C06/busy", Bound: [2]int{3, 4}, Fine: true, Run: func() {
		// endpoints are looked up while they are being reported
		s := newSys(9)
		n := 2
		ident(s, 9, n)
		s.connect("")
		nd := s.node(9)
		vs.Exploring(true)
		for i := 0; i < 2; i++ {
			vs.GoNamed("lookup", func() {
				for j := 0; j < 3; j++ {
					for k := -1; k <= n+1; k++ {
						if e := nd.Endpoint(k); e != nil && (e.Id != k || k > n) {
							fail("Endpoint(%d) has id %d", k, e.Id)
						}
					}
					sleep(40 * ms)
				}
			})
		}
		sleep(2500 * ms)
		vs.Exploring(false)
		check(s, 9, n, "identified")
		note("ok")
	}})
}
