package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/events"
	"github.com/stampzilla/gozwave/nodes"
	"gzmc/vs"
)

// folded is the reference state of a node: the fold of its reports.
type folded struct {
	b  map[string]bool
	f  map[string]float64
	ev int // update events it must have raised
	// alarms that still have to be cleared
	alarmAt []time.Duration
}

func newFolded() *folded { return &folded{b: map[string]bool{}, f: map[string]float64{}} }

// apply folds one report payload (class, command, data).
func (n *folded) apply(p []byte) {
	cmd, class, d := p[0], p[1], p[2:]
	switch {
	case cmd == 0x71 && class == 5 && len(d) >= 4 && d[3] == 0xff && len(d) >= 6:
		n.b["alarm"] = true
		if d[0] != 0 {
			n.f["alarm"] = float64(d[0])
			n.f["alarmLastType"] = float64(d[0])
		}
		n.ev++
		n.alarmAt = append(n.alarmAt, now())
	case cmd == 0x25 && class == 3 && len(d) == 1:
		n.b["on"] = d[0] == 0xff
		n.ev++
	case cmd == 0x25 && class == 3 && len(d) == 3:
		n.b["on"] = d[0] != 0
		n.ev++
	case cmd == 0x26 && class == 3 && (len(d) == 1 || len(d) == 3):
		v := float64(d[0])
		if v > 100 {
			v = 100
		}
		n.b["on"] = v > 0
		n.f["level"] = v
		n.ev++
	case cmd == 0x31 && class == 5 && len(d) >= 2 && len(d) >= 2+int(d[1]%8):
		size, scale, prec := int(d[1]%8), int(d[1]/8%4), int(d[1]/32)
		v := int64(0)
		for i := 0; i < size; i++ {
			v = v<<8 | int64(d[2+i])
		}
		if d[2]&0x80 != 0 {
			v -= int64(1) << uint(8*size)
		}
		x := float64(v)
		for i := 0; i < prec; i++ {
			x /= 10
		}
		name, unit := sensorName(int(d[0]), scale)
		n.f[strings.ToLower(name+"_"+unit)] = x
		n.ev++
	}
}

// clear is what happens a second after an alarm.
func (n *folded) clear() {
	n.b["alarm"] = false
	n.f["alarm"] = 0
	n.ev++
}

func nums(m map[string]float64) string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	var b strings.Builder
	for _, x := range k {
		fmt.Fprintf(&b, "%s=%s ", x, num(m[x]))
	}
	return b.String()
}

// same compares a node's state with the reference.
func (n *folded) same(what string, x *nodes.Node) {
	rlocked(x, func() {
		if got, want := js(x.StateBool), js(n.b); got != want {
			fail("%s: node %d has the state %s, its reports say %s", what, x.Id, got, want)
		}
		if got, want := nums(x.StateFloat), nums(n.f); got != want {
			fail("%s: node %d has the values %s, its reports say %s", what, x.Id, got, want)
		}
	})
}

// payloads is the report alphabet.
var payloads = [][]byte{
	{0x25, 3, 0xff}, {0x25, 3, 0x00}, {0x25, 3, 0xff, 0x00, 5}, {0x25, 3, 0x00, 0xff, 5},
	{0x26, 3, 0x00}, {0x26, 3, 40}, {0x26, 3, 99, 0, 1}, {0x26, 3, 0, 99, 1}, {0x26, 3, 0xff},
	{0x31, 5, 1, 0x22, 0x00, 0xd7}, {0x31, 5, 1, 0x22, 0xff, 0x38}, {0x31, 5, 1, 0x2a, 0x02, 0x10}, {0x31, 5, 4, 0x44, 0, 1, 0x86, 0xa0}, {0x31, 5, 5, 1, 55},
	{0x71, 5, 7, 1, 0, 0xff, 7, 2}, {0x71, 5, 6, 1, 0, 0x00, 6, 1}, {0x71, 5, 0, 1, 0, 0xff, 6, 1},
	{0x72, 5, 0, 1, 0, 2, 0, 3}, {0x60, 8, 0x40, 2}, {0x84, 7},
}

func init() {
	const nP = 20
	// all sequences over the wire
	wire := func(name string, depth [2]int, tier int, alphabet []int) {
		reg(&Scenario{Prop: "C18", Name: "C18/" + name, Tier: tier, Run: func() {
			vs.Exploring(true)
			var seq []int
			mode := vs.Choose(3, 0)
			for i := 0; i < depth[0]; i++ {
				seq = append(seq, alphabet[vs.Choose(len(alphabet), 0)])
			}
			vs.Exploring(false)
			s := startWith(jnode(5, 0x25), jnode(6, 0x25))
			ev := s.drain()
			sleep(10 * ms)
			ev.reset()
			ref := map[int]*folded{5: newFolded(), 6: newFolded()}
			var chunk []byte
			for i, k := range seq {
				node := 5
				if mode == 1 && i%2 == 1 {
					node = 6
				}
				p := payloads[k]
				ref[node].apply(p)
				if mode == 2 { // all at once
					chunk = append(chunk, report(byte(node), p...)...)
					continue
				}
				s.Op.Cur().Feed(report(byte(node), p...))
				sleep(3 * ms)
				for id, r := range ref {
					r.same(fmt.Sprintf("after report %x of %v", p, seq), s.node(id))
					if g := ev.updated(id); g != r.ev {
						fail("node %d raised %d update events, %d reports changed its state (last %x)", id, g, r.ev, p)
					}
				}
			}
			if mode == 2 {
				s.Op.Cur().Feed(chunk)
				sleep(20 * ms)
			}
			for round := 0; round < 2; round++ {
				for id, r := range ref {
					r.same("after all reports", s.node(id))
					if g := ev.updated(id); g != r.ev {
						fail("node %d raised %d update events, should be %d", id, g, r.ev)
					}
				}
				for _, e := range ev.Evs {
					if _, ok := e.(events.NodeUpdated); !ok {
						fail("a report raised the event %#v", e)
					}
				}
				if round == 0 {
					sleep(1100 * ms)
					for _, r := range ref {
						for range r.alarmAt {
							r.clear()
						}
					}
				}
			}
			note("%s %s", js(ref[5].b), nums(ref[5].f))
		}})
	}
	all := make([]int, nP)
	for i := range all {
		all[i] = i
	}
	wire("pairs", [2]int{2, 2}, 0, all)
	wire("triples", [2]int{3, 3}, 0, all)
	wire("quads", [2]int{4, 4}, 1, all)
	wire("six", [2]int{6, 6}, 1, []int{0, 3, 5, 4, 9, 15})
	wire("five", [2]int{5, 5}, 0, []int{1, 2, 5, 10, 14})
	// every value of every report type, delivered to the node itself
	reg(&Scenario{Prop: "C18", Name: "C18/values", Shards: 8, Enum: func(e *Enum) {
		e.Rule = "states reached from each report"
		for pre := 0; pre < nP; pre++ {
			if payloads[pre][0] == 0x71 {
				continue
			}
			for cls := 0; cls < 4; cls++ {
				for v := 0; v < 256; v++ {
					for w := 0; w < 4; w++ {
						if !e.Mine() {
							if e.Stop() {
								return
							}
							continue
						}
						p := [][]byte{{0x25, 3, byte(v)}, {0x26, 3, byte(v)}, {0x31, 5, byte(v), byte(1 + 8*w), 0x81}, {0x31, 5, byte(w + 1), byte(v&0xf8 | 1), 0x7f}}[cls]
						if w > 0 && cls < 2 {
							p = append(p, byte(w*85), byte(w))
						}
						n := nodes.New(5)
						evs := 0
						bad := ""
						n.Setup(nil, func(x interface{}) {
							evs++
							if u, ok := x.(events.NodeUpdated); !ok || u.Address != 5 {
								bad = fmt.Sprintf("%#v", x)
							}
						})
						ref := newFolded()
						ref.apply(payloads[pre])
						ref.apply(p)
						what := func() string { return fmt.Sprintf("%x then %x", payloads[pre], p) }
						e.Guard(what, func() {
							for _, q := range [][]byte{payloads[pre], p} {
								r, err := reports.New(cmdOf(q[0]), q[1], q[2:])
								if err != nil {
									e.Fail("report %x is refused: %v", q, err)
									return
								}
								n.ProcessEvent(r)
							}
							if js(n.StateBool) != js(ref.b) || nums(n.StateFloat) != nums(ref.f) {
								e.Fail("after the reports %s the state is %s %s, should be %s %s", what(), js(n.StateBool), nums(n.StateFloat), js(ref.b), nums(ref.f))
							}
							if evs != ref.ev || bad != "" {
								e.Fail("the reports %s raised %d events, should be %d %s", what(), evs, ref.ev, bad)
							}
						})
						e.Did(js(ref.b)+nums(ref.f), what)
					}
				}
			}
		}
	}})
	// the order holds under every schedule
	for i, seq := range [][]int{{0, 1, 5}, {5, 4}, {9, 10, 9}, {2, 3}} {
		seq := seq
		reg(&Scenario{Prop: "C18", Name: fmt.Sprintf("C18/order%d", i), Bound: [2]int{1 + i%2, 2 + i%2}, Fine: true, Run: func() {
			s := startWith(jnode(5, 0x25), jnode(6, 0x25))
			ev := s.drain()
			sleep(10 * ms)
			ev.reset()
			ref, other := newFolded(), newFolded()
			vs.Exploring(true)
			var chunk []byte
			for k, x := range seq {
				ref.apply(payloads[x])
				chunk = append(chunk, report(5, payloads[x]...)...)
				if k == 0 {
					other.apply(payloads[6])
					chunk = append(chunk, report(6, payloads[6]...)...)
				}
			}
			s.Op.Cur().Feed(chunk)
			sleep(50 * ms)
			vs.Exploring(false)
			ref.same("after all reports", s.node(5))
			other.same("after all reports", s.node(6))
			if ev.updated(5) != ref.ev || ev.updated(6) != 1 {
				fail("%d and %d events, should be %d and 1", ev.updated(5), ev.updated(6), ref.ev)
			}
		}})
	}
	// a reader holds on to the node while reports arrive
	reg(&Scenario{Prop: "C18", Name: "C18/held", Bound: [2]int{1, 2}, Fine: true, Run: func() {
		vs.Exploring(true)
		hold := []time.Duration{300 * ms, 0, 990 * ms, 1500 * ms, 6 * time.Second, 40 * time.Second}[vs.Choose(6, 0)]
		gap := []time.Duration{0, 10 * ms, 1100 * ms}[vs.Choose(3, 0)]
		write := vs.Choose(2, 0)
		lost := time.Duration(0) // the port is lost for this long while the node is held
		if hold >= 1500*ms && vs.Choose(2, 0) == 1 {
			lost = 1200 * ms
		}
		vs.Exploring(false)
		s := startWith(jnode(5, 0x25), jnode(6, 0x25))
		ev := s.drain()
		sleep(10 * ms)
		ev.reset()
		n := s.node(5)
		ref, other := newFolded(), newFolded()
		vs.GoNamed("holder", func() {
			if write == 1 {
				n.Lock()
				defer n.Unlock()
			} else {
				n.RLock()
				defer n.RUnlock()
			}
			if hold > 0 {
				sleep(hold)
			}
		})
		sleep(1 * ms)
		for i, x := range []int{0, 5, 1, 9, 10} {
			ref.apply(payloads[x])
			s.Op.Cur().Feed(report(5, payloads[x]...))
			if i == 2 {
				other.apply(payloads[6])
				s.Op.Cur().Feed(report(6, payloads[6]...))
			}
			if gap > 0 {
				sleep(gap)
			}
			if i == 1 && lost > 0 {
				sleep(10 * ms)
				s.Op.Cur().err = errRead
				sleep(lost - 10*ms)
			}
		}
		if d := hold - 1*ms - 5*gap - lost - 1; d > 0 { // until the holder lets go
			sleep(d)
		}
		vs.Exploring(true)
		sleep(20 * ms)
		vs.Exploring(false)
		sleep(200 * ms)
		ref.same(fmt.Sprintf("after five reports, the node was held for %v", hold), n)
		other.same("after all reports", s.node(6))
		if ev.updated(5) != ref.ev || ev.updated(6) != 1 {
			fail("%d and %d events, should be %d and 1", ev.updated(5), ev.updated(6), ref.ev)
		}
		if s.Acks() != 6 {
			fail("6 reports arrived, %d were acknowledged", s.Acks())
		}
	}})
	// reports that reach the node while it is identified are not lost
	reg(&Scenario{Prop: "C18", Name: "C18/discovery", Bound: [2]int{1, 2}, Fine: false, Run: func() {
		s := newSys(1, 5)
		d := newDev16(s, 5, devices[0])
		s.handler = func(p *Port, f []byte) bool { return d.handle(p, f) }
		s.connectStart("")
		ref := newFolded()
		vs.Exploring(true)
		for i := 0; i < 50 && s.C.Nodes.Get(5) == nil; i++ {
			sleep(5 * ms)
		}
		for i, k := range []int{0, 5, 9, 1} {
			ref.apply(payloads[k])
			s.Op.Cur().Feed(report(5, payloads[k]...))
			sleep([]time.Duration{1 * ms, 20 * ms, 60 * ms, 50 * ms}[i])
		}
		sleep(3 * time.Second)
		vs.Exploring(false)
		ref.same("after discovery", s.node(5))
	}})
	c19()
	c20()
}

func c19() {
	alarm := func(node, typ byte) []byte { return report(node, 0x71, 0x05, typ, 1, 0, 0xff, typ, 2) }
	type look struct {
		b    bool
		f, l float64
		has  bool
	}
	see := func(n *nodes.Node) (l look) {
		rlocked(n, func() {
			l = look{n.StateBool["alarm"], n.StateFloat["alarm"], n.StateFloat["alarmLastType"], false}
			_, l.has = n.StateBool["alarm"]
		})
		return
	}
	for _, fine := range []bool{false, true} {
		fine := fine
		name, bound := "C19/alarms", [2]int{0, 0}
		if fine {
			name, bound = "C19/schedule", [2]int{2, 2}
		}
		reg(&Scenario{Prop: "C19", Name: name, Bound: bound, Fine: fine, Run: func() {
			s := startWith(jnode(5, 0x25), jnode(6, 0x25))
			ev := s.drain()
			sleep(10 * ms)
			ev.reset()
			vs.Exploring(true)
			gaps := []time.Duration{-1, 0, 1, 500 * ms, 999 * ms, 1000 * ms, 1001 * ms, 1500 * ms}
			types := []byte{7, 0, 0xff}
			t1, t2 := types[vs.Choose(3, 0)], types[vs.Choose(2, 0)]
			g := gaps[vs.Choose(len(gaps), 0)]
			target := byte(5)
			other, third := -1, time.Duration(-1)
			if !fine {
				target = byte(5 + vs.Choose(2, 0))
				other = vs.Choose(4, 0) // other reports during the alarm
				third = gaps[vs.Choose(4, 0)]
			}
			begin := now()
			var at5, at6 []time.Duration
			var types5 []byte
			hit := func(node, typ byte) {
				s.Op.Cur().Feed(alarm(node, typ))
				if node == 5 {
					at5 = append(at5, now()-begin)
					types5 = append(types5, typ)
				} else {
					at6 = append(at6, now()-begin)
				}
			}
			vs.GoNamed("alarms", func() {
				hit(5, t1)
				if g >= 0 {
					if g > 0 {
						sleep(g)
					}
					hit(target, t2)
				}
				if third >= 0 {
					if third > 0 {
						sleep(third)
					}
					hit(5, 7)
				}
			})
			if !fine {
				vs.Exploring(false)
			}
			on := newFolded()
			if other > 0 {
				p := payloads[[]int{0, 0, 5, 15}[other]]
				vs.GoNamed("other", func() {
					sleep(300 * ms)
					on.apply(p)
					s.Op.Cur().Feed(report(5, p...))
				})
			}
			// probes: the node can be read at any time, and shows the alarm exactly while it lasts
			var reads []time.Duration
			probe := func(t time.Duration) {
				if d := t - (now() - begin); d > 0 {
					sleep(d)
				}
				b := now()
				l := see(s.node(5))
				if now() != b {
					fail("reading the node took %v", now()-b)
				}
				reads = append(reads, b)
				raised, quiet, overlap := false, true, false
				typ, last := byte(0), byte(0)
				for i, a := range at5 {
					e := now() - begin - a
					if e >= 2*ms && e <= 998*ms {
						raised = true
					}
					if e < 1002*ms {
						quiet = false
					}
					if types5[i] != 0 {
						last = types5[i]
					}
					typ = types5[i]
					for j, c := range at5 {
						if j != i && c-a < 1002*ms && a-c < 1002*ms {
							overlap = true
						}
					}
				}
				if raised && !overlap {
					if !l.b || typ != 0 && l.f != float64(typ) {
						fail("%v after an alarm of type %d the node shows alarm=%v type=%v", now()-begin, typ, l.b, l.f)
					}
				}
				if quiet && len(at5) > 0 && (l.b || l.f != 0 || !l.has) {
					fail("all alarms are over and the node still shows alarm=%v type=%v", l.b, l.f)
				}
				if last != 0 && l.l != float64(last) && (raised || quiet) {
					fail("the last alarm type is %v, should be %d", l.l, last)
				}
			}
			for _, t := range []time.Duration{3 * ms, 310 * ms, 505 * ms, 990 * ms, 1010 * ms, 1495 * ms, 1505 * ms, 1990 * ms, 2510 * ms} {
				probe(t)
			}
			sleep(2500 * ms)
			vs.Exploring(false)
			probe(now() - begin)
			if got, want := ev.updated(5), 2*len(at5)+on.ev; got != want {
				fail("%d alarms and %d other reports raised %d events, should be %d", len(at5), on.ev, got, want)
			}
			if got := ev.updated(6); got != 2*len(at6) {
				fail("%d alarms of another node raised %d events", len(at6), got)
			}
			// one alarm alone: its two events a second apart
			if len(at5) == 1 && other <= 0 && len(at6) == 0 {
				var t []time.Duration
				for i := range ev.Evs {
					t = append(t, ev.At[i]-begin)
				}
				if len(t) != 2 || t[0] > 5*ms || t[1] < 995*ms || t[1] > 1010*ms {
					fail("the events of an alarm came at %v", t)
				}
			}
			n := s.node(5)
			if other > 0 {
				want := newFolded()
				want.b["alarm"], want.f["alarm"] = false, 0
				for k, v := range on.b {
					want.b[k] = v
				}
				for k, v := range on.f {
					want.f[k] = v
				}
				for _, t := range types5 {
					if t != 0 {
						want.f["alarmLastType"] = float64(t)
					}
				}
				want.same("after the alarms", n)
			}
			note("%v %v %v", g, reads, js(see(n).b))
		}})
	}
	// an alarm whose status is not 0xff
	reg(&Scenario{Prop: "C19", Name: "C19/status", Run: func() {
		vs.Exploring(true)
		st := byte(vs.Choose(256, 0))
		ln := 2 + vs.Choose(6, 0)
		vs.Exploring(false)
		s := startWith(jnode(5, 0x25))
		ev := s.drain()
		sleep(10 * ms)
		ev.reset()
		d := []byte{7, 1, 0, st, 6, 1, 9}[:ln]
		s.Op.Cur().Feed(report(5, append([]byte{0x71, 5}, d...)...))
		sleep(500 * ms)
		l := see(s.node(5))
		raise := st == 0xff && ln >= 6
		if ln >= 4 && ln < 6 && st == 0xff {
			return // cut short: not specified
		}
		if l.b != raise || raise && l.f != 7 || !raise && (l.has || ev.updated(5) > 0) {
			fail("an alarm report %x with status %x: alarm=%v type=%v events=%d", d, st, l.b, l.f, ev.updated(5))
		}
		sleep(1 * time.Second)
		if see(s.node(5)).b {
			fail("the alarm is still set after a second and a half")
		}
		note("%v", raise)
	}})
	// saving and listing go on during an alarm
	reg(&Scenario{Prop: "C19", Name: "C19/readable", Bound: [2]int{2, 3}, Fine: true, Run: func() {
		s := startWith(jnode(5, 0x25))
		ev := s.drain()
		sleep(10 * ms)
		ev.reset()
		vs.Exploring(true)
		s.Op.Cur().Feed(alarm(5, 7))
		sleep(20 * ms)
		b := now()
		see(s.node(5))
		s.C.Nodes.All()
		if err := s.C.SaveConfigurationToFile(); err != nil {
			fail("saving during an alarm: %v", err)
		}
		s.Op.Cur().Feed(report(5, 0x25, 3, 0xff))
		sleep(20 * ms)
		if now()-b != 20*ms {
			fail("the node could not be read for %v during an alarm", now()-b-20*ms)
		}
		rlocked(s.node(5), func() {
			if !s.node(5).StateBool["on"] {
				fail("another report was not applied during an alarm")
			}
		})
		sleep(1500 * ms)
		vs.Exploring(false)
		if see(s.node(5)).b || ev.updated(5) != 3 {
			fail("after the alarm: alarm=%v, %d events", see(s.node(5)).b, ev.updated(5))
		}
	}})
}

func c20() {
	take := func(s *Sys) (int, bool) {
		v, ok, _ := vs.TryRecv((<-chan interface{})(s.C.GetNextEvent()))
		if !ok || v == nil {
			return 0, false
		}
		switch e := v.(type) {
		case events.NodeUpdated:
			return e.Address, true
		case events.NodeDiscoverd:
			return -e.Address, true
		}
		fail("an event of the type %T", v)
		return 0, false
	}
	reg(&Scenario{Prop: "C20", Name: "C20/queue", Run: func() {
		vs.Exploring(true)
		pre := []int{0, 5, 8, 9, 10, 11, 13}[vs.Choose(7, 0)]
		var ops []int
		for i := 0; i < 6; i++ {
			ops = append(ops, vs.Choose(3, 0))
		}
		vs.Exploring(false)
		s := startWith(jnode(5, 0x25), jnode(6, 0x25), jnode(7, 0x25))
		for {
			if _, ok := take(s); !ok {
				break
			}
		}
		var q []int
		raise := func(id, v int) {
			b := now()
			s.node(id).ProcessEvent(&reports.SwitchMultilevelV1{CurrentValue: float64(v)})
			if now() != b {
				fail("processing a report took %v with %d undelivered events", now()-b, len(q))
			}
			if len(q) < 10 {
				q = append(q, id)
			}
		}
		for i := 0; i < pre; i++ {
			raise(5+i%3, i+1)
		}
		check := func() {
			g, ok := take(s)
			if len(q) == 0 {
				if ok {
					fail("the event %d was delivered, there is none", g)
				}
				return
			}
			if !ok {
				fail("no event was delivered, there are %d (ops %v)", len(q), ops)
			}
			if g != q[0] {
				fail("the event of node %d was delivered, next is node %d (pre %d ops %v)", g, q[0], pre, ops)
			}
			q = q[1:]
		}
		for i, o := range ops {
			if o == 2 {
				check()
			} else {
				raise(5+o, 20+i)
			}
			sleep(1 * ms)
		}
		for len(q) > 0 {
			check()
		}
		check()
		note("%d %v", pre, ops)
	}})
	for _, few := range []bool{true, false} {
		few := few
		name, bound := "C20/schedule", [2]int{2, 3}
		if !few {
			name, bound = "C20/overflow", [2]int{1, 2}
		}
		reg(&Scenario{Prop: "C20", Name: name, Bound: bound, Fine: few, Run: func() {
			s := startWith(jnode(5, 0x25), jnode(6, 0x25), jnode(7, 0x25))
			vs.Exploring(true)
			n := 12
			if few {
				n = 3
			}
			slow := []time.Duration{0, 1 * ms, 100 * ms}[vs.Choose(3, 0)]
			vs.Exploring(false)
			for {
				if _, ok := take(s); !ok {
					break
				}
			}
			vs.Exploring(true)
			var got []int
			vs.GoNamed("consumer", func() {
				for {
					v, ok := vs.Recv2(s.C.GetNextEvent())
					if !ok {
						return
					}
					if e, ok := v.(events.NodeUpdated); ok {
						got = append(got, e.Address)
					}
					if slow > 0 {
						sleep(slow)
					}
				}
			})
			var chunk []byte
			var want []int
			for i := 0; i < n; i++ {
				id := 5 + (i*i)%3
				chunk = append(chunk, report(byte(id), 0x26, 3, byte(i+1))...)
				want = append(want, id)
			}
			s.Op.Cur().Feed(chunk)
			sleep(2 * time.Second)
			vs.Exploring(false)
			// a subsequence of what was raised; everything if at most ten were raised
			j := 0
			for _, g := range got {
				for j < len(want) && want[j] != g {
					j++
				}
				if j == len(want) {
					fail("events were delivered as %v, raised as %v", got, want)
				}
				j++
			}
			if n <= 10 && len(got) != n || len(got) < 10 && n > 10 {
				fail("%d of %d events were delivered", len(got), n)
			}
			note("%v", got)
		}})
	}
	// nobody takes the events: everything else goes on
	reg(&Scenario{Prop: "C20", Name: "C20/absent", Bound: [2]int{1, 2}, Run: func() {
		s := newSys(1, 5, 6, 30, 31, 32, 33)
		d := newDev16(s, 5, devices[0])
		s.handler = func(p *Port, f []byte) bool { return d.handle(p, f) }
		file := cfg
		s.connectStart(file)
		vs.Exploring(true)
		sleep(700 * ms)
		for i := 0; i < 30; i++ {
			s.Op.Cur().Feed(report(6, 0x26, 3, byte(i+1)))
			sleep(2 * ms)
		}
		lv := 0.0
		rlocked(s.node(6), func() { lv = s.node(6).StateFloat["level"] })
		if lv != 30 {
			fail("report processing is delayed without an event consumer: level %v after 30 reports", lv)
		}
		vs.Exploring(false)
		for _, id := range []int{5, 6, 30, 31, 32, 33} {
			if s.C.Nodes.Get(id) == nil {
				fail("discovery did not create node %d without an event consumer", id)
			}
		}
		sleep(140 * time.Second)
		d.final(devices[0].classes, devices[0].brand, devices[0].product, devices[0].desc, 2)
		s.saved("without an event consumer", map[int]float64{6: 30})
	}})
}
