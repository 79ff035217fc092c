package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/database"
	"gzmc/vos"
	"gzmc/vs"
)

// device is a simulated Z-Wave device.
type device struct {
	name                 string
	caps                 []byte // capability answer
	manu                 [6]byte
	endpoints            byte
	epBits               byte
	brand, product, desc string
	classes              string // JSON of the classes it must end up with
	hasAny               bool
}

func newDevice(name string, caps []byte, manu [6]byte, n byte) device {
	d := device{name: name, caps: caps, manu: manu, endpoints: n, epBits: 0x40}
	cl := []*database.CommandClass{}
	for _, c := range database.GetMandatoryCommandClasses(caps[4], caps[5]) {
		x := *c
		cl = append(cl, &x)
	}
	if x := database.New(fmt.Sprintf("%02x%02x", manu[0], manu[1]), fmt.Sprintf("%02x%02x", manu[2], manu[3]), fmt.Sprintf("%02x%02x", manu[4], manu[5])); x != nil {
		d.brand, d.product, d.desc = x.Brand, x.Product, x.Description
		for _, c := range x.CommandClasses {
			y := *c
			cl = append(cl, &y)
		}
	}
	d.hasAny = len(cl) > 0
	d.classes = js(cl)
	return d
}

var devices = []device{
	newDevice("double switch", []byte{0xd3, 0x9c, 0, 4, 0x10, 0x01}, [6]byte{0x01, 0x0f, 0x04, 0x02, 0x10, 0x02}, 2),
	newDevice("unknown product", []byte{0xd3, 0x9c, 0, 4, 0x10, 0x01}, [6]byte{0x77, 0x77, 0x00, 0x01, 0x00, 0x02}, 0),
	newDevice("unlisted class", []byte{0xd3, 0x9c, 0, 4, 0x21, 0x01}, [6]byte{0x00, 0x86, 0x00, 0x02, 0x00, 0x64}, 1),
	newDevice("nothing known", []byte{0xd3, 0x9c, 0, 4, 0x77, 0x77}, [6]byte{0x77, 0x77, 0x00, 0x01, 0x00, 0x02}, 3),
	newDevice("switch and dimmer", []byte{0xd3, 0x9c, 0, 4, 0x10, 0x01}, [6]byte{0x01, 0x0f, 0x01, 0x00, 0x10, 0x0a}, 0),
	newDevice("no classes in the database", []byte{0xd3, 0x9c, 0, 4, 0x10, 0x01}, [6]byte{0x00, 0x97, 0x00, 0x24, 0x00, 0x45}, 2),
	newDevice("no classes at all", []byte{0xd3, 0x9c, 0, 4, 0x77, 0x77}, [6]byte{0x00, 0x97, 0x00, 0x24, 0x00, 0x45}, 2),
	newDevice("repeated classes", []byte{0xd3, 0x9c, 0, 4, 0x10, 0x01}, [6]byte{0x01, 0x15, 0x01, 0x00, 0x00, 0x01}, 3),
	newDevice("many endpoints", []byte{0xd3, 0x9c, 0, 4, 0x10, 0x01}, [6]byte{0x01, 0x0f, 0x02, 0x00, 0x01, 0x02}, 127),
}

var sleeper = newDevice("sleeping sensor", []byte{0x53, 0x9c, 0, 4, 0x21, 0x01}, [6]byte{0x00, 0x86, 0x00, 0x02, 0x00, 0x64}, 1)

// dev16 answers for one node and keeps count.
type dev16 struct {
	s         *Sys
	id        byte
	d         device
	answered  map[string]time.Duration // when a kind of request was answered properly, still within its timeout
	asked     map[string]int
	again     string
	misbehave func(kind string, n int) int
	unknown   int
	log       []string
	frames    []Wr
	wakes     []time.Duration // when it reported a wake-up
	stale     string          // a request that it cannot have heard
	sleeps    bool
}

// awakeFor is how long a sleeping device listens after it has reported a wake-up.
const awakeFor = 10*time.Second + 500*ms

const (
	mAnswer = iota
	mAckOnly
	mNothing
	mNak
	mCan
	mUndecodable
	mOtherNode
	mWrongReport
	mLate
	mLoss
	mSlow
	nMis
)

func (d *dev16) kind(f []byte) string {
	switch {
	case len(f) == 6 && f[3] == 0x41 && f[4] == d.id:
		return "capabilities"
	case len(f) > 8 && f[3] == 0x13 && f[4] == d.id:
		switch {
		case f[6] == 0x72 && f[7] == 0x04:
			return "manufacturer"
		case f[6] == 0x60 && f[7] == 0x07:
			return "endpoints"
		}
		return fmt.Sprintf("state %02x", f[6])
	}
	return ""
}

func (d *dev16) answer(kind string, node byte) []byte {
	switch kind {
	case "capabilities":
		return capFrame(d.d.caps...)
	case "manufacturer":
		return report(node, append([]byte{0x72, 0x05}, d.d.manu[:]...)...)
	case "endpoints":
		return report(node, 0x60, 0x08, d.d.epBits, d.d.endpoints)
	}
	return nil
}

// handle plays the device; false: not for this one.
func (d *dev16) handle(p *Port, f []byte) bool {
	k := d.kind(f)
	if k == "" {
		return false
	}
	d.frames = append(d.frames, Wr{At: now(), Data: f})
	d.asked[k]++
	d.log = append(d.log, k)
	if d.sleeps && k != "capabilities" && d.stale == "" {
		if n := len(d.wakes); n == 0 || now()-d.wakes[n-1] > awakeFor {
			d.stale = fmt.Sprintf("a sleeping node was sent %x (%s) at %v, it reported wake-ups at %v", f, k, now(), d.wakes)
		}
	}
	if at, ok := d.answered[k]; ok && d.again == "" {
		d.again = fmt.Sprintf("node %d was asked for its %s again at %v, it had answered at %v (requests %v)", d.id, k, now(), at, d.log)
	}
	good := d.answer(k, d.id)
	if good == nil {
		p.FeedAfter(5*ms, ack)
		return true
	}
	m := mAnswer
	if d.misbehave != nil {
		m = d.misbehave(k, d.asked[k])
	}
	switch m {
	case mAnswer:
		p.FeedAfter(5*ms, ack)
		p.FeedAfter(20*ms, good)
		d.answered[k] = now() + 20*ms
	case mAckOnly:
		p.FeedAfter(5*ms, ack)
	case mNothing:
	case mNak:
		p.FeedAfter(5*ms, nak)
	case mCan:
		p.FeedAfter(5*ms, can)
	case mUndecodable:
		p.FeedAfter(5*ms, ack)
		switch k {
		case "capabilities":
			p.FeedAfter(20*ms, capFrame(d.d.caps[:3]...))
		case "manufacturer":
			p.FeedAfter(20*ms, report(d.id, 0x72, 0x05, 0x01, 0x0f))
		default:
			p.FeedAfter(20*ms, report(d.id, 0x60, 0x08))
		}
	case mOtherNode:
		p.FeedAfter(5*ms, ack)
		switch k {
		case "capabilities":
			p.FeedAfter(20*ms, frame(0x00, 0x41, d.id))
		case "manufacturer":
			p.FeedAfter(20*ms, report(d.id+4, 0x72, 0x05, 0, 0x86, 0, 2, 0, 0x4a))
		default:
			p.FeedAfter(20*ms, report(d.id+4, 0x60, 0x08, 0, 9))
		}
	case mWrongReport:
		p.FeedAfter(5*ms, ack)
		switch k {
		case "capabilities":
			p.FeedAfter(20*ms, nodeListFrame(1, 9))
		case "manufacturer":
			p.FeedAfter(20*ms, report(d.id, 0x72, 0x07, 0, 0x86, 0, 2, 0, 0x4a))
		default:
			p.FeedAfter(20*ms, report(d.id, 0x60, 0x0a, 0, 9))
		}
	case mLate:
		p.FeedAfter(5*ms, ack)
		if k == "endpoints" {
			p.FeedAfter(3*time.Second, good)
		} else {
			p.FeedAfter(12*time.Second, good)
		}
	case mSlow: // late, but within the timeout
		p.FeedAfter(5*ms, ack)
		after := 8 * time.Second
		if k == "endpoints" {
			after = 1500 * ms
		}
		p.FeedAfter(after, good)
		d.answered[k] = now() + after
	case mLoss:
		vs.AddTimer(30*ms, func() { p.err = errRead })
	}
	return true
}

func newDev16(s *Sys, id byte, d device) *dev16 {
	return &dev16{s: s, id: id, d: d, answered: map[string]time.Duration{}, asked: map[string]int{}}
}

// heard judges that a sleeping device was awake when it was asked something.
func (d *dev16) heard() {
	if d.stale != "" {
		fail("%s", d.stale)
	}
}

// wakeUp makes the device report a wake-up.
func (d *dev16) wakeUp(f []byte) {
	d.wakes = append(d.wakes, now())
	d.s.Op.Cur().Feed(f)
}

// final compares the node with the device's description.
func (d *dev16) final(classes string, brand, product, desc string, endpoints int) {
	s := d.s
	n := s.node(int(d.id))
	pi := n.ProtocolInfo()
	if pi == nil {
		fail("%s: identification did not get the capabilities (requests %v)", d.d.name, d.log)
	}
	if pi.Listening != (d.d.caps[0]&0x80 != 0) || pi.Generic != d.d.caps[4] || pi.Specific != d.d.caps[5] {
		fail("%s: the node has capabilities %+v, the device answered %x", d.d.name, pi, d.d.caps)
	}
	if !n.IsDeviceClass(d.d.caps[4], d.d.caps[5]) {
		fail("%s: the node is not of its own device class", d.d.name)
	}
	rlocked(n, func() {
		want := fmt.Sprintf("%x:%x:%x", d.d.manu[:2], d.d.manu[2:4], d.d.manu[4:])
		m := n.ManufacurerSpecific
		if m == nil {
			fail("%s: identification did not get the manufacturer ids (requests %v)", d.d.name, d.log)
		}
		if got := m.Manufacturer + ":" + m.Type + ":" + m.ID; got != want {
			fail("%s: manufacturer ids %s, the device answered %s", d.d.name, got, want)
		}
		if n.Brand != brand || n.Product != product || n.Description != desc {
			fail("%s: the node is a %q %q (%q), should be %q %q (%q)", d.d.name, n.Brand, n.Product, n.Description, brand, product, desc)
		}
		cl := n.CommandClasses
		if cl == nil {
			cl = []*database.CommandClass{}
		}
		if got := js(cl); got != classes {
			fail("%s: command classes %s, should be %s (requests %v)", d.d.name, got, classes, d.log)
		}
		if endpoints >= 0 && len(n.Endpoints) != endpoints {
			fail("%s: %d endpoints, the device has %d (requests %v)", d.d.name, len(n.Endpoints), endpoints, d.log)
		}
		for i, e := range n.Endpoints {
			if e.Id != i+1 || n.Endpoint(i+1) != e {
				fail("%s: endpoint %d has the id %d", d.d.name, i+1, e.Id)
			}
			if got := js(e.CommandClasses); got != classes {
				fail("%s: endpoint %d has the classes %s, the node has %s", d.d.name, i+1, got, classes)
			}
		}
		if n.IsAwake != pi.Listening {
			fail("%s: awake=%v, listening=%v", d.d.name, n.IsAwake, pi.Listening)
		}
	})
	for _, c := range []int{0x25, 0x26, 0x31} {
		if strings.Contains(classes, fmt.Sprintf(`"ID":%d,`, c)) && d.asked[fmt.Sprintf("state %02x", c)] == 0 {
			fail("%s: it has the class %02x and was never asked for its state (requests %v)", d.d.name, c, d.log)
		}
	}
	d.heard()
	if d.again != "" {
		fail("%s: %s", d.d.name, d.again)
	}
	if d.unknown > 0 {
		fail("%s: unknown requests", d.d.name)
	}
}

func init() {
	savedClasses := cc(0x25, 0x60, 0x31)
	run := func(fine bool) func() {
		return func() {
			vs.Exploring(true)
			ds := devices
			if fine {
				ds = devices[:5]
			}
			d := ds[vs.Choose(len(ds), 0)]
			restored := vs.Choose(5, 0)
			vs.Exploring(false)
			s := newSys(1, 5, 6)
			d5, d6 := newDev16(s, 5, d), newDev16(s, 6, devices[0])
			total := 0
			d5.misbehave = func(k string, n int) int {
				if total++; total > 7 {
					return mAnswer
				}
				if fine {
					return []int{mAnswer, mAckOnly, mUndecodable, mNak}[vs.Choose(4, 1)]
				}
				vs.Exploring(true)
				c := vs.Choose(nMis, 1)
				vs.Exploring(false)
				return c
			}
			s.handler = func(p *Port, f []byte) bool { return d5.handle(p, f) || d6.handle(p, f) }
			classes, brand, product, desc, eps := d.classes, d.brand, d.product, d.desc, int(d.endpoints)
			if !d.hasAny {
				eps = 0
			}
			j := jnode(5, 0x25, 0x60, 0x31)
			m := J{"manufacturer": fmt.Sprintf("%x", d.manu[:2]), "type": fmt.Sprintf("%x", d.manu[2:4]), "id": fmt.Sprintf("%x", d.manu[4:])}
			j["ManufacurerSpecific"] = m
			j["CommandClasses"] = savedClasses
			saved := true
			switch restored {
			case 0:
				saved = false
			case 1: // all there
				j["Endpoints"] = jendpoints(2, 0x25, 0x60, 0x31)
				eps = 2
			case 2: // the endpoints are not known yet
				j["Endpoints"] = nil
				eps = int(d.endpoints)
			case 3: // stopped before the manufacturer ids
				j["ManufacurerSpecific"] = nil
				j["Endpoints"] = nil
				j["Brand"], j["Product"], j["Description"] = "", "", ""
				saved = true
			case 4: // saved as sleeping
				j["is_awake"] = false
				j["Endpoints"] = []interface{}{}
				eps = 0
			}
			if saved {
				vos.Cur.Put(cfg, jfile(j))
			}
			if restored == 1 || restored == 2 || restored == 4 {
				var cl []*database.CommandClass
				for _, c := range []byte{0x25, 0x60, 0x31} {
					cl = append(cl, classes1(c))
				}
				classes, brand, product, desc = js(cl), "b", "p", "d"
			}
			if fine {
				vs.Exploring(true)
			}
			s.connect(cfg)
			s.ev = s.drain()
			sleep(20 * time.Second)
			vs.Exploring(false)
			sleep(380 * time.Second)
			if restored == 1 || restored == 2 || restored == 4 {
				if d5.asked["manufacturer"] > 0 {
					fail("%s: a restored node was asked for its manufacturer ids although they were saved", d.name)
				}
			}
			if (restored == 1 || restored == 4) && d5.asked["endpoints"] > 0 {
				fail("%s: a restored node was asked for its endpoints although they were saved", d.name)
			}
			d5.final(classes, brand, product, desc, eps)
			d6.final(devices[0].classes, devices[0].brand, devices[0].product, devices[0].desc, 2)
			if s.ev.updated(5) == 0 {
				fail("identification raised no update event")
			}
			// it has finished: no further request
			before := len(d5.log) + len(d6.log)
			sleep(60 * time.Second)
			if n := len(d5.log) + len(d6.log); n != before {
				fail("identification goes on after everything was answered: %v %v", d5.log, d6.log)
			}
			note("%v", d5.log)
		}
	}
	reg(&Scenario{Prop: "C16", Name: "C16/failures", Bound: [2]int{2, 3}, Run: run(false)})
	// every request fails in the same way for a long time
	reg(&Scenario{Prop: "C16", Name: "C16/stubborn", Bound: [2]int{0, 0}, Run: func() {
		vs.Exploring(true)
		d := devices[vs.Choose(len(devices), 0)]
		kind := []string{"capabilities", "manufacturer", "endpoints"}[vs.Choose(3, 0)]
		m := 1 + vs.Choose(nMis-1, 0)
		times := []int{3, 6, 12, 60}[vs.Choose(4, 0)]
		if m == mCan && times > 6 {
			times = 6 // The answer must come within the timeout
		}
		vs.Exploring(false)
		s := newSys(1, 5)
		d5 := newDev16(s, 5, d)
		d5.misbehave = func(k string, n int) int {
			if k == kind && n <= times {
				return m
			}
			return mAnswer
		}
		s.handler = d5.handle
		s.connect("")
		s.ev = s.drain()
		eps := int(d.endpoints)
		if !d.hasAny {
			eps = 0
		}
		sleep(time.Duration(times)*22*time.Second + 60*time.Second)
		d5.final(d.classes, d.brand, d.product, d.desc, eps)
		note("%v", d5.log)
	}})
	reg(&Scenario{Prop: "C16", Name: "C16/schedule", Bound: [2]int{1, 1}, Run: run(true)})
	c17()
}

func classes1(c byte) *database.CommandClass { return classes(c)[0] }

func c17() {
	wake := report(5, 0x84, 0x07)
	setup := func(restored J) (*Sys, *dev16) {
		s := newSys(1, 5)
		d := newDev16(s, 5, sleeper)
		d.sleeps = true
		d.d.caps = append([]byte{}, sleeper.caps...)
		s.handler = func(p *Port, f []byte) bool { return d.handle(p, f) }
		if restored != nil {
			vos.Cur.Put(cfg, jfile(restored))
		}
		return s, d
	}
	asleep := func(d *dev16, when string) {
		d.heard()
		for _, w := range d.frames {
			if d.kind(w.Data) != "capabilities" {
				fail("%s: a sleeping node was sent %x (%s) before it reported a wake-up", when, w.Data, d.kind(w.Data))
			}
		}
	}
	// progress wakes the node up until its identification is complete: every wake-up it waits for must take it on
	progressWith := func(s *Sys, d *dev16, complete func() bool, wake []byte) {
		for i := 0; i < 12; i++ {
			if complete() {
				return
			}
			n := len(d.frames)
			d.wakeUp(wake)
			sleep(6 * time.Second)
			if len(d.frames) == n && !complete() {
				fail("the node waited for a wake-up and did not proceed when one arrived (requests so far %v): %s", d.log, vs.Dump())
			}
		}
		fail("identification is not complete after 12 wake-ups: %v", d.log)
	}
	progress := func(s *Sys, d *dev16, complete func() bool) { progressWith(s, d, complete, wake) }
	done := func(d *dev16) func() bool {
		return func() bool { return d.asked["state 31"] > 0 && d.asked["endpoints"] > 0 && d.asked["manufacturer"] > 0 }
	}
	for _, fine := range []bool{false, true} {
		fine := fine
		name, bound := "C17/wakeups", [2]int{1, 2}
		if fine {
			name, bound = "C17/schedule", [2]int{1, 2}
		}
		reg(&Scenario{Prop: "C17", Name: name, Bound: bound, Fine: fine, Run: func() {
			s, d := setup(nil)
			vs.Exploring(true)
			times := []time.Duration{0, 1, 5 * ms, 100 * ms, 990 * ms, 3 * time.Second}
			capDelay, n, at, gap, direct, step := 20*ms, 1, time.Duration(0), time.Duration(0), 0, 0
			if !fine {
				n = 1 + vs.Choose(3, 0)
				at = times[vs.Choose(len(times), 0)]
				gap = times[vs.Choose(4, 0)]
				step = vs.Choose(3, 0)
			} else {
				n = 1 + vs.Choose(2, 0)
				direct = vs.Choose(2, 0)
				step = vs.Choose(2, 0)
			}
			vs.Exploring(false)
			_ = capDelay
			s.connect("")
			s.ev = s.drain()
			asleep(d, "after discovery")
			// step: how many wake-ups have already taken it on
			for i := 0; i < step; i++ {
				d.wakeUp(wake)
				if i < step-1 {
					sleep(2 * time.Second)
				} else if fine {
					sleep(100 * ms)
				}
			}
			if step == 0 {
				asleep(d, "before any wake-up")
			}
			vs.Exploring(true)
			if step == 0 && fine {
				// race the answer of the capability lookup: forget it and ask again
				vs.GoNamed("identify", func() { s.node(5).Identify() })
			}
			if at > 0 {
				sleep(at)
			}
			for i := 0; i < n; i++ {
				d.wakeUp(wake)
				if direct == 1 {
					vs.GoNamed("wake", func() { d.wakes = append(d.wakes, now()); s.node(5).ProcessEvent(&reports.WakeUp{}) })
				}
				if gap > 0 {
					sleep(gap)
				}
			}
			sleep(4 * time.Second)
			vs.Exploring(false)
			if !fine || step > 0 {
				progress(s, d, done(d))
				d.final(sleeper.classes, sleeper.brand, sleeper.product, sleeper.desc, 1)
			} else {
				progress(s, d, done(d))
			}
			d.heard()
			note("%v", d.log)
		}})
	}
	// several tasks wait for the same wake-up
	reg(&Scenario{Prop: "C17", Name: "C17/waiters", Bound: [2]int{1, 2}, Fine: true, Run: func() {
		s, d := setup(nil)
		d.misbehave = func(k string, n int) int { return mAckOnly }
		vs.Exploring(true)
		extra := 1 + vs.Choose(2, 0)
		wakes := 1 + vs.Choose(2, 0)
		vs.Exploring(false)
		d.misbehave = func(k string, n int) int {
			if k == "capabilities" {
				return mAnswer
			}
			return mAckOnly
		}
		s.connect("")
		s.ev = s.drain()
		sleep(time.Second)
		for i := 0; i < extra; i++ {
			vs.GoNamed("identify", func() { s.node(5).Identify() })
		}
		sleep(time.Second)
		asleep(d, "before any wake-up")
		vs.Exploring(true)
		for i := 0; i < wakes; i++ {
			d.wakeUp(wake)
		}
		sleep(400 * ms)
		vs.Exploring(false)
		sleep(4 * time.Second)
		if n := d.asked["manufacturer"]; n != extra+1 {
			fail("%d tasks waited for the wake-up of the node, %d of them proceeded when it arrived", extra+1, n)
		}
		d.heard()
		note("%v", d.log)
	}})
	// it does not answer when it is awake and is asked again at its next wake-ups only
	reg(&Scenario{Prop: "C17", Name: "C17/stubborn", Bound: [2]int{1, 2}, Run: func() {
		vs.Exploring(true)
		kind := []string{"manufacturer", "endpoints"}[vs.Choose(2, 0)]
		m := []int{mAckOnly, mNothing, mNak, mUndecodable, mOtherNode, mLate, mLoss, mSlow}[vs.Choose(8, 0)]
		times := 1 + vs.Choose(3, 0)
		every := []time.Duration{60 * time.Second, 13 * time.Second, 300 * time.Second}[vs.Choose(3, 0)]
		restored := vs.Choose(3, 0)
		vs.Exploring(false)
		var j J
		if restored > 0 {
			j = jnode(5, 0x31)
			j["is_awake"] = restored == 2
			j["Endpoints"] = nil
			j["ManufacurerSpecific"] = nil
			j["Brand"], j["Product"], j["Description"] = "", "", ""
		}
		s, d := setup(j)
		d.misbehave = func(k string, n int) int {
			if k == kind && n <= times {
				return m
			}
			return mAnswer
		}
		s.connect(cfg)
		s.ev = s.drain()
		for i := 0; i < 3*times+6; i++ {
			sleep(every)
			if i == 2 {
				vs.Exploring(true)
			}
			d.wakeUp(wake)
			sleep(3 * ms)
			vs.Exploring(false)
		}
		sleep(every)
		d.heard()
		if !done(d)() {
			fail("after %d wake-ups the identification is not complete: %v (wake-ups %v)", len(d.wakes), d.log, d.wakes)
		}
		d.final(sleeper.classes, sleeper.brand, sleeper.product, sleeper.desc, 1)
		note("%v", d.log)
	}})
	// several tasks begin to wait at the same moment
	reg(&Scenario{Prop: "C17", Name: "C17/together", Bound: [2]int{1, 2}, Fine: true, Run: func() {
		vs.Exploring(true)
		extra := 1 + vs.Choose(2, 0)
		at := []time.Duration{200 * ms, 0, 1}[vs.Choose(3, 0)]
		vs.Exploring(false)
		s, d := setup(nil)
		var answered time.Duration
		d.misbehave = func(k string, n int) int {
			switch {
			case k == "capabilities":
				return mAnswer
			case k == "manufacturer" && n == extra+1: // all of them take this answer
				vs.AddTimer(19*ms, func() { vs.Exploring(true) })
				answered = now() + 20*ms
				return mAnswer
			}
			return mAckOnly
		}
		s.connect("")
		s.ev = s.drain()
		sleep(time.Second)
		for i := 0; i < extra; i++ {
			vs.GoNamed("identify", func() { s.node(5).Identify() })
		}
		sleep(time.Second)
		asleep(d, "before any wake-up")
		d.wakeUp(wake)
		if !vs.WaitUntil("manufacturer", 5*time.Second, func() bool { return answered > 0 && vs.Now() >= answered }) {
			fail("%d tasks waited for the wake-up of the node, %d of them proceeded when it arrived", extra+1, d.asked["manufacturer"])
		}
		if at > 0 {
			sleep(at)
		}
		d.wakeUp(wake)
		sleep(100 * ms)
		vs.Exploring(false)
		sleep(time.Second)
		if at < 100*ms { // this one may have come too early
			d.wakeUp(wake)
		}
		sleep(4 * time.Second)
		if n := d.asked["endpoints"]; n != extra+1 {
			fail("%d tasks waited for the next wake-up of the node, %d of them proceeded when it arrived", extra+1, n)
		}
		d.heard()
		note("%v", d.log)
	}})
	// the capability answer races the first wake-up
	reg(&Scenario{Prop: "C17", Name: "C17/first", Bound: [2]int{2, 3}, Fine: true, Run: func() {
		vs.Exploring(true)
		at := []time.Duration{0, 1, 20 * ms}[vs.Choose(3, 0)]
		restored := vs.Choose(3, 0)
		vs.Exploring(false)
		var j J
		if restored > 0 {
			j = jnode(5, 0x31)
			j["is_awake"] = restored == 2
			j["Endpoints"] = nil
			j["ManufacurerSpecific"] = nil
		}
		s, d := setup(j)
		d.misbehave = func(k string, n int) int {
			if k == "capabilities" && n == 1 {
				vs.AddTimer(18*ms, func() { vs.Exploring(true) })
				vs.AddTimer(20*ms+at, func() { asleepNow(d, asleep); d.wakeUp(wake) })
			}
			return mAnswer
		}
		s.connect(cfg)
		s.ev = s.drain()
		sleep(1 * time.Second)
		vs.Exploring(false)
		progress(s, d, done(d))
		d.heard()
		note("%v", d.log)
	}})
	// nobody wakes up; a wake-up of a node nobody waits for; many at once
	reg(&Scenario{Prop: "C17", Name: "C17/asleep", Bound: [2]int{0, 1}, Run: func() {
		vs.Exploring(true)
		restored := vs.Choose(6, 0)
		miss := vs.Choose(4, 0)
		first := vs.Choose(8, 0)  // routing, beaming, ... of the first byte, never listening
		second := vs.Choose(4, 0) // frequently listening
		wake := wake
		if st := []byte{0, 0x01, 0x08, 0x44}[vs.Choose(4, 0)]; st != 0 { // its reception status
			wake = frame(0, 0x04, st, 5, 2, 0x84, 0x07)
		}
		vs.Exploring(false)
		progress := func(s *Sys, d *dev16, ok func() bool) { progressWith(s, d, ok, wake) }
		var j J
		if restored > 0 {
			j = jnode(5, 0x31)
			j["is_awake"] = restored == 2 || restored == 5
			j["Endpoints"] = nil
			if restored > 3 {
				j["Endpoints"] = jendpoints(1, 0x31)
			}
			if restored < 3 {
				j["ManufacurerSpecific"] = nil
			}
		}
		s, d := setup(j)
		d.d.caps[0] = byte(first<<4) | 3
		d.d.caps[1] = []byte{0x9c, 0x40, 0x20, 0x7f}[second]
		d.misbehave = func(k string, n int) int {
			if k == "capabilities" && n == 1 {
				return []int{mAnswer, mAckOnly, mUndecodable, mNak}[miss]
			}
			return mAnswer
		}
		s.connect(cfg)
		s.ev = s.drain()
		sleep(300 * time.Second)
		asleep(d, "without a wake-up")
		if d.asked["capabilities"] == 0 {
			fail("the node was not asked for its capabilities")
		}
		// other reports are no wake-up
		s.Op.Cur().Feed(sensorReport(5, 1, 3))
		s.Op.Cur().Feed(report(6, 0x84, 0x07))
		sleep(30 * time.Second)
		asleep(d, "after another report")
		ok := done(d)
		if restored > 3 {
			ok = func() bool { return d.asked["state 31"] > 0 }
		} else if restored == 3 {
			ok = func() bool { return d.asked["state 31"] > 0 && d.asked["endpoints"] > 0 }
		}
		progress(s, d, ok)
		d.heard()
		note("%v", d.log)
	}})
	reg(&Scenario{Prop: "C17", Name: "C17/concurrent", Bound: [2]int{2, 3}, Fine: true, Run: func() {
		s := startWith(J{"id": 5, "is_awake": false})
		n := s.node(5)
		vs.Exploring(true)
		for i := 0; i < 3; i++ {
			vs.GoNamed("wake", func() { n.ProcessEvent(&reports.WakeUp{}) })
		}
		s.Op.Cur().Feed(cat(wake, wake))
		sleep(100 * ms)
		vs.Exploring(false)
	}})
}

func asleepNow(d *dev16, f func(*dev16, string)) { f(d, "before the first wake-up") }
