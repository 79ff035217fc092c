package main

import (
	"bytes"
	"fmt"
	"time"

	"gzmc/vs"
)

// rx is a reference receiver: what a correct receiver makes of chunks of bytes arriving at given times.
type rx struct {
	buf    []byte
	last   time.Duration
	any    bool
	frames [][]byte
	ends   []int // input offset of each frame's last byte
	off    int
}

func (r *rx) feed(at time.Duration, b []byte) {
	if r.any && at-r.last > 40*ms {
		r.buf = nil
	}
	r.any, r.last = true, at
	r.buf = append(r.buf, b...)
	r.off += len(b)
	for len(r.buf) > 0 {
		switch c := r.buf[0]; {
		case c == 0x01:
			if len(r.buf) < 2 || len(r.buf) < int(r.buf[1])+2 {
				return
			}
			n := int(r.buf[1]) + 2
			if n > 2 && fsum(r.buf[1:n-1]) == r.buf[n-1] {
				r.frames = append(r.frames, append([]byte(nil), r.buf[:n]...))
				r.ends = append(r.ends, r.off-len(r.buf)+n)
				r.buf = r.buf[n:]
			} else {
				r.buf = r.buf[1:]
			}
		default:
			r.buf = r.buf[1:]
		}
	}
}

// rxScene feeds chunks to a running controller and compares what arrives with the reference.
// Nodes 5 and 6 are known; sensor reports from them carry a serial number as value.
type rxScene struct {
	s    *Sys
	ref  rx
	ev   *Events
	ends []int
}

func newRxScene() *rxScene {
	s := startWith(jnode(5, 0x31), jnode(6, 0x31))
	x := &rxScene{s: s, ev: s.drain()}
	sleep(50 * ms)
	x.ev.reset()
	return x
}

// sensorReport is a valid frame whose report says "sensor type t of the node reads v".
func sensorReport(node, t byte, v int) []byte {
	return report(node, 0x31, 0x05, t, 0x02, byte(v>>8), byte(v))
}

// chunk feeds one chunk now.
func (x *rxScene) chunk(b []byte) {
	if len(b) == 0 {
		return
	}
	x.s.Op.Cur().Feed(b)
	for len(b) > 128 {
		x.ref.feed(now(), b[:128]) // the reader's buffer; contiguous, no silence
		b = b[128:]
	}
	x.ref.feed(now(), b)
}

// sensorKey is the state entry of a sensor type in a report without precision.
var sensorKey = map[byte]string{1: "temperature_c", 2: "general_%", 4: "power_w", 5: "relativehumidity_%", 0x10: "current_a"}

// verify compares everything observable with the reference once all is quiet.
func (x *rxScene) verify() {
	s := x.s
	if s.Op.overlap != "" {
		fail("%s", s.Op.overlap)
	}
	if len(s.Op.opens) != 1 {
		fail("the port was reopened although reading never failed")
	}
	acks := 0
	k := 0
	for _, w := range s.Op.writes[s.base:] {
		if !isAck(w.Data) {
			fail("unexpected bytes written: %x", w.Data)
		}
		acks++
		if k < len(x.ref.ends) && w.Read < x.ref.ends[k] {
			fail("ACK %d was sent when %d bytes had been read, before the end of its frame (byte %d)", k+1, w.Read, x.ref.ends[k])
		}
		k++
	}
	if acks != len(x.ref.frames) {
		fail("%d well-formed frames were received, %d ACK bytes sent (frames %x)", len(x.ref.frames), acks, x.ref.frames)
	}
	upd := map[int]int{}
	state := map[int]map[string]float64{5: {}, 6: {}}
	for _, f := range x.ref.frames {
		if len(f) >= 14 && f[3] == 0x04 && (f[5] == 5 || f[5] == 6) && f[6] == 6 && f[7] == 0x31 && f[8] == 5 && f[10] == 2 && sensorKey[f[9]] != "" {
			upd[int(f[5])]++
			state[int(f[5])][sensorKey[f[9]]] = float64(int16(f[11])<<8 | int16(f[12]))
		}
	}
	for _, id := range []int{5, 6} {
		if g := x.ev.updated(id); g != upd[id] {
			fail("node %d: %d reports were received, %d were delivered", id, upd[id], g)
		}
		n := s.node(id)
		var got string
		rlocked(n, func() { got = js(n.StateFloat) })
		if want := js(state[id]); got != want {
			fail("node %d: state %s after the reports, should be %s", id, got, want)
		}
	}
	note("frames=%d acks=%d st=%s", len(x.ref.frames), acks, js(state))
}

func cat(bs ...[]byte) []byte { return bytes.Join(bs, nil) }

func init() {
	undecodable := report(5, 0x31, 0x02, 0x00, 0x01) // a report the library does not know
	response := frame(0x01, 0x13, 0x01)
	callback := frame(0x00, 0x13, 0x22, 0x00)
	bigAlarm := func(n byte) []byte { return report(7, append([]byte{0x71, 0x05}, bytes.Repeat([]byte{n}, 100)...)...) }
	streams := [][]byte{
		cat(sensorReport(5, 1, 1), sensorReport(6, 4, 0x0106)),
		cat(ack, sensorReport(5, 1, 0x0101), ack, nak, sensorReport(5, 4, 0x1506), can, response),
		cat(sensorReport(5, 1, 7), sensorReport(5, 1, 8), sensorReport(5, 5, 0x0606)),
		cat(response, callback, sensorReport(6, 1, 0x0118), undecodable, sensorReport(6, 5, 2)),
		cat(nodeListFrame(1, 5), capFrame(0x53, 0x9c, 0, 4, 0x10, 1), sensorReport(5, 2, 0x0101)),
		cat(bigAlarm(1), sensorReport(5, 1, 3), bigAlarm(6), sensorReport(6, 1, 4)),
	}
	reg(&Scenario{Prop: "C07", Name: "C07/cuts", Bound: [2]int{2, 3}, Run: func() {
		vs.Exploring(true)
		st := streams[vs.Choose(len(streams), 0)]
		// base: no cut, every byte alone, pairs, 7s; deviations: toggled cuts with a gap
		base := []int{1 << 20, 1, 2, 7, 128}[vs.Choose(5, 0)]
		gaps := []time.Duration{0, 40 * ms, 13 * ms, 1}
		gap := gaps[vs.Choose(4, 0)]
		type piece struct {
			b   []byte
			gap time.Duration
		}
		var ps []piece
		prev := 0
		for i := 1; i <= len(st); i++ {
			cut := i%base == 0
			if i < len(st) && base != 1 && i < 36 {
				switch vs.Choose(3, 1) {
				case 1:
					cut = !cut
				case 2:
					ps = append(ps, piece{st[prev:i], 40 * ms})
					prev = i
					continue
				}
			}
			if cut || i == len(st) {
				ps = append(ps, piece{st[prev:i], gap})
				prev = i
			}
		}
		vs.Exploring(false)
		x := newRxScene()
		for _, p := range ps {
			x.chunk(p.b)
			if p.gap > 0 {
				sleep(p.gap)
			}
		}
		sleep(3000 * ms)
		x.verify()
	}})
	// all chunkings of a short stream
	reg(&Scenario{Prop: "C07", Name: "C07/all", Cap: [2]int{0, 0}, Tier: 1, Run: func() {
		vs.Exploring(true)
		st := cat(sensorReport(6, 1, 0x0106), ack, response)
		mask := 0
		for i := 1; i < len(st); i++ {
			mask |= vs.Choose(2, 0) << uint(i)
		}
		g := []time.Duration{0, 40 * ms}[vs.Choose(2, 0)]
		vs.Exploring(false)
		x := newRxScene()
		prev := 0
		for i := 1; i <= len(st); i++ {
			if i == len(st) || mask>>uint(i)&1 == 1 {
				x.chunk(st[prev:i])
				prev = i
				if g > 0 {
					sleep(g)
				}
			}
		}
		sleep(1500 * ms)
		x.verify()
	}})
	for i := range streams {
		i := i
		reg(&Scenario{Prop: "C07", Name: fmt.Sprintf("C07/schedule%d", i), Bound: [2]int{2, 3}, Fine: true, Run: func() {
			x := newRxScene()
			st := streams[i]
			vs.Exploring(true)
			prev := 0
			for k := 1; k <= len(st); k++ {
				if k%9 == 0 || k == len(st) {
					x.chunk(st[prev:k])
					prev = k
					if k%2 == 0 {
						sleep(5 * ms)
					}
				}
			}
			sleep(3000 * ms)
			vs.Exploring(false)
			x.verify()
		}})
	}
	// commands are written and acknowledged while frames arrive
	reg(&Scenario{Prop: "C07", Name: "C07/traffic", Bound: [2]int{2, 3}, Fine: true, Run: func() {
		x := newRxScene()
		s := x.s
		s.noAck = true
		vs.Exploring(true)
		s.command("cmd", 0x13, 6, 3, 0x25, 1, 0xff, 0x25)
		s.command("cmd", 0x13, 5, 2, 0x31, 4, 0x25)
		x.chunk(sensorReport(5, 1, 1)[:6])
		vs.WaitUntil("written", 200*ms, func() bool { return len(s.Writes()) > 0 })
		x.chunk(cat(sensorReport(5, 1, 1)[6:], ack, sensorReport(6, 1, 2)))
		sleep(60 * ms)
		x.chunk(cat(ack, response, sensorReport(5, 4, 3)[:4]))
		sleep(30 * ms)
		x.chunk(sensorReport(5, 4, 3)[4:])
		sleep(4000 * ms)
		vs.Exploring(false)
		if len(s.Writes()) != 2 {
			fail("%d commands written", len(s.Writes()))
		}
		var rest []Wr
		for _, w := range s.Op.writes[s.base:] {
			if isAck(w.Data) {
				rest = append(rest, w)
			}
		}
		s.Op.writes = append(s.Op.writes[:s.base:s.base], rest...)
		x.verify()
	}})
	c08()
}

func c08() {
	good := sensorReport(5, 1, 0x0102)
	tail := func(x *rxScene) {
		sleep(50 * ms)
		x.chunk(sensorReport(6, 1, 0x77))
		sleep(10 * ms)
		x.chunk(sensorReport(6, 4, 0x78))
		sleep(1500 * ms)
		n := s6(x)
		if n < 2 {
			fail("the valid frames after the noise and 50 ms of silence were not both delivered (%d)", n)
		}
		x.verify()
	}
	// garbage in front of a valid frame, directly before it or with a gap
	garbage := func(name string, depth [2]int, thoroughOnly int, alphabet []byte, front, back [][]byte) {
		reg(&Scenario{Prop: "C08", Name: "C08/" + name, Tier: thoroughOnly, Run: func() {
			vs.Exploring(true)
			n := vs.Choose(depth[1]+1, 0)
			var g []byte
			for i := 0; i < n; i++ {
				g = append(g, alphabet[vs.Choose(len(alphabet), 0)])
			}
			g = cat(front[vs.Choose(len(front), 0)], g, back[vs.Choose(len(back), 0)])
			mode := vs.Choose(4, 0)
			vs.Exploring(false)
			x := newRxScene()
			switch mode {
			case 0:
				x.chunk(cat(g, good))
			case 1:
				x.chunk(g)
				sleep(40 * ms)
				x.chunk(good)
			case 2:
				x.chunk(g)
				sleep(41 * ms)
				x.chunk(good)
			case 3:
				for i := range g {
					x.chunk(g[i : i+1])
					sleep(1 * ms)
				}
				x.chunk(good[:5])
				x.chunk(good[5:])
			}
			tail(x)
		}})
	}
	empty := [][]byte{nil}
	garbage("garbage", [2]int{3, 3}, 0, []byte{0x00, 0x01, 0x02, 0x03, 0x06, 0x15, 0x18, 0xff, 0x04, 0x31}, empty, empty)
	garbage("garbage5", [2]int{5, 5}, 1, []byte{0x00, 0x01, 0x03, 0x06, 0x18, 0xff, 0x02}, empty, empty)
	garbage("mixed", [2]int{1, 1}, 0, []byte{0x00, 0x01, 0x03, 0x06, 0xfd}, [][]byte{good[:1], good[:2], good[:9], good[:13], sensorReport(6, 1, 9), {0x01, 0xff}, {0x01, 0x01, 0x03}},
		[][]byte{nil, good[:2], good[:13], {0x01}, {0x01, 0x03, 0x00}, {0x15}, frame(1, 0x13, 1)})
	// every single corrupted byte of a frame
	reg(&Scenario{Prop: "C08", Name: "C08/corrupt", Run: func() {
		f := cat(sensorReport(5, 4, 0x0106))
		vs.Exploring(true)
		pos := vs.Choose(len(f), 0)
		d := []byte{1, 2, 4, 8, 16, 32, 64, 128, 0xff, 0x07}[vs.Choose(10, 0)]
		mode := vs.Choose(3, 0)
		vs.Exploring(false)
		f[pos] ^= d
		x := newRxScene()
		switch mode {
		case 0:
			x.chunk(cat(f, good))
		case 1:
			x.chunk(f)
			sleep(45 * ms)
			x.chunk(good)
		case 2:
			x.chunk(f[:7])
			sleep(20 * ms)
			x.chunk(cat(f[7:], good[:3]))
			sleep(20 * ms)
			x.chunk(good[3:])
		}
		tail(x)
	}})
	// every truncation of a frame, every silence around the limit
	reg(&Scenario{Prop: "C08", Name: "C08/partial", Run: func() {
		f := sensorReport(5, 4, 0x0601)
		vs.Exploring(true)
		k := 1 + vs.Choose(len(f)-1, 0)
		gap := []time.Duration{0, 39 * ms, 40 * ms, 41 * ms, 300 * ms}[vs.Choose(5, 0)]
		next := vs.Choose(3, 0)
		vs.Exploring(false)
		x := newRxScene()
		x.chunk(f[:k])
		sleep(gap)
		switch next {
		case 0:
			x.chunk(good)
		case 1:
			x.chunk(f[k:])
			sleep(5 * ms)
			x.chunk(good)
		case 2:
			x.chunk(cat(f[k:], good))
		}
		tail(x)
	}})
	// frames whose length fields lie
	reg(&Scenario{Prop: "C08", Name: "C08/lying", Run: func() {
		vs.Exploring(true)
		ln := 3 + vs.Choose(12, 0)
		fn := []byte{0x04, 0x02, 0x41, 0x13, 0x00, 0xff}[vs.Choose(6, 0)]
		emb := []byte{0, 1, 2, 3, 6, 7, 8, 9, 29, 30, 0x7f, 0xf8, 0xf9, 0xff}[vs.Choose(14, 0)]
		cls := []byte{0x31, 0x84, 0x71, 0x25}[vs.Choose(4, 0)]
		alone := vs.Choose(2, 0) == 1 // nothing follows in the buffer
		vs.Exploring(false)
		f := make([]byte, ln+2)
		f[0], f[1], f[3] = 1, byte(ln), fn
		set := func(i int, b byte) {
			if i < ln+1 && i > 3 {
				f[i] = b
			}
		}
		set(5, 9)
		set(6, emb)
		set(7, cls)
		set(8, 5)
		f[ln+1] = fsum(f[1 : ln+1])
		x := newRxScene()
		// someone is waiting, so that matching is exercised too
		x.s.noAck = true
		r1 := x.s.ask("req", 300*ms, 5, 0x13, 9, 2, cls, 4, 0x25)
		r2 := x.s.query("list", 300*ms, 0x02)
		r3 := x.s.query("cap", 300*ms, 0x41, 9)
		sleep(3100 * ms)
		x.s.base = len(x.s.Op.writes)
		_ = r1
		_ = r2
		_ = r3
		r4 := x.s.ask("req", 300*ms, 5, 0x13, 9, 2, cls, 4, 0x25)
		sleep(60 * ms)
		x.s.base = len(x.s.Op.writes)
		if alone {
			x.chunk(ack)
			sleep(10 * ms)
			x.chunk(f)
			sleep(60 * ms)
			x.chunk(good)
		} else {
			x.chunk(cat(ack, f, good))
		}
		sleep(1000 * ms)
		if !r4.Closed {
			fail("a request is still open long after its timeout")
		}
		tail(x)
	}})
	reg(&Scenario{Prop: "C08", Name: "C08/schedule", Bound: [2]int{2, 3}, Fine: true, Run: func() {
		x := newRxScene()
		s := x.s
		vs.Exploring(true)
		s.noAck = true
		r := s.ask("req", 400*ms, 5, 0x13, 5, 2, 0x31, 4, 0x25)
		bad := append([]byte(nil), good...)
		bad[9] ^= 0x10
		sleep(20 * ms)
		x.chunk(cat([]byte{0, 0xff, 0x18, 0x15}, bad, good[:4]))
		sleep(41 * ms)
		x.chunk(cat(can, bad[:3]))
		sleep(100 * ms)
		x.chunk(cat(good[5:], good))
		sleep(2500 * ms)
		vs.Exploring(false)
		if !r.Closed {
			fail("a request is still open long after its timeout")
		}
		var rest []Wr
		for _, w := range s.Op.writes[s.base:] {
			if isAck(w.Data) {
				rest = append(rest, w)
			}
		}
		s.Op.writes = append(s.Op.writes[:s.base:s.base], rest...)
		tail(x)
	}})
}

// s6 counts the delivered reports of node 6.
func s6(x *rxScene) int { return x.ev.updated(6) }
