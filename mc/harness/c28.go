package main

import (
	"bytes"
	"encoding/gob"
	"errors"
	"fmt"
	"io"
	"time"

	"github.com/stampzilla/gozwave/serialrecorder"
	"gzmc/vos"
	"gzmc/vs"
	"gzmc/vserial"
)

// raw28 is a port whose next results are given.
type raw28 struct {
	id     int
	rn     int
	rerr   error
	wn     int
	werr   error
	next   byte
	delay  time.Duration
	closed int
	block  bool
	rows   *[]row28
	calls  *int
}

type row28 struct {
	write bool
	data  []byte
	port  int
	at    time.Duration // when it happened
}

func (p *raw28) Read(b []byte) (int, error) {
	*p.calls++
	if p.delay > 0 {
		sleep(p.delay)
	}
	n := p.rn
	if n > len(b) {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		b[i] = p.next
		p.next++
	}
	if n > 0 {
		*p.rows = append(*p.rows, row28{false, append([]byte(nil), b[:n]...), p.id, now()})
	}
	return n, p.rerr
}

func (p *raw28) Write(b []byte) (int, error) {
	*p.calls++
	if p.delay > 0 {
		sleep(p.delay)
	}
	n := len(b)
	if p.wn >= 0 && p.wn < n {
		n = p.wn
	}
	if n > 0 {
		*p.rows = append(*p.rows, row28{true, append([]byte(nil), b[:n]...), p.id, now()})
	}
	return n, p.werr
}

func (p *raw28) Close() error {
	p.closed++
	return nil
}

// decodeLog decodes a recording; rows without bytes are not judged.
func decodeLog(b []byte) ([]row28, []time.Time) {
	dec := gob.NewDecoder(bytes.NewReader(b))
	var l []row28
	var at []time.Time
	for {
		var r serialrecorder.Row
		err := dec.Decode(&r)
		if err == io.EOF {
			return l, at
		}
		if err != nil {
			fail("row %d of the log cannot be decoded: %v", len(l)+1, err)
		}
		if len(r.Data) == 0 {
			continue
		}
		if r.Direction.IsRead() == r.Direction.IsWrite() {
			fail("row %d of the log has no direction", len(l)+1)
		}
		l = append(l, row28{write: r.Direction.IsWrite(), data: r.Data})
		at = append(at, r.Timestamp)
	}
}

// dir28 spells out one direction; ACKs are written concurrently with commands and only counted.
func dir28(l []row28, write bool) string {
	var b bytes.Buffer
	acks := 0
	for _, r := range l {
		if r.write && isAck(r.data) {
			acks++
			continue
		}
		if r.write == write {
			fmt.Fprintf(&b, "%x ", r.data)
		}
	}
	return fmt.Sprintf("%s(and %d ACKs)", b.String(), acks)
}

func judgeLog(log []byte, want []row28) {
	got, at := decodeLog(log)
	for _, w := range []bool{false, true} {
		if g, x := dir28(got, w), dir28(want, w); g != x {
			fail("the log has the rows (writes: %v) %s, transferred was %s", w, g, x)
		}
		var last time.Time
		var happened []time.Duration
		for _, r := range want {
			if r.write == w && len(r.data) > 0 {
				happened = append(happened, r.at)
			}
		}
		k := 0
		for i, r := range got {
			if r.write != w {
				continue
			}
			if len(r.data) > 0 {
				if d := at[i].Sub(vs.Base) - happened[k]; happened[k] > 0 && (d > time.Second || d < -time.Second) {
					fail("a transfer is recorded with a time %v away from when it happened", d)
				}
				k++
			}
			if at[i].Before(last) {
				fail("the time stamps of one direction go backwards: %v after %v", at[i], last)
			}
			last = at[i]
		}
	}
	note("%d rows", len(got))
}

type slowLog struct {
	buf   bytes.Buffer
	delay time.Duration
}

func (l *slowLog) Write(b []byte) (int, error) {
	vs.Yield()
	if l.delay > 0 {
		sleep(l.delay)
	}
	return l.buf.Write(b)
}

// badLog fails some of its writes.
type badLog struct {
	slowLog
	n, from, times int
	short          bool
}

func (l *badLog) Write(b []byte) (int, error) {
	if l.n++; l.n > l.from && l.n <= l.from+l.times {
		if l.short {
			return len(b) / 2, err28
		}
		return 0, err28
	}
	return l.slowLog.Write(b)
}

var err28 = errors.New("input/output error")

func init() {
	open28 := func(p *raw28) {
		vserial.Opener = func(c *vserial.Config) (vserial.RWC, error) {
			if c.Name != "/dev/rec" || c.Baud != 115200 {
				fail("the port was opened as %+v", *c)
			}
			return p, nil
		}
	}
	// all sequences of calls
	reg(&Scenario{Prop: "C28", Name: "C28/calls", Bound: [2]int{0, 0}, Run: func() {
		vs.Exploring(true)
		n := 4
		var ops []int
		for i := 0; i < n; i++ {
			ops = append(ops, vs.Choose(16, 0))
		}
		slow := vs.Choose(2, 0)
		vs.Exploring(false)
		var rows []row28
		calls := 0
		lg := &slowLog{delay: time.Duration(slow) * 30 * ms}
		rec := serialrecorder.New("/dev/rec", 115200)
		rec.Logger = lg
		p := &raw28{wn: -1, rows: &rows, calls: &calls, next: 1}
		open28(p)
		h, err := rec.Open()
		if err != nil || h == nil {
			fail("opening failed: %v", err)
		}
		buf := make([]byte, 8)
		for i, o := range ops {
			p.rn, p.rerr, p.wn, p.werr = 0, nil, -1, nil
			before := calls
			switch o {
			case 0, 1, 2, 3, 9, 10, 14:
				p.rn = map[int]int{0: 3, 1: 8, 2: 2, 3: 0, 9: 0, 10: 0, 14: 2}[o]
				if o == 2 || o == 3 {
					p.rerr = err28
				} else if o == 10 || o == 14 {
					p.rerr = io.EOF
				}
				want := []byte(nil)
				for k := 0; k < p.rn; k++ {
					want = append(want, p.next+byte(k))
				}
				for k := range buf {
					buf[k] = 0xee
				}
				n, err := h.Read(buf)
				if n != p.rn || err != p.rerr || !bytes.Equal(buf[:n], want) || calls != before+1 {
					fail("%v: call %d: read returned %d %v %x, the port %d %v %x (%d calls)", ops, i, n, err, buf[:n], p.rn, p.rerr, want, calls-before)
				}
				for k := n; k < len(buf); k++ {
					if buf[k] != 0xee {
						fail("%v: call %d: the buffer was altered after the bytes read: %x", ops, i, buf)
					}
				}
			case 4, 5, 6, 11, 12, 13:
				data := []byte{byte(i), 0x50, 0x51, byte(o)}[:3+i%2]
				if o == 13 {
					data = data[:0]
				}
				keep := append([]byte(nil), data...)
				p.wn = map[int]int{4: -1, 5: 2, 6: 0, 11: 1, 12: 0, 13: -1}[o]
				wn := len(data)
				if p.wn >= 0 {
					wn = p.wn
				}
				if o == 5 || o == 6 { // 11 and 12 are short without an error
					p.werr = err28
				}
				n, err := h.Write(data)
				if n != wn || err != p.werr || calls != before+1 {
					fail("%v: call %d: write returned %d %v, the port %d %v (%d calls)", ops, i, n, err, wn, p.werr, calls-before)
				}
				if !bytes.Equal(data, keep) {
					fail("%v: call %d: the buffer written was altered", ops, i)
				}
				for k := range data {
					data[k] = 0xdd // reused at once
				}
			case 7: // reopened
				if err := h.Close(); err != nil || p.closed != 1 {
					fail("%v: closing returned %v, the port was closed %d times", ops, err, p.closed)
				}
				p = &raw28{id: p.id + 1, wn: -1, rows: &rows, calls: &calls, next: p.next}
				open28(p)
				if h, err = rec.Open(); err != nil || h == nil {
					fail("%v: reopening failed: %v", ops, err)
				}
			case 8: // reopening fails first
				h.Close()
				vserial.Opener = func(*vserial.Config) (vserial.RWC, error) { return nil, err28 }
				if _, err := rec.Open(); err != err28 {
					fail("%v: reopening a port that is not there returned %v", ops, err)
				}
				p = &raw28{id: p.id + 1, wn: -1, rows: &rows, calls: &calls, next: p.next}
				open28(p)
				if h, err = rec.Open(); err != nil || h == nil {
					fail("%v: reopening failed: %v", ops, err)
				}
			case 15: // reopening fails, the library keeps writing to the old port meanwhile
				h.Close()
				vserial.Opener = func(*vserial.Config) (vserial.RWC, error) { return nil, err28 }
				if _, err := rec.Open(); err != err28 {
					fail("%v: reopening a port that is not there returned %v", ops, err)
				}
				p.wn, p.werr = 0, io.ErrClosedPipe
				if n, err := h.Write([]byte{1, 2, 3}); n != 0 || err != p.werr || calls != before+1 {
					fail("%v: call %d: writing to the lost port returned %d %v, the port %d %v", ops, i, n, err, 0, p.werr)
				}
				p = &raw28{id: p.id + 1, wn: -1, rows: &rows, calls: &calls, next: p.next}
				open28(p)
				if h, err = rec.Open(); err != nil || h == nil {
					fail("%v: reopening failed: %v", ops, err)
				}
			}
			for k := range buf {
				buf[k] = 0xee // reused at once
			}
			if i%2 == 1 {
				sleep(ms)
			}
		}
		sleep(10 * time.Second)
		judgeLog(lg.buf.Bytes(), rows)
	}})
	// a reader, a writer and a reopening at the same time
	reg(&Scenario{Prop: "C28", Name: "C28/schedule", Bound: [2]int{2, 3}, Fine: false, Run: func() {
		vs.Exploring(true)
		slow := []time.Duration{0, ms}[vs.Choose(2, 0)]
		port := []time.Duration{0, ms}[vs.Choose(2, 0)]
		reopen := vs.Choose(2, 0)
		vs.Exploring(false)
		var rows []row28
		calls := 0
		lg := &slowLog{delay: slow}
		rec := serialrecorder.New("/dev/rec", 115200)
		rec.Logger = lg
		p := &raw28{wn: -1, rn: 3, rows: &rows, calls: &calls, next: 1, delay: port}
		open28(p)
		h, _ := rec.Open()
		left := 3
		vs.Exploring(true)
		vs.GoNamed("read", func() {
			buf := make([]byte, 4)
			for i := 0; i < 3; i++ {
				want := p.next
				if n, err := h.Read(buf); n != 3 || err != nil || buf[0] != want {
					fail("read returned %d %v %x", n, err, buf)
				}
				for k := range buf {
					buf[k] = 0xee
				}
			}
			left--
		})
		vs.GoNamed("write", func() {
			buf := make([]byte, 3)
			for i := 0; i < 3; i++ {
				copy(buf, []byte{0xa0 + byte(i), 0xb0, 0xc0})
				if n, err := h.Write(buf); n != 3 || err != nil {
					fail("write returned %d %v", n, err)
				}
				for k := range buf {
					buf[k] = 0xdd
				}
			}
			left--
		})
		vs.GoNamed("reopen", func() {
			if reopen == 1 {
				q := &raw28{id: 1, wn: -1, rn: 3, rows: &rows, calls: &calls, next: 0x40, delay: port}
				_ = q
				open28(p) // the same device again
				if _, err := rec.Open(); err != nil {
					fail("reopening failed: %v", err)
				}
			}
			left--
		})
		sleep(2 * time.Second)
		vs.Exploring(false)
		if left > 0 {
			fail("calls do not return: %s", vs.Dump())
		}
		sleep(time.Second)
		judgeLog(lg.buf.Bytes(), rows)
	}})
	// many rows at once, more than the recorder can queue
	reg(&Scenario{Prop: "C28", Name: "C28/many", Bound: [2]int{0, 1}, Run: func() {
		vs.Exploring(true)
		n := []int{99, 100, 101, 102, 150, 400}[vs.Choose(6, 0)]
		slow := []time.Duration{0, ms, 3 * time.Second}[vs.Choose(3, 0)]
		vs.Exploring(false)
		var rows []row28
		calls := 0
		lg := &slowLog{delay: slow}
		rec := serialrecorder.New("/dev/rec", 115200)
		rec.Logger = lg
		p := &raw28{wn: -1, rn: 2, rows: &rows, calls: &calls, next: 1}
		open28(p)
		h, _ := rec.Open()
		buf := make([]byte, 300)
		for i := 0; i < n; i++ {
			h.Read(buf)
			h.Write(buf[:1+i%len(buf)])
		}
		sleep(20*time.Second + 3*time.Duration(n)*slow)
		judgeLog(lg.buf.Bytes(), rows)
	}})
	// two recorders in one process
	reg(&Scenario{Prop: "C28", Name: "C28/two", Bound: [2]int{1, 2}, Run: func() {
		vs.Exploring(true)
		baud := []int{9600, 115200}[vs.Choose(2, 0)]
		late := vs.Choose(2, 0) == 1 // the second is opened when the first has logged already
		order := vs.Choose(2, 0)
		vs.Exploring(false)
		names := []string{"/dev/rec", "/dev/other"}
		bauds := []int{115200, baud}
		var rows [2][]row28
		calls := 0
		var ports [2]*raw28
		var logs [2]*slowLog
		var recs [2]interface {
			Open() (io.ReadWriteCloser, error)
		}
		for i := range ports {
			ports[i] = &raw28{id: i, wn: -1, rn: 2, rows: &rows[i], calls: &calls, next: byte(1 + 100*i)}
			logs[i] = &slowLog{}
		}
		vserial.Opener = func(c *vserial.Config) (vserial.RWC, error) {
			for i := range ports {
				if c.Name == names[i] && c.Baud == bauds[i] {
					return ports[i], nil
				}
			}
			fail("the port was opened as %+v, asked for were %v at %v baud", *c, names, bauds)
			return nil, nil
		}
		for i := range recs {
			r := serialrecorder.New(names[i], bauds[i])
			r.Logger = logs[i]
			recs[i] = r
		}
		use := func(i int) {
			h, err := recs[i].Open()
			if err != nil {
				fail("opening failed: %v", err)
			}
			buf := make([]byte, 4)
			for j := 0; j < 3; j++ {
				want := ports[i].next
				if n, err := h.Read(buf); n != 2 || err != nil || buf[0] != want {
					fail("recorder %d: read returned %d %v %x", i, n, err, buf)
				}
				buf[2], buf[3] = byte(i), byte(j)
				if n, err := h.Write(buf[2:]); n != 2 || err != nil {
					fail("recorder %d: write returned %d %v", i, n, err)
				}
			}
		}
		vs.Exploring(true)
		vs.GoNamed("first", func() { use(order) })
		if late {
			sleep(ms)
		}
		vs.GoNamed("second", func() { use(1 - order) })
		sleep(50 * ms)
		vs.Exploring(false)
		sleep(10 * time.Second)
		for i := range logs {
			if len(rows[i]) != 6 {
				fail("recorder %d: %d transfers reached the port, 6 were made", i, len(rows[i]))
			}
			judgeLog(logs[i].buf.Bytes(), rows[i])
		}
	}})
	// the log cannot be written: the transfers are what matters
	reg(&Scenario{Prop: "C28", Name: "C28/logfails", Run: func() {
		vs.Exploring(true)
		from := []int{0, 1, 2, 3, 50}[vs.Choose(5, 0)]
		times := []int{1, 3, 1000}[vs.Choose(3, 0)]
		slow := []time.Duration{0, ms}[vs.Choose(2, 0)]
		short := vs.Choose(2, 0) == 1
		vs.Exploring(false)
		var rows []row28
		calls := 0
		rec := serialrecorder.New("/dev/rec", 115200)
		rec.Logger = &badLog{slowLog: slowLog{delay: slow}, from: from, times: times, short: short}
		p := &raw28{wn: -1, rn: 2, rows: &rows, calls: &calls, next: 1}
		open28(p)
		h, _ := rec.Open()
		done := 0
		vs.GoNamed("transfer", func() {
			buf := make([]byte, 4)
			for i := 0; i < 300; i++ {
				want := p.next
				if n, err := h.Read(buf); n != 2 || err != nil || buf[0] != want {
					fail("read %d returned %d %v %x while the log cannot be written", i, n, err, buf)
				}
				if n, err := h.Write(buf[:3]); n != 3 || err != nil {
					fail("write %d returned %d %v while the log cannot be written", i, n, err)
				}
				done++
			}
		})
		sleep(20 * time.Second)
		if done != 300 {
			fail("the log fails from write %d on (%d times): after %d transfers the port can no longer be used: %s", from, times, done, vs.Dump())
		}
	}})
	// the whole library through the recorder, with outages
	reg(&Scenario{Prop: "C28", Name: "C28/library", Bound: [2]int{1, 2}, Run: func() {
		s := newSys(1, 5)
		s.recorder = true
		d := newDev16(s, 5, devices[0])
		s.handler = func(p *Port, f []byte) bool { return d.handle(p, f) }
		vos.Cur.Put(cfg, jfile(jnode(5, 0x25, 0x26)))
		vs.Exploring(true)
		fails := vs.Choose(3, 0)
		cut := vs.Choose(3, 0)
		vs.Exploring(false)
		s.connect(cfg)
		s.drain()
		n := s.node(5)
		vs.Exploring(true)
		vs.GoNamed("commands", func() { n.On(); n.Level(20) })
		f := report(5, 0x26, 3, 12)
		s.Op.Cur().Feed(f[:3*cut])
		s.Op.Cur().Feed(f[3*cut:])
		sleep(100 * ms)
		if fails > 0 {
			k := 0
			s.Op.openErr = func(int) error {
				if k++; k < fails {
					return errOpen
				}
				return nil
			}
			s.Op.Cur().err = errRead
			sleep(25 * time.Second)
			s.Op.Cur().Feed(report(5, 0x26, 3, 13))
			n.Off()
			sleep(100 * ms)
		}
		vs.Exploring(false)
		sleep(5 * time.Second)
		var want []row28
		for _, r := range s.Op.got {
			want = append(want, row28{data: r})
		}
		for _, w := range s.Op.writes {
			want = append(want, row28{write: true, data: w.Data})
		}
		judgeLog(s.log.Bytes(), want)
	}})
}
