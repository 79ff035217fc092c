package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"time"

	gozwave "github.com/stampzilla/gozwave"
	"github.com/stampzilla/gozwave/serialrecorder"
	"gzmc/vos"
	"gzmc/vs"
	"gzmc/vserial"
)

const ms = time.Millisecond

// Wr is one Write call on the port.
type Wr struct {
	At   time.Duration
	Data []byte
	Port int
	Seq  int
	Read int // bytes read from the port so far
}

// Port is a simulated serial port. Everything fed into it is returned by Read chunk by chunk.
type Port struct {
	op      *Opener
	id      int
	in      [][]byte
	err     error // returned by Read once the queue is empty
	werr    error
	once    bool // only one Read fails, then the port is silent until it is closed
	dead    bool
	closed  bool
	closing bool
	lost    bool
	cell    vs.VCell
	reads   int
	fed     int
	reading int
	got     int // bytes read
}

// Opener hands out ports and records every call.
type Opener struct {
	ports       []*Port
	opens       []time.Duration
	openErr     func(n int) error
	writes      []Wr
	onWrite     func(p *Port, data []byte)
	closes      []time.Duration
	maxOpen     int
	openDelay   time.Duration
	closeDelay  time.Duration
	readErr     error // instead of errRead
	writeDelay  time.Duration
	reopenErr   error
	writeErr    func(b []byte) error
	overlap     string // first overlapping use of two ports
	writing     int
	got         [][]byte // what every Read returned
	doubleWrite string
}

var errOpen = errors.New("open: no such port")
var errRead = errors.New("read: input/output error")
var errClosed = errors.New("port is closed")

func (o *Opener) Open() (io.ReadWriteCloser, error) {
	vs.Yield()
	n := len(o.opens)
	o.opens = append(o.opens, vs.Now())
	vs.Trace("open #%d", n)
	if o.openDelay > 0 {
		vs.Sleep(o.openDelay)
	}
	if o.openErr != nil {
		if err := o.openErr(n); err != nil {
			return nil, err
		}
	}
	for _, p := range o.ports {
		if !p.closed && o.overlap == "" {
			o.overlap = fmt.Sprintf("port %d opened at %v while port %d is still open", n, vs.Now(), p.id)
		}
	}
	p := &Port{op: o, id: len(o.ports)}
	o.ports = append(o.ports, p)
	return p, nil
}

// Cur is the port opened last.
func (o *Opener) Cur() *Port {
	if len(o.ports) == 0 {
		return nil
	}
	return o.ports[len(o.ports)-1]
}

func (p *Port) Read(b []byte) (int, error) {
	vs.Yield()
	p.reading++
	if p.reading > 1 && p.op.overlap == "" {
		p.op.overlap = fmt.Sprintf("two readers on port %d", p.id)
	}
	vs.WaitUntil("serial read", -1, func() bool { return len(p.in) > 0 || p.err != nil || p.closed })
	p.reading--
	if vs.Dying() {
		return 0, errClosed
	}
	p.cell.Acquire()
	p.reads++
	if p.closed {
		return 0, errClosed
	}
	if len(p.in) > 0 {
		n := copy(b, p.in[0])
		if n < len(p.in[0]) {
			p.in[0] = p.in[0][n:]
		} else {
			p.in = p.in[1:]
		}
		vs.Trace("port %d read %x", p.id, b[:n])
		p.got += n
		p.op.got = append(p.op.got, append([]byte(nil), b[:n]...))
		return n, nil
	}
	p.lost = true
	vs.Trace("port %d read error", p.id)
	err := p.err
	if p.once {
		p.err, p.dead = nil, true
	}
	return 0, err
}

func (p *Port) Write(b []byte) (int, error) {
	vs.Yield()
	if vs.Dying() {
		return 0, errClosed
	}
	vs.Trace("port %d write %x", p.id, b)
	cmd := !isAck(b)
	if cmd {
		p.op.writing++
	}
	if cmd && p.op.writing > 1 && p.op.doubleWrite == "" {
		p.op.doubleWrite = fmt.Sprintf("two tasks write a command to the port at the same time (%x)", b)
	}
	p.op.writes = append(p.op.writes, Wr{At: vs.Now(), Data: append([]byte(nil), b...), Port: p.id, Seq: len(p.op.writes), Read: p.got})
	p.cell.Release()
	if p.op.writeDelay > 0 {
		vs.Sleep(p.op.writeDelay)
	}
	if cmd {
		p.op.writing--
	}
	if p.closed || p.closing {
		return 0, errClosed
	}
	if p.werr != nil {
		return 0, p.werr
	}
	if p.op.onWrite != nil {
		p.op.onWrite(p, append([]byte(nil), b...))
	}
	if p.op.writeErr != nil {
		if err := p.op.writeErr(b); err != nil {
			return 0, err
		}
	}
	return len(b), nil
}

func (p *Port) Close() error {
	vs.Yield()
	if vs.Dying() {
		return nil
	}
	vs.Trace("port %d close", p.id)
	if p.closed || p.closing {
		return errClosed
	}
	p.closing = true
	if p.op.closeDelay > 0 {
		vs.Sleep(p.op.closeDelay)
	}
	p.closed = true
	p.op.closes = append(p.op.closes, vs.Now())
	return nil
}

// Feed makes a chunk available to Read.
func (p *Port) Feed(chunk []byte) {
	if len(chunk) == 0 || p.closed || p.err != nil || p.dead {
		return
	}
	vs.Trace("port %d feed %x", p.id, chunk)
	p.in = append(p.in, append([]byte(nil), chunk...))
	p.fed++
}

// FeedEmpty makes one Read return without any byte.
func (p *Port) FeedEmpty() {
	if p.closed || p.err != nil || p.dead {
		return
	}
	p.in = append(p.in, []byte{})
	p.fed++
}

// FeedAfter feeds a chunk d from now.
func (p *Port) FeedAfter(d time.Duration, chunk []byte) {
	c := append([]byte(nil), chunk...)
	vs.AddTimer(d, func() { p.Feed(c) })
}

// Idle reports that everything fed has been read and the reader is waiting for more.
func (p *Port) Idle() bool { return len(p.in) == 0 && p.reading > 0 }

// ---- frames (independent of the library) ----

// fsum is the Z-Wave checksum over LEN..payload.
func fsum(b []byte) byte {
	c := byte(0xff)
	for _, x := range b {
		c ^= x
	}
	return c
}

// frame builds a frame of the given type and body (function and parameters).
func frame(typ byte, body ...byte) []byte {
	f := []byte{0x01, byte(len(body) + 2), typ}
	f = append(f, body...)
	return append(f, fsum(f[1:]))
}

// report is an application command frame from a node.
func report(node byte, payload ...byte) []byte {
	b := []byte{0x04, 0x00, node, byte(len(payload))}
	return frame(0x00, append(b, payload...)...)
}

// capFrame is a capability answer: listening/routing, flirs..., reserved, basic, generic, specific.
func capFrame(b ...byte) []byte { return frame(0x01, append([]byte{0x41}, b...)...) }

// nodeListFrame is a node list answer.
func nodeListFrame(ids ...int) []byte {
	var bm [29]byte
	for _, i := range ids {
		bm[(i-1)/8] |= 1 << uint((i-1)%8)
	}
	b := append([]byte{0x02, 0x05, 0x00, 0x1d}, bm[:]...)
	return frame(0x01, append(b, 0x05, 0x00)...)
}

var (
	ack = []byte{0x06}
	nak = []byte{0x15}
	can = []byte{0x18}
)

func isAck(b []byte) bool { return len(b) == 1 && b[0] == 0x06 }

// Sys is a running controller with its simulated stick.
type Sys struct {
	C     *gozwave.Controller
	Op    *Opener
	Err   error
	base  int // writes before the exploration began
	list  []int
	noAck bool
	// recorder puts the serial recorder between the library and the port
	ev       *Events
	recorder bool
	log      bytes.Buffer
	// handler answers a command frame; nil result: default handling
	handler func(p *Port, f []byte) bool
}

const listReq = "\x01\x03\x00\x02\xfe"

// newSys prepares the environment; nothing is connected yet.
func newSys(list ...int) *Sys {
	return newSysOn(vos.NewFS(), list...)
}

// newSysOn is newSys with a file system that already exists.
func newSysOn(fs *vos.FS, list ...int) *Sys {
	s := &Sys{Op: &Opener{}, list: list}
	vos.Cur = fs
	s.Op.onWrite = func(p *Port, b []byte) {
		if isAck(b) {
			return
		}
		if s.handler != nil && s.handler(p, b) {
			return
		}
		if string(b) == listReq {
			p.FeedAfter(5*ms, ack)
			p.FeedAfter(10*ms, nodeListFrame(s.list...))
			return
		}
		if !s.noAck {
			p.FeedAfter(5*ms, ack)
		}
	}
	return s
}

// connect runs the startup with the default schedule up to the end of discovery.
func (s *Sys) connect(file string) {
	s.connectStart(file)
	vs.Sleep(400 * ms)
	s.base = len(s.Op.writes)
}

// connectStart only connects.
func (s *Sys) connectStart(file string) {
	var po gozwave.PortOpener = s.Op
	if s.recorder {
		vserial.Opener = func(*vserial.Config) (vserial.RWC, error) { return s.Op.Open() }
		r := serialrecorder.New("/dev/x", 115200)
		r.Logger = &s.log
		po = r
	}
	s.C, s.Err = gozwave.ConnectWithCustomPortOpener("/dev/x", file, po)
	if s.Err != nil {
		vs.Fail("setup: connect failed: %v", s.Err)
	}
}

// connectTry connects and tells whether there is a controller.
func connectTry(s *Sys, file string) (bool, error) {
	s.C, s.Err = gozwave.ConnectWithCustomPortOpener("/dev/x", file, s.Op)
	return s.C != nil, s.Err
}

// start is newSys+connect without nodes in the list.
func start() *Sys {
	s := newSys()
	s.connect("")
	return s
}

// Writes returns the frames written since startup, without ACK bytes.
func (s *Sys) Writes() []Wr {
	var w []Wr
	for _, x := range s.Op.writes[s.base:] {
		if !isAck(x.Data) {
			w = append(w, x)
		}
	}
	return w
}

// Acks counts ACK bytes written since startup.
func (s *Sys) Acks() int {
	n := 0
	for _, x := range s.Op.writes[s.base:] {
		if isAck(x.Data) {
			n++
		}
	}
	return n
}
