package main

import (
	"bytes"
	"encoding/json"
	"fmt"

	"github.com/stampzilla/gozwave/commands"
	"github.com/stampzilla/gozwave/serialapi"
)

// C01..C04: the decoders and the frame builder, on exhaustively enumerated inputs.

// decodeSig is everything a caller can see of a decode.
func decodeSig(l int, m *serialapi.Message, err error) string {
	if m == nil {
		return fmt.Sprintf("%d nil err=%v", l, err != nil)
	}
	d, e := json.Marshal(m.Data)
	return fmt.Sprintf("%d %d %d %d %d %v%v%v %T %s %v err=%v", l, m.Length, m.MessageType, m.Function, m.NodeID, m.IsACK(), m.IsNAK(), m.IsCAN(), m.Data, d, e, err != nil)
}

// decodeOne judges one buffer. frameLen>0 is the length of the frame at its head when complete.
func decodeOne(e *Enum, buf []byte, slack int) string {
	mem := make([]byte, len(buf)+slack)
	copy(mem, buf)
	for i := len(buf); i < len(mem); i++ {
		mem[i] = 0xA5
	}
	in := mem[:len(buf)]
	var l int
	var m *serialapi.Message
	var err error
	e.Guard(func() string { return fmt.Sprintf("Decode(%x)", buf) }, func() { l, m, err = serialapi.Decode(in) })
	if e.Viol != "" {
		return ""
	}
	if !bytes.Equal(in, buf) {
		e.Fail("Decode(%x) changed the caller's bytes to %x", buf, in)
		return ""
	}
	for i := len(buf); i < len(mem); i++ {
		if mem[i] != 0xA5 {
			e.Fail("Decode(%x) wrote behind the caller's bytes (offset %d)", buf, i)
			return ""
		}
	}
	sig := decodeSig(l, m, err)
	switch {
	case buf[0] == 0x06 || buf[0] == 0x15 || buf[0] == 0x18:
		if l != 1 || m == nil || m.IsACK() != (buf[0] == 0x06) || m.IsNAK() != (buf[0] == 0x15) || m.IsCAN() != (buf[0] == 0x18) {
			e.Fail("Decode(%x): a control byte gave %s", buf, sig)
		}
	case buf[0] != 0x01:
		if l != -1 || m != nil {
			e.Fail("Decode(%x): not a start of frame, gave %s", buf, sig)
		}
	case len(buf) < 2:
		if l <= 1 || m != nil || err != nil {
			e.Fail("Decode(%x): only a start byte, gave %s", buf, sig)
		}
	case len(buf) < int(buf[1])+2:
		if l != int(buf[1])+2 || m != nil || err != nil {
			e.Fail("Decode(%x): incomplete frame, gave %s", buf, sig)
		}
	default:
		n := int(buf[1]) + 2
		good := n > 2 && fsum(buf[1:n-1]) == buf[n-1]
		switch {
		case !good:
			if l != -1 || m != nil || err == nil && n > 2 {
				e.Fail("Decode(%x): wrong checksum, gave %s", buf, sig)
			}
		case n < 5 && l == -1 && m == nil: // no room for a type and function
		default:
			if l != n || (m == nil) == (err == nil) {
				e.Fail("Decode(%x): complete frame of %d bytes, gave %s", buf, n, sig)
			}
			if m != nil && (int(m.Length) != n-2 || m.MessageType != buf[2] || byte(m.Function) != buf[3] || m.IsACK() || m.IsNAK() || m.IsCAN()) {
				e.Fail("Decode(%x): header misread, gave %s", buf, sig)
			}
		}
	}
	return sig
}

// decodeTails decodes a complete head alone and with different bytes after it.
var tails = [][]byte{nil, {0x00}, {0xff}, {0x06}, {0x01}, {0x01, 0x04, 0x01, 0x13, 0x01, 0xe8}, bytes.Repeat([]byte{0x01}, 40), bytes.Repeat([]byte{0xC3}, 300)}

func decodeTails(e *Enum, head []byte) {
	first := ""
	for i, t := range tails {
		buf := append(append([]byte(nil), head...), t...)
		for _, slack := range []int{0, 1, 64} {
			s := decodeOne(e, buf, slack)
			if e.Viol != "" {
				return
			}
			if i == 0 && slack == 0 {
				first = s
				e.Did(s, func() string { return fmt.Sprintf("%x -> %s", head, s) })
			} else if s != first {
				e.Fail("Decode(%x) gives %q alone but %q when followed by %x (slack %d)", head, first, s, t, slack)
				return
			}
		}
	}
}

func init() {
	reg(&Scenario{Prop: "C01", Name: "C01/short", Shards: 16, Enum: func(e *Enum) {
		e.Rule = "every byte sequence of length 1..2 (quick) / 1..3 (thorough), each with 0 and 3 bytes of slack capacity; distinct = distinct decode results"
		buf := make([]byte, 3)
		for a := 0; a < 256; a++ {
			buf[0] = byte(a)
			if e.Mine() {
				s := decodeOne(e, buf[:1], 3)
				e.Did(s, func() string { return fmt.Sprintf("%x -> %s", buf[:1], s) })
			}
			for b := 0; b < 256; b++ {
				buf[1] = byte(b)
				if e.Mine() {
					s := decodeOne(e, buf[:2], 0)
					e.Did(s, func() string { return fmt.Sprintf("%x -> %s", buf[:2], s) })
				}
				if e.Tier == 0 && a != 1 {
					continue
				}
				for c := 0; c < 256; c++ {
					buf[2] = byte(c)
					if e.Mine() {
						s := decodeOne(e, buf[:3], 0)
						e.Did(s, func() string { return fmt.Sprintf("%x -> %s", buf[:3], s) })
					}
				}
				if e.Stop() {
					return
				}
			}
		}
	}})
	reg(&Scenario{Prop: "C01", Name: "C01/frames", Shards: 16, Enum: func(e *Enum) {
		e.Rule = "frames: every LEN 1..255 x every function x 4 fill patterns, correct and wrong checksum, 8 kinds of following bytes x 3 slack sizes; every truncation of a frame of every LEN"
		for ln := 1; ln < 256; ln++ {
			for fn := 0; fn < 256; fn++ {
				for _, fill := range []int{0x00, 0x01, 0x7f, 0xff} {
					for _, bad := range []byte{0, 0x40} {
						if !e.Mine() {
							if e.Stop() {
								return
							}
							continue
						}
						if e.Tier == 0 && fill == 0x7f && fn > 0x50 {
							continue
						}
						f := make([]byte, ln+2)
						for i := range f {
							f[i] = byte(fill)
						}
						f[0], f[1] = 1, byte(ln)
						if ln > 2 {
							f[3] = byte(fn)
						}
						f[ln+1] = fsum(f[1:ln+1]) ^ bad
						decodeTails(e, f)
					}
				}
			}
			f := frame(0, append([]byte{0x04, 0, 5}, bytes.Repeat([]byte{0x31}, ln)...)...)
			for k := 1; k <= len(f); k++ {
				if e.Mine() {
					s := decodeOne(e, f[:k], len(f)-k)
					e.Did(s, func() string { return s })
				}
			}
		}
	}})
	reg(&Scenario{Prop: "C01", Name: "C01/embedded", Shards: 16, Enum: func(e *Enum) {
		e.Rule = "report, node-list and capability frames: every LEN 3..64 x every embedded length 0..255 x every command class the library knows x classes 0..9 x following bytes"
		cmds := []byte{byte(commands.Alarm), byte(commands.ManufacturerSpecific), byte(commands.MultiInstance), byte(commands.SensorMultiLevel), byte(commands.SwitchBinary), byte(commands.SwitchMultilevel), byte(commands.WakeUp), 0x00, 0x01, 0x20, 0xff}
		max := 40
		if e.Tier == 1 {
			max = 64
		}
		for ln := 3; ln <= max; ln++ {
			for emb := 0; emb < 256; emb++ {
				for _, fn := range []byte{0x04, 0x02, 0x41} {
					for _, cmd := range cmds {
						for class := 0; class < 10; class++ {
							if fn != 0x04 && (cmd != cmds[0] || class > 1) {
								continue
							}
							if e.Tier == 0 && emb > 48 && emb < 240 && class != 5 {
								continue
							}
							if !e.Mine() {
								continue
							}
							f := make([]byte, ln+2)
							for i := range f {
								f[i] = byte(0x24 + i)
							}
							f[0], f[1], f[2], f[3] = 1, byte(ln), byte(class&1), fn
							set := func(i int, b byte) {
								if i < len(f)-1 {
									f[i] = b
								}
							}
							set(6, byte(emb))
							set(7, cmd)
							set(8, byte(class))
							f[ln+1] = fsum(f[1 : ln+1])
							decodeTails(e, f)
						}
					}
				}
				if e.Stop() {
					return
				}
			}
		}
	}})
	c02()
}

func c02() {
	// patterns of payloads of a length
	pats := func(n int, thorough bool) [][]byte {
		var ps [][]byte
		fill := func(f func(i int) byte) {
			p := make([]byte, n)
			for i := range p {
				p[i] = f(i)
			}
			ps = append(ps, p)
		}
		if n == 1 {
			for b := 0; b < 256; b++ {
				ps = append(ps, []byte{byte(b)})
			}
			return ps
		}
		if n == 2 {
			for b := 0; b < 65536; b++ {
				ps = append(ps, []byte{byte(b >> 8), byte(b)})
			}
			return ps
		}
		for _, b := range []byte{0, 1, 0xff, 0x55} {
			fill(func(int) byte { return b })
		}
		fill(func(i int) byte { return byte(i) })
		for _, fn := range []byte{0x02, 0x04, 0x13, 0x41} {
			fill(func(i int) byte {
				if i == 0 {
					return fn
				}
				return byte(i * 7)
			})
		}
		return ps
	}
	judge := func(e *Enum, p []byte) []byte {
		in := append([]byte(nil), p...)
		mem := append(in, 0xA5, 0xA5, 0xA5, 0xA5)[:len(p)]
		var f []byte
		e.Guard(func() string { return fmt.Sprintf("CompileMessage(%x)", p) }, func() { f = serialapi.CompileMessage(mem) })
		if e.Viol != "" {
			return nil
		}
		want := frame(0x00, p...)
		if !bytes.Equal(f, want) {
			e.Fail("the frame for payload %x is %x, should be %x", p, f, want)
			return nil
		}
		if !bytes.Equal(mem, p) || !bytes.Equal(mem[:len(p)+4][len(p):], []byte{0xA5, 0xA5, 0xA5, 0xA5}) {
			e.Fail("building the frame for payload %x changed the caller's bytes", p)
			return nil
		}
		return f
	}
	reg(&Scenario{Prop: "C02", Name: "C02/build", Shards: 16, Enum: func(e *Enum) {
		e.Rule = "every payload of 1 and 2 bytes, every length 3..253 x 9 patterns: the frame compared with the independent builder, then decoded with 8 kinds of following bytes"
		for n := 1; n <= 253; n++ {
			for _, p := range pats(n, e.Tier == 1) {
				if !e.Mine() {
					if e.Stop() {
						return
					}
					continue
				}
				f := judge(e, p)
				if f == nil {
					return
				}
				e.Did(fmt.Sprint(n, f[len(f)-1]), func() string { return fmt.Sprintf("%x -> %x", p, f) })
				for _, t := range tails {
					buf := append(append([]byte(nil), f...), t...)
					var l int
					e.Guard(func() string { return fmt.Sprintf("Decode(%x)", buf) }, func() { l, _, _ = serialapi.Decode(buf) })
					if e.Viol == "" && l != len(f) && !(n == 0) {
						e.Fail("decoding the frame of payload %x followed by %x consumed %d, the frame has %d bytes", p, t, l, len(f))
					}
				}
			}
		}
	}})
	reg(&Scenario{Prop: "C02", Name: "C02/corrupt", Shards: 16, Enum: func(e *Enum) {
		e.Rule = "every length 1..253 x every body/checksum byte x every bit flip and 6 other values (quick) / all 255 other values (thorough), with and without following bytes: refused with -1 and an error"
		var deltas []byte
		if e.Tier == 1 {
			for d := 1; d < 256; d++ {
				deltas = append(deltas, byte(d))
			}
		} else {
			deltas = []byte{1, 2, 4, 8, 16, 32, 64, 128, 0xff, 0x03, 0x30, 0x81, 0x7e, 0xf0}
		}
		for n := 1; n <= 253; n++ {
			ps := pats(n, false)
			if n <= 2 {
				ps = [][]byte{bytes.Repeat([]byte{0x13}, n), bytes.Repeat([]byte{0}, n)}
			} else if e.Tier == 0 {
				ps = ps[4:6]
			}
			for _, p := range ps {
				f := frame(0x00, p...)
				for pos := 2; pos < len(f); pos++ {
					if !e.Mine() {
						if e.Stop() {
							return
						}
						continue
					}
					for _, d := range deltas {
						for _, t := range [][]byte{nil, {0x06, 0x01, 0x03}} {
							buf := append(append([]byte(nil), f...), t...)
							buf[pos] ^= d
							var l int
							var m *serialapi.Message
							var err error
							e.Guard(func() string { return fmt.Sprintf("Decode(%x)", buf) }, func() { l, m, err = serialapi.Decode(buf) })
							if e.Viol == "" && (l != -1 || m != nil || err == nil) {
								e.Fail("frame %x with byte %d changed (%x) was not refused: %s", f, pos, buf, decodeSig(l, m, err))
							}
							e.Did(fmt.Sprint(n, pos, d), func() string { return fmt.Sprintf("%x refused", buf) })
						}
					}
				}
			}
		}
	}})
	reg(&Scenario{Prop: "C02", Name: "C02/raw", Shards: 8, Enum: func(e *Enum) {
		e.Rule = "raw commands to every node id 1..232 with 0..250 data bytes, alone and encoded twice: send-data, node, length + 1, the data; raw serial api payloads of 1..253 bytes: unchanged; the data handed in is not altered"
		for n := 0; n <= 253; n++ {
			for id := 1; id <= 232; id++ {
				if e.Tier == 0 && n > 8 && (n+id)%13 != 0 {
					continue
				}
				if !e.Mine() {
					continue
				}
				d := make([]byte, n, n+8)
				for i := range d {
					d[i] = byte(i*7 + id + n)
				}
				keep := append([]byte(nil), d...)
				what := fmt.Sprintf("%d data bytes to node %d", n, id)
				e.Guard(func() string { return what }, func() {
					if n <= 250 {
						r := commands.NewRaw(d)
						r.SetNode(id)
						want := append([]byte{0x13, byte(id), byte(n + 1)}, keep...)
						if g := r.Encode(); !bytes.Equal(g, want) {
							e.Fail("%s: encoded as %x, should be %x", what, g, want)
						}
						if g := r.Encode(); !bytes.Equal(g, want) {
							e.Fail("%s: encoded again as %x, should be %x", what, g, want)
						}
					}
					if n > 0 {
						if g := serialapi.NewRaw(d).Encode(); !bytes.Equal(g, keep) {
							e.Fail("a raw payload of %d bytes was encoded as %x, should be %x", n, g, keep)
						}
					}
				})
				if !bytes.Equal(d, keep) || !bytes.Equal(d[:cap(d)][n:], make([]byte, cap(d)-n)) {
					e.Fail("%s: the data handed in was altered", what)
				}
				e.Did(fmt.Sprint(n), func() string { return what })
			}
			if e.Stop() {
				return
			}
		}
	}})
	reg(&Scenario{Prop: "C02", Name: "C02/wire", Run: func() {
		s := start()
		conn := s.C.Connection
		for n := 1; n <= 253; n += 1 {
			p := make([]byte, n)
			for i := range p {
				p[i] = byte(0x81 + i*5 + n)
			}
			before := len(s.Writes())
			var err error
			if n%2 == 0 {
				err = conn.Write(serialapi.NewRaw(append([]byte(nil), p...)))
			} else {
				_, err = conn.WriteWithTimeout(serialapi.NewRaw(append([]byte(nil), p...)), 20*ms)
			}
			if err != nil {
				fail("writing a payload of %d bytes: %v", n, err)
			}
			sleep(60 * ms)
			w := s.Writes()
			if len(w) != before+1 || !bytes.Equal(w[before].Data, frame(0x00, p...)) {
				fail("payload %x: written %x, should be %x", p, datas(w[before:]), frame(0x00, p...))
			}
		}
		note("253 payloads")
	}})
}
