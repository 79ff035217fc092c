package main

import (
	"bytes"
	"fmt"
	"math"
	"time"

	"github.com/stampzilla/gozwave/commands"
	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/serialapi"
)

// sensor types of the multilevel sensor class: name and unit per scale (Z-Wave command class specification)
var sensorTypes = map[int]struct {
	name  string
	units map[int]string
}{
	1: {"Temperature", map[int]string{0: "C", 1: "F"}}, 2: {"General", map[int]string{0: "%"}}, 3: {"Luminance", map[int]string{0: "%", 1: "lux"}},
	4: {"Power", map[int]string{0: "W", 1: "BTU/h"}}, 5: {"RelativeHumidity", map[int]string{0: "%"}}, 6: {"Velocity", map[int]string{0: "m/s", 1: "mph"}},
	7: {"Direction", nil}, 8: {"AtmosphericPressure", map[int]string{0: "kPa", 1: "inHg"}}, 9: {"BarometricPressure", map[int]string{0: "kPa", 1: "inHg"}},
	10: {"SolarRadiation", map[int]string{-1: "W/m2"}}, 11: {"DewPoint", map[int]string{0: "C", 1: "F"}}, 12: {"RainRate", map[int]string{0: "mm/h", 1: "in/h"}},
	13: {"TideLevel", map[int]string{0: "m", 1: "ft"}}, 14: {"Weight", map[int]string{0: "kg", 1: "lb"}}, 15: {"Voltage", map[int]string{0: "V", 1: "mV"}},
	16: {"Current", map[int]string{0: "A", 1: "mA"}}, 17: {"CO2", map[int]string{-1: "ppm"}}, 18: {"AirFlow", map[int]string{0: "m3/h", 1: "cfm"}},
	19: {"TankCapacity", map[int]string{0: "l", 1: "cbm", 2: "gal"}}, 20: {"Distance", map[int]string{0: "m", 1: "cm", 2: "ft"}},
	21: {"AnglePosition", map[int]string{0: "%", 1: "deg N", 2: "deg S"}}, 22: {"Rotation", map[int]string{0: "rpm", 1: "hz"}},
	23: {"WaterTemperature", map[int]string{0: "C", 1: "F"}}, 24: {"SoilTemperature", map[int]string{0: "C", 1: "F"}},
	25: {"SeismicIntensity", map[int]string{0: "mercalli", 1: "EU macroseismic", 2: "liedu", 3: "shindo"}},
	26: {"SeismicMagnitude", map[int]string{0: "local", 1: "moment", 2: "surface wave", 3: "body wave"}},
	27: {"Ultraviolet", map[int]string{-1: ""}}, 28: {"ElectricalResistivity", map[int]string{-1: "ohm"}}, 29: {"ElectricalConductivity", map[int]string{-1: "siemens/m"}},
	30: {"Loudness", map[int]string{0: "db", 1: "dBA"}}, 31: {"Moisture", map[int]string{0: "%", 1: "content", 2: "k ohm", 3: "water activity"}},
}

func sensorName(typ, scale int) (string, string) {
	t, ok := sensorTypes[typ]
	if !ok {
		return fmt.Sprintf("Unknown (%d)", typ), ""
	}
	if u, ok := t.units[-1]; ok {
		return t.name, u
	}
	return t.name, t.units[scale]
}

// expReport computes what a report payload says. ok=false: must be refused; free=true: not specified.
func expReport(cmd, class byte, d []byte) (desc string, ok, free bool) {
	switch {
	case cmd == 0x71 && class == 0x05:
		if len(d) < 2 {
			return "", false, false
		}
		var r [6]byte
		copy(r[:2], d)
		if len(d) >= 6 {
			copy(r[2:], d[2:6])
		}
		return fmt.Sprintf("alarm type=%d level=%d src=%d status=%d stype=%d event=%d", r[0], r[1], r[2], r[3], r[4], r[5]), true, false
	case cmd == 0x72 && class == 0x05:
		if len(d) != 6 {
			return "", false, false
		}
		return fmt.Sprintf("manu %02x%02x %02x%02x %02x%02x", d[0], d[1], d[2], d[3], d[4], d[5]), true, false
	case cmd == 0x60 && class == 0x08:
		if len(d) < 2 {
			return "", false, false
		}
		return fmt.Sprintf("endpoints dyn=%v ident=%v n=%d", d[0]>>7 == 1, d[0]>>6&1 == 1, d[1]), true, false
	case cmd == 0x31 && class == 0x05:
		if len(d) < 2 {
			return "", false, false
		}
		size, scale, prec := int(d[1]%8), int(d[1]/8%4), int(d[1]/32)
		if len(d) < 2+size {
			return "", false, false
		}
		v := int64(0)
		for i := 0; i < size; i++ {
			v = v<<8 | int64(d[2+i])
		}
		if size > 0 && d[2]&0x80 != 0 {
			v -= int64(1) << uint(8*size)
		}
		name, unit := sensorName(int(d[0]), scale)
		if size != 1 && size != 2 && size != 4 {
			return "", true, true
		}
		f := float64(v)
		for i := 0; i < prec; i++ {
			f /= 10
		}
		return fmt.Sprintf("sensor t=%d size=%d scale=%d prec=%d v=%s %s/%s", d[0], size, scale, prec, num(f), name, unit), true, false
	case cmd == 0x25 && class == 0x03:
		switch len(d) {
		case 1:
			return fmt.Sprintf("bin1 cur=%v valid=%v", d[0] == 0xff, d[0] != 0xfe), true, false
		case 3:
			return fmt.Sprintf("bin2 cur=%v target=%v dur=%d", d[0] != 0, d[1] != 0, d[2]), true, false
		}
		return "", false, false
	case cmd == 0x26 && class == 0x03:
		lv := func(b byte) float64 {
			if b > 100 {
				return 100
			}
			return float64(b)
		}
		switch len(d) {
		case 1:
			return fmt.Sprintf("ml1 cur=%s valid=%v", num(lv(d[0])), d[0] != 0xfe), true, false
		case 3:
			return fmt.Sprintf("ml4 cur=%s target=%s dur=%d valid=%v tvalid=%v", num(lv(d[0])), num(lv(d[1])), d[2], d[0] != 0xfe, d[1] != 0xfe), true, false
		}
		return "", false, false
	case cmd == 0x84:
		return "wakeup", true, false
	}
	return "", false, false
}

// num prints a number so that values closer than rounding noise are equal.
func num(f float64) string {
	if f == 0 {
		return "0"
	}
	return fmt.Sprintf("%.10g", f)
}

func descReport(r reports.Report) string {
	switch r := r.(type) {
	case *reports.Alarm:
		return fmt.Sprintf("alarm type=%d level=%d src=%d status=%d stype=%d event=%d", r.Type, r.Level, r.SensorSourceID, r.Status, r.SensorType, r.Event)
	case *reports.ManufacturerSpecific:
		return fmt.Sprintf("manu %s %s %s", r.Manufacturer, r.Type, r.ID)
	case *reports.MultiChannelEndpoints:
		return fmt.Sprintf("endpoints dyn=%v ident=%v n=%d", r.Dynamic, r.Identical, r.Endpoints)
	case *reports.SensorMultiLevel:
		return fmt.Sprintf("sensor t=%d size=%d scale=%d prec=%d v=%s %s/%s", r.ValueType, r.Size, r.Scale, r.Precision, num(r.Value), r.TypeString, r.Unit)
	case *reports.SwitchBinaryV1:
		return fmt.Sprintf("bin1 cur=%v valid=%v", r.CurrentValue, r.Valid)
	case *reports.SwitchBinaryV2:
		return fmt.Sprintf("bin2 cur=%v target=%v dur=%d", r.CurrentValue, r.TargetValue, byte(r.Duration))
	case *reports.SwitchMultilevelV1:
		return fmt.Sprintf("ml1 cur=%s valid=%v", num(r.CurrentValue), r.Valid)
	case *reports.SwitchMultilevelV4:
		return fmt.Sprintf("ml4 cur=%s target=%s dur=%d valid=%v tvalid=%v", num(r.CurrentValue), num(r.TargetValue), byte(r.Duration), r.Valid, r.TargetValid)
	case *reports.WakeUp:
		return "wakeup"
	}
	return fmt.Sprintf("%T", r)
}

// judgeReport decodes one payload directly and inside a frame.
func judgeReport(e *Enum, cmd, class byte, d []byte, inFrame bool) {
	want, ok, free := expReport(cmd, class, d)
	data := append([]byte(nil), d...)
	var r reports.Report
	var err error
	what := func() string { return fmt.Sprintf("report %02x %02x %x", cmd, class, d) }
	e.Guard(what, func() {
		r, err = reports.New(commands.ZWaveCommand(cmd), class, data)
		if err == nil && r != nil {
			_ = r.String()
			r.SetNode(7)
		}
	})
	if e.Viol != "" {
		return
	}
	got := ""
	if err == nil {
		got = descReport(r)
	}
	e.Did(got+want, func() string { return what() + " -> " + got })
	switch {
	case free:
	case !ok && err == nil:
		e.Fail("%s must be refused, decoded to %s", what(), got)
	case ok && err != nil:
		e.Fail("%s refused (%v), should be %s", what(), err, want)
	case ok && got != want:
		e.Fail("%s decoded to %s, should be %s", what(), got, want)
	}
	if !bytes.Equal(data, d) {
		e.Fail("%s: decoding changed the payload to %x", what(), data)
	}
	if !inFrame || len(d) > 200 {
		return
	}
	f := report(9, append([]byte{cmd, class}, d...)...)
	var l int
	var m *serialapi.Message
	e.Guard(func() string { return what() + " in a frame" }, func() { l, m, err = serialapi.Decode(append(append([]byte(nil), f...), 0x06, 0x01, 0x55)) })
	if e.Viol != "" || free {
		return
	}
	if l != len(f) || (err == nil) != ok || (m != nil) != ok {
		e.Fail("%s in frame %x: length %d message %v error %v", what(), f, l, m != nil, err)
		return
	}
	if !ok {
		return
	}
	h, isH := m.Data.(*serialapi.FuncApplicationCommandHandler)
	if !isH || m.NodeID != 9 || byte(h.Command) != cmd || h.Class != class || descReport(h.Report) != want {
		e.Fail("%s in frame %x: decoded to node %d %T %+v", what(), f, m.NodeID, m.Data, m.Data)
	}
}

func init() {
	reg(&Scenario{Prop: "C03", Name: "C03/commands", Shards: 16, Enum: func(e *Enum) {
		e.Rule = "every command x every class x payload lengths 0..12 x 3 fills: accepted or refused exactly as specified"
		for cmd := 0; cmd < 256; cmd++ {
			for class := 0; class < 256; class++ {
				for n := 0; n <= 12; n++ {
					for _, fill := range []byte{0x00, 0x42, 0xff} {
						if !e.Mine() {
							continue
						}
						judgeReport(e, byte(cmd), byte(class), bytes.Repeat([]byte{fill}, n), n < 9)
					}
				}
				if e.Stop() {
					return
				}
			}
		}
	}})
	reg(&Scenario{Prop: "C03", Name: "C03/values", Shards: 16, Enum: func(e *Enum) {
		e.Rule = "switch, alarm, manufacturer and endpoint payloads: every value of every byte (others at 3 backgrounds), every pair of adjacent bytes at boundary values; every duration"
		pay := []struct {
			cmd, class byte
			n          int
		}{{0x25, 3, 1}, {0x25, 3, 3}, {0x26, 3, 1}, {0x26, 3, 3}, {0x71, 5, 2}, {0x71, 5, 3}, {0x71, 5, 5}, {0x71, 5, 6}, {0x71, 5, 7}, {0x71, 5, 9}, {0x71, 5, 13}, {0x72, 5, 6}, {0x60, 8, 2}, {0x60, 8, 4}, {0x84, 7, 0}, {0x84, 7, 3}}
		edge := []byte{0, 1, 0x0f, 0x10, 99, 100, 101, 0x7f, 0x80, 0xfd, 0xfe, 0xff}
		for _, p := range pay {
			for pos := 0; pos < p.n; pos++ {
				for v := 0; v < 256; v++ {
					for _, bg := range []byte{0x00, 0x5a, 0xff} {
						if !e.Mine() {
							continue
						}
						d := bytes.Repeat([]byte{bg}, p.n)
						d[pos] = byte(v)
						judgeReport(e, p.cmd, p.class, d, true)
					}
				}
				for q := pos + 1; q < p.n; q++ {
					for _, a := range edge {
						for _, b := range edge {
							if !e.Mine() {
								continue
							}
							d := make([]byte, p.n)
							for i := range d {
								d[i] = byte(0x11 * (i + 1))
							}
							d[pos], d[q] = a, b
							judgeReport(e, p.cmd, p.class, d, true)
						}
					}
				}
			}
			if p.n == 0 && e.Mine() {
				judgeReport(e, p.cmd, p.class, nil, true)
			}
		}
		for v := 0; v < 256; v++ {
			if !e.Mine() {
				continue
			}
			var want time.Duration
			bad := v >= 0xfe
			if v < 0x80 {
				want = time.Duration(v) * time.Second
			} else if !bad {
				want = time.Duration(v-0x7f) * time.Minute
			}
			got, err := commands.Duration(v).Duration()
			if (err != nil) != bad || !bad && got != want {
				e.Fail("duration %02x is %v (%v), should be %v", v, got, err, want)
			}
			if !bad && commands.Duration(v).String() != want.String() {
				e.Fail("duration %02x prints %s", v, commands.Duration(v))
			}
			e.Did(fmt.Sprint("d", v), func() string { return fmt.Sprintf("duration %02x = %v", v, got) })
		}
	}})
	reg(&Scenario{Prop: "C03", Name: "C03/sensor", Shards: 32, Enum: func(e *Enum) {
		e.Rule = "multilevel sensor: every type x every size/scale/precision byte x boundary values x payload lengths around the size; every 1- and 2-byte value at every precision"
		vals := []uint32{0, 1, 9, 0x7f, 0x80, 0xff, 0x0100, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x00800000, 0x7fffffff, 0x80000000, 0xffffffff, 0x12345678, 0xff000001}
		for typ := 0; typ < 256; typ++ {
			for b := 0; b < 256; b++ {
				size := b & 7
				for _, v := range vals {
					for dl := -2; dl <= 2; dl++ {
						n := size + dl
						if n < 0 || dl != 0 && (v != 0x12345678) {
							continue
						}
						if !e.Mine() {
							continue
						}
						d := []byte{byte(typ), byte(b)}
						var w [16]byte
						w[0], w[1], w[2], w[3] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
						if size < 4 && dl == 0 {
							copy(w[:], w[4-size:4])
						}
						d = append(d, w[:n]...)
						judgeReport(e, 0x31, 5, d, true)
					}
				}
				if e.Stop() {
					return
				}
			}
		}
		for prec := 0; prec < 8; prec++ {
			for v := 0; v < 65536; v++ {
				if e.Tier == 0 && v%5 != 0 && v > 300 && v < 32600 {
					continue
				}
				if !e.Mine() {
					continue
				}
				judgeReport(e, 0x31, 5, []byte{1, byte(prec<<5 | 2), byte(v >> 8), byte(v)}, false)
				if v < 256 {
					judgeReport(e, 0x31, 5, []byte{4, byte(prec<<5 | 8 | 1), byte(v)}, true)
				}
			}
		}
	}})
	reg(&Scenario{Prop: "C04", Name: "C04/nodelist", Shards: 16, Enum: func(e *Enum) {
		e.Rule = "node lists: bitmap sizes 0..64, every byte position x every byte value on 2 backgrounds, every pair of node ids; directly and inside frames"
		for n := 0; n <= 64; n++ {
			for pos := -1; pos < n; pos++ {
				for v := 0; v < 256; v++ {
					if pos == -1 && v > 0 {
						continue
					}
					for _, bg := range []byte{0x00, 0xff} {
						if !e.Mine() {
							continue
						}
						bm := bytes.Repeat([]byte{bg}, n)
						if pos >= 0 {
							bm[pos] = byte(v)
						}
						judgeList(e, bm)
					}
				}
				if e.Stop() {
					return
				}
			}
		}
		for a := 1; a <= 232; a++ {
			for b := a; b <= 232; b++ {
				if !e.Mine() {
					continue
				}
				bm := make([]byte, 29)
				bm[(a-1)/8] |= 1 << uint((a-1)%8)
				bm[(b-1)/8] |= 1 << uint((b-1)%8)
				judgeList(e, bm)
			}
		}
	}})
	reg(&Scenario{Prop: "C04", Name: "C04/capabilities", Shards: 16, Enum: func(e *Enum) {
		e.Rule = "capability answers: every pair of the first two bytes, every value of the other bytes on 3 backgrounds, lengths 0..12; directly and inside frames"
		one := func(d []byte) {
			if e.Mine() {
				judgeCap(e, d)
			}
		}
		for a := 0; a < 256; a++ {
			for b := 0; b < 256; b++ {
				one([]byte{byte(a), byte(b), 0x00, 0x02, 0x10, 0x01})
			}
			if e.Stop() {
				return
			}
		}
		for pos := 0; pos < 6; pos++ {
			for v := 0; v < 256; v++ {
				for _, bg := range []byte{0x00, 0xff, 0x5a} {
					for n := 6; n <= 9; n++ {
						d := bytes.Repeat([]byte{bg}, n)
						d[pos] = byte(v)
						one(d)
					}
				}
			}
		}
		for a := 0; a < 256; a++ {
			for b := 0; b < 256; b++ {
				one([]byte{0xd3, 0x9c, 0x00, 0x04, byte(a), byte(b)})
			}
		}
		for n := 0; n <= 5; n++ {
			for v := 0; v < 256; v++ {
				one(bytes.Repeat([]byte{byte(v)}, n))
			}
		}
	}})
}

func judgeList(e *Enum, bm []byte) {
	ok := len(bm) >= 6 && len(bm) <= 29
	in := append([]byte(nil), bm...)
	var r *serialapi.DiscoverdNodes
	var err error
	e.Guard(func() string { return fmt.Sprintf("node list %x", bm) }, func() { r, err = serialapi.NewDiscoverdNodes(in) })
	if e.Viol != "" {
		return
	}
	check := func(how string, r *serialapi.DiscoverdNodes, refused bool) {
		if refused == ok {
			e.Fail("%s: node list of %d bytes %x: refused=%v, should be %v", how, len(bm), bm, refused, !ok)
			return
		}
		if !ok {
			return
		}
		for k := 1; k <= 232; k++ {
			want := (k-1)/8 < len(bm) && bm[(k-1)/8]>>uint((k-1)%8)&1 == 1
			if r.ActiveNodes[k-1] != want {
				e.Fail("%s: node list %x: node %d active=%v, should be %v", how, bm, k, r.ActiveNodes[k-1], want)
				return
			}
		}
	}
	check("direct", r, err != nil || r == nil)
	e.Did(fmt.Sprintf("%x", bm), func() string { return fmt.Sprintf("%x refused=%v", bm, err != nil) })
	f := frame(0x01, append(append([]byte{0x02, 0x05, 0x00, byte(len(bm))}, bm...), 0x05, 0x00)...)
	var m *serialapi.Message
	e.Guard(func() string { return fmt.Sprintf("node list frame %x", f) }, func() { _, m, err = serialapi.Decode(append(f, 0x06)) })
	if e.Viol != "" {
		return
	}
	var fr *serialapi.DiscoverdNodes
	if m != nil {
		fr, _ = m.Data.(*serialapi.DiscoverdNodes)
	}
	check("in a frame", fr, err != nil || fr == nil)
}

func judgeCap(e *Enum, d []byte) {
	ok := len(d) >= 6
	var r *serialapi.FuncGetNodeProtocolInfo
	var err error
	e.Guard(func() string { return fmt.Sprintf("capabilities %x", d) }, func() { r, err = serialapi.NewGetNodeProtocolInfo(append([]byte(nil), d...)) })
	if e.Viol != "" {
		return
	}
	check := func(how string, r *serialapi.FuncGetNodeProtocolInfo) {
		baud := 9600
		if d[0]>>3&7 == 2 {
			baud = 40000
		}
		want := serialapi.FuncGetNodeProtocolInfo{Listening: d[0]>>7 == 1, Routing: d[0]>>6&1 == 1, Version: d[0]&7 + 1, MaxBaud: baud,
			Flirs: d[1]>>5&3 != 0, Beaming: d[1]>>4&1 == 1, Security: d[1]&1 == 1, Basic: d[3], Generic: d[4], Specific: d[5]}
		if r == nil || math.MaxInt8 == 0 || js(*r) != js(want) {
			e.Fail("%s: capabilities %x decoded to %s, should be %s", how, d, js(r), js(want))
		}
	}
	if (err != nil || r == nil) == ok {
		e.Fail("capabilities of %d bytes %x: refused=%v (%v)", len(d), d, err != nil, err)
		return
	}
	e.Did(fmt.Sprintf("%x", d), func() string { return fmt.Sprintf("%x -> %s", d, js(r)) })
	if ok {
		check("direct", r)
	}
	if len(d) == 5 {
		return // the checksum is taken for the sixth byte: not specified
	}
	f := capFrame(d...)
	var m *serialapi.Message
	e.Guard(func() string { return fmt.Sprintf("capability frame %x", f) }, func() { _, m, err = serialapi.Decode(append(f, 0x01, 0x05)) })
	if e.Viol != "" {
		return
	}
	var fr *serialapi.FuncGetNodeProtocolInfo
	if m != nil {
		fr, _ = m.Data.(*serialapi.FuncGetNodeProtocolInfo)
	}
	if (err != nil || fr == nil) == ok {
		e.Fail("capability frame %x: refused=%v (%v), should be %v", f, err != nil, err, !ok)
		return
	}
	if ok {
		check("in a frame", fr)
	}
}
