package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/stampzilla/gozwave/database"
	"gzmc/vos"
	"gzmc/vs"
)

func repoDir() string {
	if d := os.Getenv("GZ_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// ---- the database sources, read independently of the generator ----

type jsonDevice struct {
	Label          string   `json:"label"`
	Manufacturer   string   `json:"manufacturer_name"`
	ManufacturerID string   `json:"manufacturer_id"`
	Refs           []string `json:"device_ref"`
	Decription     string   `json:"decription"`
	Endpoints      []struct {
		Classes []struct {
			ID        string `json:"id"`
			Version   string `json:"version"`
			Nif       bool   `json:"nif"`
			Secure    bool   `json:"secure"`
			NonSecure bool   `json:"nonsecure"`
		} `json:"commandclasses"`
	} `json:"endpoints"`
	Parameters []struct {
		ID      int    `json:"id"`
		Label   string `json:"label"`
		Size    int    `json:"size"`
		Min     int64  `json:"value_min"`
		Max     int64  `json:"value_max"`
		Options []struct {
			Value int64  `json:"value"`
			Label string `json:"label"`
		} `json:"options"`
	} `json:"parameters"`
}

type wantClass struct {
	ID                       int
	InNIF, Secure, NonSecure bool
	Version                  string
}

type wantValue struct {
	From, To int64
	Desc     string
}

type wantParam struct {
	ID, Size int
	Name     string
	Values   []wantValue
}

type wantDevice struct {
	Brand, Product, Description            string
	CommandClasses                         []wantClass
	Parameters                             []wantParam
	ManufacturerID, ProductType, ProductID string
}

// split26 splits a product reference.
func split26(ref string) (string, string) {
	s := strings.Split(ref, ":")
	if len(s) == 1 {
		return s[0], ""
	}
	if len(s) == 2 {
		return s[0], s[1]
	}
	return "", ""
}

func wantOf(d *jsonDevice, ref string) wantDevice {
	t, p := split26(ref)
	w := wantDevice{Brand: d.Manufacturer, Product: d.Label, Description: d.Decription, ManufacturerID: d.ManufacturerID, ProductType: t, ProductID: p}
	if len(d.Endpoints) > 0 {
		for _, c := range d.Endpoints[0].Classes {
			id, _ := strconv.ParseInt("0"+c.ID, 16, 32)
			w.CommandClasses = append(w.CommandClasses, wantClass{int(id), c.Nif, c.Secure, c.NonSecure, c.Version})
		}
	}
	for _, p := range d.Parameters {
		q := wantParam{ID: p.ID, Size: p.Size, Name: p.Label}
		for _, o := range p.Options {
			q.Values = append(q.Values, wantValue{o.Value, o.Value, o.Label})
		}
		if len(p.Options) == 0 {
			q.Values = []wantValue{{p.Min, p.Max, ""}}
		}
		w.Parameters = append(w.Parameters, q)
	}
	return w
}

var sources26 map[string]wantDevice

// wantShipped is wantAll of the shipped database.
func wantShipped() (map[string]wantDevice, error) {
	if sources26 == nil {
		m, err := wantAll(filepath.Join(repoDir(), "database/json"))
		if err != nil {
			return nil, err
		}
		sources26 = m
	}
	return sources26, nil
}

// wantAll reads a directory of descriptions: the wanted device per lower case id; the first definition wins.
func wantAll(dir string) (map[string]wantDevice, error) {
	fs, err := filepath.Glob(filepath.Join(dir, "*.json"))
	if err != nil {
		return nil, err
	}
	sort.Strings(fs)
	m := map[string]wantDevice{}
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		var d jsonDevice
		if err := json.NewDecoder(strings.NewReader(string(b))).Decode(&d); err != nil {
			return nil, fmt.Errorf("%s: %v", f, err)
		}
		for _, r := range d.Refs {
			t, p := split26(r)
			k := strings.ToLower(d.ManufacturerID + "_" + t + "_" + p)
			if _, ok := m[k]; !ok {
				m[k] = wantOf(&d, r)
			}
		}
	}
	return m, nil
}

// norm turns a device (or its JSON) into the wanted form.
func norm(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	var d wantDevice
	if err := json.Unmarshal(b, &d); err != nil {
		return err.Error()
	}
	if len(d.CommandClasses) == 0 {
		d.CommandClasses = nil
	}
	if len(d.Parameters) == 0 {
		d.Parameters = nil
	}
	b, _ = json.Marshal(d)
	return string(b)
}

// ---- the table of mandatory classes, read independently of the generator ----

var className = map[string]byte{
	"Application Status": 0x22, "Association": 0x85, "Association Group Information": 0x59, "Basic": 0x20, "Binary Switch": 0x25,
	"CRC16": 0x56, "Central Scene": 0x5b, "Device Reset Locally": 0x5a, "Manufacturer Specific": 0x72, "Meter": 0x32,
	"Multi Channel": 0x60, "Multichannel Association": 0x8e, "Multilevel Sensor": 0x31, "Multilevel Switch": 0x26,
	"Notification": 0x71, "Power Level": 0x73, "Security": 0x98, "Version": 0x86, "Z-Wave Plus Info": 0x5e,
}

var typeName = map[string]byte{
	"GENERIC_TYPE_AV_CONTROL_POINT": 0x03, "GENERIC_TYPE_DISPLAY": 0x04, "GENERIC_TYPE_ENTRY_CONTROL": 0x40, "GENERIC_TYPE_GENERIC_CONTROLLER": 0x01,
	"GENERIC_TYPE_METER": 0x31, "GENERIC_TYPE_REPEATER_SLAVE": 0x0F, "GENERIC_TYPE_SENSOR_MULTILEVEL": 0x21, "GENERIC_TYPE_SENSOR_NOTIFICATION": 0x07,
	"GENERIC_TYPE_STATIC_CONTROLLER": 0x02, "GENERIC_TYPE_SWITCH_BINARY": 0x10, "GENERIC_TYPE_SWITCH_MULTILEVEL": 0x11, "GENERIC_TYPE_THERMOSTAT": 0x08,
	"GENERIC_TYPE_WALL_CONTROLLER": 0x18, "SPECIFIC_TYPE_BASIC_WALL_CONTROLLER": 0x01, "SPECIFIC_TYPE_CLASS_A_MOTOR_CONTROL": 0x05,
	"SPECIFIC_TYPE_CLASS_B_MOTOR_CONTROL": 0x06, "SPECIFIC_TYPE_CLASS_C_MOTOR_CONTROL": 0x07, "SPECIFIC_TYPE_FAN_SWITCH": 0x08,
	"SPECIFIC_TYPE_GATEWAY": 0x07, "SPECIFIC_TYPE_IRRIGATION_CONTROLLER": 0x07, "SPECIFIC_TYPE_NOTIFICATION_SENSOR": 0x01,
	"SPECIFIC_TYPE_PC_CONTROLLER": 0x01, "SPECIFIC_TYPE_PORTABLE_REMOTE_CONTROLLER": 0x01, "SPECIFIC_TYPE_POWER_STRIP": 0x04,
	"SPECIFIC_TYPE_POWER_SWITCH_BINARY": 0x01, "SPECIFIC_TYPE_POWER_SWITCH_MULTILEVEL": 0x01, "SPECIFIC_TYPE_REMOTE_CONTROL_AV": 0x04,
	"SPECIFIC_TYPE_REMOTE_CONTROL_SIMPLE": 0x06, "SPECIFIC_TYPE_REPEATER_SLAVE": 0x01, "SPECIFIC_TYPE_ROUTING_MULTILEVEL_SENSOR": 0x01,
	"SPECIFIC_TYPE_SECURE_BARRIER_ADDON": 0x07, "SPECIFIC_TYPE_SECURE_BARRIER_CLOSE_ONLY": 0x09, "SPECIFIC_TYPE_SECURE_BARRIER_OPEN_ONLY": 0x08,
	"SPECIFIC_TYPE_SECURE_DOOR": 0x05, "SPECIFIC_TYPE_SECURE_GATE": 0x06, "SPECIFIC_TYPE_SECURE_KEYPAD": 0x0B, "SPECIFIC_TYPE_SECURE_KEYPAD_DOOR_LOCK": 0x03,
	"SPECIFIC_TYPE_SECURE_LOCKBOX": 0x0A, "SPECIFIC_TYPE_SETBACK_THERMOSTAT": 0x05, "SPECIFIC_TYPE_SET_TOP_BOX": 0x04, "SPECIFIC_TYPE_SIMPLE_DISPLAY": 0x01,
	"SPECIFIC_TYPE_SIMPLE_METER": 0x01, "SPECIFIC_TYPE_SIREN": 0x05, "SPECIFIC_TYPE_SUB_SYSTEM_CONTROLLER": 0x05, "SPECIFIC_TYPE_THERMOSTAT_GENERAL_V2": 0x06,
	"SPECIFIC_TYPE_TV": 0x06, "SPECIFIC_TYPE_VALVE_OPEN_CLOSE": 0x06, "SPECIFIC_TYPE_WHOLE_HOME_METER_SIMPLE": 0x03,
}

// class27 is the class a line of the table names; 0: one the library does not support.
func class27(line string) byte {
	s := strings.TrimSpace(strings.TrimPrefix(line, "-"))
	for _, sep := range []string{" (", "(", " - ", " – "} { // remarks
		if i := strings.Index(s, sep); i > 0 {
			s = s[:i]
		}
	}
	return className[strings.TrimSpace(s)]
}

// table27 reads a table of mandatory classes.
func table27(text string) (map[[2]byte][]byte, error) {
	m := map[[2]byte][]byte{}
	for _, block := range strings.Split(strings.ReplaceAll(text, "\r\n", "\n"), "\n\n") {
		var defs [][2]byte
		var cl []byte
		for _, l := range strings.Split(block, "\n") {
			l = strings.TrimSpace(l)
			switch {
			case strings.HasPrefix(l, "#"):
				f := strings.Fields(l)
				g, sp := f[len(f)-3], f[len(f)-1]
				if sp == "SPECIFIC_TYPE_NOT_USED" {
					continue
				}
				a, ok1 := typeName[g]
				b, ok2 := typeName[sp]
				if !ok1 || !ok2 {
					return nil, fmt.Errorf("unknown device type %q", l)
				}
				defs = append(defs, [2]byte{a, b})
			case strings.HasPrefix(l, "-"):
				if c := class27(l); c != 0 {
					cl = append(cl, c)
				}
			}
		}
		for _, d := range defs {
			m[d] = cl
		}
	}
	return m, nil
}

// checkMandatory compares the mandatory classes of every pair with the table; the empty string: they are as listed.
func checkMandatory(want map[[2]byte][]byte, get func(g, s byte) []*database.CommandClass) string {
	for g := 0; g < 256; g++ {
		for s := 0; s < 256; s++ {
			var got []byte
			for _, c := range get(byte(g), byte(s)) {
				if c == nil {
					return fmt.Sprintf("the mandatory classes of %02x/%02x have an empty entry", g, s)
				}
				if c.InNIF || c.Secure || c.NonSecure || c.Version != "" {
					return fmt.Sprintf("the mandatory class %02x of %02x/%02x has attributes nobody listed: %+v", byte(c.ID), g, s, *c)
				}
				got = append(got, byte(c.ID))
			}
			if w := want[[2]byte{byte(g), byte(s)}]; string(got) != string(w) {
				return fmt.Sprintf("the mandatory classes of %02x/%02x are %x, listed are %x", g, s, got, w)
			}
		}
	}
	return ""
}

var table map[[2]byte][]byte

func wantMandatory() (map[[2]byte][]byte, error) {
	if table != nil {
		return table, nil
	}
	b, err := os.ReadFile(filepath.Join(repoDir(), "database/mandatory.txt"))
	if err != nil {
		return nil, err
	}
	table, err = table27(string(b))
	return table, err
}

func init() {
	reg(&Scenario{Prop: "C26", Name: "C26/all", Shards: 8, Enum: func(e *Enum) {
		e.Rule = "every product reference of every device file of the database, twice, the first result spoilt in between; lower and upper case"
		want, err := wantShipped()
		if err != nil || len(want) < 100 {
			e.Fail("setup: cannot read the database: %v", err)
			return
		}
		var keys []string
		for k := range want {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			if !e.Mine() {
				if e.Stop() {
					return
				}
				continue
			}
			k := k
			e.Guard(func() string { return "looking up " + k }, func() {
				f := strings.SplitN(k, "_", 3)
				w := norm(want[k])
				for round := 0; round < 2; round++ {
					d := database.New(f[0], f[1], f[2])
					if d == nil {
						e.Fail("device %s is in the database and is not found", k)
						return
					}
					if g := norm(d); g != w {
						e.Fail("device %s is\n%s\nits description says\n%s", k, g, w)
						return
					}
					for _, c := range d.CommandClasses {
						c.ID, c.Version, c.Secure = 0xee, "spoilt", !c.Secure
					}
					for _, p := range d.Parameters {
						p.Name = "spoilt"
						for i := range p.Values {
							p.Values[i].From = -1
						}
					}
					for i := range d.CommandClasses {
						d.CommandClasses[i] = &database.CommandClass{}
					}
					d.CommandClasses = append(d.CommandClasses[:0], &database.CommandClass{ID: 1})
					d.Brand, d.Product, d.Description = "spoilt", "spoilt", "spoilt"
				}
				e.Did(w, func() string { return "device " + k + ": " + clip(w, 400) })
			})
		}
	}})
	reg(&Scenario{Prop: "C26", Name: "C26/others", Shards: 8, Enum: func(e *Enum) {
		e.Rule = "every id triple formed from a known (thorough: any) manufacturer, product type and product id, and each of them with one hex digit changed, that is not in the database"
		want, err := wantShipped()
		if err != nil {
			e.Fail("setup: cannot read the database: %v", err)
			return
		}
		var set [3]map[string]bool
		for i := range set {
			set[i] = map[string]bool{}
		}
		for k := range want {
			f := strings.SplitN(k, "_", 3)
			for i := range set {
				set[i][f[i]] = true
				if e.Tier > 0 && i > 0 {
					continue
				}
			}
		}
		for i := range set {
			for _, x := range []string{"", "0000", "ffff"} {
				set[i][x] = true
			}
		}
		m, t, p := sortedKeys(set[0]), sortedKeys(set[1]), sortedKeys(set[2])
		n := 0
		try := func(a, b, c string) {
			if _, ok := want[a+"_"+b+"_"+c]; ok {
				return
			}
			n++
			if d := database.New(a, b, c); d != nil {
				e.Fail("%s/%s/%s is not in the database, looking it up returns %s %s", a, b, c, d.Brand, d.Product)
			}
		}
		for _, a := range m {
			for _, b := range t {
				if !e.Mine() {
					if e.Stop() {
						return
					}
					continue
				}
				n = 0
				for _, c := range p {
					try(a, b, c)
				}
				e.Evals += int64(n) - 1
				e.Did(a+b, func() string {
					return fmt.Sprintf("%s/%s with each of %d product ids: %d not in the database", a, b, len(p), n)
				})
			}
		}
		// near misses
		var keys []string
		for k := range want {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			if !e.Mine() {
				if e.Stop() {
					return
				}
				continue
			}
			n = 0
			f := strings.SplitN(k, "_", 3)
			for i := 0; i < 3; i++ {
				for j := range f[i] {
					for _, h := range "0123456789abcdef" {
						g := [3]string{f[0], f[1], f[2]}
						g[i] = f[i][:j] + string(h) + f[i][j+1:]
						try(g[0], g[1], g[2])
					}
				}
			}
			try(f[0]+"_"+f[1], f[2], "")
			try(f[0]+"0", f[1], f[2])
			try(f[2], f[1], f[0])
			e.Evals += int64(n) - 1
			e.Did(k, func() string { return fmt.Sprintf("%s with every digit changed: %d not in the database", k, n) })
		}
	}})
	// a device reported over the air gets its entry
	reg(&Scenario{Prop: "C26", Name: "C26/air", Run: func() {
		want, err := wantShipped()
		if err != nil {
			fail("setup: %v", err)
		}
		var keys []string
		for k := range want {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		vs.Exploring(true)
		k := keys[vs.Choose(len(keys), 0)]
		vs.Exploring(false)
		f := strings.SplitN(k, "_", 3)
		var manu [6]byte
		for i := range f {
			v, err := strconv.ParseUint(f[i], 16, 16)
			if err != nil || len(f[i]) != 4 {
				return // cannot come over the air
			}
			manu[2*i], manu[2*i+1] = byte(v>>8), byte(v)
		}
		s := newSys(1, 5)
		d := newDev16(s, 5, device{caps: []byte{0xd3, 0x9c, 0, 4, 0x77, 0x77}, manu: manu})
		s.handler = func(p *Port, f []byte) bool { return d.handle(p, f) }
		s.connect("")
		sleep(5 * time.Second)
		n := s.node(5)
		w := want[k]
		var cl []wantClass
		rlocked(n, func() {
			if n.Brand != w.Brand || n.Product != w.Product || n.Description != w.Description {
				fail("node with the ids %s became %q %q %q, should be %q %q %q", k, n.Brand, n.Product, n.Description, w.Brand, w.Product, w.Description)
			}
			for _, c := range n.CommandClasses {
				cl = append(cl, wantClass{int(c.ID), c.InNIF, c.Secure, c.NonSecure, c.Version})
			}
		})
		if js(cl) != js(w.CommandClasses) {
			fail("node with the ids %s has the classes %s, should have %s", k, js(cl), js(w.CommandClasses))
		}
		note("%s", w.Product)
	}})

	reg(&Scenario{Prop: "C27", Name: "C27/pairs", Shards: 1, Enum: func(e *Enum) {
		e.Rule = "every pair of generic and specific device class"
		want, err := wantMandatory()
		if err != nil || len(want) < 10 {
			e.Fail("setup: cannot read the table: %v", err)
			return
		}
		for round := 0; round < 2; round++ {
			if m := checkMandatory(want, database.GetMandatoryCommandClasses); m != "" {
				e.Fail("%s", m)
				return
			}
			for g := 0; g < 256; g++ { // a node adds the classes of its product
				for s := 0; s < 256; s++ {
					e.Mine()
					l := database.GetMandatoryCommandClasses(byte(g), byte(s))
					e.Did(fmt.Sprintf("%d %s", g*256+s, js(l)), func() string { return fmt.Sprintf("%02x/%02x: %s", g, s, js(l)) })
					l = append(l, &database.CommandClass{ID: 0xee})
					l = append(l, &database.CommandClass{ID: 0xef})
					if len(l) < 2 || l[len(l)-1].ID != 0xef {
						e.Fail("append")
					}
				}
			}
		}
		if m := checkMandatory(want, database.GetMandatoryCommandClasses); m != "" {
			e.Fail("after other classes were added to those of some nodes: %s", m)
		}
	}})
	// nodes of every listed type, products of various makers: later nodes get what is listed
	reg(&Scenario{Prop: "C27", Name: "C27/history", Bound: [2]int{0, 1}, Run: func() {
		want, err := wantMandatory()
		if err != nil {
			fail("setup: %v", err)
		}
		var defs [][2]byte
		for k := range want {
			defs = append(defs, k)
		}
		defs = append(defs, [2]byte{0x77, 0x77})
		sort.Slice(defs, func(i, j int) bool { return string(defs[i][:]) < string(defs[j][:]) })
		prods := [][6]byte{devices[0].manu, devices[2].manu, devices[4].manu, devices[1].manu}
		vs.Exploring(true)
		def := defs[vs.Choose(len(defs), 0)]
		a := prods[vs.Choose(len(prods), 0)]
		b := prods[vs.Choose(len(prods), 0)]
		s := newSys(1, 5, 6, 7)
		var ds []*dev16
		for i, m := range [][6]byte{a, b, a} {
			ds = append(ds, newDev16(s, byte(5+i), device{caps: []byte{0xd3, 0x9c, 0, 4, def[0], def[1]}, manu: m}))
		}
		s.handler = func(p *Port, f []byte) bool { return ds[0].handle(p, f) || ds[1].handle(p, f) || ds[2].handle(p, f) }
		s.connectStart(cfg)
		s.drain()
		sleep(5 * time.Second)
		vs.Exploring(false)
		check := func(when string) {
			if m := checkMandatory(want, database.GetMandatoryCommandClasses); m != "" {
				fail("%s: %s", when, m)
			}
		}
		check("after the nodes were identified")
		for i, m := range [][6]byte{a, b, a} {
			var cl []wantClass
			for _, c := range want[def] {
				cl = append(cl, wantClass{ID: int(c)})
			}
			if x := database.New(fmt.Sprintf("%02x%02x", m[0], m[1]), fmt.Sprintf("%02x%02x", m[2], m[3]), fmt.Sprintf("%02x%02x", m[4], m[5])); x != nil {
				for _, c := range x.CommandClasses {
					cl = append(cl, wantClass{int(c.ID), c.InNIF, c.Secure, c.NonSecure, c.Version})
				}
			}
			var got []wantClass
			n := s.node(5 + i)
			rlocked(n, func() {
				for _, c := range n.CommandClasses {
					got = append(got, wantClass{int(c.ID), c.InNIF, c.Secure, c.NonSecure, c.Version})
				}
			})
			if js(got) != js(cl) {
				fail("node %d of type %x, product %x has the classes %s, should have %s", 5+i, def, m, js(got), js(cl))
			}
		}
		if err := s.C.SaveConfigurationToFile(); err != nil {
			fail("saving failed: %v", err)
		}
		s2 := newSysOn(vos.Cur, 1, 5, 6, 7)
		s2.handler = s.handler
		s2.connect(cfg)
		s2.node(5).Level(3)
		s2.node(6).On()
		sleep(20 * time.Second)
		check("after the nodes were saved, loaded and used")
		note("%x %d", def, len(want[def]))
	}})
}
