package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/database"
	"github.com/stampzilla/gozwave/nodes"
	"gzmc/vos"
	"gzmc/vs"
)

// describe spells out everything a configuration has to keep of a node.
func describe(n *nodes.Node) string {
	var b strings.Builder
	bools := func(m map[string]bool) {
		var k []string
		for x := range m {
			k = append(k, x)
		}
		sort.Strings(k)
		for _, x := range k {
			fmt.Fprintf(&b, " %q:%v", x, m[x])
		}
	}
	floats := func(m map[string]float64) {
		var k []string
		for x := range m {
			k = append(k, x)
		}
		sort.Strings(k)
		for _, x := range k {
			fmt.Fprintf(&b, " %q:%v", x, m[x])
		}
	}
	cls := func(l []*database.CommandClass) {
		for _, c := range l {
			fmt.Fprintf(&b, " {%d %v %v %v %q}", int(c.ID), c.InNIF, c.Secure, c.NonSecure, c.Version)
		}
	}
	rlocked(n, func() {
		fmt.Fprintf(&b, "id=%d awake=%v", n.Id, n.IsAwake)
		if m := n.ManufacurerSpecific; m != nil {
			fmt.Fprintf(&b, " manu=%q/%q/%q", m.Manufacturer, m.Type, m.ID)
		}
		fmt.Fprintf(&b, " brand=%q product=%q desc=%q\nclasses", n.Brand, n.Product, n.Description)
		cls(n.CommandClasses)
		fmt.Fprintf(&b, "\nbool")
		bools(n.StateBool)
		fmt.Fprintf(&b, "\nfloat")
		floats(n.StateFloat)
		fmt.Fprintf(&b, "\nendpoints known=%v", n.Endpoints != nil)
		for _, e := range n.Endpoints {
			fmt.Fprintf(&b, "\n endpoint %d", e.Id)
			cls(e.CommandClasses)
			bools(e.StateBool)
			floats(e.StateFloat)
		}
	})
	return b.String()
}

func sameJSON(a, b []byte) bool {
	var x, y interface{}
	if json.Unmarshal(a, &x) != nil || json.Unmarshal(b, &y) != nil {
		return false
	}
	return reflect.DeepEqual(dropEmpty(x), dropEmpty(y))
}

// dropEmpty removes empty members: a null state map and an empty one say the same.
func dropEmpty(x interface{}) interface{} {
	switch v := x.(type) {
	case map[string]interface{}:
		m := map[string]interface{}{}
		for k, e := range v {
			if e = dropEmpty(e); e != nil {
				m[k] = e
			}
		}
		if len(m) == 0 {
			return nil
		}
		return m
	case []interface{}:
		if len(v) == 0 {
			return nil
		}
		l := make([]interface{}, len(v))
		for i, e := range v {
			l[i] = dropEmpty(e)
		}
		return l
	}
	return x
}

func eps21(n int, cl []*database.CommandClass) []*nodes.Endpoint {
	l := []*nodes.Endpoint{}
	for i := 1; i <= n; i++ {
		l = append(l, &nodes.Endpoint{Id: i, CommandClasses: cl, StateBool: map[string]bool{"on": i%2 == 1}, StateFloat: map[string]float64{"level": float64(i) / 3}})
	}
	return l
}

// roundTrip saves what make adds, loads it into a new controller and compares.
func roundTrip(ns []*nodes.Node) {
	s := newSys()
	fs := vos.Cur
	s.connect(cfg)
	want := map[int]string{}
	for _, n := range ns {
		s.C.Nodes.Add(n)
		want[n.Id] = describe(n)
	}
	if err := s.C.SaveConfigurationToFile(); err != nil {
		fail("saving %v failed: %v", want, err)
	}
	for _, n := range ns {
		if d := describe(n); d != want[n.Id] {
			fail("saving changed a node from\n%s\nto\n%s", want[n.Id], d)
		}
	}
	file, ok := fs.Get(cfg)
	if !ok {
		fail("there is no configuration file after saving")
	}
	s2 := newSysOn(fs)
	s2.connectStart(cfg)
	ev := s2.drain()
	sleep(400 * ms)
	s2.base = len(s2.Op.writes)
	all := s2.C.Nodes.All()
	if len(all) != len(want) {
		fail("%d nodes were saved, %d were loaded", len(want), len(all))
	}
	for id, w := range want {
		n := s2.C.Nodes.Get(id)
		if n == nil || all[id] != n {
			fail("node %d was saved but not loaded", id)
		}
		if g := describe(n); g != w {
			fail("saved was\n%s\nloaded is\n%s", w, g)
		}
		if ev.discovered(id) != 1 {
			fail("loading node %d raised %d discovery events", id, ev.discovered(id))
		}
	}
	if len(ev.Evs) != len(want) {
		fail("loading %d nodes raised %d events", len(want), len(ev.Evs))
	}
	if err := s2.C.SaveConfigurationToFile(); err != nil {
		fail("saving again failed: %v", err)
	}
	again, _ := fs.Get(cfg)
	if !sameJSON(file, again) {
		fail("saving again after loading wrote something else:\n%s\nfirst:\n%s", again, file)
	}
	// the loaded nodes work
	for _, o := range ns {
		n := s2.C.Nodes.Get(o.Id)
		operate(s2, ev, n, classesOf(n))
	}
	note("%s", js(want))
}

func classesOf(n *nodes.Node) []byte {
	var l []byte
	rlocked(n, func() {
		for _, c := range n.CommandClasses {
			l = append(l, byte(c.ID))
		}
	})
	return l
}

// operate checks that a node and its endpoints accept commands and reports.
func operate(s *Sys, ev *Events, n *nodes.Node, cl []byte) {
	id := n.GetID()
	step := func(what string, want []byte, f func()) {
		mark := len(s.Writes())
		done := false
		vs.GoNamed(what, func() { f(); done = true })
		sleep(200 * ms)
		if !done {
			fail("%s of node %d does not return: %s", what, id, vs.Dump())
		}
		got := datas(s.Writes()[mark:])
		var w [][]byte
		if want != nil {
			w = append(w, frame(0, want...))
		}
		if fmt.Sprintf("%x", got) != fmt.Sprintf("%x", w) {
			fail("%s of the loaded node %d (classes %x) wrote %x, should be %x", what, id, cl, got, w)
		}
	}
	step("On", wantCmd(cl, id, "On", 0), n.On)
	step("Off", wantCmd(cl, id, "Off", 0), n.Off)
	step("Level", wantCmd(cl, id, "Level", 42), func() { n.Level(42) })
	cnt := 0
	rlocked(n, func() { cnt = len(n.Endpoints) })
	for i := 1; i <= cnt; i++ {
		e := n.Endpoint(i)
		if e == nil || e.Id != i {
			fail("endpoint %d of the loaded node %d is missing", i, id)
		}
		step("endpoint On", wrapEp(wantCmd(cl, id, "On", 0), i), e.On)
		step("endpoint Level", wrapEp(wantCmd(cl, id, "Level", 7), i), func() { e.Level(7) })
		step("endpoint Off", wrapEp(wantCmd(cl, id, "Off", 0), i), e.Off)
	}
	before := ev.updated(id)
	s.Op.Cur().Feed(report(byte(id), 0x26, 3, 33))
	s.Op.Cur().Feed(report(byte(id), 0x31, 5, 1, 1, 9))
	s.Op.Cur().Feed(report(byte(id), 0x71, 5, 7, 0, 0, 0xff, 7, 2))
	sleep(20 * ms)
	rlocked(n, func() {
		if !n.StateBool["on"] || n.StateFloat["level"] != 33 || n.StateFloat["temperature_c"] != 9 || !n.StateBool["alarm"] {
			fail("reports to the loaded node %d were not applied: %s %s", id, js(n.StateBool), nums(n.StateFloat))
		}
	})
	if g := ev.updated(id) - before; g != 3 {
		fail("three reports to the loaded node %d raised %d events", id, g)
	}
	sleep(1100 * ms)
}

func init() {
	cl := func(k int) []*database.CommandClass {
		switch k {
		case 1:
			return []*database.CommandClass{}
		case 2:
			return []*database.CommandClass{{ID: 0x25, InNIF: true, Version: "1"}, {ID: 0x60, Secure: true, Version: "4"}, {ID: 0x86, NonSecure: true, InNIF: true, Secure: true}, {ID: 0xef}}
		case 3:
			return []*database.CommandClass{{ID: 0x26, Version: "<&>\"\u2028"}, {ID: 0x26}, {ID: 0x31}}
		}
		return nil
	}
	str := []string{"", "Fibaro", "a \"quoted\" <b>&\\ \t\n\u2028 ÅÄÖ 日本 \U0001F600 \x00", "x"}
	mkNode := func(id, awake, manu, st, classes, eps, state int) *nodes.Node {
		n := nodes.New(id)
		n.IsAwake = awake == 1
		switch manu {
		case 1:
			n.ManufacurerSpecific = &reports.ManufacturerSpecific{Manufacturer: "010f", Type: "0000", ID: "ffff"}
		case 2:
			n.ManufacurerSpecific = &reports.ManufacturerSpecific{}
		}
		n.Brand, n.Product, n.Description = str[st], str[(st+1)%len(str)], str[(st+2)%len(str)]
		n.CommandClasses = cl(classes)
		switch eps {
		case 1:
			n.Endpoints = []*nodes.Endpoint{}
		case 2:
			n.Endpoints = eps21(1, cl(classes))
		case 3:
			n.Endpoints = eps21(3, cl(2))
			n.Endpoints[2].StateBool = map[string]bool{}
			n.Endpoints[1].CommandClasses = nil
		}
		switch state {
		case 1:
			n.StateBool = map[string]bool{"on": true, "alarm": false, "": true}
			n.StateFloat = map[string]float64{"level": 99, "temperature_c": -20.05, "x": 0.1}
		case 2:
			n.StateFloat = map[string]float64{"a": 1e300, "b": -1e-300, "c": 4294967295, "d": 123456789.123456789, "relativehumidity_%": 5e-324}
		case 3:
			n.StateBool = nil
			n.StateFloat = nil
		}
		return n
	}
	reg(&Scenario{Prop: "C21", Name: "C21/fields", Run: func() {
		vs.Exploring(true)
		a, b, c, d, e, f := vs.Choose(2, 0), vs.Choose(3, 0), vs.Choose(4, 0), vs.Choose(4, 0), vs.Choose(4, 0), vs.Choose(4, 0)
		vs.Exploring(false)
		id := []int{2, 5, 127, 232}[(b+c+d)%4]
		roundTrip([]*nodes.Node{mkNode(id, a, b, c, d, e, f)})
	}})
	reg(&Scenario{Prop: "C21", Name: "C21/sets", Run: func() {
		vs.Exploring(true)
		m := vs.Choose(32, 0)
		k := vs.Choose(12, 0)
		vs.Exploring(false)
		var ns []*nodes.Node
		for i, id := range []int{2, 3, 20, 200, 232} {
			if m>>uint(i)&1 == 1 {
				ns = append(ns, mkNode(id, (i+k)%2, (i+k)%3, (i+k)%4, (i*k+k)%4, (i+k/3)%4, (i+2*k)%4))
			}
		}
		roundTrip(ns)
	}})
	// the file is loaded again into the running controller
	reg(&Scenario{Prop: "C21", Name: "C21/reload", Run: func() {
		vs.Exploring(true)
		m := 1 + vs.Choose(7, 0)
		k := vs.Choose(6, 0)
		change := vs.Choose(3, 0)
		times := 1 + vs.Choose(2, 0)
		vs.Exploring(false)
		s := newSys()
		s.connect(cfg)
		var ns []*nodes.Node
		for i, id := range []int{2, 20, 232} {
			if m>>uint(i)&1 == 1 {
				ns = append(ns, mkNode(id, i%2, (i+k)%3, (i+k)%4, (i+k)%4, (i+k)%4, 1+(i+k)%2))
			}
		}
		want := map[int]string{}
		for _, n := range ns {
			n.Setup(s.C.Connection, func(interface{}) {})
			s.C.Nodes.Add(n)
			want[n.Id] = describe(n)
		}
		if err := s.C.SaveConfigurationToFile(); err != nil {
			fail("saving failed: %v", err)
		}
		ev := s.drain()
		for r := 0; r < times; r++ {
			for _, n := range ns {
				switch change {
				case 1:
					s.Op.Cur().Feed(report(byte(n.Id), 0x26, 3, byte(60+r)))
				case 2:
					n = s.C.Nodes.Get(n.Id)
					n.Lock()
					n.Endpoints, n.CommandClasses, n.Brand, n.ManufacurerSpecific = nil, nil, "other", nil
					n.StateFloat["new"], n.StateBool["on"] = 1, false
					n.Unlock()
				}
			}
			sleep(20 * ms)
			if err := s.C.LoadConfigurationFromFile(); err != nil {
				fail("loading the file again: %v", err)
			}
			all := s.C.Nodes.All()
			if len(all) != len(want) {
				fail("loading %d nodes again makes %d", len(want), len(all))
			}
			for id, w := range want {
				n := s.C.Nodes.Get(id)
				if n == nil || all[id] != n {
					fail("node %d was saved but not loaded", id)
				}
				if g := describe(n); g != w {
					fail("saved was\n%s\nloaded again is\n%s", w, g)
				}
			}
		}
		sleep(400 * ms)
		s.base = len(s.Op.writes)
		for _, o := range ns {
			n := s.C.Nodes.Get(o.Id)
			operate(s, ev, n, classesOf(n))
		}
	}})
	reg(&Scenario{Prop: "C21", Name: "C21/ids", Run: func() {
		vs.Exploring(true)
		id := 1 + vs.Choose(232, 0)
		vs.Exploring(false)
		roundTrip([]*nodes.Node{mkNode(id, 1, 1, 1, 2, 3, 1)})
	}})
	// what discovery and reports built survives a restart
	reg(&Scenario{Prop: "C21", Name: "C21/restart", Run: func() {
		vs.Exploring(true)
		di := vs.Choose(len(devices), 0)
		vs.Exploring(false)
		s := newSys(1, 5, 6)
		fs := vos.Cur
		d5, d6 := newDev16(s, 5, devices[di]), newDev16(s, 6, sleeper)
		s.handler = func(p *Port, f []byte) bool { return d5.handle(p, f) || d6.handle(p, f) }
		s.connect(cfg)
		s.ev = s.drain()
		sleep(60 * time.Second)
		for i := 0; i < 4; i++ {
			s.Op.Cur().Feed(cat(report(6, 0x84, 7), report(5, 0x26, 3, byte(50+i))))
			sleep(12 * time.Second)
		}
		sleep(15 * time.Second)
		a5, a6 := describe(s.node(5)), describe(s.node(6))
		s2 := newSysOn(fs, 1, 5, 6)
		e5, e6 := newDev16(s2, 5, devices[di]), newDev16(s2, 6, sleeper)
		s2.handler = func(p *Port, f []byte) bool { return e5.handle(p, f) || e6.handle(p, f) }
		s2.connectStart(cfg)
		for id, w := range map[int]string{5: a5, 6: a6} {
			if g := describe(s2.node(id)); g != w {
				fail("before the restart node %d was\n%s\nafter it is\n%s", id, w, g)
			}
		}
		s2.drain()
		sleep(100 * time.Second)
		if e5.asked["manufacturer"]+e5.asked["endpoints"] > 0 || e6.asked["manufacturer"]+e6.asked["endpoints"] > 0 {
			fail("after the restart the nodes were asked again: %v %v", e5.log, e6.log)
		}
		e5.final(devices[di].classes, devices[di].brand, devices[di].product, devices[di].desc, -1)
		note("%s", a5)
	}})
	c22()
	c23()
}

func c22() {
	errDisk := errors.New("no space left on device")
	old := map[int][]J{0: nil, 1: {jnode(5, 0x25)}, 2: {jnode(5, 0x25, 0x60), jnode(6, 0x26), jnode(7, 0x31), jnode(8, 0x31), jnode(9, 0x31)}}
	// levels loads a file system's configuration into a new controller and returns the level of node 5 and the number of nodes
	loadFile := func(fs *vos.FS, file string) (string, *Sys) {
		if _, ok := fs.Get(file); !ok {
			return "absent", nil
		}
		s := newSysOn(fs)
		s.connect(file)
		if err := s.C.LoadConfigurationFromFile(); err != nil {
			b, _ := fs.Get(file)
			fail("the configuration file can no longer be loaded: %v (%d bytes)", err, len(b))
		}
		all := s.C.Nodes.All()
		var k []int
		for id := range all {
			k = append(k, id)
		}
		sort.Ints(k)
		var o string
		for _, id := range k {
			o += describe(all[id]) + "\n"
		}
		return o, s
	}
	load := func(fs *vos.FS) (string, *Sys) { return loadFile(fs, cfg) }
	snapshot := func(s *Sys) string {
		all := s.C.Nodes.All()
		var k []int
		for id := range all {
			k = append(k, id)
		}
		sort.Ints(k)
		var o string
		for _, id := range k {
			o += describe(all[id]) + "\n"
		}
		return o
	}
	type fault struct {
		err     error
		partial int // percent
		crash   bool
	}
	faults := []fault{{err: errDisk}, {crash: true}, {err: errDisk, partial: 50}, {crash: true, partial: 50}, {crash: true, partial: 100}, {err: errDisk, partial: 99}, {crash: true, partial: 1}}
	const maxOps = 10
	run := func(two, auto bool) func() {
		return func() {
			vs.Exploring(true)
			o := 0
			if auto {
				o = 1 + vs.Choose(2, 0)
			} else {
				o = vs.Choose(3, 0)
			}
			k := vs.Choose(maxOps, 0)
			f := faults[vs.Choose(len(faults), 0)]
			k2, f2 := -1, fault{}
			if two {
				k2 = k + 1 + vs.Choose(4, 0)
				f2 = faults[vs.Choose(4, 0)]
			}
			shrink := vs.Choose(2, 0)
			again := vs.Choose(2, 0) == 1 // the same once more
			vs.Exploring(false)
			s := newSys()
			fs := vos.Cur
			was := "absent"
			if o > 0 {
				fs.Put(cfg, jfile(old[o]...))
			}
			s.connect(cfg)
			if o > 0 {
				was = snapshot(s)
			}
			s.drain()
			// something changes
			n := nodes.New(5)
			if x := s.C.Nodes.Get(5); x != nil {
				n = x
			} else {
				s.C.Nodes.Add(n)
			}
			n.Lock()
			n.StateFloat["level"] = 77
			n.Description = strings.Repeat("new ", 20*(1-shrink))
			n.Unlock()
			is := snapshot(s)
			var dead *vos.FS
			count := -1
			hit := false
			fs.OnCrash = func() {
				dead = fs.Clone()
				vs.Block()
			}
			fs.Hook = func(op vos.Op) vos.Fault {
				count++
				x := fault{}
				switch count {
				case k:
					x = f
				case k2:
					x = f2
				default:
					return vos.Fault{}
				}
				hit = true
				p := op.N * x.partial / 100
				if x.partial == 1 {
					p = 1
				}
				return vos.Fault{Err: x.err, Partial: p, Crash: x.crash}
			}
			var err error
			returned := false
			if auto {
				s.Op.Cur().Feed(report(5, 0x26, 3, 77))
				sleep(25 * time.Second)
				is2 := snapshot(s)
				returned, err = dead == nil, errDisk
				is = is2
			} else {
				vs.GoNamed("save", func() {
					err = s.C.SaveConfigurationToFile()
					returned = true
				})
				sleep(5 * time.Second)
			}
			fs.Hook = nil
			if dead == nil && !returned {
				fail("saving does not return: %s", vs.Dump())
			}
			now := fs
			if dead != nil {
				now = dead
			}
			got, s2 := load(now)
			if got != was && got != is {
				fail("after a save that failed at operation %d (%+v, then %d %+v; error %v) the configuration is\n%s\nbefore\n%s\nnew\n%s", k, f, k2, f2, err, got, was, is)
			}
			if returned && !auto {
				if err == nil && got != is {
					fail("saving reported success but the configuration is the previous one")
				}
				if err == nil && hit && f.err != nil && got != is {
					fail("saving failed but reported success")
				}
			}
			// the next save works
			if s2 == nil {
				if dead != nil {
					s2 = newSysOn(dead)
					s2.connect(cfg)
					s2.C.Nodes.Add(nodes.New(5))
				} else {
					s2 = s
					vos.Cur = fs
				}
			}
			if dead == nil {
				s2 = s
				vos.Cur = fs
			}
			if !again {
				m := s2.node(5)
				m.Lock()
				m.StateFloat["level"] = 78
				m.Unlock()
			}
			if err := s2.C.SaveConfigurationToFile(); err != nil {
				fail("the next save failed: %v", err)
			}
			want := snapshot(s2)
			if got, _ := load(vos.Cur); got != want {
				fail("the next save wrote\n%s\nshould be\n%s", got, want)
			}
			note("%v %v %v", got == was, got == is, err)
		}
	}
	reg(&Scenario{Prop: "C22", Name: "C22/save", Run: run(false, false)})
	reg(&Scenario{Prop: "C22", Name: "C22/twice", Run: run(true, false)})
	reg(&Scenario{Prop: "C22", Name: "C22/automatic", Run: run(false, true)})
	// two saves at the same time, and one that dies in the middle
	reg(&Scenario{Prop: "C22", Name: "C22/concurrent", Bound: [2]int{1, 2}, Fine: false, Run: func() {
		vs.Exploring(true)
		k := vs.Choose(2*maxOps+1, 0) - 1
		vs.Exploring(false)
		s := newSys()
		fs := vos.Cur
		fs.Put(cfg, jfile(old[1]...))
		s.connect(cfg)
		was := snapshot(s)
		n := s.node(5)
		n.Lock()
		n.StateFloat["level"] = 77
		n.Description = strings.Repeat("new ", 20)
		n.Unlock()
		is := snapshot(s)
		var dead *vos.FS
		count := -1
		fs.OnCrash = func() {
			dead = fs.Clone()
			vs.Block()
		}
		fs.Hook = func(op vos.Op) vos.Fault {
			if dead != nil {
				vs.Block() // the process is dead
			}
			count++
			if count == k {
				return vos.Fault{Crash: true, Partial: op.N / 2}
			}
			return vos.Fault{}
		}
		vs.Exploring(true)
		done := 0
		for i := 0; i < 2; i++ {
			vs.GoNamed("save", func() {
				if err := s.C.SaveConfigurationToFile(); err != nil {
					fail("one of two concurrent saves failed: %v", err)
				}
				done++
			})
		}
		sleep(3 * time.Second)
		vs.Exploring(false)
		fs.Hook = nil
		end := fs
		if dead != nil {
			end = dead
		} else if done != 2 {
			fail("concurrent saves do not return: %s", vs.Dump())
		}
		got, _ := load(end)
		if got != is && (dead == nil || got != was) {
			fail("after two concurrent saves (crash %v) the configuration is\n%s\nshould be\n%s", dead != nil, got, is)
		}
		note("%v %v", got == is, dead != nil)
	}})
	// two controllers save to two files of one directory
	reg(&Scenario{Prop: "C22", Name: "C22/two", Bound: [2]int{1, 2}, Run: func() {
		vs.Exploring(true)
		k := vs.Choose(2*maxOps+1, 0) - 1
		fails := vs.Choose(2, 0) == 1
		gap := vs.Choose(2, 0) == 1
		vs.Exploring(false)
		a, b := pair(0x25)
		fs := vos.Cur
		files := []string{cfg, cfg2}
		sys := []*Sys{a, b}
		var was, is [2]string
		for i, s := range sys {
			was[i] = snapshot(s)
			n := s.node(5)
			n.Lock()
			n.StateFloat["level"] = float64(70 + i)
			n.Description = strings.Repeat("new ", 5+20*i)
			n.Unlock()
			is[i] = snapshot(s)
		}
		var dead *vos.FS
		count := -1
		fs.OnCrash = func() {
			dead = fs.Clone()
			vs.Block()
		}
		fs.Hook = func(op vos.Op) vos.Fault {
			if dead != nil {
				vs.Block()
			}
			count++
			if count == k {
				return vos.Fault{Crash: !fails, Err: map[bool]error{true: errDisk}[fails], Partial: op.N / 2}
			}
			return vos.Fault{}
		}
		var errs [2]error
		done := 0
		vs.Exploring(true)
		for i, s := range sys {
			i, s := i, s
			vs.GoNamed("save", func() {
				if gap && i == 1 {
					sleep(1)
				}
				errs[i] = s.C.SaveConfigurationToFile()
				done++
			})
		}
		sleep(3 * time.Second)
		vs.Exploring(false)
		fs.Hook = nil
		end := fs
		if dead != nil {
			end = dead
		} else if done != 2 {
			fail("the saves of two controllers do not return: %s", vs.Dump())
		}
		bad := 0
		for i := range sys {
			if errs[i] != nil {
				bad++
			}
		}
		if bad > 1 || bad == 1 && (!fails || k < 0 || count < k) {
			fail("two controllers saved to two files, with %d failing operations: %v", map[bool]int{true: 1}[fails && count >= k], errs)
		}
		for i, f := range files {
			got, _ := loadFile(end, f)
			if got != is[i] && (got != was[i] || dead == nil && errs[i] == nil) {
				fail("two controllers saved (crash %v, errors %v): %s holds\n%s\nshould be\n%s", dead != nil, errs, f, got, is[i])
			}
		}
		note("%v %v %v", dead != nil, errs[0] != nil, errs[1] != nil)
	}})
	// what was changed before a save is in the file when it has returned, whatever other saves are doing
	reg(&Scenario{Prop: "C22", Name: "C22/stale", Bound: [2]int{2, 3}, Run: func() {
		s := newSys()
		fs := vos.Cur
		fs.Put(cfg, jfile(old[1]...))
		s.connect(cfg)
		n := s.node(5)
		vs.Exploring(true)
		auto := vs.Choose(2, 0) == 1 // the other save is the automatic one
		done := 0
		if auto {
			vs.Exploring(false)
			n.ProcessEvent(&reports.SwitchMultilevelV1{CurrentValue: 1})
			sleep(10*time.Second - 1)
			vs.Exploring(true)
		} else {
			vs.GoNamed("save", func() {
				if err := s.C.SaveConfigurationToFile(); err != nil {
					fail("one of two concurrent saves failed: %v", err)
				}
				done++
			})
		}
		sleep(1)
		n.Lock()
		n.StateFloat["level"] = 77
		n.Unlock()
		if err := s.C.SaveConfigurationToFile(); err != nil {
			fail("a save failed: %v", err)
		}
		done++
		sleep(3 * time.Second)
		vs.Exploring(false)
		if !auto && done != 2 {
			fail("concurrent saves do not return: %s", vs.Dump())
		}
		want := snapshot(s)
		if got, _ := load(fs); got != want {
			fail("a change was made, then a save succeeded, another save was under way: the file holds\n%s\nshould be\n%s", got, want)
		}
	}})
	// a state that cannot be written
	reg(&Scenario{Prop: "C22", Name: "C22/unencodable", Run: func() {
		vs.Exploring(true)
		v := []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[vs.Choose(3, 0)]
		o := 1 + vs.Choose(2, 0)
		where := vs.Choose(2, 0)
		vs.Exploring(false)
		s := newSys()
		fs := vos.Cur
		fs.Put(cfg, jfile(old[o]...))
		s.connect(cfg)
		was := snapshot(s)
		n := s.node(5)
		n.Lock()
		if where == 1 {
			n.Endpoints = append(n.Endpoints, &nodes.Endpoint{Id: 1, StateFloat: map[string]float64{"level": v}})
		} else {
			n.StateFloat["level"] = v
		}
		n.Unlock()
		err := s.C.SaveConfigurationToFile()
		if got, _ := load(fs); got != was {
			fail("after saving a state that cannot be encoded (error %v) the configuration is\n%s\nbefore\n%s", err, got, was)
		}
		if err == nil {
			fail("a save that could not be completed reports no error")
		}
		vos.Cur = fs
		n.Lock()
		n.StateFloat["level"] = 78
		if where == 1 {
			n.Endpoints = nil
		}
		n.Unlock()
		want := snapshot(s)
		if err := s.C.SaveConfigurationToFile(); err != nil {
			fail("the next save failed: %v", err)
		}
		if got, _ := load(fs); got != want {
			fail("the next save wrote\n%s\nshould be\n%s", got, want)
		}
	}})
	// no file can be written at all
	reg(&Scenario{Prop: "C22", Name: "C22/unwritable", Run: func() {
		vs.Exploring(true)
		k := vs.Choose(3, 0)
		vs.Exploring(false)
		s := newSys()
		file := []string{"/no/such/dir/n.json", "/cfg", ""}[k]
		s.connect(file)
		s.C.Nodes.Add(nodes.New(5))
		if err := s.C.SaveConfigurationToFile(); err == nil {
			fail("saving to %q reported success", file)
		}
		if l := vos.Cur.List(); len(l) > 0 {
			fail("saving to %q left the files %v", file, l)
		}
	}})
}

func c23() {
	// the configuration file's history
	type version struct {
		at    time.Duration
		level float64
	}
	watch := func(s *Sys, until time.Duration, vsn *[]version, op time.Duration) {
		last := ""
		if b, ok := vos.Cur.Get(cfg); ok {
			last = string(b)
		}
		changed := vos.Cur.Changed[cfg]
		vs.GoNamed("watch", func() {
			for now() < until {
				sleep(50*ms + 1)
				b, ok := vos.Cur.Get(cfg)
				if !ok || vos.Cur.Changed[cfg] == changed {
					continue
				}
				var c struct {
					Nodes map[string]struct{ StateFloat map[string]float64 }
				}
				if json.Unmarshal(b, &c) != nil {
					continue // being written
				}
				changed = vos.Cur.Changed[cfg]
				last = string(b)
				*vsn = append(*vsn, version{now(), c.Nodes["5"].StateFloat["level"]})
			}
		})
		_ = last
	}
	reg(&Scenario{Prop: "C23", Name: "C23/gaps", Run: func() {
		vs.Exploring(true)
		gaps := []time.Duration{0, 3 * time.Second, 9900 * ms, 10200 * ms, 15 * time.Second, 25 * time.Second}
		n := 1 + vs.Choose(5, 0)
		var gs []time.Duration
		for i := 1; i < n; i++ {
			gs = append(gs, gaps[vs.Choose(len(gaps), 0)])
		}
		slow := []time.Duration{0, 200 * ms}[vs.Choose(2, 0)]
		vs.Exploring(false)
		s := startWith(jnode(5, 0x25))
		s.drain()
		if slow > 0 {
			vos.Cur.Hook = func(vos.Op) vos.Fault { sleep(slow); return vos.Fault{} }
		}
		var hist []version
		begin := now()
		watch(s, begin+200*time.Second, &hist, 0)
		var at []time.Duration
		for i := 0; i < n; i++ {
			if i > 0 && gs[i-1] > 0 {
				sleep(gs[i-1])
			}
			s.Op.Cur().Feed(report(5, 0x26, 3, byte(i+1)))
			at = append(at, now())
		}
		sleep(40 * time.Second)
		// quiet periods
		tol := 200*ms + 8*slow
		var want []version
		for i := range at {
			if i == len(at)-1 || at[i+1]-at[i] > 10*time.Second {
				want = append(want, version{at[i] + 10*time.Second, float64(i + 1)})
			}
		}
		ok := len(hist) == len(want)
		for i := range hist {
			if !ok {
				break
			}
			late := want[i].at + tol
			ok = hist[i].at >= want[i].at && hist[i].at <= late && (hist[i].level == want[i].level || slow > 0 && hist[i].level > want[i].level)
		}
		if !ok && slow > 0 {
			// an update can come while a file is being written: it must be in it or in a later one
			ok = len(hist) > 0 && hist[len(hist)-1].level == float64(n) && len(hist) <= len(want)
			for i := range hist {
				quiet := false
				for _, w := range want {
					quiet = quiet || hist[i].at >= w.at && hist[i].at <= w.at+tol+time.Second
				}
				ok = ok && quiet
			}
		}
		if !ok {
			fail("updates at %v: the file was saved (time, level) %v, should be %v (slow disk: %v)", at, hist, want, slow)
		}
		note("%v", hist)
	}})
	// an update at any moment around the save
	reg(&Scenario{Prop: "C23", Name: "C23/race", Bound: [2]int{1, 2}, Fine: false, Run: func() {
		vs.Exploring(true)
		g := []time.Duration{0, 9999 * ms, 10 * time.Second, 10*time.Second + 1, 10001 * ms, 10050 * ms, 10100 * ms, 10300 * ms}[vs.Choose(8, 0)]
		slow := []time.Duration{0, 20 * ms, 100 * ms}[vs.Choose(3, 0)]
		vs.Exploring(false)
		s := startWith(jnode(5, 0x25), jnode(6, 0x25))
		s.drain()
		if slow > 0 {
			vos.Cur.Hook = func(vos.Op) vos.Fault { sleep(slow); return vos.Fault{} }
		}
		s.Op.Cur().Feed(report(5, 0x26, 3, 1))
		b := now()
		if g > 0 {
			sleep(g - 1)
			vs.Exploring(true)
			sleep(1)
		} else {
			vs.Exploring(true)
		}
		s.Op.Cur().Feed(cat(report(5, 0x26, 3, 2), report(6, 0x26, 3, 3)))
		sleep(800 * ms)
		vs.Exploring(false)
		sleep(30 * time.Second)
		_ = b
		s.saved("long after the last update", map[int]float64{5: 2, 6: 3})
	}})
	reg(&Scenario{Prop: "C23", Name: "C23/schedule", Bound: [2]int{2, 3}, Fine: true, Run: func() {
		s := startWith(jnode(5, 0x25), jnode(6, 0x25))
		s.drain()
		s.Op.Cur().Feed(report(5, 0x26, 3, 1))
		b := vos.Cur.Changed[cfg]
		sleep(10*time.Second - 1)
		vs.Exploring(true)
		sleep(1)
		s.Op.Cur().Feed(report(6, 0x26, 3, 3))
		sleep(100 * ms)
		vs.Exploring(false)
		sleep(15 * time.Second)
		if vos.Cur.Changed[cfg] == b {
			fail("nothing was saved")
		}
		s.saved("long after the last update", map[int]float64{5: 1, 6: 3})
	}})
	// updates right at the start and during identification
	reg(&Scenario{Prop: "C23", Name: "C23/start", Bound: [2]int{1, 2}, Run: func() {
		s := newSys(1, 5)
		d := newDev16(s, 5, devices[0])
		s.handler = func(p *Port, f []byte) bool { return d.handle(p, f) }
		vos.Cur.Put(cfg, jfile(jnode(6, 0x26)))
		vs.Exploring(true)
		early := vs.Choose(2, 0)
		vs.GoNamed("early", func() {
			vs.WaitUntil("open", -1, func() bool { return s.Op.Cur() != nil })
			if early == 1 {
				s.Op.Cur().Feed(report(6, 0x26, 3, 55))
			}
		})
		s.connectStart(cfg)
		s.drain()
		if early == 0 {
			s.Op.Cur().Feed(report(6, 0x26, 3, 55))
		}
		sleep(3 * time.Second)
		vs.Exploring(false)
		sleep(30 * time.Second)
		s.saved("after discovery", map[int]float64{6: 55})
		s2 := newSysOn(vos.Cur)
		s2.connect(cfg)
		if g, w := describe(s2.node(5)), describe(s.node(5)); g != w {
			fail("after discovery the saved node is\n%s\nshould be\n%s", g, w)
		}
	}})
	// nobody takes the events
	reg(&Scenario{Prop: "C23", Name: "C23/unread", Run: func() {
		vs.Exploring(true)
		n := []int{1, 8, 9, 10, 11, 12, 13, 30}[vs.Choose(8, 0)]
		rounds := 1 + vs.Choose(2, 0)
		gap := []time.Duration{0, ms, time.Second}[vs.Choose(3, 0)]
		read := vs.Choose(2, 0) // some of them are taken
		vs.Exploring(false)
		s := startWith(jnode(5, 0x25), jnode(6, 0x25))
		v := 0
		for r := 0; r < rounds; r++ {
			b := vos.Cur.Changed[cfg]
			for i := 0; i < n; i++ {
				v++
				s.Op.Cur().Feed(report(5, 0x26, 3, byte(v)))
				sleep(gap)
			}
			sleep(9900*ms - gap)
			if vos.Cur.Changed[cfg] != b {
				fail("the file was saved before ten quiet seconds had passed")
			}
			sleep(400 * ms)
			s.saved(fmt.Sprintf("ten seconds after %d updates whose events nobody took", v), map[int]float64{5: float64(v)})
			if read == 1 {
				ch := s.C.GetNextEvent()
				vs.GoNamed("events", func() {
					for i := 0; i < 5; i++ {
						vs.Recv2(ch)
					}
				})
			}
		}
	}})
	// without a file name nothing is written
	reg(&Scenario{Prop: "C23", Name: "C23/nofile", Run: func() {
		s := newSys(1, 5)
		d := newDev16(s, 5, devices[0])
		s.handler = func(p *Port, f []byte) bool { return d.handle(p, f) }
		s.connect("")
		s.drain()
		sleep(5 * time.Second)
		for i := 0; i < 5; i++ {
			s.Op.Cur().Feed(report(5, 0x26, 3, byte(i)))
			sleep(12 * time.Second)
		}
		for _, o := range vos.Cur.Log {
			if o.Kind != "stat" && o.Kind != "open" && o.Kind != "read" {
				fail("without a file name the library did %s %s", o.Kind, o.Path)
			}
		}
		if l := vos.Cur.List(); len(l) > 0 {
			fail("without a file name the files %v were written", l)
		}
	}})
	// an alarm and its end are saved
	reg(&Scenario{Prop: "C23", Name: "C23/alarm", Bound: [2]int{1, 2}, Run: func() {
		s := startWith(jnode(5, 0x25))
		s.drain()
		vs.Exploring(true)
		s.Op.Cur().Feed(report(5, 0x71, 5, 7, 1, 0, 0xff, 7, 2))
		sleep(2 * time.Second)
		vs.Exploring(false)
		sleep(7 * time.Second)
		b, _ := vos.Cur.Get(cfg)
		if strings.Contains(string(b), "alarm") {
			fail("the file was saved before ten quiet seconds had passed")
		}
		sleep(5 * time.Second)
		b, _ = vos.Cur.Get(cfg)
		if !strings.Contains(string(b), `"alarmLastType": 7`) && !strings.Contains(string(b), `"alarmLastType":7`) {
			fail("the alarm was not saved: %s", b)
		}
		if strings.Contains(strings.ReplaceAll(string(b), " ", ""), `"alarm":true`) {
			fail("the end of the alarm was not saved: %s", b)
		}
	}})
	c24()
}

func c24() {
	full := jnode(5, 0x25, 0x60)
	full["Endpoints"] = jendpoints(2, 0x25)
	full["StateBool"] = J{"on": true}
	full["StateFloat"] = J{"level": 12.5}
	valid := jfile(full, jnode(9, 0x26))
	// judge starts up on a file with these contents.
	judge := func(what string, content []byte, usable int) { // usable: 1 yes, 0 no, -1 not judged
		s := newSys(1, 5, 12)
		d5, d12 := newDev16(s, 5, devices[0]), newDev16(s, 12, devices[0])
		s.handler = func(p *Port, f []byte) bool { return d5.handle(p, f) || d12.handle(p, f) }
		if content != nil {
			vos.Cur.Put(cfg, content)
		}
		s.connectStart(cfg)
		loaded := s.C.Nodes.All()
		s.ev = s.drain()
		sleep(400 * ms)
		if usable == 0 && len(loaded) > 0 {
			// something was read after all: fine as long as it works
			usable = -1
		}
		err := s.C.LoadConfigurationFromFile()
		if usable == 0 && err == nil {
			fail("%s: nothing usable could be read, loading reported no error", what)
		}
		if usable == 1 && err != nil {
			fail("%s: loading a valid file reported %v", what, err)
		}
		if usable == 1 && len(loaded) != 2 {
			fail("%s: %d nodes were loaded", what, len(loaded))
		}
		sleep(5 * time.Second)
		// normal discovery
		for _, id := range []int{5, 12} {
			if s.C.Nodes.Get(id) == nil {
				fail("%s: discovery did not create node %d", what, id)
			}
		}
		if d5.asked["capabilities"] == 0 || d12.asked["capabilities"] == 0 {
			fail("%s: discovered nodes were not asked for their capabilities", what)
		}
		s.base = len(s.Op.writes)
		var ids []int
		for id := range s.C.Nodes.All() {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		if len(ids) > 6 {
			ids = ids[:6]
		}
		for _, id := range ids {
			n := s.C.Nodes.Get(id)
			rid := id
			if n.GetID() != id || id < 1 || id > 232 {
				rid = -1
			}
			if rid > 0 {
				mark := 0
				for _, p := range payloads {
					s.Op.Cur().Feed(report(byte(id), p...))
					mark++
				}
				sleep(300 * ms)
				f := newFolded()
				for _, p := range payloads {
					f.apply(p)
				}
				rlocked(n, func() {
					for k, v := range f.f {
						if g, ok := n.StateFloat[k]; !ok || num(g) != num(v) {
							fail("%s: node %d does not accept reports: %s is %v, should be %v", what, id, k, g, v)
						}
					}
					for k, v := range f.b {
						if n.StateBool[k] != v {
							fail("%s: node %d does not accept reports: %s", what, id, k)
						}
					}
				})
			} else {
				n.ProcessEvent(&reports.SwitchMultilevelV1{CurrentValue: 3})
				n.ProcessEvent(&reports.Alarm{Status: 0xff, Type: 7})
				n.ProcessEvent(&reports.WakeUp{})
			}
			cl := classesOf(n)
			mark := len(s.Writes())
			var want [][]byte
			add := func(b []byte) {
				if b != nil {
					want = append(want, frame(0, b...))
				}
			}
			done := false
			nid := n.GetID()
			cnt := 0
			rlocked(n, func() { cnt = len(n.Endpoints) })
			vs.GoNamed("commands", func() {
				n.On()
				n.Level(20)
				n.Off()
				for i := 1; i <= cnt && i < 4; i++ {
					if e := n.Endpoint(i); e != nil {
						e.On()
						e.Level(3)
						e.Off()
					}
				}
				done = true
			})
			sleep(2500 * ms)
			if !done {
				fail("%s: commands to node %d do not return: %s", what, id, vs.Dump())
			}
			if rid > 0 {
				add(wantCmd(cl, nid, "On", 0))
				add(wantCmd(cl, nid, "Level", 20))
				add(wantCmd(cl, nid, "Off", 0))
				if got := datas(s.Writes()[mark:]); len(want) > 0 && (len(got) < len(want) || fmt.Sprintf("%x", got[:len(want)]) != fmt.Sprintf("%x", want)) {
					fail("%s: commands to node %d wrote %x, should begin with %x", what, id, got, want)
				}
			}
		}
		if err := s.C.SaveConfigurationToFile(); err != nil {
			fail("%s: saving failed: %v", what, err)
		}
		note("%d %v", len(loaded), err)
	}
	reg(&Scenario{Prop: "C24", Name: "C24/truncated", Run: func() {
		vs.Exploring(true)
		k := vs.Choose(len(valid)+1, 0)
		vs.Exploring(false)
		use := 0
		if strings.TrimSpace(string(valid[:k])) == strings.TrimSpace(string(valid)) {
			use = 1
		}
		judge(fmt.Sprintf("file cut to %d of %d bytes", k, len(valid)), valid[:k:k], use)
	}})
	reg(&Scenario{Prop: "C24", Name: "C24/missing", Run: func() {
		vs.Exploring(true)
		k := vs.Choose(4, 0)
		vs.Exploring(false)
		switch k {
		case 0:
			judge("no file", nil, 0)
		case 1:
			judge("empty file", []byte{}, 0)
		default:
			s := newSys(1, 5)
			s.connect([]string{"/cfg", "/no/dir/file"}[k-2])
			if s.C.LoadConfigurationFromFile() == nil {
				fail("loading a directory or a file that cannot be opened reported no error")
			}
			if s.C.Nodes.Get(5) == nil {
				fail("no discovery without a configuration file")
			}
		}
	}})
	// every node member missing, null or of another kind, alone and in pairs
	keys := []string{"id", "is_awake", "ManufacurerSpecific", "Brand", "CommandClasses", "Endpoints", "StateBool", "StateFloat"}
	type variant struct {
		name string
		set  func(m J, k string)
	}
	vals := []variant{
		{"as it is", func(m J, k string) {}},
		{"missing", func(m J, k string) { delete(m, k) }},
		{"null", func(m J, k string) { m[k] = nil }},
		{"empty list", func(m J, k string) { m[k] = []interface{}{} }},
		{"empty object", func(m J, k string) { m[k] = J{} }},
		{"string", func(m J, k string) { m[k] = "x" }},
		{"number", func(m J, k string) { m[k] = 7.5 }},
		{"list of null", func(m J, k string) { m[k] = []interface{}{nil, nil} }},
		{"list of empty objects", func(m J, k string) { m[k] = []interface{}{J{}, nil, J{}} }},
		{"object of null", func(m J, k string) { m[k] = J{"on": nil, "ID": nil} }},
	}
	reg(&Scenario{Prop: "C24", Name: "C24/members", Run: func() {
		vs.Exploring(true)
		k1 := vs.Choose(len(keys), 0)
		v1 := vs.Choose(len(vals), 0)
		k2 := vs.Choose(len(keys), 0)
		v2 := vs.Choose(3, 0)
		vs.Exploring(false)
		if k2 == k1 && v2 > 0 {
			return
		}
		var m J
		b, _ := json.Marshal(full)
		json.Unmarshal(b, &m)
		vals[v1].set(m, keys[k1])
		vals[v2].set(m, keys[k2])
		f, _ := json.Marshal(J{"Nodes": J{"5": m, "9": jnode(9, 0x26)}})
		judge(fmt.Sprintf("%s %s, %s %s", keys[k1], vals[v1].name, keys[k2], vals[v2].name), f, -1)
	}})
	odd := []string{"null", "{}", "[]", `"x"`, "7", "true", `{"Nodes":null}`, `{"Nodes":{}}`, `{"Nodes":[]}`, `{"Nodes":{"5":null}}`, `{"Nodes":{"5":{}}}`, `{"Nodes":{"5":{},"9":null,"7":{"id":7}}}`,
		`{"Nodes":{"x":{"id":5}}}`, `{"Nodes":{"5":{"id":300}}}`, `{"Nodes":{"5":{"id":-1}}}`, `{"Nodes":{"5":{"id":9},"9":{"id":5}}}`, `{"Nodes":{"5":7}}`, `{"Other":{}}`, `{"nodes":{"5":{"ID":5}}}`,
		"\xff\xfe\x00", "   \n", `{"Nodes":{"5":{"id":5,"Endpoints":[null,{"Id":2},{}]}}}`, `{"Nodes":{"5":{"id":5,"CommandClasses":[null,{"ID":37}]}}} trailing`, `{"Nodes":{"5":{"id":5,"unknown":[1,2,3]}},"x":1}`,
		`{"Nodes":{"5":{"id":5,"Endpoints":[{"Id":1,"CommandClasses":[null]}]}}}`, `{"Connection":{},"Nodes":{"5":{"id":5}},"filename":"/x"}`, `{"Nodes":{"5":{"id":5,"CommandClasses":[{"ID":37}]}}}`,
		`{"Nodes":{"5":{"id":5,"CommandClasses":[{"ID":38}],"Endpoints":[{"Id":1},{"Id":2}]}}}`}
	useless := map[int]bool{0: true, 1: true, 2: true, 3: true, 4: true, 5: true, 6: true, 17: true, 19: true, 20: true}
	reg(&Scenario{Prop: "C24", Name: "C24/odd", Run: func() {
		vs.Exploring(true)
		k := vs.Choose(len(odd), 0)
		vs.Exploring(false)
		u := -1
		if useless[k] {
			u = 0
		}
		judge(fmt.Sprintf("file %q", odd[k]), []byte(odd[k]), u)
	}})
	// the same content written differently is as good
	reg(&Scenario{Prop: "C24", Name: "C24/style", Run: func() {
		vs.Exploring(true)
		k := vs.Choose(8, 0)
		vs.Exploring(false)
		var v interface{}
		json.Unmarshal(valid, &v)
		out := valid
		switch k {
		case 0:
			out, _ = json.Marshal(v)
		case 1:
			out = append(append([]byte("\n\t "), valid...), " \n\n\t"...)
		case 2:
			out = bytes.ReplaceAll(valid, []byte("\n"), []byte("\r\n"))
		case 3:
			out, _ = json.MarshalIndent(v, "", "        ")
		case 4: // members of later versions
			m := v.(map[string]interface{})
			m["Version"] = 3
			m["Scenes"] = []interface{}{J{"a": 1}}
			for _, n := range m["Nodes"].(map[string]interface{}) {
				n.(map[string]interface{})["Neighbours"] = []interface{}{1, 2}
			}
			out, _ = json.Marshal(v)
		case 5:
			out = bytes.ReplaceAll(valid, []byte("\n"), []byte("\n\n"))
		case 6:
			out = bytes.ReplaceAll(valid, []byte("\t"), nil)
		case 7: // a very long line
			out = bytes.ReplaceAll(valid, []byte("\t"), bytes.Repeat([]byte(" "), 3000))
		}
		judge(fmt.Sprintf("valid file in style %d", k), out, 1)
	}})
	reg(&Scenario{Prop: "C24", Name: "C24/schedule", Bound: [2]int{1, 2}, Run: func() {
		vs.Exploring(true)
		k := []int{6, 11, 21, 26}[vs.Choose(4, 0)]
		s := newSys(1, 5)
		vos.Cur.Put(cfg, []byte(odd[k]))
		s.connectStart(cfg)
		s.drain()
		sleep(100 * ms)
		s.Op.Cur().Feed(report(5, 0x26, 3, 9))
		sleep(300 * ms)
		vs.Exploring(false)
		if s.C.Nodes.Get(5) == nil {
			fail("file %q: no discovery", odd[k])
		}
	}})
}
