//go:build example

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http/httptest"
	"strconv"
	"time"

	"github.com/gin-gonic/gin"
	example "github.com/stampzilla/gozwave/zwave-example"
	"gzmc/vhttp"
	"gzmc/vs"
	"gzmc/vserial"
)

// C33: the example program. Its main function runs under the scheduler with a simulated stick; its web
// server is asked through the handler that it would have served.

type web33 struct {
	s    *Sys
	d, e *dev16
	base int
}

// page is the answer to a request.
type page struct {
	path   string
	status int
	body   []byte
	done   bool
}

func (w *web33) get(path string) *page {
	p := &page{path: path}
	rec := httptest.NewRecorder()
	vhttp.Handler.ServeHTTP(rec, httptest.NewRequest("GET", path, nil))
	p.status, p.body, p.done = rec.Code, rec.Body.Bytes(), true
	return p
}

// node33 is what is told about a node.
type node33 struct {
	ID                          int  `json:"id"`
	Awake                       bool `json:"is_awake"`
	Brand, Product, Description string
	Endpoints                   []struct{ Id int }
	StateBool                   map[string]bool
	StateFloat                  map[string]float64
}

func start33(identified bool) *web33 {
	gin.SetMode(gin.ReleaseMode)
	gin.DefaultWriter, gin.DefaultErrorWriter = io.Discard, io.Discard
	vhttp.Reset()
	s := newSys(1, 5, 200)
	w := &web33{s: s, d: newDev16(s, 5, devices[0]), e: newDev16(s, 200, devices[1])}
	s.handler = func(p *Port, f []byte) bool {
		return w.d.kind(f) != "" && f[4] == 5 && !switch33(f) && w.d.handle(p, f) || f[4] == 200 && !switch33(f) && w.e.handle(p, f)
	}
	vserial.Opener = func(*vserial.Config) (vserial.RWC, error) {
		r, err := s.Op.Open()
		if err != nil {
			return nil, err
		}
		return r.(vserial.RWC), nil
	}
	vs.GoNamed("example", example.Main)
	if !vs.WaitUntil("server", 10*time.Second, func() bool { return vhttp.Handler != nil }) {
		fail("the example does not start its server: %s", vs.Dump())
	}
	if identified {
		sleep(20 * time.Second)
		w.base = len(s.Writes())
	}
	return w
}

// switch33 tells if a frame sets something.
func switch33(f []byte) bool { return len(f) > 8 && f[3] == 0x13 && f[6] == 0x25 && f[7] == 1 }

// commands are the frames that set something.
func (w *web33) commands() (l [][]byte) {
	for _, x := range w.s.Writes() {
		if switch33(x.Data) {
			l = append(l, x.Data)
		}
	}
	return l
}

// node judges what is told about a node.
func (w *web33) node(what string, b []byte, id int, on map[string]bool, level map[string]float64) {
	var n node33
	if err := json.Unmarshal(b, &n); err != nil {
		fail("%s: node %d is told as %s: %v", what, id, b, err)
	}
	d := w.d
	if id == 200 {
		d = w.e
	}
	if n.ID != id || !n.Awake || n.Brand != d.d.brand || n.Product != d.d.product || n.Description != d.d.desc || len(n.Endpoints) != int(d.d.endpoints) {
		fail("%s: node %d (%s %s) is told as %s", what, id, d.d.brand, d.d.product, b)
	}
	if fmt.Sprint(n.StateBool) != fmt.Sprint(on) || fmt.Sprint(n.StateFloat) != fmt.Sprint(level) {
		fail("%s: node %d is in the state %v %v, told is %v %v", what, id, on, level, n.StateBool, n.StateFloat)
	}
}

func (w *web33) nodes(what string, b []byte) map[string]json.RawMessage {
	var l map[string]json.RawMessage
	if err := json.Unmarshal(b, &l); err != nil {
		fail("%s: the nodes are told as %s: %v", what, b, err)
	}
	return l
}

// switches is the frame that switches a node.
func switches(id byte, on bool) []byte {
	v := byte(0)
	if on {
		v = 0xff
	}
	return frame(0x00, 0x13, id, 3, 0x25, 1, v, 0x25)
}

func init() {
	type known struct {
		on    map[string]bool
		level map[string]float64
	}
	ids := []string{"5", "200", "1", "0", "6", "-5", "255", "261", "99999999999999999999", "abc", "5x", "05", "%20"}
	actions := []string{"", "/", "/on", "/off", "/On", "/toggle", "/on/5"}
	var paths []string
	for _, id := range ids {
		for _, a := range actions {
			paths = append(paths, "/nodes/"+id+a)
		}
	}
	paths = append(paths, "/nodes", "/nodes/", "/", "/node", "/nodes?id=5")
	number := func(s string) (int, bool) { n, err := strconv.Atoi(s); return n, err == nil }

	// every path, alone and after every other kind of request
	first := []string{"", "/nodes", "/nodes/5", "/nodes/5/on", "/nodes/200/off", "/nodes/6", "/nodes/abc/on", "/nodes/5/toggle"}
	feeds := [][]byte{nil, report(5, 0x25, 3, 0xff), report(200, 0x26, 3, 44)}
	reg(&Scenario{Prop: "C33", Name: "C33/paths", Bound: [2]int{0, 0}, Run: func() {
		vs.Exploring(true)
		path := paths[vs.Choose(len(paths), 0)]
		before := first[vs.Choose(len(first), 0)]
		fed := vs.Choose(len(feeds), 0)
		vs.Exploring(false)
		w := start33(true)
		state := map[int]*known{5: {map[string]bool{}, map[string]float64{}}, 200: {map[string]bool{}, map[string]float64{}}}
		if before != "" {
			w.get(before)
			sleep(200 * ms)
		}
		switch fed {
		case 1:
			state[5].on["on"] = true
		case 2:
			state[200].on["on"], state[200].level["level"] = true, 44
		}
		if feeds[fed] != nil {
			w.s.Op.Cur().Feed(feeds[fed])
			sleep(50 * ms)
		}
		had := len(w.commands())
		p := w.get(path)
		sleep(time.Second)
		sent := w.commands()[had:]
		what := fmt.Sprintf("GET %s after %q", path, before)
		nothing := func() {
			if len(sent) > 0 {
				fail("%s: %x was sent", what, sent)
			}
		}
		status := func(want ...int) {
			for _, x := range want {
				if p.status == x {
					return
				}
			}
			fail("%s: answered with %d %s, should be %d", what, p.status, p.body, want)
		}
		part := bytes.Split([]byte(path), []byte("/"))
		switch {
		case path == "/nodes" || path == "/nodes?id=5":
			status(200)
			nothing()
			l := w.nodes(what, p.body)
			if len(l) != 2 || l["5"] == nil || l["200"] == nil {
				fail("%s: there are the nodes 5 and 200, told is %s", what, p.body)
			}
			for id, k := range state {
				w.node(what, l[strconv.Itoa(id)], id, k.on, k.level)
			}
		case len(part) == 3 && string(part[2]) != "":
			id, ok := number(string(part[2]))
			nothing()
			switch {
			case !ok:
				status(400, 404, 500)
			case state[id] == nil:
				status(404)
			default:
				status(200)
				w.node(what, p.body, id, state[id].on, state[id].level)
			}
		case len(part) == 4 && string(part[3]) != "":
			id, ok := number(string(part[2]))
			switch act := string(part[3]); {
			case !ok:
				nothing()
				status(400, 404, 500)
			case state[id] == nil || act != "on" && act != "off":
				nothing()
				status(404)
			default:
				status(200)
				if len(sent) != 1 || !bytes.Equal(sent[0], switches(byte(id), act == "on")) {
					fail("%s: sent was %x, should be %x", what, sent, switches(byte(id), act == "on"))
				}
			}
		default: // there is no such page
			nothing()
			if p.status == 200 || p.status >= 500 {
				fail("%s: answered with %d %s", what, p.status, p.body)
			}
		}
		note("%d", p.status)
	}})

	// requests together with each other, with reports and with the identification
	ops := []func(w *web33){
		func(w *web33) { // a level and a switch change at once
			p := w.get("/nodes/5")
			w.consistent(p.body)
			if p.status != 200 {
				fail("GET /nodes/5 was answered with %d %s", p.status, p.body)
			}
		},
		func(w *web33) {
			p := w.get("/nodes")
			if p.status != 200 {
				fail("GET /nodes was answered with %d %s", p.status, p.body)
			}
			w.consistent(w.nodes("GET /nodes", p.body)["5"])
		},
		func(w *web33) { w.get("/nodes/5/on") },
		func(w *web33) { w.get("/nodes/200/off") },
		func(w *web33) { w.s.Op.Cur().Feed(cat(report(5, 0x26, 3, 44), report(5, 0x26, 3, 0))) },
		func(w *web33) { w.s.Op.Cur().Feed(report(5, 0x71, 5, 7, 1, 0, 0xff, 7, 2)) },
		func(w *web33) { w.s.Op.Cur().Feed(cat(report(5, 0x25, 3, 0xff), report(200, 0x25, 3, 0xff))) },
	}
	after := func(w *web33) {
		sleep(3 * time.Second)
		had := len(w.commands())
		if p := w.get("/nodes/5/on"); p.status != 200 {
			fail("afterwards GET /nodes/5/on is answered with %d %s", p.status, p.body)
		}
		sleep(time.Second)
		if l := w.commands()[had:]; len(l) != 1 || !bytes.Equal(l[0], switches(5, true)) {
			fail("afterwards GET /nodes/5/on sends %x", l)
		}
		w.s.Op.Cur().Feed(report(5, 0x26, 3, 7))
		sleep(100 * ms)
		var n node33
		json.Unmarshal(w.get("/nodes/5").body, &n)
		if n.StateFloat["level"] != 7 {
			fail("afterwards a report of the level 7 leaves the node in the state %v", n.StateFloat)
		}
	}
	reg(&Scenario{Prop: "C33", Name: "C33/together", Bound: [2]int{1, 2}, Fine: true, Races: true, Run: func() {
		vs.Exploring(true)
		a := vs.Choose(len(ops), 0)
		b := a + vs.Choose(len(ops)-a, 0)
		vs.Exploring(false)
		w := start33(true)
		w.s.Op.Cur().Feed(report(5, 0x26, 3, 12))
		sleep(100 * ms)
		n := 0
		for i, k := range []int{a, b} {
			f := ops[k]
			vs.GoNamed(fmt.Sprintf("client%d", i), func() { f(w); n++ })
		}
		vs.Exploring(true)
		if !vs.WaitUntil("requests", 10*time.Second, func() bool { return n == 2 }) {
			fail("a request is never answered: %s", vs.Dump())
		}
		sleep(20 * ms)
		vs.Exploring(false)
		after(w)
	}})
	reg(&Scenario{Prop: "C33", Name: "C33/starting", Bound: [2]int{1, 2}, Fine: true, Races: true, Run: func() {
		vs.Exploring(true)
		path := []string{"/nodes", "/nodes/5", "/nodes/5/on"}[vs.Choose(3, 0)]
		at := []time.Duration{0, 60 * ms, 120 * ms, 180 * ms, 240 * ms, 300 * ms, 400 * ms, 500 * ms}[vs.Choose(8, 0)]
		vs.Exploring(false)
		w := start33(false)
		sleep(at)
		done := false
		vs.GoNamed("client", func() {
			for i := 0; i < 3; i++ {
				if p := w.get(path); p.status != 200 && p.status != 404 {
					fail("during the identification GET %s is answered with %d %s", path, p.status, p.body)
				}
				sleep(10 * ms)
			}
			done = true
		})
		vs.Exploring(true)
		if !vs.WaitUntil("requests", 10*time.Second, func() bool { return done }) {
			fail("a request is never answered: %s", vs.Dump())
		}
		vs.Exploring(false)
		sleep(20 * time.Second)
		after(w)
		sleep(time.Second)
		w.node("after the identification", w.get("/nodes/5").body, 5, map[string]bool{"on": true}, map[string]float64{"level": 7})
	}})
	// a request while a report is on its way
	reg(&Scenario{Prop: "C33", Name: "C33/meanwhile", Bound: [2]int{1, 2}, Fine: true, Races: true, Run: func() {
		vs.Exploring(true)
		a := vs.Choose(4, 0)
		b := 4 + vs.Choose(len(ops)-4, 0)
		k := vs.Choose(5, 0)
		vs.Exploring(false)
		w := start33(true)
		w.s.Op.Cur().Feed(report(5, 0x26, 3, 12))
		sleep(100 * ms)
		done := false
		vs.GoNamed("client", func() {
			ops[b](w)
			for i := 0; i < k; i++ {
				vs.Pass()
			}
			vs.Exploring(true)
			ops[a](w)
			done = true
		})
		if !vs.WaitUntil("requests", 10*time.Second, func() bool { return done }) {
			fail("a request is never answered: %s", vs.Dump())
		}
		sleep(20 * ms)
		vs.Exploring(false)
		after(w)
	}})
	// the example takes the events while more reports arrive
	reg(&Scenario{Prop: "C33", Name: "C33/events", Bound: [2]int{1, 2}, Fine: true, Races: true, Run: func() {
		vs.Exploring(true)
		j, k := vs.Choose(6, 0), vs.Choose(6, 0)
		vs.Exploring(false)
		w := start33(true)
		done := false
		vs.GoNamed("device", func() {
			for i, n := range []int{j, k, 0} {
				w.s.Op.Cur().Feed(report(5, 0x26, 3, byte(10+i)))
				vs.Exploring(true)
				for ; n > 0; n-- {
					vs.Pass()
				}
			}
			done = true
		})
		vs.WaitUntil("device", 10*time.Second, func() bool { return done })
		sleep(20 * ms)
		vs.Exploring(false)
		after(w)
	}})
	// one after another
	reg(&Scenario{Prop: "C33", Name: "C33/order", Bound: [2]int{1, 2}, Run: func() {
		vs.Exploring(true)
		kind := []string{"/nodes/5/on", "/nodes/5/off", "/nodes/200/on"}
		var l []string
		for i := 0; i < 3; i++ {
			l = append(l, kind[vs.Choose(len(kind), 0)])
		}
		vs.Exploring(false)
		w := start33(true)
		done := false
		vs.GoNamed("client", func() {
			for _, path := range l {
				if p := w.get(path); p.status != 200 {
					fail("GET %s was answered with %d %s", path, p.status, p.body)
				}
			}
			done = true
		})
		vs.Exploring(true)
		if !vs.WaitUntil("requests", 10*time.Second, func() bool { return done }) {
			fail("a request is never answered: %s", vs.Dump())
		}
		vs.Exploring(false)
		sleep(time.Second)
		var want [][]byte
		for _, path := range l {
			id := byte(5)
			if path[7] == '2' {
				id = 200
			}
			want = append(want, switches(id, path[len(path)-1] == 'n'))
		}
		if got := w.commands(); fmt.Sprintf("%x", got) != fmt.Sprintf("%x", want) {
			fail("the requests %v one after another send %x, should be %x", l, got, want)
		}
	}})
	// the stick is away: nothing hangs for ever
	reg(&Scenario{Prop: "C33", Name: "C33/lost", Bound: [2]int{1, 2}, Run: func() {
		vs.Exploring(true)
		path := []string{"/nodes", "/nodes/5", "/nodes/5/on", "/nodes/5/off"}[vs.Choose(4, 0)]
		many := []int{1, 3}[vs.Choose(2, 0)]
		at := []time.Duration{0, 10 * ms, 500 * ms}[vs.Choose(3, 0)]
		vs.Exploring(false)
		w := start33(true)
		w.s.Op.Cur().err = errRead
		sleep(at)
		n := 0
		for i := 0; i < many; i++ {
			vs.GoNamed("client", func() {
				if p := w.get(path); p.status != 200 {
					fail("without a stick GET %s is answered with %d %s", path, p.status, p.body)
				}
				n++
			})
		}
		vs.Exploring(true)
		if !vs.WaitUntil("requests", 20*time.Second, func() bool { return n == many }) {
			fail("without a stick a request is never answered: %s", vs.Dump())
		}
		vs.Exploring(false)
		sleep(5 * time.Second)
		after(w)
	}})
}

// consistent judges that a node is not told in the middle of a change.
func (w *web33) consistent(b []byte) {
	var n node33
	if err := json.Unmarshal(b, &n); err != nil {
		fail("node 5 is told as %s: %v", b, err)
	}
	if l, ok := n.StateFloat["level"]; ok && l != 0 && !n.StateBool["on"] {
		fail("node 5 is told as off with the level %v", l)
	}
}
