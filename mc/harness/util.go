package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"time"

	"github.com/stampzilla/gozwave/commands"
	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/events"
	"github.com/stampzilla/gozwave/interfaces"
	"github.com/stampzilla/gozwave/nodes"
	"github.com/stampzilla/gozwave/serialapi"
	"gzmc/vos"
	"gzmc/vs"
)

var (
	fail  = vs.Fail
	note  = vs.Note
	sleep = vs.Sleep
	now   = vs.Now
)

func datas(w []Wr) [][]byte {
	var d [][]byte
	for _, x := range w {
		d = append(d, x.Data)
	}
	return d
}

// raw is a payload to send.
func raw(b ...byte) interfaces.Encodable { return serialapi.NewRaw(b) }

// J is the JSON of a node in a configuration file.
type J map[string]interface{}

func cc(ids ...int) []interface{} {
	l := []interface{}{}
	for _, i := range ids {
		l = append(l, J{"ID": i})
	}
	return l
}

// jnode is a fully identified, listening node as it is found in a configuration file.
func jnode(id int, classes ...int) J {
	return J{"id": id, "is_awake": true, "ManufacurerSpecific": J{"manufacturer": "0086", "type": "0003", "id": "0001"},
		"Brand": "b", "Product": "p", "Description": "d", "CommandClasses": cc(classes...), "Endpoints": []interface{}{},
		"StateBool": J{}, "StateFloat": J{}}
}

func jendpoints(n int, classes ...int) []interface{} {
	l := []interface{}{}
	for i := 1; i <= n; i++ {
		l = append(l, J{"Id": i, "CommandClasses": cc(classes...), "StateBool": J{}, "StateFloat": J{}})
	}
	return l
}

func jfile(ns ...J) []byte {
	m := J{}
	for _, n := range ns {
		m[fmt.Sprint(n["id"])] = n
	}
	b, _ := json.MarshalIndent(J{"Nodes": m}, "", "\t")
	return b
}

const cfg = "/cfg/n.json"

// startWith starts a controller whose configuration file holds these nodes; the stick knows none.
func startWith(ns ...J) *Sys {
	s := newSys()
	vos.Cur.Put(cfg, jfile(ns...))
	s.connect(cfg)
	return s
}

// node is the node with an id, which must exist.
func (s *Sys) node(id int) *nodes.Node {
	n := s.C.Nodes.Get(id)
	if n == nil {
		fail("setup: node %d is missing", id)
	}
	return n
}

// Events drains the event channel in a task of its own.
type Events struct {
	At  []time.Duration
	Evs []interface{}
}

func (s *Sys) drain() *Events {
	ev := &Events{}
	ch := s.C.GetNextEvent()
	vs.GoNamed("events", func() {
		for {
			e, ok := vs.Recv2(ch)
			if !ok {
				return
			}
			ev.At = append(ev.At, vs.Now())
			ev.Evs = append(ev.Evs, e)
		}
	})
	return ev
}

func (ev *Events) updated(id int) int {
	n := 0
	for _, e := range ev.Evs {
		if u, ok := e.(events.NodeUpdated); ok && u.Address == id {
			n++
		}
	}
	return n
}

func (ev *Events) discovered(id int) int {
	n := 0
	for _, e := range ev.Evs {
		if u, ok := e.(events.NodeDiscoverd); ok && u.Address == id {
			n++
		}
	}
	return n
}

func (ev *Events) reset() { ev.At, ev.Evs = nil, nil }

// Req is a request issued by its own task, and what its channel delivered.
type Req struct {
	Name     string
	Err      error
	Timeout  time.Duration
	Frame    []byte
	Issued   bool
	Reports  []reports.Report
	Msgs     []*serialapi.Message
	GotAt    time.Duration
	Closed   bool
	ClosedAt time.Duration
	Task     *vs.Task
}

func (r *Req) answers() int { return len(r.Reports) + len(r.Msgs) }

// ask issues WriteAndWaitForReport.
func (s *Sys) ask(name string, t time.Duration, er byte, payload ...byte) *Req {
	r := &Req{Name: name, Timeout: t, Frame: frame(0, payload...)}
	r.Task = vs.GoNamed(name, func() {
		ch, err := s.C.Connection.WriteAndWaitForReport(raw(payload...), t, er)
		r.Issued = true
		if err != nil {
			r.Err = err
			return
		}
		for {
			v, ok := vs.Recv2(ch)
			if !ok {
				break
			}
			if r.GotAt == 0 {
				r.GotAt = vs.Now()
			}
			r.Reports = append(r.Reports, v)
		}
		r.Closed, r.ClosedAt = true, vs.Now()
	})
	return r
}

// query issues WriteWithTimeout.
func (s *Sys) query(name string, t time.Duration, payload ...byte) *Req {
	r := &Req{Name: name, Timeout: t, Frame: frame(0, payload...)}
	r.Task = vs.GoNamed(name, func() {
		ch, err := s.C.Connection.WriteWithTimeout(raw(payload...), t)
		r.Issued = true
		if err != nil {
			r.Err = err
			return
		}
		for {
			v, ok := vs.Recv2(ch)
			if !ok {
				break
			}
			if r.GotAt == 0 {
				r.GotAt = vs.Now()
			}
			r.Msgs = append(r.Msgs, v)
		}
		r.Closed, r.ClosedAt = true, vs.Now()
	})
	return r
}

// command issues Write.
func (s *Sys) command(name string, payload ...byte) *Req {
	r := &Req{Name: name, Frame: frame(0, payload...)}
	r.Task = vs.GoNamed(name, func() {
		r.Err = s.C.Connection.Write(raw(payload...))
		r.Issued = true
	})
	return r
}

// written lists the times a frame was written since startup.
func (s *Sys) written(f []byte) []Wr {
	var l []Wr
	for _, w := range s.Writes() {
		if bytes.Equal(w.Data, f) {
			l = append(l, w)
		}
	}
	return l
}

// rlocked runs f under the node's read lock, as a careful user would.
func rlocked(n *nodes.Node, f func()) {
	n.RLock()
	f()
	n.RUnlock()
}

// js is the JSON of anything (for comparisons).
func js(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "error: " + err.Error()
	}
	return string(b)
}

func cmdOf(b byte) commands.ZWaveCommand { return commands.ZWaveCommand(b) }

// saved checks that the configuration file holds these levels.
func (s *Sys) saved(what string, levels map[int]float64) {
	b, ok := vos.Cur.Get(cfg)
	if !ok {
		fail("%s: nothing was saved", what)
	}
	var c struct {
		Nodes map[string]struct{ StateFloat map[string]float64 }
	}
	if err := json.Unmarshal(b, &c); err != nil {
		fail("%s: the saved file cannot be read: %v", what, err)
	}
	for id, l := range levels {
		if g := c.Nodes[fmt.Sprint(id)].StateFloat["level"]; g != l {
			fail("%s: the saved file has the level %v of node %d, it is %v", what, g, id, l)
		}
	}
}
