package vs

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"time"
	"unsafe"
)

func runtimeGoexit() { runtime.Goexit() }

// Semaphore-like wait queues, keyed by the address of the primitive.
type semq struct {
	ref interface{}
	q   []*waiter
}

func (s *Sched) sem(p unsafe.Pointer) *semq {
	q := s.sems[p]
	if q == nil {
		q = &semq{}
		s.sems[p] = q
	}
	return q
}

// Epoch identifies the running execution; primitives reset themselves when it changes.
func Epoch() int {
	if S == nil {
		return 0
	}
	return S.epoch
}

// Idle reports that primitives must not block or count (outside an execution, or while it ends).
func Idle() bool { return S == nil || S.dying }

// Park blocks the task on queue p until Wake.
func Park(p unsafe.Pointer, why string, front bool) {
	s := S
	w := &waiter{t: s.cur}
	q := s.sem(p)
	if front {
		q.q = append([]*waiter{w}, q.q...)
	} else {
		q.q = append(q.q, w)
	}
	s.block(why)
}

// Wake readies up to n tasks parked on p (n < 0: all) and returns how many there were.
func Wake(p unsafe.Pointer, n int) int {
	s := S
	q := s.sem(p)
	k := 0
	for n < 0 || k < n {
		w := popWaiter(&q.q)
		if w == nil {
			break
		}
		w.fire(s)
		k++
	}
	return k
}

// Cell returns the happens-before cell attached to address p.
func Cell(p unsafe.Pointer) *VCell {
	s := S
	c := s.mvc[p]
	if c == nil {
		c = &VCell{epoch: s.epoch}
		s.mvc[p] = c
	}
	return c
}

// Fatal is an unrecoverable runtime error ("fatal error: ...") of the code under test.
func Fatal(msg string) {
	s := S
	s.fail("fatal error: "+msg+" in task "+s.cur.name, stack())
	s.exitNow()
}

func stack() string {
	b := make([]byte, 8192)
	return string(b[:runtime.Stack(b, false)])
}

// Timer support for the virtual time package.
type Timer struct{ t *timer }

func AddTimer(d time.Duration, fire func()) *Timer {
	return &Timer{S.addTimer(d, func(VC) { fire() })}
}

// AddChanTimer sends the virtual time on ch after d.
func AddChanTimer(d time.Duration, ch chan time.Time) *Timer {
	s := S
	return &Timer{s.addTimer(d, func(vc VC) {
		h := shadowS[time.Time](s, ch)
		if !h.closed {
			s.trySend(h, Base.Add(time.Duration(s.now)), nil, vc)
		}
	})}
}

func AddFuncTimer(d time.Duration, f func()) *Timer {
	s := S
	return &Timer{s.addTimer(d, func(vc VC) {
		old := s.cur
		t := s.newTask(fmt.Sprintf("timer#%d", len(s.tasks)), f)
		s.cur = old
		t.vc.join(vc)
		s.ready = append(s.ready, t)
	})}
}

// Stop cancels the timer and reports whether it was still pending.
func (t *Timer) Stop() bool {
	a := t.t.active
	t.t.active = false
	return a
}

// ---- maps: happens-before race detection (Go aborts the process on such accesses) ----

type access struct {
	task int
	clk  uint32
	at   string
}

type mapInfo struct {
	ref   interface{}
	write access
	hasW  bool
	reads []access
}

func (s *Sched) mapInfo(p uintptr, ref interface{}) *mapInfo {
	mi := s.maps[p]
	if mi == nil {
		mi = &mapInfo{ref: ref}
		s.maps[p] = mi
	}
	return mi
}

func where() string {
	pc := make([]uintptr, 16)
	n := runtime.Callers(4, pc)
	fr := runtime.CallersFrames(pc[:n])
	for {
		f, more := fr.Next()
		if f.Function != "" && !hasPrefix(f.Function, "gzmc/v") && !hasPrefix(f.Function, "encoding/json") && !hasPrefix(f.Function, "reflect") {
			return fmt.Sprintf("%s:%d", f.Function, f.Line)
		}
		if !more {
			return "?"
		}
	}
}

func hasPrefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

// RaceDetect can be switched off by harness code for its own accesses.
func (s *Sched) mapRead(p uintptr, ref interface{}) {
	if p == 0 || s.dying {
		return
	}
	mi := s.mapInfo(p, ref)
	t := s.cur
	if mi.hasW && mi.write.task != t.id && mi.write.clk > t.vc.get(mi.write.task) {
		s.fail(fmt.Sprintf("fatal error: concurrent map read and map write: write in task %s at %s, unordered read in task %s at %s", s.tasks[mi.write.task].name, mi.write.at, t.name, where()), stack())
		s.exitNow()
	}
	for i := range mi.reads {
		if mi.reads[i].task == t.id {
			mi.reads[i].clk = t.vc.get(t.id)
			return
		}
	}
	mi.reads = append(mi.reads, access{t.id, t.vc.get(t.id), where()})
}

func (s *Sched) mapWrite(p uintptr, ref interface{}) {
	if p == 0 || s.dying {
		return
	}
	mi := s.mapInfo(p, ref)
	t := s.cur
	if mi.hasW && mi.write.task != t.id && mi.write.clk > t.vc.get(mi.write.task) {
		s.fail(fmt.Sprintf("fatal error: concurrent map writes: task %s at %s, unordered with task %s at %s", s.tasks[mi.write.task].name, mi.write.at, t.name, where()), stack())
		s.exitNow()
	}
	for _, r := range mi.reads {
		if r.task != t.id && r.clk > t.vc.get(r.task) {
			s.fail(fmt.Sprintf("fatal error: concurrent map read and map write: read in task %s at %s, unordered write in task %s at %s", s.tasks[r.task].name, r.at, t.name, where()), stack())
			s.exitNow()
		}
	}
	mi.write = access{t.id, t.vc.get(t.id), where()}
	mi.hasW = true
	mi.reads = mi.reads[:0]
}

func mptr[M ~map[K]V, K comparable, V any](m M) uintptr {
	return uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&m)))
}

// MapR marks a read of m.
func MapR[M ~map[K]V, K comparable, V any](m M) M {
	if s := S; s != nil && !s.dying {
		if FinePoints {
			Yield()
		}
		s.mapRead(mptr(m), m)
	}
	return m
}

// MapW marks a write to m.
func MapW[M ~map[K]V, K comparable, V any](m M) M {
	if s := S; s != nil && !s.dying {
		if FinePoints {
			Yield()
		}
		s.mapWrite(mptr(m), m)
	}
	return m
}

// MapKeys is the start of an instrumented range over a map: the keys in a decided order.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	MapR(m)
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	str := make(map[K]string, len(keys))
	for _, k := range keys {
		str[k] = fmt.Sprintf("%020v", k)
	}
	sort.Slice(keys, func(i, j int) bool { return str[keys[i]] < str[keys[j]] })
	if s := S; s != nil && !s.dying && len(keys) > 1 {
		if s.choose(2, 1) == 1 {
			for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
				keys[i], keys[j] = keys[j], keys[i]
			}
		}
	}
	return keys
}

// MapNext is the per-iteration lookup of an instrumented range over a map.
func MapNext[M ~map[K]V, K comparable, V any](m M, k K) (V, bool) {
	if s := S; s != nil && !s.dying {
		s.mapRead(mptr(m), m)
	}
	v, ok := m[k]
	return v, ok
}

// ---- field access points ----

// FieldRaces makes unordered accesses to a field, one of them a write, violations.
var FieldRaces = false

func (s *Sched) field(p unsafe.Pointer, write bool) {
	if !FieldRaces || s.dying {
		return
	}
	mi := s.fields[p]
	if mi == nil {
		mi = &mapInfo{ref: p}
		s.fields[p] = mi
	}
	t := s.cur
	race := func(what string, a access) {
		s.fail(fmt.Sprintf("data race (%s): task %s at %s, unordered with task %s at %s", what, s.tasks[a.task].name, a.at, t.name, where()), stack())
		s.exitNow()
	}
	if mi.hasW && mi.write.task != t.id && mi.write.clk > t.vc.get(mi.write.task) {
		if write {
			race("write and write", mi.write)
		} else {
			race("write and read", mi.write)
		}
	}
	if !write {
		for i := range mi.reads {
			if mi.reads[i].task == t.id {
				mi.reads[i].clk = t.vc.get(t.id)
				return
			}
		}
		mi.reads = append(mi.reads, access{t.id, t.vc.get(t.id), where()})
		return
	}
	for _, r := range mi.reads {
		if r.task != t.id && r.clk > t.vc.get(r.task) {
			race("read and write", r)
		}
	}
	mi.write = access{t.id, t.vc.get(t.id), where()}
	mi.hasW = true
	mi.reads = mi.reads[:0]
}

// FinePoints makes accesses to mutable fields scheduling points.
var FinePoints = true

// Rd is an instrumented read of a shared variable.
func Rd[T any](p *T) T {
	if S != nil && FinePoints && !S.dying {
		_ = *p // fault first
		Yield()
		S.field(unsafe.Pointer(p), false)
	}
	return *p
}

// Wr is an instrumented write to a shared variable: Wr(&x)(v).
func Wr[T any](p *T) func(T) {
	return func(v T) {
		if S != nil && FinePoints && !S.dying {
			Yield()
			S.field(unsafe.Pointer(p), true)
		}
		*p = v
	}
}

// WrP is the instrumented destination in a multiple assignment.
func WrP[T any](p *T) *T {
	if S != nil && FinePoints && !S.dying {
		Yield()
		S.field(unsafe.Pointer(p), true)
	}
	return p
}

// DeepRead marks every map reachable from v as read (what an encoder does).
func DeepRead(v interface{}, stop func(reflect.Type) bool) {
	s := S
	if s == nil || s.dying {
		return
	}
	seen := map[uintptr]bool{}
	var walk func(r reflect.Value, top bool)
	walk = func(r reflect.Value, top bool) {
		if !r.IsValid() {
			return
		}
		if !top && stop(r.Type()) {
			return
		}
		switch r.Kind() {
		case reflect.Ptr:
			if r.IsNil() || seen[r.Pointer()] {
				return
			}
			seen[r.Pointer()] = true
			walk(r.Elem(), false)
		case reflect.Interface:
			if !r.IsNil() {
				walk(r.Elem(), false)
			}
		case reflect.Struct:
			for i := 0; i < r.NumField(); i++ {
				f := r.Type().Field(i)
				if f.PkgPath != "" && !f.Anonymous {
					continue
				}
				if f.Tag.Get("json") == "-" {
					continue
				}
				if x := r.Field(i); !f.Anonymous && FinePoints && FieldRaces && x.CanAddr() {
					s.field(x.Addr().UnsafePointer(), false)
				}
				walk(r.Field(i), false)
			}
		case reflect.Slice, reflect.Array:
			for i := 0; i < r.Len(); i++ {
				walk(r.Index(i), false)
			}
		case reflect.Map:
			if r.IsNil() {
				return
			}
			if FinePoints {
				Yield()
			}
			s.mapRead(r.Pointer(), r)
			it := r.MapRange()
			for it.Next() {
				walk(it.Value(), false)
			}
		}
	}
	walk(reflect.ValueOf(v), true)
}

// TimerSend puts the virtual time into a timer channel if there is room.
func TimerSend(ch chan time.Time) {
	s := S
	s.trySend(shadowS[time.Time](s, ch), Base.Add(time.Duration(s.now)), nil, nil)
}

// MapZeroK and MapZeroV type the variables of an instrumented range statement.
func MapZeroK[M ~map[K]V, K comparable, V any](m M) (k K) { return }
func MapZeroV[M ~map[K]V, K comparable, V any](m M) (v V) { return }
