// Package vs is a controlled scheduler: it runs the (instrumented) code under test and the
// harness as cooperative tasks, exactly one at a time, and turns every scheduling decision
// (and every environment answer asked for with Choose) into a numbered choice, so that all
// executions within a deviation bound can be enumerated by replaying choice prefixes.
package vs

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unsafe"
)

type VC []uint32

func (v VC) get(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v *VC) join(o VC) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}

func (v VC) clone() VC { return append(VC(nil), v...) }

type Task struct {
	id      int
	name    string
	wake    chan struct{}
	state   byte // 'r' ready, 'c' current, 'b' blocked, 'd' done
	why     string
	vc      VC
	pred    func() bool
	expired bool // pred wait timed out
	started bool
	fn      func()
	exited  chan struct{}
}

// Point is one recorded choice point of an execution.
type Point struct {
	N    int // number of alternatives
	Cost int // deviation cost of any alternative but 0
	C    int // alternative taken
}

type timer struct {
	when   int64
	seq    int
	fire   func(vc VC)
	vc     VC
	active bool
}

type Sched struct {
	tasks  []*Task
	ready  []*Task
	preds  []*Task
	cur    *Task
	now    int64
	timers []*timer
	tseq   int

	prefix    []int
	points    []Point
	exploring bool
	diverged  bool
	steps     int
	maxSteps  int
	dying     bool
	dyingOps  int
	finished  bool
	done      chan struct{}

	violation string
	stack     string
	outcome   strings.Builder
	trace     []string
	tracing   bool
	epoch     int

	chans map[unsafe.Pointer]*hchan
	sems  map[unsafe.Pointer]*semq
	mvc   map[unsafe.Pointer]*VCell
	maps  map[uintptr]*mapInfo

	fields map[unsafe.Pointer]*mapInfo
}

// S is the scheduler of the running execution, nil outside one.
var S *Sched

var epoch int

// resets are run before every execution (package state of the code under test).
var resets []func()

// OnReset registers a function restoring package-level state before each execution.
func OnReset(f func()) { resets = append(resets, f) }

// roots are the package variables of the code under test that change.
var roots []interface{}

// Roots registers pointers to package variables.
func Roots(v ...interface{}) { roots = append(roots, v...) }

// Live counts the tasks that have not ended and whose name belongs, and lists them.
func Live(belongs func(name string) bool) (int, string) {
	var b []string
	for _, t := range S.tasks {
		if t.state != 'd' && t.state != 'c' && belongs(t.name) {
			b = append(b, fmt.Sprintf("%s[%s]", t.name, t.why))
		}
	}
	return len(b), strings.Join(b, " ")
}

// Timers counts the timers that are still to fire.
func Timers() int {
	n := 0
	for _, t := range S.timers {
		if t.active {
			n++
		}
	}
	return n
}

// Result is what one execution produced.
type Result struct {
	Points    []Point
	Violation string
	Stack     string
	Outcome   string
	Steps     int
	Diverged  bool
	Hang      bool
	Trace     []string
	Now       int64
}

// Base is the virtual wall clock at the start of each execution.
var Base = time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)

const HangTimeout = 40 * time.Second

// Run performs one execution: prefix is replayed, then alternative 0 is taken everywhere.
func Run(prefix []int, tracing bool, main func()) Result {
	epoch++
	s := &Sched{
		prefix: prefix, maxSteps: 400000, done: make(chan struct{}), tracing: tracing, epoch: epoch,
		chans: map[unsafe.Pointer]*hchan{}, sems: map[unsafe.Pointer]*semq{},
		mvc: map[unsafe.Pointer]*VCell{}, maps: map[uintptr]*mapInfo{},
		fields: map[unsafe.Pointer]*mapInfo{},
	}
	for _, f := range resets {
		f()
	}
	S = s
	t := s.newTask("main", func() {
		main()
	})
	t.state = 'c'
	s.cur = t
	t.wake <- struct{}{}
	hang := time.NewTimer(HangTimeout)
	select {
	case <-s.done:
		hang.Stop()
	case <-hang.C:
		return Result{Hang: true, Violation: "no progress: task " + s.cur.name + " runs without ever reaching a synchronisation point (endless loop)", Steps: s.steps, Points: s.points, Trace: s.trace, Now: s.now}
	}
	// end every task
	s.dying = true
	for i := 0; i < len(s.tasks); i++ {
		t := s.tasks[i]
		if t.state == 'd' {
			continue
		}
		s.cur = t
		t.wake <- struct{}{}
		<-t.exited
	}
	S = nil
	return Result{Points: s.points, Violation: s.violation, Stack: s.stack, Outcome: s.outcome.String(),
		Steps: s.steps, Diverged: s.diverged, Trace: s.trace, Now: s.now}
}

func (s *Sched) newTask(name string, fn func()) *Task {
	t := &Task{id: len(s.tasks), name: name, wake: make(chan struct{}, 1), fn: fn, exited: make(chan struct{}), state: 'r'}
	if s.cur != nil {
		t.vc = s.cur.pub()
	}
	for len(t.vc) <= t.id {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.id] = 1
	s.tasks = append(s.tasks, t)
	go s.runTask(t)
	return t
}

func (t *Task) tick() {
	for len(t.vc) <= t.id {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.id]++
}

// pub is the history published to others: what the task does next is not part of it.
func (t *Task) pub() VC {
	c := t.vc.clone()
	t.tick()
	return c
}

// Join makes everything a finished task did happen before what the caller does next.
func (t *Task) Join() {
	if s := S; s != nil && !s.dying && t.state == 'd' {
		s.cur.vc.join(t.vc)
	}
}

func (s *Sched) runTask(t *Task) {
	<-t.wake
	normal := false
	defer func() {
		if !normal && !s.dying {
			if r := recover(); r != nil {
				s.fail(fmt.Sprintf("panic in task %s: %v", t.name, r), string(debug.Stack()))
			}
			// otherwise: runtime.Goexit by the code under test; the task just ends
		} else if !normal {
			recover()
		}
		t.state = 'd'
		close(t.exited)
		if s.dying {
			return
		}
		if t.id == 0 || s.violation != "" {
			s.finish()
			return
		}
		if n := s.pickNext(); n != nil {
			s.switchTo(n)
		} else {
			s.finish()
		}
	}()
	if s.dying {
		normal = true
		return
	}
	t.started = true
	t.fn()
	normal = true
}

func (s *Sched) finish() {
	if !s.finished {
		s.finished = true
		close(s.done)
	}
}

func (s *Sched) fail(msg, stack string) {
	if s.violation == "" {
		s.violation = msg
		s.stack = stack
	}
}

// Fail records a violation and ends the execution.
func Fail(format string, a ...interface{}) {
	s := S
	if s == nil {
		panic(fmt.Sprintf(format, a...))
	}
	if s.dying {
		return
	}
	s.fail(fmt.Sprintf(format, a...), "")
	s.exitNow()
}

// exitNow ends the whole execution from the current task.
func (s *Sched) exitNow() {
	t := s.cur
	s.finish()
	<-t.wake
	runtime.Goexit()
}

func (s *Sched) switchTo(n *Task) {
	n.state = 'c'
	s.cur = n
	n.wake <- struct{}{}
}

// choose records a choice point and returns the alternative to take.
func (s *Sched) choose(n, cost int) int {
	if n <= 1 || !s.exploring {
		return 0
	}
	i := len(s.points)
	c := 0
	if i < len(s.prefix) {
		c = s.prefix[i]
		if c >= n {
			s.diverged = true
			c = 0
		}
	}
	s.points = append(s.points, Point{N: n, Cost: cost, C: c})
	return c
}

// Choose is an environment choice between n answers; alternatives to 0 cost `cost` deviations.
func Choose(n, cost int) int {
	if S == nil {
		return 0
	}
	return S.choose(n, cost)
}

// Exploring switches the recording of choice points on or off (startup runs the default schedule).
func Exploring(on bool) {
	if S != nil {
		S.exploring = on
	}
}

func (s *Sched) pollPreds() {
	if len(s.preds) == 0 {
		return
	}
	k := 0
	for _, t := range s.preds {
		if t.state == 'b' && t.pred != nil && (t.expired || t.pred()) {
			t.pred = nil
			t.state = 'r'
			s.ready = append(s.ready, t)
			continue
		}
		if t.pred != nil {
			s.preds[k] = t
			k++
		}
	}
	s.preds = s.preds[:k]
}

func (s *Sched) due() []*timer {
	var d []*timer
	k := 0
	for _, t := range s.timers {
		if !t.active {
			continue
		}
		s.timers[k] = t
		k++
		if t.when <= s.now {
			d = append(d, t)
		}
	}
	s.timers = s.timers[:k]
	if len(d) > 1 {
		sort.Slice(d, func(i, j int) bool {
			if d[i].when != d[j].when {
				return d[i].when < d[j].when
			}
			return d[i].seq < d[j].seq
		})
	}
	return d
}

func (s *Sched) fireTimer(t *timer) {
	t.active = false
	t.fire(t.vc)
}

func (s *Sched) step() {
	s.steps++
	if s.steps > s.maxSteps {
		s.fail(fmt.Sprintf("livelock: more than %d steps without the scenario ending (virtual time %v); tasks: %s", s.maxSteps, time.Duration(s.now), s.dump()), "")
		s.exitNow()
	}
}

// Yield is a scheduling point of the running task.
func Yield() {
	s := S
	if s == nil {
		return
	}
	if s.dying {
		s.dyingOps++
		if s.dyingOps > 10000 {
			runtime.Goexit()
		}
		return
	}
	s.step()
	t := s.cur
	for {
		s.pollPreds()
		var d []*timer
		if s.exploring {
			d = s.due()
		}
		n := 1 + len(s.ready) + len(d)
		if n == 1 {
			return
		}
		c := s.choose(n, 1)
		if c == 0 {
			return
		}
		if c <= len(s.ready) {
			nt := s.ready[c-1]
			s.ready = append(s.ready[:c-1], s.ready[c:]...)
			t.state = 'r'
			s.ready = append(s.ready, t)
			s.switchTo(nt)
			<-t.wake
			if s.dying {
				runtime.Goexit()
			}
			return
		}
		s.fireTimer(d[c-1-len(s.ready)])
	}
}

// pickNext selects the next task to run when the current one cannot continue; it advances the
// virtual clock when nothing is runnable. nil: nothing can ever run again.
func (s *Sched) pickNext() *Task {
	for {
		s.pollPreds()
		d := s.due()
		n := len(s.ready) + len(d)
		if n > 0 {
			c := s.choose(n, 1)
			if c < len(s.ready) {
				nt := s.ready[c]
				s.ready = append(s.ready[:c], s.ready[c+1:]...)
				return nt
			}
			s.fireTimer(d[c-len(s.ready)])
			continue
		}
		best := int64(-1)
		for _, t := range s.timers {
			if t.active && (best < 0 || t.when < best) {
				best = t.when
			}
		}
		if best < 0 {
			return nil
		}
		s.now = best
		s.steps++
		if s.steps > s.maxSteps {
			s.fail(fmt.Sprintf("livelock: more than %d steps (virtual time %v); tasks: %s", s.maxSteps, time.Duration(s.now), s.dump()), "")
			return nil
		}
	}
}

// block parks the current task until something makes it ready again.
func (s *Sched) block(why string) {
	t := s.cur
	t.state = 'b'
	t.why = why
	n := s.pickNext()
	if n == nil {
		// Nothing can run any more. The harness main task should have ended the execution.
		if s.violation == "" {
			s.fail("deadlock: no task can ever run again; tasks: "+s.dump(), "")
		}
		s.finish()
	} else if n == t {
		t.state = 'c'
		s.cur = t
		return
	} else {
		s.switchTo(n)
	}
	<-t.wake
	if s.dying {
		runtime.Goexit()
	}
}

func (s *Sched) makeReady(t *Task) {
	if t.state != 'b' {
		return
	}
	t.state = 'r'
	t.why = ""
	s.ready = append(s.ready, t)
}

// Size measures the data reachable from v and from the package variables: the number of objects,
// map entries, slice elements, buffered channel items and bytes of text.
func Size(v interface{}) int {
	n := 0
	type key struct {
		p unsafe.Pointer
		t reflect.Type
	}
	seen := map[key]bool{}
	var walk func(r reflect.Value)
	walk = func(r reflect.Value) {
		if !r.IsValid() {
			return
		}
		switch r.Kind() {
		case reflect.Ptr:
			if r.IsNil() {
				return
			}
			k := key{r.UnsafePointer(), r.Type()}
			if seen[k] {
				return
			}
			seen[k] = true
			n++
			walk(r.Elem())
		case reflect.Interface:
			walk(r.Elem())
		case reflect.Struct:
			if p := r.Type().PkgPath(); (p == "main" || strings.HasPrefix(p, "gzmc/")) && r.Type().Name() != "Map" {
				return // the harness
			}
			for i := 0; i < r.NumField(); i++ {
				walk(r.Field(i))
			}
		case reflect.Slice:
			if r.IsNil() {
				return
			}
			k := key{r.UnsafePointer(), r.Type()}
			if seen[k] && r.Len() > 0 {
				return
			}
			seen[k] = true
			n += r.Len()
			switch r.Type().Elem().Kind() {
			case reflect.Uint8, reflect.Bool, reflect.Int, reflect.Float64:
				return
			}
			for i := 0; i < r.Len(); i++ {
				walk(r.Index(i))
			}
		case reflect.Array:
			for i := 0; i < r.Len(); i++ {
				walk(r.Index(i))
			}
		case reflect.Map:
			if r.IsNil() {
				return
			}
			k := key{r.UnsafePointer(), r.Type()}
			if seen[k] {
				return
			}
			seen[k] = true
			n += r.Len()
			it := r.MapRange()
			for it.Next() {
				walk(it.Key())
				walk(it.Value())
			}
		case reflect.String:
			n += r.Len()
		case reflect.Chan:
			if h := S.chans[r.UnsafePointer()]; h != nil {
				n += len(h.buf)
			}
		}
	}
	walk(reflect.ValueOf(v))
	for _, r := range roots {
		walk(reflect.ValueOf(r).Elem())
	}
	return n
}

func (s *Sched) dump() string {
	var b []string
	for _, t := range s.tasks {
		switch t.state {
		case 'b':
			b = append(b, fmt.Sprintf("%s[blocked: %s]", t.name, t.why))
		case 'r':
			b = append(b, fmt.Sprintf("%s[ready]", t.name))
		case 'c':
			b = append(b, fmt.Sprintf("%s[running]", t.name))
		}
	}
	return strings.Join(b, " ")
}

// Dump lists the unfinished tasks and what they wait for.
func Dump() string {
	if S == nil {
		return ""
	}
	return S.dump()
}

func callerName() string {
	pc := make([]uintptr, 8)
	n := runtime.Callers(3, pc)
	fr := runtime.CallersFrames(pc[:n])
	for {
		f, more := fr.Next()
		if f.Function != "" && !strings.Contains(f.Function, "gzmc/v") {
			i := strings.LastIndex(f.Function, "/")
			return f.Function[i+1:]
		}
		if !more {
			return "?"
		}
	}
}

// Go starts a task; it is the instrumented form of the go statement.
func Go(fn func()) {
	s := S
	if s == nil {
		go fn()
		return
	}
	if s.dying {
		return
	}
	name := "go"
	if s.tracing || true {
		name = callerName()
	}
	t := s.newTask(fmt.Sprintf("%s#%d", name, len(s.tasks)), fn)
	s.ready = append(s.ready, t)
}

// GoNamed starts a harness task.
func GoNamed(name string, fn func()) *Task {
	s := S
	t := s.newTask(name, fn)
	s.ready = append(s.ready, t)
	return t
}

// Done reports whether the task has ended.
func (t *Task) Done() bool { return t.state == 'd' }

// Blocked tells what the task is blocked on ("" if it is not).
func (t *Task) Blocked() string {
	if t.state == 'b' {
		return t.why
	}
	return ""
}

// Now is the virtual time since the start of the execution.
func Now() time.Duration {
	if S == nil {
		return 0
	}
	return time.Duration(S.now)
}

func (s *Sched) addTimer(d time.Duration, fire func(vc VC)) *timer {
	if d < 0 {
		d = 0
	}
	s.tseq++
	t := &timer{when: s.now + int64(d), seq: s.tseq, fire: fire, active: true}
	if s.cur != nil {
		t.vc = s.cur.pub()
	}
	s.timers = append(s.timers, t)
	return t
}

// Sleep parks the task for d of virtual time.
func Sleep(d time.Duration) {
	s := S
	if s == nil {
		time.Sleep(d)
		return
	}
	if s.dying {
		Yield()
		return
	}
	if d <= 0 {
		Yield()
		return
	}
	s.step()
	t := s.cur
	s.addTimer(d, func(VC) { s.makeReady(t) })
	s.block("sleep")
}

// WaitUntil parks the (harness) task until pred holds or the virtual timeout has passed
// (timeout < 0: no limit). It reports whether pred held.
func WaitUntil(why string, timeout time.Duration, pred func() bool) bool {
	s := S
	if s.dying {
		return false
	}
	s.step()
	if pred() {
		return true
	}
	t := s.cur
	t.pred = pred
	t.expired = false
	var tm *timer
	if timeout >= 0 {
		tm = s.addTimer(timeout, func(VC) { t.expired = true })
	}
	s.preds = append(s.preds, t)
	s.block(why)
	if tm != nil {
		tm.active = false
	}
	if t.expired {
		t.expired = false
		return pred()
	}
	return true
}

// Note adds to the outcome string by which executions are told apart.
func Note(format string, a ...interface{}) {
	if S != nil && !S.dying {
		fmt.Fprintf(&S.outcome, format, a...)
		S.outcome.WriteByte('\n')
	}
}

// Trace adds a line to the trace kept for replay files.
func Trace(format string, a ...interface{}) {
	if s := S; s != nil && s.tracing && !s.dying {
		s.trace = append(s.trace, fmt.Sprintf("%10.3fs %-24s ", float64(s.now)/1e9, s.cur.name)+fmt.Sprintf(format, a...))
	}
}

// Dying reports that the execution is over and its tasks are being ended.
func Dying() bool { return S == nil || S.dying }

// VCell carries happens-before edges between tasks.
type VCell struct {
	vc    VC
	epoch int
	ref   interface{}
}

// Release publishes the current task's history in the cell.
func (c *VCell) Release() {
	s := S
	if s == nil || s.dying {
		return
	}
	if c.epoch != s.epoch {
		c.vc = nil
		c.epoch = s.epoch
	}
	c.vc.join(s.cur.vc)
	s.cur.tick()
}

// Acquire makes what was released into the cell happen before what the task does next.
func (c *VCell) Acquire() {
	s := S
	if s == nil || s.dying || c.epoch != s.epoch {
		return
	}
	s.cur.vc.join(c.vc)
}

// Pass fires the timers that are due and lets every other task that can run go first.
func Pass() {
	s := S
	if s == nil || s.dying {
		return
	}
	for _, d := range s.due() {
		s.fireTimer(d)
	}
	s.pollPreds()
	if len(s.ready) == 0 {
		return
	}
	t := s.cur
	nt := s.ready[0]
	t.state = 'r'
	s.ready = append(s.ready[1:], t)
	s.switchTo(nt)
	<-t.wake
	if s.dying {
		runtime.Goexit()
	}
}
