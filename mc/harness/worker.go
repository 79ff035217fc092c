package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"time"

	"gzmc/vs"

	"github.com/sirupsen/logrus"
)

// Scenario is one closed harness: a driver, an environment and an oracle.
type Scenario struct {
	Prop  string
	Name  string
	Bound [2]int // deviation bound: quick, thorough
	Fine  bool   // field accesses are scheduling points
	Races bool   // (with Fine) unordered accesses to a field, one of them a write, are violations
	Tier  int    // 0: both tiers, 1: thorough only
	Cap   [2]int // executions explored at most (0: all)
	Run   func()

	// Enum, when set, makes this a plain exhaustive enumeration instead of a scheduled scenario.
	Enum   func(e *Enum)
	Shards int
}

var scenarios []*Scenario

func reg(s *Scenario) { scenarios = append(scenarios, s) }

// Enum drives an exhaustive input enumeration; the space is split into shards by case number.
type Enum struct {
	Shard, Shards int
	Tier          int
	n             int64
	Evals         int64
	distinct      map[uint64]bool
	Distinct      int64
	Samples       []string
	Viol          string
	Rule          string
	deadline      time.Time
	Capped        bool
	Key           string
}

// Mine advances to the next case and reports whether it belongs to this shard.
func (e *Enum) Mine() bool {
	e.n++
	if e.Viol != "" || e.Capped {
		return false
	}
	if e.n&1023 == 0 && time.Now().After(e.deadline) {
		e.Capped = true
		return false
	}
	return int(e.n%int64(e.Shards)) == e.Shard
}

// Stop reports that the enumeration can end early.
func (e *Enum) Stop() bool { return e.Viol != "" || e.Capped }

// Did counts an evaluated case with the outcome by which cases are told apart.
func (e *Enum) Did(outcome string, sample func() string) {
	e.Evals++
	h := hash(outcome)
	if !e.distinct[h] {
		if len(e.distinct) < 1<<20 {
			e.distinct[h] = true
		}
		e.Distinct++
		if len(e.Samples) < 3 {
			e.Samples = append(e.Samples, sample())
		}
	}
}

// Fail records the violating case.
func (e *Enum) Fail(format string, a ...interface{}) {
	if e.Viol == "" {
		e.Viol = fmt.Sprintf(format, a...)
	}
}

// Guard runs f and turns a panic into a violation.
func (e *Enum) Guard(what func() string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			e.Fail("panic on %s: %v\n%s", what(), r, debug.Stack())
		}
	}()
	f()
}

func hash(s string) uint64 {
	h := fnv.New64a()
	io.WriteString(h, s)
	return h.Sum64()
}

type request struct {
	Cmd      string   `json:"cmd"` // list, expand, explore, replay, enum
	Prop     string   `json:"prop"`
	Tier     int      `json:"tier"`
	Scenario string   `json:"scenario"`
	Prefix   []int    `json:"prefix"`
	Bound    int      `json:"bound"`
	Shard    int      `json:"shard"`
	Shards   int      `json:"shards"`
	Deadline int64    `json:"deadline"` // unix ms
	Cap      int      `json:"cap"`
	Known    []string `json:"known"` // violation messages listed as known findings (prefix match)
}

type violation struct {
	Scenario string   `json:"scenario"`
	Message  string   `json:"message"`
	Stack    string   `json:"stack,omitempty"`
	Choices  []int    `json:"choices"`
	Trace    []string `json:"trace,omitempty"`
	Repro    int      `json:"reproduced"`
	Hang     bool     `json:"hang,omitempty"`
}

type reply struct {
	Scenarios []scInfo         `json:"scenarios,omitempty"`
	Execs     int64            `json:"execs"`
	Nodes     int64            `json:"nodes"`
	Steps     int64            `json:"steps"`
	Outcomes  map[string]int64 `json:"outcomes,omitempty"`
	Samples   []string         `json:"samples,omitempty"`
	Children  [][]int          `json:"children,omitempty"`
	Viol      *violation       `json:"viol,omitempty"`
	KnownHit  map[string]int64 `json:"known_hit,omitempty"`
	Capped    bool             `json:"capped,omitempty"`
	Diverged  int64            `json:"diverged,omitempty"`
	Flaky     int64            `json:"flaky,omitempty"`
	Distinct  int64            `json:"distinct,omitempty"`
	Rule      string           `json:"rule,omitempty"`
	Dev       []int64          `json:"dev,omitempty"` // executions per number of deviations
}

type scInfo struct {
	Name   string `json:"name"`
	Bound  int    `json:"bound"`
	Fine   bool   `json:"fine"`
	Enum   bool   `json:"enum"`
	Shards int    `json:"shards"`
	Cap    int    `json:"cap"`
}

func find(name string) *Scenario {
	for _, s := range scenarios {
		if s.Name == name {
			return s
		}
	}
	return nil
}

func execute(s *Scenario, prefix []int, tracing bool) vs.Result {
	vs.FinePoints = s.Fine
	vs.FieldRaces = s.Races
	return vs.Run(prefix, tracing, s.Run)
}

func choices(r vs.Result) []int {
	c := make([]int, len(r.Points))
	last := 0
	for i, p := range r.Points {
		c[i] = p.C
		if p.C != 0 {
			last = i + 1
		}
	}
	return c[:last]
}

// expandInto lists the children of an execution within the bound.
func children(prefix []int, r vs.Result, bound int) [][]int {
	cost := 0
	for i := 0; i < len(prefix) && i < len(r.Points); i++ {
		if r.Points[i].C != 0 {
			cost += r.Points[i].Cost
		}
	}
	var out [][]int
	for i := len(prefix); i < len(r.Points); i++ {
		p := r.Points[i]
		if cost+p.Cost > bound {
			continue
		}
		for alt := 1; alt < p.N; alt++ {
			c := make([]int, i+1)
			for j := 0; j < i; j++ {
				c[j] = r.Points[j].C
			}
			c[i] = alt
			out = append(out, c)
		}
	}
	return out
}

var realStdout *os.File

func explore(q *request, s *Scenario) *reply {
	rep := &reply{Outcomes: map[string]int64{}, KnownHit: map[string]int64{}}
	stack := [][]int{q.Prefix}
	deadline := time.UnixMilli(q.Deadline)
	for len(stack) > 0 {
		if q.Cap > 0 && rep.Execs >= int64(q.Cap) {
			rep.Capped = true
			break
		}
		if rep.Execs&7 == 7 && time.Now().After(deadline) {
			rep.Capped = true
			break
		}
		prefix := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		r := execute(s, prefix, false)
		rep.Execs++
		rep.Steps += int64(r.Steps)
		if n := len(r.Points) - len(prefix); n > 0 {
			rep.Nodes += int64(n)
		}
		if r.Hang {
			rep.Viol = &violation{Scenario: s.Name, Message: r.Violation, Choices: append([]int{}, prefix...), Hang: true}
			return rep
		}
		if r.Diverged {
			rep.Diverged++
			continue
		}
		dev := 0
		for _, p := range r.Points {
			if p.C != 0 {
				dev += p.Cost
			}
		}
		for len(rep.Dev) <= dev {
			rep.Dev = append(rep.Dev, 0)
		}
		rep.Dev[dev]++
		if r.Violation != "" {
			known := ""
			for _, k := range q.Known {
				if len(r.Violation) >= len(k) && r.Violation[:len(k)] == k {
					known = k
				}
			}
			if known != "" {
				rep.KnownHit[known]++
			} else {
				v := &violation{Scenario: s.Name, Message: r.Violation, Stack: r.Stack, Choices: choices(r)}
				for i := 0; i < 5; i++ {
					t := execute(s, v.Choices, true)
					if t.Hang {
						v.Hang = true
						rep.Viol = v
						return rep
					}
					if t.Violation == r.Violation && !t.Diverged {
						v.Repro++
						v.Trace = t.Trace
					}
				}
				if v.Repro == 5 {
					if len(v.Trace) > 4000 {
						v.Trace = v.Trace[len(v.Trace)-4000:]
					}
					rep.Viol = v
					return rep
				}
				rep.Flaky++
			}
		}
		if len(rep.Outcomes) < 20000 {
			k := fmt.Sprintf("%016x", hash(r.Outcome+"|"+r.Violation))
			if rep.Outcomes[k] == 0 && len(rep.Samples) < 2 {
				rep.Samples = append(rep.Samples, fmt.Sprintf("%s choices=%v: %s", s.Name, choices(r), clip(r.Outcome, 1200)))
			}
			rep.Outcomes[k]++
		}
		ch := children(prefix, r, q.Bound)
		if q.Cmd == "expand" {
			rep.Children = append(rep.Children, ch...)
			break
		}
		for i := len(ch) - 1; i >= 0; i-- {
			stack = append(stack, ch[i])
		}
	}
	return rep
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func main() {
	realStdout = os.Stdout
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	os.Stdout = null
	logrus.SetLevel(logrus.PanicLevel)
	logrus.SetOutput(io.Discard)
	log.SetOutput(io.Discard)
	logrus.StandardLogger().ExitFunc = func(c int) { panic(fmt.Sprintf("the library called logrus.Fatal (process exit %d)", c)) }
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2 << 30)
	runtime.GOMAXPROCS(2)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	enc := json.NewEncoder(realStdout)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var q request
		if err := json.Unmarshal(line, &q); err != nil {
			fmt.Fprintln(os.Stderr, "bad request:", err)
			os.Exit(2)
		}
		var rep *reply
		switch q.Cmd {
		case "list":
			rep = &reply{}
			for _, s := range scenarios {
				if s.Prop != q.Prop || s.Tier > q.Tier {
					continue
				}
				rep.Scenarios = append(rep.Scenarios, scInfo{s.Name, s.Bound[q.Tier], s.Fine, s.Enum != nil, s.Shards, s.Cap[q.Tier]})
			}
		case "enum":
			s := find(q.Scenario)
			e := &Enum{Shard: q.Shard, Shards: q.Shards, Tier: q.Tier, distinct: map[uint64]bool{}, deadline: time.UnixMilli(q.Deadline)}
			s.Enum(e)
			if e.Viol != "" { // judge the same space again: the same case must fail
				e2 := &Enum{Shard: q.Shard, Shards: q.Shards, Tier: q.Tier, distinct: map[uint64]bool{}, deadline: time.UnixMilli(q.Deadline).Add(time.Hour)}
				s.Enum(e2)
				if firstLine(e2.Viol) != firstLine(e.Viol) {
					e.Viol = ""
				}
			}
			rep = &reply{Execs: e.Evals, Distinct: e.Distinct, Samples: e.Samples, Capped: e.Capped, Rule: e.Rule}
			if e.Viol != "" {
				rep.Viol = &violation{Scenario: s.Name, Message: e.Viol, Choices: []int{q.Shard, q.Shards}, Repro: 2}
			}
		case "replay":
			s := find(q.Scenario)
			if s.Enum != nil {
				e := &Enum{Shard: q.Prefix[0], Shards: q.Prefix[1], Tier: q.Tier, distinct: map[uint64]bool{}, deadline: time.Now().Add(time.Hour)}
				s.Enum(e)
				rep = &reply{Viol: &violation{Scenario: s.Name, Message: e.Viol}}
				break
			}
			r := execute(s, q.Prefix, true)
			rep = &reply{Execs: 1, Steps: int64(r.Steps), Samples: []string{r.Outcome}, Viol: &violation{Scenario: s.Name, Message: r.Violation, Stack: r.Stack, Trace: r.Trace, Hang: r.Hang, Choices: choices(r)}}
		default:
			s := find(q.Scenario)
			rep = explore(&q, s)
		}
		if err := enc.Encode(rep); err != nil {
			os.Exit(2)
		}
		if rep.Viol != nil && rep.Viol.Hang {
			os.Exit(0) // the looping task cannot be stopped
		}
	}
}

func firstLine(s string) string {
	for i := range s {
		if s[i] == '\n' {
			return s[:i]
		}
	}
	return s
}

func sortedKeys(m map[string]bool) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
