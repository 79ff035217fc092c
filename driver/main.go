// gzdriver builds the instrumented library with the harness and runs one property's check.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"gzdriver/instr"
)

const modGo = `module gzmc

go 1.24

require github.com/stampzilla/gozwave v0.0.0-00010101000000-000000000000

replace github.com/stampzilla/gozwave => %s
`

func die(code int, format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	cleanup()
	os.Exit(code)
}

var tmp string

var started = time.Now()

func cleanup() {
	if tmp != "" && os.Getenv("GZ_KEEP") == "" {
		os.RemoveAll(tmp)
	}
}

func copyTree(src, dst string) error {
	return filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		d := filepath.Join(dst, rel)
		if fi.IsDir() {
			return os.MkdirAll(d, 0755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(d, b, 0644)
	})
}

func env() []string {
	var e []string
	for _, kv := range os.Environ() {
		k := strings.SplitN(kv, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOWORK", "GO111MODULE", "GOPROXY", "GOTOOLCHAIN":
			continue
		}
		e = append(e, kv)
	}
	return append(e, "GOFLAGS=-mod=mod", "GOWORK=off", "GO111MODULE=on", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off")
}

func ensureGoMod(repo string) error {
	for _, f := range []string{"go.mod", "go.sum"} {
		if _, err := os.Stat(filepath.Join(repo, f)); err == nil {
			continue
		}
		b, err := os.ReadFile("/opt/vp/" + f)
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(repo, f), b, 0644); err != nil {
			return err
		}
	}
	return nil
}

func requires(gomod string) string {
	// every requirement of the library, so that no resolution is needed
	out := ""
	in := false
	for _, l := range strings.Split(gomod, "\n") {
		t := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(t, "require ("):
			in = true
		case in && t == ")":
			in = false
		case in && t != "":
			f := strings.Fields(t)
			out += "require " + f[0] + " " + f[1] + " // indirect\n"
		case strings.HasPrefix(t, "require "):
			out += t + "\n"
		}
	}
	return out
}

// build produces the worker binary; level is lowered until the rewritten sources compile.
// For the property about the example program that program is rewritten too.
func build(verif, repo, id string) (string, string, error) {
	if err := ensureGoMod(repo); err != nil {
		return "", "", err
	}
	mc := filepath.Join(tmp, "mc")
	if err := copyTree(filepath.Join(verif, "mc"), mc); err != nil {
		return "", "", err
	}
	gm, _ := os.ReadFile(filepath.Join(repo, "go.mod"))
	gs, _ := os.ReadFile(filepath.Join(repo, "go.sum"))
	os.WriteFile(filepath.Join(mc, "go.mod"), []byte(fmt.Sprintf(modGo, repo)+"\n"+requires(string(gm))), 0644)
	os.WriteFile(filepath.Join(mc, "go.sum"), gs, 0644)
	tags := "-tags="
	if id == "C33" {
		instr.Mains["github.com/stampzilla/gozwave/zwave-example"] = "zwaveexample"
		tags = "-tags=example"
		gin := filepath.Join(tmp, "gin")
		if err := ginCopy(repo, gin); err != nil {
			return "", "", err
		}
		m, _ := os.ReadFile(filepath.Join(mc, "go.mod"))
		os.WriteFile(filepath.Join(mc, "go.mod"), append(m, "\nreplace github.com/gin-gonic/gin => "+gin+"\n"...), 0644)
	}
	var lastErr error
	for _, lv := range []instr.Level{instr.Fine, instr.Coarse, instr.Bare} {
		src := filepath.Join(tmp, fmt.Sprintf("src%d", lv))
		os.MkdirAll(src, 0755)
		ov, err := instr.Run(repo, src, lv, env())
		if err != nil {
			return "", "", err
		}
		j, _ := json.Marshal(map[string]interface{}{"Replace": ov})
		of := filepath.Join(tmp, fmt.Sprintf("overlay%d.json", lv))
		os.WriteFile(of, j, 0644)
		bin := filepath.Join(tmp, "worker")
		cmd := exec.Command("go", "build", tags, "-overlay", of, "-o", bin, "./harness")
		cmd.Dir = mc
		cmd.Env = env()
		out, err := cmd.CombinedOutput()
		if err == nil {
			return bin, []string{"fine", "coarse", "bare"}[lv], nil
		}
		lastErr = fmt.Errorf("go build (level %d): %v\n%s", lv, err, out)
		fmt.Fprintln(os.Stderr, lastErr)
	}
	return "", "", lastErr
}

// ginCopy makes a copy of the web framework of the example that hands over its handler instead of listening
// to the network, and whose encoder is marked as a reader of what it encodes.
func ginCopy(repo, out string) error {
	const path = "github.com/gin-gonic/gin"
	cmd := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", path)
	cmd.Dir = repo
	cmd.Env = env()
	b, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list gin: %v", err)
	}
	if err := copyTree(strings.TrimSpace(string(b)), out); err != nil {
		return err
	}
	for _, d := range []string{"vendor", "examples", "testdata", "ginS"} {
		os.RemoveAll(filepath.Join(out, d))
	}
	if _, err := os.Stat(filepath.Join(out, "go.mod")); err != nil {
		os.WriteFile(filepath.Join(out, "go.mod"), []byte("module "+path+"\n"), 0644)
	}
	for _, x := range [][3]string{
		{"gin.go", "http.ListenAndServe(address, engine)", "vhttp.Serve(address, engine)"},
		{"json/json.go", `"encoding/json"`, `json "gzmc/vjson"`},
	} {
		f := filepath.Join(out, x[0])
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		s := string(b)
		if !strings.Contains(s, x[1]) {
			return fmt.Errorf("%s of gin does not contain %s", x[0], x[1])
		}
		s = strings.Replace(s, x[1], x[2], -1)
		if x[0] == "gin.go" {
			s = strings.Replace(s, "import (", "import (\n\t\"gzmc/vhttp\"", 1)
		}
		if err := os.WriteFile(f, []byte(s), 0644); err != nil {
			return err
		}
	}
	return nil
}

// buildTools builds the library's own programs, for the properties that are about them.
func buildTools(repo, id string) {
	os.Setenv("GZ_REPO", repo)
	os.Setenv("GZ_MC", filepath.Join(tmp, "mc"))
	if id != "C29" && id != "C30" {
		return
	}
	tools := filepath.Join(tmp, "tools")
	os.MkdirAll(tools, 0755)
	os.Setenv("GZ_TOOLS", tools)
	cmd := exec.Command("go", "build", "-o", tools+"/", "./cmd/serialrecordingtohex", "./generators/database", "./generators/commandclasses")
	cmd.Dir = repo
	cmd.Env = env()
	if out, err := cmd.CombinedOutput(); err != nil {
		die(2, "go build: %v\n%s", err, out)
	}
}

type request map[string]interface{}

type violation struct {
	Scenario string   `json:"scenario"`
	Message  string   `json:"message"`
	Stack    string   `json:"stack,omitempty"`
	Choices  []int    `json:"choices"`
	Trace    []string `json:"trace,omitempty"`
	Repro    int      `json:"reproduced"`
	Hang     bool     `json:"hang,omitempty"`
}

type scInfo struct {
	Name   string `json:"name"`
	Bound  int    `json:"bound"`
	Fine   bool   `json:"fine"`
	Enum   bool   `json:"enum"`
	Shards int    `json:"shards"`
	Cap    int    `json:"cap"`
}

type reply struct {
	Scenarios []scInfo         `json:"scenarios"`
	Execs     int64            `json:"execs"`
	Nodes     int64            `json:"nodes"`
	Steps     int64            `json:"steps"`
	Outcomes  map[string]int64 `json:"outcomes"`
	Samples   []string         `json:"samples"`
	Children  [][]int          `json:"children"`
	Viol      *violation       `json:"viol"`
	KnownHit  map[string]int64 `json:"known_hit"`
	Capped    bool             `json:"capped"`
	Diverged  int64            `json:"diverged"`
	Flaky     int64            `json:"flaky"`
	Distinct  int64            `json:"distinct"`
	Rule      string           `json:"rule"`
	Dev       []int64          `json:"dev"`
}

type worker struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func startWorker(bin string) (*worker, error) {
	c := exec.Command(bin)
	c.Stderr = os.Stderr
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := c.Start(); err != nil {
		return nil, err
	}
	return &worker{c, in, bufio.NewReaderSize(out, 1<<20)}, nil
}

func (w *worker) stop() {
	w.in.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
}

func (w *worker) call(q request) (*reply, error) {
	b, _ := json.Marshal(q)
	if _, err := w.in.Write(append(b, '\n')); err != nil {
		return nil, err
	}
	line, err := w.out.ReadBytes('\n')
	if err != nil {
		return nil, err
	}
	var r reply
	return &r, json.Unmarshal(line, &r)
}

type scStat struct {
	Execs    int64   `json:"executions"`
	Nodes    int64   `json:"choice_points"`
	Steps    int64   `json:"steps"`
	Outcomes int     `json:"distinct_outcomes"`
	Bound    int     `json:"deviation_bound"`
	Capped   bool    `json:"capped"`
	Dev      []int64 `json:"executions_by_deviations,omitempty"`
	WallS    float64 `json:"wall_s"`
	out      map[string]int64
}

// exploration lists the properties decided mainly by enumerating inputs (the others by schedules).
var exploration = map[string]bool{"C01": true, "C02": true, "C03": true, "C04": true, "C26": true, "C27": true, "C29": true, "C30": true}

type known struct {
	Property string `json:"property"`
	Scenario string `json:"scenario"`
	Message  string `json:"message"`
	What     string `json:"what"`
	Status   string `json:"status"` // open | fixed
}

func loadKnown(path string) []known {
	var ks []known
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || !strings.HasPrefix(l, "{") {
			continue
		}
		var k known
		if json.Unmarshal([]byte(l), &k) == nil && k.Status == "open" {
			ks = append(ks, k)
		}
	}
	return ks
}

func main() {
	verif := os.Getenv("GZ_VERIF")
	repo := os.Getenv("GZ_REPO")
	if repo == "" {
		repo = "/repo"
	}
	if len(os.Args) < 2 {
		die(2, "usage: gzdriver check ID | replay FILE | build")
	}
	var err error
	tmp, err = os.MkdirTemp("", "gzmc")
	if err != nil {
		die(2, "%v", err)
	}
	defer cleanup()
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	id := ""
	switch {
	case len(os.Args) < 3:
	case os.Args[1] == "check":
		id = os.Args[2]
	case os.Args[1] == "replay":
		b, _ := os.ReadFile(os.Args[2])
		var v violation
		json.Unmarshal(b, &v)
		id = strings.Split(v.Scenario, "/")[0]
	}
	bin, level, err := build(verif, repo, id)
	if err != nil {
		die(2, "build: %v", err)
	}
	switch os.Args[1] {
	case "build":
		fmt.Println("built at level", level)
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			die(2, "%v", err)
		}
		var v violation
		json.Unmarshal(b, &v)
		buildTools(repo, strings.Split(v.Scenario, "/")[0])
		w, err := startWorker(bin)
		if err != nil {
			die(2, "%v", err)
		}
		t := 0
		if tier == "thorough" {
			t = 1
		}
		r, err := w.call(request{"cmd": "replay", "scenario": v.Scenario, "prefix": v.Choices, "tier": t})
		if err != nil {
			die(2, "%v", err)
		}
		for _, l := range r.Viol.Trace {
			fmt.Println(l)
		}
		fmt.Println("outcome:", strings.Join(r.Samples, "\n"))
		fmt.Println("violation:", r.Viol.Message)
		fmt.Println(r.Viol.Stack)
		if r.Viol.Message != "" {
			cleanup()
			os.Exit(1)
		}
	case "check":
		buildTools(repo, os.Args[2])
		code := check(verif, bin, level, os.Args[2], tier, seed)
		cleanup()
		os.Exit(code)
	}
}

type unit struct {
	sc     scInfo
	prefix []int
	shard  int
	first  bool
	depth  int
}

func check(verif, bin, level, id, tier string, seed int) int {
	t0 := started
	out := verif
	if o := os.Getenv("GZ_OUT"); o != "" {
		out = o
	}
	ti := 0
	budget := 150 * time.Second
	if tier == "thorough" {
		ti = 1
		budget = 780 * time.Second
	}
	if s := os.Getenv("GZ_BUDGET"); s != "" {
		n, _ := strconv.Atoi(s)
		budget = time.Duration(n) * time.Second
	}
	only := os.Getenv("GZ_ONLY")
	nw := 8
	if s := os.Getenv("GZ_WORKERS"); s != "" {
		nw, _ = strconv.Atoi(s)
	}
	w0, err := startWorker(bin)
	if err != nil {
		die(2, "%v", err)
	}
	lst, err := w0.call(request{"cmd": "list", "prop": id, "tier": ti})
	if err != nil || len(lst.Scenarios) == 0 {
		die(2, "no scenarios for %s (%v)", id, err)
	}
	w0.stop()
	knowns := []known{}
	for _, k := range loadKnown(filepath.Join(verif, "known-findings.jsonl")) {
		if k.Property == id {
			knowns = append(knowns, k)
		}
	}
	deadline := t0.Add(budget)
	stats := map[string]*scStat{}
	var order []string
	var mu sync.Mutex
	var queue []unit
	var samples []string
	var rules []string
	knownHit := map[string]int64{}
	var viol *violation
	var diverged, flaky, distinctEnum, evals int64
	var workerErr error
	isEnum := false
	for _, sc := range lst.Scenarios {
		if only != "" && !strings.Contains(sc.Name, only) {
			continue
		}
		stats[sc.Name] = &scStat{Bound: sc.Bound, out: map[string]int64{}}
		order = append(order, sc.Name)
		if sc.Enum {
			isEnum = true
			n := sc.Shards
			if n == 0 {
				n = 8
			}
			sc.Shards = n
			for i := 0; i < n; i++ {
				queue = append(queue, unit{sc: sc, shard: i})
			}
		} else {
			queue = append(queue, unit{sc: sc, prefix: []int{}, first: true})
		}
	}
	busy := 0
	cond := sync.NewCond(&mu)
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w, err := startWorker(bin)
			if err != nil {
				mu.Lock()
				workerErr = err
				mu.Unlock()
				cond.Broadcast()
				return
			}
			defer func() { w.stop() }()
			for {
				mu.Lock()
				for len(queue) == 0 && busy > 0 && viol == nil && workerErr == nil {
					cond.Wait()
				}
				if viol != nil || workerErr != nil || len(queue) == 0 {
					mu.Unlock()
					cond.Broadcast()
					return
				}
				u := queue[0]
				queue = queue[1:]
				busy++
				qlen := len(queue)
				st := stats[u.sc.Name]
				capped := st.Capped && u.sc.Cap > 0 && st.Execs >= int64(u.sc.Cap)
				mu.Unlock()
				var r *reply
				ut := time.Now()
				if time.Now().After(deadline) || capped {
					r = &reply{Capped: true}
				} else {
					q := request{"prop": id, "tier": ti, "scenario": u.sc.Name, "prefix": u.prefix, "bound": u.sc.Bound, "deadline": deadline.UnixMilli()}
					var msgs []string
					for _, k := range knowns {
						if k.Scenario == u.sc.Name {
							msgs = append(msgs, k.Message)
						}
					}
					q["known"] = msgs
					if u.sc.Enum {
						q["cmd"] = "enum"
						q["shard"] = u.shard
						q["shards"] = u.sc.Shards
					} else if u.depth < 3 && qlen < 400 {
						q["cmd"] = "expand"
					} else {
						q["cmd"] = "explore"
						if u.sc.Cap > 0 {
							q["cap"] = u.sc.Cap
						}
					}
					r, err = w.call(q)
					if err != nil {
						// the worker died: a crash the scheduler could not contain (fatal runtime error)
						w.stop()
						w2, e2 := startWorker(bin)
						if e2 != nil {
							mu.Lock()
							workerErr = e2
							busy--
							mu.Unlock()
							cond.Broadcast()
							return
						}
						w = w2
						if r2, e3 := w.call(q); e3 != nil {
							r = &reply{Viol: &violation{Scenario: u.sc.Name, Message: "the process died (fatal runtime error) while exploring this prefix", Choices: u.prefix, Repro: 2}}
							w.stop()
							if w3, e4 := startWorker(bin); e4 == nil {
								w = w3
							}
						} else {
							r = r2
						}
					}
					if r.Viol != nil && r.Viol.Hang {
						// must happen again in a fresh process
						w.stop()
						w2, e2 := startWorker(bin)
						if e2 == nil {
							w = w2
							r2, e3 := w.call(request{"cmd": "replay", "scenario": r.Viol.Scenario, "prefix": r.Viol.Choices, "tier": ti})
							if e3 != nil || r2.Viol == nil || !r2.Viol.Hang {
								r.Viol = nil
								r.Flaky++
							}
							w.stop()
							if w3, e4 := startWorker(bin); e4 == nil {
								w = w3
							}
						}
					}
				}
				mu.Lock()
				busy--
				st.WallS += time.Since(ut).Seconds()
				st.Execs += r.Execs
				st.Nodes += r.Nodes
				st.Steps += r.Steps
				st.Capped = st.Capped || r.Capped
				for len(st.Dev) < len(r.Dev) {
					st.Dev = append(st.Dev, 0)
				}
				for i, n := range r.Dev {
					st.Dev[i] += n
				}
				if u.sc.Cap > 0 && st.Execs >= int64(u.sc.Cap) {
					st.Capped = true
				}
				for k, n := range r.Outcomes {
					st.out[k] += n
				}
				if len(samples) < 6 {
					samples = append(samples, r.Samples...)
				}
				if r.Rule != "" {
					seen := false
					for _, x := range rules {
						seen = seen || x == r.Rule
					}
					if !seen {
						rules = append(rules, r.Rule)
					}
				}
				for k, n := range r.KnownHit {
					knownHit[u.sc.Name+"\x00"+k] += n
				}
				diverged += r.Diverged
				flaky += r.Flaky
				distinctEnum += r.Distinct
				if u.sc.Enum {
					evals += r.Execs
				}
				for _, c := range r.Children {
					queue = append(queue, unit{sc: u.sc, prefix: c, depth: u.depth + 1})
				}
				if r.Viol != nil && viol == nil {
					viol = r.Viol
				}
				mu.Unlock()
				cond.Broadcast()
			}
		}()
	}
	wg.Wait()
	if workerErr != nil {
		die(2, "worker: %v", workerErr)
	}
	// evidence
	var states, trans, traces int64
	exhaustive := true
	outcomes := 0
	for _, s := range stats {
		s.Outcomes = len(s.out)
		outcomes += s.Outcomes
		states += s.Nodes + s.Execs
		trans += s.Steps
		traces += s.Execs
		if s.Capped {
			exhaustive = false
		}
	}
	if len(samples) > 6 {
		samples = samples[:6]
	}
	cov := map[string]interface{}{"samples": samples, "exhaustive": exhaustive, "scenarios": stats, "instrumentation": level, "diverged": diverged, "nondeterministic_dropped": flaky}
	lvl := "model_checking"
	if isEnum && traces == evals || exploration[id] {
		lvl = "exploration"
		cov["evaluations"] = evals
		cov["distinct_nontrivial"] = distinctEnum
		cov["rule"] = strings.Join(rules, "; ")
	} else {
		cov["states"] = states - evals
		cov["transitions"] = trans
		cov["traces_validated_against_impl"] = traces - evals
		cov["distinct_outcomes"] = outcomes
		cov["evaluations"] = evals
		cov["distinct_nontrivial"] = distinctEnum
		cov["rule"] = "states: nodes of the choice tree visited (choice points plus completed executions); transitions: scheduler steps; every trace is an execution of the real code. " + strings.Join(rules, "; ")
	}
	if id == "C22" {
		lvl = "fault_enumeration"
		cov["evaluations"] = traces
		cov["distinct_nontrivial"] = int64(outcomes) + distinctEnum
		cov["rule"] = "one evaluation is one execution of the save on a simulated file system with one crash point (and torn prefix) or one failing file operation, followed by loading the file again; distinct: different observed outcomes. " + strings.Join(rules, "; ")
	}
	if lvl == "exploration" && traces > evals {
		cov["states"] = states - evals
		cov["transitions"] = trans
		cov["traces_validated_against_impl"] = traces - evals
	}
	nv := 0
	if viol != nil {
		nv = 1
	}
	ev := map[string]interface{}{"property": id, "tier": tier, "seed": seed, "level": lvl, "coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": nv,
		"assumptions": []string{"sequentially consistent memory; preemption only at synchronisation operations, map accesses and accesses to mutable fields", "virtual time: computation takes no time, the clock advances only when nothing can run"}}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(out, "evidence"), 0755)
	if only == "" {
		os.WriteFile(filepath.Join(out, "evidence", id+".json"), append(b, '\n'), 0644)
	}
	sort.Strings(order)
	for _, n := range order {
		s := stats[n]
		fmt.Printf("%-44s bound=%d execs=%d points=%d steps=%d outcomes=%d capped=%v dev=%v cpu=%.1fs\n", n, s.Bound, s.Execs, s.Nodes, s.Steps, s.Outcomes, s.Capped, s.Dev, s.WallS)
	}
	if diverged+flaky > 0 {
		fmt.Printf("note: %d diverged, %d not reproducible\n", diverged, flaky)
	}
	for _, k := range knowns {
		if knownHit[k.Scenario+"\x00"+k.Message] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
		}
	}
	if viol != nil {
		dir := filepath.Join(out, "replays")
		os.MkdirAll(dir, 0755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%s.json", id, tier))
		b, _ := json.MarshalIndent(viol, "", " ")
		os.WriteFile(path, append(b, '\n'), 0644)
		fmt.Printf("%s: %s\n", viol.Scenario, viol.Message)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return 1
	}
	fmt.Printf("%s: held on everything explored (%s, %.1fs)\n", id, tier, time.Since(t0).Seconds())
	return 0
}
