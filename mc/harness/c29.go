package main

import (
	"bytes"
	"encoding/gob"
	"encoding/hex"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/stampzilla/gozwave/serialrecorder"
)

type group29 struct {
	write       bool
	first, last time.Time
	data        []byte
}

// groups29 merges the rows of one direction that are less than a millisecond apart.
func groups29(rows []serialrecorder.Row, write bool) []group29 {
	var l []group29
	for _, r := range rows {
		if r.Direction.IsWrite() != write {
			continue
		}
		if n := len(l); n > 0 && r.Timestamp.Sub(l[n-1].last) < time.Millisecond {
			l[n-1].data = append(l[n-1].data, r.Data...)
			l[n-1].last = r.Timestamp
			continue
		}
		l = append(l, group29{write, r.Timestamp, r.Timestamp, append([]byte(nil), r.Data...)})
	}
	return l
}

func lines29(b []byte) []string {
	s := strings.TrimSuffix(string(b), "\n")
	if s == "" {
		return nil
	}
	return strings.Split(s, "\n")
}

const layout29 = "2006-01-02 15:04:05.999999999 -0700 MST"

// judge29 runs the converter on a recording and returns what is wrong with its output.
func judge29(file string, rows []serialrecorder.Row, more bool) string {
	var buf bytes.Buffer
	enc := gob.NewEncoder(&buf)
	for i := range rows {
		if err := enc.Encode(&rows[i]); err != nil {
			return "setup: " + err.Error()
		}
	}
	if err := os.WriteFile(file, buf.Bytes(), 0644); err != nil {
		return "setup: " + err.Error()
	}
	run := func(args ...string) ([]string, string) {
		cmd, start := tool("serialrecordingtohex", append([]string{"-file=" + file}, args...)...)
		var out, er output
		cmd.Stdout, cmd.Stderr = &out, &er
		if err := start(); err != nil {
			return nil, fmt.Sprintf("the converter ended with %v: %s", err, clip(er.String(), 2000))
		}
		return lines29(out.Bytes()), ""
	}
	full, bad := run()
	if bad != "" {
		return bad
	}
	want := map[bool][]group29{false: groups29(rows, false), true: groups29(rows, true)}
	pos := map[bool]int{}
	var last time.Time
	var data []string
	for i, l := range full {
		p := strings.Split(l, ": ")
		q := strings.Split(p[len(p)-1], " - ")
		if len(p) < 2 || len(q) != 2 || q[0] != "read" && q[0] != "write" {
			return fmt.Sprintf("line %d of the output is %q", i+1, l)
		}
		at, err := time.Parse(layout29, strings.Join(p[:len(p)-1], ": "))
		d, err2 := hex.DecodeString(q[1])
		if err != nil || err2 != nil {
			return fmt.Sprintf("line %d of the output is %q: %v %v", i+1, l, err, err2)
		}
		w := q[0] == "write"
		if pos[w] >= len(want[w]) {
			return fmt.Sprintf("line %d of the output, %q, is one too many\n%s", i+1, l, strings.Join(full, "\n"))
		}
		g := want[w][pos[w]]
		pos[w]++
		if !bytes.Equal(g.data, d) {
			return fmt.Sprintf("line %d of the output is %q, its bytes should be %x\n%s", i+1, l, g.data, strings.Join(full, "\n"))
		}
		if at.Before(g.first) || at.After(g.last) {
			return fmt.Sprintf("line %d of the output is %q, its bytes were recorded from %v to %v", i+1, l, g.first, g.last)
		}
		if at.Before(last) {
			return fmt.Sprintf("line %d of the output, %q, is not in time order\n%s", i+1, l, strings.Join(full, "\n"))
		}
		last = at
		data = append(data, q[1])
	}
	for _, w := range []bool{false, true} {
		if pos[w] != len(want[w]) {
			return fmt.Sprintf("the output lacks bytes (writes: %v): %d of %d rows\n%s", w, pos[w], len(want[w]), strings.Join(full, "\n"))
		}
	}
	if !more {
		return ""
	}
	only := func(dir string) []string {
		var l []string
		for _, x := range full {
			if strings.Contains(x, ": "+dir+" - ") {
				l = append(l, x)
			}
		}
		return l
	}
	for _, c := range []struct {
		args []string
		want []string
	}{
		{[]string{"-short"}, data},
		{[]string{"-write=false"}, only("read")},
		{[]string{"-read=false"}, only("write")},
		{[]string{"-read=false", "-write=false"}, nil},
		{[]string{"-short", "-write=false"}, cut29(only("read"))},
		{[]string{"-short", "-read=false"}, cut29(only("write"))},
	} {
		got, bad := run(c.args...)
		if bad != "" {
			return bad
		}
		a, b := strings.Join(got, "\n"), strings.Join(c.want, "\n")
		if len(c.args) == 1 && c.args[0] == "-short" { // rows of the same time may come in any order
			a, b = sorted29(got), sorted29(c.want)
		}
		if a != b {
			return fmt.Sprintf("with %v the output is\n%s\nshould be\n%s", c.args, strings.Join(got, "\n"), strings.Join(c.want, "\n"))
		}
	}
	return ""
}

func cut29(l []string) []string {
	var o []string
	for _, x := range l {
		o = append(o, x[strings.LastIndex(x, " ")+1:])
	}
	return o
}

func sorted29(l []string) string {
	c := append([]string(nil), l...)
	sort.Strings(c)
	return strings.Join(c, "\n")
}

func init() {
	us := time.Microsecond
	epoch := time.Date(2017, 3, 4, 5, 6, 7, 0, time.UTC)
	reg(&Scenario{Prop: "C29", Name: "C29/recordings", Shards: 16, Enum: func(e *Enum) {
		gaps := []time.Duration{0, 400 * us, 999999, 1000 * us, 1600 * us}
		maxLen, more := 5, 3
		if e.Tier > 0 {
			maxLen, more = 6, 4
			gaps = append(gaps, time.Hour)
		}
		e.Rule = fmt.Sprintf("all recordings of up to %d rows, each row read or written, %v after the row before it (or 400µs before it if that is of the other direction)", maxLen, gaps)
		file, err := os.CreateTemp("", "gz29")
		if err != nil {
			e.Fail("setup: %v", err)
			return
		}
		file.Close()
		defer os.Remove(file.Name())
		var rows []serialrecorder.Row
		var rec func(n int)
		rec = func(n int) {
			if e.Stop() {
				return
			}
			if len(rows) == n {
				if !e.Mine() {
					return
				}
				what := func() string {
					s := ""
					for _, r := range rows {
						s += fmt.Sprintf("%v %s %x; ", r.Timestamp.Sub(epoch), r.Direction, r.Data)
					}
					return s
				}
				if bad := judge29(file.Name(), rows, n <= more); bad != "" {
					e.Fail("recording %s: %s", what(), bad)
				}
				e.Did(what(), what)
				return
			}
			for d := 0; d < 2; d++ {
				dir := serialrecorder.Direction(d == 1)
				if len(rows) == 0 {
					rows = append(rows, serialrecorder.Row{Timestamp: epoch.Add(time.Second), Direction: dir, Data: []byte{byte(16 * d)}})
					rec(n)
					rows = rows[:0]
					continue
				}
				k := len(rows)
				for g := -1; g < len(gaps); g++ {
					at := rows[k-1].Timestamp
					if g < 0 {
						at = at.Add(-400 * us)
					} else {
						at = at.Add(gaps[g])
					}
					back := g < 0 && rows[k-1].Direction == dir
					for _, r := range rows {
						if r.Direction == dir && r.Timestamp.After(at) {
							back = true
						}
					}
					if back {
						continue
					}
					data := []byte{byte(16*d + k)}
					for len(data) < 1+k%3 {
						data = append(data, byte(0xa0+len(data)))
					}
					rows = append(rows, serialrecorder.Row{Timestamp: at, Direction: dir, Data: data})
					rec(n)
					rows = rows[:k]
				}
			}
		}
		for n := 0; n <= maxLen; n++ {
			rec(n)
		}
		// long recordings
		for _, step := range []time.Duration{0, 300 * us, 999 * us, time.Millisecond, 5 * time.Millisecond} {
			for _, n := range []int{50, 1000} {
				for pat := 0; pat < 4; pat++ {
					if e.Stop() || !e.Mine() {
						continue
					}
					var rs []serialrecorder.Row
					for i := 0; i < n; i++ {
						d := []bool{i%2 == 1, i%7 == 3, i/10%2 == 0, false}[pat]
						size := 1 + i%5
						if i%50 == 7 {
							size = 300
						}
						data := make([]byte, size)
						for j := range data {
							data[j] = byte(i + 3*j)
						}
						rs = append(rs, serialrecorder.Row{Timestamp: epoch.Add(time.Duration(i) * step), Direction: serialrecorder.Direction(d), Data: data})
					}
					if bad := judge29(file.Name(), rs, true); bad != "" {
						e.Fail("%d rows, %v apart, pattern %d: %s", n, step, pat, clip(bad, 3000))
					}
					what := fmt.Sprintf("%d rows, %v apart, pattern %d", n, step, pat)
					e.Did(what, func() string { return what })
				}
			}
		}
	}})
}
