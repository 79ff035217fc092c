package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"github.com/stampzilla/gozwave/database"
)

// gen30 is a set of generated packages that are built into one program and asked for what they hold.
type gen30 struct {
	dir  string
	path string
	pkgs []string
	mand map[string]bool
}

func newGen30(name string, shard int) (*gen30, error) {
	g := &gen30{path: fmt.Sprintf("gzmc/gen/%s%d", name, shard), mand: map[string]bool{}}
	g.dir = filepath.Join(os.Getenv("GZ_MC"), "gen", fmt.Sprintf("%s%d", name, shard))
	os.RemoveAll(g.dir)
	return g, os.MkdirAll(g.dir, 0755)
}

func (g *gen30) close() { os.RemoveAll(g.dir) }

// rest copies the hand-written part of the database package.
func (g *gen30) rest(pkg string, without ...string) error {
	d := filepath.Join(g.dir, pkg)
	os.MkdirAll(d, 0755)
	fs, _ := filepath.Glob(filepath.Join(repoDir(), "database", "*.go"))
next:
	for _, f := range fs {
		b := filepath.Base(f)
		if strings.HasSuffix(b, "_test.go") {
			continue
		}
		for _, w := range without {
			if b == w {
				continue next
			}
		}
		c, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		l := strings.Split(string(c), "\n")
		for i := range l {
			if strings.HasPrefix(l[i], "package ") {
				l[i] = "package " + pkg
				break
			}
		}
		if err := os.WriteFile(filepath.Join(d, b), []byte(strings.Join(l, "\n")), 0644); err != nil {
			return err
		}
	}
	return nil
}

func (g *gen30) run(name string, args ...string) error {
	c, start := tool(name, args...)
	c.Dir = g.dir
	var out output
	c.Stdout, c.Stderr = &out, &out
	if err := start(); err != nil {
		return fmt.Errorf("the generator ended with %v: %s", err, clip(out.String(), 2000))
	}
	return nil
}

// devices generates a package from descriptions: file name and contents.
func (g *gen30) devices(pkg string, files map[string][]byte, dir string) error {
	if dir == "" {
		dir = filepath.Join(g.dir, "json_"+pkg)
		os.MkdirAll(dir, 0755)
		for n, b := range files {
			if err := os.WriteFile(filepath.Join(dir, n), b, 0644); err != nil {
				return err
			}
		}
	}
	if err := g.rest(pkg, "devices.go"); err != nil {
		return err
	}
	g.pkgs = append(g.pkgs, pkg)
	return g.run("database", "-databasedir", dir, "-package", pkg, "-file", filepath.Join(g.dir, pkg, "devices.go"))
}

// mandatory generates a package from a table of mandatory classes.
func (g *gen30) mandatory(pkg, text string) error {
	f := filepath.Join(g.dir, pkg+".txt")
	if err := os.WriteFile(f, []byte(text), 0644); err != nil {
		return err
	}
	if err := g.rest(pkg, "devices.go", "mandatory.go"); err != nil {
		return err
	}
	g.pkgs = append(g.pkgs, pkg)
	g.mand[pkg] = true
	return g.run("commandclasses", "-mandatoryfile", f, "-package", pkg, "-file", filepath.Join(g.dir, pkg, "mandatory.go"))
}

// ask builds everything and returns the answers; a query is package, manufacturer, type and product.
func (g *gen30) ask(queries [][4]string) ([]json.RawMessage, map[string]map[string][]int, error) {
	var b bytes.Buffer
	fmt.Fprintf(&b, "package main\n\nimport (\n\t\"encoding/json\"\n\t\"fmt\"\n\t\"os\"\n")
	for _, p := range g.pkgs {
		fmt.Fprintf(&b, "\t%q\n", g.path+"/"+p)
	}
	fmt.Fprintf(&b, ")\n\nvar lookup = map[string]func(a, b, c string) interface{}{\n")
	for _, p := range g.pkgs {
		if !g.mand[p] {
			fmt.Fprintf(&b, "\t%q: func(a, b, c string) interface{} { return %s.New(a, b, c) },\n", p, p)
		}
	}
	fmt.Fprintf(&b, "}\n\nvar classes = map[string]func(a, b byte) interface{}{\n")
	for _, p := range g.pkgs {
		if g.mand[p] {
			fmt.Fprintf(&b, "\t%q: func(a, b byte) interface{} { return %s.GetMandatoryCommandClasses(a, b) },\n", p, p)
		}
	}
	fmt.Fprintf(&b, `}

func main() {
	var qs [][4]string
	if err := json.NewDecoder(os.Stdin).Decode(&qs); err != nil {
		panic(err)
	}
	var out []json.RawMessage
	for _, q := range qs {
		b, err := json.Marshal(lookup[q[0]](q[1], q[2], q[3]))
		if err != nil {
			panic(err)
		}
		out = append(out, b)
	}
	all := map[string]map[string]json.RawMessage{}
	for p, f := range classes {
		all[p] = map[string]json.RawMessage{}
		for g := 0; g < 256; g++ {
			for s := 0; s < 256; s++ {
				b, err := json.Marshal(f(byte(g), byte(s)))
				if err != nil {
					panic(err)
				}
				if x := string(b); x != "null" && x != "[]" {
					all[p][fmt.Sprintf("%%02x%%02x", g, s)] = b
				}
			}
		}
	}
	json.NewEncoder(os.Stdout).Encode(map[string]interface{}{"devices": out, "classes": all})
}
`)
	os.MkdirAll(filepath.Join(g.dir, "prog"), 0755)
	if err := os.WriteFile(filepath.Join(g.dir, "prog", "main.go"), b.Bytes(), 0644); err != nil {
		return nil, nil, err
	}
	bin := filepath.Join(g.dir, "prog", "prog")
	c := exec.Command("go", "build", "-o", bin, g.path+"/prog")
	c.Dir = os.Getenv("GZ_MC")
	c.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOWORK=off", "GO111MODULE=on", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off")
	if out, err := c.CombinedOutput(); err != nil {
		return nil, nil, fmt.Errorf("the generated code is not valid: %v: %s", err, clip(string(out), 2000))
	}
	in, _ := json.Marshal(queries)
	c = exec.Command(bin)
	c.Stdin = bytes.NewReader(in)
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	if err := c.Run(); err != nil {
		return nil, nil, fmt.Errorf("the generated code ended with %v: %s", err, clip(se.String(), 2000))
	}
	var r struct {
		Devices []json.RawMessage
		Classes map[string]map[string][]struct {
			ID                       int
			InNIF, Secure, NonSecure bool
			Version                  string
		}
	}
	if err := json.Unmarshal(so.Bytes(), &r); err != nil {
		return nil, nil, err
	}
	cl := map[string]map[string][]int{}
	for p, m := range r.Classes {
		cl[p] = map[string][]int{}
		for k, l := range m {
			for _, x := range l {
				cl[p][k] = append(cl[p][k], x.ID)
			}
		}
	}
	return r.Devices, cl, nil
}

// judge30 checks packages of devices against their descriptions.
func (g *gen30) judge(e *Enum, want map[string]map[string]wantDevice) {
	var qs [][4]string
	var exp []string
	for _, p := range g.pkgs {
		var keys []string
		for k := range want[p] {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		miss := func(a, b, c string) {
			if _, ok := want[p][a+"_"+b+"_"+c]; !ok {
				qs = append(qs, [4]string{p, a, b, c})
				exp = append(exp, "null")
			}
		}
		for _, k := range keys {
			f := strings.SplitN(k, "_", 3)
			qs = append(qs, [4]string{p, f[0], f[1], f[2]})
			exp = append(exp, norm(want[p][k]))
			miss(f[0], f[2], f[1])
			miss(f[0], f[1], "0f0f")
			miss("", f[1], f[2])
		}
		miss("0086", "0001", "0001")
		miss("", "", "")
	}
	got, _, err := g.ask(qs)
	if err != nil {
		e.Fail("%v", err)
		return
	}
	for i := range qs {
		a := string(got[i])
		if a != "null" {
			a = norm(got[i])
		}
		if a != exp[i] {
			e.Fail("device %v is generated as\n%s\nits description says\n%s", qs[i], a, exp[i])
			return
		}
		e.Did(a, func() string { return fmt.Sprintf("%v: %s", qs[i], clip(a, 300)) })
	}
}

// J30 makes a device description.
func desc30(manu string, refs []string, brand, label, desc string, classes interface{}, params interface{}, endpoints int, other interface{}) J {
	j := J{"manufacturer_id": manu, "device_ref": refs, "manufacturer_name": brand, "label": label, "decription": desc, "parameters": params}
	eps := []interface{}{}
	if endpoints > 0 {
		eps = append(eps, J{"commandclasses": classes})
	}
	if endpoints > 1 {
		eps = append(eps, J{"commandclasses": other})
	}
	j["endpoints"] = eps
	return j
}

func parse30(files map[string][]byte) map[string]wantDevice {
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	m := map[string]wantDevice{}
	for _, n := range names {
		if !strings.HasSuffix(n, ".json") {
			continue
		}
		var d jsonDevice
		if err := json.Unmarshal(files[n], &d); err != nil {
			panic(err)
		}
		for _, r := range d.Refs {
			t, p := split26(r)
			k := strings.ToLower(d.ManufacturerID + "_" + t + "_" + p)
			if _, ok := m[k]; !ok {
				m[k] = wantOf(&d, r)
			}
		}
	}
	return m
}

func init() {
	type L = []interface{}
	enum := func(name, rule string, shards int, f func(e *Enum, g *gen30) map[string]map[string]wantDevice) {
		reg(&Scenario{Prop: "C30", Name: "C30/" + name, Shards: shards, Enum: func(e *Enum) {
			e.Rule = rule
			g, err := newGen30(name, e.Shard)
			if err != nil {
				e.Fail("setup: %v", err)
				return
			}
			defer g.close()
			want := f(e, g)
			if e.Viol == "" && len(g.pkgs) > 0 && want != nil {
				g.judge(e, want)
			}
		}})
	}
	enum("texts", "all texts of up to 3 symbols out of quotes, backslashes, line ends, control characters, byte order marks, template and comment characters and letters (thorough: a larger set), in every text field of a description", 8, func(e *Enum, g *gen30) map[string]map[string]wantDevice {
		sym := []string{"\"", "\\", "\n", "\r", "\t", "\x00", "\ufeff", "`", "{{", "*/", "%s", "a", "n", "0", "é"}
		if e.Tier > 0 {
			sym = append(sym, "'", "\u2028", "\x01", "\x7f", "\u0085", "日", "\U0001F600", "//", "&<>", "x", "u", "\ufffd", "$")
		}
		texts := []string{""}
		for _, a := range sym {
			texts = append(texts, a)
			for _, b := range sym {
				texts = append(texts, a+b)
				for _, c := range sym {
					texts = append(texts, a+b+c)
				}
			}
		}
		files := map[string][]byte{}
		n := len(texts)
		for i := range texts {
			if !e.Mine() {
				continue
			}
			t := func(k int) string { return texts[(i+k*n/6)%n] }
			j := desc30(fmt.Sprintf("%04X", 1+i>>8), []string{fmt.Sprintf("%04x:%02X00", i&0xff, i&0xff)}, t(0), t(1), t(2),
				L{J{"id": "25", "version": t(5), "nif": true}}, L{J{"id": 1, "label": t(3), "size": 1, "options": L{J{"value": 7, "label": t(4)}}}}, 1, nil)
			b, _ := json.Marshal(j)
			files[fmt.Sprintf("d%06d.json", i)] = b
		}
		if err := g.devices("p", files, ""); err != nil {
			e.Fail("%v", err)
			return nil
		}
		return map[string]map[string]wantDevice{"p": parse30(files)}
	})
	enum("members", "all combinations of endpoints, command classes with every set of attributes, parameters with and without options, and product references", 4, func(e *Enum, g *gen30) map[string]map[string]wantDevice {
		var every L
		for f := 0; f < 16; f++ {
			j := J{"id": []string{"25", "ef", "EF", "00", "9A"}[f%5], "nif": f&1 > 0, "secure": f&2 > 0, "nonsecure": f&4 > 0, "version": ""}
			if f&8 > 0 {
				j["version"] = fmt.Sprint(f)
			}
			every = append(every, j)
		}
		classes := []L{{}, {J{"id": "25"}}, {J{}}, {J{"id": "20", "version": "1"}, J{"id": "26", "secure": true}, J{"id": "", "nif": true}}, every}
		opt := func(v int64, l string) J { return J{"value": v, "label": l} }
		params := []L{{}, {J{"id": 1, "label": "x", "size": 1, "value_min": -5, "value_max": 300}}, {J{"id": 0, "label": ""}},
			{J{"id": 2, "label": "y", "size": 4, "options": L{opt(0, "off"), opt(1, "on"), opt(255, "")}}},
			{J{"id": 3, "size": 2, "options": L{opt(-128, "low")}, "value_min": 1, "value_max": 2}, J{"id": 254, "label": "z", "value_min": -2147483648, "value_max": 4294967295}, J{"id": 3, "label": "again"}}}
		files := map[string][]byte{}
		i := 0
		for ep := 0; ep < 4; ep++ {
			for c := range classes {
				for p := range params {
					for r := 0; r < 5; r++ {
						i++
						if !e.Mine() {
							continue
						}
						refs := [][]string{{"0001:0002"}, {"0001:0002", "0001:0003", "0002:0002"}, {"0001"}, {"aBcD:00Ff"}, {"0001:0002", "0001:0002", "0003:0001"}}[r]
						var cl, pa interface{} = classes[c], params[p]
						if ep == 3 {
							pa = nil
						}
						b, _ := json.Marshal(desc30(fmt.Sprintf("%04x", i), refs, "Brand", fmt.Sprint("Product ", i), "", cl, pa, ep%3, classes[(c+1)%len(classes)]))
						files[fmt.Sprintf("d%06d.json", i)] = b
					}
				}
			}
		}
		files["README.txt"] = []byte("not a description")
		if err := g.devices("p", files, ""); err != nil {
			e.Fail("%v", err)
			return nil
		}
		return map[string]map[string]wantDevice{"p": parse30(files)}
	})
	enum("duplicates", "all databases of 2 (some of 3) files out of 5 reference lists and 2 spellings of the manufacturer, with the same products again, also spelt differently", 8, func(e *Enum, g *gen30) map[string]map[string]wantDevice {
		refs := [][]string{{"000A:000B"}, {"000a:000b"}, {"000C:0001"}, {"000A:000B", "000C:0001"}, {"000c:0001", "000A:000b"}}
		want := map[string]map[string]wantDevice{}
		add := func(fs ...J) {
			if e.Stop() || !e.Mine() {
				return
			}
			files := map[string][]byte{}
			for i, j := range fs {
				b, _ := json.Marshal(j)
				files[fmt.Sprintf("%c.json", 'a'+i)] = b
			}
			p := fmt.Sprintf("p%d", e.n)
			if err := g.devices(p, files, ""); err != nil {
				e.Fail("%v", err)
			}
			want[p] = parse30(files)
		}
		dev := func(k, m, r int) J {
			return desc30([]string{"00ab", "00AB"}[m], refs[r], "B", fmt.Sprint("P", k), "", L{J{"id": fmt.Sprint(20 + k)}}, L{}, 1, nil)
		}
		for r1 := range refs {
			for r2 := range refs {
				for m := 0; m < 4; m++ {
					if m != 0 && m != 1 && e.Tier == 0 {
						continue
					}
					add(dev(1, m>>1, r1), dev(2, m&1, r2))
				}
				if r1 == r2 || e.Tier > 0 {
					for r3 := range refs {
						add(dev(1, 0, r1), dev(2, 1, r2), dev(3, 0, r3))
					}
				}
			}
		}
		return want
	})
	enum("shipped", "the shipped database", 1, func(e *Enum, g *gen30) map[string]map[string]wantDevice {
		dir := filepath.Join(repoDir(), "database/json")
		m, err := wantAll(dir)
		if err != nil {
			e.Fail("setup: %v", err)
			return nil
		}
		if err := g.devices("p", nil, dir); err != nil {
			e.Fail("%v", err)
			return nil
		}
		return map[string]map[string]wantDevice{"p": m}
	})
	lines := []string{"Application Status", "Association (version 2 or newer)", "Association Group Information", "Basic", "Binary Switch", "CRC16", "CRC16 - if CSC", "CRC16 – if CSC",
		"Central Scene", "Device Reset Locally (*)", "Device Reset Locally (if the device can be reset, refer to [1])", "Manufacturer Specific", "Meter (version 2 or newer)",
		"Multi Channel (version 4 or newer)", "Multichannel Association (version 3 or newer)", "Multilevel Sensor", "Multilevel Switch", "Multilevel Switch (v3 or newer)",
		"Notification", "Power Level", "Security", "Security - if CSC", "Version (v2 or newer)", "Z-Wave Plus Info", "No Such Class"}
	enum("mandatory", "all tables of mandatory classes made of every ordered pair of the lines in use, and all layouts of a table of up to 3 blocks; the shipped table", 4, func(e *Enum, g *gen30) map[string]map[string]wantDevice {
		shipped, err := os.ReadFile(filepath.Join(repoDir(), "database/mandatory.txt"))
		if err != nil {
			e.Fail("setup: %v", err)
			return nil
		}
		var heads []string
		seen := map[[2]byte]bool{}
		for _, l := range strings.Split(string(shipped), "\n") {
			if l = strings.TrimSpace(l); !strings.HasPrefix(l, "#") || strings.Contains(l, "NOT_USED") {
				continue
			}
			f := strings.Fields(l)
			k := [2]byte{typeName[f[len(f)-3]], typeName[f[len(f)-1]]}
			if k[0] != 0 && k[1] != 0 && !seen[k] {
				seen[k] = true
				heads = append(heads, l)
			}
		}
		if len(heads) < 10 {
			e.Fail("setup: no table")
			return nil
		}
		texts := map[string]string{}
		add := func(t string) {
			if e.Stop() || !e.Mine() {
				return
			}
			p := fmt.Sprintf("m%d", e.n)
			texts[p] = t
			if err := g.mandatory(p, t); err != nil {
				e.Fail("%v", err)
			}
		}
		add(string(shipped))
		var b strings.Builder
		k := 0
		for _, x := range lines {
			for _, y := range lines {
				fmt.Fprintf(&b, "Title\n%s\n- %s\n- %s\n\n", heads[k], x, y)
				if k++; k == len(heads) {
					add(b.String())
					b.Reset()
					k = 0
				}
			}
		}
		add(b.String())
		// layouts
		for v := 0; v < 48; v++ {
			var t []string
			for i := 0; i < 3; i++ {
				t = append(t, []string{"A title", "+ Security", "// x"}[i])
				t = append(t, heads[(v+2*i)%len(heads)])
				if v&1 > 0 {
					t = append(t, heads[(v+2*i+1)%len(heads)])
				}
				if v&2 > 0 {
					t = append(t, "# Nothing - GENERIC_TYPE_AV_CONTROL_POINT - SPECIFIC_TYPE_NOT_USED")
				}
				if v&4 > 0 {
					t = append(t, "//- Version")
				}
				if i != 1 || v%3 > 0 {
					t = append(t, "- "+lines[(v+i)%len(lines)], "-  "+lines[(v+7*i+3)%len(lines)]+" ")
				}
				t = append(t, "")
				if v&8 > 0 {
					t = append(t, "", "  ")
				}
			}
			s := strings.Join(t, "\n") + "\n"
			if v >= 16 {
				s = strings.TrimRight(s, "\n ")
				if v >= 32 {
					s += "\n"
				}
			}
			add(s)
		}
		if e.Viol != "" || len(g.pkgs) == 0 {
			return nil
		}
		_, got, err := g.ask(nil)
		if err != nil {
			e.Fail("%v", err)
			return nil
		}
		for _, p := range g.pkgs {
			want, err := table27(texts[p])
			if err != nil {
				e.Fail("setup: %v", err)
				return nil
			}
			m := checkMandatory(want, func(a, b byte) []*database.CommandClass {
				var l []*database.CommandClass
				for _, id := range got[p][fmt.Sprintf("%02x%02x", a, b)] {
					c := &database.CommandClass{}
					c.ID = cmdOf(byte(id))
					l = append(l, c)
				}
				return l
			})
			if m != "" {
				e.Fail("%s; the table is\n%s", m, clip(texts[p], 1500))
				return nil
			}
			e.Did(texts[p], func() string { return clip(texts[p], 300) })
		}
		return nil
	})
}
