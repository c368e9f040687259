package main

import (
	"fmt"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

type Cfg struct {
	Pkg                bool
	Filename, Dir, Ext string
	Update             *bool
	Width              int
}

type Step struct {
	I     int
	Shape string
	API   string
	Cfg   int
	Val   string
	Chdir string
	Name  string // of the subtest
}

type TestProg struct {
	Name  string
	Steps []Step
}

type Prog struct {
	Cfgs   []Cfg
	Shared bool
	Tests  []TestProg
}

func (p Prog) String() string {
	var ts []string
	for _, t := range p.Tests {
		var ss []string
		for _, s := range t.Steps {
			c := ""
			if s.Chdir != "" {
				c = "chdir " + s.Chdir + "; "
			}
			ss = append(ss, fmt.Sprintf("%s%s:%s(%s)", c, s.Shape, s.API, p.Cfgs[s.Cfg]))
		}
		ts = append(ts, t.Name+"{"+strings.Join(ss, "; ")+"}")
	}
	return strings.Join(ts, " ")
}

func (c Cfg) String() string {
	if c.Pkg {
		return "package"
	}
	s := ""
	if c.Dir != "" {
		s += " Dir=" + c.Dir
	}
	if c.Filename != "" {
		s += " Filename=" + c.Filename
	}
	if c.Ext != "" {
		s += " Ext=" + c.Ext
	}
	if c.Update != nil {
		s += fmt.Sprintf(" Update=%v", *c.Update)
	}
	if c.Width > 0 {
		s += fmt.Sprintf(" JSON{Width:%d}", c.Width)
	}
	return "WithConfig" + s
}

func value(n int, bump bool) string {
	if bump {
		return fmt.Sprintf("w%dz", n)
	}
	return fmt.Sprintf("v%dz", n)
}

var fileOf = map[string]string{"A": "a_test", "B": "b.v1_test", "E": "e-x_test", "F": "f_ext_test"}
var otherOf = map[string]string{"A": "B", "B": "A", "E": "F", "F": "E"}

func testLetter(name string) string {
	name = strings.TrimSuffix(name, "_2")
	return name[len(name)-1:]
}

// caller gives the test's name at the call and the file (base without
// extension, directory) of the innermost test file at the call.
func (r *R) caller(test string, s Step) (name, file, dir string, base string) {
	x := testLetter(test)
	name, file, dir = test, fileOf[x], r.Dir
	switch s.Shape {
	case "other", "other>lib", "lib>other", "sub>other":
		file = fileOf[otherOf[x]]
	}
	switch s.Shape {
	case "sub", "sub>lib", "sub>help", "sub>other", "subfn", "par", "libsub", "libsub>lib", "libsubwrap", "suite", "helpsubclosure", "helpsubclosure3", "libsubclosure", "cleanup", "cleanuplib", "benchsub", "libbenchsub":
		if s.Name != "" {
			name += "/" + s.Name
		} else {
			name += fmt.Sprintf("/s%d", s.I)
		}
	case "sub3":
		name += fmt.Sprintf("/s%d/x/y", s.I)
	}
	if strings.HasPrefix(test, "Fuzz") && !strings.HasPrefix(test, "FuzzF") {
		name += "/seed#0"
	}
	return
}

type Want struct {
	Standalone bool
	Tokens     map[string]string // id (or "") -> value
	From       string            // directory of the test file
}

func standalone(api string) bool { return api == "ssnap" || api == "sjson" }

// Expect gives the files after a run that records everything; ok is false for
// programs in which two tests share a standalone file or the same snapshot id.
func (r *R) Expect(p Prog, bump bool) (map[string]*Want, bool) {
	w := map[string]*Want{}
	ord := map[string]int{}
	owner := map[string]string{}
	n := 0
	for _, t := range p.Tests {
		for _, s := range t.Steps {
			n++
			s.I = n
			name, file, from, _ := r.caller(t.Name, s)
			c := p.Cfgs[s.Cfg]
			dir := r.path(c.Dir)
			if c.Pkg || dir == "" {
				dir = "__snapshots__"
			}
			if !filepath.IsAbs(dir) {
				dir = filepath.Join(from, dir)
			}
			fn, ext := c.Filename, c.Ext
			if c.Pkg {
				fn, ext = "", ""
			}
			v := value(n, bump)
			if standalone(s.API) {
				if fn == "" {
					fn = strings.ReplaceAll(name, "/", "_")
				}
				if s.API == "sjson" && ext == "" {
					ext = ".json"
				}
				g := filepath.Join(dir, fn) + "\x00" + ext
				if o, ok := owner[g]; ok && o != name {
					return nil, false
				}
				owner[g] = name
				ord[g]++
				f := filepath.Join(dir, fmt.Sprintf("%s_%d.snap%s", fn, ord[g], ext))
				if w[f] != nil {
					return nil, false
				}
				w[f] = &Want{true, map[string]string{"": v}, from}
				continue
			}
			if fn == "" {
				fn = file
			}
			f := filepath.Join(dir, fn+".snap"+ext)
			k := f + "\x00" + name
			ord[k]++
			id := fmt.Sprintf("[%s - %d]", name, ord[k])
			if w[f] == nil {
				w[f] = &Want{false, map[string]string{}, from}
			} else if w[f].Standalone {
				return nil, false
			}
			w[f].Tokens[id] = v
		}
	}
	return w, true
}

var tokenRe = regexp.MustCompile(`[vw]\d+z`)

// parse gives the entries of a file: id -> the value in it.
func parse(data string, alone bool) (map[string]string, error) {
	out := map[string]string{}
	if alone {
		ts := tokenRe.FindAllString(data, -1)
		if len(ts) != 1 {
			return nil, fmt.Errorf("the file holds %d values", len(ts))
		}
		out[""] = ts[0]
		return out, nil
	}
	for _, e := range strings.Split(data, "\n---\n") {
		e = strings.TrimPrefix(e, "\n")
		if e == "" {
			continue
		}
		id, body, _ := strings.Cut(e, "\n")
		ts := tokenRe.FindAllString(body, -1)
		if len(ts) != 1 || out[id] != "" {
			return nil, fmt.Errorf("entry %q: %q", id, body)
		}
		out[id] = ts[0]
	}
	return out, nil
}

func (r *R) rel(p string) string {
	for _, b := range []struct{ n, d string }{{"{TMP}", r.Tmp}, {"{PKG}", r.Dir}, {"{LIB}", r.Lib}, {"{PKG}/../up", r.up()}} {
		if p == b.d || strings.HasPrefix(p, b.d+"/") {
			return b.n + p[len(b.d):]
		}
	}
	return p
}

// Check compares the files with the expected ones.
func (r *R) Check(what string, x Result, want map[string]*Want) bool {
	ok := true
	for _, p := range keys(x.FS) {
		if want[p] == nil {
			ok = false
			r.Fail("location", "%s: unexpected file %s (expected: %s)\n    content: %q", what, r.rel(p), r.list(want), tail(x.FS[p], 200))
		}
	}
	for p, w := range want {
		d, exists := x.FS[p]
		if !exists {
			ok = false
			r.Fail("location", "%s: no file %s; there is: %s\n    output: %s", what, r.rel(p), r.list2(x.FS), tail(x.Out, 500))
			continue
		}
		got, err := parse(d, w.Standalone)
		if err != nil || fmt.Sprint(got) != fmt.Sprint(w.Tokens) {
			ok = false
			r.Fail("location", "%s: file %s holds %v %v, expected %v", what, r.rel(p), got, err, w.Tokens)
		}
	}
	return ok
}

func keys[T any](m map[string]T) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

func (r *R) list(w map[string]*Want) string {
	var o []string
	for _, k := range keys(w) {
		o = append(o, r.rel(k))
	}
	return strings.Join(o, ", ")
}

func (r *R) list2(w map[string]string) string {
	var o []string
	for _, k := range keys(w) {
		o = append(o, r.rel(k))
	}
	return strings.Join(o, ", ")
}

func same(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

var footerRe = regexp.MustCompile(`(?m)^\s*at (.*):\d+\s*$`)

// Footers gives the files named by failure reports, resolved against the
// directory of the test file.
func footers(out, from string) map[string]bool {
	m := map[string]bool{}
	for _, f := range footerRe.FindAllStringSubmatch(out, -1) {
		p := f[1]
		if !filepath.IsAbs(p) {
			p = filepath.Join(from, p)
		}
		m[filepath.Clean(p)] = true
	}
	return m
}
