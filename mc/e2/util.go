package main

import (
	"fmt"
	"sort"
)

var yes, no = true, false

// the configurations every program may use
var stdCfgs = []Cfg{
	0: {Pkg: true},
	1: {Filename: "shared", Opts: true},
	2: {Dir: "snaps2"},
	3: {Filename: "cust", Ext: ".txt"},
	4: {Dir: "{ROOT}/abs/deep", Filename: "z", Opts: true},
	5: {Update: &yes, Opts: true},
	6: {Update: &no, Opts: true},
	7: {Ext: ".html", Opts: true},
	8: {Dir: "sub/dir.snap", Filename: "x.snap"},
	9: {Opts: true},
}

func call(api string, cfg int, vals ...string) Act {
	return Act{K: "call", API: api, Cfg: cfg, Vals: vals}
}
func bad(api string, cfg int, v string) Act {
	return Act{K: "call", API: api, Cfg: cfg, Vals: []string{v}, Bad: true}
}
func sub(name string, acts ...Act) Act { return Act{K: "sub", Name: name, Node: node(acts...)} }
func subN(name string, n *Node) Act    { return Act{K: "sub", Name: name, Node: n} }
func skip(how string) Act              { return Act{K: "skip", How: how} }
func par() Act                         { return Act{K: "par"} }
func cleanup(acts ...Act) Act          { return Act{K: "cleanup", Node: node(acts...)} }
func node(acts ...Act) *Node           { return &Node{Execs: [][]Act{acts}} }
func nodes(execs ...[]Act) *Node       { return &Node{Execs: execs} }

func spec(tests map[string]*Node) Spec { return Spec{Cfgs: stdCfgs, Tests: tests} }

func (s Spec) sorted(b bool) Spec { s.Sort = b; return s }
func (s Spec) cleans(n int) Spec  { s.Cleans = n; return s }

func count(n int) []string { return []string{fmt.Sprintf("-test.count=%d", n)} }

// val is a value for call number i of a test through an API.
func val(api, tag string, i int) string {
	switch api {
	case "json", "sjson":
		return fmt.Sprintf(`{"t":"%s","n":%d}`, tag, i)
	case "yaml":
		return fmt.Sprintf("t: %s\nn: %d\n", tag, i)
	}
	switch i % 4 {
	case 1:
		return fmt.Sprintf("%s %d\n---\n[TestA - 1]\nx", tag, i)
	case 2:
		return fmt.Sprintf("\n\n%s %d\n\n", tag, i)
	case 3:
		return fmt.Sprintf("/-/-/-/\n[TestAB - 1]\n%s %d", tag, i)
	}
	return fmt.Sprintf("%s %d", tag, i)
}

// calls makes n calls, API alternating.
func calls(n int, cfg int, tag string, apis ...string) (out []Act) {
	for i := 0; i < n; i++ {
		a := apis[i%len(apis)]
		out = append(out, call(a, cfg, val(a, tag, i)))
	}
	return
}

type mode struct {
	ci     bool
	update string
	sort   bool
}

func (m mode) env(flags ...string) Env { return Env{CI: m.ci, Update: m.update, Flags: flags} }

var cleanModes = []mode{
	{false, "", false}, {false, "", true}, {false, "clean", false}, {false, "clean", true}, {false, "true", false}, {false, "true", true}, {true, "", true}, {true, "clean", false}, {true, "true", true}, {false, "other", true}, {false, "True", false},
}

// the modes that matter for what Clean removes
var coreModes = cleanModes[:6]

func seqs[E any](alpha []E, n int, f func([]E)) {
	cur := make([]E, n)
	var rec func(int)
	rec = func(i int) {
		if i == n {
			f(append([]E(nil), cur...))
			return
		}
		for _, a := range alpha {
			cur[i] = a
			rec(i + 1)
		}
	}
	rec(0)
}

func perms(n int, f func([]int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(int)
	rec = func(k int) {
		if k == n {
			f(append([]int(nil), p...))
			return
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			rec(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	rec(0)
}

// ExpectAll: every call of the run ended like this.
func (r *R) ExpectAll(key string, o *Out, want string) {
	for i, c := range o.Log.Calls {
		if got := c.Outcome(); got != want {
			r.Fail(key, "call %d of %s (%s): %s, want %s %v", i, c.Test, c.API, got, want, c.Events)
			return
		}
	}
}

// oddNames are subtest names; the testing package rewrites some of them.
var oddNames = []string{"a b", "x - 3", "[y]", "é", "%d", "---", "a/b/c", "", "dup", "n]", "(", "*", "a - 1]", "\\", "a_1", "1", "_", ".snap", "..", "tab\there", "\x01", "\u200b", " lead", "trail ", "-", " - ", "q\"q", "a|b", "$", "TestA"}

var runPatterns = []string{
	"TestA", "^TestA$", "TestA$", "^TestA", "A", "TestB", "Test", ".", "TestA/s", "TestA/^s$", "^TestA$/^s$/^u$", "/s", "TestA/s|TestB", "TestB|TestA/t", "TestAB/s", "TestA|TestB", "Test[AB]$", "TestA/.", "TestA/x", "Nope",
	"TestA/s/u", "TestA//u", "//u", "(TestA|TestB)/s", "TestA_b", "Fuzz", "FuzzA/seed", "^(TestA)$", "T.*B", "(?i)testa$", "TestA/s u", "TestA/s_u", "TestA$/t|^TestC$", "[[:alpha:]]B$", "TestA/[s/]", "^$", "TestAB?$", "\\bTestA\\b", "TestA/(s|t)$", "TestC/sp a", "Test1", "Test10", "(FuzzA|TestB)",
	// fit the whole name or the id of tests they do not select
	"1", "1$", "_", "A.s|Test1", "(A.s|Test1$)", "10|C.s", "\\d$", "Test(1|A.t)", "s - 1|TestB", "[^A]$",
}

// syntaxPatterns hold separators, brackets, parentheses and escapes where they do and do not separate.
var syntaxPatterns = []string{
	"TestA/s|u", "u|TestA/s", "TestA/TestB|s", "TestA/s|TestB", "TestA/s|TestB/v|u", "TestA/[s|u]$", "TestA/(s|u)", "TestA/(s|TestB)$", "TestA/a[|]b", "TestA/a\\|b", "TestA/a.b|TestB", "[TA/]estA/s", "Test[A|B]/s", "TestA/[/]", "TestA/[[]x[]]", "TestA/[]x]",
	"TestA/\\[x\\]|TestB/v", "TestA/x/y", "TestA/x.y", "TestA/x[/]y", "(TestA/s)|TestB", "TestA(/s|/u)", "TestA\\/s", "TestA/\\(p|TestB", "TestA/[(]p|TestB", "TestA/[(]p/TestB|TestB/v", "(TestA|TestB)/(s|v)", "((TestA)|(TestB))/v", "Test(A|B)/s/.|TestC", "TestA/s\\[|TestB",
	"TestA/s[[]|TestB/v", "x]|TestA/s", "TestA]|TestB/s", "TestA/p\\)|TestB/s", "TestA/b\\\\d|TestB", "TestA/b[\\\\]d|TestB/v", "|TestA", "TestA|", "TestA/|TestB/s", "/", "//", "/TestB", "/s/TestB|TestC", "TestA//v|TestB//s", "^TestA$/^s$|^TestB$/^v$", "(?:TestA)/u", "(TestA/u|TestB)/s", "[^A]/s", "[^A|B]", "TestA/s{1}|TestB", "(?i)TESTA/S|testb",
}

// shapeTests is a program with prefix names, nesting, every API and several configs.
func shapeTests() map[string]*Node {
	ts := map[string]*Node{}
	all := []string{"snap", "json", "yaml", "ssnap", "sjson"}
	for _, n := range []string{"TestA", "TestA/s", "TestA/s/u", "TestA/t", "TestAB", "TestAB/s", "TestA_b", "FuzzA", "Test1", "Test10", "TestB", "TestB/s", "TestC", "TestC/sp a", "TestC/s u"} {
		place2(ts, n, append(calls(5, 9, n, all...), call("snap", 1, n), call("snap", 2, n), call("ssnap", 2, n), call("snap", 3, n+"x"), call("ssnap", 7, n)))
	}
	place2(ts, "TestB/only", []Act{call("ssnap", 3, "cust alone"), call("snap", 4, "deep")})
	place2(ts, "TestA/t/v", []Act{call("ssnap", 1, "alone shared"), call("json", 8, "[1]")})
	return ts
}

// place2 adds acts at the end of an existing nested node (single execution programs).
func place2(ts map[string]*Node, name string, acts []Act) {
	parts := split(name)
	n := ts[parts[0]]
	if n == nil {
		n = node()
		ts[parts[0]] = n
	}
	for _, p := range parts[1:] {
		var next *Node
		for _, a := range n.Execs[0] {
			if a.K == "sub" && a.Name == p {
				next = a.Node
			}
		}
		if next == nil {
			next = node()
			n.Execs[0] = append(n.Execs[0], subN(p, next))
		}
		n = next
	}
	n.Execs[0] = append(n.Execs[0], acts...)
}

func split(s string) (out []string) {
	cur := ""
	for _, c := range s {
		if c == '/' {
			out = append(out, cur)
			cur = ""
			continue
		}
		cur += string(c)
	}
	return append(out, cur)
}

// clone makes an independent copy of a program.
func clone(ts map[string]*Node) map[string]*Node {
	out := map[string]*Node{}
	for k, n := range ts {
		out[k] = n.clone()
	}
	return out
}

func (n *Node) clone() *Node {
	if n == nil {
		return nil
	}
	c := &Node{}
	for _, e := range n.Execs {
		var as []Act
		for _, a := range e {
			a.Node = a.Node.clone()
			as = append(as, a)
		}
		c.Execs = append(c.Execs, as)
	}
	return c
}

// find returns the node of a test of a single execution program.
func find(ts map[string]*Node, name string) *Node {
	parts := split(name)
	n := ts[parts[0]]
	for _, p := range parts[1:] {
		var next *Node
		if n == nil {
			return nil
		}
		for _, a := range n.Execs[0] {
			if a.K == "sub" && a.Name == p {
				next = a.Node
			}
		}
		n = next
	}
	return n
}

// keys in order
func keys[V any](m map[string]V) (ks []string) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return
}
