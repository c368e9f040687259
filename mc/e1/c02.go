package e1

import (
	"fmt"
	"strings"

	"github.com/gkampitakis/go-snaps/snaps"
)

func long(n int, last string) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "line %d\n", i)
	}
	return b.String() + last
}

var textPool = []string{
	"", "a", "a\n", "a\n\n", "\na", " a", "a ", "A", "a\t", "\n", "\n\n", " ", "---", "/-/-/-/", "---\n", "/-/-/-/\n", "/-/-/-//-/-/-/",
	"a\xff", "a\xfe", "a\ufffd", "\xff\xfe", "\xfe\xff", "é", "e\u0301", "a\x00", "a\x00\x00", "x\n---\ny", "x\n/-/-/-/\ny", "x\ny", "y\nx", "x\ny\n", "x\n\ny",
	"x\na\xffb\ny", "x\na\xfeb\ny", "\x1b[0ma", "%d", "%!d", "[TestA - 1]", "[TestA - 2]", "x\ny\nz\x80", "x\ny\nz\x81", "x \ny", "x\n y",
	"\u200b", "\ufeffa", "- a", "+ a", "  a", "a↵", "↵", "x\n↵\ny", "\xc3\x28", "\xc3(", "\xe2\x82", "\xe2\x83",
	"a\n\xff", "a\n\xfe", "\xff\na", "\xfe\na", "\xff\n\xff", "\xff\n\xfe",
}

var textPoolBig = []string{
	long(30, "end"), long(30, "enD"), long(29, "line 29\nend"), strings.Repeat("x", 70000), strings.Repeat("x", 70000) + "y", strings.Repeat("x", 69999) + "y",
	strings.Repeat("dup\n", 300), strings.Repeat("dup\n", 301), strings.Repeat("dup\n", 150) + "dUp\n" + strings.Repeat("dup\n", 149), long(400, ""), long(400, "\n"), "\n" + long(400, ""),
	strings.Repeat("é", 500), strings.Repeat("é", 499) + "e\u0301", strings.Repeat("ab\xff", 300), strings.Repeat("ab\xff", 299) + "ab\xfe",
}

// failing modes for a comparison call and the options that go with them
type cmpMode struct {
	m    Mode
	opts []func(*snaps.Config)
	name string
}

var cmpModes = []cmpMode{
	{Off, nil, "off"}, {Mode{}, nil, "off,colour"}, {CIm, nil, "CI"}, {Mode{CI: true, Update: "true"}, nil, "CI,UPDATE=true,colour"},
	{Mode{Update: "true"}, []func(*snaps.Config){snaps.Update(false)}, "UPDATE=true,Update(false),colour"},
	{Mode{Update: "clean", NoColor: true}, nil, "UPDATE=clean"},
	{Mode{CI: true}, []func(*snaps.Config){snaps.Update(true)}, "CI,Update(true),colour"},
}

// changed: record ops a, replay with ops b of equal length; call k must fail iff diff[k].
func changedScenario(desc string, m cmpMode, a, b []exe, differ func(x, y op) bool) *Scenario {
	return &Scenario{
		Desc: desc + " mode " + m.name,
		Stages: []Stage{
			{Off, func(w *W) { w.runExecs(w.cfg(), a) }},
			{m.m, func(w *W) { w.runExecs(w.cfg(m.opts...), b) }},
		},
		Check: func(r []StageResult, fail func(key, format string, args ...any)) {
			expectAll(r[0], "record", "added", false, fail)
			n := 0
			for i := range b {
				for k := range b[i].ops {
					if n >= len(r[1].Calls) {
						fail("calls", "missing call")
						return
					}
					c := r[1].Calls[n]
					want := "passed"
					if differ(a[i].ops[k], b[i].ops[k]) {
						want = "failed"
					}
					if want == "passed" && (a[i].ops[k].api == "json" || a[i].ops[k].api == "sjson") && a[i].ops[k].String() != b[i].ops[k].String() {
						// equal values written differently (C14 decides those)
					} else if o := c.Outcome(); o != want {
						key := "silent"
						if want == "passed" {
							key = "spurious"
						}
						fail(key, "call %d: stored %s, given %s: outcome %s, want %s (%s)", n, a[i].ops[k], b[i].ops[k], o, want, q(strings.Join(c.Errors(), "|")))
					} else if want == "failed" && strings.TrimSpace(c.Errors()[0]) == "" {
						fail("emptyerror", "call %d: stored %s, given %s: the reported error is blank", n, a[i].ops[k], b[i].ops[k])
					}
					if len(c.Writes) > 0 {
						fail("wrote", "call %d: wrote %q", n, c.Writes)
					}
					n++
				}
			}
			if d := Diff(r[1].Before, r[1].After); len(d) > 0 {
				fail("changed", "directory changed %q", d)
			}
		},
	}
}

func fmtDiffer(x, y op) bool { return !sameValue(x, y) }

func init() {
	register(&Property{
		ID: "C02",
		Rule: "all ordered pairs of distinct texts from a 61-text pool of near-collisions (terminator/escape, trailing newlines, invalid UTF-8, zero-width, control bytes...) x {MatchSnapshot, MatchStandaloneSnapshot} x 7 non-updating modes (quick: 2 modes each), " +
			"pairs of large texts, Go values, JSON and YAML documents; record in one process, compare in another; the entry is surrounded by other entries that must keep passing; plus a two-difference history (mismatch, then next call)",
		Assume: []string{"no carriage return at the end of a line for multi-entry files (documented limitation)"},
		Enum: func(tier string, emit Emit) {
			n := 0
			pick := func() []cmpMode {
				if tier == "thorough" {
					return cmpModes
				}
				n++
				return []cmpMode{cmpModes[n%2], cmpModes[2+n%5]}
			}
			pair := func(a, b any, fa, fb string) {
				if fa == fb {
					return
				}
				for _, m := range pick() {
					emit(func() *Scenario {
						return changedScenario("pair", m,
							[]exe{{"TestA", []op{snap("guard"), snap(a), snap(b), snap(a, "x"), ssnap(a), ssnap(b)}}, {"TestB", []op{snap(a)}}},
							[]exe{{"TestA", []op{snap("guard"), snap(b), snap(b), snap(b, "x"), ssnap(b), ssnap(b)}}, {"TestB", []op{snap(a)}}}, fmtDiffer)
					})
				}
			}
			pool := func(vals []any, skip func(i, k int) bool) {
				f := make([]string, len(vals))
				for i, v := range vals {
					f[i] = formatted([]any{v})
				}
				for i, a := range vals {
					for k, b := range vals {
						if !skip(i, k) {
							pair(a, b, f[i], f[k])
						}
					}
				}
			}
			never := func(int, int) bool { return false }
			anys := func(s []string) (out []any) {
				for _, x := range s {
					out = append(out, x)
				}
				return
			}
			pool(anys(textPool), never)
			pool(anys(textPoolBig), never)
			cr := []string{"a\r\n", "a\n", "a\r", "a", "\r\n", "\n", "\r", "", "a\r\nb\r\n", "a\nb\n", "a\nb\r\n", "a\r\r\n", "a\rb"}
			for _, a := range cr {
				for _, b := range cr {
					for _, m := range pick() {
						emit(func() *Scenario {
							return changedScenario("CR standalone", m, []exe{{"TestA", []op{ssnap(a), ssnap(b)}}}, []exe{{"TestA", []op{ssnap(b), ssnap(b)}}}, fmtDiffer)
						})
					}
				}
			}
			vals := goValues()
			vals = append(vals, int64(1), 1.0, "1", []int{1}, []int64{1}, []string{"a"}, []any{"a"}, map[string]int{"a": 1}, map[string]any{"a": 1}, gostruct{A: 2, B: "x\n---\n", C: []byte("---"), D: map[string]int{"k": 1}, F: gostruct{}}, &gostruct{A: 2}, []byte("bytez"), "false", false)
			var small []any
			for _, v := range vals {
				if len(formatted([]any{v})) < 2000 {
					small = append(small, v)
				}
			}
			pool(small, func(i, k int) bool { return i == k || (tier != "thorough" && (i+k)%2 == 0) })
			// the same text split differently over several values is the same formatted value or not
			mv := [][]any{{"a", "b"}, {"a\nb"}, {"a", "b", ""}, {"a", "b\n"}, {"a", "", "b"}, {"a\n", "b"}, {"", "a", "b"}, {"b", "a"}, {"ab"}, {"a b"}, {"a", "---"}, {"a", "/-/-/-/"}, {"a\n---"}, {nil, "a"}, {"a", nil}}
			for _, a := range mv {
				for _, b := range mv {
					for _, m := range pick() {
						emit(func() *Scenario {
							return changedScenario("multi", m,
								[]exe{{"TestA", []op{snap(a...), snap("t")}}}, []exe{{"TestA", []op{snap(b...), snap("t")}}}, fmtDiffer)
						})
					}
				}
			}
			// YAML: stored verbatim, so any byte difference must be reported
			yt := []string{"a: 1", "a: 1\n", "a: 1\n\n", "a:  1\n", "a: 1 # c\n", "# c\na: 1\n", "a: 2\n", "a: \"1\"\n", "a: '1'\n", "b: 1\n", "a: 1\nb: 2\n", "b: 2\na: 1\n", "a: 1\n---\nb: 2\n", "a: 1\n---\nb: 2", "---\na: 1\n", "- 1\n", "-  1\n", "[1]", "[ 1 ]", "/-/-/-/", "---\n", "---\n---\n", "/-/-/-/\n", "a: é\n", "a: e\u0301\n", "a: |\n  x\n", "a: |-\n  x\n", "a: >\n  x\n", "\na: 1\n", "~", "null", "", "\n"}
			for _, a := range yt {
				for _, b := range yt {
					for _, m := range pick() {
						emit(func() *Scenario {
							return changedScenario("yaml", m,
								[]exe{{"TestA", []op{snap("g"), yml(a), yml([]byte(b)), snap("t")}}}, []exe{{"TestA", []op{snap("g"), yml([]byte(b)), yml(b), snap("t")}}}, fmtDiffer)
						})
					}
				}
			}
			// JSON: documents with different values (independent comparison), both APIs
			jt := []string{`1`, `2`, `1.5`, `-1`, `"1"`, `true`, `false`, `null`, `""`, `"a"`, `"A"`, `"a "`, `"\u0000"`, `"\u00e9"`, `"e\u0301"`, `[]`, `{}`, `[1]`, `[1,2]`, `[2,1]`, `[[1]]`, `{"a":1}`, `{"a":2}`, `{"b":1}`, `{"a":1,"b":2}`, `{"a":"1"}`, `{"a":null}`, `{"a":[]}`, `{"a":{}}`, `{"a":[1]}`, `{"a":{"b":1}}`, `{"a":{"b":1},"c":0}`, `{"a":{"b":1,"c":0}}`, `[{"a":1},{"b":2}]`, `[{"a":1,"b":2}]`, `12345678901234567890`, `12345678901234567891`, `0.1`, `0.10000000000000001`, `"---"`, `"/-/-/-/"`, `"\n"`, `"\\n"`, `{"":1}`, `{" ":1}`}
			for _, a := range jt {
				for _, b := range jt {
					for _, m := range pick() {
						emit(func() *Scenario {
							return changedScenario("json", m,
								[]exe{{"TestA", []op{snap("g"), jsn(a), jsn(b), sjson(a), snap("t")}}}, []exe{{"TestA", []op{snap("g"), jsn([]byte(b)), jsn(b), sjson(b), snap("t")}}}, fmtDiffer)
						})
					}
				}
			}
		},
	})
}
