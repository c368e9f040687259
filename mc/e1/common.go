package e1

import (
	"fmt"
	"strings"

	"github.com/gkampitakis/go-snaps/match"
	"github.com/gkampitakis/go-snaps/snaps"
	krpretty "github.com/kr/pretty"
)

// op is one Match* call.
type op struct {
	api  string // snap, json, yaml, ssnap, sjson
	vals []any
	jm   func() []match.JSONMatcher
	ym   func() []match.YAMLMatcher
}

func (o op) String() string {
	var s []string
	for _, v := range o.vals {
		x := fmt.Sprintf("%#v", v)
		if len(x) > 160 {
			x = fmt.Sprintf("%s...(%d)", x[:160], len(x))
		}
		s = append(s, x)
	}
	return o.api + "(" + strings.Join(s, ", ") + ")"
}

func snap(v ...any) op { return op{api: "snap", vals: v} }
func jsn(v any) op     { return op{api: "json", vals: []any{v}} }
func yml(v any) op     { return op{api: "yaml", vals: []any{v}} }
func ssnap(v any) op   { return op{api: "ssnap", vals: []any{v}} }
func sjson(v any) op   { return op{api: "sjson", vals: []any{v}} }

func (o op) run(c *snaps.Config, t *T) {
	var jm []match.JSONMatcher
	var ym []match.YAMLMatcher
	if o.jm != nil {
		jm = o.jm()
	}
	if o.ym != nil {
		ym = o.ym()
	}
	switch o.api {
	case "snap":
		c.MatchSnapshot(t, o.vals...)
	case "json":
		c.MatchJSON(t, o.vals[0], jm...)
	case "yaml":
		c.MatchYAML(t, o.vals[0], ym...)
	case "ssnap":
		c.MatchStandaloneSnapshot(t, o.vals[0])
	case "sjson":
		c.MatchStandaloneJSON(t, o.vals[0], jm...)
	default:
		panic(o.api)
	}
}

// formatted is the documented formatting of a MatchSnapshot call.
func formatted(vals []any) string {
	s := make([]string, len(vals))
	for i, v := range vals {
		s[i] = krpretty.Sprint(v)
	}
	return strings.Join(s, "\n")
}

// exe is one execution of a test.
type exe struct {
	name string
	ops  []op
}

func (e exe) String() string {
	var s []string
	for _, o := range e.ops {
		s = append(s, o.String())
	}
	return e.name + ":[" + strings.Join(s, "; ") + "]"
}

func descExecs(es []exe) string {
	var s []string
	for _, e := range es {
		s = append(s, e.String())
	}
	return strings.Join(s, " | ")
}

func (w *W) runExecs(c *snaps.Config, es []exe) {
	for _, e := range es {
		w.Test(e.name, func(t *T) {
			for _, o := range e.ops {
				w.Do(t, func() { o.run(c, t) })
			}
		})
	}
}

func (w *W) cfg(opts ...func(*snaps.Config)) *snaps.Config {
	return snaps.WithConfig(append([]func(*snaps.Config){snaps.Dir(w.S()), snaps.Filename("f")}, opts...)...)
}

// entry is one framed entry of a multi-entry snapshot file, as documented:
// a header line `[name - n]`, the body lines, a line `---`.
type entry struct{ id, body string }

// parseFile reads a multi-entry file entry by entry; junk lists every
// non-blank line outside entries and an unterminated entry.
func parseFile(data string) (es []entry, junk []string) {
	if data == "" {
		return
	}
	lines := strings.Split(strings.TrimSuffix(data, "\n"), "\n")
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if l == "" {
			continue
		}
		if len(l) < 2 || l[0] != '[' || l[len(l)-1] != ']' || !strings.Contains(l, " - ") {
			junk = append(junk, l)
			continue
		}
		var body []string
		end := false
		for i++; i < len(lines); i++ {
			if lines[i] == "---" {
				end = true
				break
			}
			body = append(body, lines[i])
		}
		if !end {
			junk = append(junk, "unterminated entry "+l)
		}
		es = append(es, entry{l[1 : len(l)-1], strings.Join(body, "\n")})
	}
	return
}

// unesc undoes the terminator escaping of stored bodies.
func unesc(s string) string {
	ls := strings.Split(s, "\n")
	for i, l := range ls {
		if l == "/-/-/-/" {
			ls[i] = "---"
		} else if l != "" && strings.ReplaceAll(l, "/-/-/-/", "") == "" {
			ls[i] = strings.TrimPrefix(l, "/-/-/-/")
		}
	}
	return strings.Join(ls, "\n")
}

func ids(es []entry) (out []string) {
	for _, e := range es {
		out = append(out, e.id)
	}
	return
}

func describe(cs []Call) string {
	var s []string
	for _, c := range cs {
		s = append(s, c.Outcome())
	}
	return strings.Join(s, ",")
}

// expectAll checks that every call of a stage has the outcome and writes nothing.
func expectAll(r StageResult, stage, outcome string, quiet bool, fail func(key, format string, args ...any)) {
	for i, c := range r.Calls {
		if o := c.Outcome(); o != outcome {
			fail("outcome", "%s: call %d of %s: %s, want %s %s", stage, i, c.Test, o, outcome, q(strings.Join(c.Errors(), "|")))
			return
		}
		if quiet && len(c.Writes) > 0 {
			fail("wrote", "%s: call %d of %s wrote %q", stage, i, c.Test, c.Writes)
			return
		}
	}
	if quiet {
		if d := Diff(r.Before, r.After); len(d) > 0 {
			fail("changed", "%s: directory changed %q", stage, d)
		}
	}
}

func seqs[E any](alpha []E, n int, f func([]E)) {
	cur := make([]E, n)
	var rec func(int)
	rec = func(i int) {
		if i == n {
			f(append([]E(nil), cur...))
			return
		}
		for _, a := range alpha {
			cur[i] = a
			rec(i + 1)
		}
	}
	rec(0)
}

func reversed[E any](s []E) []E {
	out := make([]E, len(s))
	for i, v := range s {
		out[len(s)-1-i] = v
	}
	return out
}

// perms yields all permutations of 0..n-1.
func perms(n int, f func([]int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(int)
	rec = func(k int) {
		if k == n {
			f(append([]int(nil), p...))
			return
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			rec(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	rec(0)
}
