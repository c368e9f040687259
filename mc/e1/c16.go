package e1

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	"github.com/gkampitakis/go-snaps/snaps"
)

var c16JSON = []string{
	`{"id":1,"name":"n","nested":{"id":2,"tags":["x","y"]},"list":[{"id":3,"v":"a"},{"id":4,"v":"b"}],"s":"t","b":true,"z":null}`,
	`[{"id":1,"name":"n"},[1,2,["d"]],"s",null,{"a":{"b":{"c":[]}}}]`,
	`{"a.b":1,"a":{"b":2},"x*":"s","":"e","q\"k":[1],"é":{"ü":1},"0":"zero"}`,
}

var c16YAML = []string{
	"id: 1\nname: n\nnested:\n  id: 2\n  tags:\n    - x\n    - y\nlist:\n  - id: 3\n    v: a\n  - id: 4\n    v: b\ns: t\nb: true\n",
	"- id: 1\n  name: n\n- - 1\n  - 2\n  - - d\n- s\n- a:\n    b:\n      c: x\n",
}

// yaml templates: @ is the masked (or unmasked) value
var c16Templates = []struct {
	text string
	path string
	flow bool // only flow values fit
}{
	{"a: @ # comment\nb: 2\n", "$.a", true},
	{"b: 1\na: @", "$.a", false},
	{"b: 1\na: @\n", "$.a", false},
	{"a:\n  b: @\n\n# tail\nc: 1\n", "$.a.b", true},
	{"a:\n  b: @\nc: 1\n\n# tail\n", "$.a.b", false},
	{"# head\n- @\n- x\n", "$[0]", false},
	{"- x\n# mid\n- @\n", "$[1]", false},
	{"{a: @, b: [1, x]}\n", "$.a", true},
	{"{b: [1, @, x]}", "$.b[1]", true},
	{"a:\n  - b: @\n    c: 1\n  - d\n", "$.a[0].b", false},
	{"---\na: @\n---\nb: 1\n", "$.a", true},
	{"x: 1\n---\na: @\n", "$.a", false},
	{"a: @\r\nb: 1\r\n", "$.a", true},
	{"a: @\n\n\nb: |\n  text\n  more\n\nc: >-\n  fold\n", "$.a", true},
	{"a: &x 1\nb: *x\nc: @\n", "$.c", true},
	{"'k 1': 1\n\"k2\": @\n", "$.k2", true},
	{"a: !t 1\nb: @\n", "$.b", true},
}

var c16Flow = []string{"1", "22", "-3", "1.5", "x", "'x'", "\"x\"", "long text with spaces", "''", "null", "~", "true", "{k: v}", "{}", "[]", "[1, {a: b}]", "\"a\\nb\"", "é", "'it''s'", "0x1f", "2020-01-01", "http://a/b"}

// block values, written with the indentation of their parent (see indentAt)
var c16Block = []string{"|\n  l1\n  l2", ">-\n  l1\n  l2", "\n  k: v\n  l: 1", "\n  - 1\n  - 2", "|\n  l1\n\n  l3", "\n  k:\n    - a\n    - b: c"}

func putTemplate(t, v string) string {
	i := strings.IndexByte(t, '@')
	line := t[strings.LastIndexByte(t[:i], '\n')+1 : i]
	ind := len(line) - len(strings.TrimLeft(line, " -"))
	v = strings.ReplaceAll(v, "\n", "\n"+strings.Repeat(" ", ind))
	if strings.HasPrefix(v, "\n") {
		i-- // no blank after the colon
		return t[:i] + v + t[i+2:]
	}
	return t[:i] + v + t[i+1:]
}

// variants are documents derived from v by one change.
func variants(v *jv, yaml bool) (out []*jv) {
	seen := map[string]bool{v.canon(!yaml): true}
	add := func(n *jv) {
		if c := n.canon(!yaml); !seen[c] {
			seen[c] = true
			out = append(out, n)
		}
	}
	var alts []*jv
	if yaml {
		for _, s := range []string{"str:other", "str:", "int:7", "int:-7", "float:0.5", "bool:true", "bool:false", "null", "str:with space", "str:a: b", "str:é"} {
			alts = append(alts, &jv{kind: "scalar", s: s})
		}
		for _, s := range []string{"{}", "{\"k\":1}", "[]", "[1,[2]]"} {
			n, err := parseY(s)
			if err != nil {
				panic(err)
			}
			alts = append(alts, n[0])
		}
	} else {
		for _, s := range []string{`"other"`, `""`, `7`, `0.5`, `true`, `false`, `null`, `{}`, `{"k":1}`, `[]`, `[1,[2]]`, `"q\"\\é\u2028"`, `"` + strings.Repeat("long ", 60) + `"`, `-1e30`} {
			n, err := parseJ(s)
			if err != nil {
				panic(err)
			}
			alts = append(alts, n)
		}
	}
	for _, at := range v.addresses() {
		for _, a := range alts {
			n := v.clone()
			*n.find(at) = *a.clone()
			add(n)
		}
		// removed member or element, swapped siblings
		n := v.clone()
		p := n.find(at[:len(at)-1])
		for i := range p.kids {
			k := strconv.Itoa(i)
			if p.kind == "object" {
				k = p.keys[i]
			}
			if k == at[len(at)-1] {
				p.kids = append(append([]*jv{}, p.kids[:i]...), p.kids[i+1:]...)
				if p.kind == "object" {
					p.keys = append(append([]string{}, p.keys[:i]...), p.keys[i+1:]...)
				}
				break
			}
		}
		if !(yaml && len(p.kids) == 0) {
			add(n)
		}
		n = v.clone()
		if p := n.find(at[:len(at)-1]); len(p.kids) > 1 {
			p.kids[0], p.kids[1] = p.kids[1], p.kids[0]
			add(n)
		}
	}
	// added members
	for _, at := range append([][]string{{}}, v.addresses()...) {
		n := v.clone()
		p := n.find(at)
		k := &jv{kind: "number", s: "9"}
		if yaml {
			k = &jv{kind: "scalar", s: "int:9"}
		}
		switch p.kind {
		case "object":
			p.keys = append(append([]string{}, p.keys...), "zextra")
		case "array":
		default:
			continue
		}
		p.kids = append(p.kids, k)
		add(n)
	}
	return
}

// jtext writes a JSON tree.
func jtext(v *jv) string {
	switch v.kind {
	case "object":
		var s []string
		for i := range v.keys {
			k, _ := json.Marshal(v.keys[i])
			s = append(s, string(k)+":"+jtext(v.kids[i]))
		}
		return "{" + strings.Join(s, ",") + "}"
	case "array":
		var s []string
		for _, k := range v.kids {
			s = append(s, jtext(k))
		}
		return "[" + strings.Join(s, ",") + "]"
	case "string":
		b, _ := json.Marshal(v.s)
		return string(b)
	case "number":
		return v.s
	}
	return v.kind
}

// ytext writes a YAML tree in block style.
func ytext(v *jv, ind string) string {
	switch v.kind {
	case "object":
		if len(v.kids) == 0 {
			return " {}\n"
		}
		s := ""
		for i, k := range v.keys {
			s += ind + k + ":" + ychild(v.kids[i], ind+"  ")
		}
		return s
	case "array":
		if len(v.kids) == 0 {
			return " []\n"
		}
		s := ""
		for _, k := range v.kids {
			if len(k.kids) > 0 {
				s += ind + "- " + strings.TrimPrefix(ytext(k, ind+"  "), ind+"  ")
			} else {
				s += ind + "-" + ychild(k, ind+"  ")
			}
		}
		return s
	}
	x := v.s
	if i := strings.IndexByte(x, ':'); i >= 0 {
		t := x[:i]
		x = x[i+1:]
		if t == "str" && strings.Trim(x, "abcdefghijklmnopqrstuvwxyz") != "" || x == "" {
			b, _ := json.Marshal(x)
			x = string(b)
		}
	}
	return " " + x + "\n"
}

func ychild(v *jv, ind string) string {
	if len(v.kids) > 0 {
		return "\n" + ytext(v, ind)
	}
	return ytext(v, ind)
}

type c16pair struct {
	b    any // the other input
	desc string
	same bool // must be indistinguishable
	bad  bool // matchers must fail on it
	free bool // errors are accepted instead of "same"
}

func c16Scenario(desc, api string, a any, abad bool, ms []mspec, pairs []c16pair) *Scenario {
	mk := func(v any) op {
		o := op{api: api, vals: []any{v}}
		if api == "yaml" {
			o.ym = yms(ms)
		} else {
			o.jm = jms(ms)
		}
		return o
	}
	return &Scenario{
		Desc: fmt.Sprintf("%s %s matchers %v", api, desc, ms),
		Stages: []Stage{{Off, func(w *W) {
			ro, rw := w.cfg(snaps.Update(false)), w.cfg(snaps.Update(true))
			do := func(name string, c *snaps.Config, v any) {
				if api == "sjson" {
					opts := []func(*snaps.Config){snaps.Dir(w.S()), snaps.Update(c == rw)}
					c = snaps.WithConfig(opts...)
				}
				w.Test(name, func(t *T) { w.Do(t, func() { mk(v).run(c, t) }) })
			}
			do("TestA", rw, a)
			for _, p := range pairs {
				do("TestA", ro, p.b)
				do("TestB", rw, p.b)
				do("TestB", ro, a)
			}
			do("TestA", ro, a)
		}}},
		Check: func(r []StageResult, fail func(key, format string, args ...any)) {
			cs := r[0].Calls
			body := func(i int, name string) string {
				fs := r[0].FSAt(i)
				if api == "sjson" {
					return fs["s/"+name+"_1.snap.json"].Data
				}
				es, _ := parseFile(fs["s/f.snap"].Data)
				for _, e := range es {
					if e.id == name+" - 1" {
						return e.body
					}
				}
				return "<missing>"
			}
			if abad {
				for i, c := range cs {
					if i%3 != 2 && c.Outcome() != "failed" && (i == 0 || i == len(cs)-1) {
						fail("bad", "call %d must fail: %s", i, c.Outcome())
					}
				}
				return
			}
			if cs[0].Outcome() != "added" || cs[len(cs)-1].Outcome() != "passed" {
				if len(pairs) > 0 && pairs[0].free && cs[0].Outcome() == "failed" {
					return
				}
				fail("self", "recording %s, replaying %s: %q", cs[0].Outcome(), cs[len(cs)-1].Outcome(), cs[0].Errors())
				return
			}
			for i, p := range pairs {
				ab, rb, ba := cs[1+3*i], cs[2+3*i], cs[3+3*i]
				if p.bad {
					if ab.Outcome() != "failed" || rb.Outcome() != "failed" || len(ab.Writes)+len(rb.Writes) > 0 {
						fail("bad", "%s: the matchers don't apply, must fail: %s %s", p.desc, ab.Outcome(), rb.Outcome())
					}
					continue
				}
				if o := rb.Outcome(); o != "added" && o != "updated" && o != "passed" {
					if !(p.free && o == "failed") {
						fail("record", "%s: recording %s %q", p.desc, o, rb.Errors())
					}
					continue
				}
				x, y := body(2+3*i, "TestA"), body(2+3*i, "TestB")
				if p.same {
					if x != y {
						fail("masked", "%s: differs only in masked values, stored\n%s\nand\n%s", p.desc, x, y)
					}
					if ab.Outcome() != "passed" || ba.Outcome() != "passed" {
						fail("masked", "%s: differs only in masked values: against A %s, A against it %s", p.desc, ab.Outcome(), ba.Outcome())
					}
				} else {
					if x == y {
						fail("unmasked", "%s: differs in unmasked values, both stored %s", p.desc, q(x))
					}
					if ab.Outcome() != "failed" || ba.Outcome() != "failed" {
						fail("unmasked", "%s: differs in unmasked values: against A %s, A against it %s", p.desc, ab.Outcome(), ba.Outcome())
					}
				}
				if len(ab.Writes)+len(ba.Writes) > 0 {
					fail("writes", "%s: a comparison wrote %q %q", p.desc, ab.Writes, ba.Writes)
				}
			}
		},
	}
}

// applyAll is the reference result of a matcher list.
func applyAllJ(v *jv, ms []mspec) (*jv, bool) {
	ok := true
	for _, m := range ms {
		n, errs := m.apply(v)
		if len(errs) > 0 {
			ok = false
			continue
		}
		v = n
	}
	return v, ok
}

func c16Types(yaml bool) []string {
	if yaml {
		return []string{"string", "uint64", "bool", "map[string]interface {}", "[]interface {}", "interface {}"}
	}
	return []string{"string", "float64", "bool", "map[string]interface {}", "[]interface {}", "interface {}"}
}

func c16Lists(addrs []yaddr, tyOf func([]string) string, yaml, pairs bool) (out [][]mspec) {
	out = append(out, nil)
	for i, a := range addrs {
		p, s := []string{a.path}, [][]string{a.steps}
		out = append(out, []mspec{{kind: "any", noPh: true, paths: p, steps: s}},
			[]mspec{{kind: "custom", ph: "const", paths: p, steps: s}},
			[]mspec{{kind: "type", typ: tyOf(a.steps), paths: p, steps: s}},
			[]mspec{{kind: "type", typ: "interface {}", paths: p, steps: s}},
			[]mspec{{kind: "any", ph: 0, lax: true, paths: p, steps: s}})
		if pairs {
			for _, b := range addrs[i+1:] {
				out = append(out, []mspec{{kind: "any", noPh: true, lax: true, paths: []string{a.path, b.path}, steps: [][]string{a.steps, b.steps}}},
					[]mspec{{kind: "custom", ph: "é", paths: p, steps: s}, {kind: "type", typ: tyOf(b.steps), lax: true, paths: []string{b.path}, steps: [][]string{b.steps}}})
			}
		}
	}
	return
}

func init() {
	register(&Property{
		ID:   "C16",
		Rule: "JSON (3 documents, MatchJSON and MatchStandaloneJSON) and YAML (2 documents): every matcher list {none, Any/Custom/Type/Type[any]/lax Any at every address, every pair of addresses} x every single change of the document (14 replacement values at every address, removed/added/swapped members and elements) - recorded and compared in both directions against a reference that applies the matchers to the value trees; YAML templates (comments, flow style, CRLF, multi-document, block scalars, anchors) x 22 flow and 6 block values, all ordered pairs",
		Enum: func(tier string, emit Emit) {
			thorough := tier == "thorough"
			for di, doc := range c16JSON {
				v, err := parseJ(doc)
				if err != nil {
					panic(err)
				}
				var addrs []yaddr
				for _, a := range v.addresses() {
					if len(addrs) < 100 && strings.Join(a, "") != "" {
						addrs = append(addrs, yaddr{jpath(a), a})
					}
				}
				tyOf := func(s []string) string {
					switch v.find(s).kind {
					case "object":
						return "map[string]interface {}"
					case "array":
						return "[]interface {}"
					case "string":
						return "string"
					case "number":
						return "float64"
					case "true", "false":
						return "bool"
					}
					return "string"
				}
				vs := variants(v, false)
				for li, ms := range c16Lists(addrs, tyOf, false, true) {
					for ai, api := range []string{"json", "sjson"} {
						if !thorough && len(ms) > 0 && len(ms[0].paths)+len(ms) > 2 && (li+ai+di)%4 != 0 {
							continue // pairs: quick explores each with one call, every second pair
						}
						emit(func() *Scenario {
							want, ok := applyAllJ(v, ms)
							var ps []c16pair
							for i, b := range vs {
								got, bok := applyAllJ(b, ms)
								txt := jtext(b)
								p := c16pair{desc: txt, bad: !bok}
								p.same = bok && ok && got.canon(true) == want.canon(true)
								switch i % 3 {
								case 0:
									p.b = txt
								case 1:
									p.b = []byte(txt)
								default:
									p.b = json.RawMessage(txt)
								}
								ps = append(ps, p)
							}
							for _, m := range ms {
								for _, s := range m.steps {
									if !simplePath(s) {
										for i := range ps {
											ps[i].free = true
										}
									}
								}
							}
							return c16Scenario(doc, api, doc, !ok, ms, ps)
						})
					}
				}
			}
			for _, doc := range c16YAML {
				ds, err := parseY(doc)
				if err != nil {
					panic(err)
				}
				v := ds[0]
				if ytext(v, "") != doc {
					panic(fmt.Sprintf("%q vs %q", ytext(v, ""), doc))
				}
				tyOf := func(s []string) string { return goType(v.find(s)) }
				vs := variants(v, true)
				for li, ms := range c16Lists(yamlAddresses(doc), tyOf, true, true) {
					if !thorough && len(ms) > 0 && len(ms[0].paths)+len(ms) > 2 && li%3 != 0 {
						continue
					}
					emit(func() *Scenario {
						apply := func(x *jv) (*jv, bool) {
							ok := true
							for _, m := range ms {
								rs, errs := m.applyY([]*jv{x})
								if len(errs) > 0 {
									ok = false
									continue
								}
								x = rs[0][0]
							}
							return x, ok
						}
						want, ok := apply(v)
						var ps []c16pair
						for i, b := range vs {
							got, bok := apply(b)
							txt := ytext(b, "")
							p := c16pair{desc: fmt.Sprintf("%q", txt), bad: !bok, b: txt}
							p.same = bok && ok && got.canon(false) == want.canon(false)
							if i%2 == 1 {
								p.b = []byte(txt)
							}
							ps = append(ps, p)
						}
						return c16Scenario(fmt.Sprintf("%q", doc), "yaml", doc, !ok, ms, ps)
					})
				}
			}
			for _, tp := range c16Templates {
				vals := append([]string{}, c16Flow...)
				if !tp.flow {
					vals = append(vals, c16Block...)
				}
				for ai := range vals {
					a := putTemplate(tp.text, vals[ai])
					for _, m := range []mspec{{kind: "none"}, {kind: "any", noPh: true}, {kind: "custom", ph: 7}, {kind: "any", ph: "x", lax: true}} {
						var ms []mspec
						if m.kind == "none" && strings.Contains(tp.text, "\r") {
							continue // documented limitation: CR at the end of a line
						}
						if m.kind != "none" {
							m.paths, m.steps = []string{tp.path}, [][]string{nil}
							ms = []mspec{m}
						}
						emit(func() *Scenario {
							var ps []c16pair
							for bi := range vals {
								if bi == ai {
									continue
								}
								b := putTemplate(tp.text, vals[bi])
								ps = append(ps, c16pair{b: b, desc: fmt.Sprintf("%q", b), same: ms != nil, free: ms != nil && strings.ContainsAny(tp.text, "&!")})
							}
							return c16Scenario(fmt.Sprintf("%q", a), "yaml", a, false, ms, ps)
						})
					}
					// a change elsewhere must be seen
					emit(func() *Scenario {
						ms := []mspec{{kind: "any", noPh: true, paths: []string{tp.path}, steps: [][]string{nil}}}
						var ps []c16pair
						for _, rep := range [][2]string{{"b", "bb"}, {"1", "11"}, {"x", "y"}, {"more", "most"}, {"d", "dd"}} {
							k := strings.Replace(tp.text, rep[0], rep[1], 1)
							i := strings.IndexByte(k, '@')
							if k == tp.text || i < 0 || strings.HasPrefix(tp.text, "- x") && rep[0] == "x" && false {
								continue
							}
							b := putTemplate(k, vals[ai])
							if strings.Contains(tp.path, "b") && rep[0] == "b" || strings.Contains(tp.text, "&x") && rep[0] == "x" || rep[0] == "1" && strings.Contains(tp.text, "k 1") || strings.Contains(tp.text, "# comm") && false {
								continue
							}
							if _, err := parseY(b); err != nil {
								continue
							}
							x, _ := parseY(putTemplate(tp.text, "1"))
							y, _ := parseY(putTemplate(k, "1"))
							if canonDocs(x) == canonDocs(y) {
								continue
							}
							ps = append(ps, c16pair{b: b, desc: fmt.Sprintf("%q", b), free: true})
						}
						return c16Scenario(fmt.Sprintf("elsewhere %q", a), "yaml", a, false, ms, ps)
					})
				}
			}
		},
	})
}
