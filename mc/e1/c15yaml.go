package e1

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/gkampitakis/go-snaps/snaps"
)

// documents where every matcher must work
var yamlPlainDocs = []string{
	"a: 1\n",
	"a: 1",
	"a: x\nb: 2\nc: 1.5\nd: true\ne: null\nf: -7\n",
	"a:\n  b:\n    c: deep\n    d: 1\n  e: x\nf: y\n",
	"a:\n  - 1\n  - two\n  - b: 3\n    c: four\n  - - x\n    - y\nb: z\n",
	"- 1\n- two\n- k: v\n  l: w\n- [1, 2]\n",
	"a: {b: 1, c: {d: x}}\ne: [1, two, [3]]\nf: g\n",
	"# head\na: 1 # one\n# mid\nb: 2\n\n# tail\n",
	"a: 'single'\nb: \"double\\n\\t\\\"q\\\"\"\nc: plain text with spaces\nd: ''\n",
	"user:\n  id: 6b1f5b3e\n  name: mock user\n  tags:\n    - x\n    - y\ncreated: abcdef\n",
	"items:\n- id: 1\n  v: a\n- id: 2\n  v: b\n",
	"empty: {}\nlist: []\nnil:\nlast: x\n",
}

// documents where reporting an error is acceptable, a silent change is not
var yamlOddDocs = []string{
	"a: |\n  line1\n  line2\nb: 1\n",
	"a: |-\n  l1\n\n  l2\nb: |+\n  keep\n\nc: >\n  folded\n  text\n\n  more\nd: >-\n  x\n  y\n",
	"a: |\n  x\n\n\nb: 2\n",
	"a: |2\n    indented\n  x\nb: 1\n",
	"a: plain\n  continued\n  text\nb: \"double\n  continued\"\nc: 'single\n  continued'\n",
	"base: &b\n  x: 1\n  y: 2\nuse: *b\nother: 3\n",
	"base: &b {x: 1}\nderived:\n  <<: *b\n  z: 2\nother: q\n",
	"a: &s text\nb: *s\nc: [*s, *s]\n",
	"a: !!str 1\nb: !custom x\nc: !!int 3\nd: !m {k: v}\n",
	"'quoted key': 1\n\"dq key\": 2\n'it''s': 3\n\"esc\\tkey\": 4\nb: 5\n",
	"a.b: 1\na: {b: 2}\n'x*': 3\n'[0]': 4\n'$d': 5\nb: 6\n",
	"1: one\ntrue: yes\nnull: n\n1.5: f\n-1: neg\nb: 2\n",
	"é: 1\n日本: {語: 2}\nb c: 3\nb-c: 4\n",
	"--- # first\na: 1\n---\nb: 2\n---\na: 3\nc: 4\n",
	"---\na: 1\nb: q\n...\n---\na: 2\nb: r\n",
	"a: 1\n---\n- 1\n- 2\n---\na: x\n",
	"a: 1\n---\n",
	"%YAML 1.1\n---\na: 1\nb: 2\n",
	"{a: 1, b: [x, {c: d}], 'e f': \"g\"}\n",
	"{\"a\": {\"b\": [1, \"two\", null, true]}, \"c\": \"d\"}",
	"{\n  a: 1,\n  b: 2, # c\n  c: [\n    1,\n    2\n  ]\n}\n",
	"a: 0x1F\nb: 0o17\nc: 1_000\nd: .inf\ne: .nan\nf: 1e3\ng: 2001-01-01\nh: 012\ni: ~\nj: Yes\n",
	"a: \"\"\nb: ' '\nc: '#x'\nd: 'a: b'\ne: \"true\"\nf: '1'\ng: \"null\"\nh: '---'\ni: '- x'\nj: '{'\n",
	"a:   1   \nb:\t2\n\n\nc: 3   # c\n\n",
	"a: 1\r\nb: 2\r\nc:\r\n  - x\r\n  - y\r\n",
	"a:\n    b:\n        c: 1\n        d:\n            - x\n            -   y: 1\n                z: 2\n",
	"a:\n- b:\n  - c:\n    - d: 1\n      e: 2\n    - f\n  g: h\n",
	"a: http://x.y/z?q=1#frag\nb: c:\\path\nd: \"a\\\\b\"\ne: 10:20:30\n",
	"text: |\n  ---\n  [TestM - 1]\nb: 1\n",
	"text: \"---\"\nlist:\n  - \"---\"\n  - '[TestM - 1]'\n",
	"a: [\n1,\n2]\nb: x\n",
	"a: null\nb:\nc: ~\nd: ''\n",
	"- a: 1\n  b: 2\n-\n  c: 3\n- d\n-\n- e: [1]\n",
	"k1: # comment\n  v1\nk2:\n  # comment\n  - a # c1\n  # c2\n  - b\nk3: x\n",
	"scalar\n",
	"\"just: a string\"\n",
	"- - - a\n    - b\n  - c\n- d\n",
	"a: 😀\nb: \"\\U0001F600\"\nc: \"\\u00e9\"\nd: \"\\x41\"\n",
	"long: " + strings.Repeat("word ", 100) + "end\nb: 1\n",
	"a: 'x'\n\n# c1\n\n# c2\nb: 'y' # c3\n",
	"x:\n  a: 1\ny:\n  a: 2\nz: [{a: 3}, {a: 4}]\n",
}

var yamlPlaceholders = []any{
	"<x>", "", "p", "é", "with space", "a: b", "- x", "#c", "x #c", "true", "1", "null", "~", "'q'", "\"dq\"", "\\", "a\"b'c", "{", "[", "]", "}", "*a", "&a", "!t", "%p", "@at", "`", "|", ">", "---", "...", ":", "- ", " lead", "trail ", "0x1F", "2001-01-01", "yes", ".inf", "<Any value>", "a,b", strings.Repeat("long ", 40) + "x",
	nil, true, false, 0, 7, -1, uint64(math.MaxUint64), int64(math.MinInt64), 1.5, -2.25,
	[]int{}, []int{1, 2}, []any{"a", []any{"b"}}, map[string]any{}, map[string]any{"k": "v"}, map[string]any{"k": map[string]any{"l": []int{1}}}, []any{map[string]any{"k": "v"}},
	"line1\nline2", "line1\nline2\n", "\n", "\nx", "a\n\nb", "tab\there", "x\n---\ny", "日本語", "%d", make(chan int), func() {},
}

func checkYAMLMatchers(doc string, ms []mspec, mustWork bool) error {
	docs, err := parseY(doc)
	if err != nil {
		return fmt.Errorf("bad test document: %w", err)
	}
	const spare = 64
	buf := make([]byte, len(doc), len(doc)+spare)
	copy(buf, doc)
	for i := len(doc); i < cap(buf); i++ {
		buf[:cap(buf)][i] = 0xAA
	}
	b := buf
	wants := [][]*jv{docs}
	for _, m := range ms {
		in := string(b)
		var got []any
		m.got = &got
		out, errs := m.matcher().YAML(b)
		if string(b) != in {
			return fmt.Errorf("%v modified its input %q to %q", m, in, b)
		}
		if string(buf) != doc || strings.Trim(string(buf[:cap(buf)][len(doc):]), "\xAA") != "" {
			return fmt.Errorf("%v modified the caller's bytes: %q", m, buf[:cap(buf)])
		}
		var next [][]*jv
		failing := false
		for _, w := range wants {
			rs, werrs := m.applyY(w)
			if len(werrs) > 0 {
				failing = true
				continue
			}
			next = append(next, rs...)
		}
		if len(errs) > 0 {
			if !failing && mustWork && !strings.Contains(m.String(), "chan") {
				return fmt.Errorf("%v reports %v", m, errs)
			}
			return nil
		}
		if failing {
			if m.kind == "type" && looseDoc(docs, m) {
				return nil
			}
			return fmt.Errorf("%v reports nothing, must fail; yields %q", m, out)
		}
		if m.kind == "custom" && len(got) > 0 {
			found := false
			for _, d := range docs {
				if t := d.find(m.steps[0]); t != nil {
					found = true
					if got[0] == nil && len(ms) == 1 && (t.s != "null" && t.s != "~" && t.s != "" || t.kind == "object" || t.kind == "array") {
						return fmt.Errorf("%v: callback received nothing, the value is %s", m, t.canon(true))
					}
					if k, ok := encodeY(got[0]); ok && !strings.Contains(doc, "*b") && !looseType(t) && reflect.TypeOf(got[0]) != nil && len(ms) == 1 && k.canon(true) != t.canon(true) && !strings.HasPrefix(t.s, "!!") && !strings.HasPrefix(t.s, "!") {
						return fmt.Errorf("%v: callback received %#v, the value is %s", m, got, t.canon(true))
					}
					break
				}
			}
			if !found && len(ms) == 1 {
				return fmt.Errorf("%v: callback called without a value: %#v", m, got)
			}
		}
		r, err := parseY(string(out))
		if err != nil {
			return fmt.Errorf("%v yields %q: %w", m, out, err)
		}
		ok := false
		for _, n := range next {
			ok = ok || canonDocs(r) == canonDocs(n)
		}
		if !ok {
			return fmt.Errorf("%v on %q yields %q:\n      is   %s\n      want %s", m, in, out, canonDocs(r), canonDocs(next[0]))
		}
		wants, b = [][]*jv{r}, out
	}
	return nil
}

func looseDoc(docs []*jv, m mspec) bool {
	for _, d := range docs {
		if t := d.find(m.steps[0]); t != nil && looseType(t) {
			return true
		}
	}
	return false
}

func yamlMatcherSpecs(p string, at []string, all bool) (out []mspec) {
	ps, st := []string{p}, [][]string{at}
	out = append(out, mspec{kind: "any", noPh: true, paths: ps, steps: st},
		mspec{kind: "custom", paths: ps, steps: st, cbErr: "no"})
	for _, ty := range []string{"string", "uint64", "int64", "float64", "bool", "map[string]interface {}", "[]interface {}"} {
		out = append(out, mspec{kind: "type", typ: ty, paths: ps, steps: st})
	}
	phs := yamlPlaceholders
	if !all {
		phs = []any{"é", "", 7, map[string]any{"k": nil}}
	}
	for _, ph := range phs {
		out = append(out, mspec{kind: "any", ph: ph, paths: ps, steps: st}, mspec{kind: "custom", ph: ph, paths: ps, steps: st})
	}
	return
}

type yaddr struct {
	path  string
	steps []string
}

func yamlAddresses(doc string) (out []yaddr) {
	docs, err := parseY(doc)
	if err != nil {
		panic(fmt.Sprintf("%q: %v", doc, err))
	}
	seen := map[string]bool{}
	for _, d := range docs {
		for _, a := range d.addresses() {
			if p := ypath(a, d); !seen[p] {
				seen[p] = true
				out = append(out, yaddr{p, a})
			}
		}
	}
	return
}

// replaceWild replaces everything a `..key` or `[*]`(.key) path selects.
func replaceWild(d *jv, at []string, recur, key string, ph *jv) (hits int) {
	if recur != "" {
		for i, k := range d.kids {
			if d.kind == "object" && d.keys[i] == recur {
				d.kids[i] = ph.clone()
				hits++
				continue
			}
			hits += replaceWild(k, nil, recur, "", ph)
		}
		return
	}
	t := d.find(at)
	if t == nil || t.kind != "array" {
		return 0
	}
	for i, k := range t.kids {
		if key == "" {
			t.kids[i] = ph.clone()
			hits++
			continue
		}
		if k.kind != "object" {
			continue
		}
		for j := range k.keys {
			if k.keys[j] == key {
				k.kids[j] = ph.clone()
				hits++
			}
		}
	}
	return
}

type wild struct {
	path       string
	at         []string
	recur, key string
}

func yamlWilds(doc string) (out []wild) {
	docs, err := parseY(doc)
	if err != nil {
		panic(err)
	}
	seen := map[string]bool{}
	add := func(w wild) {
		if !seen[w.path] {
			seen[w.path] = true
			out = append(out, w)
		}
	}
	for _, d := range docs {
		for _, a := range append([][]string{nil}, d.addresses()...) {
			if n := len(a); n > 0 && simplePath(a[n-1:]) {
				add(wild{path: "$.." + a[n-1], recur: a[n-1]})
			}
			if t := d.find(a); t.kind == "array" {
				p := ypath(a, d)
				add(wild{path: p + "[*]", at: a})
				add(wild{path: p + "[*].nope", at: a, key: "nope"})
				for _, k := range t.kids {
					if k.kind == "object" {
						for _, key := range k.keys {
							if simplePath([]string{key}) {
								add(wild{path: p + "[*]." + key, at: a, key: key})
							}
						}
					}
				}
			}
		}
	}
	add(wild{path: "$..nope", recur: "nope"})
	return
}

func checkYAMLWild(doc string, wd wild) error {
	for _, ph := range []any{"é", 7, map[string]any{"zk": "zv"}, "a: b"} {
		for _, m := range []mspec{{kind: "any", ph: ph}, {kind: "any", ph: ph, lax: true}, {kind: "custom", ph: ph}, {kind: "custom", ph: ph, lax: true}} {
			m.paths = []string{wd.path}
			docs, _ := parseY(doc)
			before := canonDocs(docs)
			pv, _ := encodeY(ph)
			hits := 0
			for _, d := range docs {
				hits += replaceWild(d, wd.at, wd.recur, wd.key, pv)
			}
			in := []byte(doc)
			out, errs := m.matcher().YAML(in)
			if string(in) != doc {
				return fmt.Errorf("%v modified the caller's bytes: %q", m, in)
			}
			if len(errs) > 0 {
				if hits == 0 && m.lax && !strings.Contains(wd.path, "[*].") && !strings.Contains(doc, "!m") {
					return fmt.Errorf("%v reports %v for a missing path", m, errs)
				}
				continue
			}
			if hits == 0 && !m.lax {
				return fmt.Errorf("%v reports nothing for a missing path", m)
			}
			r, err := parseY(string(out))
			if err != nil {
				return fmt.Errorf("%v yields %q: %w", m, out, err)
			}
			if got := canonDocs(r); got != canonDocs(docs) && !(hits == 0 && got == before) {
				return fmt.Errorf("%v yields %q\n   is   %s\n   want %s", m, out, got, canonDocs(docs))
			}
		}
	}
	return nil
}

var yamlOddPaths = []string{"", "$", "a", ".a", "$.", "$..", "$.a.", "$[", "$]", "$[]", "$[-1]", "$[*]", "$[0", "$[x]", "$['a']", "$.'a", "$.a'", "$.*", "$.a.*", "$ .a", "$.a[99999999999999999999]", "$.a[18446744073709551615]", "$$", "$.$", "$.\xff", "*", "$.a..b", "$.a[0][*]", "$[*][*]", "$[*].a"}

func checkYAMLOdd(doc, p string) error {
	docs, _ := parseY(doc)
	for _, m := range []mspec{{kind: "any", ph: "<p>"}, {kind: "custom", ph: "<p>"}, {kind: "type", typ: "string"}, {kind: "any", ph: "<p>", lax: true}} {
		m.paths = []string{p}
		out, errs := m.matcher().YAML([]byte(doc))
		if len(errs) > 0 {
			continue
		}
		r, err := parseY(string(out))
		if err != nil {
			return fmt.Errorf("%v yields %q: %w", m, out, err)
		}
		if !m.lax && canonDocs(r) == canonDocs(docs) {
			return fmt.Errorf("%v reports nothing and changes nothing: %q", m, out)
		}
	}
	return nil
}

func yamlThrough(doc string, lists [][]mspec, mustWork bool) *Scenario {
	return &Scenario{
		Desc: fmt.Sprintf("MatchYAML %s with %d matcher lists, first %v", q(doc), len(lists), lists[0]),
		Stages: []Stage{{Off, func(w *W) {
			c := w.cfg(snaps.Update(true))
			for i, ms := range lists {
				buf := []byte(doc)
				for _, o := range []op{{api: "yaml", vals: []any{buf}, ym: yms(ms)}, {api: "yaml", vals: []any{doc}, ym: yms(ms)}} {
					w.Test("TestM", func(t *T) { w.Do(t, func() { o.run(c, t) }) })
				}
				if string(buf) != doc {
					w.Note("bytes", fmt.Sprintf("matchers %v: caller's bytes became %q", lists[i], buf))
				}
			}
		}}},
		Check: func(r []StageResult, fail func(key, format string, args ...any)) {
			if b := r[0].Notes["bytes"]; b != "" {
				fail("bytes", "%s", b)
			}
			for i, ms := range lists {
				docs, _ := parseY(doc)
				wants := [][]*jv{docs}
				for _, m := range ms {
					var next [][]*jv
					for _, w := range wants {
						if rs, errs := m.applyY(w); len(errs) == 0 {
							next = append(next, rs...)
						}
					}
					wants = next
				}
				var bodies []string
				for k := 0; k < 2; k++ {
					c := r[0].Calls[2*i+k]
					o := c.Outcome()
					if len(wants) == 0 {
						if o != "failed" || len(c.Writes) > 0 {
							fail("matcher", "%v must fail: %s, writes %q", ms, o, c.Writes)
						}
						continue
					}
					if o == "failed" && !mustWork {
						continue
					}
					if o != "added" && o != "updated" && o != "passed" {
						fail("matcher", "%v: %s %q", ms, o, c.Errors())
						continue
					}
					es, _ := parseFile(r[0].FSAt(2*i + k)["s/f.snap"].Data)
					if len(es) != 1 {
						fail("matcher", "%v: stored file %s", ms, q(r[0].FSAt(2*i + k)["s/f.snap"].Data))
						continue
					}
					body := unesc(es[0].body)
					bodies = append(bodies, body)
					v, err := parseY(body)
					ok := err == nil
					if ok {
						ok = false
						for _, w := range wants {
							ok = ok || canonDocs(v) == canonDocs(w)
						}
					}
					if !ok {
						fail("matcher", "%v: stored %s (%v)", ms, q(body), err)
					}
					if strings.HasSuffix(doc, "\n") != strings.HasSuffix(body, "\n") {
						fail("matcher", "%v: final newline of %s not preserved: stored %s", ms, q(doc), q(body))
					}
				}
				if len(bodies) == 2 && bodies[0] != bodies[1] {
					fail("matcher", "%v: bytes stored %q, string stored %q", ms, bodies[0], bodies[1])
				}
			}
		},
	}
}

func yamlC15(thorough bool, emit Emit) {
	for k, pool := range [][]string{yamlPlainDocs, yamlOddDocs} {
		for _, doc := range pool {
			addrs := yamlAddresses(doc)
			for _, a := range addrs {
				emit(func() *Scenario {
					return matcherScenario(fmt.Sprintf("YAML %s at %s", q(doc), a.path), func() error {
						for _, m := range yamlMatcherSpecs(a.path, a.steps, true) {
							if err := checkYAMLMatchers(doc, []mspec{m}, k == 0); err != nil {
								return err
							}
						}
						return nil
					})
				})
			}
			emit(func() *Scenario {
				return matcherScenario(fmt.Sprintf("YAML %s wildcard and odd paths", q(doc)), func() error {
					for _, wd := range yamlWilds(doc) {
						if strings.Contains(doc, "&") {
							break
						}
						if err := checkYAMLWild(doc, wd); err != nil {
							return err
						}
					}
					for _, p := range yamlOddPaths {
						if err := checkYAMLOdd(doc, p); err != nil {
							return fmt.Errorf("path %q: %w", p, err)
						}
					}
					return nil
				})
			})
			few := addrs
			if len(few) > 8 && !thorough {
				few = few[:8]
			}
			for _, x := range few {
				emit(func() *Scenario {
					return matcherScenario(fmt.Sprintf("YAML %s pairs with first %s", q(doc), x.path), func() error {
						for _, y := range few {
							two := mspec{kind: "any", noPh: true, paths: []string{x.path, y.path}, steps: [][]string{x.steps, y.steps}}
							lists := [][]mspec{{two}}
							if strings.HasPrefix(y.path, x.path) || strings.HasPrefix(x.path, y.path) {
								// a path inside of another one: gone after the first replacement
								two.lax = true
								lists = append(lists, []mspec{two})
							}
							ms := mspec{kind: "any", noPh: true, lax: true, paths: []string{"$.nope", x.path, "$.nope[3].x"}, steps: [][]string{nil, x.steps, nil}}
							lists = append(lists, []mspec{ms})
							for _, m1 := range yamlMatcherSpecs(x.path, x.steps, false) {
								for _, m2 := range yamlMatcherSpecs(y.path, y.steps, false) {
									lists = append(lists, []mspec{m1, m2})
								}
							}
							for _, l := range lists {
								if err := checkYAMLMatchers(doc, l, k == 0); err != nil {
									return err
								}
							}
						}
						return nil
					})
				})
			}
			for lo := 0; lo < len(addrs); lo += 4 {
				emit(func() *Scenario {
					var lists [][]mspec
					for _, a := range addrs[lo:min(lo+4, len(addrs))] {
						for _, m := range yamlMatcherSpecs(a.path, a.steps, thorough) {
							if m.kind == "type" && strings.Contains(doc, "0x1F") {
								continue // parsers disagree about the types
							}
							lists = append(lists, []mspec{m})
						}
						for _, b := range addrs[:min(4, len(addrs))] {
							lists = append(lists, []mspec{{kind: "any", ph: "q", paths: []string{a.path}, steps: [][]string{a.steps}}, {kind: "any", noPh: true, lax: true, paths: []string{b.path}, steps: [][]string{b.steps}}})
						}
					}
					return yamlThrough(doc, lists, k == 0)
				})
			}
		}
	}
}
