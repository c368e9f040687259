package e1

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/gkampitakis/go-snaps/snaps"
	"github.com/tidwall/gjson"
)

var c15Docs = []string{
	`{"a":1}`,
	`{"a":"a rather long string value that is longer than any placeholder used here","b":"s","c":12345,"d":-1.5e3,"e":true,"f":null,"g":[],"h":{}}`,
	`{"b":[1,2,3],"a":{"b":[{"a":1},{"a":"x","b":[[1],["z"]]}],"a":{"a":{"a":false}}},"aa":"aa","ab":["a"]}`,
	`[1,"two",[3,[4,"five"]],{"k":"v"},null]`,
	`[{"id":"6b1f5b3e-1111","name":"n1"},{"id":"6b1f5b3e-2222","name":"n2","tags":["x","y"]}]`,
	`{"0":"zero","1":["one",{"0":"deep"}],"00":"x","-1":"minus","10":"ten"}`,
	`{"a.b":1,"a":{"b":2},"a*":3,"*":"star","?":"q","a?c":4,"|":"pipe","a|b":{"c":5}}`,
	`{"#":"hash","@this":"at","@":1,"!x":"bang","[0]":"br","{k}":"cb","(":"p","\"q\"":"quote","b\\s":"bs","<t>":"lt","=":"eq","%":"pc","~":"ti","a\\.b":"esc"}`,
	`{"é":"accent","日本":{"語":1},"\u00fc":"esc-key","sp ace":"sp","tab\t":"t","new\nline":"n","a-b":"dash","a_b":"us","a:b":"colon",":c":"leading colon","$":"dollar","a/b":"slash","'":"sq"}`,
	`{"x":"\u0061\"\\\/é\ud83d\ude00","y":"}],{","z":"\\","w":"a:\"b\"","v":["]","[","{\"a\":1}"]}`,
	`{"n":{"n":{"n":{"n":{"n":{"n":{"n":[[[[{"n":"deep"}]]]]}}}}}}}`,
	"{ \"a\" :\t1 ,\r\n \"b\" : [ 1 , { \"c\" : \"d\" } , [ ] ] , \"e\" : { } , \"f\":\"x\" }\n",
	"\n[ \"a\" ,\n{ \"k\" : null } ]  ",
	`{"dup":{"v":"same"},"dup2":{"v":"same"},"dup3":["same","same"],"same":"same"}`,
	`{"big":123456789012345678901234567890,"small":1e-400,"exp":1E5,"neg":-0,"z":0.10}`,
	`{"empty":"","":"empty key","sp":" ","o":{"":{"x":1}}}`,
}

var c15Placeholders = []any{
	"<x>", "", "p", "é", `a"b`, `\`, "<>&", "\n", "日本語", strings.Repeat("long ", 60), strings.Repeat("é", 100), "null", "1", "[TestA - 1]", "---",
	nil, true, false, 0, 1, -1, int8(-8), int16(16), int32(32), int64(math.MinInt64), uint(7), uint8(8), uint16(16), uint32(32), uint64(math.MaxUint64), 1.5, 1e21, -1e-7, float32(0.5), math.NaN(), math.Inf(-1), float32(math.Inf(1)),
	[]int{}, []any{1, "a", nil, map[string]any{"k": "v"}}, map[string]any{}, map[string]any{"k": []int{1}}, struct {
		A string `json:"a"`
	}{"v"}, json.RawMessage(`{"raw":[1, 2]}`), json.RawMessage(`{bad`), json.Number("1.50"), []byte("bytes"), make(chan int), func() {}, "%d %s", "\u2028",
}

// checkJSONMatchers applies the matchers one after the other, as a call does, and compares with the reference.
func checkJSONMatchers(doc string, ms []mspec, mustWork bool) error {
	want, err := parseJ(doc)
	if err != nil {
		return fmt.Errorf("bad test document: %w", err)
	}
	const spare = 64
	buf := make([]byte, len(doc), len(doc)+spare)
	copy(buf, doc)
	for i := range buf[len(doc):cap(buf)] {
		buf[:cap(buf)][len(doc)+i] = 0xAA
	}
	b := buf
	for _, m := range ms {
		var got []any
		m.got = &got
		in := append([]byte{}, b...)
		out, errs := m.matcher().JSON(b)
		if string(b) != string(in) {
			return fmt.Errorf("%v modified its input %q to %q", m, in, b)
		}
		if string(buf[:cap(buf)][:len(doc)]) != doc || strings.Trim(string(buf[:cap(buf)][len(doc):]), "\xAA") != "" {
			return fmt.Errorf("%v modified the caller's bytes: %q", m, buf[:cap(buf)])
		}
		n, werrs := m.apply(want)
		if m.kind == "custom" && m.steps[0] != nil {
			if t := want.find(m.steps[0]); t != nil {
				if len(got) > 1 || len(got) == 1 && !reflect.DeepEqual(got[0], t.plain()) {
					return fmt.Errorf("%v: callback received %#v, the value is %#v", m, got, t.plain())
				}
			} else if len(got) > 0 {
				return fmt.Errorf("%v: callback called without a value: %#v", m, got)
			}
		}
		if len(errs) > 0 {
			if len(werrs) == 0 && mustWork {
				return fmt.Errorf("%v reports %v", m, errs)
			}
			return nil // the call fails
		}
		if len(werrs) > 0 {
			return fmt.Errorf("%v reports nothing, must fail for %q", m, werrs)
		}
		r, err := parseJ(string(out))
		if err != nil {
			return fmt.Errorf("%v yields %q: %w", m, out, err)
		}
		if r.canon(false) != n.canon(false) {
			return fmt.Errorf("%v on %q yields %q", m, in, out)
		}
		want, b = n, out
	}
	return nil
}

// checkOddPath: a path that is not an address either fails or replaces values that gjson resolves it to.
func checkOddPath(doc string, m mspec) error {
	buf := []byte(doc)
	r := gjson.Get(doc, m.paths[0])
	out, errs := m.matcher().JSON(buf)
	if string(buf) != doc {
		return fmt.Errorf("%v modified the caller's bytes", m)
	}
	if len(errs) > 0 {
		return nil
	}
	a, _ := parseJ(doc)
	b, err := parseJ(string(out))
	if err != nil {
		return fmt.Errorf("%v yields %q: %w", m, out, err)
	}
	ph, _ := encodeJ(m.ph)
	type pair struct{ a, b *jv }
	var diffs []pair
	var rec func(a, b *jv) bool
	rec = func(a, b *jv) bool {
		if a.canon(false) == b.canon(false) {
			return true
		}
		if b.canon(false) == ph.canon(false) {
			diffs = append(diffs, pair{a, b})
			return true
		}
		if a.kind != b.kind || len(a.kids) != len(b.kids) || strings.Join(a.keys, "\x00") != strings.Join(b.keys, "\x00") || a.kind != "object" && a.kind != "array" {
			return false
		}
		for i := range a.kids {
			if !rec(a.kids[i], b.kids[i]) {
				return false
			}
		}
		return true
	}
	if !rec(a, b) {
		return fmt.Errorf("%v yields %q: changes more than the targeted values", m, out)
	}
	switch {
	case !r.Exists():
		if len(diffs) > 0 || !m.lax {
			return fmt.Errorf("%v: path does not exist, yields %q without an error", m, out)
		}
	case len(diffs) == 0 && r.Raw == "[]" && len(r.Indexes) == 0 && strings.Contains(m.paths[0], "#"):
		// targets no value
	case len(diffs) == 0:
		if v, err := parseJ(r.Raw); err != nil || v.canon(false) != ph.canon(false) {
			return fmt.Errorf("%v: the value %s is not replaced and no error is reported: %q", m, r.Raw, out)
		}
	case len(r.Indexes) == 0 && len(diffs) != 1:
		return fmt.Errorf("%v replaces %d values: %q", m, len(diffs), out)
	case len(r.Indexes) == 0:
		if v, err := parseJ(r.Raw); err != nil || v.canon(false) != diffs[0].a.canon(false) {
			return fmt.Errorf("%v replaces %s instead of %s: %q", m, diffs[0].a.canon(false), r.Raw, out)
		}
	case len(diffs) > len(r.Indexes):
		return fmt.Errorf("%v replaces %d of %d values: %q", m, len(diffs), len(r.Indexes), out)
	}
	return nil
}

var oddPaths = []string{
	"", ".", "..", "...", "a.", ".a", "a..b", "*", "a*", "?", "??", "a?", "*.b", "b.*", "#", "b.#", "b.#.a", "#.id", "#.name", "#.tags", "#.tags.#", "#.tags.0", `#(id=="6b1f5b3e-1111")`, `#(id=="6b1f5b3e-1111").name`, `#(name%"n*")#`, `#(name%"n*")#.id`, `#(name=="zz").id`,
	"@this", "@this.a", "a|@this", "a|b", "b|0", "b|#", "@reverse", "@reverse.0", "b.@reverse", "b.@reverse.0", "@values", "@keys", "@flatten", "@ugly", "@pretty", "@valid", "@tostr", "@fromstr", "@join", "@group", "@dig:a",
	"{a,b}", "[a,b]", "{a}", "[a]", `{"x":a}`, "[a].0", "{a}.a", "!true", `!"x"`, "!1", "..0", "..#", "..0.id", "-1", "0.-1", "b.-1", ":0", "b.:0", ":a", "a:b", ":c", "-", "a-b", "\\a", "\\", "a\\", "\\.", "\\\\", "00", "1e0", "0x0", "+0", " 0", "0 ", " a", "a ", "99999999999999999999", "18446744073709551616", "A", "é", "日本", "日本.語", "\xff", "a\x00", "$", "$.a", "'a'", `"a"`, "[0]", "0.0", "1.1.0", "2.1.1", "3.k", "length", "\u00fc", "sp ace", "tab\t", "new\nline", "a/b", "'", "~", "%", "=", "<t>", "(", "a.b", "a*", "n.n.n.n.n.n.n.0.0.0.0.n", "dup*.v", "o..x", "@dig:v", "x.y.z", "g.0", "h.a", "a.a.a.a", "b.0.0",
}

// yamlPart is filled in by c15yaml.go
func matcherScenario(desc string, run func() error) *Scenario {
	return &Scenario{
		Desc: desc,
		Stages: []Stage{{Off, func(w *W) {
			t := w.T("TestM")
			w.Do(t, func() {
				if err := run(); err != nil {
					w.Note("bad", err.Error())
				}
			})
		}}},
		Check: func(r []StageResult, fail func(key, format string, args ...any)) {
			if c := r[0].Calls[0]; c.Panic != "" {
				fail("matcher", "panic %s", c.Panic)
			}
			if b := r[0].Notes["bad"]; b != "" {
				fail("matcher", "%s", b)
			}
		},
	}
}

func jsonMatcherSpecs(v *jv, at []string, all bool) (out []mspec) {
	p, st := []string{jpath(at)}, [][]string{at}
	out = append(out, mspec{kind: "any", noPh: true, paths: p, steps: st})
	out = append(out, mspec{kind: "custom", paths: p, steps: st, cbErr: "no"})
	out = append(out, mspec{kind: "custom", paths: p, steps: st, ph: func(v any) any { return v }})
	for _, ty := range []string{"string", "float64", "bool", "map[string]interface {}", "[]interface {}"} {
		out = append(out, mspec{kind: "type", typ: ty, paths: p, steps: st})
	}
	phs := c15Placeholders
	if !all {
		phs = []any{"é", "", 7, map[string]any{"k": nil}}
	}
	for _, ph := range phs {
		out = append(out, mspec{kind: "any", ph: ph, paths: p, steps: st}, mspec{kind: "custom", ph: ph, paths: p, steps: st})
	}
	return
}

// throughScenario runs matchers through the Match* calls and checks what is stored.
func throughScenario(doc string, lists [][]mspec) *Scenario {
	return &Scenario{
		Desc: fmt.Sprintf("MatchJSON/MatchStandaloneJSON %s with %d matcher lists, first %v", q(doc), len(lists), lists[0]),
		Stages: []Stage{{Off, func(w *W) {
			c := w.cfg(snaps.Update(true))
			for i, ms := range lists {
				buf := []byte(doc)
				for _, o := range []op{{api: "json", vals: []any{buf}, jm: jms(ms)}, {api: "sjson", vals: []any{buf}, jm: jms(ms)}, {api: "sjson", vals: []any{doc}, jm: jms(ms)}} {
					w.Test("TestM", func(t *T) { w.Do(t, func() { o.run(c, t) }) })
				}
				if string(buf) != doc {
					w.Note("bytes", fmt.Sprintf("matchers %v: caller's bytes became %q", lists[i], buf))
				}
			}
		}}},
		Check: func(r []StageResult, fail func(key, format string, args ...any)) {
			if b := r[0].Notes["bytes"]; b != "" {
				fail("bytes", "%s", b)
			}
			for i, ms := range lists {
				want, _ := parseJ(doc)
				simple := true
				var bad []string
				for _, m := range ms {
					n, errs := m.apply(want)
					bad = append(bad, errs...)
					if len(errs) == 0 {
						want = n
					}
					for _, s := range m.steps {
						simple = simple && simplePath(s)
					}
				}
				for k := 0; k < 3; k++ {
					c := r[0].Calls[3*i+k]
					o := c.Outcome()
					if len(bad) > 0 {
						if o != "failed" || len(c.Writes) > 0 {
							fail("matcher", "%v must fail: %s, writes %q", ms, o, c.Writes)
						}
						continue
					}
					if o == "failed" && !simple {
						continue
					}
					if o != "added" && o != "updated" && o != "passed" {
						fail("matcher", "%v: %s %q", ms, o, c.Errors())
						continue
					}
					fs := r[0].FSAt(3*i + k)
					body := fs["s/f_1.snap.json"].Data
					if k == 0 {
						es, _ := parseFile(fs["s/f.snap"].Data)
						if len(es) != 1 {
							fail("matcher", "%v: stored file %s", ms, q(fs["s/f.snap"].Data))
							continue
						}
						body = es[0].body
					}
					v, err := parseJ(body)
					if err != nil || v.canon(true) != want.canon(true) {
						fail("matcher", "%v: stored %s (%v)", ms, q(body), err)
					}
				}
			}
		},
	}
}

func init() {
	register(&Property{
		ID: "C15",
		Rule: "JSON: 16 documents (all value kinds, keys of every escape class, arrays, depth 12, spaced presentations) x every address x {Any, Type of 5 types, Custom} x 49 placeholders/results (shorter, longer, needing escapes, non-string, unencodable); all ordered pairs (thorough: triples) of addresses as one matcher and as a sequence; 120 odd paths x {Any, Custom, Type of 5 types}; " +
			"caller's buffer (including spare capacity) compared after every application; the same through MatchJSON/MatchStandaloneJSON. YAML: 12 plain and 41 odd documents (block scalars, anchors, tags, quoted/unicode/numeric keys, flow style, comments, CRLF, multi-document streams) x every address x {Any, Type of 7 types, Custom} x 69 placeholders, `..key`/`[*]` paths, 30 malformed paths, ordered pairs of addresses, and the same through MatchYAML (stored text, final newline, bytes vs string); results read back with an independent YAML parser",
		Assume: []string{"an address is written in the escaped gjson syntax / goccy YAMLPath syntax; errors are accepted where a key needs escaping, never silent changes", "YAML: an address present in several documents of a stream may be replaced in the first or in all of them; anchored nodes: errors accepted", "YAML documents the repository's YAML parser (goccy/go-yaml) itself misreads (empty leading documents, explicit `? key` entries) and the scalars `?` and `1e3`, which parsers disagree about, are not enumerated"},
		Enum: func(tier string, emit Emit) {
			thorough := tier == "thorough"
			for _, doc := range c15Docs {
				v, err := parseJ(doc)
				if err != nil {
					panic(err)
				}
				addrs := v.addresses()
				for _, at := range addrs {
					emit(func() *Scenario {
						return matcherScenario(fmt.Sprintf("%s at %q", q(doc), jpath(at)), func() error {
							for _, m := range jsonMatcherSpecs(v, at, true) {
								if err := checkJSONMatchers(doc, []mspec{m}, simplePath(at)); err != nil {
									return err
								}
							}
							return nil
						})
					})
				}
				// pairs of addresses: one matcher with two paths, two matchers in sequence
				if len(addrs) > 14 && !thorough {
					addrs = addrs[:14]
				}
				for _, x := range addrs {
					emit(func() *Scenario {
						return matcherScenario(fmt.Sprintf("%s pairs with first %q", q(doc), jpath(x)), func() error {
							for _, y := range addrs {
								simple := simplePath(x) && simplePath(y)
								two := mspec{kind: "any", noPh: true, paths: []string{jpath(x), jpath(y)}, steps: [][]string{x, y}}
								lax := two
								lax.lax = true
								ty := two
								ty.kind, ty.typ = "type", "string"
								lists := [][]mspec{{two}, {lax}, {ty}}
								for _, m1 := range jsonMatcherSpecs(v, x, false) {
									for _, m2 := range jsonMatcherSpecs(v, y, false) {
										lists = append(lists, []mspec{m1, m2})
									}
								}
								if thorough {
									for _, z := range addrs {
										for _, m := range jsonMatcherSpecs(v, z, false)[:4] {
											lists = append(lists, []mspec{{kind: "any", ph: "é", paths: []string{jpath(x)}, steps: [][]string{x}}, m, lax},
												[]mspec{lax, {kind: "custom", ph: 1, paths: []string{jpath(z)}, steps: [][]string{z}, lax: true}, m})
										}
									}
								}
								for _, l := range lists {
									if err := checkJSONMatchers(doc, l, simple); err != nil {
										return err
									}
								}
							}
							return nil
						})
					})
				}
				emit(func() *Scenario {
					return matcherScenario(fmt.Sprintf("%s odd paths", q(doc)), func() error {
						for _, p := range oddPaths {
							for _, m := range []mspec{
								{kind: "any", ph: "<p>"}, {kind: "any", ph: "é"}, {kind: "any", ph: "<p>", lax: true}, {kind: "custom", ph: "<p>"}, {kind: "custom", ph: []any{1.0}, lax: true},
								{kind: "type", typ: "string", ph: "<Type:string>"}, {kind: "type", typ: "float64", ph: "<Type:float64>"}, {kind: "type", typ: "bool", ph: "<Type:bool>", lax: true},
								{kind: "type", typ: "map[string]interface {}", ph: "<Type:map[string]interface {}>"}, {kind: "type", typ: "[]interface {}", ph: "<Type:[]interface {}>"},
							} {
								m.paths = []string{p}
								if err := checkOddPath(doc, m); err != nil {
									return fmt.Errorf("path %q: %w", p, err)
								}
							}
						}
						return nil
					})
				})
				for lo := 0; lo < len(addrs); lo += 4 {
					emit(func() *Scenario {
						var lists [][]mspec
						for _, at := range addrs[lo:min(lo+4, len(addrs))] {
							for _, m := range jsonMatcherSpecs(v, at, thorough) {
								lists = append(lists, []mspec{m})
							}
							for _, y := range addrs[:min(5, len(addrs))] {
								lists = append(lists, []mspec{{kind: "any", ph: "q", paths: []string{jpath(at)}, steps: [][]string{at}}, {kind: "any", noPh: true, lax: true, paths: []string{jpath(y)}, steps: [][]string{y}}})
							}
						}
						return throughScenario(doc, lists)
					})
				}
			}
			yamlC15(thorough, emit)
		},
	})
}
