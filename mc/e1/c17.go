package e1

import (
	"fmt"
	"slices"
	"strings"

	"github.com/gkampitakis/go-snaps/snaps"
)

const (
	c17JSON = `{"a":"s","n":1,"o":{"p":true,"q":null},"l":[1,{"m":"x"}]}`
	c17YAML = "a: s\nn: 1\no:\n  p: true\n  q: null\nl:\n  - 1\n  - m: x\nr: &r 1\nk: *r\n"
	c17Old  = `{"old":1}`
)

// c17Atoms are matchers over the address space of the document above.
func c17Atoms(yaml bool) (out []mspec) {
	num := "float64"
	if yaml {
		num = "uint64"
	}
	at := func(s ...string) []string { return s }
	mk := func(kind, typ string, ph any, lax bool, steps ...[]string) {
		m := mspec{kind: kind, typ: typ, ph: ph, lax: lax, noPh: ph == nil && kind == "any"}
		for _, s := range steps {
			m.paths = append(m.paths, c17Path(s, yaml))
			m.steps = append(m.steps, s)
		}
		out = append(out, m)
	}
	fail := func(m *mspec, msg string) { m.cbErr = msg }
	mk("any", "", nil, false, at("a"))
	mk("type", "string", nil, false, at("a"))
	mk("custom", "", "r", false, at("n"))
	mk("any", "", 5, false, at("l", "1", "m"), at("o"))
	mk("any", "", nil, false, at("zz"))
	mk("any", "", nil, true, at("zz"))
	mk("any", "", nil, true, at("zz"), at("a"))
	mk("any", "", nil, false, at("zz"), at("yy"))
	mk("any", "", nil, false, at("o", "zz"), at("l", "7"))
	mk("any", "", nil, true, at("o", "zz"), at("l", "7"), at("a", "b"))
	mk("any", "", nil, false, at("a", "b"), at("l", "0", "x"))
	mk("any", "", nil, false, at("o", "p"))
	mk("type", "string", nil, false, at("zz"))
	mk("type", "string", nil, true, at("zz"), at("l", "7"))
	mk("type", num, nil, false, at("a"))
	mk("type", num, nil, true, at("a"))
	mk("type", "bool", nil, false, at("n"), at("a"))
	mk("type", "string", nil, false, at("n"), at("zz"), at("o"))
	mk("type", "string", nil, false, at("o", "q"))
	mk("type", "[]interface {}", nil, false, at("l"))
	mk("type", "map[string]interface {}", nil, false, at("l"))
	mk("custom", "", nil, false, at("zz"))
	mk("custom", "", nil, true, at("zz"))
	mk("custom", "", nil, true, at("l", "7"))
	mk("custom", "", "x", false, at("a"))
	fail(&out[len(out)-1], "callback failed")
	mk("custom", "", "x", true, at("l", "0"))
	fail(&out[len(out)-1], "callback %d failed \"quoted\"\nsecond line")
	mk("custom", "", make(chan int), false, at("o", "p"))
	mk("any", "", func() {}, false, at("l", "0"))
	return
}

// c17Paths are single matchers with every sequence of up to n paths: existing values of two types, and
// missing paths of every kind.
func c17Paths(yaml bool, n int) (out []mspec) {
	paths := [][]string{{"a"}, {"l", "1", "m"}, {"n"}, {"zz"}, {"l", "7"}, {"a", "b"}, {"o", "q"}}
	if yaml { // an alias: its value is not a string, whether it is resolved or not
		paths = append(paths, []string{"k"})
	}
	if !yaml { // paths to a value that is computed, not stored
		seqs([][]string{{"n"}, {"a"}, {"zz"}, nil}, n, func(ps [][]string) {
			for _, lax := range []bool{false, true} {
				for _, m := range []mspec{{kind: "any", noPh: true, lax: lax}, {kind: "type", typ: "float64", lax: lax}} {
					for _, s := range ps {
						p := "l.#"
						if s != nil {
							p = jpath(s)
						}
						m.steps, m.paths = append(m.steps, s), append(m.paths, p)
					}
					out = append(out, m)
				}
			}
		})
	}
	seqs(paths, n, func(ps [][]string) {
		for _, lax := range []bool{false, true} {
			any, typ := mspec{kind: "any", noPh: true, lax: lax}, mspec{kind: "type", typ: "string", lax: lax}
			for _, s := range ps {
				any.steps, any.paths = append(any.steps, s), append(any.paths, c17Path(s, yaml))
				typ.steps, typ.paths = append(typ.steps, s), append(typ.paths, c17Path(s, yaml))
			}
			out = append(out, any, typ)
			if !lax || n == 2 { // a placeholder that cannot be encoded fails at every path that exists
				any.noPh, any.ph = false, make(chan int)
				out = append(out, any)
			}
		}
	})
	return
}

func c17Path(s []string, yaml bool) string {
	if !yaml {
		return jpath(s)
	}
	p := "$"
	for _, x := range s {
		if strings.Trim(x, "0123456789") == "" {
			p += "[" + x + "]"
		} else {
			p += "." + x
		}
	}
	return p
}

// c17Ref is the reference verdict of a list: the failing (matcher, path) pairs and, when there are none, the value.
func c17Ref(doc *jv, ms []mspec, yaml bool) (*jv, []string, bool) {
	var bad []string
	for _, m := range ms {
		var errs []string
		n := doc
		if yaml {
			var rs [][]*jv
			rs, errs = m.applyY([]*jv{doc})
			if len(errs) == 0 {
				n = rs[0][0]
			}
		} else {
			n, errs = m.apply(doc)
		}
		for _, p := range errs {
			bad = append(bad, fmt.Sprintf("match.%s(%q)", m.name(), p))
		}
		if len(errs) == 0 {
			doc = n
		} else if len(errs) < len(m.paths) {
			return nil, bad, false // partly applied: later matchers are not judged
		}
	}
	return doc, bad, true
}

func init() {
	register(&Property{
		ID:   "C17",
		Rule: "every list of 1 or 2 (thorough: 3) matchers out of 28 (succeeding, missing paths of every kind - member, index, member of a scalar or of an element -, with and without ErrOnMissingPath(false), wrong types, failing callbacks, unencodable placeholders and results), and single Any and Type matchers with every sequence of 2 and 3 paths (existing, of another type, missing in every way, computed and not replaceable, repeated), lax and not, with encodable and unencodable placeholders, for MatchJSON, MatchStandaloneJSON and MatchYAML (a document with an anchor and an alias), as the second of three calls, x {nothing recorded, other values recorded, same recorded} x {default, UPDATE_SNAPS=true, CI, Update(true), Update(false)}: signals, the matchers and paths named, writes, and the slots of all three calls compared with the reference",
		Enum: func(tier string, emit Emit) {
			yes, no := true, false
			type mode struct {
				m   Mode
				opt *bool
			}
			modes := []mode{{Off, nil}, {Mode{Update: "true", NoColor: true}, nil}, {Mode{CI: true, NoColor: true}, nil}, {Off, &yes}, {Mode{Update: "true", NoColor: true}, &no}}
			for _, api := range []string{"json", "sjson", "yaml"} {
				yaml := api == "yaml"
				atoms := c17Atoms(yaml)
				var doc *jv
				var txt string
				if yaml {
					ds, err := parseY(c17YAML)
					if err != nil {
						panic(err)
					}
					doc, txt = ds[0], c17YAML
				} else {
					v, err := parseJ(c17JSON)
					if err != nil {
						panic(err)
					}
					doc, txt = v, c17JSON
				}
				single := func(n int) (chunks [][][]mspec) {
					for i, m := range c17Paths(yaml, n) {
						if i%30 == 0 {
							chunks = append(chunks, nil)
						}
						chunks[i/30] = append(chunks[i/30], []mspec{m})
					}
					return
				}
				pairs, triples := single(2), single(3)
				for mi, md := range modes {
					for _, state := range []string{"none", "other", "same"} {
						cs := pairs
						if tier == "thorough" || mi == 0 && state == "none" {
							cs = append(slices.Clone(pairs), triples...)
						}
						for _, ls := range cs {
							emit(func() *Scenario { return c17Scenario(api, doc, txt, md.m, md.opt, state, ls) })
						}
						for i := range atoms {
							var lists [][]mspec
							lists = append(lists, []mspec{atoms[i]})
							for j := range atoms {
								lists = append(lists, []mspec{atoms[i], atoms[j]})
							}
							chunks := [][][]mspec{lists}
							if tier == "thorough" {
								for j := range atoms {
									var l3 [][]mspec
									for k := range atoms {
										l3 = append(l3, []mspec{atoms[i], atoms[j], atoms[k]})
									}
									chunks = append(chunks, l3)
								}
							}
							for _, ls := range chunks {
								emit(func() *Scenario { return c17Scenario(api, doc, txt, md.m, md.opt, state, ls) })
							}
						}
					}
				}
			}
		},
	})
}

func c17Scenario(api string, doc *jv, txt string, m Mode, opt *bool, state string, lists [][]mspec) *Scenario {
	yaml := api == "yaml"
	plain := func(v string) op { return op{api: api, vals: []any{v}} }
	with := func(ms []mspec) op {
		o := plain(txt)
		if yaml {
			o.ym = yms(ms)
		} else {
			o.jm = jms(ms)
		}
		return o
	}
	name := func(i int) string { return fmt.Sprintf("Test%d", i) }
	conf := func(w *W, opt *bool) *snaps.Config {
		o := []func(*snaps.Config){snaps.Dir(w.S())}
		if api != "sjson" {
			o = append(o, snaps.Filename("f"))
		}
		if opt != nil {
			o = append(o, snaps.Update(*opt))
		}
		return snaps.WithConfig(o...)
	}
	on := "none"
	if opt != nil {
		on = fmt.Sprint(*opt)
	}
	return &Scenario{
		Desc: fmt.Sprintf("%s %v option %s recorded %s, %d lists, first %v", api, m, on, state, len(lists), lists[0]),
		Stages: []Stage{
			{Off, func(w *W) {
				c := conf(w, nil)
				if state == "none" {
					return
				}
				for i, ms := range lists {
					w.Test(name(i), func(t *T) {
						w.Do(t, func() { plain(`{"first":1}`).run(c, t) })
						if state == "other" {
							w.Do(t, func() { plain(c17Old).run(c, t) })
						} else {
							w.Do(t, func() { with(ms).run(c, t) })
						}
						w.Do(t, func() { plain(`{"third":3}`).run(c, t) })
					})
				}
			}},
			{m, func(w *W) {
				c := conf(w, opt)
				for i, ms := range lists {
					w.Test(name(i), func(t *T) {
						w.Do(t, func() { plain(`{"first":1}`).run(c, t) })
						w.Do(t, func() { with(ms).run(c, t) })
						w.Do(t, func() { plain(`{"third":3}`).run(c, t) })
					})
				}
			}},
		},
		Check: func(r []StageResult, fail func(key, format string, args ...any)) {
			create, rewrite := permitted(m, opt)
			slot := func(fs Snap, i, k int) (string, bool) {
				if api == "sjson" {
					f, ok := fs[fmt.Sprintf("s/%s_%d.snap.json", name(i), k)]
					return f.Data, ok
				}
				es, _ := parseFile(fs["s/f.snap"].Data)
				for _, e := range es {
					if e.id == fmt.Sprintf("%s - %d", name(i), k) {
						return unesc(e.body), true
					}
				}
				return "", false
			}
			for i, ms := range lists {
				want, bad, judged := c17Ref(doc, ms, yaml)
				cs := r[1].Calls[3*i : 3*i+3]
				outer := "passed"
				if state == "none" {
					outer = "failed"
					if create {
						outer = "added"
					}
				}
				for _, k := range []int{0, 2} {
					if o := cs[k].Outcome(); o != outer {
						fail("neighbour", "list %v: call %d %s, want %s", ms, k+1, o, outer)
					}
				}
				c := cs[1]
				if len(bad) > 0 {
					if c.Outcome() != "failed" {
						fail("signal", "list %v: %s, must fail with %q", ms, c.Outcome(), bad)
						continue
					}
					if len(c.Writes) > 0 {
						fail("wrote", "list %v failed and wrote %q", ms, c.Writes)
					}
					msg := c.Errors()[0]
					rest := msg
					for _, b := range bad {
						j := strings.Index(rest, b)
						if j < 0 {
							fail("names", "list %v: %s is not named in %q", ms, b, msg)
							break
						}
						rest = rest[j+len(b):]
					}
					if n := strings.Count(msg, "match."); judged && n != len(bad) {
						fail("names", "list %v: %d matchers failed, the message names %d: %q", ms, len(bad), n, msg)
					}
					a, aok := slot(r[1].Before, i, 2)
					b, bok := slot(r[1].FSAt(3*i+2), i, 2)
					if a != b || aok != bok {
						fail("slot", "list %v failed; its slot changed from %q to %q", ms, a, b)
					}
					if state == "none" {
						if _, ok := slot(r[1].FSAt(3*i+2), i, 3); ok != create {
							fail("slot", "list %v failed; the third call did not use slot 3", ms)
						}
					}
					continue
				}
				exp := "passed"
				switch {
				case state == "none":
					exp = outer
				case state == "other" && rewrite:
					exp = "updated"
				case state == "other":
					exp = "failed"
				}
				if o := c.Outcome(); o != exp {
					fail("signal", "list %v: %s, want %s: %q", ms, o, exp, c.Errors())
					continue
				}
				if exp == "failed" && strings.Contains(c.Errors()[0], "match.") {
					fail("names", "list %v has no failing matcher: %q", ms, c.Errors())
				}
				if exp == "added" || exp == "updated" || state == "same" {
					got, _ := slot(r[1].FSAt(3*i+2), i, 2)
					ok := false
					if yaml {
						ds, err := parseY(got)
						ok = err == nil && len(ds) == 1 && ds[0].canon(false) == want.canon(false)
					} else {
						v, err := parseJ(got)
						ok = err == nil && v.canon(true) == want.canon(true)
					}
					if !ok {
						fail("value", "list %v stored %q", ms, got)
					}
				}
			}
		},
	}
}
