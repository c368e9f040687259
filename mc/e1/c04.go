package e1

import (
	"fmt"
	"strings"

	"github.com/gkampitakis/go-snaps/snaps"
)

func init() {
	register(&Property{
		ID: "C04",
		Rule: "all (old,new) assignments of a value pool to 3 slots of 2 tests in one file (plus an untouched foreign entry), recorded, updated (UPDATE_SNAPS=true or Update(true)), then replayed by CI and off-CI processes; " +
			"file compared entry by entry with the model after every call; JSON/YAML/standalone updates with shorter/longer values; partial reruns (only one test updates)",
		Assume: []string{"no carriage return at the end of a line for multi-entry files (documented limitation)"},
		Enum: func(tier string, emit Emit) {
			pool := []string{"a", "---\n/-/-/-/\n", "x\ny\nlong line " + strings.Repeat("z", 200), "[TestA - 2]\n---", "[TestB - 1]\nq\n---\n\n[TestB - 1]\nz"}
			if tier == "thorough" {
				pool = append(pool, "", "\xff\n\n")
			}
			upd := func(desc string, old, new []exe, m Mode, opts ...func(*snaps.Config)) {
				emit(func() *Scenario { return updateScenario(desc, old, new, m, opts...) })
			}
			vecs := [][]string{}
			seqs(pool, 3, func(v []string) { vecs = append(vecs, v) })
			mk := func(v []string) []exe {
				return []exe{{"TestA", []op{snap(v[0]), snap(v[1])}}, {"TestB", []op{snap(v[2])}}}
			}
			for i, o := range vecs {
				for k, n := range vecs {
					if tier != "thorough" && (i*7+k)%5 != 0 && !(o[0] == n[0] && o[2] == n[2]) {
						continue
					}
					m := Upd
					var opts []func(*snaps.Config)
					if (i+k)%3 == 0 {
						m, opts = Off, []func(*snaps.Config){snaps.Update(true)}
					}
					upd(fmt.Sprintf("update %q -> %q", o, n), mk(o), mk(n), m, opts...)
				}
			}
			// all pairs of single values over the near-collision pool
			for _, a := range textPool {
				for _, b := range textPool {
					upd(fmt.Sprintf("update pair %s -> %s", q(a), q(b)),
						[]exe{{"TestA", []op{snap("g"), snap(a), ssnap(a)}}, {"TestB", []op{snap("[TestA - 2]\nx")}}},
						[]exe{{"TestA", []op{snap("g"), snap(b), ssnap(b)}}, {"TestB", []op{snap("[TestA - 2]\nx")}}}, Upd)
				}
			}
			for _, a := range textPoolBig {
				for _, b := range append([]string{"", "s"}, textPoolBig...) {
					upd("update big", []exe{{"TestA", []op{snap(a), ssnap(a), snap("t")}}}, []exe{{"TestA", []op{snap(b), ssnap(b), snap("t")}}}, Upd)
					upd("update big", []exe{{"TestA", []op{snap(b), ssnap(b), snap("t")}}}, []exe{{"TestA", []op{snap(a), ssnap(a), snap("t")}}}, Upd)
				}
			}
			// mixed APIs
			mixed := []op{jsn(`{"a":1}`), jsn(`{"a":[1,2,3],"b":"---"}`), jsn(`"x"`), yml("a: 1\n"), yml("a: 1\n---\nb: 2"), yml("[TestA - 1]"), snap("v"), snap("---", "/-/-/-/")}
			like := func(o op) []op {
				var out []op
				for _, m := range mixed {
					if m.api == o.api {
						out = append(out, m)
					}
				}
				return out
			}
			for _, x := range mixed {
				for _, y := range mixed {
					for _, x2 := range like(x) {
						for _, y2 := range like(y) {
							upd("mixed", []exe{{"TestA", []op{x, y, snap("k")}}, {"TestB", []op{y, x}}}, []exe{{"TestA", []op{x2, y2, snap("k")}}, {"TestB", []op{y2, x}}}, Upd)
						}
					}
				}
			}
			js := []string{`{"a":1}`, `[]`, `{"a":[1,2,{"b":"` + strings.Repeat("z", 500) + `"}]}`, `"x"`, `null`}
			for _, a := range js {
				for _, b := range js {
					upd("standalone json", []exe{{"TestA", []op{sjson(a), sjson("1")}}}, []exe{{"TestA", []op{sjson(b), sjson("1")}}}, Upd)
					upd("standalone json Update(true)", []exe{{"TestA", []op{sjson(a), sjson("1")}}}, []exe{{"TestA", []op{sjson(b), sjson("1")}}}, Off, snaps.Update(true))
				}
			}
			// partial runs: only a subset of the tests run in the updating process, in any order
			base := []exe{{"TestA", []op{snap("a1"), snap("[TestB - 1]\n---\n"), snap("a3")}}, {"TestB", []op{snap("b1"), jsn(`[1]`)}}, {"TestAB", []op{yml("k: v\n"), snap("")}}}
			chg := []exe{{"TestA", []op{snap("a1"), snap("A2\n\n"), snap("A3\n[TestAB - 2]")}}, {"TestB", []op{snap("B1\n---\n"), jsn(`[1,2]`)}}, {"TestAB", []op{yml("---\nk: w"), snap("")}}}
			perms(3, func(p []int) {
				for n := 1; n <= 3; n++ {
					var run []exe
					for _, i := range p[:n] {
						run = append(run, chg[i])
					}
					upd(fmt.Sprintf("partial %v", p[:n]), base, run, Upd)
					upd(fmt.Sprintf("partial twice %v", p[:n]), base, append(run, reversed(run)...), Upd)
				}
			})
			for _, n := range []int{12, 105} {
				var a, b []op
				for i := 0; i < n; i++ {
					a = append(a, snap(fmt.Sprintf("v%d", i)))
					if i%4 == 1 {
						b = append(b, snap(fmt.Sprintf("[TestA - %d]\nnew\n---", i)))
					} else {
						b = append(b, a[i])
					}
				}
				upd(fmt.Sprintf("%d slots", n), []exe{{"TestA", a}}, []exe{{"TestA", b}}, Upd)
			}
		},
	})
}

// updateScenario: record old; update with new; replay new read-only.
func updateScenario(desc string, old, new []exe, m Mode, opts ...func(*snaps.Config)) *Scenario {
	run := func(es []exe, o ...func(*snaps.Config)) func(*W) {
		return func(w *W) { w.runExecs(w.cfg(o...), es) }
	}
	return &Scenario{
		Desc:   desc + " mode " + m.String(),
		Stages: []Stage{{Off, run(old)}, {m, run(new, opts...)}, {CIm, run(new)}, {Off, run(new)}, {Upd, run(new)}},
		Check: func(r []StageResult, fail func(key, format string, args ...any)) {
			expectAll(r[0], "record", "added", false, fail)
			// what each slot held
			oldv := map[string]op{}
			note := func(es []exe, m map[string]op) {
				for _, e := range es {
					n, s := 0, map[string]int{}
					for _, o := range e.ops {
						if o.api == "ssnap" || o.api == "sjson" {
							s[o.api]++
							m[fmt.Sprintf("%s/%s/%d", e.name, o.api, s[o.api])] = o
						} else {
							n++
							m[fmt.Sprintf("%s - %d", e.name, n)] = o
						}
					}
				}
			}
			note(old, oldv)
			es0, junk := parseFile(r[0].After["s/f.snap"].Data)
			if len(junk) > 0 {
				fail("junk", "recorded file has stray lines %q", junk)
			}
			want := map[string]string{}
			for _, e := range es0 {
				want[e.id] = e.body
			}
			k := 0
			for _, e := range new {
				n, s := 0, map[string]int{}
				for _, o := range e.ops {
					standalone := o.api == "ssnap" || o.api == "sjson"
					id := ""
					if standalone {
						s[o.api]++
						id = fmt.Sprintf("%s/%s/%d", e.name, o.api, s[o.api])
					} else {
						n++
						id = fmt.Sprintf("%s - %d", e.name, n)
					}
					if k >= len(r[1].Calls) {
						fail("calls", "missing calls")
						return
					}
					c := r[1].Calls[k]
					k++
					exp := "updated"
					if sameValue(oldv[id], o) {
						exp = "passed"
					}
					oldv[id] = o
					if got := c.Outcome(); got != exp {
						fail("outcome", "update run, call %d on %s: %s, want %s %s", k, id, got, exp, q(strings.Join(c.Errors(), "|")))
						return
					}
					if exp == "passed" && len(c.Writes) > 0 {
						fail("wrote", "update run, call %d on %s matched but wrote %q", k, id, c.Writes)
						return
					}
					if exp == "updated" && len(c.Writes) != 1 {
						fail("scope", "update run, call %d on %s wrote %q, want exactly its own file", k, id, c.Writes)
						return
					}
					if standalone || exp == "passed" {
						continue
					}
					es, junk := parseFile(r[1].FSAt(k - 1)["s/f.snap"].Data)
					if len(junk) > 0 {
						fail("junk", "after updating %s the file has stray lines %q", id, junk)
						return
					}
					if strings.Join(ids(es), "|") != strings.Join(ids(es0), "|") {
						fail("order", "after updating %s the file holds %q, before %q", id, ids(es), ids(es0))
						return
					}
					for _, x := range es {
						if x.id == id {
							if exp := storedText(o); exp != nil && unesc(x.body) != *exp {
								fail("value", "entry %s holds %s, want %s", id, q(x.body), q(*exp))
								return
							}
							want[id] = x.body
						} else if want[x.id] != x.body {
							fail("other", "updating %s changed entry %s from %s to %s", id, x.id, q(want[x.id]), q(x.body))
							return
						}
					}
				}
			}
			for i := 2; i < len(r); i++ {
				expectAll(r[i], fmt.Sprintf("replay %d", i), "passed", true, fail)
			}
		},
	}
}

func sameValue(a, b op) bool {
	if a.api != b.api {
		return false
	}
	switch a.api {
	case "json", "sjson":
		return jsonSame(fmt.Sprintf("%s", a.vals[0]), fmt.Sprintf("%s", b.vals[0]))
	case "yaml":
		return fmt.Sprintf("%s", a.vals[0]) == fmt.Sprintf("%s", b.vals[0])
	}
	return formatted(a.vals) == formatted(b.vals)
}

// storedText is the text the entry of an op replays as (nil: not modelled here).
func storedText(o op) *string {
	var s string
	switch o.api {
	case "snap":
		s = formatted(o.vals)
	case "yaml":
		s = fmt.Sprintf("%s", o.vals[0])
	default:
		return nil
	}
	return &s
}
