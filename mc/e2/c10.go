package main

import (
	"fmt"
	"sort"
	"strings"
)

var richBodies = []string{"x", "", "\n", "\n\nlead\n\n", "[TestA - 1]", "[TestZ - 1]\nq\n[TestA/s - 2]", "---x\n--- \n ---\n----", "/-/-/-/", "/-/-/-//-/-/-/\n/-/-/-/", "a\rb", "\xff\xfe\x00", "{\n \"a\": 1\n}", "k: v\n/-/-/-/\nk: w\n", strings.Repeat("0123456789", 20000), "sp  ", "[", "]", "[ - ]", "[TestA - 1] ", " [TestA - 1]", "[TestA - x]", "x\n\n[TestB - 1]\n/-/-/-/\n\n[TestA - 2]"}

// Sorted checks that a file holds these entries in natural order, whatever
// their order was.
func (r *R) Sorted(key string, got string, want []entry) {
	w := append([]entry(nil), want...)
	for i := range w {
		for j := i + 1; j < len(w); j++ {
			if _, total := natcmp(w[i].id, w[j].id); !total || w[i].id == w[j].id {
				return
			}
		}
	}
	sort.SliceStable(w, func(i, j int) bool { c, _ := natcmp(w[i].id, w[j].id); return c < 0 })
	g, _ := parseFile(got)
	if fmt.Sprint(g) != fmt.Sprint(w) {
		r.Fail(key, "sorted file holds %q, want %q (in that order with their bodies)", idsOf(g), idsOf(w))
	}
}

func init() {
	alpha, beta := "__snapshots__/alpha_test.snap", "__snapshots__/beta_test.snap"
	register(&Property{
		ID:   "C10",
		Keys: []string{"entry-*", "unsorted", "reordered", "needless-write", "not-idempotent", "matched-altered", "matched-lost", "protected-lost", "protected-altered", "clean-panic", "permutation", "second", "replay", "stale-removed", "created"},
		Rule: "real test binaries and seeded snapshot files: all permutations of 6 (thorough 7) live entries x subsets of 2 stale entries (at both ends) x modes; all transpositions, rotations and the reversal of 13 numbered entries; pairs of 22 bodies around a stale entry; id sets with numbers of every width, prefixes, fuzz tests and odd names; " +
			"duplicated ids; all triples of per-file states (sorted, unsorted, stale, both, only stale, skipped owner) over three files; every surviving entry keeps its body and number of occurrences, sorted files are in natural order and equal for all permutations, untouched files are not written, Clean and a second process change nothing",
		Assume: []string{"natural order: digit runs compare as numbers, everything else bytewise; ids differing only in the width of a number are left undecided", "a carriage return at the end of a line is not preserved (documented limitation)"},
		Enum: func(tier string, emit Emit) {
			thorough := tier == "thorough"
			again := func(r *R, m mode, ts map[string]*Node) {
				o := r.Run(m.env(), spec(ts).sorted(m.sort).cleans(1))
				r.Judge(o, nil)
				if len(o.Log.Cleans[0].Touched) > 0 {
					r.Fail("second", "a second run rewrote %q", o.Log.Cleans[0].Touched)
				}
			}
			live := func() map[string]*Node {
				ts := map[string]*Node{}
				place2(ts, "TestA", calls(2, 9, "a", "snap", "json"))
				place2(ts, "TestA/s", calls(1, 9, "s", "yaml"))
				place2(ts, "TestAB", calls(1, 9, "ab", "snap"))
				place2(ts, "FuzzA", calls(1, 9, "f", "snap"))
				if thorough {
					place2(ts, "TestA/10", calls(1, 9, "ten", "snap"))
				}
				return ts
			}
			nlive := 6
			if thorough {
				nlive = 7
			}
			n := 0
			perms(nlive, func(p []int) {
				n++
				for set := 0; set < 4; set++ {
					for mi, m := range coreModes {
						if !thorough && (n+set+mi)%3 != 0 {
							continue
						}
						if thorough && set > 0 && (n+set+mi)%3 != 0 {
							continue
						}
						if thorough && m.update == "true" && set == 0 {
							continue
						}
						emit(fmt.Sprintf("permutation %v, stale set %d, %v", p, set, m), func(r *R) {
							ts := live()
							r.Run(Env{}, spec(ts).cleans(-1))
							d, _ := r.Get(alpha)
							es, _ := parseFile(d)
							if len(es) != len(p) {
								r.Fail("entry-lost", "recording %d entries left %d", len(p), len(es))
								return
							}
							var mix, surv []entry
							if set&1 != 0 {
								mix = append(mix, entry{"TestA - 3", "[TestA - 1]\nold"})
							}
							for _, i := range p {
								mix = append(mix, es[i])
							}
							if set&2 != 0 {
								mix = append(mix[:2:2], append([]entry{{"TestZ - 1", ""}}, mix[2:]...)...)
							}
							for _, e := range mix {
								if m.update == "" || e.id != "TestA - 3" && e.id != "TestZ - 1" {
									surv = append(surv, e)
								}
							}
							r.Put(alpha, render(mix))
							o := r.Run(m.env(), spec(ts).sorted(m.sort).cleans(2))
							r.Judge(o, nil)
							r.ExpectAll("replay", o, "passed")
							if m.sort {
								r.Sorted("permutation", o.Log.Cleans[0].FS[alpha].Data, surv)
							}
							if n%5 == 0 {
								again(r, m, ts)
							}
						})
					}
				}
			})
			// many ordinals
			many := map[string]*Node{}
			place2(many, "TestA", []Act{{K: "call", API: "snap", Cfg: 9, Vals: []string{"v"}, N: 13}})
			orders := map[string][]int{}
			id := func() []int {
				o := make([]int, 13)
				for i := range o {
					o[i] = i
				}
				return o
			}
			for i := 0; i < 13; i++ {
				rot := append(id()[i:], id()[:i]...)
				orders[fmt.Sprintf("rotated by %d", i)] = rot
				for j := i + 1; j < 13; j++ {
					t := id()
					t[i], t[j] = t[j], t[i]
					orders[fmt.Sprintf("%d and %d exchanged", i+1, j+1)] = t
				}
			}
			rev := id()
			for i := range rev {
				rev[i] = 12 - i
			}
			orders["reversed"] = rev
			orders["lexicographic"] = []int{0, 9, 10, 11, 12, 1, 2, 3, 4, 5, 6, 7, 8}
			for _, on := range keys(orders) {
				for _, m := range coreModes {
					emit(fmt.Sprintf("13 entries, %s, %v", on, m), func(r *R) {
						r.Run(Env{}, spec(many).cleans(-1))
						d, _ := r.Get(alpha)
						es, _ := parseFile(d)
						var mix []entry
						for _, i := range orders[on] {
							mix = append(mix, entry{es[i].id, es[i].body})
						}
						r.Put(alpha, render(mix))
						o := r.Run(m.env(), spec(many).sorted(m.sort).cleans(2))
						r.Judge(o, nil)
						if m.sort {
							r.Sorted("permutation", o.Log.Cleans[0].FS[alpha].Data, mix)
						}
						again(r, m, many)
					})
				}
			}
			// bodies
			for i, b1 := range richBodies {
				for j, b2 := range richBodies {
					for mi, m := range coreModes {
						if !thorough && (i*3+j+mi)%6 != 0 {
							continue
						}
						emit(fmt.Sprintf("bodies %d and %d around a stale entry, %v", i, j, m), func(r *R) {
							v1, v2 := unesc(b1), unesc(b2)
							ts := map[string]*Node{}
							place2(ts, "TestA", []Act{call("snap", 9, v1), call("snap", 9, v2)})
							place2(ts, "TestAB", []Act{call("snap", 9, v2)})
							if esc(v1) != b1 || esc(v2) != b2 {
								return
							}
							// body of MatchSnapshot is value plus newline
							es := []entry{{"TestAB - 1", b2}, {"TestA - 3", b1}, {"TestA - 2", b2}, {"TestZ/z - 1", b2}, {"TestA - 1", b1}}
							r.Put(alpha, render(es))
							o := r.Run(m.env(), spec(ts).sorted(m.sort).cleans(2))
							r.Judge(o, nil)
							r.ExpectAll("replay", o, "passed")
							if m.sort {
								var surv []entry
								for _, e := range es {
									if m.update == "" || e.id != "TestA - 3" && e.id != "TestZ/z - 1" {
										surv = append(surv, e)
									}
								}
								r.Sorted("permutation", o.Log.Cleans[0].FS[alpha].Data, surv)
							}
							o = r.Run(Env{CI: true}, spec(ts))
							r.ExpectAll("replay", o, "passed")
						})
					}
				}
			}
			// id sets: pairs of subtest names, both orders
			subs := append([]string{"1", "2", "10", "01", "001", "1a", "a1", "a10", "a2", "a02", "9999999999999999999999", "99999999999999999999999", "1-2", "1_2", "1.5", "A", "Z", "z", "-1", "a/1", "a/10", "s", "s-1", "s/1"}, oddNames...)
			for i, a := range subs {
				for j, b := range subs {
					if i == j {
						continue
					}
					for mi, m := range coreModes {
						if !thorough && (i+j+mi)%8 != 0 || thorough && (i+j+mi)%2 != 0 {
							continue
						}
						emit(fmt.Sprintf("subtests %q and %q, %v", a, b, m), func(r *R) {
							ts := map[string]*Node{}
							ts["TestA"] = node(subN(b, node(call("snap", 9, "b"))), subN(a, node(call("snap", 9, "a"), call("snap", 9, "a2"))), call("json", 9, "[1]"))
							r.Run(Env{}, spec(ts).cleans(-1))
							d, _ := r.Get(alpha)
							es, _ := parseFile(d)
							if j < i {
								for k := 0; k < len(es)/2; k++ {
									es[k], es[len(es)-1-k] = es[len(es)-1-k], es[k]
								}
							}
							es = append(es, entry{"TestA/stale - 1", "[TestA - 1]"})
							r.Put(alpha, render(es))
							o := r.Run(m.env(), spec(ts).sorted(m.sort).cleans(2))
							r.Judge(o, nil)
							r.ExpectAll("replay", o, "passed")
							again(r, m, ts)
						})
					}
				}
			}
			// top level names
			tops := []string{"TestA", "TestAB", "TestA_b", "Test1", "Test10", "TestA/z"}
			perms(len(tops), func(p []int) {
				if p[0] > 2 && !thorough {
					return
				}
				for _, m := range []mode{coreModes[1], coreModes[3]} {
					emit(fmt.Sprintf("top level tests in order %v, %v", p, m), func(r *R) {
						ts := map[string]*Node{}
						for _, t := range tops {
							place2(ts, t, calls(2, 9, t, "snap"))
						}
						var es []entry
						for k := 2; k >= 1; k-- {
							for _, i := range p {
								es = append(es, entry{fmt.Sprintf("%s - %d", tops[i], k), esc(val("snap", tops[i], k-1))})
							}
						}
						r.Put(alpha, render(es))
						o := r.Run(m.env(), spec(ts).sorted(m.sort).cleans(2))
						r.Judge(o, nil)
						r.ExpectAll("replay", o, "passed")
						r.Sorted("permutation", o.Log.Cleans[0].FS[alpha].Data, es)
					})
				}
			})
			// duplicated ids
			for _, dup := range []string{"TestA - 1", "TestA - 2", "TestA/s - 1", "TestA - 9", "FuzzA - 1"} {
				for k := 2; k <= 3; k++ {
					for pos := 0; pos <= 5; pos++ {
						for _, m := range coreModes {
							emit(fmt.Sprintf("[%s] %d times, at %d, %v", dup, k, pos, m), func(r *R) {
								ts := live()
								r.Run(Env{}, spec(ts).cleans(-1))
								d, _ := r.Get(alpha)
								for q := 1; q < k; q++ {
									d = insertEntry(d, (pos+2*q)%7, dup, fmt.Sprint("dup ", q))
								}
								r.Put(alpha, insertEntry(d, pos, "TestZ - 1", "s"))
								o := r.Run(m.env(), spec(ts).sorted(m.sort).cleans(2))
								r.Judge(o, nil)
							})
						}
					}
				}
			}
			// per file states over three files
			states := []string{"sorted", "unsorted", "stale", "stale-unsorted", "only-stale", "skipped", "one", "stale-last"}
			files := []string{alpha, beta, "__snapshots__/cust.snap.txt"}
			x := 0
			seqs(states, 3, func(v []string) {
				for _, m := range coreModes {
					x++
					if !thorough && x%2 != 0 {
						continue
					}
					emit(fmt.Sprintf("file states %v, %v", v, m), func(r *R) {
						ts := map[string]*Node{}
						full := map[string]*Node{}
						data := map[string]string{}
						for i, f := range files {
							test := []string{"TestA", "TestB", "TestC"}[i]
							cfg := 9
							if i == 2 {
								cfg = 3
							}
							k := 3
							if v[i] == "one" {
								k = 1
							}
							acts := calls(k, cfg, test, "snap", "yaml")
							place2(full, test, acts)
							es := []entry{}
							for j := 1; j <= k; j++ {
								es = append(es, entry{fmt.Sprintf("%s - %d", test, j), esc(val([]string{"snap", "yaml"}[(j-1)%2], test, j-1))})
							}
							st := []entry{{test + " - 8", "[" + test + " - 1]\nx"}, {"Test - 1", "same id in several files " + f}}
							// Test - 1 comes before anything else in natural order
							sa, sb := append([]entry{st[1]}, append(append([]entry{}, es...), st[0])...), append([]entry{}, es...)
							for a, b := 0, len(sb)-1; a < b; a, b = a+1, b-1 {
								sb[a], sb[b] = sb[b], sb[a]
							}
							switch v[i] {
							case "sorted", "one":
								data[f] = render(es)
							case "unsorted":
								data[f] = render(sb)
							case "stale":
								data[f] = render(sa)
							case "stale-unsorted":
								data[f] = render(append(append([]entry{st[0]}, sb...), st[1]))
							case "stale-last":
								data[f] = render(append(append([]entry{}, es...), st[1]))
							case "only-stale":
								data[f] = render(st)
							case "skipped":
								data[f] = render(sb)
								acts = append([]Act{skip("")}, acts...)
							}
							place2(ts, test, acts)
							if v[i] == "skipped" { // somebody else still uses the file
								other := []string{"TestAB", "TestBA", "Test_A"}[i]
								place2(ts, other, []Act{call("snap", cfg, "other")})
								data[f] += entryText(other+" - 1", "other")
							}
						}
						for f, d := range data {
							r.Put(f, d)
						}
						sp := spec(ts).sorted(m.sort).cleans(2)
						o := r.Run(m.env(), sp)
						r.Judge(o, nil)
						again(r, m, ts)
					})
				}
			})
		},
	})
}
