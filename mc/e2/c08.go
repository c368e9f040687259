package main

import (
	"fmt"
	"sort"
	"strings"
)

// skipAt inserts a skip into a test of a program: before its n-th act.
func skipAt(ts map[string]*Node, name, how string, n int) {
	nd := find(ts, name)
	if nd == nil {
		panic(name)
	}
	e := nd.Execs[0]
	n = min(n, len(e))
	out := append([]Act{}, e[:n]...)
	out = append(out, skip(how))
	nd.Execs[0] = append(out, e[n:]...)
}

var shapeNames = []string{"TestA", "TestA/s", "TestA/s/u", "TestA/t", "TestA/t/v", "TestAB", "TestAB/s", "TestA_b", "FuzzA", "Test1", "Test10", "TestB", "TestB/s", "TestC", "TestC/sp a", "TestC/s u"}

var patternNames = []string{"TestA", "TestA/s", "TestA/s/TestB", "TestA/u", "TestA/TestB", "TestA/a|b", "TestA/[x]", "TestA/x/y", "TestA/(p)", "TestA/s[", "TestA/b\\d", "TestA/50%", "TestA/a.b+", "TestB", "TestB/s", "TestB/v", "TestAB", "TestC/s/v"}

// smallShapes are programs in which a file has few owners.
func smallShapes() map[string]map[string]*Node {
	out := map[string]map[string]*Node{}
	apis := map[string][]string{"multi": {"snap"}, "alone": {"ssnap"}, "mixed": {"json", "sjson", "yaml", "ssnap"}}
	for an, as := range apis {
		for cn, ci := range map[string]int{"default": 9, "ext": 7, "dir": 2, "name": 1, "deep": 4} {
			if an != "multi" && (cn == "name" || cn == "deep") {
				continue
			}
			ts := map[string]*Node{}
			for i, n := range []string{"TestA", "TestA/s", "TestA/s/u", "TestAB", "TestA_b", "TestB", "FuzzA"} {
				place2(ts, n, calls(1+i%3, ci, n, as...))
			}
			out[an+"-"+cn] = ts
		}
	}
	// names that read like parts of a pattern
	odd := map[string]*Node{}
	for i, n := range patternNames {
		place2(odd, n, append(calls(1+i%2, 9, n, "snap"), call("ssnap", 9, n)))
	}
	out["odd"] = odd
	return out
}

func init() {
	register(&Property{
		ID:   "C08",
		Keys: []string{"protected-*", "replay", "clean-panic", "known-*", "sibling", "stale-unlisted"},
		Rule: "real test binaries: a 20-test program using every API and 5 configurations, and 13 small programs (one API family, one configuration): all single tests and all pairs of tests skipped through Skip/Skipf/SkipNow at the start or after some calls, all " +
			"-run patterns of a list (substrings, anchors, alternations, levels, classes, rewritten spaces), combined with skips and -count; names with pattern characters x patterns whose separators are in brackets, parentheses and escapes; files of one entry, x {report, clean, update} x sort; the oracle is what the test binary really ran; nothing of a test that did not run may be listed or lost, siblings of skipped tests stay stale, and afterwards a complete run on CI must pass every call",
		Assume: []string{"standalone files whose names fit both a descendant of a skipped test and a sibling test are not decided", "entries of benchmarks are recorded and checked with -bench only"},
		Enum: func(tier string, emit Emit) {
			thorough := tier == "thorough"
			hows := []string{"Skip", "Skipf", "SkipNow", "real"}
			modes := []mode{{false, "clean", false}, {false, "clean", true}, {false, "", true}, {false, "true", false}, {true, "clean", true}}
			x := 0
			// one history: record all, run restricted, run all on CI
			restricted := func(desc string, ts map[string]*Node, m mode, edit func(map[string]*Node), flags ...string) {
				emit(desc, func(r *R) {
					full := spec(ts)
					p := r.Run(Env{}, full.cleans(-1)).prog()
					ts2 := clone(ts)
					edit(ts2)
					o := r.Run(m.env(flags...), spec(ts2).sorted(m.sort).cleans(2))
					r.Judge(o, p)
					o = r.Run(Env{CI: true}, full)
					// everything a skipped or unselected test owns must replay
					ad := o.addresses()
					for i, c := range o.Log.Calls {
						if got := c.Outcome(); got != "passed" {
							key := "replay"
							if p.cust[ad.of[i].file] && len(flags) == 0 {
								key = "known-standalone-filename-skip"
							}
							r.Fail(key, "call %d of %s (%s): %s, want passed %v", i, c.Test, c.API, got, c.Events)
						}
					}
				})
			}
			shapes := smallShapes()
			shapes["big"] = shapeTests()
			var sn []string
			for k := range shapes {
				sn = append(sn, k)
			}
			sort.Strings(sn)
			namesOf := func(ts map[string]*Node) (out []string) {
				for _, n := range append(shapeNames[:len(shapeNames):len(shapeNames)], patternNames...) {
					if in(out, n) {
						continue
					}
					if find(ts, n) != nil {
						out = append(out, n)
					}
				}
				return
			}
			for _, s := range sn {
				ts := shapes[s]
				ns := namesOf(ts)
				for i, a := range ns {
					for hi, how := range hows {
						for mi, m := range modes {
							for _, at := range []int{0, 1, 3} {
								x++
								if !thorough && (x+hi+mi)%4 != 0 {
									continue
								}
								restricted(fmt.Sprintf("program %s: %s calls %s before act %d, %v", s, a, how, at, m), ts, m, func(t map[string]*Node) { skipAt(t, a, how, at) })
							}
						}
					}
					for j, b := range ns {
						if j <= i {
							continue
						}
						x++
						for k := 0; k < len(modes); k++ {
							if !thorough && k != x%len(modes) {
								continue
							}
							m := modes[k]
							restricted(fmt.Sprintf("program %s: %s and %s skipped, %v", s, a, b, m), ts, m, func(t map[string]*Node) {
								skipAt(t, b, hows[x%4], 0)
								skipAt(t, a, hows[(x+1)%4], x%2)
							})
						}
					}
				}
				pats := runPatterns
				if s == "odd" {
					pats = append(append([]string{}, syntaxPatterns...), pats...)
				}
				for pi, pat := range pats {
					for mi, m := range modes {
						if !thorough && (pi+mi)%2 == 1 && s != "big" && s != "odd" {
							continue
						}
						restricted(fmt.Sprintf("program %s: -run %q %v", s, pat, m), ts, m, func(map[string]*Node) {}, "-test.run="+pat)
					}
					// pattern and skip together
					for k, n := range ns {
						if (k+pi)%3 == 0 || thorough {
							m := modes[(k+pi)%3]
							restricted(fmt.Sprintf("program %s: -run %q with %s skipped, -count 2, %v", s, pat, n, m), ts, m, func(t map[string]*Node) { skipAt(t, n, "Skip", 0) }, "-test.run="+pat, "-test.count=2")
						}
					}
				}
			}
			// a skip protects descendants only: siblings sharing the prefix are stale
			for _, v := range []struct{ skipped, sibling string }{{"TestA", "TestAB"}, {"Test1", "Test10"}, {"TestA/s", "TestA/sx"}, {"TestA/s", "TestA/s-1"}, {"TestA/s", "TestA/s#01"}, {"TestB", "TestBA"}, {"TestA/a b", "TestA/a bc"}} {
				for _, api := range []string{"snap", "ssnap", "json", "sjson"} {
					for _, m := range modes[:4] {
						emit(fmt.Sprintf("%s skipped, stale %s of the sibling %s, %v", v.skipped, api, v.sibling, m), func(r *R) {
							full := map[string]*Node{}
							for _, n := range []string{v.skipped, v.skipped + "/d", v.sibling, v.sibling + "/d", "Test_A", "TestA_b"} {
								place2(full, n, calls(2, 9, n, api))
							}
							p := r.Run(Env{}, spec(full).cleans(-1)).prog()
							ts := map[string]*Node{}
							place2(ts, "TestA_b", calls(2, 9, "TestA_b", api))
							place2(ts, "Test_A", calls(2, 9, "Test_A", api))
							place2(ts, v.skipped, append([]Act{skip("")}, calls(2, 9, v.skipped, api)...))
							o := r.Run(m.env(), spec(ts).sorted(m.sort).cleans(2))
							r.Judge(o, p)
							if m.update == "clean" || m.update == "true" {
								gone := false
								want := strings.ReplaceAll(v.sibling, " ", "_")
								for _, n := range append(parseSummary(o.Log.Cleans[0].Out).tests, parseSummary(o.Log.Cleans[0].Out).files...) {
									gone = gone || strings.Contains(n, want+" - 1") || strings.Contains(n, strings.ReplaceAll(want, "/", "_")+"_1.snap")
								}
								if !gone {
									r.Fail("sibling", "stale %s snapshot of %s is kept because %s called Skip: %s", api, v.sibling, v.skipped, q(o.Log.Cleans[0].Out))
								}
							}
						})
					}
				}
			}
			// recorded finding: custom file name and Skip
			for _, m := range modes[:4] {
				emit(fmt.Sprintf("standalone with a custom Filename, its test skipped, %v", m), func(r *R) {
					ts := map[string]*Node{}
					place2(ts, "TestA", []Act{call("ssnap", 3, "x")})
					place2(ts, "TestB", []Act{call("snap", 3, "y")})
					p := r.Run(Env{}, spec(ts).cleans(-1)).prog()
					ts2 := clone(ts)
					skipAt(ts2, "TestA", "Skip", 0)
					r.Judge(r.Run(m.env(), spec(ts2).sorted(m.sort)), p)
				})
			}
			// the only owner of a file is skipped; or everything is
			for _, cfg := range []int{0, 1, 2, 3, 4, 7, 8, 9} {
				for _, api := range []string{"snap", "json", "yaml", "ssnap", "sjson"} {
					for _, m := range modes {
						for _, owner := range []string{"TestA", "TestA/s", "FuzzA", "TestB", "TestB/[x]"} {
							x++
							if isAlone(api) && stdCfgs[cfg].Filename != "" {
								continue
							}
							ts := map[string]*Node{}
							place2(ts, owner, calls(1+x/len(modes)%2, cfg, owner, api))
							place2(ts, "TestC", calls(1, 9, "c", "snap", "ssnap"))
							place2(ts, "TestAB", calls(1, 9, "c", "snap"))
							if stdCfgs[cfg].Dir != "" { // somebody else visits the directory
								c := cfg
								if c == 4 || c == 8 {
									place2(ts, "Test_A", []Act{call("sjson", c, `{"visitor":1}`)})
								} else {
									place2(ts, "Test_A", []Act{call("ssnap", c, "visitor")})
								}
							}
							restricted(fmt.Sprintf("%s owns a file through config %d %s and is skipped, %v", owner, cfg, api, m), ts, m, func(t map[string]*Node) { skipAt(t, owner, "Skip", 0) })
							for _, pat := range []string{"TestC", "Test_A|TestC", "TestC|^$", "TestAB|TestC", "Test_A"} {
								restricted(fmt.Sprintf("%s owns a file through config %d %s, -run %s, %v", owner, cfg, api, pat, m), ts, m, func(t map[string]*Node) {}, "-test.run="+pat)
							}
						}
					}
				}
			}
		},
	})
}
