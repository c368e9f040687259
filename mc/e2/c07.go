package main

import "fmt"

// place puts acts for a (possibly nested) test name into a program.
func place(tests map[string]*Node, name string, execs ...[]Act) {
	top, rest := name, ""
	for i := range name {
		if name[i] == '/' {
			top, rest = name[:i], name[i+1:]
			break
		}
	}
	n := tests[top]
	if n == nil {
		n = &Node{}
		tests[top] = n
	}
	for len(n.Execs) < len(execs) {
		if len(n.Execs) > 0 {
			n.Execs = append(n.Execs, append([]Act{}, n.Execs[len(n.Execs)-1]...))
		} else {
			n.Execs = append(n.Execs, nil)
		}
	}
	if rest == "" {
		for i := range n.Execs {
			n.Execs[i] = append(n.Execs[i], execs[min(i, len(execs)-1)]...)
		}
		return
	}
	leaf := &Node{Execs: execs}
	for i := range n.Execs {
		n.Execs[i] = append(n.Execs[i], subN(rest, leaf))
	}
}

var namePairs = [][2]string{{"TestA", "TestAB"}, {"TestA", "TestA/s"}, {"Test1", "Test10"}, {"FuzzA", "TestB"}, {"TestA/s", "TestA/s/t"}, {"TestA", "TestA_b"}}

func init() {
	register(&Property{
		ID:   "C07",
		Keys: []string{"matched-*", "clean-panic", "replay"},
		Rule: "real test binaries: 6 pairs of tests (prefixes, parent/child, fuzz) x call counts (0..3 per execution)^3 x -count 1..3 x {report, clean, update} x sort x multi-entry/standalone x seeded extra entries; " +
			"call kinds {pass, add, mismatch, update, matcher failure, invalid input, in t.Cleanup} x modes; every configuration x API; odd subtest names; -run patterns; parallel subtests, -cpu 1,2, benchmarks; after Clean every slot and file addressed by a call of the run must hold what it held and not be listed, and a following run must replay",
		Enum: func(tier string, emit Emit) {
			thorough := tier == "thorough"
			apisets := [][]string{{"snap"}, {"ssnap"}, {"json", "snap", "yaml"}, {"sjson", "ssnap"}, {"snap", "ssnap", "json", "sjson"}}
			x := 0
			for pi, pr := range namePairs {
				for ai, apis := range apisets {
					for cnt := 1; cnt <= 3; cnt++ {
						seqs([]int{0, 1, 2, 3}, cnt, func(v []int) {
							for mi, m := range coreModes {
								x++
								if !thorough && cnt > 1 && (x+pi+ai)%9 != 0 {
									continue
								}
								emit(fmt.Sprintf("%v calls per execution %v of %s, %v", pr, v, apis, m), func(r *R) {
									mkp := func(v []int) map[string]*Node {
										ts := map[string]*Node{}
										var e0, e1 [][]Act
										for k, n := range v {
											e0 = append(e0, calls(n, 9, "p", apis...))
											e1 = append(e1, calls(v[(k+1)%len(v)], 9, "q", apis...))
										}
										place(ts, pr[0], e0...)
										place(ts, pr[1], e1...)
										place(ts, "TestC", calls(1, 9, "c", apis...))
										return ts
									}
									// record more than the run will address
									seed := (pi + mi + v[0]) % 3
									if seed > 0 {
										r.Run(Env{}, spec(mkp([]int{4})).cleans(-1))
									}
									if seed == 2 {
										f := "__snapshots__/alpha_test.snap"
										d, _ := r.Get(f)
										r.Put(f, entryText("TestZ - 1", "[TestA - 1]\nx")+d+entryText("TestA - 9", "stale"))
									}
									o := r.Run(m.env(count(cnt)...), spec(mkp(v)).sorted(m.sort).cleans(2))
									r.Judge(o, nil)
									if m.update == "clean" || m.update == "true" {
										o2 := r.Run(Env{CI: true, Flags: count(cnt)}, spec(mkp(v)))
										r.ExpectAll("replay", o2, "passed")
									}
								})
							}
						})
					}
				}
			}
			// kinds of calls
			kinds := map[string][]Act{
				"mismatch":       {call("snap", 9, "new"), call("json", 9, `{"new":1}`), call("ssnap", 9, "new"), call("sjson", 9, `["new"]`), call("yaml", 9, "new: 1")},
				"matcher":        {bad("json", 9, `{"a":1}`), bad("sjson", 9, `{"a":1}`), bad("yaml", 9, "a: 1")},
				"invalid":        {call("json", 9, `{`), call("sjson", 9, `{`), call("yaml", 9, "a: [")},
				"update-false":   {call("snap", 6, "new"), call("ssnap", 6, "new")},
				"update-true":    {call("snap", 5, "new"), call("ssnap", 5, "new")},
				"cleanup":        {call("snap", 9, "v0"), cleanup(call("snap", 9, "late"), call("ssnap", 7, "late"))},
				"failnow":        {call("snap", 9, "v0"), call("ssnap", 9, "v0"), {K: "failnow"}},
				"skip-after":     {call("snap", 9, "v0"), call("ssnap", 9, "v0"), skip("")},
				"tskip-after":    {call("snap", 9, "v0"), call("ssnap", 9, "v0"), {K: "tskip"}},
				"same-file-api":  {call("snap", 3, "a"), call("ssnap", 3, "b"), call("sjson", 3, "1"), call("json", 3, "1")},
				"no-params":      {{K: "call", API: "snap", Cfg: 9}},
				"repeat-12":      {{K: "call", API: "snap", Cfg: 9, Vals: []string{"r"}, N: 12}, {K: "call", API: "ssnap", Cfg: 9, Vals: []string{"r"}, N: 12}},
				"only-in-beta":   {},
				"panic-late-sub": {call("snap", 9, "x"), sub("y", call("snap", 9, "y"), Act{K: "failnow"}), call("snap", 9, "z")},
			}
			base := []Act{call("snap", 9, "b0"), call("json", 9, `[0]`), call("ssnap", 9, "b0"), call("sjson", 9, `[0]`), call("yaml", 9, "b: 0"), call("snap", 6, "b1"), call("ssnap", 6, "b1"), call("snap", 3, "b2"), call("ssnap", 3, "b2")}
			for _, name := range keys(kinds) {
				acts := kinds[name]
				for _, m := range cleanModes {
					for cnt := 1; cnt <= 2; cnt++ {
						for _, where := range []string{"TestA", "TestA/s", "FuzzA", "TestB"} {
							if acts == nil {
								continue
							}
							emit(fmt.Sprintf("call kind %s in %s, %v, -count %d", name, where, m, cnt), func(r *R) {
								ts := map[string]*Node{}
								place(ts, where, base)
								place(ts, "TestAB", base)
								o := r.Run(Env{}, spec(ts).cleans(-1))
								prog := o.prog()
								ts2 := map[string]*Node{}
								place(ts2, where, append(append([]Act{}, acts...), base...))
								place(ts2, "TestC", calls(1, 9, "c", "snap", "ssnap"))
								if cnt == 2 {
									place(ts2, "TestAB", base, acts)
								}
								o2 := r.Run(m.env(count(cnt)...), spec(ts2).sorted(m.sort).cleans(2))
								_ = prog
								r.Judge(o2, nil)
							})
						}
					}
				}
			}
			// configurations x API
			for ci := range stdCfgs {
				if ci == 6 {
					continue // Update(false): nothing to record
				}
				for _, api := range []string{"snap", "json", "yaml", "ssnap", "sjson"} {
					for _, m := range coreModes {
						emit(fmt.Sprintf("config %+v %s %v", stdCfgs[ci], api, m), func(r *R) {
							ts := map[string]*Node{}
							place(ts, "TestA", calls(3, ci, "a", api))
							if !isAlone(api) || stdCfgs[ci].Filename == "" {
								place(ts, "TestA/s", calls(2, ci, "s", api))
								place(ts, "TestB", calls(2, ci, "b", api))
							}
							r.Run(Env{}, spec(ts).cleans(-1))
							o := r.Run(m.env(), spec(ts).sorted(m.sort).cleans(2))
							r.Judge(o, nil)
							r.ExpectAll("replay", o, "passed")
							o = r.Run(Env{CI: true}, spec(ts))
							r.ExpectAll("replay", o, "passed")
						})
					}
				}
			}
			// odd names
			for _, n := range oddNames {
				for _, m := range coreModes {
					emit(fmt.Sprintf("subtest %q %v", n, m), func(r *R) {
						ts := map[string]*Node{}
						place(ts, "TestA", calls(2, 9, "a", "snap", "ssnap"))
						place(ts, "TestA", []Act{subN(n, node(calls(5, 9, "n", "snap", "ssnap", "json", "sjson", "yaml")...))})
						place(ts, "TestB", []Act{subN(n, node(calls(2, 1, "o", "snap", "json")...))})
						r.Run(Env{}, spec(ts).cleans(-1))
						// force a rewrite: unsorted and stale material
						for _, f := range []string{"__snapshots__/alpha_test.snap", "__snapshots__/shared.snap"} {
							d, _ := r.Get(f)
							r.Put(f, entryText("TestZ - 1", "z")+d+entryText("TestA/gone - 1", "---x\n[TestA - 1]"))
						}
						o := r.Run(m.env(), spec(ts).sorted(m.sort).cleans(2))
						r.Judge(o, nil)
						r.ExpectAll("replay", o, "passed")
						o = r.Run(Env{CI: true}, spec(ts))
						r.ExpectAll("replay", o, "passed")
					})
				}
			}
			// -run patterns and parallel programs
			for _, pat := range runPatterns {
				for _, m := range []mode{coreModes[0], coreModes[2], coreModes[3], coreModes[5]} {
					emit(fmt.Sprintf("-run %q %v", pat, m), func(r *R) {
						ts := shapeTests()
						p := r.Run(Env{}, spec(ts).cleans(-1)).prog()
						d, _ := r.Get("__snapshots__/alpha_test.snap")
						r.Put("__snapshots__/alpha_test.snap", d+entryText("TestA - 1000", "stale")+entryText("TestZ - 1", "stale"))
						o := r.Run(m.env("-test.run="+pat), spec(ts).sorted(m.sort).cleans(2))
						r.Judge(o, p)
						o = r.Run(Env{CI: true}, spec(ts))
						r.ExpectAll("replay", o, "passed")
					})
				}
			}
			for _, fl := range [][]string{{"-test.cpu=1,2"}, {"-test.parallel=1"}, {"-test.parallel=8"}, {"-test.cpu=1,2,4", "-test.count=2"}, {"-test.bench=.", "-test.benchtime=1x"}, {"-test.shuffle=1"}, {"-test.shuffle=7", "-test.count=3"}, {"-test.v"}, {"-test.short"}, {"-test.failfast"}} {
				for _, m := range coreModes {
					emit(fmt.Sprintf("parallel program with %v %v", fl, m), func(r *R) {
						ts := map[string]*Node{}
						for _, t := range []string{"TestA", "TestAB", "TestB", "TestC"} {
							place(ts, t, append([]Act{par()}, calls(2, 9, t, "snap", "ssnap")...))
							for k := 0; k < 4; k++ {
								place(ts, fmt.Sprintf("%s/p%d", t, k), append([]Act{par()}, calls(1+k, 9, t+"p", "snap", "json", "ssnap", "yaml")...))
								place(ts, fmt.Sprintf("%s/sh%d", t, k), append([]Act{par()}, calls(1+k, 1, t+"h", "snap", "json")...))
							}
						}
						place(ts, "BenchmarkA", calls(2, 9, "bench", "snap", "ssnap"))
						place(ts, "FuzzA", calls(2, 9, "fz", "snap", "ssnap"))
						r.Run(Env{Flags: fl}, spec(ts).cleans(-1))
						d, _ := r.Get("__snapshots__/alpha_test.snap")
						r.Put("__snapshots__/alpha_test.snap", entryText("TestZ - 1", "stale")+d)
						o := r.Run(m.env(fl...), spec(ts).sorted(m.sort).cleans(2))
						r.Judge(o, nil)
						o = r.Run(Env{CI: true, Flags: fl}, spec(ts))
						r.ExpectAll("replay", o, "passed")
					})
				}
			}
		},
	})
}
