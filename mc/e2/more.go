package main

import (
	"fmt"
	"path"
	"strings"
)

// Quiet: a run that wrote nothing.
func (r *R) Quiet(o *Out) {
	if len(o.Log.Touched) > 0 || len(o.Log.PreFS) != len(o.Before) {
		r.Fail("touched", "a run without changes wrote %q (%d objects before, %d after)", o.Log.Touched, len(o.Before), len(o.Log.PreFS))
	}
}

// change alters the value of every n-th call of a program (mask over the calls
// in program order) and returns how many calls there are.
func change(ts map[string]*Node, mask uint64, how func(api, v string) string) int {
	n := 0
	var walk func(nd *Node)
	walk = func(nd *Node) {
		for _, e := range nd.Execs {
			for i := range e {
				switch e[i].K {
				case "call":
					if mask>>n&1 == 1 {
						e[i].Vals = []string{how(e[i].API, strings.Join(e[i].Vals, "\n"))}
					}
					n++
				case "sub", "cleanup":
					walk(e[i].Node)
				}
			}
		}
	}
	for _, k := range keys(ts) {
		walk(ts[k])
	}
	return n
}

func longer(api, v string) string {
	switch api {
	case "json", "sjson":
		return `{"t":"longer longer longer","n":77,"more":[1,2,3,4,5,6]}`
	case "yaml":
		return "t: longer\nmore: [1, 2, 3]\n# end\n"
	}
	return v + "\nlonger\n---\n[TestA - 1]\n[TestB - 2]\nlonger"
}

func shorter(api, v string) string {
	switch api {
	case "json", "sjson":
		return `1`
	case "yaml":
		return "s"
	}
	return "s"
}

func smallProgram(n int, cfg int, apis ...string) map[string]*Node {
	ts := map[string]*Node{}
	k := 0
	for _, t := range []string{"TestA", "TestAB", "TestA/s", "TestB", "TestA/s/u", "Test10"} {
		for i := 0; i < 2 && k < n; i++ {
			api := apis[k%len(apis)]
			place2(ts, t, []Act{call(api, cfg, val(api, t, k))})
			k++
		}
	}
	return ts
}

func init() {
	programs := []struct {
		name string
		cfg  int
		apis []string
	}{
		{"snap", 9, []string{"snap"}}, {"all in one file", 9, []string{"snap", "json", "yaml"}}, {"shared file", 1, []string{"json", "snap", "yaml"}}, {"standalone", 9, []string{"ssnap", "sjson"}}, {"everything", 7, allAPIs}, {"deep", 4, []string{"snap", "yaml"}}, {"package functions", 0, allAPIs},
	}
	register(&Property{
		ID:   "C01",
		Keys: []string{"replay", "touched", "outcome", "slots"},
		Rule: "real test binaries, one process per run: 7 programs of 1..7 calls x {-count, -cpu, -parallel, -shuffle, GOMAXPROCS} flags of the recording run x flags of the replaying run x {CI, off, update, Update option}: every call passes and nothing is written",
		Enum: func(tier string, emit Emit) {
			thorough := tier == "thorough"
			flags := [][]string{nil, {"-test.count=2"}, {"-test.count=5"}, {"-test.cpu=1,2"}, {"-test.shuffle=3"}, {"-test.parallel=4"}, {"-test.v"}, {"-test.run=.", "-test.count=2"}}
			for _, p := range programs {
				for n := 1; n <= 7; n++ {
					for fi, f1 := range flags {
						for fj, f2 := range flags {
							for _, e := range []Env{{}, {CI: true}, {Update: "true"}, {Update: "clean"}} {
								if !thorough && (fi+fj+n)%3 != 0 {
									continue
								}
								emit(fmt.Sprintf("%s, %d calls, recorded with %v, replayed with %v %v", p.name, n, f1, f2, e), func(r *R) {
									ts := smallProgram(n, p.cfg, p.apis...)
									o := r.Run(Env{Flags: f1}, spec(ts))
									r.Simulate(o)
									e.Flags = f2
									o = r.Run(e, spec(ts))
									r.ExpectAll("replay", o, "passed")
									r.Quiet(o)
								})
							}
						}
					}
				}
			}
			// the values of C10's bodies as real values
			for i, b := range richBodies {
				for j, b2 := range richBodies {
					if (i+j)%4 != 0 && !thorough {
						continue
					}
					if strings.Contains(b+b2, "\t") {
						continue
					}
					emit(fmt.Sprintf("values %d and %d", i, j), func(r *R) {
						ts := map[string]*Node{}
						place2(ts, "TestA", []Act{call("snap", 9, b), call("snap", 9, b2), call("ssnap", 9, b), call("ssnap", 9, b2)})
						place2(ts, "TestB", []Act{call("snap", 9, b2, b), call("snap", 1, b, b2)})
						place2(ts, "TestA/s", []Act{call("snap", 1, b2)})
						o := r.Run(Env{}, spec(ts))
						r.Simulate(o)
						o = r.Run(Env{CI: true}, spec(ts))
						r.ExpectAll("replay", o, "passed")
						r.Quiet(o)
						o = r.Run(Env{Update: "true"}, spec(ts).sorted(true))
						r.ExpectAll("replay", o, "passed")
						r.Quiet(o)
						o = r.Run(Env{CI: true}, spec(ts))
						r.ExpectAll("replay", o, "passed")
						r.Quiet(o)
					})
				}
			}
		},
	})
	register(&Property{
		ID:   "C04",
		Keys: []string{"replay", "touched", "outcome", "slots"},
		Rule: "real test binaries: 7 programs of 6 calls x all 64 subsets of changed calls x {longer, shorter} x {UPDATE_SNAPS=true, -count 2}; only changed calls update, exactly their slots change, unchanged entries stay in place, a CI run then passes without writing; files without changed calls are not written",
		Enum: func(tier string, emit Emit) {
			for _, p := range programs {
				for mask := uint64(0); mask < 64; mask++ {
					for hi, how := range []func(string, string) string{longer, shorter} {
						for _, cnt := range []int{1, 2} {
							if tier != "thorough" && cnt == 2 && mask%5 != 0 {
								continue
							}
							emit(fmt.Sprintf("%s, changed calls %06b (%d), -count %d", p.name, mask, hi, cnt), func(r *R) {
								ts := smallProgram(6, p.cfg, p.apis...)
								r.Run(Env{}, spec(ts).cleans(-1))
								ts2 := clone(ts)
								change(ts2, mask, how)
								o := r.Run(Env{Update: "true", Flags: count(cnt)}, spec(ts2).cleans(-1))
								r.Simulate(o)
								ad := o.addresses()
								dirty := map[string]bool{}
								for i, c := range o.Log.Calls {
									if c.Outcome() == "updated" {
										dirty[ad.of[i].file] = true
									}
								}
								for _, f := range o.Log.Touched {
									if !dirty[f] {
										r.Fail("touched", "%s was written although none of its calls changed", f)
									}
								}
								o = r.Run(Env{CI: true}, spec(ts2))
								r.ExpectAll("replay", o, "passed")
								r.Quiet(o)
								// and back again
								o = r.Run(Env{Update: "true"}, spec(ts).cleans(-1))
								r.Simulate(o)
								o = r.Run(Env{CI: true}, spec(ts))
								r.ExpectAll("replay", o, "passed")
								r.Quiet(o)
							})
						}
					}
				}
			}
		},
	})
	register(&Property{
		ID:   "C05",
		Keys: []string{"ci-write", "forbidden-write", "outcome", "slots", "stale-removed", "matched-removed", "matched-lost", "listed-kept", "reordered", "unsorted", "created", "foreign-removed", "foreign-altered", "illegal", "detect"},
		Rule: "real test binaries: the complete table {CI, not CI} x UPDATE_SNAPS in 9 values x Update option x sort x 5 APIs x {missing, equal, different} with obsolete entries and files present and the file unsorted: outcomes, the directory after the tests and the directory after Clean follow the mode table; 15 ways CI servers announce themselves",
		Enum: func(tier string, emit Emit) {
			updates := []string{"", "true", "clean", "false", "True", "1", "cleanup", "truetrue", " "}
			table := func(e Env, cfg int, sorted bool, api, state string) {
				emit(fmt.Sprintf("%v config %d sort=%v %s %s", e, cfg, sorted, api, state), func(r *R) {
					alpha := "__snapshots__/alpha_test.snap"
					ts := map[string]*Node{}
					place2(ts, "TestA", []Act{call(api, cfg, val(api, "v", 0)), call(api, cfg, val(api, "v", 1))})
					place2(ts, "TestAB", []Act{call("snap", 9, "keep"), call("ssnap", 9, "keep")})
					base := r.Run(Env{}, spec(map[string]*Node{"TestA": node(call(api, 9, val(api, "v", 0)), call(api, 9, val(api, "v", 1))), "TestAB": ts["TestAB"]}).cleans(-1))
					switch state {
					case "missing":
						if isAlone(api) {
							r.Remove(locate(stdCfgs[9], api, "TestA", 1))
						} else {
							d, _ := r.Get(alpha)
							es, _ := parseFile(d)
							var left []entry
							for _, e := range es {
								if e.id != "TestA - 1" {
									left = append(left, e)
								}
							}
							r.Put(alpha, render(left))
						}
					case "different":
						ts["TestA"] = node(call(api, cfg, longer(api, "x")), call(api, cfg, shorter(api, "x")))
					case "nodir":
						r.Remove("__snapshots__")
					}
					_ = base
					if state != "nodir" {
						d, _ := r.Get(alpha)
						r.Put(alpha, entryText("TestZ - 1", "stale")+d+entryText("TestA - 9", "stale"))
						r.Put("__snapshots__/old.snap", "stale")
						r.Put("__snapshots__/TestZ_1.snap.json", "1")
						r.Put("__snapshots__/note.txt", "note")
						r.Put("snaps2/other.snap", "note")
					}
					sp := spec(ts).sorted(sorted).cleans(2)
					sp.Opts = true
					o := r.Run(e, sp)
					r.full(o)
				})
			}
			for _, ci := range []bool{false, true} {
				for _, u := range updates {
					for _, cfg := range []int{9, 5, 6, 0} {
						for _, sorted := range []bool{false, true} {
							for _, api := range allAPIs {
								for _, st := range []string{"missing", "equal", "different", "nodir"} {
									table(Env{CI: ci, Update: u}, cfg, sorted, api, st)
								}
							}
						}
					}
				}
			}
			for _, v := range []string{"CI=1", "CI=true", "CI=True", "CONTINUOUS_INTEGRATION=true", "BUILD_NUMBER=7", "RUN_ID=1", "CI_NAME=x", "GITHUB_ACTIONS=true", "GITLAB_CI=true", "TRAVIS=true", "CIRCLECI=true", "JENKINS_URL=x BUILD_ID=1", "BUILDKITE=true", "DRONE=true", "APPVEYOR=true"} {
				v = strings.Split(v, " ")[0]
				if strings.HasPrefix(v, "JENKINS") {
					continue
				}
				for _, u := range []string{"", "true", "clean"} {
					for _, cfg := range []int{9, 5, 6} {
						for _, st := range []string{"missing", "different"} {
							table(Env{CI: true, CIVar: v, Update: u}, cfg, true, "snap", st)
							table(Env{CI: true, CIVar: v, Update: u}, cfg, true, "sjson", st)
						}
					}
				}
			}
			// CI=false is not CI
			for _, u := range updates {
				table(Env{CIVar: "CI=false", Update: u}, 9, true, "snap", "missing")
				table(Env{CIVar: "CI=false", Update: u}, 6, true, "ssnap", "different")
			}
		},
	})
	register(&Property{
		ID:   "C03",
		Keys: []string{"outcome", "slots", "known-*", "illegal"},
		Rule: "real test binaries: two tests x all assignments of 1..3 calls of 3 kinds (match, change, fail) per execution x -count 1..3 x {off, update}; the same subtest name run repeatedly in one test, nested and parallel subtests on one file, -shuffle, calls in cleanups; ordinals restart for each execution and a call's slot never depends on others; exact outcomes and slot contents",
		Enum: func(tier string, emit Emit) {
			thorough := tier == "thorough"
			kinds := []string{"p", "m", "pp", "pm", "mp", "mm", "bp", "pb", "ppp", "pmp", "bmp", "ibp"}
			mk := func(k string, api string, cfg int) (as []Act) {
				for i := range k {
					a := api
					if (k[i] == 'b' || k[i] == 'i') && api == "snap" {
						a = "json"
					}
					as = append(as, kindAct(k[i], a, cfg, i))
				}
				return
			}
			x := 0
			for cnt := 1; cnt <= 3; cnt++ {
				seqs(kinds, min(cnt, 2), func(v []string) {
					for _, pr := range namePairs {
						for _, api := range []string{"snap", "yaml", "json"} {
							for _, e := range []Env{{}, {Update: "true"}, {CI: true}} {
								x++
								if !thorough && x%5 != 0 {
									continue
								}
								emit(fmt.Sprintf("executions %v of %v, %s, %v, -count %d", v, pr, api, e, cnt), func(r *R) {
									ts := map[string]*Node{}
									e0, e1 := [][]Act{}, [][]Act{}
									for k, s := range v {
										e0 = append(e0, mk(s, api, 9))
										e1 = append(e1, mk(v[(k+1)%len(v)], api, 9))
									}
									place(ts, pr[0], e0...)
									place(ts, pr[1], e1...)
									base := map[string]*Node{}
									place(base, pr[0], mk("pp", api, 9))
									place(base, pr[1], mk("pp", api, 9))
									r.Simulate(r.Run(Env{}, spec(base).cleans(-1)))
									e.Flags = count(cnt)
									o := r.Run(e, spec(ts).cleans(-1))
									r.oneOutcome(o)
									r.Simulate(o)
								})
							}
						}
					}
				})
			}
			// repeated and nested subtests, parallel, shuffled
			for _, fl := range [][]string{nil, {"-test.count=2"}, {"-test.cpu=1,2,3"}, {"-test.parallel=2"}, {"-test.shuffle=1"}, {"-test.shuffle=2", "-test.count=2"}, {"-test.run=TestA"}, {"-test.run=Test[AB]/p"}, {"-test.failfast"}} {
				for _, parallel := range []bool{false, true} {
					for _, cfg := range []int{9, 1, 3} {
						for _, e := range []Env{{}, {Update: "true"}, {CI: true}} {
							for shape := 0; shape < 4; shape++ {
								emit(fmt.Sprintf("subtest shape %d parallel=%v config %d %v %v", shape, parallel, cfg, e, fl), func(r *R) {
									build := func(change bool) map[string]*Node {
										ts := map[string]*Node{}
										v := func(i int, tag string) []Act {
											as := calls(i, cfg, tag, "snap", "json", "yaml")
											if change && len(as) > 1 {
												as[1] = kindAct('m', as[1].API, cfg, 1)
											}
											if parallel {
												as = append([]Act{par()}, as...)
											}
											return as
										}
										for _, t := range []string{"TestA", "TestAB", "TestB"} {
											var as []Act
											as = append(as, calls(1, cfg, t, "snap")...)
											switch shape {
											case 0:
												for k := 0; k < 4; k++ {
													as = append(as, sub("p", v(k+1, fmt.Sprint(t, k))...))
												}
											case 1:
												as = append(as, sub("p", append(v(2, t+"p"), sub("p", v(3, t+"pp")...), call("snap", cfg, "after"))...), sub("p#01", v(2, t+"x")...))
											case 2:
												for _, n := range []string{"1", "10", "2", "p", "p1", "p - 1", "p/1"} {
													as = append(as, sub(n, v(2, t+n)...))
												}
											case 3:
												as = append(as, sub("p", v(2, t)...), call("json", cfg, `{"t":"between","n":0}`), sub("q", append(v(1, t), Act{K: "failnow"})...), call("snap", cfg, "end"))
											}
											ts[t] = node(as...)
										}
										return ts
									}
									r.Simulate(r.Run(Env{}, spec(build(false)).cleans(-1)))
									e.Flags = fl
									o := r.Run(e, spec(build(true)).cleans(-1))
									r.oneOutcome(o)
									r.Simulate(o)
								})
							}
						}
					}
				}
			}
			// calls in cleanups registered after the last call of the test
			for _, api := range allAPIs {
				for n := 1; n <= 3; n++ {
					for cnt := 1; cnt <= 2; cnt++ {
						for _, e := range []Env{{}, {CI: true}, {Update: "true"}} {
							emit(fmt.Sprintf("%s in a cleanup registered after %d calls, %v -count %d", api, n, e, cnt), func(r *R) {
								ts := map[string]*Node{}
								place2(ts, "TestA", append(calls(n, 9, "a", api), cleanup(call(api, 9, val(api, "late", 9)))))
								place2(ts, "TestA/s", append(calls(n, 9, "s", api), cleanup(call(api, 9, val(api, "late", 9)))))
								o := r.Run(Env{}, spec(ts).cleans(-1))
								o.LateOK = true
								r.Simulate(o)
								e.Flags = count(cnt)
								o = r.Run(e, spec(ts).cleans(-1))
								o.LateOK = true
								r.Simulate(o)
							})
						}
					}
				}
			}
			// recorded finding
			for _, e := range []Env{{}, {CI: true}, {Update: "true"}} {
				emit(fmt.Sprintf("call in a cleanup registered before the first call, %v", e), func(r *R) {
					ts := map[string]*Node{}
					place2(ts, "TestA", []Act{cleanup(call("snap", 9, "late")), call("snap", 9, "one")})
					r.Put("__snapshots__/alpha_test.snap", render([]entry{{"TestA - 1", "one"}, {"TestA - 2", "late"}}))
					o := r.Run(e, spec(ts).cleans(-1))
					for i, c := range o.Log.Calls {
						if got := c.Outcome(); got != "passed" {
							key := "outcome"
							if c.Late {
								key = "known-cleanup-ordinals"
							}
							r.Fail(key, "call %d of %s: %s, want passed", i, c.Test, got)
						}
					}
				})
			}
		},
	})
	register(&Property{
		ID:   "C19",
		Keys: []string{"outcome", "slots", "bytes", "illegal"},
		Rule: "real test binaries: 22 values pairwise through the standalone calls of two tests x -count 1..2 x {off, update, CI}: file k holds exactly the k-th value after recording, replaying and updating, also in parallel subtests",
		Enum: func(tier string, emit Emit) {
			vals := append([]string{"\r\n", "a\r", "\r\r\n", "x\r\ny\r\n"}, richBodies...)
			check := func(r *R, o *Out) {
				r.oneOutcome(o)
				r.Simulate(o)
				ad := o.addresses()
				last := map[string]string{}
				for i, c := range o.Log.Calls {
					if c.API == "ssnap" && c.Outcome() != "failed" {
						last[ad.of[i].file] = c.Vals[0]
					}
				}
				for f, v := range last {
					if got := o.Log.PreFS[f].Data; got != v {
						r.Fail("bytes", "%s holds %s, want %s", f, q(got), q(v))
					}
				}
				for f, d := range o.Log.PreFS {
					if !d.Dir && last[f] == "" && ad.alone[f] == "" && strings.HasSuffix(f, ".snap") {
						if _, was := o.Before[f]; !was && path.Base(f) != "alpha_test.snap" {
							r.Fail("bytes", "unexpected file %s", f)
						}
					}
				}
			}
			for i, a := range vals {
				for j, b := range vals {
					if tier != "thorough" && (i+j)%3 != 0 {
						continue
					}
					if strings.Contains(a+b, "\t") {
						continue
					}
					for _, parallel := range []bool{false, true} {
						emit(fmt.Sprintf("values %d and %d, parallel=%v", i, j, parallel), func(r *R) {
							build := func(a, b string) map[string]*Node {
								ts := map[string]*Node{}
								pre := []Act{}
								if parallel {
									pre = append(pre, par())
								}
								place2(ts, "TestA/x", append(append([]Act{}, pre...), call("ssnap", 9, a), call("ssnap", 9, b), call("sjson", 9, `{"b":1,"a":[]}`)))
								place2(ts, "TestA/y", append(append([]Act{}, pre...), call("ssnap", 9, b), call("ssnap", 7, a), call("ssnap", 2, a), call("snap", 9, "multi")))
								place2(ts, "TestA", []Act{call("ssnap", 3, b), call("ssnap", 3, a)})
								return ts
							}
							check(r, r.Run(Env{}, spec(build(a, b)).cleans(-1)))
							check(r, r.Run(Env{CI: true, Flags: count(2)}, spec(build(a, b)).cleans(-1)))
							check(r, r.Run(Env{}, spec(build(b, a)).cleans(-1)))
							check(r, r.Run(Env{Update: "true", Flags: count(2)}, spec(build(b, a)).cleans(-1)))
							check(r, r.Run(Env{CI: true}, spec(build(b, a)).cleans(-1)))
						})
					}
				}
			}
		},
	})
}
