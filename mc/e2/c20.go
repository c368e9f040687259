package main

import (
	"fmt"
	"strings"
)

var allAPIs = []string{"snap", "json", "yaml", "ssnap", "sjson"}

// callKinds of the outcome programs.
//
//	p passes, a has no snapshot yet, m differs, i invalid input, b failing matcher
func kindAct(kind byte, api string, cfg, k int) Act {
	v := val(api, "v", k)
	switch kind {
	case 'm':
		return call(api, cfg, val(api, "changed", k))
	case 'i':
		switch api {
		case "json", "sjson":
			return call(api, cfg, "{")
		case "yaml":
			a := call(api, cfg, "a: [")
			a.Bad = true // rejected whether or not a matcher fails
			return a
		}
	case 'b':
		if api != "snap" && api != "ssnap" {
			return bad(api, cfg, v)
		}
	}
	return call(api, cfg, v)
}

// baseFor seeds the snapshots a sequence of kinds expects to find.
func baseFor(test, api string, cfg int, kinds []byte) []seedFile {
	var es []entry
	var fs []seedFile
	f := ""
	for i, k := range kinds {
		if k == 'a' {
			continue
		}
		v := val(api, "v", i)
		body := v
		switch api {
		case "json", "sjson":
			body = prettyJSON(v)
		}
		loc := locate(stdCfgs[cfg], api, test, i+1)
		if isAlone(api) {
			fs = append(fs, seedFile{path: loc, data: body})
			continue
		}
		f = loc
		es = append(es, entry{fmt.Sprintf("%s - %d", test, i+1), esc(body)})
	}
	if len(es) > 0 {
		fs = append(fs, seedFile{path: f, data: render(es)})
	}
	return fs
}

// prettyJSON of the flat objects val makes.
func prettyJSON(v string) string {
	var t string
	var n int
	fmt.Sscanf(strings.NewReplacer(`{"t":"`, "", `","n":`, " ", "}", "").Replace(v), "%s %d", &t, &n)
	return fmt.Sprintf("{\n \"n\": %d,\n \"t\": \"%s\"\n}", n, t)
}

// oneOutcome: every call ended in exactly one way.
func (r *R) oneOutcome(o *Out) {
	for i, c := range o.Log.Calls {
		switch got := c.Outcome(); got {
		case "passed", "failed", "added", "updated":
		default:
			r.Fail("illegal", "call %d of %s (%s): %s", i, c.Test, c.API, got)
		}
	}
}

func (r *R) full(o *Out) {
	r.oneOutcome(o)
	r.Simulate(o)
	r.Judge(o, nil)
}

func init() {
	register(&Property{
		ID:   "C20",
		Keys: []string{"illegal", "outcome", "counts", "summary-*", "listed-*", "stale-unlisted", "overlisted", "matched-listed", "protected-listed", "clean-panic", "empty-summary", "fault"},
		Rule: "real test binaries: all sequences of length 1..4 (thorough 5) over the call kinds {pass, add, mismatch, invalid input, failing matcher} x 5 APIs x {CI, UPDATE_SNAPS} x Update option; the same spread over parallel subtests, with skips, FailNow, t.Skip, -count and failing file system objects (directory in place of the file, file in place of the directory, unusable names); " +
			"0..3 obsolete files x 0..3 obsolete entries x 0..3 skips; every call has exactly one signal and outcome, and every Clean prints exactly these totals and the items judged obsolete, with and without colour; plus all histories of C07, C08, C09 with the same oracle",
		Enum: func(tier string, emit Emit) {
			thorough := tier == "thorough"
			x := 0
			maxN := 4
			if thorough {
				maxN = 5
			}
			for n := 1; n <= maxN; n++ {
				seqs([]byte("pamib"), n, func(kinds []byte) {
					for ai, api := range allAPIs {
						if (api == "snap" || api == "ssnap") && strings.ContainsAny(string(kinds), "ib") {
							continue
						}
						for mi, m := range cleanModes {
							for ci, cfg := range []int{9, 5, 6, 0} {
								x++
								if !thorough && n > 2 && (x+mi+ai)%29 != 0 || thorough && n > 4 && (x+mi)%7 != 0 {
									continue
								}
								if n <= 2 && ci == 3 && mi%3 != 0 {
									continue
								}
								col := x%2 == 0
								emit(fmt.Sprintf("calls %s through %s, config %d, %v", kinds, api, cfg, m), func(r *R) {
									r.seed(baseFor("TestA", api, cfg, kinds)...)
									var acts []Act
									for i, k := range kinds {
										acts = append(acts, kindAct(k, api, cfg, i))
									}
									ts := map[string]*Node{}
									place2(ts, "TestA", acts)
									e := m.env()
									e.Color = col
									o := r.Run(e, spec(ts).sorted(m.sort).cleans(1+len(kinds)%2))
									r.full(o)
								})
							}
						}
					}
				})
			}
			// spread over tests and APIs, parallel, counted
			mix := [][]byte{[]byte("p"), []byte("a"), []byte("m"), []byte("pam"), []byte("aap"), []byte("mb"), []byte("ibp"), []byte("ppppp"), []byte("mmam"), []byte("bapm")}
			for i, k1 := range mix {
				for j, k2 := range mix {
					for _, shape := range []string{"plain", "par", "skip", "failnow", "tskip", "cleanup"} {
						for mi, m := range cleanModes {
							if !thorough && (i+j*3+mi+len(shape))%6 != 0 {
								continue
							}
							emit(fmt.Sprintf("%s and %s in a %s program, %v", k1, k2, shape, m), func(r *R) {
								ts := map[string]*Node{}
								for ti, t := range []string{"TestA/x", "TestA/y", "TestAB", "TestB/x", "TestC"} {
									k := k1
									if ti%2 == 1 {
										k = k2
									}
									api := allAPIs[(ti+i)%5]
									r.seed(baseFor(t, api, 7, k)...) // own files per test except the shared multi-entry file
									var acts []Act
									if shape == "par" && t != "TestAB" {
										acts = append(acts, par())
									}
									for n, kk := range k {
										acts = append(acts, kindAct(kk, api, 7, n))
									}
									switch shape {
									case "skip":
										acts = append(acts, skip([]string{"Skip", "Skipf", "SkipNow", "real"}[ti%4]))
									case "failnow":
										acts = append(acts, Act{K: "failnow"})
									case "tskip":
										acts = append(acts, Act{K: "tskip"})
									case "cleanup":
										acts = append(acts, cleanup(call("snap", 9, "late"), call("sjson", 9, "1")))
									}
									place2(ts, t, acts)
								}
								fl := count(1 + (i+j)%3)
								o := r.Run(m.env(fl...), spec(ts).sorted(m.sort))
								r.oneOutcome(o)
								r.Judge(o, nil)
								if shape != "par" && shape != "cleanup" {
									r.Simulate(o)
								}
							})
						}
					}
				}
			}
			// totals
			for files := 0; files <= 3; files++ {
				for ents := 0; ents <= 3; ents++ {
					for skips := 0; skips <= 3; skips++ {
						for live := 0; live <= 2; live++ {
							for mi, m := range cleanModes {
								if !thorough && (files+ents+skips+live+mi)%3 != 0 {
									continue
								}
								emit(fmt.Sprintf("%d obsolete files, %d obsolete entries, %d skips, %d matched, %v", files, ents, skips, live, m), func(r *R) {
									ts := map[string]*Node{}
									var es []entry
									for i := 0; i < live; i++ {
										place2(ts, "TestA", []Act{call("snap", 9, fmt.Sprint("v", i))})
										es = append(es, entry{fmt.Sprintf("TestA - %d", i+1), fmt.Sprint("v", i)})
									}
									for i := 0; i < ents; i++ {
										es = append(es, entry{fmt.Sprintf("TestZ - %d", i+1), "z"})
									}
									if len(es) > 0 {
										r.Put("__snapshots__/alpha_test.snap", render(es))
									}
									for i := 0; i < files; i++ {
										r.Put(fmt.Sprintf("__snapshots__/old%d.snap", i), "z")
									}
									for i := 0; i < skips; i++ {
										place2(ts, []string{"TestB", "TestC", "TestBA"}[i], []Act{skip([]string{"Skip", "Skipf", "SkipNow"}[i])})
									}
									e := m.env()
									e.Color = (files+ents)%2 == 0
									o := r.Run(e, spec(ts).sorted(m.sort).cleans(2))
									r.full(o)
									if live == 0 && skips == 0 && strings.TrimSpace(o.Log.Cleans[0].Out) != "" {
										r.Fail("empty-summary", "nothing happened but Clean prints %s", q(o.Log.Cleans[0].Out))
									}
								})
							}
						}
					}
				}
			}
			// unusable places
			long := strings.Repeat("n", 300)
			faulty := []Cfg{{Opts: true}, {Filename: long, Opts: true}, {Filename: "a\x00b", Opts: true}, {Dir: "__snapshots__/f", Opts: true}, {Filename: "nested/name", Opts: true}, {Dir: "d\x00", Opts: true}, {Update: &yes, Opts: true}, {Update: &no, Opts: true}}
			for fi := range faulty {
				for _, kind := range []string{"dir-is-file", "file-is-dir", "nothing", "empty-file", "torn-file", "dangling"} {
					for _, api := range allAPIs {
						for mi, m := range cleanModes {
							if !thorough && (fi+mi)%2 != 0 {
								continue
							}
							emit(fmt.Sprintf("unusable place: config %d, %s, %s, %v", fi, kind, api, m), func(r *R) {
								switch kind {
								case "dir-is-file":
									r.Put("__snapshots__", "x")
								case "file-is-dir":
									r.Mkdir("__snapshots__/alpha_test.snap/x")
									r.Mkdir("__snapshots__/TestA_1.snap/x")
									r.Mkdir("__snapshots__/TestA_1.snap.json/x")
								case "empty-file":
									r.Put("__snapshots__/alpha_test.snap", "")
									r.Put("__snapshots__/TestA_1.snap", "")
									r.Put("__snapshots__/TestA_1.snap.json", "")
								case "torn-file":
									r.Put("__snapshots__/alpha_test.snap", "\n[TestA - 1]\nno end")
									r.Put("__snapshots__/TestA_1.snap.json", "{")
								case "dangling":
									r.Mkdir("__snapshots__")
									r.Symlink("__snapshots__/alpha_test.snap", "/nonexistent/x")
									r.Symlink("__snapshots__/TestA_1.snap", "/nonexistent/x")
									r.Symlink("__snapshots__/TestA_1.snap.json", "/nonexistent/x")
								}
								ts := map[string]*Node{}
								place2(ts, "TestA", calls(2, 0, "v", api))
								place2(ts, "TestB", calls(1, 0, "v", api))
								o := r.Run(m.env(), Spec{Cfgs: []Cfg{faulty[fi]}, Tests: ts, Sort: m.sort})
								r.oneOutcome(o)
								want := map[string]int{"skipped": 0}
								for _, c := range o.Log.Calls {
									want[c.Outcome()]++
									// a call that says it stored its value stored it
								}
								for _, c := range o.Log.Cleans {
									if c.Panic != "" {
										r.Fail("clean-panic", "Clean panicked: %s", c.Panic)
									}
									s := parseSummary(c.Out)
									if s.title == 0 && kind != "nothing" {
										continue // Clean met an error of its own
									}
									for _, k := range []string{"passed", "failed", "added", "updated", "skipped"} {
										if s.counts[k] != want[k] {
											r.Fail("counts", "summary says %d %s, want %d: %s", s.counts[k], k, want[k], q(c.Out))
										}
									}
								}
								o2 := r.Run(Env{CI: true}, Spec{Cfgs: []Cfg{faulty[fi]}, Tests: ts})
								for i, c := range o2.Log.Calls {
									was := o.Log.Calls[i].Outcome()
									if kind != "torn-file" && was != "failed" && c.Outcome() != "passed" {
										r.Fail("fault", "call %d (%s) was %s and now is %s: it cannot have stored its value", i, c.API, was, c.Outcome())
									}
								}
							})
						}
					}
				}
			}
			sample := 3
			if thorough {
				sample = 1
			}
			for _, id := range []string{"C07", "C08", "C09"} {
				k := 0
				properties[id].Enum("quick", func(d string, run func(*R)) {
					k++
					if k%sample == 0 {
						emit(id+": "+d, run)
					}
				})
			}
		},
	})
}
