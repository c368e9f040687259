package main

import (
	"fmt"
	"strings"
)

// liveProgram calls through several configurations; the directories it visits
// are __snapshots__, snaps2, abs/deep and sub/dir.snap.
func liveProgram() map[string]*Node {
	ts := map[string]*Node{}
	place2(ts, "TestA", append(calls(3, 9, "a", "snap", "json", "yaml"), calls(2, 9, "a", "ssnap", "sjson")...))
	place2(ts, "TestA/s", append(calls(2, 9, "s", "snap"), calls(2, 9, "s", "ssnap")...))
	place2(ts, "FuzzA", calls(1, 9, "f", "snap"))
	place2(ts, "TestB", append(calls(2, 9, "b", "snap", "ssnap"), calls(2, 2, "b", "snap", "ssnap")...))
	place2(ts, "TestB/x", calls(2, 4, "x", "snap", "json"))
	place2(ts, "TestC", append(calls(2, 8, "c", "json", "snap"), calls(2, 7, "c", "ssnap", "snap")...))
	return ts
}

type seedFile struct {
	path, data string
	dir        bool
}

func (r *R) seed(fs ...seedFile) {
	for _, f := range fs {
		if f.dir {
			r.Mkdir(f.path)
		} else {
			r.Put(f.path, f.data)
		}
	}
}

var staleIDs = []string{"TestA - 4", "TestA - 10", "TestA - 100", "TestZ - 1", "TestA/gone - 1", "TestA/s - 3", "TestA/s/u - 1", "TestAB - 1", "FuzzA - 2", "FuzzZ - 1", "TestB - 1", "TestA/s/ - 1", "TestA/a_-_1] - 2", "Test/é - 1", "TestC/[x] - 1", "TestB/x - 1",
	// ids that are near to addressed ones
	"testa - 1", "TestA/S - 1", "TestA - 0", "TestA - 01", "TestA - 18446744073709551617", "TestA_s - 1", "TestA/\u017f - 1", "TestA/s - 10"}

var staleBodies = []string{"stale", "", "[TestA - 1]", "\n\nx\n\n", "---x\n ---\n--- ", "/-/-/-/\n/-/-/-//-/-/-/", "[TestB - 1]\n[TestA - 2]\nvalue", strings.Repeat("long ", 20000)}

// insertEntry puts an entry before the n-th entry of a file.
func insertEntry(data string, n int, id, body string) string {
	es, _ := parseFile(data)
	if n > len(es) {
		n = len(es)
	}
	es = append(es[:n:n], append([]entry{{id, body}}, es[n:]...)...)
	return render(es)
}

func init() {
	register(&Property{
		ID:   "C09",
		Keys: []string{"stale-*", "overlisted", "listed-*", "foreign-*", "known-*", "created", "forbidden-write", "ci-write", "summary-count", "summary-format", "clean-panic", "second", "reordered", "entry-lost", "entry-extra", "needless-write", "matched-listed", "matched-removed", "protected-listed"},
		Rule: "real test binaries: a program that visits four directories through multi-entry and standalone calls; single stale entries (16 ids x 8 bodies x every position x files) and all pairs of stale ids; files of 34 names x 6 contents x 9 places (visited, nested, unvisited directories, directories named like snapshots), pairs of such files; " +
			"stale standalone names; skip-protected entries and files, and those whose names almost match; sources without functions; files of one entry; removed, empty and never created addressed files; x {CI, UPDATE_SNAPS unset/clean/true/other} x sort x -count; after every run Clean (twice) must list exactly the stale set of the model, remove exactly that in clean mode and nothing otherwise; a second clean run must find nothing",
		Assume: []string{"entries and files of tests that share a prefix with a skipped test in their file name only are not decided"},
		Enum: func(tier string, emit Emit) {
			thorough := tier == "thorough"
			alpha := "__snapshots__/alpha_test.snap"
			again := func(r *R, o *Out, m mode, ts map[string]*Node, flags ...string) {
				if m.ci || m.update != "clean" && m.update != "true" {
					return
				}
				o2 := r.Run(m.env(flags...), spec(ts).sorted(m.sort))
				r.Judge(o2, nil)
				for _, c := range o2.Log.Cleans {
					if s := parseSummary(c.Out); len(s.files)+len(s.tests) > 0 {
						r.Fail("second", "a second run in clean mode still finds stale items: %s", q(c.Out))
					}
				}
			}
			x := 0
			// stale entries
			for si, id := range staleIDs {
				for bi, body := range staleBodies {
					for pos := 0; pos <= 8; pos++ {
						for mi, m := range cleanModes {
							x++
							if !thorough && (si+bi*3+pos*5+mi*7)%8 != 0 {
								continue
							}
							for _, f := range []string{alpha, "abs/deep/z.snap"} {
								if f != alpha && (x%3 != 0 || pos > 2) {
									continue
								}
								cnt := 1 + x%2
								emit(fmt.Sprintf("stale entry [%s] with body %d at position %d of %s, %v, -count %d", id, bi, pos, f, m, cnt), func(r *R) {
									ts := liveProgram()
									r.Run(Env{}, spec(ts).cleans(-1))
									d, _ := r.Get(f)
									r.Put(f, insertEntry(d, pos, id, body))
									o := r.Run(m.env(count(cnt)...), spec(ts).sorted(m.sort).cleans(2))
									r.Judge(o, nil)
									again(r, o, m, ts)
								})
							}
						}
					}
				}
				for sj := si + 1; sj < len(staleIDs); sj++ {
					for mi, m := range cleanModes {
						if !thorough && (si+sj+mi)%4 != 0 {
							continue
						}
						emit(fmt.Sprintf("stale entries [%s] and [%s], %v", id, staleIDs[sj], m), func(r *R) {
							ts := liveProgram()
							r.Run(Env{}, spec(ts).cleans(-1))
							d, _ := r.Get(alpha)
							d = insertEntry(d, si%7, id, staleBodies[sj%7])
							r.Put(alpha, insertEntry(d, sj%7, staleIDs[sj], staleBodies[si%7]))
							o := r.Run(m.env(), spec(ts).sorted(m.sort).cleans(2))
							r.Judge(o, nil)
							again(r, o, m, ts)
						})
					}
				}
			}
			// every subset of five stale entries spread over a file, duplicates included
			five := []entry{{"TestA - 4", "x"}, {"TestZ - 1", ""}, {"TestA - 4", "dup"}, {"FuzzZ - 1", "y"}, {"TestA/s - 9", "[TestA - 1]"}}
			for set := 1; set < 32; set++ {
				for _, m := range cleanModes {
					emit(fmt.Sprintf("subset %05b of five stale entries, %v", set, m), func(r *R) {
						ts := liveProgram()
						r.Run(Env{}, spec(ts).cleans(-1))
						d, _ := r.Get(alpha)
						for k, e := range five {
							if set>>k&1 == 1 {
								d = insertEntry(d, (k*2)%9, e.id, e.body)
							}
						}
						r.Put(alpha, d)
						o := r.Run(m.env(), spec(ts).sorted(m.sort).cleans(2))
						r.Judge(o, nil)
						again(r, o, m, ts)
					})
				}
			}
			// stale files that hold the name of a skipped test
			for _, n := range []string{"MyTestA_1.snap", "xTestA/s", "old.TestA_s_1.snap", "-TestA_1.snap", "TestA1.snap", "TestA.snap", "testA_1.snap", "testa_s_1.snap", "TestAs_1.snap", "TestBTestA_1.snap"} {
				for _, skipped := range []string{"TestA", "TestA/s"} {
					for _, m := range cleanModes {
						emit(fmt.Sprintf("%s skipped, stale file %s, %v", skipped, n, m), func(r *R) {
							ts := liveProgram()
							r.Run(Env{}, spec(ts).cleans(-1))
							skipAt(ts, skipped, "Skip", 1)
							r.Put("__snapshots__/"+strings.ReplaceAll(n, "/", "_"), "stale")
							o := r.Run(m.env(), spec(ts).sorted(m.sort).cleans(2))
							r.Judge(o, nil)
						})
					}
				}
			}
			// stale files next to whose directory lies a source file of that name
			for _, n := range []string{"zz_test", "doc", "types.v1"} {
				for si, src := range []string{"package pkg\n", "package pkg\n\ntype t int\n", "package pkg\n\nfunc TestZZ(t int) {}\n", "package pkg\n\nfunc helper() {}\n", "package pkg (\n", "", "package pkg\n\nvar s = \"TestA\" // TestA\n"} {
					for _, body := range []string{"x", entryText("TestZZ - 1", "x"), entryText("TestZ - 1", "x") + entryText("TestZ - 2", "y"), ""} {
						for _, m := range cleanModes {
							x++
							if !thorough && (x+si)%3 != 0 {
								continue
							}
							emit(fmt.Sprintf("stale file %s.snap (%q) of the source %q, %v", n, body, src, m), func(r *R) {
								ts := liveProgram()
								r.Run(Env{}, spec(ts).cleans(-1))
								r.Put(n+".go", src)
								r.Put("__snapshots__/"+n+".snap", body)
								o := r.Run(m.env(), spec(ts).sorted(m.sort).cleans(2))
								r.Judge(o, nil)
								again(r, o, m, ts)
							})
						}
					}
				}
			}
			// other files
			names := []string{"x.snap", "x.snap.bak", ".snap", "x.SNAP", "x.snapshot", "asnapb", "snap", "x.snap.json", "notes.txt", "x.sna", "my.snap~", "a b.snap", "x_snap", ".snap.swp", "gone_test.snap", "alpha_test.snap.orig", "alpha_test.snap.html.snap",
				"TestA_1.snap.txt", "TestA_3.snap", "TestA_1.snap.html", "TestA_0.snap", "TestA_01.snap", "TestZ_1.snap", "TestA_s_9.snap", "TestA_s_1.snap.json", "TestA_3.snap.json", "%d.snap", "TestA_%d.snap", "x.go", "x_test.go", "shared_1.snap", "z.snap.snap", "README.md", "é.snap"}
			datas := []string{"", "junk\n", entryText("TestZ - 1", "v"), entryText("TestA - 1", "v"), entryText("TestZ - 1", "v") + "junk", "\x00\xff---\n[TestA - 1]"}
			places := []string{"__snapshots__", "__snapshots__/nested", "other", ".", "snaps2", "snaps2/deep", "abs", "abs/deep", "sub", "sub/dir.snap"}
			for ni, n := range names {
				for di, d := range datas {
					for pi, p := range places {
						for mi, m := range cleanModes {
							if p == "." && strings.HasSuffix(n, ".go") {
								continue
							}
							if !thorough && (ni+di+pi*5+mi*3)%11 != 0 {
								continue
							}
							emit(fmt.Sprintf("file %s/%s with content %d, %v", p, n, di, m), func(r *R) {
								ts := liveProgram()
								r.Run(Env{}, spec(ts).cleans(-1))
								r.Put(p+"/"+n, d)
								o := r.Run(m.env(), spec(ts).sorted(m.sort).cleans(2))
								r.Judge(o, nil)
								again(r, o, m, ts)
							})
						}
					}
				}
				// pairs of names, one of them a directory
				for nj, n2 := range names {
					if ni == nj || !thorough && (ni+nj)%5 != 0 {
						continue
					}
					for _, m := range []mode{cleanModes[0], cleanModes[2], cleanModes[5], cleanModes[7]} {
						emit(fmt.Sprintf("file %s and directory %s in visited directories, %v", n, n2, m), func(r *R) {
							ts := liveProgram()
							r.Run(Env{}, spec(ts).cleans(-1))
							r.Put("__snapshots__/"+n, datas[(ni+nj)%len(datas)])
							r.Put("snaps2/"+n, datas[(ni*nj)%len(datas)])
							if _, exists := r.Get("__snapshots__/" + n2); !exists {
								r.Mkdir("__snapshots__/" + n2)
							}
							if _, exists := r.Get("snaps2/" + n2 + "/" + n); !exists {
								r.Put("snaps2/"+n2+"/"+n, "x")
							}
							o := r.Run(m.env(), spec(ts).sorted(m.sort).cleans(2))
							r.Judge(o, nil)
							again(r, o, m, ts)
						})
					}
				}
			}
			// addressed files that are empty, missing, or hold only stale entries
			for _, kind := range []string{"empty", "rm", "only-stale", "newlines", "huge", "no-final-newline"} {
				for _, m := range cleanModes {
					for _, f := range []string{alpha, "snaps2/beta_test.snap", "sub/dir.snap/x.snap.snap"} {
						emit(fmt.Sprintf("addressed file %s %s when Clean starts, %v", f, kind, m), func(r *R) {
							ts := liveProgram()
							r.Run(Env{}, spec(ts).cleans(-1))
							d, _ := r.Get("__snapshots__/beta_test.snap")
							r.Put("__snapshots__/beta_test.snap", insertEntry(d, 1, "TestZ - 1", "other stale"))
							d, _ = r.Get(f)
							r.Put("__snapshots__/TestZ_1.snap", "stale")
							r.Put("snaps2/TestZ_1.snap", "stale")
							r.Put("abs/deep/TestZ_1.snap", "stale")
							sp := spec(ts).sorted(m.sort).cleans(2)
							switch kind {
							case "empty":
								sp.Spoil = []Spoil{{f, "", "put"}}
							case "rm":
								sp.Spoil = []Spoil{{f, "", "rm"}}
							case "only-stale":
								sp.Spoil = []Spoil{{f, entryText("TestZ - 2", "x") + entryText("TestY - 1", "y"), "put"}}
							case "newlines":
								sp.Spoil = []Spoil{{f, "\n\n\n" + d + "\n\n", "put"}}
							case "huge":
								sp.Spoil = []Spoil{{f, d + entryText("TestZ - 3", strings.Repeat("y", 1<<20)), "put"}}
							case "no-final-newline":
								sp.Spoil = []Spoil{{f, strings.TrimSuffix(insertEntry(d, 0, "TestZ - 1", "x"), "\n"), "put"}}
							}
							r.Judge(r.Run(m.env(), sp), nil)
						})
					}
				}
			}
			// programs that address little or nothing
			for _, m := range cleanModes {
				for vi, ts := range []map[string]*Node{
					{}, {"TestA": node(call("json", 9, "{"))}, {"TestA": node(call("snap", 6, "x"))}, {"TestA": node(call("ssnap", 6, "x"))}, {"TestA": node(call("ssnap", 9, "x"))}, {"TestA": node(call("snap", 2, "x"))}, {"TestA": node(skip(""))}, {"TestA": node(call("sjson", 9, "1"), call("json", 4, "1"))},
				} {
					for _, cnt := range []int{1, 3} {
						emit(fmt.Sprintf("small program %d over a full directory, %v, -count %d", vi, m, cnt), func(r *R) {
							r.Run(Env{}, spec(liveProgram()).cleans(-1))
							r.Put("__snapshots__/x.snap", "x")
							r.Put("snaps2/x.snap", "x")
							o := r.Run(m.env(count(cnt)...), spec(ts).sorted(m.sort).cleans(2))
							r.Judge(o, nil)
						})
					}
				}
			}
			// tests removed from the program, one and two at a time, with skips of others
			lp := []string{"TestA", "TestA/s", "FuzzA", "TestB", "TestB/x", "TestC"}
			for i, gone := range lp {
				for j, sk := range lp {
					for _, m := range cleanModes {
						if !thorough && (i+j+len(m.update))%2 == 1 {
							continue
						}
						emit(fmt.Sprintf("%s makes no calls any more, %s skipped, %v", gone, sk, m), func(r *R) {
							p := r.Run(Env{}, spec(liveProgram()).cleans(-1)).prog()
							ts := liveProgram()
							n := find(ts, gone)
							var left []Act
							for _, a := range n.Execs[0] {
								if a.K == "sub" {
									left = append(left, a)
								}
							}
							n.Execs[0] = left
							place2(ts, "Test_A", []Act{call("ssnap", 4, "v"), call("ssnap", 8, "v"), call("ssnap", 2, "v"), call("ssnap", 9, "v")})
							if i != j {
								skipAt(ts, sk, "Skip", 0)
							}
							o := r.Run(m.env(), spec(ts).sorted(m.sort).cleans(2))
							r.Judge(o, p)
						})
					}
				}
			}
		},
	})
}
