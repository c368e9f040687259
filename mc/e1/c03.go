package e1

import (
	"fmt"
	"slices"
	"strings"

	"github.com/gkampitakis/go-snaps/snaps"
)

// model of one multi-entry file: ordered slots
type model struct {
	order []string
	val   map[string]string
}

func (m *model) clone() *model {
	n := &model{order: slices.Clone(m.order), val: map[string]string{}}
	for k, v := range m.val {
		n.val[k] = v
	}
	return n
}

// the snapshot files a step can address: other names, directories and extensions.
var slotFiles = []string{"s/f.snap", "s/g.snap", "s2/f.snap", "s/f.snap.x", "s/s/f.snap", "s/f.snap.snap", "s/F.snap"}

// step is one event of a history on the slot model.
type step struct {
	test string
	kind string // "match","change","new?","badjson","badmatcher","badyaml","end"
	file int
	val  string
}

// slotScenario records the initial program and then runs steps, comparing
// every call and the file with the slot model.
func slotScenario(desc string, init []step, steps []step, m Mode, opts ...func(*snaps.Config)) *Scenario {
	files := slotFiles
	runSteps := func(w *W, ss []step, opts ...func(*snaps.Config)) {
		with := func(o ...func(*snaps.Config)) *snaps.Config { return w.cfg(append(slices.Clone(opts), o...)...) }
		cfgs := []*snaps.Config{
			with(), with(snaps.Filename("g")), with(snaps.Dir(w.Dir + "/s2")), with(snaps.Ext(".x")),
			with(snaps.Dir(w.S() + "/s")), with(snaps.Filename("f.snap")), with(snaps.Filename("F")),
		}
		live := map[string]*T{}
		for _, s := range ss {
			t := live[s.test]
			if t == nil {
				t = w.T(s.test)
				live[s.test] = t
			}
			c := cfgs[s.file]
			switch s.kind {
			case "end":
				w.End(t)
				delete(live, s.test)
			case "badjson":
				w.Do(t, func() { c.MatchJSON(t, "{") })
			case "badyaml":
				w.Do(t, func() { c.MatchYAML(t, "a: [") })
			case "badmatcher":
				w.Do(t, func() { jsnMissing().run(c, t) })
			default:
				w.Do(t, func() { c.MatchSnapshot(t, s.val) })
			}
		}
		for _, s := range ss { // deterministic order
			if t := live[s.test]; t != nil {
				w.End(t)
				delete(live, s.test)
			}
		}
	}
	return &Scenario{
		Desc: desc,
		Stages: []Stage{
			{Off, func(w *W) { runSteps(w, init) }},
			{m, func(w *W) { runSteps(w, steps, opts...) }},
		},
		Check: func(r []StageResult, fail func(key, format string, args ...any)) {
			mods := make([]*model, len(files))
			for i := range mods {
				mods[i] = &model{val: map[string]string{}}
			}
			check := func(stage int, ss []step, mode Mode) bool {
				ord := map[string]int{}
				n := 0
				for si, s := range ss {
					if s.kind == "end" {
						for k := range ord {
							if strings.HasPrefix(k, s.test+"\x00") {
								delete(ord, k)
							}
						}
						continue
					}
					key := fmt.Sprintf("%s\x00%d", s.test, s.file)
					ord[key]++
					id := fmt.Sprintf("%s - %d", s.test, ord[key])
					if n >= len(r[stage].Calls) {
						fail("calls", "missing call %d", n)
						return false
					}
					c := r[stage].Calls[n]
					md := mods[s.file]
					want := "failed"
					if !strings.HasPrefix(s.kind, "bad") {
						old, ok := md.val[id]
						switch {
						case !ok && !mode.CI:
							want = "added"
							md.order = append(md.order, id)
							md.val[id] = s.val
						case !ok:
						case old == s.val:
							want = "passed"
						case mode.Update == "true" && !mode.CI:
							want = "updated"
							md.val[id] = s.val
						}
					}
					if o := c.Outcome(); o != want {
						fail("outcome", "stage %d step %d (%v) addressing [%s]: outcome %s, want %s %s", stage, si, s, id, o, want, q(strings.Join(c.Errors(), "|")))
						return false
					}
					if (want == "passed" || want == "failed") && len(c.Writes) > 0 {
						fail("wrote", "stage %d step %d (%v): wrote %q", stage, si, s, c.Writes)
						return false
					}
					fs := r[stage].FSAt(n)
					for fi, f := range files {
						es, junk := parseFile(fs[f].Data)
						var got []string
						for _, e := range es {
							got = append(got, e.id+"="+unesc(e.body))
						}
						var exp []string
						for _, id := range mods[fi].order {
							exp = append(exp, id+"="+mods[fi].val[id])
						}
						if !slices.Equal(got, exp) || len(junk) > 0 {
							fail("slots", "stage %d after step %d (%v): %s holds %q (junk %q), want %q", stage, si, s, f, got, junk, exp)
							return false
						}
					}
					n++
				}
				return true
			}
			if check(0, init, Off) {
				check(1, steps, m)
			}
		},
	}
}

func execSteps(name string, file int, kinds string, base string) (out []step) {
	for i, k := range kinds {
		s := step{test: name, file: file, kind: "call"}
		v := fmt.Sprintf("%s%d", base, i+1)
		switch k {
		case 'm': // the value recorded for this slot
			s.val = name + "/" + v
		case 'x': // another value
			s.val = name + "/other\n" + v
		case 'h': // a value that looks like other entries
			s.val = "[TestA - 1]\n[TestAB - 1]\n[TestA - 2]\n---\n[TestA/s - 1]"
		case 'j':
			s.kind = "badjson"
		case 'y':
			s.kind = "badyaml"
		case 'b':
			s.kind = "badmatcher"
		}
		out = append(out, s)
	}
	return append(out, step{test: name, kind: "end"})
}

func descSteps(ss []step) string {
	var b []string
	for _, s := range ss {
		b = append(b, fmt.Sprintf("%s.%s%d(%s)", s.test, s.kind, s.file, q(s.val)))
	}
	return strings.Join(b, " ")
}

// interleave yields all interleavings of the sequences.
func interleave(sq [][]step, f func([]step)) {
	var rec func(cur []step, pos []int)
	rec = func(cur []step, pos []int) {
		done := true
		for i := range sq {
			if pos[i] < len(sq[i]) {
				done = false
				p := slices.Clone(pos)
				p[i]++
				rec(append(slices.Clone(cur), sq[i][pos[i]]), p)
			}
		}
		if done {
			f(cur)
		}
	}
	rec(nil, make([]int, len(sq)))
}

func init() {
	names := []string{"TestA", "TestAB", "TestA/s"}
	initial := [][]step{
		nil,
		append(append(execSteps("TestA", 0, "mm", ""), execSteps("TestAB", 0, "m", "")...), execSteps("TestA/s", 0, "mm", "")...),
		append(append(append(execSteps("TestA/s", 0, "m", ""), execSteps("TestAB", 0, "mh", "")...), execSteps("TestA", 0, "mhm", "")...), execSteps("TestAB", 1, "mm", "")...),
	}
	modes := []Mode{Off, Upd, CIm}
	register(&Property{
		ID: "C03",
		Rule: "slot model over <=7 files (other name or case of it, directory, extension; pairs of them): all histories of <=2 (thorough <=3) executions of 3 tests sharing name prefixes x 9 call patterns (matching, changed, header-looking, invalid JSON/YAML, failing matcher) x 3 initial files x {off, update, CI}; " +
			"all call-level interleavings of 2 (thorough 3) simultaneously live tests; ordinals to 130; every call's outcome and the parsed file after every call compared with the model",
		Enum: func(tier string, emit Emit) {
			type pat struct {
				name string
				file int
				k    string
			}
			var pats []pat
			for _, n := range names {
				for _, k := range []string{"m", "mm", "xm", "mxm", "jm", "hm", "bx", "ym", "mmm"} {
					pats = append(pats, pat{n, 0, k})
				}
				pats = append(pats, pat{n, 1, "mx"})
			}
			add := func(ps []pat) {
				for ii, in := range initial {
					for _, m := range modes {
						emit(func() *Scenario {
							var ss []step
							for _, p := range ps {
								ss = append(ss, execSteps(p.name, p.file, p.k, "")...)
							}
							return slotScenario(fmt.Sprintf("initial %d, %v: %s", ii, m, descSteps(ss)), in, ss, m)
						})
					}
				}
			}
			seqs(pats, 1, add)
			seqs(pats, 2, add)
			three := []pat{}
			for _, p := range pats {
				if p.k == "xm" || p.k == "mm" || p.k == "hm" {
					three = append(three, p)
				}
			}
			if tier == "thorough" {
				seqs(pats, 3, add)
			} else {
				seqs(three, 3, add)
			}
			// tests alternating between two files inside one execution
			var two func(k int, cur []step)
			two = func(k int, cur []step) {
				if k == 0 {
					for _, m := range modes {
						emit(func() *Scenario {
							ss := append(slices.Clone(cur), step{test: "TestA", kind: "end"}, step{test: "TestA", kind: "call", file: 0, val: "TestA/1"}, step{test: "TestA", kind: "call", file: 1, val: "new"})
							return slotScenario("two files: "+descSteps(ss), initial[2], ss, m)
						})
					}
					return
				}
				for f := 0; f < 2; f++ {
					for _, v := range []string{"TestA/1", "other"} {
						two(k-1, append(slices.Clone(cur), step{test: "TestA", kind: "call", file: f, val: v}))
					}
				}
			}
			two(3, nil)
			if tier == "thorough" {
				two(5, nil)
			}
			// tests using several files that share the base name, the directory or a prefix of the path
			for a := range slotFiles {
				for b := range slotFiles {
					if a == b {
						continue
					}
					in := append(append(execSteps("TestA", a, "mm", ""), execSteps("TestA", b, "m", "")...), execSteps("TestAB", b, "mm", "")...)
					var mix func(k int, cur []step)
					mix = func(k int, cur []step) {
						if k == 0 {
							for _, m := range modes {
								emit(func() *Scenario {
									ss := append(slices.Clone(cur), step{test: "TestAB", kind: "call", file: b, val: "TestAB/1"}, step{test: "TestA", kind: "end"},
										step{test: "TestA", kind: "call", file: a, val: "TestA/1"}, step{test: "TestA", kind: "call", file: b, val: "TestA/1"}, step{test: "TestAB", kind: "call", file: a, val: "new"})
									return slotScenario(fmt.Sprintf("files %s and %s %v: %s", slotFiles[a], slotFiles[b], m, descSteps(ss)), in, ss, m)
								})
							}
							return
						}
						for _, f := range []int{a, b} {
							for _, v := range []string{"TestA/1", "other"} {
								mix(k-1, append(slices.Clone(cur), step{test: "TestA", kind: "call", file: f, val: v}))
							}
						}
					}
					mix(2, nil)
					mix(3, nil)
					if tier == "thorough" {
						mix(4, nil)
					}
				}
			}
			// live tests interleaved call by call (-count like re-executions included)
			il := [][][]step{
				{execSteps("TestA", 0, "xm", ""), execSteps("TestAB", 0, "mx", "")},
				{execSteps("TestA", 0, "mxh", ""), execSteps("TestA/s", 0, "hm", "")},
				{append(execSteps("TestA", 0, "m", ""), execSteps("TestA", 0, "mx", "")...), execSteps("TestAB", 0, "xm", "")},
				{execSteps("TestA", 0, "mx", ""), execSteps("TestA/s", 0, "m", ""), execSteps("TestAB", 0, "x", "")},
				{execSteps("TestA", 0, "jm", ""), execSteps("TestAB", 1, "mh", "")},
			}
			if tier == "thorough" {
				il = append(il, [][]step{execSteps("TestA", 0, "mxm", ""), execSteps("TestA/s", 0, "hm", ""), execSteps("TestAB", 0, "xm", "")},
					[][]step{append(execSteps("TestA", 0, "m", ""), execSteps("TestA", 0, "mx", "")...), append(execSteps("TestAB", 0, "hm", ""), execSteps("TestAB", 0, "m", "")...)})
			}
			for _, sq := range il {
				for ii := range initial {
					for _, m := range modes {
						interleave(sq, func(ss []step) {
							emit(func() *Scenario {
								return slotScenario(fmt.Sprintf("interleaved, initial %d, %v: %s", ii, m, descSteps(ss)), initial[ii], ss, m)
							})
						})
					}
				}
			}
			// large ordinals, repeated executions, and a changed middle slot
			for _, n := range []int{9, 10, 11, 12, 99, 100, 101, 130} {
				for _, m := range modes {
					emit(func() *Scenario {
						all := strings.Repeat("m", n)
						in := append(execSteps("TestA", 0, all, ""), execSteps("TestAB", 0, "mm", "")...)
						ch := []byte(all)
						ch[0], ch[n-1], ch[n/2] = 'x', 'x', 'h'
						ss := append(execSteps("TestA", 0, string(ch), ""), execSteps("TestA", 0, all, "")...)
						ss = append(ss, execSteps("TestAB", 0, "mm", "")...)
						return slotScenario(fmt.Sprintf("%d slots %v", n, m), in, ss, m)
					})
				}
			}
			// every pair of test names: their slots never mix
			for _, a := range testNames {
				for _, b := range testNames {
					if a == b {
						continue
					}
					for _, m := range []Mode{Off, Upd} {
						emit(func() *Scenario {
							in := append(execSteps(a, 0, "mm", ""), execSteps(b, 0, "mm", "")...)
							ss := append(execSteps(b, 0, "xmm", ""), execSteps(a, 0, "mxm", "")...)
							ss = append(ss, execSteps(b, 0, "mx", "")...)
							return slotScenario(fmt.Sprintf("names %q %q %v", a, b, m), in, ss, m)
						})
					}
				}
			}
		},
	})
}
