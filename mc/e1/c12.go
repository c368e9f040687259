package e1

import (
	"fmt"
	"path/filepath"
	"slices"
	"strings"

	"github.com/gkampitakis/go-snaps/snaps"
)

type cfgSpec struct {
	name string
	opts func() []func(*snaps.Config)
}

func init() {
	specs := []cfgSpec{
		{"Dir only", func() []func(*snaps.Config) { return nil }},
		{"Ext(.txt)", func() []func(*snaps.Config) { return []func(*snaps.Config){snaps.Ext(".txt")} }},
		{"Filename(f)", func() []func(*snaps.Config) { return []func(*snaps.Config){snaps.Filename("f")} }},
		{"Update(true)", func() []func(*snaps.Config) { return []func(*snaps.Config){snaps.Update(true)} }},
		{"Update(false)", func() []func(*snaps.Config) { return []func(*snaps.Config){snaps.Update(false)} }},
		{"JSON{Indent:\\t}", func() []func(*snaps.Config) {
			return []func(*snaps.Config){snaps.JSON(snaps.JSONConfig{Indent: "\t", Width: 40})}
		}},
		{"JSON{} Ext Filename", func() []func(*snaps.Config) {
			return []func(*snaps.Config){snaps.JSON(snaps.JSONConfig{SortKeys: true, Indent: "  "}), snaps.Ext(".json"), snaps.Filename("g")}
		}},
	}
	js := `{"b":[1,2,{"x":1}],"a":"v"}`
	calls := []op{snap("v"), jsn(js), yml("a: 1\n"), ssnap("w"), sjson(js), jsn("{bad"), snap("v", "other"), sjson([]byte(`[3,"x"]`))}
	calls = append(calls, jsnMissing())
	register(&Property{
		ID:   "C12",
		Rule: "all call sequences of length <=3 (thorough <=4) over 9 kinds of calls (five APIs, invalid input, failing matcher) made through one shared Config, for 7 option sets x {off, update} x {empty, pre-recorded}, compared call by call with the same sequence through a fresh Config per call; pairs of Configs with calls interleaved; all pairs of option lists of length <=2 (thorough <=3) over 9 option values shared by two Configs, compared with Configs built from option values of their own; caller's JSONConfig / option variables mutated afterwards",
		Enum: func(tier string, emit Emit) {
			depth := 3
			if tier == "thorough" {
				depth = 4
			}
			modes := []Mode{Off, Upd, CIm}
			for _, sp := range specs {
				for _, m := range modes {
					for n := 1; n <= depth; n++ {
						if n == 4 && m != Off {
							continue
						}
						seqs(calls, n, func(ops []op) {
							for _, pre := range []bool{false, true} {
								emit(func() *Scenario {
									run := func(w *W, sub string, shared bool) {
										dir := filepath.Join(w.Dir, sub)
										mk := func() *snaps.Config {
											return snaps.WithConfig(append([]func(*snaps.Config){snaps.Dir(dir)}, sp.opts()...)...)
										}
										c := mk()
										w.Test("TestC", func(t *T) {
											for _, o := range ops {
												if !shared {
													c = mk()
												}
												w.Do(t, func() { o.run(c, t) })
											}
										})
									}
									st := []Stage{}
									if pre { // record different values in both directories with fresh configs
										st = append(st, Stage{Off, func(w *W) {
											for _, sub := range []string{"a", "b"} {
												w.Test("TestC", func(t *T) {
													for _, o := range ops {
														c := snaps.WithConfig(append([]func(*snaps.Config){snaps.Dir(filepath.Join(w.Dir, sub))}, sp.opts()...)...)
														p := o
														switch o.api {
														case "snap", "ssnap":
															p.vals = []any{"previous"}
														case "yaml":
															p.vals = []any{"p: 1"}
														default:
															p.vals = []any{"[0]"}
														}
														w.Do(t, func() { p.run(c, t) })
													}
												})
											}
										}})
									}
									st = append(st, Stage{m, func(w *W) { run(w, "a", true); run(w, "b", false) }})
									return &Scenario{
										Desc:   fmt.Sprintf("%s %v pre=%v %v", sp.name, m, pre, ops),
										Stages: st,
										Check: func(r []StageResult, fail func(key, format string, args ...any)) {
											compareHalves(r[len(r)-1], "a", "b", len(ops), fail)
										},
									}
								})
							}
						})
					}
				}
			}
			// two configs interleaved vs. each alone, and option values reused / mutated after the config was built
			for i, s1 := range specs {
				for k, s2 := range specs {
					seqs([]int{0, 1}, 3, func(who []int) {
						for _, o := range [][]op{{snap("v"), sjson(js), jsn(js)}, {sjson(js), ssnap("w"), yml("a: 1")}, {sjson(js), sjson(js), jsn(js)}} {
							emit(func() *Scenario {
								return &Scenario{
									Desc: fmt.Sprintf("configs %s / %s order %v %v", specs[i].name, specs[k].name, who, o),
									Stages: []Stage{{Off, func(w *W) {
										mk := func(sub string, n int) *snaps.Config {
											sp := s1
											if n == 1 {
												sp = s2
											}
											return snaps.WithConfig(append([]func(*snaps.Config){snaps.Dir(filepath.Join(w.Dir, sub, fmt.Sprint(n)))}, sp.opts()...)...)
										}
										shared := []*snaps.Config{mk("a", 0), mk("a", 1)}
										w.Test("TestC", func(t *T) {
											for n, x := range o {
												w.Do(t, func() { x.run(shared[who[n]], t) })
											}
										})
										w.Test("TestC", func(t *T) {
											for n, x := range o {
												w.Do(t, func() { x.run(mk("b", who[n]), t) })
											}
										})
									}}},
									Check: func(r []StageResult, fail func(key, format string, args ...any)) {
										compareHalves(r[0], "a", "b", len(o), fail)
									},
								}
							})
						}
					})
				}
			}
			// option values (closures) shared by two Configs: every pair of option lists over a pool of option
			// values, both Configs built before any call; compared with Configs built from option values of their own
			mkPool := func() []func(*snaps.Config) {
				return []func(*snaps.Config){
					snaps.Filename("f"), snaps.Filename("g"), snaps.Ext(".x"), snaps.Ext(".json"), snaps.Update(true), snaps.Update(false),
					snaps.JSON(snaps.JSONConfig{Indent: "\t", Width: 40}), snaps.JSON(snaps.JSONConfig{Indent: " ", SortKeys: true}), snaps.Dir("overridden"),
				}
			}
			poolNames := []string{"Filename(f)", "Filename(g)", "Ext(.x)", "Ext(.json)", "Update(true)", "Update(false)", "JSON(tab)", "JSON(sort)", "Dir(overridden)"}
			nPool := []int{0, 1, 2, 3, 4, 5, 6, 7, 8}
			var lists [][]int
			for n := 0; n <= 2; n++ {
				seqs(nPool, n, func(l []int) { lists = append(lists, l) })
			}
			if tier == "thorough" {
				seqs([]int{0, 2, 4, 5, 6, 7}, 3, func(l []int) { lists = append(lists, l) })
			}
			names := func(l []int) (out []string) {
				for _, i := range l {
					out = append(out, poolNames[i])
				}
				return
			}
			for _, l1 := range lists {
				for _, l2 := range lists {
					shares := false
					for _, a := range l1 {
						shares = shares || slices.Contains(l2, a)
					}
					if !shares && len(l1)+len(l2) > 2 {
						continue // no option value in common
					}
					for _, m := range []Mode{Off, Upd} {
						emit(func() *Scenario {
							return &Scenario{
								Desc: fmt.Sprintf("shared option values %v and %v %v", names(l1), names(l2), m),
								Stages: []Stage{{m, func(w *W) {
									build := func(pool []func(*snaps.Config), l []int, dir string) *snaps.Config {
										var opts []func(*snaps.Config)
										for _, i := range l {
											opts = append(opts, pool[i])
										}
										return snaps.WithConfig(append(opts, snaps.Dir(filepath.Join(w.Dir, dir)))...)
									}
									use := func(c *snaps.Config) {
										for _, v := range []string{"one", "two"} {
											w.Test("TestC", func(t *T) {
												w.Do(t, func() { c.MatchSnapshot(t, v) })
												w.Do(t, func() { c.MatchStandaloneJSON(t, js) })
											})
										}
									}
									pool := mkPool()
									c1, c2 := build(pool, l1, "a/1"), build(pool, l2, "a/2")
									use(c1)
									use(c2)
									use(build(mkPool(), l1, "b/1"))
									use(build(mkPool(), l2, "b/2"))
								}}},
								Check: func(r []StageResult, fail func(key, format string, args ...any)) {
									compareHalves(r[0], "a", "b", 8, fail)
								},
							}
						})
					}
				}
			}
			// the options are taken by value: one option slice used for several configs, and the
			// JSONConfig / bool handed in changed afterwards
			emit(func() *Scenario {
				return &Scenario{
					Desc: "shared option values",
					Stages: []Stage{{Off, func(w *W) {
						jc := snaps.JSONConfig{Indent: " ", SortKeys: true}
						u := true
						opts := func(d string) []func(*snaps.Config) {
							return []func(*snaps.Config){snaps.Dir(filepath.Join(w.Dir, d))}
						}
						common := []func(*snaps.Config){snaps.JSON(jc), snaps.Update(u), snaps.Ext(".e")}
						c1 := snaps.WithConfig(append(common, opts("a")...)...)
						c2 := snaps.WithConfig(append(common, opts("b")...)...)
						c3 := snaps.WithConfig(append(opts("c"), snaps.Ext(".e"), snaps.JSON(snaps.JSONConfig{Indent: " ", SortKeys: true}))...)
						jc.Indent, jc.SortKeys, u = "\t\t", false, false
						for _, c := range []*snaps.Config{c1, c2, c3} {
							w.Test("TestC", func(t *T) {
								w.Do(t, func() { c.MatchStandaloneJSON(t, js) })
								w.Do(t, func() { c.MatchJSON(t, js) })
							})
						}
					}}},
					Check: func(r []StageResult, fail func(key, format string, args ...any)) {
						expectAll(r[0], "record", "added", false, fail)
						sub := func(d string) string {
							var out []string
							for _, f := range r[0].After.Files() {
								if strings.HasPrefix(f, d+"/") {
									out = append(out, f[2:]+"="+r[0].After[f].Data)
								}
							}
							return strings.Join(out, "\n")
						}
						if a, b, c := sub("a"), sub("b"), sub("c"); a != b || b != c || a == "" {
							fail("differ", "equal configs stored differently:\n%s\n%s\n%s", a, b, c)
						}
					},
				}
			})
		},
	})
}

// compareHalves: the stage made n calls into sub directory a and the same n calls into b.
func compareHalves(r StageResult, a, b string, n int, fail func(key, format string, args ...any)) {
	if len(r.Calls) != 2*n {
		fail("calls", "%d calls, want %d", len(r.Calls), 2*n)
		return
	}
	norm := func(c Call, sub string) string {
		var w []string
		for _, x := range c.Writes {
			if x == "+"+sub || strings.HasPrefix(x, "+"+sub+"/") && !strings.Contains(x, ".snap") {
				continue // the directory itself
			}
			w = append(w, strings.Replace(x, sub+"/", "", 1))
		}
		slices.Sort(w)
		var ev []string
		for _, e := range c.Events {
			ev = append(ev, e.Kind+":"+strings.ReplaceAll(e.Text, "/"+sub+"/", "/*/"))
		}
		return c.Outcome() + " " + strings.Join(w, ",") + " " + strings.Join(ev, "|")
	}
	for i := 0; i < n; i++ {
		x, y := norm(r.Calls[i], a), norm(r.Calls[n+i], b)
		if x != y {
			fail("differ", "call %d through the shared Config: %s\n    through a fresh Config: %s", i, q(x), q(y))
			return
		}
	}
	side := func(sub string) string {
		var out []string
		for _, f := range r.After.Files() {
			if strings.HasPrefix(f, sub+"/") {
				out = append(out, f[len(sub):]+"="+r.After[f].Data)
			}
		}
		return strings.Join(out, "\n")
	}
	if x, y := side(a), side(b); x != y {
		fail("differ", "files through the shared Config: %s\n    through fresh Configs: %s", q(x), q(y))
	}
}
