package e1

import (
	"fmt"
	"strings"

	"github.com/gkampitakis/go-snaps/snaps"
)

// permitted is the documented mode table.
func permitted(m Mode, opt *bool) (create, rewrite bool) {
	if m.CI {
		return false, false
	}
	if opt != nil {
		return *opt, *opt
	}
	return true, m.Update == "true"
}

func init() {
	yes, no := true, false
	optsOf := []*bool{nil, &yes, &no}
	optName := []string{"none", "Update(true)", "Update(false)"}
	register(&Property{
		ID:   "C05",
		Rule: "the complete table CI x UPDATE_SNAPS in {unset,true,clean,false,TRUE,1,Clean,' true'} x Update option {none,true,false} x 5 APIs x state of the addressed item {file missing, entry missing, equal, different} x 1 or 2 earlier calls through configs with every other Update option in the same process; outcome and file-system effect compared with the documented mode table",
		Enum: func(tier string, emit Emit) {
			var modes []Mode
			for _, ci := range []bool{false, true} {
				for _, u := range []string{"", "true", "clean", "false", "TRUE", "1", "Clean", " true", "truely", "always"} {
					modes = append(modes, Mode{CI: ci, Update: u, NoColor: true})
				}
			}
			vals := map[string][2]op{
				"snap":  {snap("a\n---"), snap("b")},
				"json":  {jsn(`{"a":1}`), jsn(`{"a":2}`)},
				"yaml":  {yml("a: 1\n"), yml("a: 2")},
				"ssnap": {ssnap("a\r\n"), ssnap("b")},
				"sjson": {sjson(`[1]`), sjson(`[2]`)},
			}
			apis := []string{"snap", "json", "yaml", "ssnap", "sjson"}
			states := []string{"nofile", "noentry", "equal", "different"}
			type prior struct {
				opt   int
				state string
			}
			priors := [][]prior{nil}
			for o := range optsOf {
				for _, s := range states {
					priors = append(priors, []prior{{o, s}})
				}
			}
			if tier == "thorough" {
				for o := range optsOf {
					for o2 := range optsOf {
						for _, s := range states {
							priors = append(priors, []prior{{o, s}, {o2, "different"}}, []prior{{o, "noentry"}, {o2, s}})
						}
					}
				}
			}
			for _, m := range modes {
				for oi := range optsOf {
					for _, api := range apis {
						for _, st := range states {
							for _, pr := range priors {
								// each call of the history has its own file
								calls := append(append([]prior{}, pr...), prior{oi, st})
								emit(func() *Scenario {
									mk := func(w *W, i int, withOpt bool) *snaps.Config {
										o := []func(*snaps.Config){snaps.Dir(w.S()), snaps.Filename(fmt.Sprintf("f%d", i))}
										if p := optsOf[calls[i].opt]; withOpt && p != nil {
											o = append(o, snaps.Update(*p))
										}
										return snaps.WithConfig(o...)
									}
									var d []string
									for _, c := range calls {
										d = append(d, optName[c.opt]+"/"+c.state)
									}
									return &Scenario{
										Desc: fmt.Sprintf("%v %s calls %v", m, api, d),
										Stages: []Stage{
											{Off, func(w *W) {
												for i, c := range calls {
													name := "TestX"
													switch c.state {
													case "nofile":
														continue
													case "noentry":
														name = "TestOther"
													}
													w.Test(name, func(t *T) {
														o := vals[api][0]
														w.Do(t, func() { o.run(mk(w, i, false), t) })
														if c.state == "noentry" { // a second, never addressed item
															w.Do(t, func() { o.run(mk(w, i, false), t) })
														}
													})
												}
											}},
											{m, func(w *W) {
												for i, c := range calls {
													w.Test("TestX", func(t *T) {
														if c.state == "noentry" && (api == "ssnap" || api == "sjson") {
															// standalone files exist for k=1,2; the third is missing
															w.Do(t, func() { vals[api][0].run(mk(w, i, true), t) })
															w.Do(t, func() { vals[api][0].run(mk(w, i, true), t) })
														}
														o := vals[api][0]
														if c.state == "different" {
															o = vals[api][1]
														}
														w.Do(t, func() { o.run(mk(w, i, true), t) })
													})
												}
											}},
										},
										Check: func(r []StageResult, fail func(key, format string, args ...any)) {
											n := 0
											for i, c := range calls {
												if c.state == "noentry" && (api == "ssnap" || api == "sjson") {
													n += 2
												}
												if n >= len(r[1].Calls) {
													fail("calls", "missing calls")
													return
												}
												x := r[1].Calls[n]
												n++
												create, rewrite := permitted(m, optsOf[c.opt])
												want := "passed"
												switch {
												case c.state == "nofile" || c.state == "noentry":
													want = "failed"
													if create {
														want = "added"
													}
												case c.state == "different":
													want = "failed"
													if rewrite {
														want = "updated"
													}
												}
												if o := x.Outcome(); o != want {
													fail("table", "call %d (%s, option %s, item %s): %s, want %s (%s)", i, api, optName[c.opt], c.state, o, want, q(strings.Join(x.Errors(), "|")))
													return
												}
												writes := want == "added" || want == "updated"
												if !writes && len(x.Writes) > 0 {
													fail("wrote", "call %d (%s, option %s, item %s) wrote %q", i, api, optName[c.opt], c.state, x.Writes)
												}
												if writes && len(x.Writes) == 0 {
													fail("nowrite", "call %d (%s, option %s, item %s) reported %s and wrote nothing", i, api, optName[c.opt], c.state, want)
												}
												if m.CI && len(x.Writes) > 0 {
													fail("ciwrite", "call %d wrote %q on CI", i, x.Writes)
												}
											}
											if m.CI {
												if d := Diff(r[1].Before, r[1].After); len(d) > 0 {
													fail("ciwrite", "directory changed on CI %q", d)
												}
											}
										},
									}
								})
							}
						}
					}
				}
			}
		},
	})
}
