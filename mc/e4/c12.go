package main

import (
	"fmt"
	"strings"
	"sync"
)

// C07: Clean after runs whose calls are made through every call shape.
// C12: sequences of calls through shared Configs and the package functions.

func init() {
	register(&Property{
		ID:   "C07",
		Rule: "location explorer: for every call shape (as in C11) x build: [record; run again in another build with UPDATE_SNAPS unset/true/clean/CI, Clean with and without sorting, also after the working directory changed]: no entry and no file matched in the run is lost, altered or listed as obsolete.",
		Enum: func(tier string, emit Emit) {
			ms := modes(tier)
			for i, m := range ms {
				for _, sh := range shapes {
					for _, upd := range []string{"", "true", "clean", "ci"} {
						for _, srt := range []bool{false, true} {
							for _, cd := range []string{"", "/", "{TMP}/cwd"} {
								if tier == "quick" && cd != "" && (upd == "" || upd == "ci" || srt) {
									continue
								}
								st := []Step{{Shape: sh, API: "snap"}, {Shape: sh, API: "sjson", Cfg: 1}, {Shape: sh, API: "ssnap"}, {Shape: "local", API: "snap", Cfg: 1, Chdir: cd}, {Shape: "local", API: "sjson"}}
								p := Prog{Cfgs: []Cfg{pkgCfg, {Dir: "rel"}}, Tests: []TestProg{{"TestSA", st}, {"TestSB", st}, {"TestSE", st[:2]}}}
								x := Run{Mode: ms[(i+1)%len(ms)], Clean: true, Sort: srt, Update: upd}
								if upd == "ci" {
									x.Update, x.CI = "", true
								}
								emit(fmt.Sprintf("%s %v %s", m, x, p), func(r *R) {
									want, ok := r.Expect(p, false)
									if !ok {
										panic("program")
									}
									a := r.Exec(Run{Mode: m}, p)
									b := r.Exec(x, p)
									if a.RC != 0 || b.RC != 0 {
										r.Fail("exit", "the tests fail: %s %s", tail(a.Out, 500), tail(b.Out, 500))
										return
									}
									if strings.Contains(b.Out, "obsolete") || strings.Contains(b.Out, "removed") {
										r.Fail("listed", "Clean lists snapshots that were matched: %s", tail(b.Out, 800))
									}
									n := len(r.fails)
									r.Check("after Clean", b, want)
									for k := n; k < len(r.fails); k++ {
										r.fails[k].key = "lost"
									}
								})
							}
						}
					}
				}
			}
		},
	})
	register(&Property{
		ID:     "C12",
		Spread: true,
		Rule:   "location explorer: all sequences (quick: 2, thorough: 3 calls) over 9 options sets (the package-level functions, WithConfig with none, Filename, Dir, Ext, Update(true), Update(false), JSON options, all) x 5 APIs through shared Configs in one process; then other values with UPDATE_SNAPS unset and true: every call stores in the file, in the format and under the update rule of its own options, as it does alone.",
		Enum:   enumC12,
	})
}

func enumC12(tier string, emit Emit) {
	yes, no := true, false
	cs := []Cfg{
		pkgCfg, {}, {Filename: "f"}, {Dir: "rel"}, {Ext: ".txt"}, {Filename: "u", Update: &yes}, {Filename: "n", Update: &no},
		{Filename: "j", Width: 1}, {Filename: "all", Dir: "nested/dir", Ext: ".x", Update: &yes, Width: 200},
	}
	var alphabet []Step
	for i := range cs {
		for _, a := range apis {
			alphabet = append(alphabet, Step{Shape: "local", API: a, Cfg: i})
		}
	}
	length := 2
	if tier == "thorough" {
		length = 3
	}
	var rec func(prefix []Step)
	n := 0
	rec = func(prefix []Step) {
		if len(prefix) == length {
			st := append([]Step{}, prefix...)
			upd := ""
			if n++; n%2 == 0 {
				upd = "true"
			}
			if length == 2 {
				emit(desc12(cs, st, "", "plain"), func(r *R) { independent(r, cs, st, "", "plain") })
				emit(desc12(cs, st, "true", "trim"), func(r *R) { independent(r, cs, st, "true", "trim") })
				return
			}
			emit(desc12(cs, st, upd, "plain"), func(r *R) { independent(r, cs, st, upd, "plain") })
			return
		}
		for _, s := range alphabet {
			rec(append(prefix, s))
		}
	}
	rec(nil)
}

func desc12(cs []Cfg, st []Step, upd, mode string) string {
	return fmt.Sprintf("%s UPDATE_SNAPS=%q %s", mode, upd, Prog{Cfgs: cs, Tests: []TestProg{{"TestSA", st}}})
}

func independent(r *R, cs []Cfg, st []Step, upd, mode string) {
	p := Prog{Cfgs: cs, Shared: true, Tests: []TestProg{{"TestSA", st}}}
	neutral := Prog{Shared: true, Tests: p.Tests}
	for _, c := range cs {
		c.Update = nil
		neutral.Cfgs = append(neutral.Cfgs, c)
	}
	want, ok := r.Expect(p, false)
	if !ok {
		return
	}
	var exp []string
	for _, s := range st {
		exp = append(exp, r.alone(neutral.Cfgs, s))
	}
	a := r.Exec(Run{Mode: mode}, neutral)
	if !r.Check("after recording", a, want) {
		return
	}
	// the format follows from the call's own options
	for n := range st {
		body := bodyOf(a.FS, value(n+1, false))
		if e := strings.ReplaceAll(exp[n], value(1, false), value(n+1, false)); body != e {
			r.Fail("format", "call %d stores %q, alone it stores %q", n+1, body, e)
			return
		}
	}
	// which calls may update follows from the call's own options
	other, _ := r.Expect(p, true)
	i := 0
	errs := 0
	for _, s := range st {
		c := cs[s.Cfg]
		i++
		may := upd == "true"
		if c.Update != nil {
			may = *c.Update
		}
		if may {
			continue
		}
		errs++
		for f := range other {
			for id, v := range other[f].Tokens {
				if v == value(i, true) {
					other[f].Tokens[id] = value(i, false)
				}
			}
		}
	}
	b := r.Exec(Run{Mode: mode, Bump: true, Update: upd}, p)
	if !r.Check("after running with other values", b, other) {
		return
	}
	if (b.RC != 0) != (errs > 0) {
		r.Fail("exit", "%d calls may not update, exit code %d: %s", errs, b.RC, tail(b.Out, 800))
	}
	// creating
	r.Reset()
	none, _ := r.Expect(p, false)
	i = 0
	for _, s := range st {
		i++
		if u := cs[s.Cfg].Update; u != nil && !*u {
			for f := range none {
				for id, v := range none[f].Tokens {
					if v == value(i, false) {
						delete(none[f].Tokens, id)
					}
				}
				if len(none[f].Tokens) == 0 {
					delete(none, f)
				}
			}
		}
	}
	if len(none) < len(want) {
		r.Check("after creating", r.Exec(Run{Mode: mode, Update: upd}, p), none)
	}
}

func bodyOf(fs map[string]string, v string) string {
	for _, d := range fs {
		if !strings.Contains(d, "\n---\n") {
			if strings.Contains(d, v) {
				return d
			}
			continue
		}
		for _, e := range strings.Split(d, "\n---\n") {
			if strings.Contains(e, v) {
				_, body, _ := strings.Cut(strings.TrimPrefix(e, "\n"), "\n")
				return body
			}
		}
	}
	return ""
}

var (
	aloneMu sync.Mutex
	aloneOf = map[string]string{}
)

// alone gives the text a call stores when it is the only one of the process.
func (r *R) alone(cs []Cfg, s Step) string {
	k := fmt.Sprint(r.L.Idx, s.Cfg, s.API)
	aloneMu.Lock()
	b, ok := aloneOf[k]
	aloneMu.Unlock()
	if ok {
		return b
	}
	x := r.Exec(Run{Mode: "plain"}, Prog{Cfgs: cs, Shared: true, Tests: []TestProg{{"TestSA", []Step{s}}}})
	b = bodyOf(x.FS, value(1, false))
	r.Reset()
	r.trace = nil
	aloneMu.Lock()
	aloneOf[k] = b
	aloneMu.Unlock()
	return b
}
