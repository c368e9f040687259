package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

var (
	apis   = []string{"snap", "json", "yaml", "ssnap", "sjson"}
	shapes = strings.Fields(`local local2 rec100 other other>cb other>lib lib>other help help5 weird lib lib5 lib100 libd libtesting libgeneric chain mix
		lib>cb lib50>cb closure iife sub sub3 sub>lib sub>help sub>other subfn par libsub libsub>lib libsubwrap suite method pmethod methodval
		iface generic generic2 reflect reflectlib defer deferlib recover recoverlib cleanup cleanuplib go golib once oncelib sort sortlib`)
	pkgCfg = Cfg{Pkg: true}
)

// locate records in one build and replays in another one.
func locate(r *R, p Prog, rec, rep Run, foot bool) {
	want, ok := r.Expect(p, false)
	if !ok {
		return
	}
	x := r.Exec(rec, p)
	good := r.Check("after recording", x, want)
	if x.RC != 0 {
		good = false
		r.Fail("exit", "recording fails: %s", tail(x.Out, 800))
	}
	if !good {
		return
	}
	rep.CI = true
	y := r.Exec(rep, p)
	if y.RC != 0 || !same(x.FS, y.FS) {
		r.Fail("replay", "the snapshots are not found again (exit %d; files %s): %s", y.RC, r.list2(y.FS), tail(y.Out, 800))
		return
	}
	if foot {
		rep.Bump = true
		z := r.Exec(rep, p)
		if z.RC == 0 || !same(x.FS, z.FS) {
			r.Fail("replay", "other values are not reported (exit %d; files %s): %s", z.RC, r.list2(z.FS), tail(z.Out, 800))
			return
		}
		got := footers(z.Out, r.Dir)
		for f := range want {
			if !got[f] {
				r.Fail("footer", "no failure report names %s (as seen from the directory of the test file): %s", r.rel(f), tail(z.Out, 1500))
				return
			}
		}
		for f := range got {
			if want[f] == nil {
				r.Fail("footer", "a failure report names %s, which is none of %s: %s", f, r.list(want), tail(z.Out, 1500))
				return
			}
		}
	}
}

// knownLocation: no function of a test file is on the stack of the calling
// goroutine. The location must be that of the test; where it is exactly the
// documented other one, the failure has the key of a known finding.
func knownLocation(r *R, p Prog, x Run, key string, dirs func(trim bool) (dir, file string)) {
	want, _ := r.Expect(p, false)
	res := r.Exec(x, p)
	q := r.fails
	r.Check("after recording", res, want)
	if len(r.fails) == len(q) {
		return
	}
	s := p.Tests[0].Steps[0]
	s.I = 1
	name, _, _, _ := r.caller(p.Tests[0].Name, s)
	dir, file := dirs(strings.HasPrefix(x.Mode, "trim"))
	if standalone(s.API) {
		file = strings.ReplaceAll(name, "/", "_") + "_1"
	}
	file += ".snap"
	if s.API == "sjson" {
		file += ".json"
	}
	f := filepath.Join(dir, "__snapshots__", file)
	_, ok := res.FS[f]
	if ok && len(res.FS) == 1 || len(res.FS) == 0 && res.RC != 0 && strings.Contains(res.Out, filepath.Join(dir, "__snapshots__")+": permission denied") {
		for i := len(q); i < len(r.fails); i++ {
			r.fails[i].key = key
		}
	}
}

func init() {
	register(&Property{
		ID:   "C11",
		Rule: "all histories [record; replay in CI in another build; other values in CI] of: (A) every call shape (54: direct, helpers in the same/another test file, in a non-test file of the package and of other packages, recursion up to 100 frames, callbacks, closures, subtests, suites, parallel, methods, generics, interfaces, reflection, defer, recover, cleanup, goroutines, Once, sort; fuzz and benchmark functions) x 5 APIs x 4 configurations; (B) Dir x Filename x Ext product x APIs x shapes; (N) 26 subtest names (punctuation, dots, verbs, non-ASCII, long) x APIs x shapes; (C) working directories (changed before/between calls, another start directory); (D) ordered pairs of shapes in one test, in two tests; each in 8 package layouts (module root, depth 1-3, names that look like test files, package main, packages named testing and snaps) and in every build (plain, -trimpath, inlining off; thorough: race, coverage, -N, GOFLAGS spellings); (E) real `go test ./...` runs. Oracle: the set of files and the values in them are exactly those given by the statement; each replay finds them; failure reports name them.",
		Assume: []string{
			"the calling test file is the innermost _test.go file of the calling goroutine's stack",
			"with -trimpath the test binary is started in the directory of its package, as go test does (README)",
			"Dir(\"\") is not used",
		},
		Enum: enumC11,
	})
}

func modes(tier string) []string {
	m := []string{"plain", "trim", "noinl"}
	if tier == "thorough" {
		m = append(m, "trimnoinl", "race", "cover", "noopt", "trimstrip")
	}
	return m
}

func enumC11(tier string, emit Emit) {
	ms := modes(tier)
	next := func(i int) Run { return Run{Mode: ms[(i+1)%len(ms)]} }
	one := func(test, shape, api string, c Cfg) Prog {
		return Prog{Cfgs: []Cfg{c}, Tests: []TestProg{{test, []Step{{Shape: shape, API: api}}}}}
	}
	abs := Cfg{Dir: "{TMP}/abs", Filename: "cust%om.x", Ext: ".txt"}
	cfgsA := []Cfg{pkgCfg, {}, {Dir: "rel dir"}, abs}
	letters := []string{"A", "E"}
	if tier == "thorough" {
		letters = []string{"A", "B", "E", "F"}
		cfgsA = append(cfgsA, Cfg{Dir: "../up{L}/x"}, Cfg{Filename: "f"}, Cfg{Ext: ".e"})
	}
	// A
	for i, m := range ms {
		for _, x := range letters {
			for ci, c := range cfgsA {
				for ai, api := range apis {
					if tier == "quick" && x != "A" && (ci+ai)%3 != 0 {
						continue
					}
					emit(fmt.Sprintf("A %s %s", m, one("TestD"+x, "direct", api, c)), func(r *R) {
						locate(r, one("TestD"+x, "direct", api, c), Run{Mode: m}, next(i), true)
					})
				}
			}
		}
	}
	for i, m := range ms {
		for si, sh := range shapes {
			for _, x := range letters {
				for ci, c := range cfgsA {
					for ai, api := range apis {
						// quick: two of the twenty combinations per shape, build and package, all of them over the shapes
						if tier == "quick" && (si+ci*5+ai+i)%10 != 0 {
							continue
						}
						p := one("TestS"+x, sh, api, c)
						emit(fmt.Sprintf("A %s %s", m, p), func(r *R) { locate(r, p, Run{Mode: m}, next(i), si%5 == 0) })
					}
				}
			}
		}
		for _, x := range letters {
			for ci, c := range cfgsA {
				for ai, api := range apis {
					if tier == "quick" && (ci+ai+i)%4 != 0 {
						continue
					}
					for _, ts := range [][2]string{{"Fuzz", "fuzz"}, {"Fuzz", "fuzzlib"}, {"FuzzF", "direct"}, {"Benchmark", "bench"}, {"Benchmark", "benchlib"}, {"Benchmark", "benchsub"}, {"Benchmark", "benchpar"}} {
						p := one(ts[0]+x, ts[1], api, c)
						emit(fmt.Sprintf("A %s %s", m, p), func(r *R) { locate(r, p, Run{Mode: m}, next(i), false) })
					}
				}
			}
		}
	}
	// B: all steps of one history go through different configurations
	dirs := []string{"", "rel", "nested/r.d/%d", "./x/../y", "../up{L}", "{TMP}/abs", "{TMP}/abs/../b%s/", "__snapshots__"}
	names := []string{"", "f", "with.dot", "sub/f", "p%d_%s", "_%d", "a_test.go", "x.snap", "f_1", " sp a", "é:*?", "x.json"}
	exts := []string{"", ".txt", ".json", "%d", "x.y", "_%d.snap", ".snap", " é:*"}
	bshapes := []string{"local", "lib5", "sub>lib"}
	if tier == "thorough" {
		bshapes = append(bshapes, "other", "go", "suite", "generic")
	}
	for i, m := range ms {
		for _, sh := range bshapes {
			for _, api := range apis {
				for _, d := range dirs {
					var cs []Cfg
					for _, n := range names {
						for _, e := range exts {
							cs = append(cs, Cfg{Dir: d, Filename: n, Ext: e})
						}
					}
					p := Prog{Cfgs: cs, Shared: true}
					t := TestProg{Name: "TestSA"}
					if tier == "quick" && (len(d)+i)%2 == 1 {
						t.Name = "TestSE"
					}
					for ci := range cs {
						t.Steps = append(t.Steps, Step{Shape: sh, API: api, Cfg: ci})
					}
					p.Tests = []TestProg{t}
					emit(fmt.Sprintf("B %s Dir=%q %s %s, %d configurations", m, d, sh, api, len(cs)), func(r *R) { locate(r, p, Run{Mode: m}, next(i), true) })
				}
			}
		}
	}
	// N: names of subtests
	subs := []string{"a:b", "a.", "..", "a..b", "%d", "%s%", "é日", "a__b", "x/y", "x//y/", "*?", "<x>|\"y\"", "k=1,l=2", "-x", "a#b", "a.snap", "a_1", "A", "a", "[x]", "\\", "~", "'", "_", "a/../b", strings.Repeat("n", 120)}
	for i, m := range ms {
		for _, sh := range []string{"sub", "sub>lib", "subfn", "libsub"} {
			for _, api := range apis {
				for _, c := range []Cfg{pkgCfg, {Dir: "rel"}, {Ext: ".txt"}} {
					p := Prog{Cfgs: []Cfg{c}}
					t := TestProg{Name: "TestSA"}
					for _, n := range subs {
						t.Steps = append(t.Steps, Step{Shape: sh, API: api, Name: n})
					}
					p.Tests = []TestProg{t}
					emit(fmt.Sprintf("N %s %s %s %v, %d names", m, sh, api, c, len(subs)), func(r *R) { locate(r, p, Run{Mode: m}, next(i), true) })
				}
			}
		}
	}
	// B2: the product with one call each
	if tier == "thorough" {
		for i, m := range ms[:2] {
			for _, api := range apis {
				for _, d := range dirs {
					for _, n := range names {
						for _, e := range exts {
							p := one("TestSA", "lib", api, Cfg{Dir: d, Filename: n, Ext: e})
							emit(fmt.Sprintf("B %s %s", m, p), func(r *R) { locate(r, p, Run{Mode: m}, next(i), false) })
						}
					}
				}
			}
		}
	}
	// C
	cfgsC := []Cfg{pkgCfg, {Dir: "rel"}, {Dir: "{TMP}/abs"}, {Dir: "../up{L}", Filename: "f"}}
	cwds := []string{"/", "{TMP}/cwd", "{PKG}/.."}
	cshapes := []string{"local", "lib5", "sub>lib", "go"}
	capis := []string{"snap", "sjson"}
	if tier == "thorough" {
		cshapes = append(cshapes, "other", "cleanuplib", "par", "suite", "help")
		capis = apis
		cwds = append(cwds, "{TMP}/cwd/deep", "{PKG}")
	}
	for i, m := range ms {
		for _, sh := range cshapes {
			for _, api := range capis {
				for _, c := range cfgsC {
					for _, d := range cwds {
						a, b := Step{Shape: sh, API: api, Chdir: d}, Step{Shape: sh, API: api}
						for k, steps := range [][]Step{{a, b}, {b, a}, {b, a, {Shape: sh, API: api, Chdir: "{TMP}/cwd"}}} {
							if standalone(api) && (strings.HasPrefix(sh, "sub") || sh == "par" || sh == "suite" || sh == "cleanuplib") && c.Filename != "" {
								steps = steps[k&1 : k&1+1]
							}
							p := Prog{Cfgs: []Cfg{c}, Tests: []TestProg{{"TestSA", steps}}}
							emit(fmt.Sprintf("C %s %s", m, p), func(r *R) { locate(r, p, Run{Mode: m}, next(i), k == 1) })
						}
						if strings.HasPrefix(m, "trim") {
							continue
						}
						p := Prog{Cfgs: []Cfg{c}, Tests: []TestProg{{"TestSA", []Step{b, b}}}}
						emit(fmt.Sprintf("C started in %s, %s %s", d, m, p), func(r *R) { locate(r, p, Run{Mode: m, Cwd: d}, next(i), true) })
					}
				}
			}
		}
	}
	// C2: environment variables that talk about builds
	for i, m := range ms {
		if tier == "quick" && i == 2 {
			break
		}
		for _, env := range []string{"GOFLAGS=-trimpath", "GOFLAGS=-trimpath=true", "GOFLAGS=-mod=mod --trimpath", "GOROOT=", "GOFLAGS=-trimpath=false", "GOFLAGS="} {
			for _, c := range cfgsC {
				for _, sh := range []string{"local", "lib5", "other"} {
					for _, api := range capis {
						p := Prog{Cfgs: []Cfg{c}, Tests: []TestProg{{"TestSA", []Step{{Shape: sh, API: api}, {Shape: sh, API: api, Chdir: "/"}}}}}
						emit(fmt.Sprintf("C %s env %s %s", m, env, p), func(r *R) { locate(r, p, Run{Mode: m, Env: []string{env}}, next(i), true) })
					}
				}
			}
		}
	}
	// D
	dsh := []string{"local", "other", "lib5", "other>cb", "sub>lib", "go", "other>lib", "libsub", "sub>other", "par"}
	dapis := []string{"snap", "ssnap"}
	dcfg := [][2]int{{0, 0}, {0, 1}, {1, 0}}
	if tier == "quick" {
		dcfg = dcfg[:2]
	}
	if tier == "thorough" {
		dsh = shapes
		dapis = []string{"snap", "sjson"}
	}
	for i, m := range ms {
		if tier == "thorough" && i >= 2 {
			break
		}
		for k1, s1 := range dsh {
			for k2, s2 := range dsh {
				for _, a1 := range dapis {
					for _, a2 := range dapis {
						for k, cc := range dcfg {
							if tier == "quick" && (k1+k2+k+i)%2 == 0 {
								continue
							}
							if tier == "thorough" && k > 0 && a1 != a2 {
								continue
							}
							cs := []Cfg{pkgCfg, {Dir: "rel", Filename: "f"}}
							st := []Step{{Shape: s1, API: a1, Cfg: cc[0]}, {Shape: s2, API: a2, Cfg: cc[1]}}
							p := Prog{Cfgs: cs, Shared: true, Tests: []TestProg{{"TestSA", st}}}
							q := Prog{Cfgs: cs, Shared: true, Tests: []TestProg{{"TestSA", st[:1]}, {"TestSB", st[1:]}}}
							emit(fmt.Sprintf("D %s %s", m, p), func(r *R) { locate(r, p, Run{Mode: m}, next(i), false) })
							emit(fmt.Sprintf("D %s %s", m, q), func(r *R) { locate(r, q, Run{Mode: m}, next(i), false) })
						}
					}
				}
			}
		}
	}
	// D2: every shape twice with a call through another one in between
	for i, m := range ms {
		for _, s1 := range shapes {
			for _, api := range []string{"snap", "ssnap"} {
				st := []Step{{Shape: s1, API: api}, {Shape: "other>lib", API: "snap"}, {Shape: s1, API: api}, {Shape: "local", API: api}}
				p := Prog{Cfgs: []Cfg{pkgCfg}, Tests: []TestProg{{"TestSA", st}, {"TestSA_2", st}, {"TestSB", st}, {"TestSE", st}, {"TestSF", st}}}
				emit(fmt.Sprintf("D %s %s", m, p), func(r *R) { locate(r, p, Run{Mode: m}, next(i), false) })
			}
		}
	}
	// many calls
	for i, m := range ms {
		for _, x := range []string{"A", "E"} {
			for _, api := range apis {
				for _, c := range []Cfg{pkgCfg, {Filename: "f"}} {
					p := Prog{Cfgs: []Cfg{c}, Tests: []TestProg{{Name: "TestD" + x}}}
					for k := 0; k < 12; k++ {
						p.Tests[0].Steps = append(p.Tests[0].Steps, Step{Shape: "direct", API: api})
					}
					emit(fmt.Sprintf("D %s 12 times %s", m, p), func(r *R) { locate(r, p, Run{Mode: m}, next(i), true) })
				}
			}
		}
	}
	// known findings
	for _, m := range ms {
		for _, api := range apis {
			for _, k := range []struct {
				test, shape string
				dir         func(r *R, trim bool) (string, string)
			}{
				{"TestSA", "helpsubclosure", func(r *R, trim bool) (string, string) { return r.Dir, "help" }},
				{"TestSA", "helpsubclosure3", func(r *R, trim bool) (string, string) { return r.Dir, "help" }},
				{"TestSA", "libsubclosure", func(r *R, trim bool) (string, string) {
					if trim {
						return r.Dir, "lib"
					}
					return r.Lib, "lib"
				}},
				{"TestSA", "libgo", func(r *R, trim bool) (string, string) { return r.std(trim, "runtime", "asm_amd64") }},
				{"BenchmarkA", "libbenchsub", func(r *R, trim bool) (string, string) { return r.std(trim, "runtime", "asm_amd64") }},
				{"FuzzA", "libfuzz", func(r *R, trim bool) (string, string) { return r.std(trim, "testing", "fuzz") }},
			} {
				p := one(k.test, k.shape, api, pkgCfg)
				emit(fmt.Sprintf("F %s %s", m, p), func(r *R) {
					knownLocation(r, p, Run{Mode: m}, "no-test-file-on-stack:"+k.shape, func(trim bool) (string, string) { return k.dir(r, trim) })
				})
			}
		}
	}
	// E
	emit("E go test ./... in every build", func(r *R) {
		r.tier = tier
		if r.L.Idx == 0 {
			goTest(r)
		}
	})
}

func (r *R) std(trim bool, pkg, file string) (string, string) {
	if trim {
		return r.Dir, file
	}
	return filepath.Join(filepath.Dir(filepath.Dir(conf.Go)), "src", pkg), file
}

// goTest records and replays with `go test ./...` in a copy of the module.
func goTest(r *R) {
	var steps []Step
	for _, sh := range shapes {
		if sh == "cleanup" || sh == "cleanuplib" || sh == "libsub>lib" {
			continue
		}
		steps = append(steps, Step{Shape: sh, API: "snap"}, Step{Shape: sh, API: "sjson"}, Step{Shape: sh, API: "json", Cfg: 1})
	}
	p := Prog{Cfgs: []Cfg{pkgCfg, {Dir: "rel", Filename: "f"}}, Shared: true, Tests: []TestProg{{"TestSA", steps}, {"TestSE", steps}, {"TestDB", steps[:6]}}}
	ways := [][2]string{{"", ""}, {"-trimpath", ""}, {"", "-trimpath"}, {"-trimpath", "-trimpath=true"}, {"-race", ""}, {"-coverpkg=./...", ""}}
	if r.tier == "quick" {
		ways = ways[:4]
	}
	dropDir := filepath.Join(conf.Base, "drop")
	os.MkdirAll(dropDir, 0o755)
	defer os.RemoveAll(dropDir)
	for i, way := range ways {
		os.RemoveAll(dropDir)
		os.MkdirAll(dropDir, 0o755)
		next := ways[(i+1)%len(ways)]
		var rs []*R
		for _, l := range conf.Layouts {
			q := newR(conf.Root2, "gotmp", r.idx, l, r.st)
			q.Reset()
			rs = append(rs, q)
		}
		// all packages read one program: absolute directories are not used in it
		sf, _, n := rs[0].Spec(Run{}, p)
		run := func(way [2]string, ci bool) (string, error) {
			args := []string{"test", "-count=1", "-vet=off", "-exec", os.Args[0] + " drop", "-run=^Test(SA|SE|DB)$"}
			if way[0] != "" {
				args = append(args, way[0])
			}
			cmd := exec.Command(conf.Go, append(args, "./...")...)
			cmd.Dir = conf.Root2
			cmd.Env = append([]string{}, conf.Env...)
			cmd.Env = append(cmd.Env, "MC_SPEC="+sf, "NO_COLOR=1", fmt.Sprintf("MC_USER=%d", conf.User), "MC_DROP="+dropDir)
			if way[1] != "" {
				cmd.Env = append(cmd.Env, "GOFLAGS=-mod=mod "+way[1])
			}
			if ci {
				cmd.Env = append(cmd.Env, "CI=true")
			}
			b, err := cmd.CombinedOutput()
			r.st.Lock()
			r.st.procs += len(rs)
			r.st.trans += n * len(rs)
			r.st.Unlock()
			return string(b), err
		}
		r.trace = append(r.trace, fmt.Sprintf("go test %s GOFLAGS=%s", way[0], way[1]))
		out, err := run(way, false)
		var before []map[string]string
		for _, q := range rs {
			want, ok := q.Expect(p, false)
			if !ok {
				panic("program")
			}
			q.trace = r.trace
			fs := q.Scan()
			q.Check("after go test", Result{Out: out, FS: fs}, want)
			before = append(before, fs)
			r.fails = append(r.fails, q.fails...)
			q.fails = nil
		}
		if err != nil {
			r.Fail("exit", "go test fails: %v %s", err, tail(out, 2000))
		}
		out, err = run(next, true)
		for k, q := range rs {
			if err != nil || !same(before[k], q.Scan()) {
				r.Fail("replay", "go test %v does not find the snapshots recorded with %v: %v %s", next, way, err, tail(out, 2000))
				break
			}
		}
		for _, q := range rs {
			q.Reset()
		}
		if len(r.fails) > 0 {
			return
		}
	}
}
