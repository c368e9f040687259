package e3

// configs of most scenarios: all address the same file
const (
	cfgPlain = iota
	cfgUpdate
	cfgNo
)

func oneFile() []Cfg {
	return []Cfg{{Filename: "f"}, {Filename: "f", Update: 1}, {Filename: "f", Update: 2}}
}

// mk makes a call of a kind.
func mk(kind byte, api, val string) Call {
	if api == "snap" {
		val += "\n[TestP - 1]\nx"
	}
	if kind == 's' {
		return Call{API: map[string]string{"snap": "skip", "json": "skipf", "yaml": "skipnow"}[api], Kind: kind}
	}
	c := Call{API: api, Kind: kind, Val: val}
	switch kind {
	case 'u':
		c.Cfg = cfgUpdate
	case 'n':
		c.Cfg = cfgNo
	}
	return c
}

func th(name string, calls ...Call) Thread { return Thread{Test: name, Execs: [][]Call{calls}} }

func again(t Thread) Thread { t.Execs = append(t.Execs, t.Execs[0]); return t }

var names = []string{"TestP", "TestPQ", "TestQ/s", "FuzzR"}

var words = []string{"one", "two", "three", "four", "five", "six", "seven", "eight", "nine"}

// strs calls f with every string of length n over the alphabet.
func strs(alpha string, n int, f func(string)) {
	var rec func(string)
	rec = func(s string) {
		if len(s) == n {
			f(s)
			return
		}
		for _, c := range alpha {
			rec(s + string(c))
		}
	}
	rec("")
}

// kinds makes a thread with calls of the kinds, the APIs alternating from off on.
func kindsThread(i int, ks string, apis []string, off int) Thread {
	var cs []Call
	for k := range ks {
		cs = append(cs, mk(ks[k], apis[(k+off)%len(apis)], words[(3*i+k)%len(words)]))
	}
	return th(names[i], cs...)
}

func sortedKinds(s string) bool {
	for i := 1; i < len(s); i++ {
		if s[i] < s[i-1] {
			return false
		}
	}
	return true
}

type gen struct {
	emit func(Item)
}

func (g gen) scn(race bool, s Scn) {
	if s.Cfgs == nil {
		s.Cfgs = oneFile()
	}
	g.emit(Item{Race: race, Scn: &s})
}

func init() {
	register(&Property{
		ID: "C06",
		Rule: "every interleaving - dynamic partial order reduction with sleep sets over all lock, atomic and file system operations of the real code, and each explored schedule run under the race detector seeing only the code's own synchronisation - of: 2 tests x 1 call for all pairs of {create, match, mismatch, update, missing with Update(false), failing input, skip} x all pairs of {MatchSnapshot, MatchJSON, MatchYAML, matcher variants}; 2 tests x 2 calls for all kind sequences; 3 tests x 1 call; re-executions of a test beside another test; standalone calls; UPDATE_SNAPS and CI modes; goroutines of one test; existing/empty directories; files with entries of absent tests (thorough: 2x3, 3x2, 4x1 and preemption-bounded enumeration of the same scenarios as a cross-check of the reduction)",
		Assume: []string{
			"the operations of package os other than Close are atomic; memory accesses between two of them are ordered by the race detector's verdict on every explored schedule (no race reported: the reduction misses no interleaving)",
			"the values of calls in one goroutine are fixed; each test name is used by one goroutine except in the scenarios with goroutines of one test",
		},
		Enum: func(tier string, emit func(Item)) {
			thorough := tier == "thorough"
			g := gen{emit}
			multi := []string{"snap", "json", "yaml"}
			all := "apmunbs"
			bad := func(k byte, a string) bool { return k == 'b' && (a == "snap" || a == "ssnap") }
			// two tests, one call each
			for i := range all {
				for k := i; k < len(all); k++ {
					for _, a := range []string{"snap", "json", "yaml", "mjson", "myaml", "bjson"} {
						for _, b := range multi {
							if bad(all[i], a) || bad(all[k], b) || all[i] == 's' && len(a) > 4 {
								continue
							}
							g.scn(true, Scn{Bound: -1, Extra: (i+k)%2 == 0, Threads: []Thread{th(names[0], mk(all[i], a, "one")), th(names[1], mk(all[k], b, "two"))}})
						}
					}
					for _, a := range []string{"ssnap", "sjson"} {
						if bad(all[i], a) || all[i] == 's' {
							continue
						}
						for _, b := range []string{"ssnap", "sjson", "snap", "json"} {
							if bad(all[k], b) || all[k] == 's' {
								continue
							}
							cf := []Cfg{{}, {Update: 1}, {Update: 2}}
							g.scn(true, Scn{Bound: -1, Cfgs: cf, Threads: []Thread{th(names[0], mk(all[i], a, "one")), th(names[1], mk(all[k], b, "two"))}})
						}
					}
				}
			}
			// two tests, two calls each
			strs("apmu", 2, func(x string) {
				strs("apmu", 2, func(y string) {
					for off := 0; off < 2; off++ {
						if x > y {
							continue
						}
						g.scn(off == 0, Scn{Bound: -1, Extra: off == 1, Threads: []Thread{kindsThread(0, x, multi, off), kindsThread(1, y, multi, 2*off)}})
					}
				})
			})
			// three tests
			strs("apmun", 3, func(x string) {
				if sortedKinds(x) {
					g.scn(true, Scn{Bound: -1, Threads: []Thread{kindsThread(0, x[:1], multi, 0), kindsThread(1, x[1:2], multi, 1), kindsThread(2, x[2:], multi, 2)}})
				}
			})
			// executed again while another test runs
			strs("apmu", 2, func(x string) {
				g.scn(true, Scn{Bound: -1, Threads: []Thread{again(kindsThread(0, x[:1], multi, 0)), kindsThread(1, x[1:], multi, 1)}})
				g.scn(true, Scn{Bound: -1, Threads: []Thread{again(kindsThread(0, x[:1], multi, 0)), again(kindsThread(1, x[1:], multi, 1))}})
			})
			// modes
			for _, m := range []Scn{{CI: true}, {Update: "true"}, {Update: "clean", Extra: true}, {CI: true, Update: "true"}, {Update: "true", Extra: true, Sort: true}} {
				strs("apmun", 2, func(x string) {
					s := m
					s.Bound = -1
					s.Threads = []Thread{kindsThread(0, x[:1], multi, 0), kindsThread(1, x[1:], multi, 1)}
					g.scn(true, s)
				})
			}
			// a fresh Config for every call; files in the same fresh directory; no Filename
			strs("apu", 2, func(x string) {
				g.scn(true, Scn{Bound: -1, PerCall: true, Threads: []Thread{kindsThread(0, x[:1], multi, 0), kindsThread(1, x[1:], multi, 1)}})
				g.scn(true, Scn{Bound: -1, Cfgs: []Cfg{{Dir: "x/y"}, {Dir: "x/y", Update: 1}, {}}, Threads: []Thread{kindsThread(0, x[:1], multi, 0), kindsThread(1, x[1:], multi, 1)}})
				g.scn(true, Scn{Bound: -1, Cfgs: []Cfg{{Rel: true, Dir: "r"}, {Rel: true, Dir: "r", Update: 1}, {}}, Threads: []Thread{kindsThread(0, x[:1], multi, 0), kindsThread(1, x[1:], multi, 1)}})
				// package-level functions
				g.scn(true, Scn{Bound: -1, Cfgs: []Cfg{{Pkg: true}, {Update: 1, Dir: "d"}, {}}, Threads: []Thread{kindsThread(0, x[:1], []string{"sjson", "snap"}, 0), kindsThread(1, x[1:], []string{"ssnap", "json"}, 0)}})
				g.scn(true, Scn{Bound: -1, Cfgs: []Cfg{{Pkg: true}, {Update: 1, Dir: "d"}, {}}, Threads: []Thread{kindsThread(0, x[:1], []string{"json"}, 0), kindsThread(1, x[1:], []string{"sjson"}, 0)}})
			})
			// two files, goroutine-local and crossed
			two := []Cfg{{Filename: "f"}, {Filename: "g"}, {Filename: "f", Update: 1}}
			cross := func(k1, k2 byte) []Call {
				a, b := Call{API: "snap", Val: "one", Kind: k1}, Call{API: "json", Val: "two", Cfg: 1, Kind: k2}
				return []Call{a, b}
			}
			for _, k := range []string{"aa", "ap", "mp", "ma"} {
				x, y := cross(k[0], k[1]), cross(k[1], k[0])
				g.scn(true, Scn{Bound: -1, Cfgs: two, Threads: []Thread{th("TestP", x...), th("TestPQ", y[1], y[0])}})
			}
			// goroutines of one test
			for _, api := range []string{"snap", "json", "yaml", "ssnap", "sjson"} {
				cf := []Cfg{{Filename: "f"}, {Filename: "f", Update: 1}, {Filename: "f", Update: 2}}
				for _, k := range "an" {
					g.scn(true, Scn{Bound: -1, Cfgs: cf, Threads: []Thread{th("TestP", mk(byte(k), api, "one")), th("TestP", mk(byte(k), api, "two"))}})
					g.scn(true, Scn{Bound: -1, Cfgs: cf, Threads: []Thread{th("TestP", mk(byte(k), api, "one")), th("TestP", mk(byte(k), api, "two")), th("TestQ", mk('a', "snap", "three"))}})
				}
				g.scn(false, Scn{Bound: -1, Cfgs: cf, Threads: []Thread{th("TestP", mk('a', api, "one"), mk('a', api, "two")), th("TestP", mk('a', api, "three"))}})
				// equal values: the slots may be taken in any order
				for _, k := range "pmu" {
					g.scn(true, Scn{Bound: -1, Cfgs: cf, Threads: []Thread{th("TestP", mk(byte(k), api, "one")), th("TestP", mk(byte(k), api, "one"))}})
				}
			}
			if !thorough {
				return
			}
			// preemption-bounded enumeration, no reduction: cross-check
			strs("apmu", 2, func(x string) {
				for off := 0; off < 3; off++ {
					g.scn(false, Scn{Bound: 3, Threads: []Thread{kindsThread(0, x[:1], multi, off), kindsThread(1, x[1:], multi, off)}})
				}
			})
			strs("apmu", 2, func(x string) {
				strs("apmu", 2, func(y string) {
					if x <= y {
						g.scn(false, Scn{Bound: 2, Threads: []Thread{kindsThread(0, x, multi, 0), kindsThread(1, y, multi, 1)}})
					}
				})
			})
			strs("apmu", 3, func(x string) {
				if sortedKinds(x) {
					g.scn(false, Scn{Bound: 2, Threads: []Thread{kindsThread(0, x[:1], multi, 0), kindsThread(1, x[1:2], multi, 1), kindsThread(2, x[2:], multi, 2)}})
				}
			})
			// larger
			strs("apmu", 3, func(x string) {
				for _, y := range []string{"a", "u", "p", "m"} {
					g.scn(true, Scn{Bound: -1, Threads: []Thread{kindsThread(0, x, multi, 0), kindsThread(1, y, multi, 1)}})
				}
			})
			for _, x := range []string{"aaaa", "aauu", "uuuu", "amua", "apmu"} {
				g.scn(false, Scn{Bound: 2, Threads: []Thread{kindsThread(0, x[:1], multi, 0), kindsThread(1, x[1:2], multi, 1), kindsThread(2, x[2:3], multi, 2), kindsThread(3, x[3:], multi, 0)}})
			}
			strs("au", 2, func(x string) {
				strs("apu", 1, func(y string) {
					g.scn(false, Scn{Bound: -1, Threads: []Thread{kindsThread(0, x, multi, 0), kindsThread(1, y, multi, 1), kindsThread(2, x[:1], multi, 2)}})
				})
			})
			for _, x := range [][2]string{{"aua", "uau"}, {"apu", "uma"}} {
				g.scn(false, Scn{Bound: -1, Threads: []Thread{kindsThread(0, x[0], multi, 0), kindsThread(1, x[1], multi, 1)}})
			}
		},
	})
}
