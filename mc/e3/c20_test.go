package e3

func init() {
	register(&Property{
		ID:   "C20",
		Rule: "every interleaving (dynamic partial order reduction, race detector on every schedule) of 2 tests x {1,2} calls and 3 tests x 1 call over the outcomes {added, passed, updated, failed by mismatch, failed by missing, failed input, skipped}, all APIs, followed by Clean in report/clean/true/CI mode: signals per call, totals and obsolete items of the printed summary; and every single failing file system operation (EIO, EACCES, ENOSPC, short write) of a call in every entry state and mode: exactly one outcome, the summary counts it, and what is reported as added or updated has been stored",
		Enum: func(tier string, emit func(Item)) {
			g := gen{emit}
			multi := []string{"snap", "json", "yaml"}
			all := "apmunbs"
			bad := func(k byte, a string) bool { return k == 'b' && a == "snap" }
			modes := []Scn{{}, {Update: "clean", Extra: true}, {Update: "true", Extra: true, Sort: true}, {CI: true, Extra: true}}
			for mi, m := range modes {
				for i := range all {
					for k := i; k < len(all); k++ {
						for ai, a := range multi {
							b := multi[(ai+1)%3]
							if bad(all[i], a) || bad(all[k], b) {
								continue
							}
							s := m
							s.Bound = -1
							s.Threads = []Thread{th(names[0], mk(all[i], a, "one")), th(names[1], mk(all[k], b, "two"))}
							g.scn(true, s)
							if mi == 0 {
								// a call, then the second thing
								s := m
								s.Bound = -1
								s.Threads = []Thread{th(names[0], mk('a', multi[(ai+2)%3], "zero"), mk(all[i], a, "one")), th(names[1], mk(all[k], b, "two"))}
								g.scn(ai == 1, s)
							}
						}
					}
				}
			}
			strs(all, 3, func(x string) {
				if sortedKinds(x) || tier == "thorough" && x[0] <= x[1] {
					apis := []string{"json", "yaml", "json"}
					g.scn(x[0] == x[1] || x[1] == x[2], Scn{Bound: map[bool]int{true: -1, false: 2}[tier == "thorough"], Threads: []Thread{kindsThread(0, x[:1], apis, 0), kindsThread(1, x[1:2], apis, 1), kindsThread(2, x[2:], apis, 2)}})
				}
			})
			for _, a := range []string{"ssnap", "sjson"} {
				strs("apmun", 2, func(k string) {
					if sortedKinds(k) {
						g.scn(true, Scn{Bound: -1, Cfgs: []Cfg{{}, {Update: 1}, {Update: 2}}, Threads: []Thread{th(names[0], mk(k[0], a, "one")), th(names[1], mk(k[1], "sjson", "two"))}})
					}
				})
			}
			for _, a := range multi {
				g.scn(true, Scn{Bound: -1, Threads: []Thread{th("TestP", mk('a', a, "one")), th("TestP", mk('a', a, "two")), th("TestQ", mk('s', a, ""))}})
				g.scn(true, Scn{Bound: -1, Threads: []Thread{th("TestP", mk('m', a, "one")), th("TestP", mk('m', a, "one"))}})
				g.scn(true, Scn{Bound: -1, Threads: []Thread{th("TestP", mk('s', a, "")), th("TestQ", mk('s', a, "")), th("TestR", mk('s', a, "")), th("TestS", mk('a', a, "x"))}})
			}
			faults(tier, emit)
		},
	})
}
