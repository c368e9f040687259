package e3

func init() {
	apis := []string{"snap", "snap2", "json", "yaml", "ssnap", "sjson"}
	register(&Property{
		ID:   "C12",
		Rule: "every interleaving (dynamic partial order reduction, race detector on every schedule) of 2 goroutines, each making 1 call (thorough: 2 calls beside 1, and 3 goroutines) through one shared Config or the package-level functions, for all pairs of entry points x 8 option sets (one with a relative Dir) x {missing, equal, different} entries, matchers and input bytes shared by the goroutines included; locations, outcomes and contents compared with calls through a fresh Config each",
		Enum: func(tier string, emit func(Item)) {
			g := gen{emit}
			cfgs := []Cfg{{}, {Ext: ".txt"}, {Filename: "f"}, {JSON: true}, {Update: 1}, {Pkg: true}, {Ext: ".json", JSON: true, Dir: "x/y"}, {Rel: true, Dir: "r"}}
			alone := func(a string) bool { return a == "ssnap" || a == "sjson" || a == "gsjson" || a == "csjson" }
			clash := func(c Cfg, as ...string) bool { // two tests, one standalone file
				n := 0
				for _, a := range as {
					if alone(a) {
						n++
					}
				}
				return c.Filename != "" && n > 1
			}
			kinds := func(c Cfg) string {
				if c.Update == 1 {
					return "apu"
				}
				return "apm"
			}
			call := func(k byte, a, v string) Call { return Call{API: a, Kind: k, Val: v} }
			for _, c := range cfgs {
				for i, a := range apis {
					for _, b := range apis[i:] {
						if clash(c, a, b) {
							continue
						}
						strs(kinds(c), 2, func(k string) {
							g.scn(true, Scn{Bound: -1, Cfgs: []Cfg{c}, Threads: []Thread{th("TestP", call(k[0], a, "one")), th("TestPQ", call(k[1], b, "two"))}})
						})
					}
				}
				for _, p := range [][2]string{{"gjson", "gjson"}, {"gyaml", "gyaml"}, {"gjson", "gsjson"}, {"cjson", "cjson"}, {"cyaml", "cyaml"}, {"cjson", "csjson"}} {
					g.scn(true, Scn{Bound: -1, Cfgs: []Cfg{c}, Threads: []Thread{th("TestP", call('a', p[0], "one")), th("TestPQ", call('a', p[1], "two"))}})
				}
			}
			// a Config used beside the package-level functions
			for _, a := range apis {
				for _, b := range apis {
					g.scn(true, Scn{Bound: -1, Cfgs: []Cfg{{Pkg: true}, {Ext: ".e"}}, Threads: []Thread{th("TestP", call('a', a, "one")), th("TestPQ", Call{API: b, Kind: 'a', Val: "two", Cfg: 1})}})
				}
			}
			// two calls of different kinds in one goroutine beside another one
			for _, c := range cfgs[:4] {
				for _, a := range apis {
					for _, b := range apis {
						x := "sjson"
						if clash(c, a, b, x) || clash(c, a, x) {
							continue
						}
						if tier != "thorough" && (a != "sjson" && b != "sjson") {
							continue
						}
						g.scn(true, Scn{Bound: -1, Cfgs: []Cfg{c}, Threads: []Thread{th("TestP", call('a', a, "one"), call('a', b, "two")), th("TestPQ", call('a', x, "three"))}})
					}
				}
			}
			if tier != "thorough" {
				return
			}
			for _, c := range cfgs[:4] {
				for i, a := range apis {
					for k, b := range apis[i:] {
						for _, d := range apis[i+k:] {
							if clash(c, a, b, d) {
								continue
							}
							g.scn(false, Scn{Bound: 2, Cfgs: []Cfg{c}, Threads: []Thread{th("TestP", call('a', a, "one")), th("TestPQ", call('a', b, "two")), th("TestQ", call('a', d, "three"))}})
						}
					}
				}
			}
		},
	})

	register(&Property{
		ID:   "C03",
		Rule: "every interleaving (dynamic partial order reduction, race detector on every schedule) of 2 tests whose names are prefixes of each other, of one another's sub-tests or unrelated, with 1..2 calls each on one file, executed once or twice in the process, entry states {missing, equal, different}, files with entries of absent tests before, between and after: every call must address slot (test, k) and leave the others alone",
		Enum: func(tier string, emit func(Item)) {
			g := gen{emit}
			multi := []string{"snap", "json", "yaml"}
			pairs := [][2]string{{"TestP", "TestPQ"}, {"TestP", "TestP/s"}, {"TestP/s", "TestP/s/u"}, {"TestP_-_1", "TestP"}, {"Test1", "Test11"}}
			for _, p := range pairs {
				strs("apu", 2, func(k string) {
					s := Scn{Bound: -1, Extra: true, Threads: []Thread{kindsThread(0, k[:1], multi, 0), kindsThread(1, k[1:], multi, 1)}}
					s.Threads[0].Test, s.Threads[1].Test = p[0], p[1]
					g.scn(true, s)
					s.Threads = []Thread{again(s.Threads[0]), s.Threads[1]}
					g.scn(true, s)
				})
				n := []string{"aa", "au", "pa", "um", "bu"}
				if tier == "thorough" {
					n = []string{"aa", "ap", "au", "am", "pa", "pu", "ua", "uu", "um", "ma", "mu"}
				}
				for _, x := range n {
					for _, y := range []string{"a", "u"} {
						if x[0] == 'b' {
							x = x[1:]
						}
						s := Scn{Bound: -1, Extra: true, Threads: []Thread{kindsThread(0, x, multi, 0), kindsThread(1, y, multi, 1)}}
						s.Threads[0].Test, s.Threads[1].Test = p[0], p[1]
						g.scn(true, s)
					}
				}
			}
			for _, k := range []string{"aa", "au", "uu", "pu"} {
				x := again(kindsThread(0, k[:1], multi, 0))
				y := again(kindsThread(1, k[1:], multi, 1))
				g.scn(true, Scn{Bound: -1, Extra: true, Threads: []Thread{x, y}})
			}
			// goroutines of one test: all slots 1..n, each once
			for _, a := range []string{"snap", "json", "ssnap", "sjson"} {
				g.scn(true, Scn{Bound: -1, Threads: []Thread{th("TestP", mk('a', a, "one"), mk('a', a, "two")), th("TestP", mk('a', a, "three"))}})
			}
			if tier == "thorough" {
				strs("apu", 4, func(k string) {
					g.scn(false, Scn{Bound: -1, Extra: true, Threads: []Thread{kindsThread(0, k[:2], multi, 0), kindsThread(1, k[2:], multi, 1)}})
				})
			}
		},
	})
}
