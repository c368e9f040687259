package e1

import (
	"fmt"
	"strings"
)

// Sizes: every property of this engine is also explored along the size of its
// inputs, at every power of two and of ten with its neighbours, so that a
// limit, a buffer or a threshold anywhere in the path is crossed on both sides.

// sizeScale lists the sizes up to limit.
func sizeScale(limit int) (out []int) {
	seen := map[int]bool{}
	add := func(n int) {
		if n >= 6 && n <= limit+1 && !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	for k := 3; 1<<k <= limit; k++ {
		add(1<<k - 1)
		add(1 << k)
		add(1<<k + 1)
	}
	for k := 10; k <= limit; k *= 10 {
		add(k - 1)
		add(k)
		add(k + 1)
	}
	return
}

// scaleSizes are the sizes explored: all up to 2^16 (thorough 2^20) and a few beyond.
func scaleSizes(tier string) []int {
	if tier == "thorough" {
		return append(sizeScale(1<<20), 1<<21-1, 1<<21+1, 1<<22+1)
	}
	return append(sizeScale(1<<16), 1<<17+1, 1<<20+1, 1<<21+1)
}

// scaleCounts are the numbers of lines, members or documents explored.
func scaleCounts(tier string, quick, thorough int) []int {
	if tier == "thorough" {
		return sizeScale(thorough)
	}
	return sizeScale(quick)
}

// oneLine is n bytes without a line break; no two close positions look alike.
func oneLine(n int) string {
	var b strings.Builder
	for i := 0; b.Len() < n; i++ {
		fmt.Fprintf(&b, "%x.", i)
	}
	return b.String()[:n]
}

// shortLines is n bytes in short, distinct lines.
func shortLines(n int) string {
	var b strings.Builder
	for i := 0; b.Len() < n; i++ {
		fmt.Fprintf(&b, "line %d\n", i)
	}
	s := b.String()[:n-1]
	if strings.HasSuffix(s, "\n") {
		s = s[:n-2] + "z"
	}
	return s + "z"
}

func nLines(n int, f func(i int) string) string {
	l := make([]string, n)
	for i := range l {
		l[i] = f(i)
	}
	return strings.Join(l, "\n")
}

func plainLine(i int) string { return fmt.Sprintf("l%d", i) }

// nearTexts differ from s in one place.
func nearTexts(s string) (out []string) {
	for _, i := range []int{0, len(s) / 2, len(s) - 1} {
		out = append(out, s[:i]+"#"+s[i+1:])
	}
	return append(out, s+"#", s[:len(s)-1], s[:len(s)/2]+s[len(s)/2+1:], s+s[:min(len(s), 40)])
}

// scaleTexts are the texts of one size: one line, many lines, long lines among short ones.
func scaleTexts(n int) []string {
	return []string{oneLine(n), shortLines(n), "head\n" + oneLine(n) + "\n\ntail\n"}
}

var scaleEnum = map[string]func(tier string, emit Emit){
	"C01": func(tier string, emit Emit) {
		for _, n := range scaleSizes(tier) {
			for k := 0; k < 3; k++ {
				emit(func() *Scenario {
					v := scaleTexts(n)[k]
					prog := c01prog(v)
					if n > 1<<17 {
						prog = []exe{{"TestA", []op{snap(v), yml("a: 1\n")}}, {"TestB", []op{snap("b"), jsn(`[1]`)}}}
					}
					return replayScenario(fmt.Sprintf("size %d shape %d", n, k), prog)
				})
			}
			emit(func() *Scenario {
				return replayScenario(fmt.Sprintf("JSON and YAML of size %d", n), []exe{
					{"TestA", []op{jsn(`"` + oneLine(n) + `"`), yml("a: " + oneLine(n) + "\nb: 1\n"), snap("x")}},
					{"TestB", []op{yml("a: |\n  " + strings.ReplaceAll(shortLines(n), "\n", "\n  ")), jsn(`{"` + oneLine(n) + `":[1]}`), snap(5)}},
				})
			})
		}
		for _, n := range scaleCounts(tier, 1<<12, 1<<14) {
			emit(func() *Scenario {
				return replayScenario(fmt.Sprintf("%d lines", n), c01prog(nLines(n, plainLine)))
			})
			emit(func() *Scenario {
				return replayScenario(fmt.Sprintf("%d lines that are escaped", n), c01prog(nLines(n, func(i int) string {
					return []string{"---", "/-/-/-/", ""}[i%3]
				})))
			})
		}
		for _, n := range scaleCounts(tier, 1<<10, 1<<12) {
			if n > 1 {
				emit(func() *Scenario {
					var a, b []op
					for i := 0; i < n; i++ {
						a = append(a, snap(i))
					}
					b = append(b, jsn(`1`), snap("end"))
					return replayScenario(fmt.Sprintf("%d calls of one test", n), []exe{{"TestA", a}, {"TestB", b}})
				})
				emit(func() *Scenario {
					var es []exe
					for i := 0; i < n; i++ {
						es = append(es, exe{fmt.Sprintf("TestA/%d", i), []op{snap(i)}})
					}
					return replayScenario(fmt.Sprintf("%d tests", n), es)
				})
			}
		}
		// long test names
		for _, n := range sizeScale(1 << 12) {
			emit(func() *Scenario {
				name := "TestA/" + oneLine(n)
				return replayScenario(fmt.Sprintf("name of %d bytes", n), []exe{{name, []op{snap("1"), jsn(`[2]`)}}, {name + "x", []op{snap("3")}}, {"TestA", []op{snap("4")}}})
			})
		}
	},
	"C02": func(tier string, emit Emit) {
		i := 0
		for _, n := range scaleSizes(tier) {
			for k := 0; k < 3; k++ {
				for v := 0; v < 7; v++ {
					i++
					m := cmpModes[i%len(cmpModes)]
					if n > 1<<16 && tier != "thorough" && (i+k)%3 != 0 {
						continue
					}
					emit(func() *Scenario {
						a := scaleTexts(n)[k]
						b := nearTexts(a)[v]
						return changedScenario(fmt.Sprintf("size %d shape %d change %d", n, k, v), m,
							[]exe{{"TestA", []op{snap("guard"), snap(a), ssnap(a)}}, {"TestB", []op{snap(5)}}},
							[]exe{{"TestA", []op{snap("guard"), snap(b), ssnap(b)}}, {"TestB", []op{snap(5)}}}, fmtDiffer)
					})
				}
			}
			for v := 0; v < 7; v++ {
				i++
				m := cmpModes[i%len(cmpModes)]
				if n > 1<<16 && tier != "thorough" && i%3 != 0 {
					continue
				}
				emit(func() *Scenario {
					a := oneLine(n)
					b := strings.ReplaceAll(nearTexts(a)[v], "#", "z")
					j := func(s string) string { return `{"a":[1,"` + s + `"],"z":1}` }
					y := func(s string) string { return "a: x\nb: '" + s + "'\nc: 1\n" }
					return changedScenario(fmt.Sprintf("JSON and YAML of size %d change %d", n, v), m,
						[]exe{{"TestA", []op{jsn(j(a)), sjson(j(a)), yml(y(a)), snap("t")}}},
						[]exe{{"TestA", []op{jsn(j(b)), sjson(j(b)), yml(y(b)), snap("t")}}}, fmtDiffer)
				})
			}
		}
		for _, n := range scaleCounts(tier, 1<<12, 1<<15) {
			for _, at := range []int{0, n / 2, n - 1} {
				for _, how := range []string{"x", "", "+"} {
					i++
					m := cmpModes[i%len(cmpModes)]
					emit(func() *Scenario {
						l := strings.Split(nLines(n, plainLine), "\n")
						a := strings.Join(l, "\n")
						if how == "+" {
							l[at] += "\n"
						} else {
							l[at] = how
						}
						b := strings.Join(l, "\n")
						return changedScenario(fmt.Sprintf("%d lines, line %d becomes %q", n, at, how), m,
							[]exe{{"TestA", []op{snap(a), ssnap(a), snap("t")}}}, []exe{{"TestA", []op{snap(b), ssnap(b), snap("t")}}}, fmtDiffer)
					})
				}
			}
		}
		for _, n := range scaleCounts(tier, 1<<10, 1<<12) {
			i++
			m := cmpModes[i%len(cmpModes)]
			emit(func() *Scenario {
				var a, b []op
				for i := 0; i < n; i++ {
					a = append(a, snap(i))
					b = append(b, snap(i))
				}
				for _, i := range []int{0, n / 2, n - 1} {
					b[i] = snap(-1 - i)
				}
				return changedScenario(fmt.Sprintf("%d calls", n), m, []exe{{"TestA", a}, {"TestB", []op{snap(1)}}}, []exe{{"TestA", b}, {"TestB", []op{snap(1)}}}, fmtDiffer)
			})
		}
	},
	"C03": func(tier string, emit Emit) {
		for _, n := range scaleCounts(tier, 1<<10, 1<<12) {
			for k, m := range []Mode{Off, Upd, CIm} {
				if n > 200 && tier != "thorough" && n%3 != k {
					continue
				}
				emit(func() *Scenario {
					all := strings.Repeat("m", n)
					in := append(execSteps("TestA", 0, all, ""), execSteps("TestAB", 0, "mm", "")...)
					ch := []byte(all)
					ch[0], ch[n-1], ch[n/2] = 'x', 'x', 'h'
					ss := append(execSteps("TestA", 0, string(ch), ""), execSteps("TestAB", 0, "mxm", "")...)
					ss = append(ss, execSteps("TestA", 0, "mm", "")...)
					return slotScenario(fmt.Sprintf("%d slots %v", n, m), in, ss, m)
				})
				emit(func() *Scenario {
					// one test executed n times
					in := execSteps("TestA", 0, "mm", "")
					var ss []step
					for i := 0; i < n; i++ {
						ss = append(ss, execSteps("TestA", 0, "mm", "")...)
					}
					ss = append(ss, execSteps("TestA", 0, "xmm", "")...)
					return slotScenario(fmt.Sprintf("%d executions %v", n, m), in, ss, m)
				})
			}
		}
		for _, n := range scaleSizes(tier) {
			for k, m := range []Mode{Off, Upd, CIm} {
				if n > 5000 && n%3 != k && tier != "thorough" {
					continue
				}
				emit(func() *Scenario {
					val := func(s string) string { return s + "\n" + oneLine(n) + "\n[TestA - 2]\n" + s }
					st := func(t, s string) step { return step{test: t, kind: "call", val: val(s)} }
					in := []step{st("TestA", "1"), st("TestA", "2"), st("TestA", "3"), st("TestAB", "1")}
					ss := []step{st("TestA", "1"), st("TestA", "changed"), st("TestAB", "1"), st("TestA", "3"), st("TestA", "new"), st("TestAB", "new"), {test: "TestA", kind: "end"}, st("TestA", "1"), st("TestA", "2")}
					return slotScenario(fmt.Sprintf("values of size %d, %v", n, m), in, ss, m)
				})
			}
		}
	},
	"C04": func(tier string, emit Emit) {
		for _, n := range scaleSizes(tier) {
			for k := 0; k < 3; k++ {
				for v := 0; v < 4; v++ {
					if n > 1<<16 && tier != "thorough" && v != n%4 && v != 0 {
						continue
					}
					emit(func() *Scenario {
						old := scaleTexts(n)[k]
						nw := []string{"small", nearTexts(old)[1], nearTexts(old)[4], old + old[:min(n, 5000)]}[v]
						if v == 0 && n%2 == 0 {
							old, nw = nw, old
						}
						return updateScenario(fmt.Sprintf("size %d shape %d to %d", n, k, v),
							[]exe{{"TestA", []op{snap("k"), snap(old), snap("k2"), ssnap(old)}}, {"TestB", []op{snap("b"), jsn(`[1]`)}}},
							[]exe{{"TestA", []op{snap("k"), snap(nw), snap("k2"), ssnap(nw)}}, {"TestB", []op{snap("b"), jsn(`[1]`)}}}, Upd)
					})
				}
			}
			emit(func() *Scenario {
				s := oneLine(n)
				j := func(x string) string { return `{"a":"` + x + `","b":[1]}` }
				y := func(x string) string { return "a: '" + x + "'\nb: |\n  ---\n" }
				return updateScenario(fmt.Sprintf("JSON and YAML of size %d", n),
					[]exe{{"TestA", []op{jsn(j(s)), yml(y("s")), sjson(j("s")), snap("x")}}, {"TestB", []op{yml(y(s)), jsn(j("s"))}}},
					[]exe{{"TestA", []op{jsn(j("s")), yml(y(s)), sjson(j(s)), snap("x")}}, {"TestB", []op{yml(y("s")), jsn(j(s))}}}, Upd)
			})
		}
		for _, n := range scaleCounts(tier, 1<<10, 1<<12) {
			emit(func() *Scenario {
				var a, b []op
				for i := 0; i < n; i++ {
					a = append(a, snap(fmt.Sprintf("v%d", i)))
					b = append(b, a[i])
				}
				for _, i := range []int{0, n / 2, n - 1} {
					b[i] = snap(fmt.Sprintf("[TestA - %d]\nnew\n---", i+2))
				}
				return updateScenario(fmt.Sprintf("%d slots", n), []exe{{"TestA", a}, {"TestB", []op{snap(1)}}}, []exe{{"TestA", b}, {"TestB", []op{snap(2)}}}, Upd)
			})
		}
	},
	"C13": func(tier string, emit Emit) {
		modes := []Mode{{NoColor: true}, {}}
		for _, n := range scaleSizes(tier) {
			for k := 0; k < 3; k++ {
				for _, m := range modes {
					emit(func() *Scenario {
						a := scaleTexts(n)[k]
						bs := append(nearTexts(a), a, "", "x\ny", a+"\n")
						if n > 1<<17 {
							bs = append(nearTexts(a)[:4], a)
						}
						return reportScenario(a, bs, m, true)
					})
				}
				emit(func() *Scenario {
					a := scaleTexts(n)[k]
					return reportScenario(a, append(nearTexts(a)[:3], a), modes[0], false)
				})
			}
			// long lines that stay, next to lines that change, and several long lines that change
			emit(func() *Scenario {
				l, x := oneLine(n), strings.ReplaceAll(oneLine(n), ".", "_")
				a := "a\n" + l + "\nb\n" + l + "\nc"
				bs := []string{"A\n" + l + "\nb\n" + l + "\nc", "a\n" + l + "\nb\n" + l, "a\n" + x + "\nb\n" + l + "\nc", "a\n" + x + "\nB\n" + x + "\nc", "a\n" + l[:n-1] + "\nb\n" + l + "#\nc", "a\n" + l + "\n" + l + "\nb\n" + l + "\nc", l}
				return reportScenario(a, bs, modes[0], true)
			})
		}
		for _, n := range scaleCounts(tier, 1<<14, 1<<17) {
			for k := 0; k < 3; k++ {
				emit(func() *Scenario {
					line := []func(int) string{plainLine, func(i int) string { return fmt.Sprint(i % 7) }, func(int) string { return "same" }}[k]
					a := nLines(n, line)
					var bs []string
					for _, at := range []int{0, n / 2, n - 1} {
						l := strings.Split(a, "\n")
						rep := append(append(append([]string{}, l[:at]...), "changed"), l[at+1:]...)
						del := append(append([]string{}, l[:at]...), l[at+1:]...)
						ins := append(append(append([]string{}, l[:at]...), "new", ""), l[at:]...)
						bs = append(bs, strings.Join(rep, "\n"), strings.Join(del, "\n"), strings.Join(ins, "\n"))
					}
					if k == 0 && n <= 1<<13 {
						l := strings.Split(a, "\n")
						for i := range l {
							if i%3 != 0 {
								l[i] += "'"
							}
						}
						bs = append(bs, strings.Join(l, "\n"))
					}
					bs = append(bs, a, a+"\n")
					return reportScenario(a, bs, modes[n%2], true)
				})
			}
			// many changed lines
			emit(func() *Scenario {
				return reportScenario(nLines(n, plainLine), []string{nLines(n, func(i int) string { return fmt.Sprintf("m%d", i) }), "one", nLines(n+1, plainLine), nLines(n/2, plainLine)}, modes[0], true)
			})
		}
	},
	"C14": func(tier string, emit Emit) {
		one := func(what string, mk func() *jv) {
			emit(func() *Scenario {
				return canonScenario(what, []jdoc{presentations(mk(), true)}, false)
			})
		}
		for _, n := range scaleSizes(tier) {
			one(fmt.Sprintf("string of %d bytes", n), func() *jv { return ov(`"b"`, lv(`"`+oneLine(n)+`"`), `"a"`, lv("1")) })
			one(fmt.Sprintf("text of %d bytes", n), func() *jv {
				var kids []*jv
				for i := 0; i < n/8+1; i++ {
					kids = append(kids, lv(fmt.Sprintf(`"%06d"`, i)))
				}
				return ov(`"z"`, av(kids...), `"a"`, lv("1"))
			})
			if n <= 1<<16+1 {
				one(fmt.Sprintf("key of %d bytes", n), func() *jv {
					return av(ov(`"b`+oneLine(n)+`"`, lv("1"), `"a`+oneLine(n)+`"`, lv("2"), `"a`+oneLine(n)+`x"`, lv("3")))
				})
			}
			if n <= 3000 {
				one(fmt.Sprintf("number of %d digits", n), func() *jv {
					return av(lv(strings.Repeat("9", n)), lv("-"+strings.Repeat("8", n)+".5e-7"), lv("0."+strings.Repeat("1", n)))
				})
			}
		}
		for _, n := range scaleCounts(tier, 1<<12, 1<<15) {
			one(fmt.Sprintf("array of %d", n), func() *jv {
				var kids []*jv
				for i := 0; i < n; i++ {
					kids = append(kids, lv(fmt.Sprint(i)))
				}
				return av(kids...)
			})
			one(fmt.Sprintf("object of %d", n), func() *jv {
				o := ov()
				for i := 0; i < n; i++ {
					o.lits = append(o.lits, fmt.Sprintf(`"k%d"`, (i*7919)%n*n+i))
					o.kids = append(o.kids, lv(fmt.Sprint(i)))
				}
				return o
			})
		}
		for _, n := range scaleCounts(tier, 1<<9, 1<<11) {
			one(fmt.Sprintf("depth %d", n), func() *jv {
				v := lv("1")
				for i := 0; i < n; i++ {
					if i%2 == 0 {
						v = av(v)
					} else {
						v = ov(`"b"`, v, `"a"`, lv("2"))
					}
				}
				return v
			})
		}
	},
	"C15": func(tier string, emit Emit) {
		sp := func(kind string, ph any, paths ...string) mspec {
			m := mspec{kind: kind, ph: ph, paths: paths}
			for _, p := range paths {
				m.steps = append(m.steps, strings.Split(p, "."))
			}
			return m
		}
		lists := func(n int) [][]mspec {
			ty := sp("type", nil, "big")
			ty.typ = "string"
			bad := sp("type", nil, "big")
			bad.typ = "float64"
			return [][]mspec{
				{sp("any", "p", "id")}, {sp("any", "p", "post.id")}, {sp("any", "p", "big")}, {sp("any", "p", "list")}, {sp("any", "p", "list.3")},
				{sp("any", oneLine(n), "id", "post.id")}, {sp("custom", oneLine(n), "big"), sp("any", 5, "post")}, {ty}, {bad}, {sp("any", 1, "missing")},
			}
		}
		jdoc := func(n, items int) string {
			l := make([]string, items)
			for i := range l {
				l[i] = fmt.Sprint(i)
			}
			return `{"id":1,"big":"` + oneLine(n) + `","list":[` + strings.Join(l, ",") + `],"post":{"id":"x","t":[true]}}`
		}
		for _, n := range scaleSizes(tier) {
			emit(func() *Scenario {
				ls := lists(n)
				if n > 1<<17 {
					ls = ls[1:4]
				}
				return throughScenario(jdoc(n, 5), ls)
			})
		}
		for _, n := range scaleCounts(tier, 1<<13, 1<<16) {
			emit(func() *Scenario {
				return throughScenario(jdoc(20, n), append(lists(5), []mspec{sp("any", "p", fmt.Sprintf("list.%d", n-1), "list.0")}))
			})
		}
		yl := func(n int) (out [][]mspec) {
			for _, l := range lists(n) {
				var o []mspec
				for _, m := range l {
					for k, p := range m.paths {
						m.paths[k] = "$." + strings.ReplaceAll(p, "list.3", "list[3]")
					}
					if m.typ == "float64" {
						m.typ = "uint64"
					}
					o = append(o, m)
				}
				out = append(out, o)
			}
			return
		}
		ydoc := func(n, items int) string {
			var b strings.Builder
			b.WriteString("id: 1 # c\nbig: '" + oneLine(n) + "'\nlist:\n")
			for i := 0; i < items; i++ {
				fmt.Fprintf(&b, "  - %d\n", i)
			}
			return b.String() + "post:\n  id: x\n  t: [true]\n"
		}
		for _, n := range scaleSizes(tier) {
			emit(func() *Scenario {
				ls := yl(n)
				if n > 1<<17 {
					ls = ls[1:4]
				}
				return yamlThrough(ydoc(n, 5), ls, true)
			})
		}
		for _, n := range scaleCounts(tier, 1<<10, 1<<12) {
			emit(func() *Scenario { return yamlThrough(ydoc(20, n), yl(5), true) })
		}
	},
	"C16": func(tier string, emit Emit) {
		type pr struct {
			b    string
			same bool
		}
		for _, api := range []string{"json", "sjson", "yaml"} {
			mk := func(pre, id, post string, n int, list int) string {
				l := make([]string, list)
				for i := range l {
					l[i] = fmt.Sprint(i)
				}
				if api == "yaml" {
					return "pre: '" + pre + "'\nid: " + id + "\nlist:\n  - " + strings.Join(l, "\n  - ") + "\npost: '" + post + "'\n"
				}
				return `{"pre":"` + pre + `","id":` + id + `,"list":[` + strings.Join(l, ",") + `],"post":"` + post + `"}`
			}
			run := func(what string, n, list int) {
				emit(func() *Scenario {
					s := oneLine(n)
					z := strings.ReplaceAll(nearTexts(s)[2], "#", "z")
					mid := strings.ReplaceAll(nearTexts(s)[1], "#", "z")
					p := "id"
					if api == "yaml" {
						p = "$.id"
					}
					a := mk(s, "1", s, n, list)
					ms := []mspec{{kind: "any", noPh: true, paths: []string{p}, steps: [][]string{{"id"}}}}
					prs := []pr{{mk(s, `"`+s+`"`, s, n, list), true}, {mk(s, "[1,2]", s, n, list), true}, {mk(z, "1", s, n, list), false}, {mk(s, "1", z, n, list), false}, {mk(s, "2", mid, n, list), false}, {mk(s, "1", s, n, list+1), false}}
					var ps []c16pair
					for i, x := range prs {
						p := c16pair{b: x.b, desc: fmt.Sprintf("change %d", i), same: x.same}
						if i%2 == 1 {
							p.b = []byte(x.b)
						}
						ps = append(ps, p)
					}
					return c16Scenario(what, api, a, false, ms, ps)
				})
			}
			for _, n := range scaleSizes(tier) {
				if n > 1<<17 && api == "sjson" && tier != "thorough" {
					continue
				}
				run(fmt.Sprintf("size %d", n), n, 3)
			}
			lim := 1 << 13
			if api == "yaml" {
				lim = 1 << 10
			}
			for _, n := range scaleCounts(tier, lim, lim*4) {
				run(fmt.Sprintf("%d elements", n), 12, n)
			}
		}
	},
	"C18": func(tier string, emit Emit) {
		for _, n := range scaleSizes(tier) {
			docs := []func() string{
				func() string { return "a: '" + oneLine(n) + "'\nb: 1\n" },
				func() string { return "# " + oneLine(n) + "\na: 1" },
				func() string { return "a: |\n  " + strings.ReplaceAll(shortLines(n), "\n", "\n  ") + "\n---\nb: 1\n" },
				func() string { return "a: >\n  " + oneLine(n) + "\n\n\n\n" },
			}
			if n <= 1<<13+1 || tier == "thorough" && n <= 1<<16+1 {
				docs = append(docs, func() string {
					var b strings.Builder
					for i := 0; b.Len() < n; i++ {
						fmt.Fprintf(&b, "k%d: %d\n", i, i)
					}
					return b.String()
				}, func() string {
					var b strings.Builder
					for i := 0; b.Len() < n; i++ {
						fmt.Fprintf(&b, "---\n- %d\n", i)
					}
					return b.String()
				}, func() string {
					return "a: 1\n" + strings.Repeat("\n", n) + "b: 2\n"
				})
			}
			for i, d := range docs {
				if n > 1<<17 && i > 0 && tier != "thorough" {
					continue
				}
				emit(func() *Scenario { return verbatimScenario([]string{d(), "x: 1\n"}) })
			}
		}
	},
	"C19": func(tier string, emit Emit) {
		for _, n := range scaleSizes(tier) {
			emit(func() *Scenario {
				ops := []op{ssnap(oneLine(n)), ssnap("x\r\n"), ssnap(shortLines(n) + "\r\n"), ssnap("")}
				if n > 1<<17 {
					ops = ops[:2]
				}
				return saLife(fmt.Sprintf("size %d", n), saCfg{}, ops)
			})
			emit(func() *Scenario {
				return saLife(fmt.Sprintf("JSON size %d", n), saCfg{}, []op{sjson(`{"k":"` + oneLine(n) + `"}`), sjson(`[1]`)})
			})
		}
		for _, n := range scaleCounts(tier, 1<<8, 1<<10) {
			emit(func() *Scenario {
				var cs []saCall
				for i := 0; i < n; i++ {
					cs = append(cs, saCall{ssnap(fmt.Sprint(i)), 0})
				}
				return standaloneScenario(fmt.Sprintf("%d standalone calls", n), []saCfg{{}}, []saStage{
					{Off, nil, []saExec{{"TestS", cs}, {"TestS", cs[:2]}}}, {CIm, nil, []saExec{{"TestS", cs}}}, {Upd, nil, []saExec{{"TestS", rot(cs, 1)}}}, {CIm, nil, []saExec{{"TestS", rot(cs, 1)}}},
				})
			})
		}
	},
}

const sizesRule = "; sizes: every power of two and ten and its neighbours up to 2^16 (thorough 2^20), 2^17+1, 2^20+1, 2^21+1 (thorough 2^21-1, 2^22+1) bytes"

// scaleRule describes the size scenarios in the evidence.
var scaleRule = map[string]string{
	"C01": sizesRule + " in one line, in short lines, in a JSON string or key, a YAML scalar or block; up to 2^12 lines, 2^10 calls and tests (thorough 2^14, 2^12), names up to 2^12 bytes",
	"C02": sizesRule + " with one byte changed, added or dropped at the start, middle and end, as text, JSON and YAML; one of up to 2^12 lines (thorough 2^15) and of up to 2^10 calls (thorough 2^12) changed",
	"C03": sizesRule + " as slot values; up to 2^10 (thorough 2^12) slots and executions of one test",
	"C04": sizesRule + " as the old or the new value of an update; up to 2^10 (thorough 2^12) slots",
	"C13": sizesRule + " as a line and as a text, changed and unchanged; up to 2^14 (thorough 2^17) lines",
	"C14": sizesRule + " as a string, a key (2^16) and a whole document, numbers up to 3000 digits, up to 2^12 (thorough 2^15) elements and members, depth up to 2^9 (thorough 2^11)",
	"C15": sizesRule + " as the matched value, the placeholder and the unmatched rest; arrays up to 2^13 (thorough 2^16), YAML lists up to 2^10 (thorough 2^12)",
	"C16": sizesRule + " of unmasked text around a masked value; arrays up to 2^13 (thorough 2^15), YAML lists up to 2^10 (thorough 2^12)",
	"C18": sizesRule + " as a scalar, a comment, a literal and a folded block, mappings and document streams up to 2^13 (thorough 2^16) bytes",
	"C19": sizesRule + " as text and JSON; up to 2^8 (thorough 2^10) calls of one test",
}

func enumerate(id, tier string, emit Emit) {
	properties[id].Enum(tier, emit)
	if f := scaleEnum[id]; f != nil {
		f(tier, emit)
	}
}
