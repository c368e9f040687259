package e1

import (
	"fmt"
	"strings"
	"time"

	"github.com/gkampitakis/go-snaps/snaps"
)

var lineTokens = []string{
	"", "a", "---", "/-/-/-/", " ", "[TestA - 1]", "[TestB - 1]", "[TestA - 3]", "\xff", "----",
	"\t", "--- ", " ---", "[TestA/s - 1]", "/-/-/-//-/-/-/", "a\rb", "\x00", "é\u2028x", "[x - y]", "[TestA - 01]", "%d %s", "\x1b[31m", "-- -", "/-/-/-", "- - -",
	"[FuzzA - 1]", "\ufeff", "[TestZ - 1]", "###", "{\"a\":1}",
}

type gostruct struct {
	A int
	B string
	C []byte
	D map[string]int
	E *int
	F any
}

func goValues() []any {
	n := 7
	return []any{
		nil, true, 1, int64(-5), uint8(3), 1.5, float32(2), "plain", "", "\n", "\n\n", []byte("bytes"), []byte{0xff, 0, '\n'},
		[]string{"a", "---", "[TestA - 1]"}, []any{1, nil, "x\n---\ny"}, map[string]int{"b": 1, "a": 2, "": 3},
		map[int]string{2: "x", 1: "---"}, gostruct{A: 1, B: "x\n---\n", C: []byte("---"), D: map[string]int{"k": 1}, F: gostruct{}},
		struct{}{}, [2]int{1, 2}, fmt.Errorf("err\n---\n[TestB - 1]"), time.Unix(0, 0).UTC(), time.Duration(5), complex(1, 2),
		'x', gostruct{F: n}, []gostruct{{}, {A: 2}}, strings.Repeat("x", 70000), strings.Repeat("line\n", 3000),
		strings.Repeat("---\n", 40), "a\n" + strings.Repeat("y", 66000) + "\nb", strings.Repeat("0123456789", 210000),
	}
}

var yamlTexts = []string{
	"a: 1", "a: 1\n", "a: 1\n---\nb: 2\n", "---\na: 1", "---\na: 1\n---\n---\nb: 2", "[TestB - 1]", "[TestA - 3]\n", "# c\na: 1 # d\n\n\n",
	"a: |\n  x\n\n  y\n", "a: |\n  ---\n", "/-/-/-/", "x: |-\n  /-/-/-/\n", "- 1\n-  2\n", "\"---\"", "a:   1\n\nb:    2\n", "- [TestA - 1]\n", "b: 2\na: 1\n", "a: \"\\u00e9\"\n",
	"...", "a: é\n", "? a\n: b\n", "&x a: 1\nb: *x\n", "{a: 1, b: [1,2]}", "%YAML 1.2\n---\na: 1\n", "a: 'x\n  y'\n", "  a: 1\n", "\n\na: 1", "a: 1\n...\n---\nb: 2\n", "1", "null", "~", "# only\n", "",
}

var jsonTexts = []string{
	`{"a":1}`, `"---"`, `["[TestA - 1]","---"]`, `[]`, `{}`, `null`, `"x\n---\n[TestB - 1]"`, `{"b":{"a":[1,2,{"c":null}]},"a":"\u00e9"}`, ` { "a" : 1 } `, `1e5`, `-0`, `"é\u2028"`, "\"\xff\"", `[[],[[]],{}]`, `""`,
	`{"":1," ":2}`, `12345678901234567890123`, `"[TestB - 1]"`,
}

var testNames = []string{
	"TestA", "TestA/s", "TestAB", "TestA/100%", "TestA/%d", "TestA/a#01", "TestA/[x]", "TestA/é", "TestA/.*", "TestA/a/b/c", "TestB", "FuzzA", "FuzzA/seed#0", "TestA/" + strings.Repeat("n", 120), "Test", "TestA_s", "TestA/-", "TestA/a_-_1", "TestA/(b", "TestA/x]", "TestA/a\\b", "TestA/---", "BenchmarkX",
	// near to other names: case, composition, digits
	"testa", "TESTA", "TestA/S", "TestA/\u017f", "TestA/e\u0301", "TestA/É", "TestA/1", "TestA/01", "TestA/١", "TestA/1_-_1", "TestA/s#01", "TestA/s/",
}

func c01prog(body any) []exe {
	return []exe{
		{"TestA", []op{snap(body), jsn(`{"k":[1,"---"]}`), snap("tail", body)}},
		{"TestB", []op{yml("a: 1\n---\nb: 2\n"), snap(body)}},
		{"TestA/s", []op{snap(body, 5, body), snap("end")}},
	}
}

func replayScenario(desc string, prog []exe, opts ...func(*snaps.Config)) *Scenario {
	same := func(w *W) { w.runExecs(w.cfg(opts...), prog) }
	rev := func(w *W) { w.runExecs(w.cfg(opts...), reversed(prog)) }
	return &Scenario{
		Desc: desc,
		Stages: []Stage{
			{Off, same}, {Off, same}, {CIm, rev}, {Upd, same}, {Mode{}, rev}, {Mode{Update: "clean"}, same},
		},
		Check: func(r []StageResult, fail func(key, format string, args ...any)) {
			expectAll(r[0], "record", "added", false, fail)
			for i := 1; i < len(r); i++ {
				expectAll(r[i], fmt.Sprintf("replay %d", i), "passed", true, fail)
			}
		},
	}
}

func init() {
	register(&Property{
		ID: "C01",
		Rule: "every sequence of <=2 (thorough <=3) line tokens from a 30-token alphabet (terminator, escape, headers, blanks, non-UTF-8, ...) plus all length-3 (thorough length-4) sequences over the 8 riskiest, " +
			"a list of Go values, YAML and JSON texts, names, call counts and long lines; each recorded by a 3-test/7-call program mixing MatchSnapshot/MatchJSON/MatchYAML in one file, then replayed by 5 further processes (same/reversed test order; off-CI, CI, UPDATE_SNAPS=true/clean, colour on/off)",
		Assume: []string{"no carriage return at the end of a line (documented limitation)"},
		Enum: func(tier string, emit Emit) {
			str := func(toks []string) {
				v := strings.Join(toks, "\n")
				emit(func() *Scenario { return replayScenario("body "+q(v), c01prog(v)) })
			}
			for n := 1; n <= 2; n++ {
				seqs(lineTokens, n, str)
			}
			risky := lineTokens[:8]
			seqs(risky, 3, str)
			if tier == "thorough" {
				seqs(lineTokens, 3, str)
				seqs(risky, 4, str)
			}
			for _, v := range goValues() {
				emit(func() *Scenario { return replayScenario(snap(v).String(), c01prog(v)) })
				emit(func() *Scenario {
					return replayScenario("ext+nofilename "+snap(v).String(), c01prog(v), snaps.Filename(""), snaps.Ext(".txt"))
				})
				for _, u := range []any{"", "---", nil, "\n", 3} {
					emit(func() *Scenario {
						return replayScenario(snap(v, u).String(), []exe{{"TestA", []op{snap(v, u), snap(u, v), snap(u), snap("---")}}})
					})
				}
			}
			pos := func(o op) {
				emit(func() *Scenario {
					return replayScenario(o.String(), []exe{
						{"TestA", []op{o, snap("x"), o}}, {"TestB", []op{snap("[TestA - 3]\n---"), o, jsn(`1`)}}, {"TestA/s", []op{o}},
					})
				})
			}
			for _, y := range yamlTexts {
				pos(yml(y))
				pos(yml([]byte(y)))
			}
			for _, j := range jsonTexts {
				pos(jsn(j))
				pos(jsn([]byte(j)))
			}
			for _, v := range []any{gostruct{A: 1}, map[string]any{"b": 1, "a": []int{1}}, []any{nil, "x"}, 5, "a: 1", nil} {
				pos(yml(v))
				if _, ok := v.(string); !ok {
					pos(jsn(v))
				}
			}
			// pairs of YAML/JSON/plain neighbours
			nb := []op{yml("---\n"), yml("a: 1\n"), yml("[TestA - 2]"), jsn(`"---"`), snap("\n"), snap(""), snap("---"), snap("[TestA - 2]\nx\n---"), yml("a: 1\n\n---\n\n"), snap("/-/-/-/")}
			seqs(nb, 3, func(o []op) {
				emit(func() *Scenario {
					return replayScenario("neighbours", []exe{{"TestA", o}, {"TestB", reversed(o)}})
				})
			})
			for _, n := range testNames {
				for _, m := range testNames {
					emit(func() *Scenario {
						return replayScenario("names "+n+" "+m, []exe{
							{n, []op{snap("1"), snap("[" + m + " - 1]\n---\n")}}, {m, []op{snap("[" + n + " - 2]"), snap("2")}}}[:map[bool]int{true: 1, false: 2}[n == m]])
					})
				}
			}
			counts := []int{9, 10, 11, 21, 100, 130}
			for _, k := range counts {
				emit(func() *Scenario {
					var a, b []op
					for i := 0; i < k; i++ {
						a = append(a, snap(fmt.Sprintf("[TestA - %d]\nv%d", k-i, i)))
						b = append(b, []op{snap(i), jsn(i), yml(fmt.Sprint(i))}[i%3])
					}
					return replayScenario(fmt.Sprintf("%d calls", k), []exe{{"TestA", a}, {"TestB", b}})
				})
			}
		},
	})
}
