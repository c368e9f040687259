package e1

import (
	"fmt"
	"strings"
	"time"

	"github.com/gkampitakis/go-snaps/match"
	"github.com/gkampitakis/go-snaps/snaps"
	"github.com/goccy/go-yaml"
)

// verdicts of two parsers on a document
func goccyAccepts(doc string) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	var v any
	return yaml.Unmarshal([]byte(doc), &v) == nil
}

func v3Accepts(doc string) bool {
	_, err := parseY(doc)
	return err == nil
}

var yamlInvalid = []string{
	"a: [", "a: [1, 2", "{", "}", "]", "a: {b: 1", "a: \"x", "a: 'x", "a: 1\n  b: 2", "- a\nb: 1", "a: b: c", "a: *nope", "\tx: 1", "a:\n\t- b",
	"a: 1\na: 2", "key: - x", "a: 1\n---\nb: [", "@x", "`x", "a: |x\n  y", "[TestM - 1]\n[", "---\n{", "a: 1\n- b", "&", "\"a\" \"b\"", "[a, b]]", "a: 1\n---\n'", "\x00", "a: \x01", "%YAML\n---\n}",
}

// SELF and NEXT stand for the names of the test of the document and of the following test.
var yamlFragments = []string{"a: 1", "- x", "# c", "---", "...", "", "  b: 2", "k: |", "  text", "[SELF - 2]", "[NEXT - 1]", " ", "/-/-/-/", "--- ", "  ---", "/-/-/-//-/-/-/", "[FuzzX - 12]", "z: [1, {q: é}]", "b: 'it''s'"}

type yAddr struct {
	Street string `yaml:"street"`
	No     int    `yaml:"no,omitempty"`
}
type yUser struct {
	Name   string
	Email  *string `yaml:"email"`
	Tags   []string
	Addr   yAddr
	PAddr  *yAddr `yaml:"paddr"`
	Meta   map[string]any
	Hidden string `yaml:"-"`
	Inline yAddr  `yaml:",inline"`
	F      float64
	T      time.Duration
}

func manyKeys(rev bool) map[string]any {
	m := map[string]any{}
	for k := 0; k < 24; k++ {
		i := k
		if rev {
			i = 23 - k
		}
		m[fmt.Sprintf("key%02d", i)] = map[string]int{"z": i, "y": 2, "x": 3, "w": 4, "v": 5}
	}
	return m
}

// goYAMLValues is rebuilt for every call: equal values, different addresses.
func goYAMLValues(rev bool) []any {
	e := "a@b.c"
	mi := map[int]string{3: "c", 1: "a", 2: "---", 10: "j"}
	return []any{
		map[string]any{"b": 1, "a": 2, "": 3}, manyKeys(rev), mi, map[string]map[string][]int{"x": {"q": {1}, "p": {2, 3}}, "a": {}},
		yUser{Name: "x\n---\ny", Email: &e, Tags: []string{"---", "[TestM0 - 1]", "# c"}, Addr: yAddr{"s", 1}, PAddr: &yAddr{"t", 0}, Meta: manyKeys(rev), Inline: yAddr{"in", 4}, F: 1.5, T: 3},
		&yUser{}, []yAddr{{"a", 1}, {"", 0}}, []any{1, "two", nil, true, 1.5, []int{}, map[string]any{}, []any{map[string]any{"k": []any{}}}},
		1, -1.25, true, nil, []int{1, 2, 3}, [2]string{"---", "..."}, struct{}{}, map[bool]int{true: 1, false: 0},
		[]map[string]int{{"b": 1, "a": 2}, {"d": 3, "c": 4}}, struct{ A any }{A: map[string]any{"n": manyKeys(rev)}},
		map[string]string{"multi": "l1\nl2\n", "term": "---", "esc": "/-/-/-/", "sp": " ", "hash": "#x"},
		yaml.MapSlice{{Key: "z", Value: 1}, {Key: "a", Value: yaml.MapSlice{{Key: "q", Value: "x"}}}},
		time.Unix(86400, 0).UTC(), uint8(7), int64(-1 << 62), []string{"", " ", "---", "a: b", "1", "true", "~", "l1\nl2"}, map[any]any{"s": 1, 2: "two"},
	}
}

func yamlDocSpace(tier string) []string {
	seen := map[string]bool{}
	var out []string
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	for _, l := range [][]string{yamlPlainDocs, yamlOddDocs, yamlTexts, yamlInvalid} {
		for _, d := range l {
			for _, v := range []string{d, d + "\n", d + "\n\n", strings.TrimSuffix(d, "\n"), "---\n" + d, "# c\n" + d, d + "# c", "\n" + d, "\ufeff" + d, strings.ReplaceAll(d, "\n", "\r\n"), strings.ReplaceAll(d, "\n", "\r"), d + "\n\n\n", d + " \n", d + "\t", d + "\n ", d + "\n---\n", d + "\n...\n"} {
				add(v)
			}
		}
	}
	for _, d := range []string{
		"k: " + strings.Repeat("x", 70000), "k: |\n" + strings.Repeat("  line\n", 3000), "l:\n"+strings.Repeat("- a # c\n", 2000), "k: '" + strings.Repeat("it''s ", 12000) + "'\n", "# " + strings.Repeat("c", 66000) + "\na: 1\n",
		strings.Repeat("---\na: 1\n", 500), "k: >-\n" + strings.Repeat("  "+strings.Repeat("w ", 60)+"\n\n", 300), "é: " + strings.Repeat("日本", 30000),
	} {
		add(d)
		add(d + "\n\n")
	}
	frags, depth := yamlFragments[:13], 3
	if tier == "thorough" {
		frags, depth = yamlFragments, 3
	}
	for n := 1; n <= depth; n++ {
		seqs(frags, n, func(s []string) {
			d := strings.Join(s, "\n")
			add(d)
			add(d + "\n")
		})
	}
	if tier == "thorough" {
		seqs(yamlFragments[:13], 4, func(s []string) {
			d := strings.Join(s, "\n")
			add(d)
			add(d + "\n")
		})
	}
	return out
}

func init() {
	register(&Property{
		ID: "C18",
		Rule: "every YAML document of a pool (plain, odd, texts, invalid; 8 envelopes each) and of all sequences of up to 3 (thorough 4) line fragments x final newline, 16 documents (which may hold the headers of their own second entry and of the next test's entry) sharing one file with neighbours, given as string and as bytes: recorded (file body compared with the document), replayed in 3 further processes (read-only, other order, update mode) and compared with 4 variants of the document that must fail; " +
			"documents both goccy/go-yaml and yaml.v3 reject must fail once and write nothing, documents both accept must be stored; the documents stored through matcher lists that do not apply (missing paths ignored, no paths) stay verbatim; a pool of Go values is marshalled in 2 calls x 7 processes and compared by text and, through yaml.v3, by value",
		Assume: []string{"documents on which the two YAML parsers disagree may be stored or refused, but never altered", "replay is not demanded of documents with a carriage return at the end of a line (documented limitation of multi-entry files)"},
		Enum: func(tier string, emit Emit) {
			encodeMaps = true // one property per process
			docs := yamlDocSpace(tier)
			const per = 16
			for lo := 0; lo < len(docs); lo += per {
				ds := docs[lo:min(lo+per, len(docs))]
				emit(func() *Scenario { return verbatimScenario(ds) })
				if lo/per%8 == 0 { // also one document alone in its file, at every position of the pool
					for _, d := range ds[:min(2, len(ds))] {
						emit(func() *Scenario { return verbatimScenario([]string{d}) })
					}
				}
			}
			for lo := 0; lo < len(docs); lo += per {
				if tier != "thorough" && lo/per%2 == 1 && lo > 60*per {
					continue
				}
				ds := docs[lo:min(lo+per, len(docs))]
				emit(func() *Scenario { return idleScenario(ds) })
			}
			vals := goYAMLValues(false)
			for i := range vals {
				emit(func() *Scenario { return goYAMLScenario([]int{i}) })
			}
			var all []int
			for i := range vals {
				all = append(all, i)
			}
			emit(func() *Scenario { return goYAMLScenario(all) })
			emit(func() *Scenario { return goYAMLScenario(reversed(all)) })
			for _, v := range []any{make(chan int), func() {}} {
				emit(func() *Scenario {
					return &Scenario{
						Desc: fmt.Sprintf("value that has no YAML form: %T", v),
						Stages: []Stage{{Off, func(w *W) {
							w.Test("TestM", func(t *T) {
								w.Do(t, func() { w.cfg().MatchYAML(t, v) })
							})
						}}},
						Check: func(r []StageResult, fail func(key, format string, args ...any)) {
							expectAll(r[0], "record", "failed", true, fail)
						},
					}
				})
			}
		},
	})
}

func verbatimScenario(ds []string) *Scenario {
	name := func(i int) string { return fmt.Sprintf("TestM%d", i) }
	ds = append([]string{}, ds...)
	for i := range ds {
		ds[i] = strings.NewReplacer("SELF", name(i), "NEXT", name(i+1)).Replace(ds[i])
	}
	call := func(w *W, t *T, c *snaps.Config, doc string, bytes bool) {
		if !bytes {
			w.Do(t, func() { c.MatchYAML(t, doc) })
			return
		}
		b := make([]byte, len(doc), len(doc)+8)
		copy(b, doc)
		copy(b[len(doc):cap(b)], "########")
		w.Do(t, func() { c.MatchYAML(t, b) })
		if string(b[:cap(b)]) != doc+"########" {
			w.Note("mutated", q(doc)+" became "+q(string(b[:cap(b)])))
		}
	}
	run := func(order []int, firstBytes bool) func(w *W) {
		return func(w *W) {
			c := w.cfg()
			for _, i := range order {
				w.Test(name(i), func(t *T) {
					call(w, t, c, ds[i], firstBytes)
					call(w, t, c, ds[i], !firstBytes)
					w.Do(t, func() { c.MatchSnapshot(t, "neighbour", i) })
				})
			}
		}
	}
	var order []int
	for i := range ds {
		order = append(order, i)
	}
	variants := func(d string) []string {
		return []string{d + "\n", strings.TrimSuffix(d, "\n"), d + "\n# c", strings.Replace(d, "---", "/-/-/-/", 1), " " + d, strings.TrimRight(d, "\n "), "# c\n" + d}
	}
	return &Scenario{
		Desc: fmt.Sprintf("%d documents in one file, e.g. %s", len(ds), q(ds[0])),
		Stages: []Stage{
			{Off, run(order, false)},
			{CIm, run(reversed(order), true)},
			{Off, run(order, false)},
			{Upd, run(reversed(order), false)},
			{CIm, func(w *W) {
				c := w.cfg()
				for i, d := range ds {
					for _, v := range variants(d) {
						w.Test(name(i), func(t *T) { call(w, t, c, v, len(v)%2 == 0) })
					}
				}
			}},
		},
		Check: func(r []StageResult, fail func(key, format string, args ...any)) {
			for s := range r {
				if m := r[s].Notes["mutated"]; m != "" {
					fail("mutated", "stage %d: %s", s, m)
				}
			}
			es, junk := parseFile(r[0].After["s/f.snap"].Data)
			stored := map[string]string{}
			for _, e := range es {
				if _, dup := stored[e.id]; dup {
					fail("dup", "entry [%s] twice", e.id)
				}
				stored[e.id] = unesc(e.body)
			}
			if len(junk) > 0 {
				fail("junk", "file holds %q outside entries", junk)
			}
			ok := make([]bool, len(ds))
			for i, d := range ds {
				a, b, n := r[0].Calls[3*i], r[0].Calls[3*i+1], r[0].Calls[3*i+2]
				if n.Outcome() != "added" || stored[fmt.Sprintf("%s - 3", name(i))] != formatted([]any{"neighbour", i}) {
					fail("neighbour", "document %s: neighbour: %s, stored %q", q(d), n.Outcome(), stored[fmt.Sprintf("%s - 3", name(i))])
				}
				if a.Outcome() != b.Outcome() {
					fail("forms", "document %s: string input %s, bytes %s", q(d), a.Outcome(), b.Outcome())
					continue
				}
				g, v3 := goccyAccepts(d), v3Accepts(d)
				switch a.Outcome() {
				case "added":
					ok[i] = true
					if !g && !v3 {
						fail("accepted", "document %s is not valid YAML but was stored", q(d))
					}
					for k := 1; k <= 2; k++ {
						if got, have := stored[fmt.Sprintf("%s - %d", name(i), k)]; !have || got != d {
							fail("verbatim", "document %s stored as %s", q(d), q(got))
						}
					}
				case "failed":
					if g && v3 {
						fail("refused", "valid document %s: %s", q(d), q(strings.Join(a.Errors(), "|")))
					}
					if len(a.Writes)+len(b.Writes) > 0 {
						fail("wrote", "document %s failed and wrote %q", q(d), append(a.Writes, b.Writes...))
					}
				default:
					fail("outcome", "document %s: %s", q(d), a.Outcome())
				}
			}
			for s := 1; s <= 3; s++ {
				for n := range ds {
					i := n
					if s != 2 {
						i = len(ds) - 1 - n
					}
					d := ds[i]
					for k := 0; k < 3; k++ {
						c := r[s].Calls[3*n+k]
						cr := strings.Contains(d+"\n", "\r\n")
						want := "passed"
						if k < 2 && !ok[i] {
							want = "failed"
						}
						if o := c.Outcome(); o != want && !(cr && k < 2) {
							fail("replay", "document %s, replay %d call %d: %s, want %s %s", q(d), s, k, o, want, q(strings.Join(c.Errors(), "|")))
							return
						} else if len(c.Writes) > 0 && !(cr && k < 2) {
							fail("replaywrote", "document %s, replay %d call %d wrote %q", q(d), s, k, c.Writes)
							return
						}
					}
				}
			}
			n := 0
			for _, d := range ds {
				for _, v := range variants(d) {
					c := r[4].Calls[n]
					n++
					if (v == d) || strings.Contains(d+"\n", "\r\n") {
						continue
					}
					if o := c.Outcome(); o != "failed" || len(c.Writes) > 0 {
						fail("nodiff", "stored %s, received %s: %s, writes %q", q(d), q(v), o, c.Writes)
					}
				}
			}
		},
	}
}

// idleMatchers are matcher lists that do not apply to any document of the space.
var idleMatchers = []func() []match.YAMLMatcher{
	func() []match.YAMLMatcher {
		return []match.YAMLMatcher{match.Any("$.zz.missing").ErrOnMissingPath(false)}
	},
	func() []match.YAMLMatcher { return []match.YAMLMatcher{match.Any()} },
	func() []match.YAMLMatcher {
		return []match.YAMLMatcher{
			match.Type[string]("$.zz").ErrOnMissingPath(false),
			match.Custom("$.zz[3]", func(val any) (any, error) { return "x", nil }).ErrOnMissingPath(false),
			match.Any("$[77]", "$.zz.y").ErrOnMissingPath(false),
		}
	},
}

// idleScenario stores documents through matchers that do not apply.
func idleScenario(ds []string) *Scenario {
	run := func(w *W) {
		c := w.cfg()
		for i, d := range ds {
			w.Test(fmt.Sprintf("TestI%d", i), func(t *T) {
				for k, m := range idleMatchers {
					if k%2 == 0 {
						w.Do(t, func() { c.MatchYAML(t, d, m()...) })
					} else {
						w.Do(t, func() { c.MatchYAML(t, []byte(d), m()...) })
					}
				}
			})
		}
	}
	return &Scenario{
		Desc:   fmt.Sprintf("%d documents through matchers that do not apply, e.g. %s", len(ds), q(ds[0])),
		Stages: []Stage{{Off, run}, {CIm, run}},
		Check: func(r []StageResult, fail func(key, format string, args ...any)) {
			es, _ := parseFile(r[0].After["s/f.snap"].Data)
			stored := map[string]string{}
			for _, e := range es {
				stored[e.id] = unesc(e.body)
			}
			for i, d := range ds {
				for k := range idleMatchers {
					a := r[0].Calls[len(idleMatchers)*i+k]
					if a.Outcome() != "added" {
						if len(a.Writes) > 0 || a.Outcome() != "failed" {
							fail("idle-outcome", "document %s, matchers %d: %s, writes %q", q(d), k, a.Outcome(), a.Writes)
						}
						continue
					}
					if got := stored[fmt.Sprintf("TestI%d - %d", i, k+1)]; got != d {
						fail("idle-verbatim", "document %s, no matcher applies (list %d), stored as %s", q(d), k, q(got))
					}
					b := r[1].Calls[len(idleMatchers)*i+k]
					if b.Outcome() != "passed" && !strings.Contains(d+"\n", "\r\n") {
						fail("idle-replay", "document %s, matchers %d: replay %s", q(d), k, b.Outcome())
					}
				}
			}
		},
	}
}

func goYAMLScenario(idx []int) *Scenario {
	run := func(rev bool) func(w *W) {
		return func(w *W) {
			c := w.cfg()
			for _, i := range idx {
				w.Test(fmt.Sprintf("TestG%d", i), func(t *T) {
					for k := 0; k < 2; k++ {
						w.Do(t, func() { c.MatchYAML(t, goYAMLValues(rev != (k == 1))[i]) })
					}
				})
			}
		}
	}
	st := []Stage{{Off, run(false)}}
	for k := 0; k < 6; k++ {
		st = append(st, Stage{[]Mode{CIm, Off, Upd}[k%3], run(k%2 == 0)})
	}
	return &Scenario{
		Desc:   fmt.Sprintf("Go values %v marshalled repeatedly", idx),
		Stages: st,
		Check: func(r []StageResult, fail func(key, format string, args ...any)) {
			expectAll(r[0], "record", "added", false, fail)
			for i := 1; i < len(r); i++ {
				expectAll(r[i], fmt.Sprintf("replay %d", i), "passed", true, fail)
			}
			es, _ := parseFile(r[0].After["s/f.snap"].Data)
			body := map[string]string{}
			for _, e := range es {
				body[e.id] = unesc(e.body)
			}
			vals := goYAMLValues(false)
			for _, i := range idx {
				a, b := body[fmt.Sprintf("TestG%d - 1", i)], body[fmt.Sprintf("TestG%d - 2", i)]
				if a != b {
					fail("unstable", "value %d stored as %s and %s", i, q(a), q(b))
				}
				want, ok := encodeY(vals[i])
				if !ok {
					continue
				}
				docs, err := parseY(a)
				if err != nil || len(docs) != 1 {
					fail("value", "value %#v stored as %s, not one YAML document (%v)", vals[i], q(a), err)
					continue
				}
				if g, w := docs[0].canon(true), want.canon(true); g != w {
					fail("value", "value %#v stored as %s, reads %s, want %s", vals[i], q(a), g, w)
				}
			}
		},
	}
}
