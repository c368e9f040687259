package e1

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"strings"

	"github.com/gkampitakis/go-snaps/snaps"
)

// normNum reduces a JSON number literal to sign, digits and exponent.
func normNum(s string) string {
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimPrefix(s, "-")
	exp := new(big.Int)
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		if _, ok := exp.SetString(strings.TrimPrefix(s[i+1:], "+"), 10); !ok {
			return "?" + s
		}
		s = s[:i]
	}
	if i := strings.IndexByte(s, '.'); i >= 0 {
		exp.Sub(exp, big.NewInt(int64(len(s)-i-1)))
		s = s[:i] + s[i+1:]
	}
	s = strings.TrimLeft(s, "0")
	if s == "" {
		return "0"
	}
	t := strings.TrimRight(s, "0")
	exp.Add(exp, big.NewInt(int64(len(s)-len(t))))
	if neg {
		t = "-" + t
	}
	return t + "e" + exp.String()
}

// sameValue reports whether two JSON texts hold the same value; ordered also compares the order of members.
func sameJSON(a, b string, ordered bool) error {
	x, err := parseJ(a)
	if err != nil {
		return fmt.Errorf("input: %w", err)
	}
	y, err := parseJ(b)
	if err != nil {
		return fmt.Errorf("stored text: %w", err)
	}
	if x.canon(!ordered) != y.canon(!ordered) {
		return fmt.Errorf("values differ: %s vs %s", tail(x.canon(!ordered), 300), tail(y.canon(!ordered), 300))
	}
	return nil
}

// jdoc is one abstract document with all the presentations that must store identically.
type jdoc struct {
	ref  string // reference text
	pres []any
}

var wsStyles = []func(*jv) string{
	func(v *jv) string { return v.text("", "", "", 0) },
	func(v *jv) string { return " \t\r\n" + v.text("\n", "  ", " ", 0) + "\r\n\t " },
	func(v *jv) string { return v.text("\r\n", "\t", "\t", 0) + "\n" },
	func(v *jv) string { return v.text(" ", "", "\n\n", 0) },
}

// text renders a value keeping the literals it was parsed from.
func (v *jv) text(nl, ind, sep string, d int) string {
	pad := func(n int) string {
		if ind == "" {
			return nl
		}
		return nl + strings.Repeat(ind, n)
	}
	switch v.kind {
	case "object", "array":
		o, c := "[", "]"
		if v.kind == "object" {
			o, c = "{", "}"
		}
		var b strings.Builder
		b.WriteString(o)
		for i, k := range v.kids {
			if i > 0 {
				b.WriteString(sep + ",")
			}
			b.WriteString(pad(d + 1))
			if v.kind == "object" {
				b.WriteString(v.lits[i] + sep + ":" + sep)
			}
			b.WriteString(k.text(nl, ind, sep, d+1))
		}
		b.WriteString(pad(d) + c)
		return b.String()
	}
	return v.lit
}

// litv builds values from literals.
func lv(lit string) *jv  { return &jv{kind: "lit", lit: lit} }
func av(kids ...*jv) *jv { return &jv{kind: "array", kids: kids} }
func ov(kv ...any) *jv {
	v := &jv{kind: "object"}
	for i := 0; i < len(kv); i += 2 {
		v.lits = append(v.lits, kv[i].(string))
		v.kids = append(v.kids, kv[i+1].(*jv))
	}
	return v
}

// reorder yields v with the members of every object rotated/reversed.
func (v *jv) reorder(how int) *jv {
	o := &jv{kind: v.kind, lit: v.lit}
	n := len(v.kids)
	for i := range v.kids {
		j := i
		if v.kind == "object" {
			switch how {
			case 1:
				j = n - 1 - i
			case 2:
				j = (i + 1) % n
			}
		}
		o.kids = append(o.kids, v.kids[j].reorder(how))
		if v.kind == "object" {
			o.lits = append(o.lits, v.lits[j])
		}
	}
	return o
}

func forms(s string) []any { return []any{s, []byte(s)} }

var (
	numLits = []string{"0", "-0", "1", "-1", "10", "1.0", "1.5", "-0.0", "1e2", "1E+2", "1e-7", "1.50e05", "12345678901234567890", "0.1", "1e400", "-1e-400", "9007199254740993", "123456789012345678901234567890.123456789"}
	strLits = []string{`""`, `"a"`, `"é"`, `"日本"`, `"\u00e9"`, `"\u0000"`, `"\ud83d\ude00"`, "\"\xf0\x9f\x98\x80\"", `"\ud800"`, `"<>&"`, `"\u003c"`, `"a\/b"`, `"a\"b"`, `"\\"`, `"\\\""`, `"\\\\"`, `"---"`, `"/-/-/-/"`, `"[TestA - 1]"`, `"\n"`, `"\t\r\b\f"`, `" "`, `"{}"`, `"[1,2]"`, `"a: b"`, `","`, `"\u2028"`, "\"\x7f\"", `"true"`, `"1"`}
	litLits = []string{"null", "true", "false"}
	keyLits = []string{`"a"`, `"b"`, `"A"`, `"aa"`, `""`, `" "`, `"10"`, `"9"`, `"é"`, `"\u0062c"`, `"a\"b"`, `"a\\"`, `"\n"`, `"a.b"`, `"---"`, `"\ud83d\ude00"`, `"_"`, `"z"`}
)

func scalars() (out []*jv) {
	for _, l := range [][]string{litLits, numLits, strLits} {
		for _, s := range l {
			out = append(out, lv(s))
		}
	}
	return
}

// baseDocs enumerates the documents of C14.
func baseDocs(thorough bool) (out []*jv) {
	sc := scalars()
	out = append(out, sc...)
	out = append(out, av(), ov())
	few := []*jv{lv("null"), lv("-1.50"), lv(`"x"`), lv("true"), av(), ov()}
	var depth1 []*jv
	for n := 1; n <= 3; n++ {
		seqs(few, n, func(s []*jv) {
			if n == 3 && !thorough && (s[0].lit == "null" || s[1].kind == "array") {
				return
			}
			depth1 = append(depth1, av(s...))
			var kv []any
			for i, x := range s {
				kv = append(kv, []string{`"b"`, `"a"`, `"c"`}[i], x)
			}
			depth1 = append(depth1, ov(kv...))
		})
	}
	out = append(out, depth1...)
	for _, s := range sc {
		out = append(out, av(s), ov(`"k"`, s), av(ov(`"k"`, s, `"a"`, s), s))
	}
	// every ordered pair and (some) triples of keys
	for i, a := range keyLits {
		for j, b := range keyLits {
			if i == j {
				continue
			}
			out = append(out, ov(a, lv("1"), b, lv(`"v"`)))
			for k, c := range keyLits {
				if i < j && j < k && (thorough || (i+j+k)%3 == 0) {
					out = append(out, ov(a, lv("1"), b, ov(c, lv("2"), a, lv("3"), b, lv("null")), c, av(lv("1"), ov(b, lv("0"), a, lv("0")))))
				}
			}
		}
	}
	// nesting
	for i, x := range depth1 {
		if !thorough && i%5 != 0 {
			continue
		}
		out = append(out, av(x), ov(`"n"`, x, `"a"`, lv("1")), av(x, x), ov(`"q"`, av(x, ov(`"z"`, x, `"b"`, x))))
	}
	deepA, deepO := lv("1"), lv("1")
	for i := 0; i < 60; i++ {
		deepA, deepO = av(deepA), ov(`"d"`, deepO, `"c"`, lv("0"))
		if i%7 == 0 {
			out = append(out, deepA, deepO)
		}
	}
	// wide
	for _, n := range []int{5, 20, 40, 41, 79, 80, 81, 300} {
		var k []*jv
		var kv []any
		for i := 0; i < n; i++ {
			k = append(k, lv(fmt.Sprint(i)))
			kv = append(kv, fmt.Sprintf(`"k%d"`, (i*7)%n), lv(fmt.Sprint(i)))
		}
		out = append(out, av(k...))
		if n != 300 && n%7 != 0 {
			out = append(out, ov(kv...))
		}
	}
	out = append(out, lv(`"`+strings.Repeat("long ", 20000)+`"`), ov(`"`+strings.Repeat("k", 70000)+`"`, lv("1"), `"a"`, lv("2")))
	return
}

func presentations(v *jv, sorted bool) jdoc {
	d := jdoc{ref: wsStyles[0](v)}
	hows := []int{0}
	if sorted {
		hows = []int{0, 1, 2}
	}
	for _, h := range hows {
		x := v
		if h > 0 {
			x = v.reorder(h)
		}
		for _, ws := range wsStyles {
			d.pres = append(d.pres, forms(ws(x))...)
		}
	}
	return d
}

// canonScenario: all presentations of every document store the identical text, which holds the same value.
func canonScenario(what string, docs []jdoc, ordered bool, opts ...func(*snaps.Config)) *Scenario {
	apis := []func(any) op{jsn, sjson}
	return &Scenario{
		Desc: fmt.Sprintf("%s: %d documents, first %s", what, len(docs), q(docs[0].ref)),
		Stages: []Stage{
			{Off, func(w *W) {
				for k, api := range apis {
					for i, d := range docs {
						c := w.cfg(append([]func(*snaps.Config){snaps.Update(true), snaps.Filename(fmt.Sprintf("d%d", i))}, opts...)...)
						for _, p := range d.pres {
							w.Test("TestJ", func(t *T) { w.Do(t, func() { apis[k](p).run(c, t) }) })
						}
						_ = api
					}
				}
			}},
			{Off, func(w *W) {
				for k := range apis {
					for i, d := range docs {
						c := w.cfg(append([]func(*snaps.Config){snaps.Filename(fmt.Sprintf("d%d", i))}, opts...)...)
						for _, p := range reversed(d.pres) {
							w.Test("TestJ", func(t *T) { w.Do(t, func() { apis[k](p).run(c, t) }) })
						}
					}
				}
			}},
		},
		Check: func(r []StageResult, fail func(key, format string, args ...any)) {
			n := 0
			for range apis {
				for _, d := range docs {
					for k, p := range d.pres {
						c := r[0].Calls[n]
						n++
						want := "passed"
						if k == 0 {
							want = "added"
						}
						if o := c.Outcome(); o != want {
							fail("presentation", "%s presentation %s: %s, want %s %q", q(d.ref), q(fmt.Sprintf("%s", p)), o, want, tail(strings.Join(c.Errors(), "|"), 800))
						} else if k > 0 && len(c.Writes) > 0 {
							fail("presentation", "%s presentation %s wrote %q", q(d.ref), q(fmt.Sprintf("%s", p)), c.Writes)
						}
					}
				}
			}
			expectAll(r[1], "replay", "passed", true, fail)
			for i, d := range docs {
				es, junk := parseFile(r[0].After[fmt.Sprintf("s/d%d.snap", i)].Data)
				if len(junk) > 0 || len(es) != 1 {
					fail("stored", "%s: file %s", q(d.ref), q(r[0].After[fmt.Sprintf("s/d%d.snap", i)].Data))
					continue
				}
				sa, ok := r[0].After[fmt.Sprintf("s/d%d_1.snap.json", i)]
				if !ok {
					fail("stored", "%s: no standalone file, have %q", q(d.ref), r[0].After.Files())
					continue
				}
				if sa.Data != es[0].body {
					fail("stored", "%s: standalone %s, entry %s", q(d.ref), q(sa.Data), q(es[0].body))
				}
				if err := sameJSON(d.ref, sa.Data, ordered); err != nil {
					fail("lossy", "%s stored as %s: %v", q(d.ref), q(sa.Data), err)
				}
			}
		},
	}
}

// rawScenario feeds arbitrary texts: valid ones are stored losslessly, others fail and write nothing.
func rawScenario(desc string, texts func() []string) *Scenario {
	run := func(api func(any) op, bytesForm bool) func(w *W) {
		return func(w *W) {
			w.Put("s/f.snap", "\n[TestJ - 1]\n\"sentinel\"\n---\n")
			w.Put("s/f_1.snap.json", "\"sentinel\"")
			c := w.cfg(snaps.Update(true))
			var fails []string
			n := 0
			for _, s := range texts() {
				n++
				buf := []byte(s)
				var in any = s
				if bytesForm {
					in = buf
				}
				before := w.cur
				var out string
				w.Test("TestJ", func(t *T) {
					call := w.Do(t, func() { api(in).run(c, t) })
					out = call.Outcome()
					valid := json.Valid([]byte(s))
					switch {
					case string(buf) != s:
						fails = append(fails, fmt.Sprintf("%q: caller's bytes modified to %q", s, buf))
					case !valid && (out != "failed" || len(call.Writes) > 0):
						fails = append(fails, fmt.Sprintf("%q is not valid JSON: %s, writes %q", s, out, call.Writes))
					case valid && out == "passed":
						// equal to the previous text
					case valid && out != "updated":
						fails = append(fails, fmt.Sprintf("%q is valid JSON: %s %q", s, out, call.Errors()))
					}
					if valid {
						body := w.cur["s/f_1.snap.json"].Data
						if es, _ := parseFile(w.cur["s/f.snap"].Data); w.cur["s/f_1.snap.json"] == before["s/f_1.snap.json"] && len(es) == 1 {
							if w.cur["s/f.snap"] != before["s/f.snap"] || body == "\"sentinel\"" {
								body = es[0].body
							}
						}
						if err := sameJSON(s, body, false); err != nil {
							fails = append(fails, fmt.Sprintf("%q stored as %q: %v", s, body, err))
						}
					}
				})
				// keep only what is needed
				w.res.Calls = w.res.Calls[:0]
				if len(fails) > 3 {
					break
				}
			}
			w.Note("n", fmt.Sprint(n))
			w.Note("fails", strings.Join(fails, "\n"))
		}
	}
	return &Scenario{
		Desc:   desc,
		Stages: []Stage{{Off, run(jsn, false)}, {Off, run(sjson, true)}},
		Check: func(r []StageResult, fail func(key, format string, args ...any)) {
			for _, x := range r {
				if f := x.Notes["fails"]; f != "" {
					fail("raw", "%s", tail(f, 2000))
				}
			}
		},
	}
}

type jStruct struct {
	B  int             `json:"b"`
	A  string          `json:"a"`
	C  *jStruct        `json:"c,omitempty"`
	M  map[string]any  `json:"m"`
	R  json.RawMessage `json:"r,omitempty"`
	X  func()          `json:"-"`
	Is map[int]string  `json:"is"`
	L  []float64       `json:"l"`
	By []byte          `json:"by"`
}

type jMarsh string

func (m jMarsh) MarshalJSON() ([]byte, error) {
	if m == "err" {
		return nil, errors.New("marshal error")
	}
	return []byte(m), nil
}

type jText string

func (m jText) MarshalText() ([]byte, error) { return []byte("text:" + string(m)), nil }

type (
	namedString string
	namedBytes  []byte
	ring        struct{ Next *ring }
)

func jsonGoValues() []any {
	r := &ring{}
	r.Next = r
	return []any{
		nil, true, false, 0, -1, int64(math.MaxInt64), uint64(math.MaxUint64), 1.5, 1e21, 1e-9, float32(0.1), math.NaN(), math.Inf(1),
		[]int{}, []int(nil), []any{1, "a", nil, map[string]any{"b": 1, "a": []any{}}}, [2]bool{true, false},
		map[string]any{}, map[string]any(nil), map[string]int{"b": 1, "a": 2, "c": 3}, map[int]string{2: "b", 10: "a", 1: "c"},
		jStruct{}, &jStruct{A: "é<>&\u2028", M: map[string]any{"z": 1, "y": []string{"q"}}, C: &jStruct{B: 2}, R: json.RawMessage(` {"k" : 1} `), Is: map[int]string{3: "x"}, L: []float64{1, 2.5}, By: []byte("bytes")},
		(*jStruct)(nil), json.RawMessage(`{"b":1, "a":[ 1 ,2]}`), json.RawMessage(`{`), json.Number("1.50"), json.Number("x"),
		jMarsh(`{"m": [1, 2]}`), jMarsh("err"), jMarsh("{"), jMarsh("1"), jText("t"), namedString(`{"a":1}`), namedString("plain"), namedBytes(`{"a":1}`),
		struct{}{}, make(chan int), func() {}, map[string]any{"f": func() {}}, r, errors.New("e"), 'x', complex(1, 2), []any{math.Inf(-1)},
		[]string{"---", "/-/-/-/", "\n", "[TestJ - 1]"}, map[string]string{"---": "---"}, "\"just a string\"", []byte(`[1]`),
		strings.Repeat("[", 30) + strings.Repeat("]", 30), map[jText]int{"k": 1}, big.NewInt(12345),
	}
}

func goValueScenario(api func(any) op, v any, i int, upd bool) *Scenario {
	var ref string
	ok := true
	switch x := v.(type) {
	case string:
		ref = x
	case []byte:
		ref = string(x)
	default:
		b, err := json.Marshal(v)
		ref, ok = string(b), err == nil
	}
	ok = ok && json.Valid([]byte(ref))
	return &Scenario{
		Desc: fmt.Sprintf("Go value #%d %T (json %s) %s update=%v", i, v, q(ref), api(1).api, upd),
		Stages: []Stage{{Off, func(w *W) {
			c := w.cfg(snaps.Update(true))
			if upd {
				w.Put("s/f.snap", "\n[TestJ - 1]\n\"old\"\n---\n\n[TestJ - 3]\n1\n---\n")
				w.Put("s/f_1.snap.json", "\"old\"")
			}
			// as Go value, then its JSON as string and bytes must match; then the Go value again
			w.Test("TestJ", func(t *T) { w.Do(t, func() { api(v).run(c, t) }) })
			if !ok {
				return
			}
			for _, x := range []any{ref, []byte(ref), v} {
				w.Test("TestJ", func(t *T) { w.Do(t, func() { api(x).run(c, t) }) })
			}
		}}},
		Check: func(r []StageResult, fail func(key, format string, args ...any)) {
			c := r[0].Calls[0]
			if !ok {
				if c.Outcome() != "failed" || len(c.Writes) > 0 {
					fail("invalid", "cannot be marshalled: %s, writes %q", c.Outcome(), c.Writes)
				}
				return
			}
			want := "added"
			if upd {
				want = "updated"
			}
			if c.Outcome() != want {
				fail("govalue", "first call %s %q", c.Outcome(), c.Errors())
				return
			}
			for i, c := range r[0].Calls[1:] {
				if c.Outcome() != "passed" || len(c.Writes) > 0 {
					fail("govalue", "form %d: %s %q", i, c.Outcome(), tail(strings.Join(c.Errors(), "|"), 600))
				}
			}
			body := r[0].After["s/f_1.snap.json"].Data
			if api(1).api == "json" {
				es, junk := parseFile(r[0].After["s/f.snap"].Data)
				if len(junk) > 0 || len(es) == 0 {
					fail("govalue", "file %s", q(r[0].After["s/f.snap"].Data))
					return
				}
				body = es[0].body
			}
			if err := sameJSON(ref, body, false); err != nil {
				fail("lossy", "stored %s: %v", q(body), err)
			}
		},
	}
}

func init() {
	register(&Property{
		ID: "C14",
		Rule: "documents: all scalar literals (51 number/string/literal shapes), all arrays/objects of <=3 of 6 values, all ordered pairs and triples of 18 keys, nesting to 60, up to 300 members, long strings x 4 whitespace styles x 3 member orders x {string, []byte}, through MatchJSON and MatchStandaloneJSON, default format; " +
			"32 format option sets (width x indent x sort) x documents x whitespace styles; 60 Go values; all token strings up to length 4 (thorough 5) over 19 tokens for validity and losslessness",
		Assume: []string{"object members have distinct keys", "numbers are compared by mathematical value, strings after decoding (lone surrogates as U+FFFD)"},
		Enum: func(tier string, emit Emit) {
			thorough := tier == "thorough"
			docs := baseDocs(thorough)
			for lo := 0; lo < len(docs); lo += 4 {
				emit(func() *Scenario {
					var ds []jdoc
					for _, v := range docs[lo:min(lo+4, len(docs))] {
						ds = append(ds, presentations(v, true))
					}
					return canonScenario("default format", ds, false)
				})
			}
			step := 12
			if thorough {
				step = 2
			}
			n := 0
			for _, width := range []int{0, 1, 20, 80} {
				for _, indent := range []string{"", " ", "    ", "\t"} {
					for _, sorted := range []bool{true, false} {
						n++
						for lo := n % step * 4; lo < len(docs); lo += 4 * step {
							emit(func() *Scenario {
								var ds []jdoc
								for _, v := range docs[lo:min(lo+4, len(docs))] {
									ds = append(ds, presentations(v, false))
								}
								o := snaps.JSON(snaps.JSONConfig{Width: width, Indent: indent, SortKeys: sorted})
								return canonScenario(fmt.Sprintf("width=%d indent=%q sort=%v", width, indent, sorted), ds, !sorted, o)
							})
						}
					}
				}
			}
			for i, v := range jsonGoValues() {
				for _, api := range []func(any) op{jsn, sjson} {
					for _, upd := range []bool{false, true} {
						emit(func() *Scenario { return goValueScenario(api, v, i, upd) })
					}
				}
			}
			toks := []string{"{", "}", "[", "]", `"a"`, `"`, `\`, ":", ",", "1", "-", "0", ".", "e", "null", "true", " ", "\n", "\x01"}
			depth := 4
			if thorough {
				depth = 5
			}
			emit(func() *Scenario {
				return rawScenario("token strings <=2", func() (o []string) {
					o = append(o, "")
					for n := 1; n <= 2; n++ {
						seqs(toks, n, func(s []string) { o = append(o, strings.Join(s, "")) })
					}
					return
				})
			})
			pre := depth - 2
			seqs(toks, pre, func(p []string) {
				emit(func() *Scenario {
					return rawScenario(fmt.Sprintf("token strings %q...", p), func() (o []string) {
						if pre == 3 {
							o = append(o, strings.Join(p, ""))
						}
						for n := 1; n <= depth-pre; n++ {
							seqs(toks, n, func(s []string) { o = append(o, strings.Join(p, "")+strings.Join(s, "")) })
						}
						return
					})
				})
			})
			// string literals: all short contents over the escape alphabet, as value and as key
			st := []string{`\`, `"`, "u", "0", "d8", "dc", "n", "/", "x", "é", "\xff", "\n", "\x00", "\t", "{", "00e9"}
			seqs(st, 2, func(p []string) {
				emit(func() *Scenario {
					return rawScenario(fmt.Sprintf("string contents %q...", p), func() (o []string) {
						for n := 0; n <= depth-3; n++ {
							seqs(st, n, func(s []string) {
								x := `"` + strings.Join(p, "") + strings.Join(s, "") + `"`
								o = append(o, x)
								if n < 3 {
									o = append(o, "{"+x+":1}", "["+x+",1]")
								}
							})
						}
						return
					})
				})
			})
			emit(func() *Scenario {
				return rawScenario("odd documents", func() []string {
					return []string{
						"nul", "nulll", "True", "NaN", "Infinity", "'a'", "{a:1}", `{"a":1,}`, "[1,]", "[,1]", "01", "+1", "1.", ".5", "-", "1e", "1e+", "0x1", "1_0", `"\x41"`, `"\u12"`, `"\u12g4"`, "\"\t\"",
						"\ufeff{}", "{}\x00", "{} {}", "[1][2]", "1 2", "/* c */ 1", "// c\n1", "[1] ,", "\u00a01", "\v1", "\f1", `{"a":1 "b":2}`, `{"a" 1}`, `{1:2}`, `[1 2]`, "{}}", "]", `"`, `"a`, `a"`, "tru", "truefalse", "-0", "-01", "00", "1e5.5", "--1", "1-",
						"  \n\t ", "\r\n1\r\n", `{"":{"":{"":[]}}}`, strings.Repeat("[", 200) + strings.Repeat("]", 200), strings.Repeat("[", 200) + strings.Repeat("]", 199), strings.Repeat(`{"a":`, 100) + "1" + strings.Repeat("}", 100),
					}
				})
			})
		},
	})
}
