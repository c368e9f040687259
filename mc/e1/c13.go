package e1

import (
	"fmt"
	"regexp"
	"slices"
	"strconv"
	"strings"

	"github.com/gkampitakis/go-snaps/internal/difflib"
	"github.com/gkampitakis/go-snaps/snaps"
)

var hdrRe = regexp.MustCompile(`^\n- Snapshot +- (\d+)\n\+ Received +\+ (\d+)\n\n`)

// checkReport verifies a NO_COLOR failure report against the two texts.
func checkReport(rep, stored, received string) error {
	if !strings.Contains(stored+received, "\x1b") && strings.Contains(rep, "\x1b") {
		return fmt.Errorf("escape sequence in a NO_COLOR report")
	}
	h := hdrRe.FindStringSubmatch(rep)
	if h == nil {
		return fmt.Errorf("no `- Snapshot - n / + Received + m` header")
	}
	body := rep[len(h[0]):]
	// footer: blank line, `at path:line`
	i := strings.LastIndex(body, "\nat ")
	if i < 0 {
		return fmt.Errorf("no footer")
	}
	body = body[:i]
	if !strings.HasSuffix(body, "\n") {
		return fmt.Errorf("last diff line is not terminated")
	}
	var del, ins []string
	var delAt, insAt []int // where the hunk headers place them
	atA, atB := 0, 0
	lines := strings.Split(strings.TrimSuffix(body, "\n"), "\n")
	for k := 0; k < len(lines); k++ {
		l := lines[k]
		switch {
		case strings.HasPrefix(l, "- "):
			del = append(del, l[2:])
			delAt = append(delAt, atA)
			atA++
		case strings.HasPrefix(l, "+ "):
			ins = append(ins, l[2:])
			insAt = append(insAt, atB)
			atB++
		case strings.HasPrefix(l, "  "):
			atA++
			atB++
		case strings.HasPrefix(l, "@@ "):
			if m := hunkHeader.FindStringSubmatch(l); m != nil {
				atA, _ = strconv.Atoi(m[1])
				atB, _ = strconv.Atoi(m[2])
				atA, atB = atA-1, atB-1
			}
			if k+1 < len(lines) && lines[k+1] == "" {
				k++
			}
		default:
			return fmt.Errorf("unexpected line %q in the diff body", l)
		}
	}
	if h[1] != strconv.Itoa(len(del)) || h[2] != strconv.Itoa(len(ins)) {
		return fmt.Errorf("header counts -%s +%s, shown -%d +%d", h[1], h[2], len(del), len(ins))
	}
	if len(del)+len(ins) == 0 {
		return fmt.Errorf("no line is shown as changed")
	}
	a, b := strings.Split(stored, "\n"), strings.Split(received, "\n")
	if err := subset(del, a); err != nil {
		return fmt.Errorf("`-` line %w of the stored text", err)
	}
	if err := subset(ins, b); err != nil {
		return fmt.Errorf("`+` line %w of the received text", err)
	}
	if !removedAt(a, b, del, ins, delAt, insAt) && !removable(a, b, del, ins) {
		return fmt.Errorf("taking %d `-` lines out of the stored text and %d `+` lines out of the received text does not leave the same lines", len(del), len(ins))
	}
	return nil
}

var hunkHeader = regexp.MustCompile(`^@@ -(\d+)(?:,\d+)? \+(\d+)(?:,\d+)? @@`)

// removedAt: does removing the lines at the given positions leave equal sequences?
// (A certificate only: the positions are taken from the report.)
func removedAt(a, b, del, ins []string, delAt, insAt []int) bool {
	rest := func(l, gone []string, at []int) (out []string) {
		n := 0
		for i, x := range l {
			if n < len(at) && at[n] == i && gone[n] == x {
				n++
				continue
			}
			out = append(out, x)
		}
		return
	}
	x, y := rest(a, del, delAt), rest(b, ins, insAt)
	return len(x) == len(a)-len(delAt) && len(y) == len(b)-len(insAt) && slices.Equal(x, y)
}

func subset(x, all []string) error {
	n := map[string]int{}
	for _, l := range all {
		n[l]++
	}
	for _, l := range x {
		if n[l]--; n[l] < 0 {
			return fmt.Errorf("%q is not (or not that often) a line", l)
		}
	}
	return nil
}

// removable: can del (in order) be removed from a, and ins (in order) from b, leaving equal sequences?
func removable(a, b, del, ins []string) bool {
	if len(a)-len(del) != len(b)-len(ins) {
		return false
	}
	// state after i lines of a and p removals: kept = i-p = j-q
	// between two kept lines removals come first: ins tells that an insertion was taken since
	type st struct {
		i, j, p int
		ins     bool
	}
	seen := map[st]bool{}
	stack := []st{{}}
	for len(stack) > 0 {
		s := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[s] {
			continue
		}
		if len(seen) > 20_000_000 {
			return true // not decided within the bound: no alarm
		}
		seen[s] = true
		q := s.j - (s.i - s.p)
		if s.i == len(a) && s.j == len(b) && s.p == len(del) && q == len(ins) {
			return true
		}
		if s.j < len(b) && q < len(ins) && b[s.j] == ins[q] {
			stack = append(stack, st{s.i, s.j + 1, s.p, true})
		}
		if !s.ins && s.i < len(a) && s.p < len(del) && a[s.i] == del[s.p] {
			stack = append(stack, st{s.i + 1, s.j, s.p + 1, false})
		}
		if s.i < len(a) && s.j < len(b) && a[s.i] == b[s.j] {
			stack = append(stack, st{s.i + 1, s.j + 1, s.p, false})
		}
	}
	return false
}

// checkScript verifies the edit script and the hunks of difflib for two line sequences.
func checkScript(a, b []string) error {
	const all = 1 << 40
	same := strings.Join(a, "\x00") == strings.Join(b, "\x00") && len(a) == len(b)
	full := difflib.NewMatcher(a, b).GetGroupedOpCodes(all)
	if same {
		for _, g := range full {
			for _, c := range g {
				if c.Tag != difflib.OpEqual {
					return fmt.Errorf("identical texts have the change %v", c)
				}
			}
		}
		if g := difflib.NewMatcher(a, b).GetGroupedOpCodes(3); len(g) != 0 {
			return fmt.Errorf("identical texts have hunks %v", g)
		}
		return nil
	}
	if len(full) != 1 {
		return fmt.Errorf("different texts have %d full scripts", len(full))
	}
	script := full[0]
	i, j := 0, 0
	var replay []string
	for _, c := range script {
		if c.I1 != i || c.J1 != j || c.I2 < c.I1 || c.J2 < c.J1 || c.I2 > len(a) || c.J2 > len(b) {
			return fmt.Errorf("opcode %v does not continue at (%d,%d)", c, i, j)
		}
		switch c.Tag {
		case difflib.OpEqual:
			if c.I2-c.I1 != c.J2-c.J1 {
				return fmt.Errorf("equal opcode %v has different lengths", c)
			}
			for k := c.I1; k < c.I2; k++ {
				if a[k] != b[c.J1+k-c.I1] {
					return fmt.Errorf("opcode %v marks different lines as equal", c)
				}
			}
			replay = append(replay, a[c.I1:c.I2]...)
		case difflib.OpDelete:
			if c.J1 != c.J2 {
				return fmt.Errorf("delete opcode %v inserts", c)
			}
		case difflib.OpInsert:
			if c.I1 != c.I2 {
				return fmt.Errorf("insert opcode %v deletes", c)
			}
			replay = append(replay, b[c.J1:c.J2]...)
		case difflib.OpReplace:
			replay = append(replay, b[c.J1:c.J2]...)
		default:
			return fmt.Errorf("opcode %v has an unknown tag", c)
		}
		i, j = c.I2, c.J2
	}
	if i != len(a) || j != len(b) {
		return fmt.Errorf("script ends at (%d,%d) of (%d,%d)", i, j, len(a), len(b))
	}
	if strings.Join(replay, "\x00") != strings.Join(b, "\x00") {
		return fmt.Errorf("script does not turn the first text into the second")
	}
	// hunks: changed ranges of the script and of the hunks are the same
	for _, n := range []int{3, -1, 1, 0} {
		groups := difflib.NewMatcher(a, b).GetGroupedOpCodes(n)
		chA, chB := make([]bool, len(a)), make([]bool, len(b))
		gi, gj := 0, 0
		for _, g := range groups {
			if len(g) == 0 {
				return fmt.Errorf("empty hunk")
			}
			for k, c := range g {
				if k > 0 && (c.I1 != g[k-1].I2 || c.J1 != g[k-1].J2) {
					return fmt.Errorf("hunk %v is not contiguous", g)
				}
				if c.I1 < gi || c.J1 < gj || c.I2 > len(a) || c.J2 > len(b) || c.I2 < c.I1 || c.J2 < c.J1 {
					return fmt.Errorf("hunk %v overlaps or leaves the text", g)
				}
				if c.Tag == difflib.OpEqual {
					for k := c.I1; k < c.I2; k++ {
						if c.J1+k-c.I1 >= len(b) || a[k] != b[c.J1+k-c.I1] {
							return fmt.Errorf("context %v is not equal", c)
						}
					}
				} else {
					for k := c.I1; k < c.I2; k++ {
						chA[k] = true
					}
					for k := c.J1; k < c.J2; k++ {
						chB[k] = true
					}
				}
				gi, gj = c.I2, c.J2
			}
		}
		for _, c := range script {
			for k := c.I1; k < c.I2; k++ {
				if chA[k] != (c.Tag != difflib.OpEqual) {
					return fmt.Errorf("context %d: line %d of the first text is changed=%v in the script but %v in the hunks", n, k, c.Tag != difflib.OpEqual, chA[k])
				}
			}
			for k := c.J1; k < c.J2; k++ {
				if chB[k] != (c.Tag != difflib.OpEqual) {
					return fmt.Errorf("context %d: line %d of the second text is changed=%v in the script but %v in the hunks", n, k, c.Tag != difflib.OpEqual, chB[k])
				}
			}
		}
	}
	return nil
}

// reportScenario compares one stored text with many received texts.
func reportScenario(a string, bs []string, m Mode, standalone bool) *Scenario {
	return &Scenario{
		Desc: fmt.Sprintf("stored %s vs %d texts, %v standalone=%v", q(a), len(bs), m, standalone),
		Stages: []Stage{{m, func(w *W) {
			if standalone {
				w.Put("s/f_1.snap", a)
			} else {
				w.Put("s/f.snap", "\n[TestD - 1]\n"+a+"\n---\n")
			}
			c := w.cfg(snaps.Update(false))
			for _, b := range bs {
				w.Test("TestD", func(t *T) {
					if standalone {
						w.Do(t, func() { c.MatchStandaloneSnapshot(t, b) })
					} else {
						w.Do(t, func() { c.MatchSnapshot(t, b) })
					}
				})
			}
		}}},
		Check: func(r []StageResult, fail func(key, format string, args ...any)) {
			for i, b := range bs {
				b = formatted([]any{b}) // the text that is compared
				c := r[0].Calls[i]
				o := c.Outcome()
				switch {
				case a == b && o != "passed":
					fail("notempty", "identical texts %s: %s", q(a), o)
				case a != b && o != "failed":
					fail("empty", "stored %s received %s: %s", q(a), q(b), o)
				case a != b && m.NoColor:
					if err := checkReport(c.Errors()[0], a, b); err != nil {
						fail("report", "stored %s received %s: %v\n%s", q(a), q(b), err, tail(c.Errors()[0], 1200))
					}
				case a != b && strings.TrimSpace(c.Errors()[0]) == "":
					fail("empty", "stored %s received %s: blank report", q(a), q(b))
				}
				if len(c.Writes) > 0 {
					fail("wrote", "stored %s received %s: wrote %q", q(a), q(b), c.Writes)
				}
			}
		},
	}
}

// longTexts: pairs of texts far beyond the size where popular lines are treated specially.
func longTexts() (out []string) {
	mk := func(n int, f func(i int) string) string {
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, f(i))
		}
		return strings.Join(l, "\n")
	}
	for _, n := range []int{7, 8, 10, 11, 12, 20, 60, 199, 200, 201, 250} {
		uniq := func(i int) string { return fmt.Sprintf("line %d", i) }
		out = append(out,
			mk(n, uniq),
			mk(n, func(i int) string { return "same" }),
			mk(n, func(i int) string { return []string{"p", "q", ""}[i%3] }),
			mk(n, func(i int) string {
				if i%9 == 4 {
					return "changed"
				}
				return uniq(i)
			}),
			mk(n, func(i int) string {
				if i == n/2 {
					return "- changed"
				}
				return uniq(i)
			}),
			mk(n, func(i int) string {
				if i%5 == 0 {
					return ""
				}
				return uniq(i)
			}),
			mk(n, func(i int) string {
				if i == 0 || i == n-1 {
					return "edge"
				}
				return uniq(i)
			})+"\n",
			mk(n, func(i int) string { return uniq(n - i) }),
		)
	}
	return
}

func init() {
	register(&Property{
		ID: "C13",
		Rule: "reports: all ordered pairs of texts of <=4 (thorough <=5) lines over 3 letters (+ the 61-text pool, prefix-looking lines, long texts around the 10-line and 200-line thresholds) through MatchStandaloneSnapshot/MatchSnapshot with NO_COLOR (report parsed and checked) and with colours (emptiness); " +
			"edit script and hunks (context 3, 1, 0): all pairs of line sequences of length <=6 over 2 and <=4 over 3 letters (thorough <=7 / <=5), and all pairs of long texts",
		Enum: func(tier string, emit Emit) {
			depth := 4
			if tier == "thorough" {
				depth = 5
			}
			var texts []string
			for n := 1; n <= depth; n++ {
				seqs([]string{"a", "b", ""}, n, func(s []string) { texts = append(texts, strings.Join(s, "\n")) })
			}
			for _, m := range []Mode{{NoColor: true}, {}, {CI: true, NoColor: true}} {
				for i, a := range texts {
					if m.CI && i%5 != 0 {
						continue
					}
					emit(func() *Scenario { return reportScenario(a, texts, m, true) })
				}
			}
			odd := append([]string{"- a\n+ a\n  a", "@@ -1 +1 @@\n\na", "\n\n- a", "+ a\n\n", "at x:1", "a\nat x:1\n", "Snapshot - 1", "a\r\nb\r\n", "a\nb\n", "\r\n", "\r", "x\x1b[0my\nz", "\x1b", "↵\n", "a\n↵"}, textPool...)
			for _, m := range []Mode{{NoColor: true}, {}} {
				for _, a := range odd {
					emit(func() *Scenario { return reportScenario(a, odd, m, true) })
				}
				mb := []string{}
				for _, a := range odd {
					if !strings.Contains(a, "---") && !strings.Contains(a, "/-/-/-/") && !strings.Contains(a, "\r") {
						mb = append(mb, a)
					}
				}
				for _, a := range mb {
					emit(func() *Scenario { return reportScenario(a, mb, m, false) })
				}
			}
			lt := longTexts()
			for i, a := range lt {
				emit(func() *Scenario {
					k := lt[i/8*8 : min(len(lt), i/8*8+16)]
					return reportScenario(a, k, Mode{NoColor: true}, true)
				})
				emit(func() *Scenario { return reportScenario(a, lt[i/8*8:i/8*8+8], Mode{}, true) })
			}
			// one-line colour reports with an inline highlight
			hl := []string{"a", "ab", "b", "abc", "aXc", "hello world", "hello wOrld", "hello", "world", "é", "e", "日本", "日木", "\xff", "\xfe", "a\xff", "\xffa", "a\xfeb", "a b", "a  b", "a\n", "b\n", "ab\n", "\xff\n", "\xfe\n", " ", "  ", "\t", strings.Repeat("x", 300), strings.Repeat("x", 299) + "y", strings.Repeat("xy", 150)}
			for _, a := range hl {
				emit(func() *Scenario { return reportScenario(a, hl, Mode{}, true) })
				for _, pre := range []string{"l\n", "l\nm\nn\n", "\n"} {
					emit(func() *Scenario {
						var o []string
						for _, b := range hl {
							o = append(o, pre+b, pre+b+"\nz")
						}
						return reportScenario(pre+a, o, Mode{}, true)
					})
				}
			}
			// difflib directly
			script := func(desc string, as, bs func() [][]string) {
				emit(func() *Scenario {
					return &Scenario{
						Desc: "edit scripts " + desc,
						Stages: []Stage{{Off, func(w *W) {
							t := w.T("TestD")
							w.Do(t, func() {
								for _, a := range as() {
									for _, b := range bs() {
										if err := checkScript(a, b); err != nil {
											w.Note("bad", fmt.Sprintf("%q -> %q: %v", a, b, err))
											return
										}
									}
								}
							})
						}}},
						Check: func(r []StageResult, fail func(key, format string, args ...any)) {
							if c := r[0].Calls[0]; c.Panic != "" {
								fail("script", "panic %s", c.Panic)
							}
							if b := r[0].Notes["bad"]; b != "" {
								fail("script", "%s", b)
							}
						},
					}
				})
			}
			words := func(alpha []string, n int) (out [][]string) {
				for k := 0; k <= n; k++ {
					seqs(alpha, k, func(s []string) { out = append(out, s) })
				}
				return
			}
			n2, n3 := 7, 5
			if tier == "thorough" {
				n2, n3 = 9, 6
			}
			for _, p := range words([]string{"a\n", "b\n"}, 4) {
				if len(p) != 4 {
					continue
				}
				script(fmt.Sprintf("2 letters prefix %q", p), func() (o [][]string) {
					for _, x := range words([]string{"a\n", "b\n"}, n2-4) {
						o = append(o, append(append([]string{}, p...), x...))
					}
					return
				}, func() [][]string { return words([]string{"a\n", "b\n"}, n2) })
			}
			script("2 letters short", func() [][]string { return words([]string{"a\n", "b\n"}, 3) }, func() [][]string { return words([]string{"a\n", "b\n"}, n2) })
			for _, p := range words([]string{"a\n", "b\n", "\n"}, 2) {
				if len(p) != 2 {
					continue
				}
				script(fmt.Sprintf("3 letters prefix %q", p), func() (o [][]string) {
					for _, x := range words([]string{"a\n", "b\n", "\n"}, n3-2) {
						o = append(o, append(append([]string{}, p...), x...))
					}
					return
				}, func() [][]string { return words([]string{"a\n", "b\n", "\n"}, n3) })
			}
			// single edits at every position of long sequences: (unique|periodic|constant) lines
			for _, n := range []int{8, 14, 15, 16, 30, 199, 200, 201, 402} {
				for kind := 0; kind < 4; kind++ {
					base := func() []string {
						var l []string
						for i := 0; i < n; i++ {
							l = append(l, []string{fmt.Sprintf("line %d\n", i), fmt.Sprintf("m%d\n", i%4), "same\n", fmt.Sprintf("%d\n", i/7%13)}[kind])
						}
						return l
					}
					script(fmt.Sprintf("long n=%d kind=%d", n, kind), func() [][]string { return [][]string{base()} }, func() (o [][]string) {
						b := base()
						step := max(1, n/25)
						for i := 0; i <= n; i += step {
							ins := append(append(append([]string{}, b[:i]...), "new\n"), b[i:]...)
							o = append(o, ins)
							if i < n {
								o = append(o, append(append([]string{}, b[:i]...), b[i+1:]...))
								rep := append([]string{}, b...)
								rep[i] = "x\n"
								o = append(o, rep)
								rep2 := append([]string{}, rep...)
								rep2[(i+7)%n] = "y\n"
								o = append(o, rep2)
								rep3 := append([]string{}, rep...)
								rep3[(i+8)%n] = b[i]
								o = append(o, append(rep3, b[:i]...))
							}
						}
						return
					})
				}
			}
			if tier == "thorough" {
				for i := range lt {
					script("long texts", func() [][]string { return [][]string{strings.SplitAfter(lt[i], "\n")} }, func() (o [][]string) {
						for _, x := range lt {
							o = append(o, strings.SplitAfter(x, "\n"))
						}
						return
					})
				}
			}
		},
	})
}
