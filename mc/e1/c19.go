package e1

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/gkampitakis/go-snaps/snaps"
)

// saCall is one standalone call through one of the scenario's configs.
type saCall struct {
	op  op
	cfg int
}

type saExec struct {
	name  string
	calls []saCall
}

type saStage struct {
	mode   Mode
	tamper map[string]string // files overwritten before the stage
	execs  []saExec
}

type saCfg struct {
	filename, ext string
	update        *bool
	json          *snaps.JSONConfig
	fresh         bool // build a new Config for every call
}

func (c saCfg) build(w *W) *snaps.Config {
	o := []func(*snaps.Config){snaps.Dir(w.S())}
	if c.filename != "" {
		o = append(o, snaps.Filename(c.filename))
	}
	if c.ext != "" {
		o = append(o, snaps.Ext(c.ext))
	}
	if c.update != nil {
		o = append(o, snaps.Update(*c.update))
	}
	if c.json != nil {
		o = append(o, snaps.JSON(*c.json))
	}
	return snaps.WithConfig(o...)
}

func (c saCfg) stem(test string, o op) (stem, ext string) {
	stem = c.filename
	if stem == "" {
		stem = strings.ReplaceAll(test, "/", "_")
	}
	ext = c.ext
	if ext == "" && o.api == "sjson" {
		ext = ".json"
	}
	return
}

func badJSON(o op) bool {
	if o.api != "sjson" {
		return false
	}
	switch v := o.vals[0].(type) {
	case string:
		return !json.Valid([]byte(v))
	case []byte:
		return !json.Valid(v)
	}
	return false
}

// jsonText is the JSON text a call's value stands for.
func jsonText(o op) string {
	switch v := o.vals[0].(type) {
	case string:
		return v
	case []byte:
		return string(v)
	}
	b, err := json.Marshal(o.vals[0])
	if err != nil {
		return "unmarshalable"
	}
	return string(b)
}

func standaloneScenario(desc string, cfgs []saCfg, stages []saStage) *Scenario {
	sc := &Scenario{Desc: desc}
	for _, st := range stages {
		sc.Stages = append(sc.Stages, Stage{st.mode, func(w *W) {
			var names []string
			for f := range st.tamper {
				names = append(names, f)
			}
			sort.Strings(names)
			for _, f := range names {
				w.Put("s/"+f, st.tamper[f])
			}
			var built []*snaps.Config
			for _, c := range cfgs {
				built = append(built, c.build(w))
			}
			for _, e := range st.execs {
				w.Test(e.name, func(t *T) {
					for _, c := range e.calls {
						cc := built[c.cfg]
						if cfgs[c.cfg].fresh {
							cc = cfgs[c.cfg].build(w)
						}
						w.Do(t, func() { c.op.run(cc, t) })
					}
				})
			}
		}})
	}
	sc.Check = func(r []StageResult, fail func(key, format string, args ...any)) {
		files := map[string]string{} // path -> expected bytes
		jsons := map[string]string{} // path -> JSON value of files whose bytes are only known by value
		for si, st := range stages {
			for f, d := range st.tamper {
				files["s/"+f] = d
				delete(jsons, "s/"+f)
			}
			n := 0
			for _, e := range st.execs {
				ord := map[string]int{}
				for ci, c := range e.calls {
					if n >= len(r[si].Calls) {
						fail("calls", "stage %d: missing call", si)
						return
					}
					x := r[si].Calls[n]
					where := fmt.Sprintf("stage %d %v, %s call %d %s", si, st.mode, e.name, ci, c.op)
					stem, ext := cfgs[c.cfg].stem(e.name, c.op)
					g := stem + "\x00" + ext
					ord[g]++
					p := fmt.Sprintf("s/%s_%d.snap%s", stem, ord[g], ext)
					create, rewrite := permitted(st.mode, cfgs[c.cfg].update)
					bad := badJSON(c.op)
					old, have := files[p]
					same := false
					if have {
						if c.op.api == "ssnap" {
							same = old == formatted(c.op.vals)
						} else {
							same = jsons[p] != "" && sameJSON(jsonText(c.op), jsons[p], cfgs[c.cfg].json != nil && !cfgs[c.cfg].json.SortKeys) == nil
							if jsons[p] == "" && !bad && x.Outcome() == "passed" {
								// file not written by this library: bytes decide
								same = sameJSON(jsonText(c.op), old, false) == nil
							}
						}
					}
					want := "failed"
					switch {
					case bad:
					case !have && create:
						want = "added"
					case have && same:
						want = "passed"
					case have && rewrite:
						want = "updated"
					}
					if o := x.Outcome(); o != want {
						fail("outcome", "%s at %s: %s, want %s %s", where, p, o, want, q(strings.Join(x.Errors(), "|")))
						return
					}
					now := r[si].FSAt(n)
					if want == "added" || want == "updated" {
						f, ok := now[p]
						if !ok {
							fail("location", "%s: no file %s, have %q", where, p, now.Files())
							return
						}
						if c.op.api == "ssnap" {
							files[p] = formatted(c.op.vals)
							delete(jsons, p)
						} else {
							if err := sameJSON(jsonText(c.op), f.Data, cfgs[c.cfg].json != nil && !cfgs[c.cfg].json.SortKeys); err != nil {
								fail("json", "%s: %s holds %s: %v", where, p, q(f.Data), err)
								return
							}
							if strings.TrimSpace(f.Data) != f.Data {
								fail("json", "%s: %s holds %s: surrounding white space", where, p, q(f.Data))
								return
							}
							files[p], jsons[p] = f.Data, f.Data
						}
					} else if len(x.Writes) > 0 {
						fail("wrote", "%s: %s but wrote %q", where, want, x.Writes)
						return
					}
					n++
					got := now.Files()
					if len(got) != len(files) {
						fail("files", "%s: files %q, want %d", where, got, len(files))
						return
					}
					for f, d := range files {
						if now[f].Data != d {
							fail("bytes", "%s: after the call %s holds %s, want %s", where, f, q(now[f].Data), q(d))
							return
						}
					}
				}
			}
		}
	}
	return sc
}

func rot[E any](s []E, n int) []E {
	out := append([]E{}, s[n%len(s):]...)
	return append(out, s[:n%len(s)]...)
}

// saLife: record, replay (in the same and in other processes), update every
// file to another value, replay that.
func saLife(desc string, cfg saCfg, ops []op) *Scenario {
	mk := func(ops []op) []saExec {
		var cs []saCall
		for _, o := range ops {
			cs = append(cs, saCall{o, 0})
		}
		return []saExec{{"TestS/sub", cs}}
	}
	a, b := mk(ops), mk(rot(ops, 1))
	twice := func(e []saExec) []saExec { return append(append([]saExec{}, e...), e...) }
	return standaloneScenario(desc, []saCfg{cfg}, []saStage{
		{Off, nil, twice(a)},
		{CIm, nil, twice(a)},
		{Mode{Update: "true"}, nil, a},
		{Off, nil, b},
		{Upd, nil, twice(b)},
		{CIm, nil, b},
		{Upd, nil, append(append(twice(a), b...), a...)},
		{Mode{}, nil, a},
	})
}

func init() {
	register(&Property{
		ID: "C19",
		Rule: "every sequence of up to 3 (thorough 4) of 13 byte fragments (CR, LF, CRLF, NUL, invalid UTF-8, BOM, terminators, header, verbs...), pools of texts, Go values and JSON documents x options: files recorded, executed again in the same process, replayed on CI and in update mode, all rotated to another value and back, bytes of every file compared after every call; " +
			"files tampered by every single near-miss; all call sequences of length <=4 over {snapshot, other snapshot, JSON, invalid JSON} x 1-3 executions with different lengths x modes x naming options, ordinals up to 12",
		Assume: []string{"a test's standalone calls are counted per resulting file name series (options and API are part of it)", "two tests do not share one standalone file name"},
		Enum: func(tier string, emit Emit) {
			thorough := tier == "thorough"
			frag := []string{"a", "\r", "\n", "\r\n", "---", "\x00", "\xff", "%d", "[T - 1]", "\ufeff", " ", "/-/-/-/", "\u2028"}
			depth := 3
			if thorough {
				depth = 4
			}
			var pack []op
			flush := func() {
				if len(pack) > 0 {
					ops := pack
					pack = nil
					emit(func() *Scenario { return saLife("byte sequences", saCfg{}, ops) })
				}
			}
			add := func(v any) {
				pack = append(pack, ssnap(v))
				if len(pack) == 12 {
					flush()
				}
			}
			add("")
			for n := 1; n <= depth; n++ {
				seqs(frag, n, func(s []string) { add(strings.Join(s, "")) })
			}
			flush()
			for b := 0; b < 256; b++ {
				add(string([]byte{byte(b)}))
				add("x" + string([]byte{byte(b)}) + "\n")
			}
			flush()
			for _, p := range [][]string{textPool, textPoolBig} {
				for i := range p {
					add(p[i])
				}
				flush()
			}
			for _, v := range goValues() {
				add(v)
			}
			flush()

			// JSON documents x options
			docs := baseDocs(thorough)
			jcs := []saCfg{{}, {ext: ".html"}, {filename: "custom"}, {json: &snaps.JSONConfig{Width: 0, Indent: "\t", SortKeys: true}}, {json: &snaps.JSONConfig{Width: 80, Indent: "", SortKeys: true}}, {fresh: true}}
			for lo := 0; lo < len(docs); lo += 8 {
				for ci, c := range jcs {
					if !thorough && ci != lo/8%len(jcs) {
						continue
					}
					emit(func() *Scenario {
						var ops []op
						seen := map[string]bool{}
						for i, v := range docs[lo:min(lo+8, len(docs))] {
							t := wsStyles[(lo+i)%len(wsStyles)](v)
							k, err := parseJ(t)
							if err != nil || seen[k.canon(true)] {
								continue // neighbours must differ for the rotation
							}
							seen[k.canon(true)] = true
							if i%2 == 0 {
								ops = append(ops, sjson(t))
							} else {
								ops = append(ops, sjson([]byte(t)))
							}
						}
						return saLife(fmt.Sprintf("JSON documents, %+v", c), c, ops)
					})
				}
			}

			// near-miss contents on disk
			for _, v := range []string{"a", "", "a\n", "a\r\nb", "---", "x\n---\ny", "<p>é</p>\r\n", "a\xff", "\r", strings.Repeat("ab\r\n", 3000)} {
				miss := map[string]bool{}
				for _, m := range []string{v + "\n", v + "\r", v + "\r\n", v + " ", v + "\x00", "\ufeff" + v, " " + v, "\n" + v, strings.TrimSuffix(v, "\n"), strings.ReplaceAll(v, "\r\n", "\n"), strings.ReplaceAll(v, "\n", "\r\n"), strings.ReplaceAll(v, "---", "/-/-/-/"), strings.ReplaceAll(v, "\xff", "\xfe"), strings.ReplaceAll(v, "\xff", "\ufffd"),
					"\n[TestS/sub - 1]\n" + v + "\n---\n", v + "\n---\n", v + v, v + strings.Repeat("z", 300), "", strings.ToUpper(v)} {
					if m == v || miss[m] {
						continue
					}
					miss[m] = true
					emit(func() *Scenario {
						e := []saExec{{"TestS/sub", []saCall{{ssnap("first"), 0}, {ssnap(v), 0}, {ssnap("last"), 0}}}}
						return standaloneScenario(fmt.Sprintf("file of %s holds %s", q(v), q(m)), []saCfg{{}}, []saStage{
							{Off, nil, e}, {CIm, map[string]string{"TestS_sub_2.snap": m}, e}, {Off, nil, append(append([]saExec{}, e...), e...)}, {Mode{Update: "true"}, nil, e}, {CIm, nil, e},
						})
					})
				}
			}

			// histories
			yes, no := true, false
			alpha := []op{ssnap("v1\r\n"), ssnap("v2"), sjson(`{"a":[1]}`), sjson(`{`)}
			namings := [][]saCfg{{{}}, {{filename: "same"}}, {{ext: ".html"}}, {{filename: "p%d_1"}}, {{filename: "x", ext: ".a%sb"}}, {{filename: "n.snap"}}}
			ms := []Mode{Off, CIm, Upd, {Update: "clean", NoColor: true}}
			cnt := 0
			var hist [][]op
			for n := 1; n <= 4; n++ {
				seqs(alpha, n, func(s []op) { hist = append(hist, s) })
			}
			mkc := func(s []op, cfg int) (cs []saCall) {
				for _, o := range s {
					cs = append(cs, saCall{o, cfg})
				}
				return
			}
			for hi, h := range hist {
				for k := range ms {
					if !thorough && (len(h) == 4 && k != hi%len(ms)) {
						continue
					}
					cnt++
					nm := namings[cnt%len(namings)]
					h2 := hist[(hi*7+k*31+5)%len(hist)]
					emit(func() *Scenario {
						return standaloneScenario(fmt.Sprintf("history %v then %v, %+v", h, h2, nm), nm, []saStage{
							{Off, nil, []saExec{{"TestS", mkc(h, 0)}, {"TestS", mkc(h[:len(h)-1], 0)}, {"TestS", mkc(h, 0)}}},
							{ms[k], nil, []saExec{{"TestS", mkc(h, 0)}, {"TestS", mkc(h2, 0)}, {"TestS", mkc(h, 0)}}},
							{Upd, nil, []saExec{{"TestS", mkc(h2, 0)}}},
							{CIm, nil, []saExec{{"TestS", mkc(h2, 0)}}},
						})
					})
				}
			}
			// several tests and configs, interleaved executions, ordinals beyond nine
			names := []string{"TestS", "TestS/a", "TestS/a/b", "TestSx", "TestS/é", "TestS/1", "TestS/%d", "TestS/a_1", "TestS/a#01", "TestS/-"}
			for i, n1 := range names {
				for j, n2 := range names {
					if i == j || !thorough && (i+j)%3 != 0 {
						continue
					}
					emit(func() *Scenario {
						var many []saCall
						for k := 0; k < 12; k++ {
							many = append(many, saCall{ssnap(fmt.Sprintf("%s %d", n1, k)), k % 2})
						}
						few := []saCall{{ssnap("f0"), 0}, {sjson(`[2]`), 1}, {ssnap("f1"), 0}}
						es := []saExec{{n1, many}, {n2, few}, {n1, many[:3]}, {n2, few}, {n1, many}}
						return standaloneScenario(fmt.Sprintf("tests %s and %s, 12 calls, configs with and without Ext", n1, n2), []saCfg{{}, {ext: ".txt"}}, []saStage{
							{Off, nil, es}, {CIm, nil, []saExec{es[1], es[0]}}, {Upd, nil, []saExec{{n1, rot(many, 2)}, es[1]}}, {CIm, nil, []saExec{es[1], {n1, rot(many, 2)}}},
						})
					})
				}
			}
			for _, o := range []*bool{&yes, &no} {
				for _, m := range ms {
					emit(func() *Scenario {
						return standaloneScenario(fmt.Sprintf("Update(%v) next to a plain config, %v", *o, m), []saCfg{{filename: "opt", update: o}, {filename: "plain"}}, []saStage{
							{Off, nil, []saExec{{"TestS", []saCall{{ssnap("a"), 0}, {ssnap("a"), 1}, {sjson("1"), 0}, {sjson("1"), 1}}}}},
							{m, nil, []saExec{{"TestS", []saCall{{ssnap("b\n"), 0}, {ssnap("b\r"), 1}, {sjson("[1, 2]"), 0}, {sjson("[1, 2]"), 1}, {ssnap("c"), 0}}}, {"TestS", []saCall{{ssnap("b\n"), 0}}}}},
						})
					})
				}
			}
		},
	})
}
