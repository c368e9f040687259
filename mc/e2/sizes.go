package main

import (
	"fmt"
	"strings"
)

// Sizes: the Clean properties are also explored along the number of calls,
// entries, tests and files and the size of the values, at every power of two
// and of ten with its neighbours.

func sizeScale(limit int) (out []int) {
	seen := map[int]bool{}
	add := func(n int) {
		if n >= 4 && n <= limit+1 && !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	for k := 2; 1<<k <= limit; k++ {
		add(1<<k - 1)
		add(1 << k)
		add(1<<k + 1)
	}
	for k := 10; k <= limit; k *= 10 {
		add(k - 1)
		add(k)
		add(k + 1)
	}
	return
}

func oneLine(n int) string {
	var b strings.Builder
	for i := 0; b.Len() < n; i++ {
		fmt.Fprintf(&b, "%x.", i)
	}
	return b.String()[:n]
}

const sizesRule = "; sizes: every power of two and ten and its neighbours up to 2^10 (thorough 2^12) calls of a test, entries, stale entries, tests and skipped tests, up to 2^7 (thorough 2^9) files, values, ids and stale lines of up to 2^16+1 and of 2^20+1 bytes, in rotating modes"

var sized = map[string]bool{"C07": true, "C08": true, "C09": true, "C10": true, "C20": true}

func sizeHistories(tier string, emit func(string, func(*R))) {
	thorough := tier == "thorough"
	x := 0
	each := func(sizes []int, what string, run func(r *R, n int, m mode)) {
		for _, n := range sizes {
			for k := 0; k < len(coreModes); k++ {
				if !thorough && k >= 2 {
					break
				}
				m := coreModes[(x+3*k)%len(coreModes)]
				if thorough {
					m = coreModes[k]
				}
				emit(fmt.Sprintf("%s: %d, %v", what, n, m), func(r *R) { run(r, n, m) })
			}
			x++
		}
	}
	alpha := "__snapshots__/alpha_test.snap"
	counts, files := sizeScale(1<<10), sizeScale(1<<7)
	if thorough {
		counts, files = sizeScale(1<<12), sizeScale(1<<9)
	}
	rec := func(r *R, ts map[string]*Node) *Prog { return r.Run(Env{}, spec(ts).cleans(-1)).prog() }
	stir := func(r *R) {
		d, _ := r.Get(alpha)
		r.Put(alpha, entryText("TestZ - 1", "[TestA - 1]\nz")+d+entryText("TestA - 100000", "stale"))
	}
	judge := func(r *R, m mode, ts map[string]*Node, p *Prog, flags ...string) {
		o := r.Run(m.env(flags...), spec(ts).sorted(m.sort).cleans(2))
		r.Judge(o, p)
		r.ExpectAll("replay", o, "passed")
	}
	replay := func(r *R, ts map[string]*Node) {
		o := r.Run(Env{CI: true}, spec(ts))
		r.ExpectAll("replay", o, "passed")
	}

	each(counts, "calls of one test", func(r *R, n int, m mode) {
		ts := map[string]*Node{}
		place2(ts, "TestAB", calls(3, 9, "ab", "snap", "json"))
		place2(ts, "TestA", calls(n, 9, "a", "snap"))
		place2(ts, "TestB", calls(2, 9, "b", "yaml"))
		rec(r, ts)
		stir(r)
		judge(r, m, ts, nil)
		replay(r, ts)
	})
	each(files, "standalone calls of one test", func(r *R, n int, m mode) {
		ts := map[string]*Node{}
		place2(ts, "TestA", calls(n, 9, "a", "ssnap", "sjson"))
		place2(ts, "TestA/s", calls(2, 9, "s", "ssnap"))
		rec(r, ts)
		r.Put(fmt.Sprintf("__snapshots__/TestA_%d.snap", n+1), "stale")
		judge(r, m, ts, nil)
		replay(r, ts)
	})
	each(counts, "stale entries", func(r *R, n int, m mode) {
		ts := map[string]*Node{}
		place2(ts, "TestA", calls(3, 9, "a", "snap"))
		place2(ts, "TestB", calls(2, 9, "b", "json"))
		rec(r, ts)
		d, _ := r.Get(alpha)
		s := ""
		for i := 1; i <= n; i++ {
			s += entryText(fmt.Sprintf("TestGone/%d - 1", i), "x\n[TestA - 1]")
		}
		r.Put(alpha, s+d+entryText("TestA - 4", "y"))
		judge(r, m, ts, nil)
		replay(r, ts)
	})
	each(counts, "slots beyond those called", func(r *R, n int, m mode) {
		ts := map[string]*Node{}
		place2(ts, "TestA", calls(n, 9, "a", "snap"))
		place2(ts, "TestAB", calls(2, 9, "b", "json"))
		rec(r, ts)
		ts2 := map[string]*Node{}
		place2(ts2, "TestA", calls((n+1)/2, 9, "a", "snap"))
		place2(ts2, "TestAB", calls(2, 9, "b", "json"))
		judge(r, m, ts2, nil)
		replay(r, ts2)
	})
	each(counts, "tests", func(r *R, n int, m mode) {
		ts, ts2 := map[string]*Node{}, map[string]*Node{}
		for i := 1; i <= n; i++ {
			place2(ts, fmt.Sprintf("TestA/%d", i), calls(1, 9, "a", "snap"))
			if i%3 != 1 {
				place2(ts2, fmt.Sprintf("TestA/%d", i), calls(1, 9, "a", "snap"))
			}
		}
		place2(ts2, "TestA", calls(1, 1, "end", "snap"))
		rec(r, ts)
		rec(r, ts2)
		judge(r, m, ts2, nil)
		replay(r, ts2)
	})
	each(counts, "skipped tests", func(r *R, n int, m mode) {
		ts := map[string]*Node{}
		for i := 1; i <= n; i++ {
			place2(ts, fmt.Sprintf("TestA/%d", i), calls(1, 9, "a", "snap"))
		}
		place2(ts, "TestB", calls(2, 9, "b", "snap"))
		p := rec(r, ts)
		d, _ := r.Get(alpha)
		r.Put(alpha, d+entryText("TestC - 1", "stale"))
		ts2 := clone(ts)
		for i := 1; i <= n; i++ {
			if i%3 != 1 {
				skipAt(ts2, fmt.Sprintf("TestA/%d", i), []string{"Skip", "Skipf", "SkipNow"}[i%3], 0)
			}
		}
		judge(r, m, ts2, p)
		replay(r, ts)
	})
	each(counts, "entries of unselected tests", func(r *R, n int, m mode) {
		ts := map[string]*Node{}
		place2(ts, "TestA", calls(2, 9, "a", "snap"))
		place2(ts, "TestAB", calls(n, 9, "ab", "snap"))
		place2(ts, "TestB", calls(3, 9, "b", "ssnap", "json"))
		p := rec(r, ts)
		d, _ := r.Get(alpha)
		r.Put(alpha, d+entryText("TestA - 3", "stale"))
		judge(r, m, ts, p, "-test.run=^TestA$")
		replay(r, ts)
	})
	each(files, "files", func(r *R, n int, m mode) {
		mk := func(k int) Spec {
			s := spec(map[string]*Node{})
			for i := 0; i < k; i++ {
				s.Cfgs = append(append([]Cfg{}, s.Cfgs...), Cfg{Filename: fmt.Sprintf("file%d", i), Opts: true})
				place2(s.Tests, "TestA", []Act{call("snap", len(stdCfgs)+i, fmt.Sprint("f", i))})
			}
			place2(s.Tests, "TestB", calls(1, 9, "b", "snap"))
			return s
		}
		r.Run(Env{}, mk(n).cleans(-1))
		for i := 0; i < n; i += 3 {
			f := fmt.Sprintf("__snapshots__/file%d.snap", i)
			d, _ := r.Get(f)
			r.Put(f, entryText("TestZ - 1", "z")+d)
			r.Put(fmt.Sprintf("__snapshots__/gone%d.snap", i), entryText("TestZ - 1", "z"))
			r.Put(fmt.Sprintf("__snapshots__/TestGone_%d.snap", i), "z")
		}
		o := r.Run(m.env(), mk(n).sorted(m.sort).cleans(2))
		r.Judge(o, nil)
		r.ExpectAll("replay", o, "passed")
		o = r.Run(Env{CI: true}, mk(n))
		r.ExpectAll("replay", o, "passed")
	})
	bytes := append(sizeScale(1<<16), 1<<20+1)
	if !thorough {
		bytes = append(sizeScale(1<<12), 10000, 1<<14+1, 1<<15+1, 1<<16-1, 1<<16, 1<<16+1, 100000, 1<<20+1)
	}
	each(bytes, "bytes of values", func(r *R, n int, m mode) {
		l := oneLine(n)
		ts := map[string]*Node{}
		place2(ts, "TestB", []Act{call("snap", 9, "b\n"+l+"\n\n[TestA - 1]\n"), call("snap", 9, l)})
		place2(ts, "TestA", []Act{call("snap", 9, l), call("snap", 9, "x"), call("json", 9, `{"k":"`+l+`"}`), call("ssnap", 9, l), call("yaml", 9, "a: |\n  "+l+"\n  ---\n")})
		rec(r, ts)
		d, _ := r.Get(alpha)
		r.Put(alpha, entryText("TestZ - 1", l)+d+entryText("TestA - 9", "a\n"+l+"\nb"))
		r.Put("__snapshots__/gone.snap", entryText("TestZ - 1", l))
		judge(r, m, ts, nil)
		replay(r, ts)
	})
	names := sizeScale(1 << 12)
	each(names, "bytes of a test name", func(r *R, n int, m mode) {
		l := strings.ReplaceAll(oneLine(n), ".", "_")
		ts := map[string]*Node{}
		place2(ts, "TestA/"+l, calls(2, 9, "a", "snap"))
		place2(ts, "TestA/"+l+"x", calls(1, 9, "ax", "snap"))
		place2(ts, "TestA", calls(1, 1, "s", "snap"))
		p := rec(r, ts)
		stir(r)
		r.Put("__snapshots__/shared.snap", func() string {
			d, _ := r.Get("__snapshots__/shared.snap")
			return entryText("TestA/"+l+"y - 1", "z") + d
		}())
		judge(r, m, ts, nil)
		ts2 := clone(ts)
		skipAt(ts2, "TestA/"+l, "SkipNow", 0)
		judge(r, m, ts2, p)
		replay(r, ts)
	})
	// counts of the summary: n calls of every outcome
	each(counts, "calls of every outcome", func(r *R, n int, m mode) {
		ts, ts2 := map[string]*Node{}, map[string]*Node{}
		place2(ts, "TestA", calls(n, 9, "a", "snap"))
		place2(ts, "TestB", calls(n, 9, "b", "snap"))
		rec(r, ts)
		place2(ts2, "TestA", calls(n, 9, "a", "snap"))
		place2(ts2, "TestB", calls(n, 6, "b2", "snap"))  // Update(false): fail
		place2(ts2, "TestC", calls(n, 9, "c", "snap"))   // added
		place2(ts2, "TestAB", calls(2, 9, "c", "ssnap")) // added
		o := r.Run(m.env(), spec(ts2).sorted(m.sort).cleans(2))
		r.Simulate(o)
		r.Judge(o, nil)
	})
}
