package e3

import (
	"crypto/sha256"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/gkampitakis/ciinfo"
	"github.com/gkampitakis/go-snaps/internal/zzmc/sched"
	"github.com/gkampitakis/go-snaps/internal/zzmc/xos"
	"github.com/gkampitakis/go-snaps/snaps"
)

// Thread is one goroutine: executions of a test, each a sequence of calls.
type Thread struct {
	Test  string
	Execs [][]Call
}

// Scn is a scenario.
type Scn struct {
	Threads []Thread
	Cfgs    []Cfg
	PerCall bool // a fresh Config for every call instead of a shared one
	CI      bool
	Update  string // UPDATE_SNAPS
	Bound   int    // preemption bound; -1: all interleavings (partial order reduction)
	Extra   bool   // the files hold entries of tests that do not run
	Sort    bool
	Note    string
}

func (s *Scn) String() string {
	var b strings.Builder
	for _, t := range s.Threads {
		fmt.Fprintf(&b, "%s%v ", t.Test, t.Execs)
	}
	return fmt.Sprintf("%sthreads: %sconfigs: %+v percall=%v CI=%v UPDATE_SNAPS=%q bound=%d extra=%v %s", "", b.String(), s.Cfgs, s.PerCall, s.CI, s.Update, s.Bound, s.Extra, s.Note)
}

// slot is what a call addresses.
type slot struct {
	file string // relative to the scratch directory
	id   string // "" for standalone
}

func (s slot) String() string { return strings.TrimSpace(s.file + " " + s.id) }

// world is a worker's scratch directory.
type world struct {
	dir  string // snapshots of configured calls
	pkg  string // __snapshots__ beside the test file
	m    *testing.M
	out  *os.File
	real *os.File
}

func newWorld(base string, m *testing.M) *world {
	_, file, _, _ := runtime.Caller(0)
	w := &world{dir: filepath.Join(base, "s"), pkg: filepath.Join(filepath.Dir(file), "__snapshots__"), m: m, real: os.Stdout}
	f, err := os.Create(filepath.Join(base, "stdout"))
	if err != nil {
		panic(err)
	}
	w.out = f
	return w
}

type files map[string]string

func (w *world) capture(pkg bool) files {
	f := files{}
	walk := func(root, pre string) {
		filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
			if err != nil || d.IsDir() {
				return nil
			}
			b, err := os.ReadFile(p)
			if err != nil {
				b = []byte("unreadable: " + err.Error())
			}
			r, _ := filepath.Rel(root, p)
			f[pre+r] = string(b)
			return nil
		})
	}
	walk(w.dir, "")
	if pkg {
		walk(w.pkg, "PKG/")
	}
	return f
}

func (w *world) restore(f files, pkg bool) {
	os.RemoveAll(w.dir)
	if pkg {
		os.RemoveAll(w.pkg)
	}
	for n, d := range f {
		p := filepath.Join(w.dir, n)
		if strings.HasPrefix(n, "PKG/") {
			p = filepath.Join(w.pkg, strings.TrimPrefix(n, "PKG/"))
		}
		os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(d), 0o644); err != nil {
			panic(err)
		}
	}
}

// fresh sets the package up as in a new process.
func fresh(ci bool, update string) {
	ciinfo.IsCI = ci
	if update == "" {
		os.Unsetenv("UPDATE_SNAPS")
	} else {
		os.Setenv("UPDATE_SNAPS", update)
	}
	sched.Reset()
}

func (s *Scn) pkg() bool {
	for _, c := range s.Cfgs {
		if c.Pkg {
			return true
		}
	}
	return false
}

func (s *Scn) build(root string) (out []*snaps.Config) {
	for _, c := range s.Cfgs {
		out = append(out, c.build(root))
	}
	return
}

func (s *Scn) sharedTests() map[string]int {
	m := map[string]int{}
	for _, t := range s.Threads {
		m[t.Test]++
	}
	return m
}

// result of one execution: events by thread, execution, call.
type result struct {
	ev      [][][][]Ev
	after   files
	summary string
	cleaned files
}

// run executes the threads: under the scheduler when choose is given, else one after the other.
func (w *world) run(s *Scn, cfgs []*snaps.Config, val func(Call) string, use func(Call) bool, choose func(st *sched.Step, depth int) int) (*result, *sched.S) {
	r := &result{ev: make([][][][]Ev, len(s.Threads))}
	var bodies []func()
	var late []*T
	sharedT := map[string]*T{}
	cnt := s.sharedTests()
	for i, th := range s.Threads {
		i, th := i, th
		r.ev[i] = make([][][]Ev, len(th.Execs))
		var st *T
		if cnt[th.Test] > 1 {
			if sharedT[th.Test] == nil {
				sharedT[th.Test] = newT(th.Test)
				late = append(late, sharedT[th.Test])
			}
			st = sharedT[th.Test]
		}
		bodies = append(bodies, func() {
			for x, calls := range th.Execs {
				t := newT(th.Test)
				if st != nil {
					t = &T{shared: st.shared}
				}
				for _, c := range calls {
					if use != nil && !use(c) {
						continue
					}
					cfg := cfgs[c.Cfg]
					if s.PerCall {
						cfg = s.Cfgs[c.Cfg].build(w.dir)
					}
					ev := c.one(cfg, t, val(c))
					r.ev[i][x] = append(r.ev[i][x], ev)
					if len(ev) > 0 && ev[len(ev)-1].Kind == "skip" {
						break
					}
				}
				if st == nil {
					t.runCleanups()
				}
			}
		})
	}
	var sc *sched.S
	if choose != nil {
		sc = sched.Run(choose, bodies...)
	} else {
		for _, b := range bodies {
			b()
		}
	}
	if sc == nil || !sc.Deadlock && !sc.Stalled {
		for _, t := range late {
			t.runCleanups()
		}
	}
	return r, sc
}

func same(c Call) string { return c.Val }
func old(c Call) string {
	if c.Kind == 'm' || c.Kind == 'u' {
		return c.Val + "old"
	}
	return c.Val
}
func notSkip(c Call) bool {
	return c.Kind != 's' && c.Kind != 'b'
}

func neutral(s *Scn) *Scn {
	n := *s
	n.Cfgs = append([]Cfg(nil), s.Cfgs...)
	for i := range n.Cfgs {
		n.Cfgs[i].Update = 0
	}
	n.PerCall = true
	return &n
}

type entry struct{ id, body string }

// parse reads a multi-entry file strictly.
func parse(data string) (es []entry, err error) {
	lines := strings.Split(data, "\n")
	if lines[len(lines)-1] != "" {
		return nil, fmt.Errorf("no newline at the end")
	}
	lines = lines[:len(lines)-1]
	i := 0
	for i < len(lines) {
		if lines[i] == "" {
			i++
			continue
		}
		if !strings.HasPrefix(lines[i], "[") || !strings.HasSuffix(lines[i], "]") {
			return nil, fmt.Errorf("line %d %q is not the header of an entry", i+1, lines[i])
		}
		id := lines[i]
		k := i + 1
		for k < len(lines) && lines[k] != "---" {
			k++
		}
		if k == len(lines) {
			return nil, fmt.Errorf("entry %s is not terminated", id)
		}
		es = append(es, entry{id, strings.Join(lines[i+1:k], "\n")})
		i = k + 1
	}
	return
}

func format(es []entry) string {
	var b strings.Builder
	for _, e := range es {
		fmt.Fprintf(&b, "\n%s\n%s\n---\n", e.id, e.body)
	}
	return b.String()
}

// plan is what a scenario starts from and what is expected of it.
type plan struct {
	seed files
	want map[string]map[string]string // multi-entry file -> id -> body ("" id: the file is a standalone snapshot)
	out  [][][]string                 // expected outcome by thread, execution, call ("" when not made)
	cnt  map[string]int
	free map[string][]string // tests run by several goroutines: the bodies that are to be found in their slots, per file
	obsT int
}

func (w *world) plan(s *Scn) (*plan, error) {
	pkg := s.pkg()
	n := neutral(s)
	record := func(val func(Call) string) (files, error) {
		w.restore(nil, pkg)
		fresh(false, "")
		r, _ := w.run(n, n.build(w.dir), val, notSkip, nil)
		for i := range r.ev {
			for x := range r.ev[i] {
				for _, e := range r.ev[i][x] {
					if x == 0 && (len(e) != 1 || e[0].Kind != "log" || !strings.Contains(e[0].Text, "added")) {
						return nil, fmt.Errorf("the reference recording gave %v", e)
					}
				}
			}
		}
		return w.capture(pkg), nil
	}
	oldF, err := record(old)
	if err != nil {
		return nil, err
	}
	newF, err := record(same)
	if err != nil {
		return nil, err
	}
	p := &plan{seed: files{}, want: map[string]map[string]string{}, cnt: map[string]int{}, free: map[string][]string{}}
	// slots of the calls, by running each thread alone and watching what it adds
	slots, err := w.slots(n)
	if err != nil {
		return nil, err
	}
	state := map[slot]byte{} // kinds of the first call that addresses the slot
	multi := map[string]bool{}
	for i, th := range s.Threads {
		for _, calls := range th.Execs[:1] {
			for k, c := range calls {
				if sl, ok := slots[[2]int{i, k}]; ok {
					state[sl] = c.Kind
					if sl.id != "" {
						multi[sl.file] = true
					}
				}
			}
		}
	}
	missing := func(f, id string) bool {
		k := state[slot{f, id}]
		return k == 'a' || k == 'n'
	}
	shared := s.sharedTests()
	for f, d := range oldF {
		if !multi[f] {
			if !missing(f, "") {
				p.seed[f] = d
			}
			continue
		}
		es, err := parse(d)
		if err != nil {
			return nil, fmt.Errorf("reference file %s: %v", f, err)
		}
		var keep []entry
		if s.Extra {
			keep = append(keep, entry{"[TestGone - 1]", "gone\n[TestP - 1]\nstill gone"})
		}
		for _, e := range es {
			if !missing(f, e.id) {
				keep = append(keep, e)
			}
		}
		if s.Extra {
			keep = append(keep, entry{"[TestZ - 2]", "gone too"})
			p.obsT += 2
		}
		if len(keep) > 0 {
			p.seed[f] = format(keep)
		}
	}
	// expected result
	for f, d := range p.seed {
		p.want[f] = map[string]string{}
		if !multi[f] {
			p.want[f][""] = d
			continue
		}
		es, _ := parse(d)
		for _, e := range es {
			p.want[f][e.id] = e.body
		}
	}
	body := func(fs files, sl slot) string {
		if sl.id == "" {
			return fs[sl.file]
		}
		es, _ := parse(fs[sl.file])
		for _, e := range es {
			if e.id == sl.id {
				return e.body
			}
		}
		return "?"
	}
	for i, th := range s.Threads {
		p.out = append(p.out, nil)
		for x, calls := range th.Execs {
			var outs []string
			for k, c := range calls {
				sl, ok := slots[[2]int{i, k}]
				o := "passed"
				switch {
				case c.Kind == 's':
					o = "skipped"
				case c.Kind == 'b':
					o = "failed"
				default:
					upd := s.Cfgs[c.Cfg].Update
					create := !s.CI && upd != 2
					update := !s.CI && (upd == 1 || upd == 0 && s.Update == "true")
					cur, has := p.want[sl.file][sl.id]
					target := body(newF, sl)
					switch {
					case !ok:
						return nil, fmt.Errorf("no slot for call %d/%d", i, k)
					case !has && create:
						o = "added"
						if p.want[sl.file] == nil {
							p.want[sl.file] = map[string]string{}
						}
						p.want[sl.file][sl.id] = target
					case !has:
						o = "failed"
					case cur == target:
					case update:
						o = "updated"
						p.want[sl.file][sl.id] = target
					default:
						o = "failed"
					}
				}
				p.cnt[o]++
				outs = append(outs, o)
				if c.Kind == 's' {
					break
				}
			}
			p.out[i] = append(p.out[i], outs)
			_ = x
		}
	}
	// goroutines of one test: which goroutine gets which slot is not determined
	for i, th := range s.Threads {
		if shared[th.Test] < 2 {
			continue
		}
		for k := range th.Execs[0] {
			sl := slots[[2]int{i, k}]
			key := sl.file
			if sl.id == "" {
				key = standaloneKey(sl.file)
			}
			if b, ok := p.want[sl.file][sl.id]; ok {
				p.free[key] = append(p.free[key], b)
			}
		}
	}
	return p, nil
}

var lastNum = regexp.MustCompile(`_\d+\.snap`)

func standaloneKey(f string) string { return "alone:" + lastNum.ReplaceAllString(f, "_*.snap") }

// slots finds which slot each call of the first executions addresses, by recording call after call.
func (w *world) slots(n *Scn) (map[[2]int]slot, error) {
	pkg := n.pkg()
	w.restore(nil, pkg)
	fresh(false, "")
	out := map[[2]int]slot{}
	cfgs := n.build(w.dir)
	before := w.capture(pkg)
	late := map[string]*T{}
	for i, th := range n.Threads {
		t := late[th.Test]
		if t == nil {
			t = newT(th.Test)
			late[th.Test] = t
		}
		for k, c := range th.Execs[0] {
			if !notSkip(c) {
				continue
			}
			c.one(cfgs[c.Cfg], t, c.Val)
			after := w.capture(pkg)
			found := false
			for f, d := range after {
				if before[f] == d {
					continue
				}
				sl := slot{file: f}
				if c.multi() {
					es, err := parse(d)
					if err != nil || len(es) == 0 {
						return nil, fmt.Errorf("reference file %s: %v", f, err)
					}
					sl.id = es[len(es)-1].id
				}
				out[[2]int{i, k}] = sl
				found = true
			}
			if !found {
				return nil, fmt.Errorf("the reference recording of call %v wrote nothing", c)
			}
			before = after
		}
	}
	return out, nil
}

func outcome(ev []Ev) string {
	var e, l, s []string
	for _, x := range ev {
		switch x.Kind {
		case "error":
			e = append(e, x.Text)
		case "log":
			l = append(l, x.Text)
		case "skip":
			s = append(s, x.Text)
		default:
			return "panic: " + x.Text
		}
	}
	switch {
	case len(s) == 1 && len(e) == 0 && len(l) == 1 && strings.Contains(l[0], "skipped"):
		return "skipped"
	case len(s) > 0:
	case len(e) == 0 && len(l) == 0:
		return "passed"
	case len(e) == 1 && len(l) == 0:
		return "failed"
	case len(e) == 0 && len(l) == 1 && strings.Contains(l[0], "added"):
		return "added"
	case len(e) == 0 && len(l) == 1 && strings.Contains(l[0], "updated"):
		return "updated"
	}
	return fmt.Sprintf("illegal signals %q", ev)
}

var (
	ansi    = regexp.MustCompile("\x1b\\[[0-9;]*m")
	countRe = regexp.MustCompile(`^\S+ (\d+) snapshots? (passed|failed|added|updated|skipped)$`)
	obsRe   = regexp.MustCompile(`(\d+) snapshot (file|test)s? (obsolete|removed)`)
)

// clean calls Clean and returns what it printed.
func (w *world) clean(sort bool) string {
	w.out.Truncate(0)
	w.out.Seek(0, io.SeekStart)
	os.Stdout = w.out
	xos.Stdout.File = w.out
	func() {
		defer func() {
			if r := recover(); r != nil {
				fmt.Fprintf(w.out, "Clean panicked: %v\n", r)
			}
		}()
		snaps.Clean(w.m, snaps.CleanOpts{Sort: sort})
	}()
	os.Stdout = w.real
	xos.Stdout.File = w.real
	b, _ := os.ReadFile(w.out.Name())
	return ansi.ReplaceAllString(string(b), "")
}

// once performs one execution from the initial state and hands it to check.
func (w *world) once(s *Scn, p *plan, choose func(st *sched.Step, depth int) int) (*result, *sched.S) {
	pkg := s.pkg()
	w.restore(p.seed, pkg)
	fresh(s.CI, s.Update)
	r, sc := w.run(s, s.build(w.dir), same, nil, choose)
	r.after = w.capture(pkg)
	if sc == nil || !sc.Deadlock && !sc.Stalled {
		r.summary = w.clean(s.Sort)
		r.cleaned = w.capture(pkg)
	}
	return r, sc
}

func hash(v ...any) [32]byte { return sha256.Sum256([]byte(fmt.Sprint(v...))) }

type fail struct{ key, msg string }

func show(f files) string {
	var ks []string
	for k := range f {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, " %s=%q", k, f[k])
	}
	return b.String()
}

// judge compares one execution with the plan.
func (w *world) judge(s *Scn, p *plan, r *result, sc *sched.S) (fs []fail) {
	add := func(k, f string, a ...any) { fs = append(fs, fail{k, fmt.Sprintf(f, a...)}) }
	if sc != nil {
		if sc.Deadlock {
			last := sc.Steps[len(sc.Steps)-1]
			add("deadlock", "no goroutine can go on; waiting for %v", last.Pending)
			return
		}
		if sc.Panic != "" {
			add("panic", "a goroutine panicked: %s", sc.Panic)
			return
		}
	}
	shared := s.sharedTests()
	got := map[string]int{}
	multiset := map[string]int{}
	for i, th := range s.Threads {
		for x := range th.Execs {
			ev := r.ev[i][x]
			if len(ev) != len(p.out[i][x]) {
				add("calls", "%s execution %d: %d calls returned, want %d", th.Test, x+1, len(ev), len(p.out[i][x]))
				continue
			}
			for k, e := range ev {
				o := outcome(e)
				got[o]++
				if shared[th.Test] > 1 {
					multiset[th.Test+o]++
					multiset[th.Test+p.out[i][x][k]]--
					continue
				}
				if o != p.out[i][x][k] {
					add("outcome", "%s execution %d call %d (%v): %s, a serial execution gives %s %q", th.Test, x+1, k+1, th.Execs[x][k], o, p.out[i][x][k], e)
				}
			}
		}
	}
	for k, n := range multiset {
		if n != 0 {
			add("outcome", "goroutines of one test: %+d times %s (serial execution)", n, k)
		}
	}
	// files
	seen := map[string]bool{}
	for f, d := range r.after {
		want, ok := p.want[f]
		if !ok {
			add("file", "file %s appeared: %q", f, d)
			continue
		}
		seen[f] = true
		if b, alone := want[""]; alone {
			if len(p.free[standaloneKey(f)]) > 0 {
				continue
			}
			if d != b {
				add("entry", "%s holds %q, want %q", f, d, b)
			}
			continue
		}
		es, err := parse(d)
		if err != nil {
			add("torn", "%s is not well-formed: %v: %q", f, err, d)
			continue
		}
		cnt := map[string]int{}
		var frees []string
		for _, e := range es {
			cnt[e.id]++
			b, ok := want[e.id]
			name := strings.TrimPrefix(e.id[:strings.LastIndex(e.id, " - ")], "[")
			if !ok {
				add("entry", "%s has an entry %s nobody addressed", f, e.id)
			} else if shared[name] > 1 {
				frees = append(frees, e.body)
			} else if b != e.body {
				add("entry", "%s: entry %s is %q, want %q", f, e.id, e.body, b)
			}
		}
		for id := range want {
			if cnt[id] != 1 {
				add("entry", "%s: %d entries %s, want exactly one: %q", f, cnt[id], id, d)
			}
		}
		if l := p.free[f]; len(l) > 0 {
			a, b := append([]string(nil), l...), frees
			sort.Strings(a)
			sort.Strings(b)
			if strings.Join(a, "\x00") != strings.Join(b, "\x00") {
				add("entry", "%s: the slots of the goroutines hold %q, want %q in some order", f, b, a)
			}
		}
	}
	for key, l := range p.free {
		if !strings.HasPrefix(key, "alone:") {
			continue
		}
		var b []string
		for f, d := range r.after {
			if standaloneKey(f) == key {
				b = append(b, d)
			}
		}
		a := append([]string(nil), l...)
		sort.Strings(a)
		sort.Strings(b)
		if strings.Join(a, "\x00") != strings.Join(b, "\x00") {
			add("entry", "%s: the standalone slots hold %q, want %q in some order", key, b, a)
		}
	}
	for f := range p.want {
		if !seen[f] {
			add("file", "file %s is missing", f)
		}
	}
	// summary
	counts := map[string]int{}
	for _, l := range strings.Split(r.summary, "\n") {
		if m := countRe.FindStringSubmatch(l); m != nil {
			n, _ := strconv.Atoi(m[1])
			counts[m[2]] += n
		}
	}
	for _, o := range []string{"passed", "failed", "added", "updated", "skipped"} {
		if counts[o] != p.cnt[o] {
			add("summary", "the summary says %d %s, there were %d: %q", counts[o], o, p.cnt[o], r.summary)
		}
	}
	nt := 0
	for _, m := range obsRe.FindAllStringSubmatch(r.summary, -1) {
		n, _ := strconv.Atoi(m[1])
		nt += n
	}
	if nt != p.obsT {
		add("obsolete", "the summary lists %d obsolete items, want %d: %q", nt, p.obsT, r.summary)
	}
	if s.Update != "true" && s.Update != "clean" && !s.Sort && show(r.cleaned) != show(r.after) {
		add("clean", "Clean changed files: %s -> %s", show(r.after), show(r.cleaned))
	}
	return
}

// replay runs the tests again on CI: every slot must hold what its test expects.
func (w *world) replay(s *Scn, p *plan, r *result) (fs []fail) {
	shared := s.sharedTests()
	for _, n := range shared {
		if n > 1 {
			return nil
		}
	}
	pkg := s.pkg()
	w.restore(r.after, pkg)
	fresh(true, "")
	r2, _ := w.run(s, s.build(w.dir), same, nil, nil)
	for i, th := range s.Threads {
		for x := range th.Execs {
			for k, e := range r2.ev[i][x] {
				want := "passed"
				switch o := p.out[i][len(th.Execs)-1]; {
				case x < len(p.out[i]) && k < len(o) && (o[k] == "failed" || o[k] == "skipped"):
					want = o[k]
				}
				if o := outcome(e); o != want {
					fs = append(fs, fail{"replay", fmt.Sprintf("on a CI run afterwards %s execution %d call %d (%v): %s, want %s %q", th.Test, x+1, k+1, th.Execs[x][k], o, want, e)})
				}
			}
		}
	}
	if a := w.capture(pkg); show(a) != show(r.after) {
		fs = append(fs, fail{"replay", fmt.Sprintf("the CI run changed files: %s -> %s", show(r.after), show(a))})
	}
	return
}
