package e3

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/gkampitakis/go-snaps/internal/zzmc/sched"
)

// Property is what is explored for one property.
type Property struct {
	ID     string
	Enum   func(tier string, emit func(Item))
	Rule   string
	Assume []string
}

// Item is a unit of exploration: the schedules of a scenario, or the faults of a history.
type Item struct {
	Scn   *Scn
	Fault *FaultScn
	Race  bool // also under the race detector
}

func (i Item) String() string {
	if i.Fault != nil {
		return i.Fault.String()
	}
	return i.Scn.String()
}

func (i Item) pkg() bool { return i.Scn != nil && i.Scn.pkg() }

var properties = map[string]*Property{}

func register(p *Property) { properties[p.ID] = p }

func items(id, tier string) (out []Item) {
	properties[id].Enum(tier, func(i Item) { out = append(out, i) })
	return
}

type job struct {
	ID, Tier, Base string
	Index          int
	Schedule       []int // replay one schedule
	Deadline       int64
	Max            int
}

type found struct {
	Index    int
	Key, Msg string
	Schedule []int
	Steps    []string
}

type answer struct {
	Index                          int
	Execs, Steps, Pruned, Calls    int
	States                         int
	Outcomes                       map[string]int
	Fails                          []found
	Cut, Stalled                   bool
	Err                            string
}

func describe(s *sched.S) (out []string) {
	for _, st := range s.Steps {
		if st.Enabled != 0 {
			out = append(out, fmt.Sprintf("%d:%s", st.Chosen, st.Pending[st.Chosen]))
		}
	}
	return
}

func (j job) answer(w *world, it Item) (a answer) {
	a = answer{Index: j.Index, Outcomes: map[string]int{}}
	defer func() {
		if r := recover(); r != nil {
			a.Err = fmt.Sprint(r)
		}
	}()
	if it.Fault != nil {
		it.Fault.explore(j.ID, w, &a)
		return
	}
	s := it.Scn
	p, err := w.plan(s)
	if err != nil {
		a.Err = err.Error()
		// the serial reference does not work: the serial execution itself is the violation to be shown
		a.Fails = append(a.Fails, found{Index: j.Index, Key: "serial", Msg: err.Error()})
		return
	}
	serial, _ := w.once(s, p, nil)
	if f := w.judge(s, p, serial, nil); len(f) > 0 {
		// not a matter of schedules, but it breaks the property all the same
		a.Fails = append(a.Fails, found{Index: j.Index, Key: "serial-" + f[0].key, Msg: "already when the tests run one after the other: " + f[0].msg})
		return
	}
	replayed := map[[32]byte]bool{}
	states := map[[32]byte]bool{}
	races := sched.RaceErrors()
	exec := func(choose func(st *sched.Step, depth int) int) *sched.S {
		r, sc := w.once(s, p, choose)
		if sc.Stalled {
			a.Stalled = true
			return sc
		}
		fs := w.judge(s, p, r, sc)
		h := hash(r.ev, show(r.after), r.summary)
		if !states[h] {
			states[h] = true
		}
		if h2 := hash(show(r.after)); len(fs) == 0 && !replayed[h2] {
			replayed[h2] = true
			fs = append(fs, w.replay(s, p, r)...)
		}
		for _, th := range r.ev {
			for _, x := range th {
				for _, c := range x {
					a.Calls++
					o := outcome(c)
					a.Outcomes[o[:min(8, len(o))]]++
				}
			}
		}
		if n := sched.RaceErrors(); n > races {
			races = n
			fs = append(fs, fail{"race", "data race (race detector under this schedule):\n" + raceLog()})
		}
		for _, f := range fs {
			var c []int
			for _, st := range sc.Steps {
				c = append(c, st.Chosen)
			}
			a.Fails = append(a.Fails, found{j.Index, f.key, f.msg, c, describe(sc)})
		}
		return sc
	}
	if j.Schedule != nil {
		exec(func(st *sched.Step, d int) int {
			if d < len(j.Schedule) && st.Enabled&(1<<j.Schedule[d]) != 0 {
				return j.Schedule[d]
			}
			for t := 0; ; t++ {
				if st.Enabled&(1<<t) != 0 {
					return t
				}
			}
		})
		return
	}
	x := &explorer{bound: s.Bound}
	for more := true; more; {
		var sc *sched.S
		sc, _, more = x.next(exec)
		_ = sc
		if a.Stalled || len(a.Fails) > 0 {
			break
		}
		if time.Now().UnixMilli() > j.Deadline || j.Max > 0 && x.Execs >= j.Max {
			a.Cut = more
			break
		}
	}
	a.Execs, a.Steps, a.Pruned, a.States = x.Execs, x.Steps, x.Pruned, len(states)
	if x.Bad != "" && len(a.Fails) == 0 {
		a.Err = x.Bad
		a.Cut = true
	}
	return
}

func raceLog() string {
	m, _ := filepath.Glob(os.Getenv("MC_RACELOG") + "." + strconv.Itoa(os.Getpid()))
	for _, f := range m {
		b, _ := os.ReadFile(f)
		return tail(string(b), 4000)
	}
	return "(no log)"
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func worker(m *testing.M) {
	w := newWorld(os.Getenv("MC_BASE"), m)
	dec := json.NewDecoder(os.Stdin)
	enc := json.NewEncoder(os.Stdout)
	cache := map[string][]Item{}
	for {
		var j job
		if dec.Decode(&j) != nil {
			return
		}
		k := j.ID + j.Tier
		if cache[k] == nil {
			cache[k] = items(j.ID, j.Tier)
		}
		enc.Encode(j.answer(w, cache[k][j.Index]))
	}
}

// proc is a worker process.
type proc struct {
	cmd *exec.Cmd
	in  *json.Encoder
	out *json.Decoder
	err bytes.Buffer
	dir string
}

func start(bin, dir string) (*proc, error) {
	os.MkdirAll(dir, 0o755)
	p := &proc{dir: dir}
	p.cmd = exec.Command(bin)
	p.cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=/nonexistent", "LANG=C", "NO_COLOR=1", "MC_ROLE=worker", "MC_BASE=" + dir, "TMPDIR=" + dir,
		"MC_RACELOG=" + filepath.Join(dir, "race"), "GORACE=log_path=" + filepath.Join(dir, "race") + " halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=2", "GOMAXPROCS=2"}
	p.cmd.Dir = dir
	p.cmd.Stderr = &p.err
	i, err := p.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	o, err := p.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	p.in, p.out = json.NewEncoder(i), json.NewDecoder(o)
	return p, p.cmd.Start()
}

func (p *proc) stop() {
	p.cmd.Process.Kill()
	p.cmd.Wait()
	os.RemoveAll(p.dir)
}

// ask sends a job; ok is false when the process died or hung.
func (p *proc) ask(j job, limit time.Duration) (a answer, died string) {
	type res struct {
		a   answer
		err error
	}
	c := make(chan res, 1)
	go func() {
		if err := p.in.Encode(j); err != nil {
			c <- res{err: err}
			return
		}
		var r res
		r.err = p.out.Decode(&r.a)
		c <- r
	}()
	select {
	case r := <-c:
		if r.err != nil {
			p.cmd.Process.Kill()
			p.cmd.Wait()
			return a, fmt.Sprintf("process died: %v %s", r.err, tail(p.err.String(), 3000))
		}
		return r.a, ""
	case <-time.After(limit):
		return a, "hung"
	}
}

type part struct {
	Engine      string         `json:"engine"`
	Exhaustive  bool           `json:"exhaustive"`
	Histories   int            `json:"histories"`
	Processes   int            `json:"processes"`
	States      int            `json:"states"`
	Transitions int            `json:"transitions"`
	Outcomes    map[string]int `json:"outcomes"`
	Rule        string         `json:"rule"`
	Assume      []string       `json:"assumptions"`
	Samples     []string       `json:"samples"`
	Violations  []string       `json:"violations"`
	Known       []string       `json:"known"`
	Unconfirmed []string       `json:"unconfirmed"`
	Extra       string         `json:"extra"`
	Wall        float64        `json:"wall_s"`
}

type knownFinding struct{ key, what string }

func loadKnown(path, id string) (out []knownFinding) {
	b, _ := os.ReadFile(path)
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 3)
		if len(f) == 3 && f[0] == "property="+id {
			out = append(out, knownFinding{strings.TrimPrefix(f[1], "key="), f[2]})
		}
	}
	return
}

func driver() int {
	begin := time.Now()
	id, tier, base := os.Getenv("MC_PROP"), os.Getenv("MC_TIER"), os.Getenv("MC_BASE")
	raceBin := os.Getenv("MC_RACEBIN")
	if _, err := os.Stat(raceBin); err != nil {
		raceBin = ""
	}
	limit := 150 * time.Second
	if tier == "thorough" {
		limit = 600 * time.Second
	}
	if v, err := strconv.Atoi(os.Getenv("MC_LIMIT")); err == nil && v > 0 {
		limit = time.Duration(v) * time.Second
	}
	deadline := begin.Add(limit)
	p := properties[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", id)
		return 2
	}
	its := items(id, tier)
	type unit struct {
		idx  int
		race bool
	}
	var units, pkgs []unit // package-level configurations share a directory: one worker
	sel := map[int]bool{}
	if s := os.Getenv("MC_ONLY"); s != "" {
		for _, f := range strings.Split(s, ",") {
			n, _ := strconv.Atoi(f)
			sel[n] = true
		}
	}
	for i, it := range its {
		if len(sel) > 0 && !sel[i] {
			continue
		}
		for _, race := range []bool{false, true} {
			if race != (it.Race && raceBin != "") {
				continue // the race detector build does all the other one does
			}
			if it.pkg() {
				pkgs = append(pkgs, unit{i, race})
			} else {
				units = append(units, unit{i, race})
			}
		}
	}
	pt := part{Engine: "E3", Exhaustive: raceBin != "", Outcomes: map[string]int{}, Rule: p.Rule, Assume: p.Assume}
	var mu sync.Mutex
	type cf struct {
		found
		race bool
	}
	var fails []cf
	var procs, execs, pruned, raceExecs, stalled, cut, big int
	errs := map[string]int{}
	next := 0
	var wg sync.WaitGroup
	bin := func(race bool) string {
		if race {
			return raceBin
		}
		return os.Args[0]
	}
	run := func(k int, get func() (unit, bool)) {
		defer wg.Done()
		var ps [2]*proc
		defer func() {
			for _, p := range ps {
				if p != nil {
					p.stop()
				}
			}
		}()
		for {
			u, ok := get()
			if !ok {
				return
			}
			w := 0
			if u.race {
				w = 1
			}
			if ps[w] == nil {
				q, err := start(bin(u.race), filepath.Join(base, fmt.Sprintf("w%d-%d", k, w)))
				if err != nil {
					fmt.Fprintln(os.Stderr, "cannot start a worker:", err)
					os.Exit(3)
				}
				ps[w] = q
				mu.Lock()
				procs++
				mu.Unlock()
			}
			a, died := ps[w].ask(job{ID: id, Tier: tier, Base: base, Index: u.idx, Deadline: deadline.UnixMilli()}, limit+90*time.Second)
			if died != "" {
				ps[w].stop()
				ps[w] = nil
			}
			mu.Lock()
			switch {
			case died == "hung":
				stalled++
				pt.Exhaustive = false
			case died != "":
				fails = append(fails, cf{found{Index: u.idx, Key: "died", Msg: died}, u.race})
			}
			execs += a.Execs
			if u.race {
				raceExecs += a.Execs
			}
			big = max(big, a.Execs)
			pruned += a.Pruned
			pt.Transitions += a.Steps
			pt.States += a.States
			for o, n := range a.Outcomes {
				pt.Outcomes[o] += n
			}
			if os.Getenv("MC_SHOW") == "2" {
				fmt.Printf("unit %d race=%v execs=%d steps=%d states=%d %s\n", u.idx, u.race, a.Execs, a.Steps, a.States, its[u.idx].Scn)
			}
			if a.Stalled {
				stalled++
				pt.Exhaustive = false
				ps[w].stop() // goroutines of the stalled execution are still around
				ps[w] = nil
			}
			if a.Cut {
				cut++
				pt.Exhaustive = false
			}
			if a.Err != "" {
				errs[a.Err]++
				pt.Exhaustive = false
			}
			for _, f := range a.Fails {
				fails = append(fails, cf{f, u.race})
			}
			mu.Unlock()
		}
	}
	workers := runtime.NumCPU()
	wg.Add(workers + 1)
	pk := 0
	over := func() bool {
		if time.Now().After(deadline) || len(fails) > 60 {
			pt.Exhaustive = pt.Exhaustive && !time.Now().After(deadline)
			return true
		}
		return false
	}
	go run(workers, func() (unit, bool) {
		mu.Lock()
		defer mu.Unlock()
		if pk >= len(pkgs) || over() {
			return unit{}, false
		}
		pk++
		return pkgs[pk-1], true
	})
	for k := 0; k < workers; k++ {
		go run(k, func() (unit, bool) {
			mu.Lock()
			defer mu.Unlock()
			if next >= len(units) || over() {
				return unit{}, false
			}
			next++
			return units[next-1], true
		})
	}
	wg.Wait()
	pt.Histories, pt.Processes = execs, procs
	sort.Slice(fails, func(a, b int) bool { return fails[a].Index < fails[b].Index })
	known := loadKnown(os.Getenv("MC_KNOWN"), id)
	seen := map[string]bool{}
	tried := map[int]bool{}
	for _, f := range fails {
		isKnown := false
		for _, k := range known {
			if k.key == f.Key {
				isKnown = true
				if !seen[k.key] {
					seen[k.key] = true
					pt.Known = append(pt.Known, k.what)
				}
			}
		}
		if isKnown || tried[f.Index] || len(pt.Violations) >= 4 {
			continue
		}
		confirmed := 0
		for k := 0; k < 2; k++ {
			q, err := start(bin(f.race), filepath.Join(base, "confirm"))
			if err != nil {
				break
			}
			a, died := q.ask(job{ID: id, Tier: tier, Base: base, Index: f.Index, Schedule: f.Schedule, Deadline: time.Now().Add(60 * time.Second).UnixMilli()}, 90*time.Second)
			ok := died != "" && died != "hung" && f.Key == "died"
			for _, g := range a.Fails {
				ok = ok || g.Key == f.Key
			}
			q.stop()
			if ok {
				confirmed++
			}
		}
		how := "schedule"
		if f.race {
			how = "schedule, race detector build"
		}
		line := fmt.Sprintf("history %d (%s; %s; reproduced %d of 2 times in a fresh process): %s\n    %s\n    %v", f.Index, f.Key, how, confirmed, its[f.Index], f.Msg, f.Steps)
		if confirmed > 0 {
			tried[f.Index] = true
			pt.Violations = append(pt.Violations, line)
		} else {
			pt.Unconfirmed = append(pt.Unconfirmed, line)
		}
	}
	for _, i := range []int{0, len(its) / 3, 2 * len(its) / 3, len(its) - 1} {
		pt.Samples = append(pt.Samples, its[i].String())
	}
	pt.Extra = fmt.Sprintf("%d scenarios, %d executions (%d under the race detector, %d cut by sleep sets, at most %d in one scenario), %d scenarios cut by the deadline, %d stalled, race build: %v, errors: %v", len(units)+len(pkgs), execs, raceExecs, pruned, big, cut, stalled, raceBin != "", errs)
	pt.Wall = time.Since(begin).Seconds()
	b, _ := json.MarshalIndent(pt, "", " ")
	if err := os.WriteFile(os.Getenv("MC_OUT"), b, 0o644); err != nil {
		return 2
	}
	if os.Getenv("MC_SHOW") != "" {
		fmt.Println(pt.Extra)
	}
	return 0
}

// Main runs a worker or the driver.
func Main(m *testing.M) int {
	flag.Parse()
	if os.Getenv("MC_ROLE") == "worker" {
		worker(m)
		return 0
	}
	return driver()
}
