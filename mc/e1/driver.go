package e1

import (
	"bytes"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Emit receives scenario builders; a builder runs only where it is needed.
type Emit func(build func() *Scenario)

type Property struct {
	ID   string
	Enum func(tier string, emit Emit)
	Rule string // what is enumerated (for the evidence)
	// Assume lists assumptions for the evidence
	Assume []string
}

var properties = map[string]*Property{}

func register(p *Property) { properties[p.ID] = p }

func build(id, tier string, want map[int]bool) map[int]*Scenario {
	out := map[int]*Scenario{}
	n := 0
	enumerate(id, tier, func(b func() *Scenario) {
		if want[n] {
			out[n] = b()
		}
		n++
	})
	return out
}

func count(id, tier string) int {
	n := 0
	enumerate(id, tier, func(func() *Scenario) { n++ })
	return n
}

func countBase(id, tier string) int {
	n := 0
	properties[id].Enum(tier, func(func() *Scenario) { n++ })
	return n
}

type job struct {
	ID, Tier, Base string
	Stage          int
	Indices        []int
}

// runWorker executes one stage of a set of scenarios (in order) in this process.
func runWorker() {
	var j job
	if err := json.NewDecoder(os.Stdin).Decode(&j); err != nil {
		panic(err)
	}
	want := map[int]bool{}
	for _, i := range j.Indices {
		want[i] = true
	}
	scns := build(j.ID, j.Tier, want)
	enc := gob.NewEncoder(os.Stdout)
	real := os.Stdout
	os.Stdout = os.Stderr
	for _, i := range j.Indices {
		s := scns[i]
		w := &W{Dir: filepath.Join(j.Base, strconv.Itoa(i))}
		os.MkdirAll(w.Dir, 0o755)
		w.begin()
		s.Stages[j.Stage].Run(w)
		r := w.finish()
		if err := enc.Encode(&r); err != nil {
			panic(err)
		}
	}
	real.Close()
}

type failure struct {
	Idx      int
	Key, Msg string
	Desc     string
}

type stats struct {
	sync.Mutex
	scenarios, stages, procs, calls int
	states                          map[[32]byte]struct{}
	outcomes                        map[string]int
	samples                         []string
}

// runChunk runs all stages of the given scenarios and checks them.
func runChunk(id, tier, base string, idx []int, st *stats) ([]failure, error) {
	want := map[int]bool{}
	for _, i := range idx {
		want[i] = true
	}
	scns := build(id, tier, want)
	results := map[int][]StageResult{}
	maxStages := 0
	for _, s := range scns {
		maxStages = max(maxStages, len(s.Stages))
	}
	dir, err := os.MkdirTemp(base, "c")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	procs := 0
	for s := 0; s < maxStages; s++ {
		groups := map[Mode][]int{}
		for _, i := range idx {
			if s < len(scns[i].Stages) {
				groups[scns[i].Stages[s].Mode] = append(groups[scns[i].Stages[s].Mode], i)
			}
		}
		modes := make([]Mode, 0, len(groups))
		for m := range groups {
			modes = append(modes, m)
		}
		sort.Slice(modes, func(a, b int) bool { return modes[a].String() < modes[b].String() })
		for _, m := range modes {
			todo := groups[m]
			for len(todo) > 0 {
				procs++
				in, _ := json.Marshal(job{id, tier, dir, s, todo})
				cmd := exec.Command(os.Args[0])
				cmd.Env = append(m.Env(), "MC_ROLE=worker")
				cmd.Dir = dir
				cmd.Stdin = bytes.NewReader(in)
				var out, errb bytes.Buffer
				cmd.Stdout, cmd.Stderr = &out, &errb
				err := runTimeout(cmd, 120*time.Second)
				dec := gob.NewDecoder(&out)
				n := 0
				for n < len(todo) {
					var r StageResult
					if dec.Decode(&r) != nil {
						break
					}
					results[todo[n]] = append(results[todo[n]], r)
					n++
				}
				if n < len(todo) {
					// the worker died in scenario todo[n]: keep the evidence, go on behind it
					results[todo[n]] = append(results[todo[n]], StageResult{
						Died: fmt.Sprintf("process died: %v %s", err, tail(errb.String(), 1500))})
					n++
				}
				todo = todo[n:]
			}
		}
	}
	var fails []failure
	for _, i := range idx {
		s := scns[i]
		r := results[i]
		fail := func(key, format string, args ...any) {
			fails = append(fails, failure{i, key, fmt.Sprintf(format, args...), s.Desc})
		}
		died := false
		for n, x := range r {
			if x.Died != "" {
				fail("died", "stage %d: %s", n, x.Died)
				died = true
			}
			for k, c := range x.Calls {
				if strings.HasPrefix(c.Panic, "signal outside") || strings.HasPrefix(c.Panic, "files written outside") {
					fail("outside", "stage %d call %d: %s", n, k, c.Panic)
					died = true
				}
			}
		}
		if !died {
			s.Check(r, fail)
		}
	}
	if st != nil {
		st.Lock()
		st.procs += procs
		for _, i := range idx {
			st.scenarios++
			for _, x := range results[i] {
				st.stages++
				st.calls += len(x.Calls)
				st.states[x.Before.Hash()] = struct{}{}
				for _, c := range x.Calls {
					st.outcomes[c.Outcome()[:min(6, len(c.Outcome()))]]++
					if c.FS != nil {
						st.states[c.FS.Hash()] = struct{}{}
					}
				}
			}
		}
		st.Unlock()
	}
	return fails, nil
}

func runTimeout(cmd *exec.Cmd, d time.Duration) error {
	if err := cmd.Start(); err != nil {
		return err
	}
	t := time.AfterFunc(d, func() { cmd.Process.Kill() })
	defer t.Stop()
	return cmd.Wait()
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

type knownFinding struct{ Property, Key, What string }

func loadKnown(path, id string) (out []knownFinding) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=<id> key=<key> <what>
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 3)
		if len(f) == 3 && f[0] == "property="+id {
			out = append(out, knownFinding{id, strings.TrimPrefix(f[1], "key="), f[2]})
		}
	}
	return
}

// part is what one engine hands to the top-level script.
type part struct {
	Engine      string         `json:"engine"`
	Exhaustive  bool           `json:"exhaustive"`
	Histories   int            `json:"histories"`
	Processes   int            `json:"processes"`
	States      int            `json:"states"`
	Transitions int            `json:"transitions"`
	Outcomes    map[string]int `json:"outcomes"`
	Rule        string         `json:"rule"`
	Assume      []string       `json:"assumptions"`
	Samples     []string       `json:"samples"`
	Violations  []string       `json:"violations"`
	Known       []string       `json:"known"`
	Unconfirmed []string       `json:"unconfirmed"`
	Wall        float64        `json:"wall_s"`
}

func runDriver() int {
	start := time.Now()
	id, tier := os.Getenv("MC_PROP"), os.Getenv("MC_TIER")
	base, outp := os.Getenv("MC_BASE"), os.Getenv("MC_OUT")
	known := loadKnown(os.Getenv("MC_KNOWN"), id)
	limit := 200 * time.Second
	if tier == "thorough" {
		limit = 780 * time.Second
	}
	if v, err := strconv.Atoi(os.Getenv("MC_LIMIT")); err == nil && v > 0 {
		limit = time.Duration(v) * time.Second
	}
	p := properties[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", id)
		return 2
	}
	total := count(id, tier)
	if os.Getenv("MC_TIMES") != "" {
		fmt.Fprintf(os.Stderr, "enumeration of %d takes %v\n", total, time.Since(start))
	}
	var only []int
	if s := os.Getenv("MC_ONLY"); s != "" {
		for _, f := range strings.Split(s, ",") {
			n, _ := strconv.Atoi(f)
			only = append(only, n)
		}
	}
	chunk := 400
	if v, err := strconv.Atoi(os.Getenv("MC_CHUNK")); err == nil && v > 0 {
		chunk = v
	}
	chunk = max(1, min(chunk, total/(10*runtime.NumCPU())+1))
	var chunks [][]int
	if only != nil {
		chunks = [][]int{only}
	} else {
		// the size scenarios (at the end of the enumeration) are heavy: spread, and first
		base := countBase(id, tier)
		if n := (total - base + 7) / 8; n > 0 {
			for k := 0; k < n; k++ {
				var c []int
				for j := base + k; j < total; j += n {
					c = append(c, j)
				}
				chunks = append(chunks, c)
			}
		}
		for lo := 0; lo < base; lo += chunk {
			var c []int
			for i := lo; i < min(lo+chunk, base); i++ {
				c = append(c, i)
			}
			chunks = append(chunks, c)
		}
	}
	st := &stats{states: map[[32]byte]struct{}{}, outcomes: map[string]int{}}
	var mu sync.Mutex
	type cf struct {
		failure
		chunk []int
	}
	var fails []cf
	exhaustive := true
	next := 0
	var wg sync.WaitGroup
	for k := 0; k < runtime.NumCPU(); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if next >= len(chunks) || len(fails) > 400 {
					mu.Unlock()
					return
				}
				if time.Since(start) > limit {
					exhaustive = false
					mu.Unlock()
					return
				}
				c := chunks[next]
				next++
				mu.Unlock()
				t0 := time.Now()
				f, err := runChunk(id, tier, base, c, st)
				if os.Getenv("MC_TIMES") != "" {
					fmt.Fprintf(os.Stderr, "%8.2f %d-%d %.80s\n", time.Since(t0).Seconds(), c[0], c[len(c)-1], build(id, tier, map[int]bool{c[0]: true})[c[0]].Desc)
				}
				if err != nil {
					fmt.Fprintln(os.Stderr, "driver error:", err)
					os.Exit(3)
				}
				mu.Lock()
				for _, x := range f {
					fails = append(fails, cf{x, c})
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	pt := part{Engine: "E1", Exhaustive: exhaustive && len(fails) <= 400, Histories: st.scenarios, Processes: st.procs,
		States: len(st.states), Transitions: st.calls, Outcomes: st.outcomes, Rule: p.Rule + scaleRule[id], Assume: p.Assume}
	// sample descriptions
	for _, i := range []int{0, total / 3, 2 * total / 3, total - 1} {
		if i >= 0 && i < total {
			if s := build(id, tier, map[int]bool{i: true})[i]; s != nil {
				pt.Samples = append(pt.Samples, s.Desc)
			}
		}
	}
	sort.Slice(fails, func(a, b int) bool { return fails[a].Idx < fails[b].Idx })
	seenKnown := map[string]bool{}
	confirmedIdx := map[int]bool{}
	for _, f := range fails {
		isKnown := false
		for _, k := range known {
			if f.Key == k.Key {
				isKnown = true
				if !seenKnown[k.Key] {
					seenKnown[k.Key] = true
					pt.Known = append(pt.Known, k.What)
				}
			}
		}
		if isKnown || confirmedIdx[f.Idx] || len(confirmedIdx) >= 5 {
			continue
		}
		// confirm in fresh processes: alone, then with its chunk
		confirmed, how := 0, "alone"
		for k := 0; k < 3; k++ {
			if has(runChunkQuiet(id, tier, base, []int{f.Idx}), f.Key, f.Idx) {
				confirmed++
			}
		}
		if confirmed == 0 {
			confirmed, how = 0, "only after the preceding histories of its batch"
			for k := 0; k < 3; k++ {
				if has(runChunkQuiet(id, tier, base, f.chunk), f.Key, f.Idx) {
					confirmed++
				}
			}
		}
		line := fmt.Sprintf("history %d (%s; reproduced %s): %s\n    %s", f.Idx, f.Key, how, f.Desc, f.Msg)
		if confirmed > 0 {
			confirmedIdx[f.Idx] = true
			pt.Violations = append(pt.Violations, line)
		} else {
			pt.Unconfirmed = append(pt.Unconfirmed, line)
		}
	}
	pt.Wall = time.Since(start).Seconds()
	b, _ := json.MarshalIndent(pt, "", " ")
	if err := os.WriteFile(outp, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	return 0
}

func runChunkQuiet(id, tier, base string, idx []int) []failure {
	f, _ := runChunk(id, tier, base, idx, nil)
	return f
}

func has(fs []failure, key string, idx int) bool {
	for _, f := range fs {
		if f.Key == key && f.Idx == idx {
			return true
		}
	}
	return false
}

// Main is called from TestMain (in a *_test.go file).
func Main() {
	if os.Getenv("MC_ROLE") == "worker" {
		runWorker()
		os.Exit(0)
	}
	os.Exit(runDriver())
}
