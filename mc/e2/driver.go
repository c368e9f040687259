// Command e2 is the run explorer: every history is a list of runs of a real
// test binary (one process each) of a test program given by a spec, with real
// flags and environment, followed by snaps.Clean; directories are captured
// before, between and after.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Emit func(desc string, run func(r *R))

type Property struct {
	ID     string
	Enum   func(tier string, emit Emit)
	Rule   string
	Assume []string
	Keys   []string // failure keys of the common model this property reports (nil: all)
}

var properties = map[string]*Property{}

func register(p *Property) { properties[p.ID] = p }

type history struct {
	desc string
	run  func(r *R)
}

type failure struct {
	idx      int
	key, msg string
}

type stats struct {
	sync.Mutex
	hist, procs, trans int
	states             map[[32]byte]struct{}
	outcomes           map[string]int
}

// R runs one history in a worker directory.
type R struct {
	Root   string // package directory of the worker (source files, snapshot directories)
	Tmp    string
	Bin    string
	prop   *Property
	fails  []failure
	idx    int
	st     *stats
	trace  []string
	broken bool
}

func (r *R) Fail(key, format string, args ...any) {
	if r.prop != nil && r.prop.Keys != nil && os.Getenv("MC_ALLKEYS") == "" {
		ok := false
		for _, k := range r.prop.Keys {
			if k == key || strings.HasSuffix(k, "*") && strings.HasPrefix(key, strings.TrimSuffix(k, "*")) {
				ok = true
			}
		}
		if !ok {
			return
		}
	}
	r.fails = append(r.fails, failure{r.idx, key, fmt.Sprintf(format, args...) + "\n    runs so far: " + strings.Join(r.trace, " ; ")})
}

func goFile(rel string) bool {
	return !strings.Contains(rel, "/") && strings.HasSuffix(rel, ".go")
}

// Reset removes everything but the sources.
func (r *R) Reset() {
	es, _ := os.ReadDir(r.Root)
	for _, e := range es {
		if !goFile(e.Name()) {
			os.RemoveAll(filepath.Join(r.Root, e.Name()))
		}
	}
}

func (r *R) Put(rel, data string) {
	p := filepath.Join(r.Root, rel)
	os.MkdirAll(filepath.Dir(p), 0o755)
	if err := os.WriteFile(p, []byte(data), 0o644); err != nil {
		panic(err)
	}
	os.Chtimes(p, ancient, ancient)
}

func (r *R) Symlink(rel, to string) { os.Symlink(to, filepath.Join(r.Root, rel)) }

func (r *R) Mkdir(rel string) { os.MkdirAll(filepath.Join(r.Root, rel), 0o755) }
func (r *R) Remove(rel string) {
	if rel == "" || strings.Contains(rel, "..") {
		panic(rel)
	}
	os.RemoveAll(filepath.Join(r.Root, rel))
}

func (r *R) Get(rel string) (string, bool) {
	b, err := os.ReadFile(filepath.Join(r.Root, rel))
	return string(b), err == nil
}

type Snap map[string]File

func (r *R) Scan() Snap {
	s := Snap{}
	filepath.WalkDir(r.Root, func(p string, d fs.DirEntry, err error) error {
		if err != nil || p == r.Root {
			return nil
		}
		rel, _ := filepath.Rel(r.Root, p)
		if goFile(rel) {
			return nil
		}
		if d.IsDir() {
			s[rel] = File{Dir: true}
			return nil
		}
		b, _ := os.ReadFile(p)
		s[rel] = File{Data: string(b)}
		return nil
	})
	return s
}

// Env is the environment and flags of one run.
type Env struct {
	CI     bool
	Update string
	Color  bool
	CIVar  string // how CI shows (default CI=true)
	Flags  []string
}

func (e Env) String() string {
	return fmt.Sprintf("{CI=%v%s UPDATE_SNAPS=%q %s}", e.CI, e.CIVar, e.Update, strings.Join(e.Flags, " "))
}

func (e Env) Run() string {
	for _, f := range e.Flags {
		if strings.HasPrefix(f, "-test.run=") {
			return strings.TrimPrefix(f, "-test.run=")
		}
	}
	return ""
}

type Out struct {
	Env    Env
	Spec   Spec
	RC     int
	Output string
	Before Snap
	Log    Log
	LateOK bool // calls made in cleanups keep their ordinals
}

// Run executes the program once.
func (r *R) Run(env Env, spec Spec) *Out {
	spec.Root = r.Root
	spec.Out = filepath.Join(r.Tmp, "out.json")
	if spec.Cleans == 0 {
		spec.Cleans = 1
	}
	if spec.Cleans < 0 {
		spec.Cleans = 0
	}
	os.Remove(spec.Out)
	sp := filepath.Join(r.Tmp, "spec.json")
	b, _ := json.Marshal(spec)
	os.WriteFile(sp, b, 0o644)
	o := &Out{Env: env, Spec: spec, Before: r.Scan()}
	r.trace = append(r.trace, fmt.Sprintf("%v sort=%v %s", env, spec.Sort, spec.Brief()))
	cmd := exec.Command(r.Bin, env.Flags...)
	cmd.Dir = r.Root
	cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=/nonexistent", "LANG=C", "TMPDIR=" + r.Tmp, "MC_SPEC=" + sp, "GOTRACEBACK=single"}
	if env.CIVar != "" {
		cmd.Env = append(cmd.Env, env.CIVar)
	} else if env.CI {
		cmd.Env = append(cmd.Env, "CI=true")
	}
	if env.Update != "" {
		cmd.Env = append(cmd.Env, "UPDATE_SNAPS="+env.Update)
	}
	if !env.Color {
		cmd.Env = append(cmd.Env, "NO_COLOR=1")
	}
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	err := cmd.Start()
	if err == nil {
		t := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
		err = cmd.Wait()
		t.Stop()
	}
	o.Output = buf.String()
	if err != nil {
		o.RC = 1
	}
	b, e := os.ReadFile(spec.Out)
	if e == nil {
		e = json.Unmarshal(b, &o.Log)
	}
	if e != nil {
		r.broken = true
		r.fails = append(r.fails, failure{r.idx, "died", fmt.Sprintf("the test process died (%v): %s\n    runs so far: %s", err, tail(o.Output, 1500), strings.Join(r.trace, " ; "))})
		panic(stop{})
	}
	r.st.Lock()
	r.st.procs++
	r.st.trans += len(o.Log.Calls) + len(o.Log.Cleans)
	r.st.states[hash(o.Log.PreFS)] = struct{}{}
	for _, c := range o.Log.Cleans {
		r.st.states[hash(c.FS)] = struct{}{}
	}
	for _, c := range o.Log.Calls {
		k := c.Outcome()
		r.st.outcomes[k[:min(6, len(k))]]++
	}
	r.st.Unlock()
	return o
}

type stop struct{}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

type part struct {
	Engine      string         `json:"engine"`
	Exhaustive  bool           `json:"exhaustive"`
	Histories   int            `json:"histories"`
	Processes   int            `json:"processes"`
	States      int            `json:"states"`
	Transitions int            `json:"transitions"`
	Outcomes    map[string]int `json:"outcomes"`
	Rule        string         `json:"rule"`
	Assume      []string       `json:"assumptions"`
	Samples     []string       `json:"samples"`
	Violations  []string       `json:"violations"`
	Known       []string       `json:"known"`
	Unconfirmed []string       `json:"unconfirmed"`
	Wall        float64        `json:"wall_s"`
}

type known struct{ key, what string }

func loadKnown(path, id string) (out []known) {
	b, _ := os.ReadFile(path)
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 3)
		if len(f) == 3 && f[0] == "property="+id {
			out = append(out, known{strings.TrimPrefix(f[1], "key="), f[2]})
		}
	}
	return
}

func runHistory(p *Property, h history, i, worker int, base string, st *stats) []failure {
	r := &R{Root: filepath.Join(base, fmt.Sprintf("w%d", worker)), Tmp: filepath.Join(base, fmt.Sprintf("tmp%d", worker)), Bin: filepath.Join(base, fmt.Sprintf("w%d.test", worker)), prop: p, idx: i, st: st}
	os.MkdirAll(r.Tmp, 0o755)
	r.Reset()
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(stop); !ok {
					panic(e)
				}
			}
		}()
		h.run(r)
	}()
	r.Reset()
	return r.fails
}

func main() {
	start := time.Now()
	id, tier := os.Getenv("MC_PROP"), os.Getenv("MC_TIER")
	base := os.Getenv("MC_BIN") // directory with w0..w7
	limit := 200 * time.Second
	if tier == "thorough" {
		limit = 780 * time.Second
	}
	if v, err := strconv.Atoi(os.Getenv("MC_LIMIT")); err == nil && v > 0 {
		limit = time.Duration(v) * time.Second
	}
	p := properties[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", id)
		os.Exit(2)
	}
	var hs []history
	p.Enum(tier, func(d string, run func(r *R)) { hs = append(hs, history{d, run}) })
	rule := p.Rule
	if sized[id] {
		sizeHistories(tier, func(d string, run func(r *R)) { hs = append(hs, history{d, run}) })
		rule += sizesRule
	}
	todo := make([]int, len(hs))
	for i := range todo {
		todo[i] = i
	}
	if s := os.Getenv("MC_ONLY"); s != "" {
		todo = nil
		for _, f := range strings.Split(s, ",") {
			n, _ := strconv.Atoi(f)
			todo = append(todo, n)
		}
	}
	kn := loadKnown(os.Getenv("MC_KNOWN"), id)
	isKnown := func(f failure) (string, bool) {
		for _, k := range kn {
			if k.key == f.key {
				return k.what, true
			}
		}
		return "", false
	}
	st := &stats{states: map[[32]byte]struct{}{}, outcomes: map[string]int{}}
	workers := runtime.NumCPU()
	if n, err := strconv.Atoi(os.Getenv("MC_WORKERS")); err == nil && n > 0 {
		workers = n
	}
	pt := part{Engine: "E2", Rule: rule, Assume: p.Assume, Exhaustive: true}
	var mu sync.Mutex
	var fails []failure
	seen := map[string]bool{}
	next, bad := 0, 0
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if next >= len(todo) || bad > 60 {
					pt.Exhaustive = pt.Exhaustive && next >= len(todo)
					mu.Unlock()
					return
				}
				if time.Since(start) > limit {
					pt.Exhaustive = false
					mu.Unlock()
					return
				}
				i := todo[next]
				next++
				mu.Unlock()
				fs := runHistory(p, hs[i], i, w, base, st)
				mu.Lock()
				pt.Histories++
				for _, f := range fs {
					if what, ok := isKnown(f); ok {
						if !seen[what] {
							seen[what] = true
							pt.Known = append(pt.Known, what)
						}
						continue
					}
					bad++
					fails = append(fails, f)
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	sort.SliceStable(fails, func(a, b int) bool { return fails[a].idx < fails[b].idx })
	done := map[int]bool{}
	for _, f := range fails {
		if done[f.idx] || len(done) >= 5 {
			continue
		}
		done[f.idx] = true
		n := 0
		for k := 0; k < 6; k++ {
			for _, g := range runHistory(p, hs[f.idx], f.idx, 0, base, st) {
				if g.key == f.key {
					n++
					break
				}
			}
		}
		line := fmt.Sprintf("history %d (%s): %s\n    %s", f.idx, f.key, hs[f.idx].desc, f.msg)
		if n > 0 {
			pt.Violations = append(pt.Violations, line)
		} else {
			pt.Unconfirmed = append(pt.Unconfirmed, fmt.Sprintf("(%d of 6) ", n)+line)
		}
	}
	for _, k := range []int{0, len(hs) / 3, 2 * len(hs) / 3, len(hs) - 1} {
		if k >= 0 && k < len(hs) {
			pt.Samples = append(pt.Samples, hs[k].desc)
		}
	}
	pt.Processes, pt.Transitions, pt.States, pt.Outcomes = st.procs, st.trans, len(st.states), st.outcomes
	pt.Wall = time.Since(start).Seconds()
	b, _ := json.MarshalIndent(pt, "", " ")
	if err := os.WriteFile(os.Getenv("MC_OUT"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}
