// Command e4 is the location explorer: every history runs real test binaries
// whose calls of the library are made through a given call shape (helpers in
// test and other files, closures, subtests, goroutines, ...), from packages at
// given places of a module, built and started in given ways.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type Emit func(desc string, run func(r *R))

type Property struct {
	ID     string
	Enum   func(tier string, emit Emit)
	Rule   string
	Assume []string
	Spread bool // every history runs in one of the layouts only
}

var properties = map[string]*Property{}

func register(p *Property) { properties[p.ID] = p }

type history struct {
	desc string
	run  func(r *R)
}

type failure struct {
	idx      int
	key, msg string
}

type stats struct {
	sync.Mutex
	hist, procs, trans int
	states             map[[32]byte]struct{}
	outcomes           map[string]int
}

type Layout struct {
	Idx      int
	Dir, Pkg string
}

// Conf is written by engines.py.
type Conf struct {
	Base    string // scratch directory
	Root    string // module directory
	Root2   string // a copy of it for go test
	Layouts []Layout
	Bins    map[string][]string // build mode -> test binary per layout
	Go      string
	Env     []string
	User    int
}

var conf Conf

// R runs one history in one layout.
type R struct {
	L     Layout
	Dir   string // package directory
	Lib   string
	Tmp   string
	fails []failure
	idx   int
	st    *stats
	trace []string
	tier  string
}

func (r *R) Fail(key, format string, args ...any) {
	r.fails = append(r.fails, failure{r.idx, key, fmt.Sprintf(format, args...) + "\n    package directory " + r.Dir + "\n    runs so far: " + strings.Join(r.trace, " ; ")})
}

var upRe = regexp.MustCompile(`^up\d+$`)

var initial = map[string]bool{}

func remember() {
	for _, root := range []string{conf.Root, conf.Root2} {
		filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
			initial[p] = true
			return nil
		})
	}
}

func (r *R) up() string { return filepath.Join(filepath.Dir(r.Dir), "up"+strconv.Itoa(r.L.Idx)) }

func (r *R) roots() []string { return []string{r.Dir, r.Lib, r.Tmp, r.up()} }

// walk visits everything that is not a part of the module's sources.
func (r *R) walk(f func(p string, d fs.DirEntry)) {
	for _, root := range r.roots() {
		filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
			if err != nil || p == root {
				return nil
			}
			if p != r.up() && root != r.Tmp && upRe.MatchString(filepath.Base(p)) {
				return filepath.SkipDir // of another package
			}
			if initial[p] {
				if d.IsDir() {
					return filepath.SkipDir
				}
				return nil
			}
			f(p, d)
			return nil
		})
	}
}

func (r *R) Reset() {
	for _, root := range r.roots() {
		if root == r.up() || root == r.Tmp {
			os.RemoveAll(root)
			continue
		}
		es, _ := os.ReadDir(root)
		for _, e := range es {
			if p := filepath.Join(root, e.Name()); !initial[p] && !upRe.MatchString(e.Name()) {
				os.RemoveAll(p)
			}
		}
	}
	for _, d := range []string{r.Tmp, r.Tmp + "/cwd", r.Tmp + "/cwd/deep"} {
		os.MkdirAll(d, 0o755)
		os.Chown(d, conf.User, conf.User)
	}
}

// Scan maps absolute paths to contents.
func (r *R) Scan() map[string]string {
	s := map[string]string{}
	r.walk(func(p string, d fs.DirEntry) {
		if d.IsDir() || strings.HasPrefix(p, r.Tmp+"/mc-") {
			return
		}
		b, _ := os.ReadFile(p)
		s[p] = string(b)
	})
	return s
}

// Run is one execution of the test binary.
type Run struct {
	Mode   string // build
	Env    []string
	CI     bool
	Cwd    string
	Update string
	Clean  bool
	Sort   bool
	Bump   bool // other values
}

func (x Run) String() string {
	return fmt.Sprintf("{build=%s env=%v CI=%v UPDATE_SNAPS=%q cwd=%q clean=%v values=%v}", x.Mode, x.Env, x.CI, x.Update, x.Cwd, x.Clean, map[bool]string{true: "other"}[x.Bump])
}

type Result struct {
	RC  int
	Out string
	FS  map[string]string
}

func (r *R) path(s string) string {
	return strings.NewReplacer("{TMP}", r.Tmp, "{PKG}", r.Dir, "{L}", strconv.Itoa(r.L.Idx)).Replace(s)
}

// Spec writes the program for the test process and gives the flags to run it.
func (r *R) Spec(x Run, p Prog) (sf string, args []string, n int) {
	type spec struct {
		Cfgs        []Cfg
		Shared      bool
		Tests       map[string][]Step
		Clean, Sort bool
	}
	sp := spec{Shared: p.Shared, Tests: map[string][]Step{}, Clean: x.Clean, Sort: x.Sort}
	for _, c := range p.Cfgs {
		c.Dir = r.path(c.Dir)
		sp.Cfgs = append(sp.Cfgs, c)
	}
	var names []string
	bench := false
	for _, t := range p.Tests {
		var ss []Step
		for _, s := range t.Steps {
			n++
			s.I = n
			s.Val = value(n, x.Bump)
			s.Chdir = r.path(s.Chdir)
			ss = append(ss, s)
		}
		sp.Tests[t.Name] = ss
		names = append(names, t.Name)
		bench = bench || strings.HasPrefix(t.Name, "Benchmark")
	}
	b, _ := json.Marshal(sp)
	sf = filepath.Join(r.Tmp, "mc-spec.json")
	os.WriteFile(sf, b, 0o644)
	args = []string{"-test.run=^(" + strings.Join(names, "|") + ")$"}
	if bench {
		args = append(args, "-test.bench=^("+strings.Join(names, "|")+")$", "-test.benchtime=1x")
	}
	return
}

func (r *R) Exec(x Run, p Prog) Result {
	sf, args, n := r.Spec(x, p)
	r.trace = append(r.trace, x.String())
	bin := conf.Bins[x.Mode]
	if bin == nil {
		panic("mode " + x.Mode)
	}
	cmd := exec.Command(bin[r.L.Idx], args...)
	cmd.Dir = r.Dir
	if x.Cwd != "" {
		cmd.Dir = r.path(x.Cwd)
	}
	cmd.Env = append([]string{"PATH=" + os.Getenv("PATH"), "HOME=/nonexistent", "LANG=C", "TMPDIR=" + r.Tmp, "MC_SPEC=" + sf, "NO_COLOR=1", "PWD=" + cmd.Dir, "GOTRACEBACK=single"}, x.Env...)
	if x.CI {
		cmd.Env = append(cmd.Env, "CI=true")
	}
	if x.Update != "" {
		cmd.Env = append(cmd.Env, "UPDATE_SNAPS="+x.Update)
	}
	if conf.User > 0 {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: uint32(conf.User), Gid: uint32(conf.User)}}
	}
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	err := cmd.Start()
	if err != nil {
		panic(err)
	}
	t := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	t.Stop()
	res := Result{Out: buf.String(), FS: r.Scan()}
	if err != nil {
		res.RC = 1
	}
	r.st.Lock()
	r.st.procs++
	r.st.trans += n
	j, _ := json.Marshal(res.FS)
	r.st.states[sha256.Sum256(j)] = struct{}{}
	r.st.outcomes["rc"+strconv.Itoa(res.RC)]++
	r.st.Unlock()
	return res
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

type part struct {
	Engine      string         `json:"engine"`
	Exhaustive  bool           `json:"exhaustive"`
	Histories   int            `json:"histories"`
	Processes   int            `json:"processes"`
	States      int            `json:"states"`
	Transitions int            `json:"transitions"`
	Outcomes    map[string]int `json:"outcomes"`
	Rule        string         `json:"rule"`
	Assume      []string       `json:"assumptions"`
	Samples     []string       `json:"samples"`
	Violations  []string       `json:"violations"`
	Known       []string       `json:"known"`
	Unconfirmed []string       `json:"unconfirmed"`
	Wall        float64        `json:"wall_s"`
}

type known struct{ key, what string }

func loadKnown(path, id string) (out []known) {
	b, _ := os.ReadFile(path)
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 3)
		if len(f) == 3 && f[0] == "property="+id {
			out = append(out, known{strings.TrimPrefix(f[1], "key="), f[2]})
		}
	}
	return
}

func runHistory(h history, i int, l Layout, st *stats) []failure {
	r := newR(conf.Root, "tmp", i, l, st)
	r.Reset()
	h.run(r)
	r.Reset()
	return r.fails
}

func newR(root, tmp string, i int, l Layout, st *stats) *R {
	return &R{L: l, Dir: filepath.Join(root, l.Dir), Lib: filepath.Join(root, fmt.Sprintf("lib%d", l.Idx)), Tmp: filepath.Join(conf.Base, fmt.Sprintf("%s%d", tmp, l.Idx)), idx: i, st: st}
}

func main() {
	if len(os.Args) > 2 && os.Args[1] == "drop" {
		drop()
	}
	start := time.Now()
	id, tier := os.Getenv("MC_PROP"), os.Getenv("MC_TIER")
	b, err := os.ReadFile(filepath.Join(os.Getenv("MC_BIN"), "conf.json"))
	if err == nil {
		err = json.Unmarshal(b, &conf)
	}
	if err != nil {
		panic(err)
	}
	remember()
	limit := 200 * time.Second
	if tier == "thorough" {
		limit = 780 * time.Second
	}
	if v, err := strconv.Atoi(os.Getenv("MC_LIMIT")); err == nil && v > 0 {
		limit = time.Duration(v) * time.Second
	}
	p := properties[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", id)
		os.Exit(2)
	}
	var hs []history
	p.Enum(tier, func(d string, run func(r *R)) { hs = append(hs, history{d, run}) })
	nl := len(conf.Layouts)
	todo := map[int][]int{}
	for i := range hs {
		for l := 0; l < nl; l++ {
			if p.Spread && i%nl != l {
				continue
			}
			todo[l] = append(todo[l], i*nl+l)
		}
	}
	if s := os.Getenv("MC_ONLY"); s != "" {
		todo = map[int][]int{}
		for _, f := range strings.Split(s, ",") {
			n, _ := strconv.Atoi(f)
			todo[n%nl] = append(todo[n%nl], n)
		}
	}
	kn := loadKnown(os.Getenv("MC_KNOWN"), id)
	isKnown := func(f failure) (string, bool) {
		for _, k := range kn {
			if k.key == f.key {
				return k.what, true
			}
		}
		return "", false
	}
	st := &stats{states: map[[32]byte]struct{}{}, outcomes: map[string]int{}}
	pt := part{Engine: "E4", Rule: p.Rule, Assume: p.Assume, Exhaustive: true}
	var mu sync.Mutex
	var fails []failure
	seen := map[string]bool{}
	bad := 0
	sem := make(chan struct{}, max(2, runtime.NumCPU()))
	var wg sync.WaitGroup
	for l := 0; l < nl; l++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, i := range todo[l] {
				mu.Lock()
				if bad > 60 || time.Since(start) > limit {
					pt.Exhaustive = false
					mu.Unlock()
					return
				}
				mu.Unlock()
				sem <- struct{}{}
				fs := runHistory(hs[i/nl], i, conf.Layouts[l], st)
				<-sem
				mu.Lock()
				pt.Histories++
				for _, f := range fs {
					if what, ok := isKnown(f); ok {
						if !seen[what] {
							seen[what] = true
							pt.Known = append(pt.Known, what)
						}
						continue
					}
					bad++
					fails = append(fails, f)
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	sort.SliceStable(fails, func(a, b int) bool { return fails[a].idx < fails[b].idx })
	done := map[int]bool{}
	for _, f := range fails {
		if done[f.idx] || len(done) >= 5 {
			continue
		}
		done[f.idx] = true
		n := 0
		for k := 0; k < 6; k++ {
			for _, g := range runHistory(hs[f.idx/nl], f.idx, conf.Layouts[f.idx%nl], st) {
				if g.key == f.key {
					n++
					break
				}
			}
		}
		line := fmt.Sprintf("history %d (%s): package %q: %s\n    %s", f.idx, f.key, conf.Layouts[f.idx%nl].Dir, hs[f.idx/nl].desc, f.msg)
		if n > 0 {
			pt.Violations = append(pt.Violations, line)
		} else {
			pt.Unconfirmed = append(pt.Unconfirmed, fmt.Sprintf("(%d of 6) ", n)+line)
		}
	}
	for _, k := range []int{0, len(hs) / 3, 2 * len(hs) / 3, len(hs) - 1} {
		if k >= 0 && k < len(hs) {
			pt.Samples = append(pt.Samples, hs[k].desc)
		}
	}
	sort.Strings(pt.Known)
	pt.Processes, pt.Transitions, pt.States, pt.Outcomes = st.procs, st.trans, len(st.states), st.outcomes
	pt.Wall = time.Since(start).Seconds()
	b, _ = json.MarshalIndent(pt, "", " ")
	if err := os.WriteFile(os.Getenv("MC_OUT"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

// drop runs a test binary of `go test -exec` without privileges.
func drop() {
	bin := os.Args[2]
	// go test builds it in a directory of its own
	if d := os.Getenv("MC_DROP"); d != "" {
		b, err := os.ReadFile(bin)
		if err != nil {
			panic(err)
		}
		bin = filepath.Join(d, fmt.Sprintf("drop%d.test", os.Getpid()))
		if err := os.WriteFile(bin, b, 0o755); err != nil {
			panic(err)
		}
	}
	u, _ := strconv.Atoi(os.Getenv("MC_USER"))
	if u > 0 {
		syscall.Setgroups(nil)
		if err := syscall.Setgid(u); err != nil {
			panic(err)
		}
		if err := syscall.Setuid(u); err != nil {
			panic(err)
		}
	}
	panic(syscall.Exec(bin, os.Args[2:], os.Environ()))
}
