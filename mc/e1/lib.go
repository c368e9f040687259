// Package e1 is the history explorer: every scenario is a list of stages
// (= test processes); each stage makes a sequence of Match* calls through a
// recording testingT, with the snapshot directory captured around every call.
package e1

import (
	"crypto/sha256"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"testing"
	"time"
)

// Mode is the environment of one test process.
type Mode struct {
	CI      bool
	Update  string // "" (unset), or the value of UPDATE_SNAPS
	NoColor bool
}

var (
	Off = Mode{NoColor: true}
	CIm = Mode{CI: true, NoColor: true}
	Upd = Mode{Update: "true", NoColor: true}
)

func (m Mode) String() string {
	return fmt.Sprintf("{CI:%v UPDATE_SNAPS:%q NO_COLOR:%v}", m.CI, m.Update, m.NoColor)
}

func (m Mode) Env() []string {
	env := []string{
		"PATH=" + os.Getenv("PATH"), "HOME=/nonexistent", "LANG=C", "TMPDIR=" + os.TempDir(),
		"GOTRACEBACK=single",
	}
	if m.CI {
		env = append(env, "CI=true")
	}
	if m.Update != "" {
		env = append(env, "UPDATE_SNAPS="+m.Update)
	}
	if m.NoColor {
		env = append(env, "NO_COLOR=1")
	}
	return env
}

type Stage struct {
	Mode Mode
	Run  func(w *W)
}

type Scenario struct {
	Desc   string
	Stages []Stage
	Check  func(r []StageResult, fail func(key, format string, args ...any))
}

type Ev struct {
	Kind string // error, log, skip
	Text string
}

type File struct {
	Data string
	Dir  bool
}

type Snap map[string]File

type Call struct {
	Test   string
	Events []Ev
	Panic  string
	Writes []string // created/modified/removed paths during the call
	FS     Snap     // state after the call; nil when unchanged
}

type StageResult struct {
	Before, After Snap
	Calls         []Call
	Notes         map[string]string
	Died          string
}

func (c *Call) Errors() (out []string) {
	for _, e := range c.Events {
		if e.Kind == "error" {
			out = append(out, e.Text)
		}
	}
	return
}

func (c *Call) Logs() (out []string) {
	for _, e := range c.Events {
		if e.Kind == "log" {
			out = append(out, e.Text)
		}
	}
	return
}

// Outcome classifies the call: passed, added, updated, failed or a description
// of an illegal combination of signals.
func (c *Call) Outcome() string {
	if c.Panic != "" {
		return "panic: " + c.Panic
	}
	e, l := c.Errors(), c.Logs()
	switch {
	case len(e) == 0 && len(l) == 0:
		return "passed"
	case len(e) == 1 && len(l) == 0:
		return "failed"
	case len(e) == 0 && len(l) == 1 && strings.Contains(l[0], "added"):
		return "added"
	case len(e) == 0 && len(l) == 1 && strings.Contains(l[0], "updated"):
		return "updated"
	}
	return fmt.Sprintf("illegal signals %q", c.Events)
}

// W is the worker side of one stage of one scenario.
type W struct {
	Dir  string // scratch root of the scenario; captured recursively
	res  StageResult
	cur  Snap
	call *Call
}

// S is the default absolute snapshot directory.
func (w *W) S() string { return filepath.Join(w.Dir, "s") }

var ancient = time.Unix(1000000000, 0)

func scan(root string) (Snap, map[string]bool) {
	s := Snap{}
	touched := map[string]bool{}
	filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil || p == root {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		i, err := os.Lstat(p)
		if err != nil {
			return nil
		}
		if i.ModTime() != ancient {
			touched[rel] = true
		}
		if d.IsDir() {
			s[rel] = File{Dir: true}
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			b = []byte("<unreadable: " + err.Error() + ">")
		}
		s[rel] = File{Data: string(b)}
		return nil
	})
	return s, touched
}

func freeze(root string, s Snap) {
	// deepest first so that a directory is frozen after its content
	keys := make([]string, 0, len(s))
	for k := range s {
		keys = append(keys, k)
	}
	sort.Sort(sort.Reverse(sort.StringSlice(keys)))
	for _, k := range keys {
		os.Chtimes(filepath.Join(root, k), ancient, ancient)
	}
}

// Diff returns the paths that differ between two captures.
func Diff(a, b Snap) (out []string) {
	for k, v := range a {
		if w, ok := b[k]; !ok {
			out = append(out, "-"+k)
		} else if v != w {
			out = append(out, "~"+k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			out = append(out, "+"+k)
		}
	}
	sort.Strings(out)
	return
}

func (w *W) begin() {
	w.cur, _ = scan(w.Dir)
	freeze(w.Dir, w.cur)
	w.res.Before = w.cur
	w.res.Notes = map[string]string{}
}

func (w *W) observe() (writes []string, changed bool) {
	n, touched := scan(w.Dir)
	writes = Diff(w.cur, n)
	changed = len(writes) > 0
	seen := map[string]bool{}
	for _, p := range writes {
		seen[p[1:]] = true
	}
	for p := range touched {
		if !seen[p] && !n[p].Dir {
			writes = append(writes, "="+p) // rewritten with the same bytes
		}
	}
	sort.Strings(writes)
	if len(writes) > 0 {
		freeze(w.Dir, n)
	}
	w.cur = n
	return
}

func (w *W) finish() StageResult {
	w.res.After = w.cur
	return w.res
}

func (w *W) Note(k, v string) { w.res.Notes[k] = v }

// Put writes a file of the scenario directly (pre-seeding, tampering).
func (w *W) Put(rel, data string) {
	p := filepath.Join(w.Dir, rel)
	os.MkdirAll(filepath.Dir(p), 0o755)
	if err := os.WriteFile(p, []byte(data), 0o644); err != nil {
		panic(err)
	}
	w.cur, _ = scan(w.Dir)
	freeze(w.Dir, w.cur)
	w.res.Before = w.cur
}

type skipSentinel struct{}

// T records every signal it receives. All methods of testing.TB are promoted
// from a nil interface so that only the overridden ones may be used.
type T struct {
	testing.TB
	w        *W
	name     string
	cleanups []func()
}

func (t *T) ev(k string, a ...any) {
	s := ""
	if len(a) == 1 {
		s = fmt.Sprint(a[0])
	} else {
		s = fmt.Sprintln(a...)
	}
	if t.w.call == nil {
		// a signal outside any call (e.g. from a cleanup)
		t.w.res.Calls = append(t.w.res.Calls, Call{Test: t.name, Panic: "signal outside a call: " + k + " " + s})
		return
	}
	t.w.call.Events = append(t.w.call.Events, Ev{k, s})
}

func (t *T) Helper()                   {}
func (t *T) Name() string              { return t.name }
func (t *T) Error(a ...any)            { t.ev("error", a...) }
func (t *T) Errorf(f string, a ...any) { t.ev("error", fmt.Sprintf(f, a...)) }
func (t *T) Fail()                     { t.ev("error", "Fail()") }
func (t *T) FailNow()                  { t.ev("error", "FailNow()"); panic(skipSentinel{}) }
func (t *T) Fatal(a ...any)            { t.ev("error", a...); panic(skipSentinel{}) }
func (t *T) Fatalf(f string, a ...any) { t.ev("error", fmt.Sprintf(f, a...)); panic(skipSentinel{}) }
func (t *T) Log(a ...any)              { t.ev("log", a...) }
func (t *T) Logf(f string, a ...any)   { t.ev("log", fmt.Sprintf(f, a...)) }
func (t *T) Skip(a ...any)             { t.ev("skip", a...); panic(skipSentinel{}) }
func (t *T) Skipf(f string, a ...any)  { t.ev("skip", fmt.Sprintf(f, a...)); panic(skipSentinel{}) }
func (t *T) SkipNow()                  { t.ev("skip", ""); panic(skipSentinel{}) }
func (t *T) Failed() bool              { return false }
func (t *T) Skipped() bool             { return false }
func (t *T) Cleanup(f func())          { t.cleanups = append(t.cleanups, f) }

// T starts an execution of the named test.
func (w *W) T(name string) *T { return &T{w: w, name: name} }

// Do performs one call and records everything it did.
func (w *W) Do(t *T, f func()) *Call {
	c := Call{Test: t.name}
	w.call = &c
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(skipSentinel); ok {
					return
				}
				c.Panic = fmt.Sprintf("%v", r)
				if os.Getenv("MC_STACK") != "" {
					c.Panic += "\n" + string(debug.Stack())
				}
			}
		}()
		f()
	}()
	w.call = nil
	var changed bool
	c.Writes, changed = w.observe()
	if changed {
		c.FS = w.cur
	}
	w.res.Calls = append(w.res.Calls, c)
	return &w.res.Calls[len(w.res.Calls)-1]
}

// End runs the cleanups of a test execution, last registered first.
func (w *W) End(t *T) {
	for len(t.cleanups) > 0 {
		f := t.cleanups[len(t.cleanups)-1]
		t.cleanups = t.cleanups[:len(t.cleanups)-1]
		f()
	}
	if wr, _ := w.observe(); len(wr) > 0 {
		w.res.Calls = append(w.res.Calls, Call{Test: t.name, Panic: fmt.Sprintf("files written outside any call: %q", wr)})
	}
}

// Test runs f as one execution of the named test.
func (w *W) Test(name string, f func(t *T)) {
	t := w.T(name)
	f(t)
	w.End(t)
}

// FSAt returns the state of the directory after call i.
func (r *StageResult) FSAt(i int) Snap {
	for ; i >= 0; i-- {
		if r.Calls[i].FS != nil {
			return r.Calls[i].FS
		}
	}
	return r.Before
}

func (s Snap) Hash() [32]byte {
	keys := make([]string, 0, len(s))
	for k := range s {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	h := sha256.New()
	for _, k := range keys {
		fmt.Fprintf(h, "%d:%s%d:%s", len(k), k, len(s[k].Data), s[k].Data)
	}
	var out [32]byte
	h.Sum(out[:0])
	return out
}

func (s Snap) Files() (out []string) {
	for k, v := range s {
		if !v.Dir {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return
}

func q(s string) string {
	if len(s) > 300 {
		return fmt.Sprintf("%q...(%d bytes)", s[:300], len(s))
	}
	return fmt.Sprintf("%q", s)
}
