package e3

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sync"
	"testing"

	"github.com/gkampitakis/go-snaps/match"
	"github.com/gkampitakis/go-snaps/snaps"
)

type Ev struct{ Kind, Text string }

// shared is what the goroutines of one test share.
type shared struct {
	mu       sync.Mutex
	name     string
	cleanups []func()
}

// T is one goroutine's view of a test.
type T struct {
	*shared
	ev []Ev
}

type skipped struct{}

func newT(name string) *T { return &T{shared: &shared{name: name}} }

func (t *T) Helper()      {}
func (t *T) Name() string { return t.name }
func (t *T) Skip(a ...any) {
	t.ev = append(t.ev, Ev{"skip", fmt.Sprint(a...)})
	panic(skipped{})
}
func (t *T) Skipf(f string, a ...any) {
	t.ev = append(t.ev, Ev{"skip", fmt.Sprintf(f, a...)})
	panic(skipped{})
}
func (t *T) SkipNow() {
	t.ev = append(t.ev, Ev{"skip", ""})
	panic(skipped{})
}
func (t *T) Error(a ...any) { t.ev = append(t.ev, Ev{"error", fmt.Sprint(a...)}) }
func (t *T) Log(a ...any)   { t.ev = append(t.ev, Ev{"log", fmt.Sprint(a...)}) }
func (t *T) Cleanup(f func()) {
	t.mu.Lock()
	t.cleanups = append(t.cleanups, f)
	t.mu.Unlock()
}

func (t *T) runCleanups() {
	for {
		t.mu.Lock()
		if len(t.cleanups) == 0 {
			t.mu.Unlock()
			return
		}
		f := t.cleanups[len(t.cleanups)-1]
		t.cleanups = t.cleanups[:len(t.cleanups)-1]
		t.mu.Unlock()
		f()
	}
}

// Cfg describes a Config; Pkg stands for the package-level functions.
type Cfg struct {
	Pkg      bool
	Dir      string // below the scratch directory
	Rel      bool   // Dir is given relative to this source file
	Filename string
	Ext      string
	Update   int // 1 Update(true), 2 Update(false)
	JSON     bool
}

func (c Cfg) build(root string) *snaps.Config {
	if c.Pkg {
		return nil
	}
	dir := filepath.Join(root, c.Dir)
	if c.Rel {
		_, src, _, _ := runtime.Caller(0)
		rel, err := filepath.Rel(filepath.Dir(src), dir)
		if err != nil {
			panic(err)
		}
		dir = rel
	}
	o := []func(*snaps.Config){snaps.Dir(dir)}
	if c.Filename != "" {
		o = append(o, snaps.Filename(c.Filename))
	}
	if c.Ext != "" {
		o = append(o, snaps.Ext(c.Ext))
	}
	if c.Update > 0 {
		o = append(o, snaps.Update(c.Update == 1))
	}
	if c.JSON {
		o = append(o, snaps.JSON(snaps.JSONConfig{Indent: "  ", SortKeys: true, Width: 40}))
	}
	return snaps.WithConfig(o...)
}

// Call is one call of a thread.
type Call struct {
	API  string
	Cfg  int
	Val  string
	Kind byte // a: missing, p: equal, m: different, u: different through an updating config, n: missing through Update(false), b: failing input, s: skip
}

func (c Call) String() string { return fmt.Sprintf("%c:%s/%d", c.Kind, c.API, c.Cfg) }

var (
	sharedAny       = match.Any("w").Placeholder("<w>")
	sharedType      = match.Type[string]("x")
	sharedCustom    = match.Custom("y", func(any) (any, error) { return "<y>", nil })
	sharedJSON      = []match.JSONMatcher{sharedAny, sharedType, sharedCustom}
	sharedYAML      = []match.YAMLMatcher{match.Any("$.w").Placeholder("<w>"), match.Type[string]("$.x"), match.Custom("$.y", func(any) (any, error) { return "<y>", nil })}
	sharedJSONBytes = []byte(`{"v":"const","w":[1,2],"x":"s","y":3}`)
	sharedYAMLBytes = []byte("v: const\nw: [1, 2]\nx: s\ny: 3\n")
)

// do makes the call; it is in a *_test.go file as a test's code would be.
func (c Call) do(cfg *snaps.Config, t *T, val string) {
	switch c.API {
	case "snap":
		if cfg == nil {
			snaps.MatchSnapshot(t, val)
		} else {
			cfg.MatchSnapshot(t, val)
		}
	case "snap2":
		if cfg == nil {
			snaps.MatchSnapshot(t, val, 1)
		} else {
			cfg.MatchSnapshot(t, val, 1)
		}
	case "json", "bjson":
		v := fmt.Sprintf(`{"v":%q,"w":[1,2]}`, val)
		if c.Kind == 'b' {
			v = "{" + val
		}
		var in any = v
		if c.API == "bjson" {
			in = []byte(v)
		}
		if cfg == nil {
			snaps.MatchJSON(t, in)
		} else {
			cfg.MatchJSON(t, in)
		}
	case "mjson":
		v := fmt.Sprintf(`{"v":%q,"w":[1,2]}`, val)
		p := "w"
		if c.Kind == 'b' {
			p = "nope"
		}
		if cfg == nil {
			snaps.MatchJSON(t, v, match.Any(p))
		} else {
			cfg.MatchJSON(t, v, match.Any(p))
		}
	case "yaml":
		v := "v: " + val + "\nw: [1, 2]\n"
		if c.Kind == 'b' {
			v = "v: [" + val
		}
		if cfg == nil {
			snaps.MatchYAML(t, v)
		} else {
			cfg.MatchYAML(t, v)
		}
	case "myaml":
		v := "v: " + val + "\nw: [1, 2]\n"
		p := "$.w"
		if c.Kind == 'b' {
			p = "$.nope"
		}
		if cfg == nil {
			snaps.MatchYAML(t, v, match.Any(p))
		} else {
			cfg.MatchYAML(t, v, match.Any(p))
		}
	case "gjson", "gsjson", "gyaml": // matchers shared by all goroutines
		v := fmt.Sprintf(`{"v":%q,"w":[1,2],"x":"s","y":3}`, val)
		switch {
		case c.API == "gyaml" && cfg == nil:
			snaps.MatchYAML(t, "v: "+val+"\nw: [1, 2]\nx: s\ny: 3\n", sharedYAML...)
		case c.API == "gyaml":
			cfg.MatchYAML(t, "v: "+val+"\nw: [1, 2]\nx: s\ny: 3\n", sharedYAML...)
		case c.API == "gjson" && cfg == nil:
			snaps.MatchJSON(t, v, sharedJSON...)
		case c.API == "gjson":
			cfg.MatchJSON(t, v, sharedJSON...)
		case cfg == nil:
			snaps.MatchStandaloneJSON(t, v, sharedJSON...)
		default:
			cfg.MatchStandaloneJSON(t, v, sharedJSON...)
		}
	case "cjson", "cyaml", "csjson": // the caller's bytes, shared by all goroutines
		switch {
		case c.API == "cyaml" && cfg == nil:
			snaps.MatchYAML(t, sharedYAMLBytes, sharedYAML...)
		case c.API == "cyaml":
			cfg.MatchYAML(t, sharedYAMLBytes, sharedYAML...)
		case c.API == "cjson" && cfg == nil:
			snaps.MatchJSON(t, sharedJSONBytes, sharedJSON...)
		case c.API == "cjson":
			cfg.MatchJSON(t, sharedJSONBytes, sharedJSON...)
		case cfg == nil:
			snaps.MatchStandaloneJSON(t, sharedJSONBytes, sharedJSON...)
		default:
			cfg.MatchStandaloneJSON(t, sharedJSONBytes, sharedJSON...)
		}
	case "ssnap":
		if cfg == nil {
			snaps.MatchStandaloneSnapshot(t, val)
		} else {
			cfg.MatchStandaloneSnapshot(t, val)
		}
	case "sjson":
		v := fmt.Sprintf(`{"v":%q,"w":[1,2]}`, val)
		if c.Kind == 'b' {
			v = "{" + val
		}
		if cfg == nil {
			snaps.MatchStandaloneJSON(t, v)
		} else {
			cfg.MatchStandaloneJSON(t, v)
		}
	case "skip":
		snaps.Skip(t, "x")
	case "skipf":
		snaps.Skipf(t, "%s", "x")
	case "skipnow":
		snaps.SkipNow(t)
	default:
		panic("no api " + c.API)
	}
}

// multi reports whether the call shares a file with others.
func (c Call) multi() bool {
	switch c.API {
	case "ssnap", "sjson", "gsjson", "csjson", "skip", "skipf", "skipnow":
		return false
	}
	return true
}

// one makes a call and returns its events.
func (c Call) one(cfg *snaps.Config, t *T, val string) (ev []Ev) {
	t.ev = nil
	defer func() {
		ev = t.ev
		if r := recover(); r != nil {
			if _, ok := r.(skipped); !ok {
				ev = append(ev, Ev{"panic", fmt.Sprint(r)})
			}
		}
	}()
	c.do(cfg, t, val)
	return t.ev
}

func TestMain(m *testing.M) { os.Exit(Main(m)) }
