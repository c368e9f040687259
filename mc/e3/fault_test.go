package e3

import (
	"fmt"
	"strconv"
	"strings"
	"syscall"

	"github.com/gkampitakis/go-snaps/internal/zzmc/sched"
)

// FaultScn is a call (after another, undisturbed call) in which one file system operation fails.
type FaultScn struct {
	API    string
	State  byte // a missing, p equal, m different
	Update int  // Config option
	CI     bool
	Env    string // UPDATE_SNAPS
}

func (f *FaultScn) String() string {
	return fmt.Sprintf("faults: one failing file system operation in %s of a value whose entry is %c, option Update=%d CI=%v UPDATE_SNAPS=%q", f.API, f.State, f.Update, f.CI, f.Env)
}

func faults(tier string, emit func(Item)) {
	for _, api := range []string{"snap", "json", "yaml", "mjson", "myaml", "ssnap", "sjson"} {
		for _, st := range "apm" {
			for upd := 0; upd < 3; upd++ {
				for _, ci := range []bool{false, true} {
					for _, env := range []string{"", "true", "clean"} {
						emit(Item{Fault: &FaultScn{api, byte(st), upd, ci, env}})
					}
				}
			}
		}
	}
}

func (f *FaultScn) explore(id string, w *world, a *answer) {
	states := map[[32]byte]bool{}
	s := &Scn{Cfgs: []Cfg{{Filename: "f", Update: f.Update}, {Filename: "f"}}, Bound: -1, CI: f.CI, Update: f.Env}
	// TestP: the call under test, between two others whose entries are equal
	other := Call{API: "snap", Kind: 'p', Val: "other\n---\nlines", Cfg: 1}
	c := Call{API: f.API, Kind: f.State, Val: "value"}
	s.Threads = []Thread{th("TestO", other), th("TestP", c), th("TestQ", other)}
	p, err := w.plan(s)
	if err != nil {
		a.Err = err.Error()
		a.Fails = append(a.Fails, found{Index: a.Index, Key: "serial", Msg: err.Error()})
		return
	}
	create := !f.CI && f.Update != 2
	update := !f.CI && (f.Update == 1 || f.Update == 0 && f.Env == "true")
	mayWrite := f.State == 'a' && create || f.State == 'm' && update
	errs := []error{syscall.EIO, syscall.EACCES, syscall.ENOSPC, syscall.ENOTDIR}
	for _, short := range []bool{false, true} {
		for _, fault := range errs {
			if short && fault != syscall.ENOSPC {
				continue
			}
			for n := 0; ; n++ {
				cfgs := s.build(w.dir)
				w.restore(p.seed, false)
				fresh(s.CI, s.Update)
				o := newT("TestO")
				other.one(cfgs[1], o, other.Val)
				o.runCleanups()
				t := newT("TestP")
				sched.Ops, sched.Record, sched.FaultAt, sched.Fault, sched.Short = nil, true, n, fault, short
				ev := c.one(cfgs[0], t, c.Val)
				ops := sched.Ops
				sched.Record, sched.FaultAt, sched.Short = false, -1, false
				t.runCleanups()
				after := w.capture(false)
				summary := w.clean(false)
				a.Execs++
				a.Steps += len(ops)
				states[hash(ev, show(after), summary)] = true
				out := outcome(ev)
				a.Outcomes[out[:min(8, len(out))]]++
				hit := n < len(ops)
				bad := func(key, format string, args ...any) {
					if (key == "fault-signals" || key == "fault-summary" || key == "fault-lost") != (id == "C20") {
						return
					}
					at := "no fault"
					if hit {
						at = fmt.Sprintf("%s %s fails with %v (short %v)", ops[n].Name, ops[n].Path, fault, short)
					}
					a.Fails = append(a.Fails, found{Index: a.Index, Key: key, Msg: at + ": " + fmt.Sprintf(format, args...)})
				}
				switch out {
				case "passed", "failed", "added", "updated":
				default:
					bad("fault-signals", "%s", out)
				}
				// a call that says it stored the value has stored it
				if out == "added" || out == "updated" {
					for file, slots := range p.want {
						for slot, body := range slots {
							d := after[file]
							if slot == "" && d != body || strings.HasPrefix(slot, "[TestP - ") && !strings.Contains(d, "\n"+slot+"\n"+body+"\n---\n") {
								bad("fault-lost", "call %s, but %s holds %q, want %s %q", out, file, d, slot, body)
							}
						}
					}
				}
				// the summary counts the call
				want := map[string]int{"passed": 1}
				want[out]++
				got := map[string]int{}
				for _, l := range strings.Split(summary, "\n") {
					if m := countRe.FindStringSubmatch(l); m != nil {
						k, _ := strconv.Atoi(m[1])
						got[m[2]] += k
					}
				}
				for _, k := range []string{"passed", "failed", "added", "updated", "skipped"} {
					if got[k] != want[k] {
						bad("fault-summary", "call %s, but the summary says %d %s, want %d: %q", out, got[k], k, want[k], summary)
					}
				}
				// the mode table holds for what can not be read as well
				changed := show(after) != show(p.seed)
				if changed && !mayWrite {
					bad("fault-write", "%s, files changed although the mode does not allow it: %s -> %s", out, show(p.seed), show(after))
				}
				if f.State == 'm' && !update && out != "failed" {
					bad("fault-outcome", "%s, but the entry differs and updating is off", out)
				}
				if f.State == 'a' && !create && out != "failed" {
					bad("fault-outcome", "%s, but the entry is missing and creating is off", out)
				}
				if len(a.Fails) > 0 || !hit {
					break
				}
			}
			if len(a.Fails) > 0 {
				break
			}
		}
	}
	a.States = len(states)
}
