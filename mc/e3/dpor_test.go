package e3

import (
	"math/bits"

	"github.com/gkampitakis/go-snaps/internal/zzmc/sched"
)

// explorer visits, by dynamic partial order reduction with sleep sets, at least one
// interleaving of every class of interleavings that differ only in the order of
// independent operations; or, with bound >= 0, every interleaving with at most
// that many preemptions.
type explorer struct {
	bound  int
	stack  []*node
	Execs  int
	Steps  int
	Pruned int
	Bad    string // not deterministic
}

type node struct {
	pend    []sched.Op
	enabled uint32
	cur     int
	chosen  int
	back    uint32 // to be explored
	done    uint32
	sleep   uint32
	pre     int // preemptions so far
}

// reset gives up the tree.
func (x *explorer) reset() { x.stack = nil }

// next runs one execution; more is false when it was the last.
func (x *explorer) next(run func(choose func(st *sched.Step, depth int) int) *sched.S) (s *sched.S, complete, more bool) {
	pruned := false
	s = run(func(st *sched.Step, d int) int {
		if d < len(x.stack) {
			n := x.stack[d]
			if st.Enabled != n.enabled {
				x.Bad = "the same choices gave another state"
			}
			if st.Enabled&(1<<n.chosen) != 0 {
				return n.chosen
			}
			x.Bad = "the same choices gave another state"
			return bits.TrailingZeros32(st.Enabled)
		}
		def := func(set uint32) int {
			if st.Cur >= 0 && set&(1<<st.Cur) != 0 {
				return st.Cur
			}
			return bits.TrailingZeros32(set)
		}
		if pruned {
			return def(st.Enabled)
		}
		n := &node{pend: st.Pending, enabled: st.Enabled, cur: st.Cur}
		if d > 0 {
			p := x.stack[d-1]
			n.pre = p.pre + p.cost(p.chosen)
			if x.bound < 0 {
				for t := range st.Pending {
					if (p.sleep|p.done)&(1<<t) != 0 && t != p.chosen && !sched.Dependent(p.pend[t], p.pend[p.chosen]) {
						n.sleep |= 1 << t
					}
				}
			}
		}
		free := n.enabled &^ n.sleep
		if free == 0 {
			pruned = true
			return def(st.Enabled)
		}
		n.chosen = def(free)
		if x.bound >= 0 {
			n.back = n.enabled
		}
		x.stack = append(x.stack, n)
		return n.chosen
	})
	x.Execs++
	x.Steps += len(s.Steps)
	if pruned {
		x.Pruned++
	}
	if x.Bad != "" {
		return s, !pruned, false
	}
	if x.bound < 0 {
		x.races(s)
	}
	// go back
	for len(x.stack) > 0 {
		n := x.stack[len(x.stack)-1]
		n.done |= 1 << n.chosen
		todo := n.back & n.enabled &^ n.done &^ n.sleep
		if x.bound >= 0 {
			for t := 0; t < 32; t++ {
				if todo&(1<<t) != 0 && n.pre+n.cost(t) > x.bound {
					todo &^= 1 << t
				}
			}
		}
		if todo != 0 {
			n.chosen = bits.TrailingZeros32(todo)
			return s, !pruned, true
		}
		x.stack = x.stack[:len(x.stack)-1]
	}
	return s, !pruned, false
}

// cost is 1 when choosing t preempts the running thread.
func (n *node) cost(t int) int {
	if n.cur >= 0 && t != n.cur && n.enabled&(1<<n.cur) != 0 {
		return 1
	}
	return 0
}

// races adds the choices that reverse the races of the execution.
func (x *explorer) races(s *sched.S) {
	nt := 0
	for _, st := range s.Steps {
		nt = max(nt, len(st.Pending))
	}
	// vector clocks over step numbers + 1
	clock := make([][]int, nt) // by thread
	for t := range clock {
		clock[t] = make([]int, nt)
	}
	evs := make([][]int, len(s.Steps))
	op := func(i int) sched.Op { return s.Steps[i].Pending[s.Steps[i].Chosen] }
	reverse := func(j, p int, o sched.Op) {
		// last first: events that the pending o of p could have preceded
		for i := min(j, len(x.stack)) - 1; i >= 0; i-- {
			q := s.Steps[i].Chosen
			if q == p || i+1 <= clock[p][q] || p >= len(s.Steps[i].Pending) {
				continue
			}
			e := op(i)
			if !sched.Dependent(e, o) || !sched.CoEnabled(e, o) {
				continue
			}
			n := x.stack[i]
			// threads whose steps after i lead to o
			set := uint32(0)
			if n.enabled&(1<<p) != 0 {
				set |= 1 << p
			} else {
				for k := i + 1; k < j; k++ {
					c := s.Steps[k].Chosen
					if n.enabled&(1<<c) != 0 && k+1 <= clock[p][c] {
						set |= 1 << c
						break
					}
				}
			}
			if set == 0 {
				set = n.enabled
			}
			n.back |= set
		}
	}
	for j, st := range s.Steps {
		if st.Enabled == 0 { // deadlock
			for p, o := range st.Pending {
				if o.Name != "" {
					reverse(j, p, o)
				}
			}
			break
		}
		p := st.Chosen
		o := op(j)
		reverse(j, p, o)
		// execute
		c := clock[p]
		for i := 0; i < j; i++ {
			q := s.Steps[i].Chosen
			if q != p && i+1 > c[q] && sched.Dependent(op(i), o) {
				for t, v := range evs[i] {
					c[t] = max(c[t], v)
				}
			}
		}
		c[p] = j + 1
		evs[j] = append([]int(nil), c...)
	}
	// operations still pending when the execution was cut off are covered by the sleep sets
}
