package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strings"
	"time"
)

// orderSolver is a solver for questions about the order of events.
type orderSolver struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	cache map[string]SatResult
}

func newOrderSolver() *orderSolver {
	s := &orderSolver{cache: map[string]SatResult{}}
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReader(o)
	if s.cmd.Start() != nil {
		return nil
	}
	fmt.Fprint(s.in, "(set-option :timeout 20000)\n")
	return s
}

func (s *orderSolver) close() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

// raceCheck decides for every two accesses to one variable by different goroutines, one of
// them a write, whether some order of the events of this path puts them next to each other.
// The order is the unknown: one integer per synchronisation of the path, constrained by the
// order within each goroutine, by go statements, WaitGroups, channels, mutexes (two critical
// sections of one mutex do not overlap), by what a sync.Pool handed on and by atomics.
// An order that exists is a data race. from is where the traced part of the path begins.
func (w *Worker) raceCheck(from int) {
	ev := w.events[from:]
	// nodes: the synchronisations
	node := make([]int, len(ev)) // node of an event, -1: an access
	var nodes []int
	perTh := map[int][]int{} // thread -> nodes
	type acc struct {
		th, seg int // seg: number of nodes of the thread before it
		write   bool
		e       *Event
	}
	accs := map[any][]acc{}
	for i := range ev {
		e := &ev[i]
		node[i] = -1
		if e.kind > evWrite {
			node[i] = len(nodes)
			nodes = append(nodes, i)
			perTh[e.th] = append(perTh[e.th], node[i])
			continue
		}
		l := accs[e.slot]
		a := acc{e.th, len(perTh[e.th]), e.kind == evWrite, e}
		// one access of a kind per segment stands for all of it
		dup := false
		for k := len(l) - 1; k >= 0 && k >= len(l)-4; k-- {
			if l[k].th == a.th && l[k].seg == a.seg && (l[k].write || !a.write) {
				dup = true
				break
			}
		}
		if !dup {
			accs[e.slot] = append(l, a)
		}
	}
	type pairKey struct{ t1, s1, t2, s2 int }
	pairs := map[pairKey][2]acc{}
	for _, l := range accs {
		if len(l) < 2 {
			continue
		}
		for i := range l {
			for j := i + 1; j < len(l); j++ {
				a, b := l[i], l[j]
				if a.th == b.th || !a.write && !b.write {
					continue
				}
				if a.th > b.th {
					a, b = b, a
				}
				k := pairKey{a.th, a.seg, b.th, b.seg}
				if _, ok := pairs[k]; !ok {
					pairs[k] = [2]acc{a, b}
				}
			}
		}
	}
	w.cs.mu.Lock()
	w.cs.traces++
	w.cs.pairs += len(pairs)
	w.cs.mu.Unlock()
	if len(pairs) == 0 {
		return
	}
	var sb strings.Builder
	n := func(i int) string { return fmt.Sprintf("e%d", i) }
	for i := range nodes {
		fmt.Fprintf(&sb, "(declare-const e%d Int)", i)
	}
	lt := func(a, b int) { fmt.Fprintf(&sb, "(assert (< e%d e%d))", a, b) }
	ths := make([]int, 0, len(perTh))
	for t := range perTh {
		ths = append(ths, t)
	}
	sort.Ints(ths)
	for _, t := range ths {
		for k := 1; k < len(perTh[t]); k++ {
			lt(perTh[t][k-1], perTh[t][k])
		}
	}
	fork := map[int]int{}
	type section struct {
		th, lock, unlock int
		read             bool
	}
	secs := map[any][]section{}
	for i, x := range nodes {
		e := &ev[x]
		switch e.kind {
		case evFork:
			c := e.slot.(int)
			fork[c] = i
			if l := perTh[c]; len(l) > 0 {
				lt(i, l[0])
			}
		case evWait:
			for k := 0; k < i; k++ {
				if ev[nodes[k]].kind == evDone && ev[nodes[k]].slot == e.slot {
					lt(k, i)
				}
			}
		case evGet:
			if e.from > from {
				lt(node[e.from-1-from], i)
			}
		case evAtomic:
			for k := i - 1; k >= 0; k-- {
				if ev[nodes[k]].kind == evAtomic && ev[nodes[k]].slot == e.slot {
					lt(k, i)
					break
				}
			}
		case evSend, evRecv, evClose:
			for k := 0; k < i; k++ {
				o := &ev[nodes[k]]
				if o.slot == e.slot && (o.kind == evSend || o.kind == evRecv || o.kind == evClose) && o.th != e.th {
					lt(k, i)
				}
			}
		case evLock, evRLock:
			secs[e.slot] = append(secs[e.slot], section{e.th, i, -1, e.kind == evRLock})
		case evUnlock, evRUnlock:
			l := secs[e.slot]
			for k := len(l) - 1; k >= 0; k-- {
				if l[k].unlock < 0 && l[k].read == (e.kind == evRUnlock) && (l[k].th == e.th || !l[k].read) {
					l[k].unlock = i
					break
				}
			}
		}
	}
	var locks []any
	for s := range secs {
		locks = append(locks, s)
	}
	sort.Slice(locks, func(a, b int) bool { return secs[locks[a]][0].lock < secs[locks[b]][0].lock })
	for _, s := range locks {
		l := secs[s]
		for i := range l {
			for j := i + 1; j < len(l); j++ {
				a, b := l[i], l[j]
				if a.th == b.th || a.read && b.read {
					continue
				}
				switch {
				case a.unlock >= 0 && b.unlock >= 0:
					fmt.Fprintf(&sb, "(assert (or (< e%d e%d) (< e%d e%d)))", a.unlock, b.lock, b.unlock, a.lock)
				case a.unlock >= 0:
					lt(a.unlock, b.lock)
				case b.unlock >= 0:
					lt(b.unlock, a.lock)
				}
			}
		}
	}
	// A section that read what another section of its mutex wrote stays behind it: in another
	// order it might do something else, which the other schedules of this harness show.
	idx := make([]int, len(nodes)) // position of a node in its thread
	for _, l := range perTh {
		for k, x := range l {
			idx[x] = k
		}
	}
	inside := func(sc section, a acc) bool {
		return sc.th == a.th && idx[sc.lock] < a.seg && (sc.unlock < 0 || idx[sc.unlock] >= a.seg)
	}
	done := map[[2]int]bool{}
	for _, l := range accs {
		for j := range l {
			for i := j - 1; i >= 0; i-- {
				if l[i].th == l[j].th || !l[i].write {
					if l[i].write {
						break
					}
					continue
				}
				for _, s := range locks {
					for _, a := range secs[s] {
						for _, b := range secs[s] {
							if a.unlock >= 0 && inside(a, l[i]) && inside(b, l[j]) && !done[[2]int{a.unlock, b.lock}] {
								done[[2]int{a.unlock, b.lock}] = true
							}
						}
					}
				}
				break
			}
		}
	}
	var flow [][2]int
	for e := range done {
		flow = append(flow, e)
	}
	sort.Slice(flow, func(i, j int) bool {
		return flow[i][0] < flow[j][0] || flow[i][0] == flow[j][0] && flow[i][1] < flow[j][1]
	})
	for _, e := range flow {
		lt(e[0], e[1])
	}
	base := sb.String()
	if w.race == nil {
		w.race = newOrderSolver()
		if w.race == nil {
			w.abort("no order solver")
		}
	}
	keys := make([]pairKey, 0, len(pairs))
	for k := range pairs {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		a, b := keys[i], keys[j]
		return fmt.Sprint(a) < fmt.Sprint(b)
	})
	// the window of a segment
	window := func(t, seg int) string {
		var s string
		l := perTh[t]
		if seg > 0 {
			s += "(< " + n(l[seg-1]) + " x)"
		} else if f, ok := fork[t]; ok {
			s += "(< " + n(f) + " x)"
		}
		if seg < len(l) {
			s += "(< x " + n(l[seg]) + ")"
		}
		return s
	}
	pushed := false
	for _, k := range keys {
		q := "(declare-const x Int)(assert (and true " + window(k.t1, k.s1) + window(k.t2, k.s2) + "))"
		id := base + q
		res, ok := w.race.cache[id]
		if !ok {
			t0 := time.Now()
			if !pushed {
				fmt.Fprintf(w.race.in, "(push 1)%s\n", base)
				pushed = true
			}
			fmt.Fprintf(w.race.in, "(push 1)%s(check-sat)(pop 1)\n", q)
			line, err := w.race.out.ReadString('\n')
			if err != nil {
				w.abort("order solver: " + err.Error())
			}
			st := &w.sol.stats
			st.Queries++
			st.Time += time.Since(t0)
			switch strings.TrimSpace(line) {
			case "sat":
				res = Sat
				st.Sat++
			case "unsat":
				res = Unsat
				st.Unsat++
			default:
				st.Unknown++
			}
			w.race.cache[id] = res
		} else {
			w.sol.stats.CacheHits++
		}
		w.cs.mu.Lock()
		w.cs.asserts++
		w.cs.assertSolve++
		w.cs.mu.Unlock()
		switch res {
		case Sat:
			p := pairs[k]
			what := func(a acc) string {
				s := "read at "
				if a.write {
					s = "write at "
				}
				return s + w.evPos(a.e)
			}
			x, y := what(p[0]), what(p[1])
			if y < x {
				x, y = y, x
			}
			w.violation("data race: " + x + " and " + y)
		case Unknown:
			w.cs.mu.Lock()
			w.cs.undec["order of two accesses"]++
			w.cs.mu.Unlock()
		}
	}
	if pushed {
		fmt.Fprint(w.race.in, "(pop 1)\n")
	}
}
