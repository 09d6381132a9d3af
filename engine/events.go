package main

import (
	"go/token"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// evKind is what a goroutine did.
type evKind uint8

const (
	evRead evKind = iota
	evWrite
	evLock
	evUnlock
	evRLock
	evRUnlock
	evFork
	evDone // WaitGroup counter lowered
	evAdd
	evWait
	evPut
	evGet
	evSend
	evRecv
	evClose
	evAtomic
	evMark // a point the harness named
)

// Event is one shared-memory or synchronisation action of a goroutine, recorded while a
// harness has tracing on. from is the index+1 of the event it takes something from.
type Event struct {
	th   int
	kind evKind
	slot any
	from int
	in   ssa.Instruction
	fn   string
}

func (w *Worker) tracingNow() bool { return w.tracing && w.nest == 0 && w.noTrail == 0 }

func (w *Worker) event(kind evKind, slot any, from int) int {
	ev := Event{th: w.st.cur, kind: kind, slot: slot, from: from}
	th := w.st.threads[w.st.cur]
	if n := len(th.frames); n > 0 {
		fr := th.frames[n-1]
		ev.fn = fr.fi.name
		if fr.block < len(fr.fi.blocks) && fr.pc < len(fr.fi.blocks[fr.block]) {
			ev.in = fr.fi.blocks[fr.block][fr.pc].in
		}
	}
	w.events = append(w.events, ev)
	if kind > evWrite {
		th.skip = false
	}
	return len(w.events)
}

func (w *Worker) access(s *Value, write bool) {
	if !w.tracing || !w.tracingNow() {
		return
	}
	k := evRead
	if write {
		k = evWrite
	}
	w.event(k, s, 0)
}

func (w *Worker) accessMap(m *Map, write bool) {
	if !w.tracing || !w.tracingNow() {
		return
	}
	k := evRead
	if write {
		k = evWrite
	}
	w.event(k, m, 0)
}

// syncEvent records a synchronisation and returns its index+1.
func (w *Worker) syncEvent(kind evKind, x any, from int) int {
	if !w.tracing || !w.tracingNow() {
		return 0
	}
	return w.event(kind, x, from)
}

// block suspends the running goroutine until free reports true. While schedules are
// explored, which goroutine runs instead is a choice.
func (w *Worker) block(why string, free func() bool) {
	b := blockErr{why: why, wait: free, next: -1}
	if w.sched >= 0 && w.tracingNow() {
		b.next = w.pickOther(false)
		b.skip = true
	}
	panic(b)
}

// preempt is called before a synchronisation: another goroutine may run first.
func (w *Worker) preempt(costs bool) {
	if !w.tracing || w.sched < 0 || !w.tracingNow() {
		return
	}
	th := w.st.threads[w.st.cur]
	if th.skip || !nearRepo(th) {
		return
	}
	if costs && w.preempts >= w.sched {
		return
	}
	i := w.pickOther(true)
	if i < 0 {
		return
	}
	if costs {
		old := w.preempts
		w.undo(func() { w.preempts = old })
		w.preempts++
	}
	panic(blockErr{why: "preempted", wait: func() bool { return true }, next: i, skip: true})
}

// pickOther chooses the goroutine to run next, every choice on a path of its own; -1 is the
// running one (when it may go on) or none.
func (w *Worker) pickOther(self bool) int {
	var can []int
	if self {
		can = append(can, -1)
	}
	for i, th := range w.st.threads {
		if i == w.st.cur || th.done || len(th.frames) == 0 {
			continue
		}
		if th.wait != nil && !th.wait() {
			continue
		}
		can = append(can, i)
	}
	if len(can) == 0 {
		return -1
	}
	if len(can) == 1 {
		return can[0]
	}
	width := uint8(1)
	for mask(width) < uint64(len(can)-1) {
		width++
	}
	t := w.newInput("schedule", "aux", 1, width)[0]
	w.assume(w.tp.Ult(w.tp.Zext(t, 64), w.tp.Const(uint64(len(can)), 64)))
	return can[w.concretize(t)]
}

func (w *Worker) evPos(e *Event) string {
	p := token.NoPos
	if e.in != nil && e.in != ssa.Instruction(spawnEnd) {
		p = e.in.Pos()
	}
	if p == token.NoPos {
		return e.fn
	}
	q := w.eng.prog.Fset.Position(p)
	return e.fn + " " + shortPath(q.Filename) + ":" + strconv.Itoa(q.Line)
}

// nearRepo reports whether code of the repository (or of the harness) asked for this
// synchronisation: what the standard library does within itself is not interleaved.
func nearRepo(th *Thread) bool {
	for i := len(th.frames) - 1; i >= 0 && i >= len(th.frames)-3; i-- {
		fn := th.frames[i].fi.fn
		if o := fn.Origin(); o != nil {
			fn = o
		}
		if fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), repoModule) {
			return true
		}
		if p := fn.Parent(); p != nil && p.Pkg != nil && strings.HasPrefix(p.Pkg.Pkg.Path(), repoModule) {
			return true
		}
	}
	return false
}

// poolEnt is an object in a sync.Pool and the event that put it there.
type poolEnt struct {
	v  Value
	ev int
}

func shortPath(p string) string {
	if i := strings.Index(p, "/go-slog/"); i >= 0 {
		return p[i+9:]
	}
	if i := strings.Index(p, "/src/"); i >= 0 {
		return p[i+5:]
	}
	return strings.TrimPrefix(p, "/repo/")
}
