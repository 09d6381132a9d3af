package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value

// noInit lists packages whose initialisers talk to the run-time system; their globals stay zero.
var noInit = map[string]bool{
	"runtime": true, "os": true, "syscall": true, "reflect": true, "internal/cpu": true,
	"internal/bytealg": true, "internal/poll": true, "internal/godebug": true, "internal/reflectlite": true,
	"internal/abi": true, "internal/godebugs": true, "runtime/debug": true, "internal/testlog": true,
	"net": true, "net/http": true, "crypto/tls": true, "os/signal": true, "os/exec": true, "runtime/internal/sys": true,
	"internal/syscall/unix": true, "internal/runtime/atomic": true, "testing": true, "crypto/rand": true, "math/rand": true,
	"math/rand/v2": true, "internal/sysinfo": true, "internal/profilerecord": true, "vendor/golang.org/x/sys/cpu": true,
	"golang.org/x/sys/cpu": true, "golang.org/x/sys/unix": true, "mime": true, "mime/multipart": true, "os/user": true,
	"github.com/gin-gonic/gin/binding": true, "github.com/bytedance/sonic": true, "encoding/gob": true,
	"runtime/pprof": true, "runtime/trace": true, "flag": false, "net/http/internal": true, "crypto/x509": true,
}

const symPkg = repoModule + "/internal/zzverif/sym"

var intrinsics map[string]intrinsic

func (w *Worker) argStr(v Value) string {
	s, ok := v.(*Str)
	if !ok || s.b != nil {
		w.abort("a name must be a constant string")
	}
	return s.s
}

func ptrOf(w *Worker, v Value) *Value {
	p, ok := v.(Ptr)
	if !ok {
		w.abort(fmt.Sprintf("pointer expected, got %T", v))
	}
	if p.isNil() {
		w.nilDeref()
	}
	if p.s == nil {
		w.abort("unmaterialised pointer")
	}
	return p.s
}

// newInput makes fresh variables and records them as one input.
func (w *Worker) newInput(name, kind string, n int, width uint8) []*Term {
	if w.nest > 0 {
		w.abort("input in initialiser")
	}
	ts := make([]*Term, n)
	for i := range ts {
		ts[i] = w.tp.Var(fmt.Sprintf("%s%s_%d_%d_%d", w.cs.prefix, kind, width, len(w.inputs), i), width)
		w.noteVar(ts[i])
	}
	w.inputs = append(w.inputs, Input{name, kind, ts})
	return ts
}

func (w *Worker) noteVar(t *Term) {
	if w.pending != nil {
		if v, ok := w.pending[t.name]; ok {
			if _, have := w.model[t.id]; !have {
				w.mergeModel(map[uint32]uint64{t.id: v})
			}
		}
	}
}

func (w *Worker) symInt(kind string, width uint8) intrinsic {
	return func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		return w.newInput(w.argStr(args[0]), kind, 1, width)[0]
	}
}

func (w *Worker) assume(c *Term) {
	if c.isConst() {
		if c.val == 0 {
			panic(pathEnd{"assume"})
		}
		return
	}
	// one side only: no fork, the excluded inputs are outside the claim
	if w.decPos < len(w.dec) {
		// assumptions are not decisions: re-assert
		w.addPC(c)
		return
	}
	if v, ok := w.evalModel(c); ok && v != 0 {
		w.addPC(c)
		return
	}
	r, m := w.sol.Check(w.pc, c)
	switch r {
	case Sat:
		w.mergeModel(m)
		w.addPC(c)
	case Unsat:
		panic(pathEnd{"assume"})
	default:
		w.abort("solver gave no answer on an assumption")
	}
}

func (w *Worker) assertTrue(c *Term, msg string) {
	if c.isConst() {
		if c.val == 0 {
			panic(pathEnd{"assert: " + msg})
		}
		w.cs.discharged(msg, false)
		return
	}
	if w.decPos < len(w.dec) {
		// replaying a donated prefix: it was discharged where the prefix was explored first
		w.addPC(c)
		return
	}
	r, m := w.sol.Check(w.pc, w.tp.Not(c))
	switch r {
	case Unsat:
		w.cs.discharged(msg, true)
		return
	case Sat:
		save := w.model
		w.mergeModel(m)
		w.violation("assert: " + msg)
		w.setModel(save)
		// go on with the inputs that satisfy it
		if v, ok := w.evalModel(c); ok && v != 0 {
			w.addPC(c)
			return
		}
		r2, m2 := w.sol.Check(w.pc, c)
		if r2 != Sat {
			panic(pathEnd{"assert-all: " + msg})
		}
		w.mergeModel(m2)
		w.addPC(c)
	default:
		w.cs.undecided(msg)
		w.incomplete("solver gave no answer on assertion " + msg)
		// let the native build try the current model
		w.addPC(c)
	}
}

func lockState(w *Worker, v Value) *Value {
	p := ptrOf(w, v)
	st := (*p).(Struct)
	return &st[0]
}

// concreteWhole reports whether v holds no symbolic term.
func concreteWhole(v Value, depth int) bool {
	if depth > 8 {
		return false
	}
	switch x := v.(type) {
	case *Term:
		return x.isConst()
	case *Str:
		return x.b == nil
	case Iface:
		return x.t == nil || concreteWhole(x.v, depth+1)
	case Struct:
		for _, f := range x {
			if !concreteWhole(f, depth+1) {
				return false
			}
		}
		return true
	case Array:
		for _, f := range x {
			if !concreteWhole(f, depth+1) {
				return false
			}
		}
		return true
	case Slice:
		for _, f := range x.a {
			if !concreteWhole(f, depth+1) {
				return false
			}
		}
		return true
	case *Map:
		if x == nil {
			return true
		}
		for _, e := range x.ents {
			if e.live && (!concreteWhole(e.k, depth+1) || !concreteWhole(e.v, depth+1)) {
				return false
			}
		}
		return true
	case Ptr:
		return x.isNil() || (x.s != nil && concreteWhole(*x.s, depth+1))
	}
	return true
}

func init() {
	nop := func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		return w.zeroResults(fn)
	}
	ident := func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value { return args[0] }
	m := map[string]intrinsic{}
	intrinsics = m

	// ---- the harness interface ----
	s := func(n string) string { return symPkg + "." + n }
	var w0 *Worker
	m[s("Byte")] = w0.symInt("u8", 8)
	m[s("Int8")] = w0.symInt("i8", 8)
	m[s("Uint16")] = w0.symInt("u16", 16)
	m[s("Int16")] = w0.symInt("i16", 16)
	m[s("Uint32")] = w0.symInt("u32", 32)
	m[s("Int32")] = w0.symInt("i32", 32)
	m[s("Uint64")] = w0.symInt("u64", 64)
	m[s("Int64")] = w0.symInt("i64", 64)
	m[s("Int")] = w0.symInt("i64", 64)
	m[s("Real")] = symReal
	m[s("Float64")] = w0.symInt("f64", 64)
	m[s("Bool")] = w0.symInt("bool", 0)
	m[s("Range")] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		// A narrow variable keeps the terms small: lo + zext(v).
		lo, hi := w.concreteInt(args[1]), w.concreteInt(args[2])
		if hi < lo {
			w.abort("empty range")
		}
		span := uint64(hi - lo)
		width := uint8(1)
		for width < 64 && mask(width) < span {
			width++
		}
		t := w.newInput(w.argStr(args[0]), "range", 1, width)[0]
		w.assume(w.tp.Ule(t, w.tp.Const(span, width)))
		return w.tp.Bin(OpAdd, w.tp.Zext(t, 64), w.tp.Const(uint64(lo), 64))
	}
	// trace(n): record events and explore schedules with up to n preemptions; -1 ends it and
	// decides whether what was recorded has a data race in any order
	m[s("trace")] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		n := int(w.concreteInt(args[0]))
		from := w.traceFrom
		on, sched, pre := w.tracing, w.sched, w.preempts
		w.undo(func() { w.tracing, w.sched, w.preempts, w.traceFrom = on, sched, pre, from })
		if n >= 0 {
			w.tracing, w.sched, w.preempts, w.traceFrom = true, n, 0, len(w.events)
			return nil
		}
		w.tracing, w.sched = false, -1
		w.raceCheck(from)
		return nil
	}
	m[s("Yield")] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		w.preempt(true)
		w.syncEvent(evMark, nil, 0)
		return nil
	}
	m[s("Choose")] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		n := w.concreteInt(args[1])
		width := uint8(1)
		for mask(width) < uint64(n-1) {
			width++
		}
		t := w.newInput(w.argStr(args[0]), "choose", 1, width)[0]
		w.assume(w.tp.Ult(w.tp.Zext(t, 64), w.tp.Const(uint64(n), 64)))
		v := w.concretize(t)
		return w.tp.Const(v, 64)
	}
	m[s("String")] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		n := int(w.concreteInt(args[1]))
		if n == 0 {
			return w.emptyStr
		}
		return &Str{b: w.newInput(w.argStr(args[0]), "str", n, 8)}
	}
	m[s("Letters")] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		n := int(w.concreteInt(args[1]))
		if n == 0 {
			return w.emptyStr
		}
		ts := w.newInput(w.argStr(args[0]), "str", n, 8)
		for _, t := range ts {
			w.assume(w.tp.Ule(w.tp.Const('a', 8), t))
			w.assume(w.tp.Ule(t, w.tp.Const('z', 8)))
		}
		return &Str{b: ts}
	}
	m[s("Bytes")] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		n := int(w.concreteInt(args[1]))
		a := make([]Value, n)
		if n > 0 {
			for i, t := range w.newInput(w.argStr(args[0]), "str", n, 8) {
				a[i] = t
			}
		}
		return Slice{a}
	}
	m[s("Assume")] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		w.assume(args[0].(*Term))
		return nil
	}
	m[s("Assert")] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		w.assertTrue(args[0].(*Term), w.concreteStr(args[1].(*Str)))
		return nil
	}
	m[s("Fail")] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		w.assertTrue(w.tp.fls, w.concreteStr(args[0].(*Str)))
		return nil
	}
	m[s("Reach")] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		w.reached++
		return nil
	}
	m[s("Finding")] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		when, c, msg := args[1].(*Term), args[2].(*Term), w.concreteStr(args[3].(*Str))
		w.assertTrue(w.tp.Or(c, when), msg)
		if c.isConst() && c.val != 0 || w.decPos < len(w.dec) {
			return nil
		}
		// Nothing is assumed about c: what follows is checked with and without the defect.
		if c.isConst() {
			w.finding(w.argStr(args[0]), "assert: "+msg)
		} else if r, m := w.sol.Check(w.pc, w.tp.Not(c)); r == Sat {
			save := w.model
			w.mergeModel(m)
			w.finding(w.argStr(args[0]), "assert: "+msg)
			w.setModel(save)
		}
		return nil
	}
	m[s("Native")] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value { return w.tp.fls }
	m[s("ObserveString")] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		if w.nest == 0 {
			w.obs = append(w.obs, Obs{name: w.argStr(args[0]), v: w.strBytes(args[1].(*Str)), lit: true})
		}
		return nil
	}
	m[s("ObserveInt")] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		w.obs = append(w.obs, Obs{name: w.argStr(args[0]), v: []*Term{args[1].(*Term)}})
		return nil
	}
	m[s("MapOrder")] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		old := w.mapOrder
		w.undo(func() { w.mapOrder = old })
		w.mapOrder = args[0].(*Term).val != 0
		return nil
	}

	// The default logger writes to standard error, which is outside every claim.
	m["(*log/slog.defaultHandler).Handle"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value { return Iface{} }

	// ---- sync ----
	lock := func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		w.preempt(true)
		s := lockState(w, args[0])
		if (*s).(*Term).val != 0 {
			w.block("mutex", func() bool { return (*s).(*Term).val == 0 })
		}
		w.setSlot(s, w.tp.Const(1, 32))
		w.syncEvent(evLock, s, 0)
		return nil
	}
	unlock := func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		s := lockState(w, args[0])
		if (*s).(*Term).val == 0 {
			panic(pathEnd{"panic: fatal error: sync: unlock of unlocked mutex"})
		}
		w.syncEvent(evUnlock, s, 0)
		w.setSlot(s, w.tp.Const(0, 32))
		return nil
	}
	m["(*sync.Mutex).Lock"] = lock
	m["(*sync.Mutex).Unlock"] = unlock
	m["(*sync.Mutex).TryLock"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		s := lockState(w, args[0])
		if (*s).(*Term).val != 0 {
			return w.tp.fls
		}
		w.setSlot(s, w.tp.Const(1, 32))
		w.syncEvent(evLock, s, 0)
		return w.tp.tru
	}
	// RWMutex{w Mutex, writerSem, readerSem uint32, readerCount, readerWait atomic.Int32}
	rw := func(w *Worker, v Value) (*Value, *Value) {
		st := (*ptrOf(w, v)).(Struct)
		return &(st[0].(Struct))[0], &st[2]
	}
	m["(*sync.RWMutex).Lock"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		w.preempt(true)
		a, b := rw(w, args[0])
		free := func() bool { return (*a).(*Term).val == 0 && (*b).(*Term).val == 0 }
		if !free() {
			w.block("rwmutex", free)
		}
		w.setSlot(a, w.tp.Const(1, 32))
		w.syncEvent(evLock, a, 0)
		return nil
	}
	m["(*sync.RWMutex).Unlock"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		a, _ := rw(w, args[0])
		if (*a).(*Term).val == 0 {
			panic(pathEnd{"panic: fatal error: sync: Unlock of unlocked RWMutex"})
		}
		w.syncEvent(evUnlock, a, 0)
		w.setSlot(a, w.tp.Const(0, 32))
		return nil
	}
	m["(*sync.RWMutex).RLock"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		w.preempt(true)
		a, b := rw(w, args[0])
		free := func() bool { return (*a).(*Term).val == 0 }
		if !free() {
			w.block("rwmutex", free)
		}
		w.setSlot(b, w.tp.Const((*b).(*Term).val+1, 32))
		w.syncEvent(evRLock, a, 0)
		return nil
	}
	m["(*sync.RWMutex).RUnlock"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		a, b := rw(w, args[0])
		if (*b).(*Term).val == 0 {
			panic(pathEnd{"panic: fatal error: sync: RUnlock of unlocked RWMutex"})
		}
		w.syncEvent(evRUnlock, a, 0)
		w.setSlot(b, w.tp.Const((*b).(*Term).val-1, 32))
		return nil
	}
	m["(*sync.WaitGroup).Add"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		p := ptrOf(w, args[0])
		w.wgAdd(p, int(w.concreteInt(args[1])))
		return nil
	}
	m["(*sync.WaitGroup).Done"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		w.wgAdd(ptrOf(w, args[0]), -1)
		return nil
	}
	m["(*sync.WaitGroup).Wait"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		p := ptrOf(w, args[0])
		free := func() bool { return w.wg[p] == 0 }
		if !free() {
			w.block("waitgroup", free)
		}
		w.syncEvent(evWait, p, 0)
		return nil
	}
	m["(*sync.Pool).Get"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		w.preempt(true)
		p := ptrOf(w, args[0])
		q := w.pools[p]
		if n := len(q); n > 0 && !w.poolAlwaysNew {
			e := q[n-1]
			old := q
			w.undo(func() { w.pools[p] = old })
			w.pools[p] = q[: n-1 : n-1]
			w.syncEvent(evGet, p, e.ev)
			return e.v
		}
		st := (*p).(Struct)
		f, _ := st[len(st)-1].(*Func)
		if f == nil {
			return Iface{}
		}
		return tailCall{f, nil}
	}
	m["(*sync.Pool).Put"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		w.preempt(true)
		p := ptrOf(w, args[0])
		if i, ok := args[1].(Iface); ok && i.t == nil {
			return nil
		}
		if w.nest > 0 {
			w.pools[p] = nil
			return nil
		}
		old := w.pools[p]
		w.undo(func() { w.pools[p] = old })
		w.pools[p] = append(old[:len(old):len(old)], poolEnt{args[1], w.syncEvent(evPut, p, 0)})
		return nil
	}
	m["sync.runtime_registerPoolCleanup"] = nop
	m["sync.fatal"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		panic(pathEnd{"panic: fatal error: " + w.concreteStr(args[0].(*Str))})
	}

	// ---- atomics ----
	for _, pk := range []string{"sync/atomic", "internal/runtime/atomic"} {
		for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
			m[pk+".Load"+t] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
				p := ptrOf(w, args[0])
				w.preempt(true)
				w.syncEvent(evAtomic, p, 0)
				v := *p
				if po, ok := v.(Poison); ok {
					w.abort("poisoned: " + po.why)
				}
				return copyVal(v)
			}
			m[pk+".Store"+t] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
				p := ptrOf(w, args[0])
				w.preempt(true)
				w.syncEvent(evAtomic, p, 0)
				w.assign(p, args[1])
				return nil
			}
			m[pk+".Swap"+t] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
				p := ptrOf(w, args[0])
				w.preempt(true)
				w.syncEvent(evAtomic, p, 0)
				old := *p
				w.assign(p, args[1])
				return old
			}
			m[pk+".CompareAndSwap"+t] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
				p := ptrOf(w, args[0])
				w.preempt(true)
				w.syncEvent(evAtomic, p, 0)
				if w.decide(w.eqVal(*p, args[1])) {
					w.assign(p, args[2])
					return w.tp.tru
				}
				return w.tp.fls
			}
			m[pk+".Add"+t] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
				p := ptrOf(w, args[0])
				w.preempt(true)
				w.syncEvent(evAtomic, p, 0)
				v := w.tp.Bin(OpAdd, (*p).(*Term), args[1].(*Term))
				w.assign(p, v)
				return v
			}
			for i, o := range []string{"And", "Or"} {
				op := []Op{OpBand, OpBor}[i]
				m[pk+"."+o+t] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
					p := ptrOf(w, args[0])
					w.preempt(true)
					w.syncEvent(evAtomic, p, 0)
					old := *p
					w.assign(p, w.tp.Bin(op, old.(*Term), args[1].(*Term)))
					return old
				}
			}
		}
	}
	m["(*sync/atomic.Value).Load"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		p := ptrOf(w, args[0])
		w.preempt(true)
		w.syncEvent(evAtomic, p, 0)
		return (*p).(Struct)[0]
	}
	m["(*sync/atomic.Value).Store"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		p := ptrOf(w, args[0])
		w.preempt(true)
		w.syncEvent(evAtomic, p, 0)
		if i := args[1].(Iface); i.t == nil {
			w.goPanic("sync/atomic: store of nil value into Value")
		}
		st := (*p).(Struct)
		w.setSlot(&st[0], args[1])
		return nil
	}

	// ---- runtime ----
	for _, n := range []string{"runtime.GC", "runtime.Gosched", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.LockOSThread",
		"runtime.UnlockOSThread", "time.Sleep", "internal/race.Acquire", "internal/race.Release", "internal/race.Disable",
		"internal/race.Enable", "internal/race.ReleaseMerge", "internal/race.Read", "internal/race.Write", "internal/race.Errors",
		"time.initLocal", "(*internal/godebug.Setting).IncNonDefault", "internal/godebug.registerMetric", "runtime.Stack",
		"runtime.FuncForPC", "runtime/debug.SetGCPercent", "runtime/debug.FreeOSMemory", "os.Getenv", "syscall.Getenv",
		"os/signal.Notify", "runtime.NumGoroutine", "runtime.ReadMemStats", "runtime.NumCPU",
		"(*internal/godebug.Setting).Value", "os.LookupEnv", "sync.runtime_notifyListCheck", "runtime.Callers_",
		"internal/testlog.Getenv", "log/slog/internal.ignored", "os.Getpid", "(*os.File).Close", "(*os.File).Sync"} {
		m[n] = nop
	}
	m["internal/godebug.New"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		s := new(Value)
		*s = w.zero(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
		return Ptr{s: s}
	}
	m["runtime.GOMAXPROCS"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value { return w.tp.Const(8, 64) }
	m["runtime.Callers"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		sl := args[1].(Slice)
		skip, ok := args[0].(*Term)
		if !ok || !skip.isConst() {
			w.abort("symbolic skip of runtime.Callers")
		}
		n := 0
		th := w.st.threads[w.st.cur]
		left := int(skip.val) - 1
		for i := len(th.frames) - 1; i >= 0 && n < len(sl.a); i-- {
			f := th.frames[i]
			if f.fi.fn.Synthetic != "" || f.initPkg != nil {
				continue
			}
			if left > 0 {
				left--
				continue
			}
			w.setSlot(&sl.a[n], w.tp.Const(w.pcOf(f), 64))
			n++
		}
		return w.tp.Const(uint64(n), 64)
	}
	m["runtime.Caller"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		skip, ok := args[0].(*Term)
		if !ok || !skip.isConst() {
			w.abort("symbolic skip of runtime.Caller")
		}
		left := int(skip.val)
		th := w.st.threads[w.st.cur]
		for i := len(th.frames) - 1; i >= 0; i-- {
			f := th.frames[i]
			if f.fi.fn.Synthetic != "" && f.initPkg == nil {
				continue
			}
			if left > 0 {
				left--
				continue
			}
			pc := w.pcOf(f)
			e, _ := w.eng.pcEnt(pc)
			return Tuple{w.tp.Const(pc, 64), &Str{s: e.file}, w.tp.Const(uint64(e.line), 64), w.tp.tru}
		}
		return w.zeroResults(fn)
	}
	m["runtime.CallersFrames"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		s := new(Value)
		t := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		z := w.zero(t).(Struct)
		*s = z
		z[0] = Slice{a: append([]Value{}, args[0].(Slice).a...)}
		return Ptr{s: s}
	}
	m["(*runtime.Frames).Next"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		ft := fn.Signature.Results().At(0).Type()
		f := w.zero(ft).(Struct)
		st := ft.Underlying().(*types.Struct)
		p := args[0].(Ptr)
		rest := (*p.s).(Struct)[0].(Slice).a
		if len(rest) == 0 {
			return Tuple{f, w.tp.fls}
		}
		pc, ok := rest[0].(*Term)
		if !ok || !pc.isConst() {
			w.abort("symbolic program counter")
		}
		nf := append(Struct{}, (*p.s).(Struct)...)
		nf[0] = Slice{a: rest[1:]}
		w.setSlot(p.s, nf)
		e, known := w.eng.pcEnt(pc.val)
		for i := 0; i < st.NumFields() && known; i++ {
			switch st.Field(i).Name() {
			case "Function":
				f[i] = &Str{s: e.fn}
			case "File":
				f[i] = &Str{s: e.file}
			case "Line":
				f[i] = w.tp.Const(uint64(e.line), 64)
			case "PC":
				f[i] = pc
			}
		}
		return Tuple{f, w.tp.Bool(len(rest) > 1)}
	}
	exit := func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		panic(pathEnd{"panic: process exit"})
	}
	m["os.Exit"] = exit
	m["runtime.Goexit"] = exit
	m["(*testing.common).Log"] = nop
	m["(*testing.common).Logf"] = nop
	m["(*testing.common).Helper"] = nop
	m["testing.Testing"] = nop

	// ---- time ----
	m["time.now"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		w.clock++
		return Tuple{w.tp.Const(uint64(1700000000+w.clock), 64), w.tp.Const(123456789, 32), w.tp.Const(uint64(1000000000+w.clock*1000000000), 64)}
	}
	m["time.runtimeNano"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		w.clock++
		return w.tp.Const(uint64(1000000000+w.clock*1000000000), 64)
	}
	m["runtime.nanotime"] = m["time.runtimeNano"]

	// ---- math ----
	for _, n := range []string{"math.Float64bits", "math.Float64frombits", "math.Float32bits", "math.Float32frombits",
		"internal/abi.NoEscape", "internal/abi.Escape", "strings.noescape", "log/slog/internal/buffer.noescape", "reflect.noescape"} {
		m[n] = ident
	}
	rnd := func(mode uint64) intrinsic {
		return func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
			if t := args[0].(*Term); t.real {
				return w.realRound(t, mode)
			}
			return w.tp.FConv(OpFrnd, args[0].(*Term), 64, mode)
		}
	}
	m["math.RoundToEven"], m["math.Round"], m["math.Ceil"], m["math.Floor"], m["math.Trunc"] = rnd(0), rnd(1), rnd(2), rnd(3), rnd(4)
	m["math.Sqrt"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value { return w.tp.FSqrt(args[0].(*Term)) }
	m["math.sqrt"] = m["math.Sqrt"]
	m["math.Abs"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		if t := args[0].(*Term); t.real {
			return w.tp.Ite(w.tp.FCmp(OpFlt, t, w.tp.Const(0, 64)), w.realOp(token.SUB, w.tp.Const(0, 64), t).(*Term), t)
		}
		return w.tp.Bin(OpBand, args[0].(*Term), w.tp.Const(^uint64(0)>>1, 64))
	}
	f1 := map[string]func(float64) float64{"math.Exp": math.Exp, "math.Log": math.Log, "math.Log10": math.Log10, "math.Log2": math.Log2,
		"math.Sin": math.Sin, "math.Cos": math.Cos, "math.Tan": math.Tan, "math.Atan": math.Atan, "math.Exp2": math.Exp2, "math.Log1p": math.Log1p}
	for n, f := range f1 {
		m[n] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
			t := args[0].(*Term)
			if !t.isConst() {
				w.abort("transcendental function of a symbolic value")
			}
			return w.tp.Const(math.Float64bits(f(f64(t.val))), 64)
		}
	}
	m["math.Pow"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		a, b := args[0].(*Term), args[1].(*Term)
		if !a.isConst() || !b.isConst() {
			w.abort("power of a symbolic value")
		}
		return w.tp.Const(math.Float64bits(math.Pow(f64(a.val), f64(b.val))), 64)
	}

	// ---- internal/bytealg ----
	idxByte := func(n int, at func(int) *Term, c *Term, w *Worker) Value {
		for i := 0; i < n; i++ {
			if w.decide(w.tp.Eq(at(i), c)) {
				return w.tp.Const(uint64(i), 64)
			}
		}
		return w.tp.Const(^uint64(0), 64)
	}
	sl := func(v Value) (int, func(int) *Term) {
		a := v.(Slice).a
		return len(a), func(i int) *Term { return a[i].(*Term) }
	}
	ss := func(w *Worker, v Value) (int, func(int) *Term) {
		x := v.(*Str)
		return x.Len(), func(i int) *Term { return w.strByte(x, i) }
	}
	m["internal/bytealg.IndexByte"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		n, at := sl(args[0])
		return idxByte(n, at, args[1].(*Term), w)
	}
	m["internal/bytealg.IndexByteString"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		x := args[0].(*Str)
		c := args[1].(*Term)
		if x.b == nil && c.isConst() {
			return w.tp.Const(uint64(int64(strings.IndexByte(x.s, byte(c.val)))), 64)
		}
		n, at := ss(w, args[0])
		return idxByte(n, at, c, w)
	}
	count := func(n int, at func(int) *Term, c *Term, w *Worker) Value {
		r := w.tp.Const(0, 64)
		for i := 0; i < n; i++ {
			r = w.tp.Bin(OpAdd, r, w.tp.BoolBV(w.tp.Eq(at(i), c), 64))
		}
		return r
	}
	m["internal/bytealg.Count"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		n, at := sl(args[0])
		return count(n, at, args[1].(*Term), w)
	}
	m["internal/bytealg.CountString"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		n, at := ss(w, args[0])
		return count(n, at, args[1].(*Term), w)
	}
	equal := func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		n, at := sl(args[0])
		n2, at2 := sl(args[1])
		if n != n2 {
			return w.tp.fls
		}
		r := w.tp.tru
		for i := 0; i < n; i++ {
			r = w.tp.And(r, w.tp.Eq(at(i), at2(i)))
		}
		return r
	}
	m["internal/bytealg.Equal"] = equal
	m["bytes.Equal"] = equal
	cmp := func(w *Worker, n int, at func(int) *Term, n2 int, at2 func(int) *Term) Value {
		k := 0
		if n < n2 {
			k = -1
		} else if n > n2 {
			k = 1
		}
		r := w.tp.Const(uint64(int64(k)), 64)
		for i := min(n, n2) - 1; i >= 0; i-- {
			a, b := at(i), at2(i)
			r = w.tp.Ite(w.tp.Eq(a, b), r, w.tp.Ite(w.tp.Ult(a, b), w.tp.Const(^uint64(0), 64), w.tp.Const(1, 64)))
		}
		return r
	}
	m["internal/bytealg.Compare"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		n, at := sl(args[0])
		n2, at2 := sl(args[1])
		return cmp(w, n, at, n2, at2)
	}
	cmps := func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		n, at := ss(w, args[0])
		n2, at2 := ss(w, args[1])
		return cmp(w, n, at, n2, at2)
	}
	m["internal/bytealg.CompareString"] = cmps
	m["strings.Compare"] = cmps
	m["runtime.cmpstring"] = cmps
	m["internal/bytealg.MakeNoZero"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		n := int(w.concreteInt(args[0]))
		c := roundSize(n)
		s := w.makeSlice(types.Typ[types.Uint8], c, c)
		return Slice{s.a[:n]}
	}
	m["strings.Clone"] = ident
	m["internal/stringslite.Clone"] = ident

	// ---- unicode/utf8: the same decoding the range statement uses ----
	m["unicode/utf8.DecodeRuneInString"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		s := args[0].(*Str)
		if s.Len() == 0 {
			return Tuple{w.tp.Const(0xfffd, 32), w.tp.Const(0, 64)}
		}
		r, n := w.decodeRune(s, 0)
		return Tuple{r, w.tp.Const(uint64(n), 64)}
	}
	m["unicode/utf8.DecodeRune"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		a := args[0].(Slice).a
		if len(a) == 0 {
			return Tuple{w.tp.Const(0xfffd, 32), w.tp.Const(0, 64)}
		}
		s := w.bytesToStr(Slice{a[:min(len(a), 4)]})
		r, n := w.decodeRune(s, 0)
		return Tuple{r, w.tp.Const(uint64(n), 64)}
	}

	// ---- reflection, as far as it is needed ----
	typeOf := func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		x := args[0].(Iface)
		if x.t == nil {
			return Iface{}
		}
		return Iface{rtypeT, &RType{x.t}}
	}
	m["reflect.TypeOf"] = typeOf
	m["internal/reflectlite.TypeOf"] = typeOf
	valueOf := func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		x := args[0].(Iface)
		if x.t == nil {
			return w.zeroResults(fn)
		}
		return &RValue{t: x.t, v: x.v}
	}
	m["reflect.ValueOf"] = valueOf
	m["internal/reflectlite.ValueOf"] = valueOf
	m["internal/reflectlite.Swapper"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		s := args[0].(Iface).v.(Slice)
		return &Func{name: "swapper", nat: func(w *Worker, a []Value) Value {
			i, j := int(w.concreteInt(a[0])), int(w.concreteInt(a[1]))
			w.access(&s.a[i], true)
			w.access(&s.a[j], true)
			x, y := copyVal(s.a[i]), copyVal(s.a[j])
			w.assign(&s.a[i], y)
			w.assign(&s.a[j], x)
			return nil
		}}
	}
	m["reflect.Swapper"] = m["internal/reflectlite.Swapper"]
	for _, pk := range []string{"reflect", "internal/reflectlite"} {
		for _, n := range []string{"Len", "Kind", "IsNil", "Elem", "Type", "IsValid", "String", "Int", "Uint", "Float", "Bool",
			"NumField", "Field", "Index", "CanInterface", "Interface", "CanAddr", "Pointer", "MapKeys", "MapIndex", "CanInt", "Bytes",
			"NumMethod", "IsZero", "UnsafePointer", "Comparable", "CanUint", "CanFloat", "Addr", "MethodByName", "FieldByIndexErr", "Cap", "Slice", "Convert",
			"SetString", "SetInt", "SetUint", "SetFloat", "SetBool", "Set", "CanSet", "CanConvert"} {
			name := n
			m["("+pk+".Value)."+n] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
				return w.rvalueMethod(name, fn, args)
			}
		}
	}
	m["unique.Make"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		var sb strings.Builder
		sb.WriteString(fn.String() + ":")
		if !hashKey(args[0], &sb) {
			w.abort("a unique handle of a symbolic value")
		}
		if w.uniq == nil {
			w.uniq = map[string]*Value{}
		}
		p := w.uniq[sb.String()]
		if p == nil {
			v := copyVal(args[0])
			p = &v
			w.uniq[sb.String()] = p
		}
		return Struct{Ptr{s: p}}
	}
	m["reflect.PointerTo"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		return Iface{rtypeT, &RType{types.NewPointer(args[0].(Iface).v.(*RType).t)}}
	}
	m["reflect.New"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		t := args[0].(Iface).v.(*RType).t
		v := w.zero(t)
		return &RValue{t: types.NewPointer(t), v: Ptr{s: &v}}
	}
	m["reflect.Zero"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		t := args[0].(Iface).v.(*RType).t
		return &RValue{t: t, v: w.zero(t)}
	}
	m[modelPkg+".reflectApply"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		f, ok := args[0].(*RValue)
		if !ok {
			w.goPanic("reflect: call of a zero Value")
		}
		g, _ := f.v.(*Func)
		if f.slot != nil {
			g, _ = (*f.slot).(*Func)
		}
		if g == nil {
			w.goPanic("reflect: call of nil function")
		}
		return tailCall{g, w.applied(f, args[1].(Slice).a)}
	}
	m[modelPkg+".reflectResults"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		res := args[0].(*RValue).t.Underlying().(*types.Signature).Results()
		out := make([]Value, res.Len())
		for i := range out {
			x := args[1]
			if len(out) > 1 {
				x = args[1].(Tuple)[i]
			}
			out[i] = &RValue{t: res.At(i).Type(), v: copyVal(x)}
		}
		return Slice{a: out}
	}
	m["reflect.DeepEqual"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		return w.deepEqual(args[0], args[1], 0)
	}
	m["errors.asAssign"] = nil
	delete(m, "errors.asAssign")
	m[modelPkg+".asAssign"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		err, tgt := args[0].(Iface), args[1].(Iface)
		pt, ok := tgt.t.Underlying().(*types.Pointer)
		if !ok {
			w.goPanic("errors: target must be a non-nil pointer")
		}
		et := pt.Elem()
		good := false
		var v Value
		if it, isI := et.Underlying().(*types.Interface); isI {
			good = w.implements(err, it)
			v = err
		} else {
			good = types.Identical(err.t, et)
			v = err.v
		}
		if good {
			w.store(tgt.v, v)
		}
		return w.tp.Bool(good)
	}
	m["internal/fmtsort.Sort"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		rv := args[0].(*RValue)
		v := rv.v
		if rv.slot != nil {
			v = *rv.slot
		}
		mm, ok := v.(*Map)
		if !ok {
			w.abort("fmtsort of no map")
		}
		if mm == nil {
			return Slice{}
		}
		var es []mapEnt
		for _, e := range mm.ents {
			if !e.live {
				continue
			}
			k, ok := e.k.(*Str)
			if !ok {
				w.abort("fmtsort of other than texts")
			}
			i := len(es)
			for i > 0 && w.decide(w.strLess(k, es[i-1].k.(*Str))) {
				i--
			}
			es = append(es, mapEnt{})
			copy(es[i+1:], es[i:])
			es[i] = e
		}
		r := make([]Value, len(es))
		for i, e := range es {
			r[i] = Struct{&RValue{t: mm.kt, v: e.k}, &RValue{t: mm.vt, v: copyVal(e.v)}}
		}
		return Slice{a: r}
	}
	m["maps.clone"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		x := args[0].(Iface)
		mm := x.v.(*Map)
		if mm == nil {
			return x
		}
		n := newMap(mm.kt, mm.vt)
		for _, e := range mm.ents {
			if e.live {
				w.mapSet(n, e.k, e.v)
			}
		}
		return Iface{x.t, n}
	}

	// ---- strconv on symbolic floats ----
	pinF := func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		for _, a := range args {
			if t, ok := a.(*Term); ok && !t.isConst() && t.w == 64 {
				// NaN and infinities have their text without any digits
				e := w.tp.Extract(t, 62, 52)
				if w.decide(w.tp.Eq(e, w.tp.Const(0x7ff, 11))) {
					return runBody{}
				}
				break
			}
		}
		for i, a := range args {
			if t, ok := a.(*Term); ok && !t.isConst() {
				args[i] = w.pin(t, "formatting a symbolic float")
			}
		}
		return runBody{}
	}
	// ---- decimal integers: the digits are variables with the integer as their weighted sum ----
	for name, model := range map[string]string{"AppendInt": "AppendInt", "AppendUint": "AppendUint", "FormatInt": "FormatInt", "FormatUint": "FormatUint"} {
		m["strconv."+name] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
			n := len(args)
			x, ok := args[n-2].(*Term)
			b, ok2 := args[n-1].(*Term)
			if !ok || !ok2 || x.isConst() || !b.isConst() || b.val != 10 {
				return runBody{}
			}
			return tailCall{w.funcVal(w.eng.modelFunc(model)), args}
		}
	}
	m["strconv.Itoa"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		if args[0].(*Term).isConst() {
			return runBody{}
		}
		return tailCall{w.funcVal(w.eng.modelFunc("FormatInt")), []Value{args[0], w.tp.Const(10, 64)}}
	}
	m[modelPkg+".digits"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		x := args[0].(*Term)
		if x.isConst() {
			return &Str{s: strconv.FormatUint(x.val, 10)}
		}
		return &Str{b: w.digits(x)}
	}
	// a real number is shown as a name of its own
	m[modelPkg+".realName"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		return &Str{s: fmt.Sprintf("R%d", args[0].(*Term).id)}
	}
	m["strconv.AppendFloat"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		if args[1].(*Term).real {
			return tailCall{w.funcVal(w.eng.modelFunc("AppendReal")), args[:2]}
		}
		return pinF(w, fr, fn, args)
	}
	m["strconv.FormatFloat"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		if args[0].(*Term).real {
			return &Str{s: fmt.Sprintf("R%d", args[0].(*Term).id)}
		}
		return pinF(w, fr, fn, args)
	}

	m["(*regexp.Regexp).doExecute"] = regexExecute

	// ---- encoding/json on values outside the encoder's reach ----
	m[modelPkg+".unsupported"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		w.abort(w.concreteStr(args[0].(*Str)))
		return nil
	}
	m[modelPkg+".nativeMarshal"] = func(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
		return w.nativeMarshal(args[0].(Iface))
	}
}

// pin fixes a symbolic value to what the current model says; the rest of its values is
// outside of what is covered, which the path records.
func (w *Worker) pin(t *Term, why string) *Term {
	v, ok := w.evalModel(t)
	if !ok {
		w.abort(why)
	}
	c := w.tp.Const(v, t.w)
	w.addPC(w.tp.Eq(t, c))
	w.cs.notePinned(why)
	return c
}

func (w *Worker) wgAdd(p *Value, d int) {
	w.preempt(d > 0)
	old := w.wg[p]
	w.undo(func() { w.wg[p] = old })
	w.wg[p] = old + d
	if w.wg[p] < 0 {
		w.goPanic("sync: negative WaitGroup counter")
	}
	if d < 0 {
		w.syncEvent(evDone, p, 0)
	} else {
		w.syncEvent(evAdd, p, 0)
	}
}

// digits is the decimal representation of x: one path per length, one variable per digit.
func (w *Worker) digits(x *Term) []*Term {
	tp := w.tp
	n := 1
	p := uint64(10)
	for n < 20 && !w.decide(tp.Ult(x, tp.Const(p, 64))) {
		n++
		p *= 10 // the last product is not used: 10^20 has no place in 64 bits
	}
	ds := w.newInput("", "aux", n, 8)
	var sum, high *Term
	for i, d := range ds {
		lo := uint64('0')
		if i == 0 && n > 1 {
			lo = '1'
		}
		w.pc = append(w.pc, tp.Ule(tp.Const(lo, 8), d), tp.Ule(d, tp.Const('9', 8)))
		v := tp.Zext(tp.Bin(OpSub, d, tp.Const('0', 8)), 64)
		if sum == nil {
			sum = v
		} else {
			high = sum
			sum = tp.Bin(OpAdd, tp.Bin(OpMul, sum, tp.Const(10, 64)), v)
		}
	}
	if n == 20 {
		// the sum must not wrap
		q := tp.Const(1844674407370955161, 64)
		w.pc = append(w.pc, tp.Eq(ds[0], tp.Const('1', 8)), tp.Ule(high, q),
			tp.Or(tp.Ult(high, q), tp.Ule(ds[19], tp.Const('5', 8))))
	}
	// the digits exist and are unique, so this excludes nothing
	if w.decPos >= len(w.dec) {
		if v, ok := w.evalModel(x); ok {
			s := strconv.FormatUint(v, 10)
			if len(s) == n {
				mm := map[uint32]uint64{}
				for i, d := range ds {
					mm[d.id] = uint64(s[i])
				}
				w.mergeModel(mm)
			}
		}
	}
	w.assume(tp.Eq(sum, x))
	return ds
}
