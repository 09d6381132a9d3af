package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var debugOn = os.Getenv("GOSYM_DEBUG") != ""

func dbg(f string, a ...any) {
	if debugOn {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

// ---- compiled functions ----

type opndKind uint8

const (
	okReg opndKind = iota
	okConst
	okGlobal
	okNil
)

type opnd struct {
	k opndKind
	i int
	v Value
	g *ssa.Global
}

type cinstr struct {
	in  ssa.Instruction
	op  []opnd
	dst int
	aux any
}

type fnInfo struct {
	fn     *ssa.Function
	nregs  int
	params []int
	free   []int
	blocks [][]cinstr
	nphi   []int
	intr   intrinsic
	model  *ssa.Function
	name   string
	instrs int
	calls  int
	inRepo bool
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (w *Worker) info(fn *ssa.Function) *fnInfo {
	if fi := w.fns[fn]; fi != nil {
		return fi
	}
	fi := &fnInfo{fn: fn, name: fnName(fn)}
	w.fns[fn] = fi
	if in, ok := intrinsics[fi.name]; ok {
		fi.intr = in
		return fi
	}
	if m, ok := w.models[fi.name]; ok && m != fn {
		fi.model = m
		return fi
	}
	w.compile(fi)
	return fi
}

func (w *Worker) compile(fi *fnInfo) *fnInfo {
	fn := fi.fn
	w.eng.buildFn(fn)
	if fn.Pkg != nil {
		fi.inRepo = strings.HasPrefix(fn.Pkg.Pkg.Path(), repoModule) && !strings.Contains(fn.Pkg.Pkg.Path(), "/zzverif")
	} else if fn.Origin() != nil && fn.Origin().Pkg != nil {
		pp := fn.Origin().Pkg.Pkg.Path()
		fi.inRepo = strings.HasPrefix(pp, repoModule) && !strings.Contains(pp, "/zzverif")
	}
	if fn.Blocks == nil {
		return fi
	}
	regs := map[ssa.Value]int{}
	alloc := func(v ssa.Value) int {
		i := fi.nregs
		fi.nregs++
		regs[v] = i
		return i
	}
	for _, p := range fn.Params {
		fi.params = append(fi.params, alloc(p))
	}
	for _, p := range fn.FreeVars {
		fi.free = append(fi.free, alloc(p))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				alloc(v)
			}
		}
	}
	var rands [16]*ssa.Value
	for _, b := range fn.Blocks {
		var cb []cinstr
		nphi := 0
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = regs[v]
			}
			if _, ok := in.(*ssa.Phi); ok {
				nphi++
			}
			for _, op := range in.Operands(rands[:0]) {
				ci.op = append(ci.op, w.operand(*op, regs))
			}
			cb = append(cb, ci)
			fi.instrs++
		}
		fi.blocks = append(fi.blocks, cb)
		fi.nphi = append(fi.nphi, nphi)
	}
	return fi
}

func (w *Worker) operand(v ssa.Value, regs map[ssa.Value]int) opnd {
	switch x := v.(type) {
	case nil:
		return opnd{k: okNil}
	case *ssa.Const:
		return opnd{k: okConst, v: w.constValue(x)}
	case *ssa.Global:
		return opnd{k: okGlobal, g: x}
	case *ssa.Function:
		return opnd{k: okConst, v: w.funcVal(x)}
	case *ssa.Builtin:
		return opnd{k: okConst, v: &Func{bi: x}}
	}
	i, ok := regs[v]
	if !ok {
		w.abort(fmt.Sprintf("no register for %s", v))
	}
	return opnd{k: okReg, i: i}
}

func (w *Worker) funcVal(fn *ssa.Function) *Func {
	if f := w.funcVals[fn]; f != nil {
		return f
	}
	f := &Func{fn: fn}
	w.funcVals[fn] = f
	return f
}

// ---- frames, threads, states ----

type deferred struct {
	fn   *Func
	args []Value
	inv  *cinstr
}

type Frame struct {
	fi        *fnInfo
	regs      []Value
	block     int
	prev      int
	pc        int
	ret       int // register of the caller that gets the result, -1 none
	defers    []deferred
	unwinding bool  // running defers because of a panic
	panicVal  Value // valid while unwinding and not recovered
	panicMsg  string
	recovered bool
	isDefer   bool // called by RunDefers or by unwinding
	shared    bool
	initPkg   *ssa.Package
}

type Thread struct {
	id      int
	frames  []*Frame
	blocked string
	wait    func() bool
	done    bool
	skip    bool // has been preempted before the synchronisation it is at
}

type undoEnt struct {
	s   *Value
	old Value
	f   func()
}

// Input is one symbolic input in creation order.
type Input struct {
	name string
	kind string // "u8","i64","bool","bytes",...
	t    []*Term
}

type Obs struct {
	name string
	v    []*Term
	str  string // concrete text when v is nil
	lit  bool
}

type snapshot struct {
	threads []*Thread
	cur     int
	pcLen   int
	inLen   int
	obsLen  int
	trail   int
	dec     []Dec
	decPos  int
	model   map[uint32]uint64
	steps   int
	evLen   int
	reach   int
}

type abortErr struct{ why string }
type goPanicErr struct {
	v   Value
	msg string
}
type pathEnd struct{ why string }
type blockErr struct {
	why  string
	wait func() bool
	next int  // goroutine to run instead, -1: the next one that can
	skip bool // the instruction is not a place of preemption when it runs again
}

func (w *Worker) abort(why string) { panic(abortErr{why}) }

// goPanic raises a run-time panic of the interpreted program.
func (w *Worker) goPanic(msg string) {
	if debugOn {
		dbg("go panic: %s at %s", msg, w.stackText())
	}
	panic(goPanicErr{w.runtimeErr(msg), msg})
}

func (w *Worker) runtimeErr(msg string) Value {
	if w.eng.rtErr != nil {
		return Iface{w.eng.rtErr, &Str{s: strings.TrimPrefix(msg, "runtime error: ")}}
	}
	return Iface{types.Typ[types.String], &Str{s: msg}}
}

func (w *Worker) undo(f func()) {
	if w.noTrail == 0 {
		w.trail = append(w.trail, undoEnt{f: f})
	}
}

func (w *Worker) rollback(mark int) {
	for i := len(w.trail) - 1; i >= mark; i-- {
		e := &w.trail[i]
		if e.f != nil {
			e.f()
			e.f = nil
		} else {
			*e.s = e.old
			e.s, e.old = nil, nil
		}
	}
	w.trail = w.trail[:mark]
}

func (w *Worker) setSlot(s *Value, v Value) {
	if w.noTrail == 0 {
		w.trail = append(w.trail, undoEnt{s: s, old: *s})
	}
	*s = v
}

// assign stores v into *s, keeping the identity of nested slots.
func (w *Worker) assign(s *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		if d, ok := (*s).(Struct); ok && len(d) == len(x) {
			for i := range x {
				w.assign(&d[i], x[i])
			}
			return
		}
		w.setSlot(s, copyVal(v))
		return
	case Array:
		if d, ok := (*s).(Array); ok && len(d) == len(x) {
			for i := range x {
				w.assign(&d[i], x[i])
			}
			return
		}
		w.setSlot(s, copyVal(v))
		return
	}
	w.setSlot(s, v)
}

func (w *Worker) globalSlot(g *ssa.Global) *Value {
	if s := w.globals[g]; s != nil {
		return s
	}
	if g.Pkg != nil {
		w.initPackage(g.Pkg)
	}
	if s := w.globals[g]; s != nil {
		return s
	}
	s := new(Value)
	*s = w.zero(g.Type().(*types.Pointer).Elem())
	w.globals[g] = s
	return s
}

// initPackage interprets the package's initialiser once, outside of any path.
func (w *Worker) initPackage(p *ssa.Package) {
	if w.inited[p] {
		return
	}
	w.inited[p] = true
	w.eng.buildPkg(p)
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok && w.globals[g] == nil {
			s := new(Value)
			*s = w.zero(g.Type().(*types.Pointer).Elem())
			w.globals[g] = s
		}
	}
	if noInit[p.Pkg.Path()] {
		if p.Pkg.Path() == "os" {
			if g, ok := p.Members["Args"].(*ssa.Global); ok {
				*w.globals[g] = Slice{a: []Value{&Str{s: "verif"}}}
			}
			for _, n := range []string{"Stdin", "Stdout", "Stderr"} {
				if g, ok := p.Members[n].(*ssa.Global); ok {
					f := new(Value)
					*f = w.zero(g.Type().(*types.Pointer).Elem().(*types.Pointer).Elem())
					*w.globals[g] = Ptr{s: f}
				}
			}
		}
		return
	}
	fn := p.Func("init")
	if fn == nil {
		return
	}
	w.nested(fn, p)
}

// nested runs fn to completion, concretely, without trail, and restores the state.
func (w *Worker) nested(fn *ssa.Function, p *ssa.Package) {
	saved := w.st
	savedDec, savedPos, savedIst := w.dec, w.decPos, w.ist
	savedModel, savedPC := w.model, w.pc
	w.noTrail++
	w.nest++
	w.st = &State{}
	defer func() {
		w.noTrail--
		w.nest--
		w.st = saved
		w.dec, w.decPos, w.ist = savedDec, savedPos, savedIst
		w.model, w.pc = savedModel, savedPC
	}()
	th := &Thread{}
	w.st.threads = []*Thread{th}
	fi := w.info(fn)
	fr := &Frame{fi: fi, regs: make([]Value, fi.nregs), ret: -1, initPkg: p}
	th.frames = []*Frame{fr}
	for len(th.frames) > 0 {
		if !w.initStep(th, p) {
			return
		}
	}
}

// initStep runs until the nested thread ends or an instruction of it cannot be interpreted,
// in which case that instruction of the initialiser yields a poisoned value.
func (w *Worker) initStep(th *Thread, p *ssa.Package) (cont bool) {
	defer func() {
		if r := recover(); r != nil {
			var why string
			switch e := r.(type) {
			case abortErr:
				why = e.why
			case goPanicErr:
				why = "panic: " + e.msg
			case blockErr:
				why = "blocked: " + e.why
			case pathEnd:
				why = e.why
			default:
				if debugOn {
					debug.PrintStack()
				}
				why = fmt.Sprint(r)
			}
			dbg("init of %s: %s (in %s)", p.Pkg.Path(), why, w.where())
			// back to the initialiser's own frame
			i := len(th.frames) - 1
			for ; i >= 0; i-- {
				if th.frames[i].initPkg != nil {
					break
				}
			}
			if i < 0 {
				th.frames = nil
				cont = false
				return
			}
			// user init functions are frames of their own: skip the call
			fr := th.frames[0]
			th.frames = th.frames[:1]
			blk := fr.fi.blocks[fr.block]
			idx := fr.pc
			if i == 0 && idx < len(blk) {
				// the failing instruction itself, or the call that led here
			}
			if idx >= len(blk) {
				th.frames = nil
				cont = false
				return
			}
			ci := &blk[idx]
			if ci.dst >= 0 {
				fr.regs[ci.dst] = Poison{why}
			}
			if st, ok := ci.in.(*ssa.Store); ok {
				if g, ok := st.Addr.(*ssa.Global); ok {
					*w.globalSlot(g) = Poison{why}
				}
			}
			switch ci.in.(type) {
			case *ssa.If, *ssa.Jump, *ssa.Return:
				th.frames = nil
				cont = false
				return
			}
			fr.pc++
			cont = true
		}
	}()
	steps := 0
	for len(th.frames) > 0 {
		w.step(th)
		steps++
		if steps > 20000000 {
			w.abort("init too long")
		}
	}
	return true
}

func (w *Worker) where() string {
	if w.st == nil || len(w.st.threads) == 0 || w.st.cur >= len(w.st.threads) {
		return "?"
	}
	th := w.st.threads[w.st.cur]
	if len(th.frames) == 0 {
		return "?"
	}
	fr := th.frames[len(th.frames)-1]
	s := fr.fi.name
	if fr.block < len(fr.fi.blocks) && fr.pc < len(fr.fi.blocks[fr.block]) {
		in := fr.fi.blocks[fr.block][fr.pc].in
		s += fmt.Sprintf(" %s [%s]", w.eng.prog.Fset.Position(in.Pos()), in)
	}
	return s
}

func (w *Worker) stack() string {
	var sb strings.Builder
	th := w.st.threads[w.st.cur]
	for i := len(th.frames) - 1; i >= 0; i-- {
		sb.WriteString(th.frames[i].fi.name + " < ")
	}
	return sb.String()
}

type State struct {
	threads []*Thread
	cur     int
}

func (w *Worker) get(fr *Frame, o *opnd) Value {
	switch o.k {
	case okReg:
		v := fr.regs[o.i]
		if p, ok := v.(Poison); ok {
			w.abort("poisoned: " + p.why)
		}
		return v
	case okConst:
		return o.v
	case okGlobal:
		return Ptr{s: w.globalSlot(o.g)}
	}
	return nil
}

// top returns the running frame, cloned if a snapshot shares it.
func (w *Worker) top(th *Thread) *Frame {
	i := len(th.frames) - 1
	fr := th.frames[i]
	if fr.shared {
		c := *fr
		c.regs = append([]Value(nil), fr.regs...)
		c.defers = fr.defers[:len(fr.defers):len(fr.defers)]
		c.shared = false
		fr = &c
		th.frames[i] = fr
	}
	return fr
}

// instrState is what a snapshot taken in mid-instruction must go back to.
type instrState struct {
	mark, dec, pc, in, obs, ev, reach int
}

func (w *Worker) beginInstr() {
	w.ist = instrState{len(w.trail), w.decPos, len(w.pc), len(w.inputs), len(w.obs), len(w.events), w.reached}
}

// Dec is one decision; c is the candidate value when an enumeration made it.
type Dec struct {
	v bool
	c uint64
}

// step executes one instruction of th.
func (w *Worker) step(th *Thread) {
	fr := w.top(th)
	w.beginInstr()
	if fr.unwinding {
		w.unwind(th, fr)
		return
	}
	blk := fr.fi.blocks[fr.block]
	ci := &blk[fr.pc]
	defer func() {
		// cheap path: no panic in flight
		if r := recover(); r != nil {
			if gp, ok := r.(goPanicErr); ok && w.nest >= 0 {
				f := w.top(th)
				f.unwinding = true
				f.panicVal = gp.v
				f.panicMsg = gp.msg
				f.recovered = false
				return
			}
			panic(r)
		}
	}()
	w.exec(th, fr, ci)
}

// stepN executes up to n instructions, sharing one recover frame between them.
func (w *Worker) stepN(th *Thread, n int) (done int) {
	defer func() {
		if r := recover(); r != nil {
			if gp, ok := r.(goPanicErr); ok {
				f := w.top(th)
				f.unwinding = true
				f.panicVal = gp.v
				f.panicMsg = gp.msg
				f.recovered = false
				done++
				return
			}
			panic(r)
		}
	}()
	for ; done < n && len(th.frames) > 0; done++ {
		fr := w.top(th)
		w.beginInstr()
		if fr.unwinding {
			w.unwind(th, fr)
			continue
		}
		w.exec(th, fr, &fr.fi.blocks[fr.block][fr.pc])
	}
	return done
}

// runDeferred makes the last deferred call of fr. It stays in the list until it is made: the
// instruction runs again when the call is an intrinsic that blocks or decides.
func (w *Worker) runDeferred(th *Thread, fr *Frame) {
	n := len(fr.defers)
	d := fr.defers[n-1]
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(goPanicErr); ok {
				fr.defers = fr.defers[:n-1]
			}
			panic(r)
		}
		fr.defers = fr.defers[:n-1]
	}()
	w.pushCall(th, fr, d.fn, d.args, -1, true)
}

// unwind runs one deferred call of a panicking frame, or ends the frame.
func (w *Worker) unwind(th *Thread, fr *Frame) {
	if fr.recovered && len(fr.defers) == 0 {
		// return normally through the recover block
		fr.unwinding = false
		fr.panicVal = nil
		if rb := fr.fi.fn.Recover; rb != nil {
			fr.prev = fr.block
			fr.block = rb.Index
			fr.pc = 0
			return
		}
		w.doReturn(th, fr, w.zeroResults(fr.fi.fn))
		return
	}
	if n := len(fr.defers); n > 0 {
		w.runDeferred(th, fr)
		return
	}
	// propagate
	th.frames = th.frames[:len(th.frames)-1]
	if len(th.frames) == 0 {
		w.uncaught(fr)
		return
	}
	if fr.initPkg != nil {
		w.abort("panic: " + fr.panicMsg)
	}
	c := w.top(th)
	// A panic inside a deferred call replaces the one being handled.
	c.unwinding = true
	c.panicVal = fr.panicVal
	c.panicMsg = fr.panicMsg
	c.recovered = false
}

func (w *Worker) zeroResults(fn *ssa.Function) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return w.zero(res.At(0).Type())
	}
	return w.zero(res)
}

func (w *Worker) uncaught(fr *Frame) {
	msg := fr.panicMsg
	if msg == "" {
		msg = w.panicText(fr.panicVal)
	}
	panic(pathEnd{"panic: " + msg})
}

func (w *Worker) panicText(v Value) string {
	if i, ok := v.(Iface); ok {
		if i.t == nil {
			return "nil"
		}
		return fmt.Sprintf("%s(%s)", i.t, w.show(i.v, 0))
	}
	return fmt.Sprint(v)
}

func (w *Worker) doReturn(th *Thread, fr *Frame, res Value) {
	th.frames = th.frames[:len(th.frames)-1]
	if len(th.frames) == 0 {
		return
	}
	c := w.top(th)
	if fr.isDefer {
		return // the caller's pc stays at RunDefers, or it is unwinding
	}
	if fr.ret >= 0 {
		c.regs[fr.ret] = res
	}
	c.pc++
}

// pushCall begins a call. For intrinsics the result is stored at once.
func (w *Worker) pushCall(th *Thread, fr *Frame, f *Func, args []Value, ret int, isDefer bool) {
	for {
		if f == nil {
			w.goPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		if f.nat != nil {
			r := f.nat(w, args)
			w.finish(fr, ret, isDefer, r)
			return
		}
		if f.bi != nil {
			r := w.builtin(fr, f.bi, args, nil)
			w.finish(fr, ret, isDefer, r)
			return
		}
		fi := w.info(f.fn)
		if fi.intr != nil {
			w.used(fi)
			r := fi.intr(w, fr, f.fn, args)
			if t, ok := r.(tailCall); ok {
				f, args = t.f, t.args
				continue
			}
			if t, ok := r.(runBody); ok {
				_ = t
				fi = w.bodyInfo(f.fn)
			} else {
				w.finish(fr, ret, isDefer, r)
				return
			}
		}
		if fi.model != nil {
			w.usedModel(fi)
			fi = w.info(fi.model)
		}
		if fi.blocks == nil {
			w.abort("no body for " + fi.name)
		}
		if f.fn.Synthetic == "package initializer" && w.nest > 0 && len(th.frames) > 0 {
			w.finish(fr, ret, isDefer, nil)
			return
		}
		if len(th.frames) > 400 {
			w.abort("call depth exceeded in " + fi.name)
		}
		fi.calls++
		nf := &Frame{fi: fi, regs: make([]Value, fi.nregs), ret: ret, isDefer: isDefer}
		if len(args) != len(fi.params) {
			w.abort(fmt.Sprintf("call of %s with %d arguments, wants %d", fi.name, len(args), len(fi.params)))
		}
		copy(nf.regs, args) // parameters are the first registers
		for i, r := range fi.free {
			nf.regs[r] = f.free[i]
		}
		th.frames = append(th.frames[:len(th.frames):len(th.frames)], nf)
		return
	}
}

type tailCall struct {
	f    *Func
	args []Value
}
type runBody struct{}

// bodyInfo compiles fn ignoring its intrinsic.
func (w *Worker) bodyInfo(fn *ssa.Function) *fnInfo {
	if fi := w.bodies[fn]; fi != nil {
		return fi
	}
	fi := w.compile(&fnInfo{fn: fn, name: fnName(fn)})
	w.bodies[fn] = fi
	return fi
}

func (w *Worker) finish(fr *Frame, ret int, isDefer bool, r Value) {
	if isDefer {
		return
	}
	if ret >= 0 {
		fr.regs[ret] = r
	}
	fr.pc++
}

func (w *Worker) jump(fr *Frame, to *ssa.BasicBlock) {
	from := fr.block
	fr.prev = from
	fr.block = to.Index
	fr.pc = 0
	if n := fr.fi.nphi[fr.block]; n > 0 {
		// all phis read before any is written
		var pi int
		for i, p := range to.Preds {
			if p.Index == from {
				pi = i
				break
			}
		}
		blk := fr.fi.blocks[fr.block]
		var tmp [8]Value
		vals := tmp[:0]
		for i := 0; i < n; i++ {
			o := &blk[i].op[pi]
			if o.k == okReg {
				vals = append(vals, fr.regs[o.i])
			} else {
				vals = append(vals, w.get(fr, o))
			}
		}
		for i := 0; i < n; i++ {
			fr.regs[blk[i].dst] = vals[i]
		}
		fr.pc = n
	}
}

// ---- decisions ----

// decide returns the truth of c on this path, forking when both are possible.
func (w *Worker) decide(c *Term) bool { return w.decideC(c, 0) }

func (w *Worker) decideC(c *Term, cand uint64) bool {
	if c.isConst() {
		return c.val != 0
	}
	if w.nest > 0 {
		w.abort("symbolic decision in initialiser")
	}
	lit := func(v bool) *Term {
		if v {
			return c
		}
		return w.tp.Not(c)
	}
	if w.decPos < len(w.dec) {
		v := w.dec[w.decPos].v
		w.decPos++
		w.addPC(lit(v))
		return v
	}
	v, ok := w.evalModel(c)
	val := v != 0
	if !ok {
		// the model cannot say: ask
		r, m := w.sol.Check(w.pc, c)
		if r == Sat {
			val = true
			w.mergeModel(m)
		} else if r == Unsat {
			val = false
		} else {
			r2, m2 := w.sol.Check(w.pc, w.tp.Not(c))
			if r2 == Sat {
				val = false
				w.mergeModel(m2)
				w.incomplete("solver gave no answer on a branch")
			} else if r2 == Unsat {
				val = true
			} else {
				w.abort("solver gave no answer on a branch")
			}
		}
	} else {
		w.sol.stats.ModelHits++
	}
	other := lit(!val)
	r, m := w.sol.Check(w.pc, other)
	switch r {
	case Sat:
		w.fork(Dec{!val, cand}, m)
		w.dec = append(w.dec, Dec{val, cand})
		w.decPos++
		w.addPC(lit(val))
	case Unsat:
		w.dec = append(w.dec, Dec{val, cand})
		w.decPos++
	default:
		w.incomplete("solver gave no answer on a branch in " + w.where())
		w.dec = append(w.dec, Dec{val, cand})
		w.decPos++
		w.addPC(lit(val))
	}
	return val
}

func (w *Worker) addPC(c *Term) {
	if c.isConst() {
		return
	}
	if c.op == OpAnd {
		w.addPC(c.a[0])
		w.addPC(c.a[1])
		return
	}
	w.pc = append(w.pc, c)
}

func (w *Worker) evalModel(t *Term) (uint64, bool) {
	if t.isConst() {
		return t.val, true
	}
	return w.tp.Eval(t, &Model{w.model})
}

func (w *Worker) mergeModel(m map[uint32]uint64) {
	n := make(map[uint32]uint64, len(w.model)+len(m))
	for k, v := range w.model {
		n[k] = v
	}
	for k, v := range m {
		n[k] = v
	}
	w.model = n
	w.tp.gen++
}

func (w *Worker) setModel(m map[uint32]uint64) {
	w.model = m
	w.tp.gen++
}

// fork records the alternative in which the current decision is v.
func (w *Worker) fork(v Dec, m map[uint32]uint64) {
	w.forks++
	model := make(map[uint32]uint64, len(w.model)+len(m))
	for k, x := range w.model {
		model[k] = x
	}
	for k, x := range m {
		model[k] = x
	}
	dec := make([]Dec, len(w.dec)+1)
	copy(dec, w.dec)
	dec[len(w.dec)] = v
	if w.eng.hungry() && len(w.dec) < 4000 {
		nm := map[string]uint64{}
		for k, x := range model {
			nm[w.tp.byID[k].name] = x
		}
		w.eng.donate(&workItem{c: w.cs, dec: dec, model: nm})
		return
	}
	s := &snapshot{cur: w.st.cur, pcLen: w.ist.pc, inLen: w.ist.in, obsLen: w.ist.obs, trail: w.ist.mark,
		dec: dec, decPos: w.ist.dec, model: model, steps: w.steps, evLen: w.ist.ev, reach: w.ist.reach}
	for _, th := range w.st.threads {
		c := *th
		c.frames = append([]*Frame(nil), th.frames...)
		for _, f := range c.frames {
			f.shared = true
		}
		s.threads = append(s.threads, &c)
	}
	// The frame now running was marked shared too: it may not be written any more, except
	// by this instruction, which must not have changed it before its last decision. To keep
	// that simple the running thread goes on with a copy.
	th := w.st.threads[w.st.cur]
	i := len(th.frames) - 1
	run := th.frames[i]
	old := *run
	old.regs = append([]Value(nil), run.regs...)
	old.defers = run.defers[:len(run.defers):len(run.defers)]
	old.shared = true
	s.threads[w.st.cur].frames[i] = &old
	run.shared = false
	w.snaps = append(w.snaps, s)
}

// resume restores the youngest snapshot.
func (w *Worker) resume() {
	s := w.snaps[len(w.snaps)-1]
	w.snaps[len(w.snaps)-1] = nil
	w.snaps = w.snaps[:len(w.snaps)-1]
	w.rollback(s.trail)
	w.st.threads = s.threads
	w.st.cur = s.cur
	w.pc = w.pc[:s.pcLen]
	w.inputs = w.inputs[:s.inLen]
	w.obs = w.obs[:s.obsLen]
	w.events = w.events[:s.evLen]
	w.dec = s.dec
	w.decPos = s.decPos
	w.steps = s.steps
	w.reached = s.reach
	w.setModel(s.model)
	w.pathIncomplete = ""
}

// concretize enumerates the values of t over forked paths and returns this path's.
func (w *Worker) concretize(t *Term) uint64 {
	for n := 0; ; n++ {
		if t.isConst() {
			return t.val
		}
		if n > 5000 {
			w.abort("too many values to enumerate")
		}
		var v uint64
		if w.decPos < len(w.dec) {
			v = w.dec[w.decPos].c
		} else {
			x, ok := w.evalModel(t)
			if !ok {
				w.abort("cannot evaluate a term to enumerate")
			}
			v = x
		}
		if w.decideC(w.tp.Eq(t, w.tp.Const(v, t.w)), v) {
			return v
		}
	}
}

func (w *Worker) incomplete(why string) {
	w.pathIncomplete = why
	w.cs.noteIncomplete(why)
}

// ---- path driver ----

const maxSteps = 30_000_000

// runPath runs the current state until the path ends; it returns why.
func (w *Worker) runPath() (why string, kind string) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case abortErr:
				why, kind = e.why+" in "+w.where(), "abort"
				dbg("abort: %s\n   %s", why, w.stack())
			case pathEnd:
				why = e.why
				kind = "end"
				if strings.HasPrefix(why, "panic: ") {
					kind = "panic"
				} else if strings.HasPrefix(why, "assert: ") {
					kind = "assert"
				}
			case goPanicErr:
				why, kind = "panic: "+e.msg, "panic"
			default:
				if debugOn {
					fmt.Fprintf(os.Stderr, "engine fault: %v in %s\n%s\n", r, w.where(), debug.Stack())
				}
				why, kind = fmt.Sprintf("engine fault: %v in %s", r, w.where()), "abort"
			}
		}
	}()
	for {
		th := w.st.threads[w.st.cur]
		if len(th.frames) == 0 {
			th.done = true
			if w.st.cur == 0 {
				return "return", "return"
			}
			w.schedule()
			continue
		}
		if w.steps > w.stepLimit {
			w.abort("step budget exceeded")
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if b, ok := r.(blockErr); ok {
						t2 := w.st.threads[w.st.cur]
						t2.blocked, t2.wait = b.why, b.wait
						t2.skip = t2.skip || b.skip
						if b.next >= 0 {
							w.st.cur = b.next
							t3 := w.st.threads[b.next]
							t3.blocked, t3.wait = "", nil
						} else {
							w.schedule()
						}
						return
					}
					panic(r)
				}
			}()
			w.steps += w.stepN(th, 2000)
		}()
		if w.steps&0xffff < 2000 && w.eng.expired() {
			w.abort("time budget exhausted")
		}
	}
}

// schedule picks the next runnable thread.
func (w *Worker) schedule() {
	n := len(w.st.threads)
	for k := 1; k <= n; k++ {
		i := (w.st.cur + k) % n
		th := w.st.threads[i]
		if th.done || (len(th.frames) == 0 && i != 0) {
			continue
		}
		if th.wait != nil {
			if !th.wait() {
				continue
			}
			c := *th
			c.wait, c.blocked = nil, ""
			w.st.threads[i] = &c
		}
		w.st.cur = i
		return
	}
	panic(pathEnd{"panic: all goroutines are asleep - deadlock!"})
}

func (w *Worker) nilDeref() {
	w.goPanic("runtime error: invalid memory address or nil pointer dereference")
}

func posOf(w *Worker, p token.Pos) string { return w.eng.prog.Fset.Position(p).String() }

var _ = time.Now

func (w *Worker) stackText() string {
	if w.st == nil || len(w.st.threads) == 0 {
		return "?"
	}
	th := w.st.threads[w.st.cur]
	var out []string
	for i := len(th.frames) - 1; i >= 0 && len(out) < 12; i-- {
		fr := th.frames[i]
		s := fr.fi.name
		if fr.block < len(fr.fi.blocks) && fr.pc < len(fr.fi.blocks[fr.block]) {
			s += " " + w.eng.prog.Fset.Position(fr.fi.blocks[fr.block][fr.pc].in.Pos()).String()
		}
		out = append(out, s)
	}
	return strings.Join(out, "\n     ")
}
