package main

import (
	"fmt"
	"go/token"
	"go/types"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (w *Worker) exec(th *Thread, fr *Frame, ci *cinstr) {
	switch in := ci.in.(type) {
	case *ssa.Call:
		w.execCall(th, fr, ci, &in.Call, ci.dst)
		return
	case *ssa.Jump:
		w.jump(fr, fr.fi.fn.Blocks[fr.block].Succs[0])
		return
	case *ssa.If:
		c := w.get(fr, &ci.op[0]).(*Term)
		b := fr.fi.fn.Blocks[fr.block]
		if w.decide(c) {
			w.jump(fr, b.Succs[0])
		} else {
			w.jump(fr, b.Succs[1])
		}
		return
	case *ssa.Return:
		var res Value
		switch len(ci.op) {
		case 0:
		case 1:
			res = copyVal(w.get(fr, &ci.op[0]))
		default:
			t := make(Tuple, len(ci.op))
			for i := range ci.op {
				t[i] = copyVal(w.get(fr, &ci.op[i]))
			}
			res = t
		}
		if fr.isDefer && fr.fi != nil {
			// results of deferred calls are dropped
		}
		w.doReturn(th, fr, res)
		return
	case *ssa.RunDefers:
		if n := len(fr.defers); n > 0 {
			w.runDeferred(th, fr)
			return
		}
		fr.pc++
		return
	case *ssa.Panic:
		v := w.get(fr, &ci.op[0])
		if i, ok := v.(Iface); ok && i.t == nil {
			w.goPanic("panic called with nil argument")
		}
		panic(goPanicErr{v, ""})
	case *ssa.Defer:
		f, args := w.callee(fr, ci, &in.Call)
		fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], deferred{fn: f, args: args})
		fr.pc++
		return
	case *ssa.Go:
		f, args := w.callee(fr, ci, &in.Call)
		w.spawn(f, args)
		fr.pc++
		return
	case *ssa.Store:
		p := w.get(fr, &ci.op[0])
		v := w.get(fr, &ci.op[1])
		w.store(p, v)
		fr.pc++
		return
	case *ssa.MapUpdate:
		m := w.get(fr, &ci.op[0]).(*Map)
		if m == nil {
			w.goPanic("assignment to entry in nil map")
		}
		w.mapSet(m, w.get(fr, &ci.op[1]), w.get(fr, &ci.op[2]))
		fr.pc++
		return
	case *ssa.Send:
		w.chanSend(w.get(fr, &ci.op[0]).(*Chan), copyVal(w.get(fr, &ci.op[1])))
		fr.pc++
		return
	}
	v := w.value(th, fr, ci)
	fr.regs[ci.dst] = v
	fr.pc++
}

func (w *Worker) value(th *Thread, fr *Frame, ci *cinstr) Value {
	switch in := ci.in.(type) {
	case *ssa.Alloc:
		s := new(Value)
		*s = w.zero(in.Type().(*types.Pointer).Elem())
		return Ptr{s: s}
	case *ssa.BinOp:
		return w.binop(in.Op, in.X.Type(), in.Y.Type(), w.get(fr, &ci.op[0]), w.get(fr, &ci.op[1]))
	case *ssa.UnOp:
		x := w.get(fr, &ci.op[0])
		return w.unop(in, x)
	case *ssa.Phi:
		w.abort("phi out of place")
	case *ssa.ChangeType:
		return w.get(fr, &ci.op[0])
	case *ssa.Convert:
		return w.convert(w.get(fr, &ci.op[0]), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		return w.convert(w.get(fr, &ci.op[0]), in.X.Type(), in.Type())
	case *ssa.ChangeInterface:
		return w.get(fr, &ci.op[0])
	case *ssa.SliceToArrayPointer:
		x := w.get(fr, &ci.op[0]).(Slice)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(x.a) < n {
			w.goPanic("runtime error: cannot convert slice to array pointer")
		}
		s := new(Value)
		*s = Array(x.a[:n:n])
		return Ptr{s: s}
	case *ssa.MakeInterface:
		v := w.get(fr, &ci.op[0])
		return Iface{in.X.Type(), copyVal(v)}
	case *ssa.MakeClosure:
		f := &Func{fn: in.Fn.(*ssa.Function)}
		for i := 1; i < len(ci.op); i++ {
			f.free = append(f.free, w.get(fr, &ci.op[i]))
		}
		return f
	case *ssa.MakeMap:
		t := in.Type().Underlying().(*types.Map)
		return newMap(t.Key(), t.Elem())
	case *ssa.MakeChan:
		n := w.concreteInt(w.get(fr, &ci.op[0]))
		return &Chan{cap: int(n)}
	case *ssa.MakeSlice:
		n := w.concreteInt(w.get(fr, &ci.op[0]))
		c := w.concreteInt(w.get(fr, &ci.op[1]))
		if n < 0 || n > 1<<26 {
			if n < 0 || n > 1<<40 {
				w.goPanic("runtime error: makeslice: len out of range")
			}
			w.abort("slice too large")
		}
		if c < n {
			w.goPanic("runtime error: makeslice: cap out of range")
		}
		if c > 1<<26 {
			w.abort("slice too large")
		}
		return w.makeSlice(in.Type().Underlying().(*types.Slice).Elem(), int(n), int(c))
	case *ssa.Slice:
		return w.slice(in, w.get(fr, &ci.op[0]), w.getOpt(fr, &ci.op[1]), w.getOpt(fr, &ci.op[2]), w.getOpt(fr, &ci.op[3]))
	case *ssa.FieldAddr:
		p, ok := w.get(fr, &ci.op[0]).(Ptr)
		if !ok {
			w.abort("field of a strange pointer")
		}
		if p.isNil() {
			w.nilDeref()
		}
		if p.s == nil {
			w.abort("field of an unmaterialised element")
		}
		st, ok := (*p.s).(Struct)
		if !ok {
			if po, is := (*p.s).(Poison); is {
				w.abort("poisoned: " + po.why)
			}
			w.abort(fmt.Sprintf("field address in %T", *p.s))
		}
		return Ptr{s: &st[in.Field]}
	case *ssa.Field:
		x := w.get(fr, &ci.op[0])
		st, ok := x.(Struct)
		if !ok {
			w.abort(fmt.Sprintf("field of %T", x))
		}
		return copyVal(st[in.Field])
	case *ssa.IndexAddr:
		x := w.get(fr, &ci.op[0])
		i := w.get(fr, &ci.op[1]).(*Term)
		var a []Value
		switch y := x.(type) {
		case Slice:
			a = y.a
		case Ptr:
			if y.isNil() {
				w.nilDeref()
			}
			if y.s == nil {
				w.abort("element address of an unmaterialised element")
			}
			ar, ok := (*y.s).(Array)
			if !ok {
				w.abort(fmt.Sprintf("element address in %T", *y.s))
			}
			a = ar
		default:
			w.abort(fmt.Sprintf("element address in %T", x))
		}
		return w.elemAddr(a, i, in.Index.Type())
	case *ssa.Index:
		x := w.get(fr, &ci.op[0])
		i := w.get(fr, &ci.op[1]).(*Term)
		switch y := x.(type) {
		case *Str:
			return w.strIndex(y, i, in.Index.Type())
		case Array:
			p := w.elemAddr(y, i, in.Index.Type())
			return w.load(p, in.Type())
		}
		w.abort(fmt.Sprintf("index of %T", x))
	case *ssa.Lookup:
		x := w.get(fr, &ci.op[0])
		k := w.get(fr, &ci.op[1])
		if s, ok := x.(*Str); ok {
			return w.strIndex(s, k.(*Term), in.Index.Type())
		}
		m := x.(*Map)
		w.accessMap(m, false)
		v, ok := w.mapGet(m, k)
		if !ok {
			v = w.zero(in.X.Type().Underlying().(*types.Map).Elem())
		}
		if in.CommaOk {
			return Tuple{v, w.tp.Bool(ok)}
		}
		return v
	case *ssa.Extract:
		x := w.get(fr, &ci.op[0])
		t, ok := x.(Tuple)
		if !ok {
			w.abort(fmt.Sprintf("extract from %T", x))
		}
		return t[in.Index]
	case *ssa.TypeAssert:
		return w.typeAssert(in, w.get(fr, &ci.op[0]))
	case *ssa.Range:
		switch x := w.get(fr, &ci.op[0]).(type) {
		case *Str:
			return &StrIter{s: x}
		case *Map:
			w.accessMap(x, false)
			it := &MapIter{m: x}
			if w.mapOrder && x != nil && x.live > 1 && x.live <= 4 {
				it.order = w.chooseOrder(x)
			}
			return it
		}
		w.abort("range")
	case *ssa.Next:
		return w.next(in, w.get(fr, &ci.op[0]))
	case *ssa.Select:
		return w.selectOp(in, fr, ci)
	}
	w.abort(fmt.Sprintf("instruction %T", ci.in))
	return nil
}

func (w *Worker) getOpt(fr *Frame, o *opnd) Value {
	if o.k == okNil {
		return nil
	}
	return w.get(fr, o)
}

func (w *Worker) concreteInt(v Value) int64 {
	t := v.(*Term)
	if !t.isConst() {
		return sext64(w.concretize(t), t.w)
	}
	return sext64(t.val, t.w)
}

func (w *Worker) makeSlice(et types.Type, n, c int) Slice {
	a := make([]Value, c)
	if c > 0 {
		z := w.zero(et)
		switch z.(type) {
		case Struct, Array:
			for i := range a {
				a[i] = w.zero(et)
			}
		default:
			for i := range a {
				a[i] = z
			}
		}
	}
	return Slice{a[:n]}
}

// boundsIdx makes i a 64-bit index known to be inside [0,n); symbolic ones are decided.
func (w *Worker) boundsIdx(i *Term, it types.Type, n int) *Term {
	_, signed, _, _ := scalarType(it)
	if i.isConst() {
		v := int64(i.val)
		if signed {
			v = sext64(i.val, i.w)
		}
		if v < 0 || v >= int64(n) {
			w.goPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", v, n))
		}
		return w.tp.Const(uint64(v), 64)
	}
	if signed {
		i = w.tp.Sext(i, 64)
	} else {
		i = w.tp.Zext(i, 64)
	}
	if !w.decide(w.tp.Ult(i, w.tp.Const(uint64(n), 64))) {
		w.goPanic(fmt.Sprintf("runtime error: index out of range with length %d", n))
	}
	return i
}

func (w *Worker) elemAddr(a []Value, i *Term, it types.Type) Ptr {
	i = w.boundsIdx(i, it, len(a))
	if i.isConst() {
		k := int(i.val)
		return Ptr{s: &a[k], e: &elem{base: a, i: k}}
	}
	for k := range a {
		if _, ok := a[k].(*Term); !ok {
			k := int(w.concretize(i))
			return Ptr{s: &a[k], e: &elem{base: a, i: k}}
		}
	}
	return Ptr{e: &elem{base: a, sym: i}}
}

func (w *Worker) strIndex(s *Str, i *Term, it types.Type) Value {
	i = w.boundsIdx(i, it, s.Len())
	if i.isConst() {
		return w.strByte(s, int(i.val))
	}
	b := w.strBytes(s)
	return w.tableLookup(len(b), func(k int) *Term { return b[k] }, i)
}

// tableLookup is the ite over runs of equal entries.
func (w *Worker) tableLookup(n int, at func(int) *Term, i *Term) *Term {
	type run struct {
		end int
		v   *Term
	}
	var runs []run
	for k := 0; k < n; k++ {
		v := at(k)
		if m := len(runs); m > 0 && (runs[m-1].v == v || (v.isConst() && runs[m-1].v.isConst() && v.val == runs[m-1].v.val)) {
			runs[m-1].end = k + 1
			continue
		}
		runs = append(runs, run{k + 1, v})
	}
	if len(runs) > 300 {
		return at(int(w.concretize(i)))
	}
	r := runs[len(runs)-1].v
	for k := len(runs) - 2; k >= 0; k-- {
		r = w.tp.Ite(w.tp.Ult(i, w.tp.Const(uint64(runs[k].end), 64)), runs[k].v, r)
	}
	return r
}

func (w *Worker) load(p Ptr, t types.Type) Value {
	if p.isNil() {
		w.nilDeref()
	}
	if p.s == nil {
		e := p.e
		if e.str != nil {
			if e.i >= e.str.Len() {
				w.abort("load past a string")
			}
			return w.strByte(e.str, e.i)
		}
		return w.tableLookup(len(e.base), func(k int) *Term {
			w.access(&e.base[k], false)
			return e.base[k].(*Term)
		}, e.sym)
	}
	w.access(p.s, false)
	v := *p.s
	if po, ok := v.(Poison); ok {
		w.abort("poisoned: " + po.why)
	}
	return w.retype(copyVal(v), t)
}

// retype handles the layout puns of unsafe code.
func (w *Worker) retype(v Value, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.String {
			if s, ok := v.(Slice); ok {
				return w.bytesToStr(s)
			}
			if _, ok := v.(*Str); !ok {
				w.abort(fmt.Sprintf("reading a string out of %T", v))
			}
		} else if wd, _, _, ok := basicWidth(u); ok {
			x, ok := v.(*Term)
			if !ok || x.w != wd {
				w.abort(fmt.Sprintf("reading %s out of %T", t, v))
			}
		}
	case *types.Slice:
		if _, ok := v.(Slice); !ok {
			w.abort(fmt.Sprintf("reading a slice out of %T", v))
		}
	}
	return v
}

func (w *Worker) store(pv Value, v Value) {
	p, ok := pv.(Ptr)
	if !ok {
		w.abort(fmt.Sprintf("store through %T", pv))
	}
	if p.isNil() {
		w.nilDeref()
	}
	if p.s == nil {
		if p.e.sym == nil {
			w.abort("store into a string")
		}
		if len(p.e.base) > 64 {
			k := int(w.concretize(p.e.sym))
			w.access(&p.e.base[k], true)
			w.setSlot(&p.e.base[k], v)
			return
		}
		for k := range p.e.base {
			w.access(&p.e.base[k], true)
			c := w.tp.Eq(p.e.sym, w.tp.Const(uint64(k), 64))
			w.setSlot(&p.e.base[k], w.tp.Ite(c, v.(*Term), p.e.base[k].(*Term)))
		}
		return
	}
	w.access(p.s, true)
	if x, ok := v.(*Term); ok {
		if y, ok := (*p.s).(*Term); ok && y.w != x.w {
			w.abort("store of another width")
		}
	}
	w.assign(p.s, v)
}

func (w *Worker) unop(in *ssa.UnOp, x Value) Value {
	switch in.Op {
	case token.MUL:
		p, ok := x.(Ptr)
		if !ok {
			w.abort(fmt.Sprintf("load through %T", x))
		}
		return w.load(p, in.Type())
	case token.NOT:
		return w.tp.Not(x.(*Term))
	case token.SUB:
		if s, ok := x.(Struct); ok {
			return Struct{w.fneg(s[0].(*Term)), w.fneg(s[1].(*Term))}
		}
		t := x.(*Term)
		if _, _, fl, _ := scalarType(in.X.Type()); fl {
			return w.fneg(t)
		}
		return w.tp.Neg(t)
	case token.XOR:
		return w.tp.Bnot(x.(*Term))
	case token.ARROW:
		v, ok := w.chanRecv(x.(*Chan), in.X.Type().Underlying().(*types.Chan).Elem())
		if in.CommaOk {
			return Tuple{v, w.tp.Bool(ok)}
		}
		return v
	}
	w.abort("unary " + in.Op.String())
	return nil
}

func (w *Worker) fneg(t *Term) *Term {
	if t.real {
		return w.realOp(token.SUB, w.tp.Const(0, 64), t).(*Term)
	}
	return w.tp.Bin(OpBxor, t, w.tp.Const(uint64(1)<<(t.w-1), t.w))
}

func (w *Worker) binop(op token.Token, xt, yt types.Type, x, y Value) Value {
	tp := w.tp
	switch op {
	case token.EQL:
		return w.eqTyped(xt, x, y)
	case token.NEQ:
		return tp.Not(w.eqTyped(xt, x, y))
	}
	switch a := x.(type) {
	case *Str:
		b := y.(*Str)
		switch op {
		case token.ADD:
			return w.strCat(a, b)
		case token.LSS:
			return w.strLess(a, b)
		case token.GTR:
			return w.strLess(b, a)
		case token.LEQ:
			return tp.Not(w.strLess(b, a))
		case token.GEQ:
			return tp.Not(w.strLess(a, b))
		}
	case *Term:
		b, ok := y.(*Term)
		if !ok {
			w.abort(fmt.Sprintf("binary %s on %T", op, y))
		}
		wd, signed, fl, ok := scalarType(xt)
		if !ok {
			w.abort("binary on " + xt.String())
		}
		if fl && (a.real || b.real) {
			if r := w.realOp(op, a, b); r != nil {
				return r
			}
		}
		if fl {
			switch op {
			case token.ADD:
				return tp.FBin(OpFadd, a, b)
			case token.SUB:
				return tp.FBin(OpFsub, a, b)
			case token.MUL:
				return tp.FBin(OpFmul, a, b)
			case token.QUO:
				return tp.FBin(OpFdiv, a, b)
			case token.LSS:
				return tp.FCmp(OpFlt, a, b)
			case token.LEQ:
				return tp.FCmp(OpFle, a, b)
			case token.GTR:
				return tp.FCmp(OpFlt, b, a)
			case token.GEQ:
				return tp.FCmp(OpFle, b, a)
			}
			break
		}
		switch op {
		case token.ADD:
			return tp.Bin(OpAdd, a, b)
		case token.SUB:
			return tp.Bin(OpSub, a, b)
		case token.MUL:
			return tp.Bin(OpMul, a, b)
		case token.QUO, token.REM:
			if w.decide(tp.Eq(b, tp.Const(0, wd))) {
				w.goPanic("runtime error: integer divide by zero")
			}
			o := OpUdiv
			switch {
			case op == token.QUO && signed:
				o = OpSdiv
			case op == token.REM && signed:
				o = OpSrem
			case op == token.REM:
				o = OpUrem
			}
			return tp.Bin(o, a, b)
		case token.AND:
			if wd == 0 {
				return tp.And(a, b)
			}
			return tp.Bin(OpBand, a, b)
		case token.OR:
			if wd == 0 {
				return tp.Or(a, b)
			}
			return tp.Bin(OpBor, a, b)
		case token.XOR:
			return tp.Bin(OpBxor, a, b)
		case token.AND_NOT:
			return tp.Bin(OpBand, a, tp.Bnot(b))
		case token.SHL, token.SHR:
			_, ysigned, _, _ := scalarType(yt)
			if ysigned && !nonneg(b) {
				if w.decide(tp.Slt(b, tp.Const(0, b.w))) {
					w.goPanic("runtime error: negative shift amount")
				}
			}
			sh := b
			if sh.w > wd {
				sh = tp.Ite(tp.Ult(b, tp.Const(uint64(wd), b.w)), tp.Extract(b, wd-1, 0), tp.Const(uint64(wd), wd))
				if b.isConst() {
					sh = tp.Const(min(b.val, uint64(wd)), wd)
				}
			} else {
				sh = tp.Zext(b, wd)
			}
			if op == token.SHL {
				return tp.Bin(OpShl, a, sh)
			}
			if signed {
				return tp.Bin(OpAshr, a, sh)
			}
			return tp.Bin(OpLshr, a, sh)
		case token.LSS:
			if signed {
				return tp.Slt(a, b)
			}
			return tp.Ult(a, b)
		case token.LEQ:
			if signed {
				return tp.Sle(a, b)
			}
			return tp.Ule(a, b)
		case token.GTR:
			if signed {
				return tp.Slt(b, a)
			}
			return tp.Ult(b, a)
		case token.GEQ:
			if signed {
				return tp.Sle(b, a)
			}
			return tp.Ule(b, a)
		}
	case Struct: // complex
		b := y.(Struct)
		switch op {
		case token.ADD, token.SUB:
			o := OpFadd
			if op == token.SUB {
				o = OpFsub
			}
			return Struct{tp.FBin(o, a[0].(*Term), b[0].(*Term)), tp.FBin(o, a[1].(*Term), b[1].(*Term))}
		}
	}
	w.abort(fmt.Sprintf("binary %s on %T", op, x))
	return nil
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isRuneSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

func (w *Worker) bytesToStr(s Slice) *Str {
	b := make([]*Term, len(s.a))
	for i := range s.a {
		w.access(&s.a[i], false)
		t, ok := s.a[i].(*Term)
		if !ok {
			w.abort(fmt.Sprintf("string of %T", s.a[i]))
		}
		b[i] = t
	}
	return w.mkStr(b)
}

func (w *Worker) strToBytes(s *Str) Slice {
	n := s.Len()
	c := n
	if n > 0 {
		c = roundSize(n)
	}
	a := make([]Value, c)
	for i := 0; i < n; i++ {
		a[i] = w.strByte(s, i)
	}
	z := w.tp.Const(0, 8)
	for i := n; i < c; i++ {
		a[i] = z
	}
	return Slice{a[:n]}
}

func (w *Worker) convert(x Value, from, to types.Type) Value {
	fu, tu := from.Underlying(), to.Underlying()
	tb, tIsBasic := tu.(*types.Basic)
	fb, fIsBasic := fu.(*types.Basic)
	if tIsBasic && tb.Info()&types.IsString != 0 {
		switch {
		case fIsBasic && fb.Info()&types.IsString != 0:
			return x
		case fIsBasic && fb.Info()&types.IsInteger != 0:
			t := x.(*Term)
			if t.w < 32 {
				if isSigned(fb) {
					t = w.tp.Sext(t, 32)
				} else {
					t = w.tp.Zext(t, 32)
				}
			} else if t.w > 32 {
				big := w.tp.Ult(w.tp.Const(0x10ffff, t.w), t)
				if w.decide(big) {
					t = w.tp.Const(0xfffd, 32)
				} else {
					t = w.tp.Extract(t, 31, 0)
				}
			}
			return w.mkStr(w.encodeRune(t))
		case isByteSlice(from):
			return w.bytesToStr(x.(Slice))
		case isRuneSlice(from):
			var b []*Term
			for _, v := range x.(Slice).a {
				b = append(b, w.encodeRune(v.(*Term))...)
			}
			return w.mkStr(b)
		}
	}
	if fIsBasic && fb.Info()&types.IsString != 0 {
		if isByteSlice(to) {
			return w.strToBytes(x.(*Str))
		}
		if isRuneSlice(to) {
			s := x.(*Str)
			var r []Value
			for pos := 0; pos < s.Len(); {
				t, n := w.decodeRune(s, pos)
				r = append(r, t)
				pos += n
			}
			if r == nil {
				r = []Value{}
			}
			return Slice{r}
		}
	}
	if tIsBasic && fIsBasic {
		tw, tsigned, tfl, ok1 := basicWidth(tb)
		fw, fsigned, ffl, ok2 := basicWidth(fb)
		if ok1 && ok2 {
			if p, ok := x.(Ptr); ok {
				return p // uintptr holding a pointer
			}
			t, ok := x.(*Term)
			if !ok {
				w.abort(fmt.Sprintf("convert %T", x))
			}
			return w.convNum(t, fw, fsigned, ffl, tw, tsigned, tfl)
		}
	}
	// unsafe.Pointer, uintptr and pointer types
	switch v := x.(type) {
	case Ptr:
		return v
	case *Term:
		if tIsBasic && tb.Kind() == types.UnsafePointer {
			if v.isConst() && v.val == 0 {
				return Ptr{}
			}
		}
	case Struct:
		return v
	case *Map, Slice, *Func, *Chan, Array:
		return v
	}
	w.abort(fmt.Sprintf("convert %s to %s (%T)", from, to, x))
	return nil
}

func isSigned(b *types.Basic) bool { return b.Info()&types.IsUnsigned == 0 }

func (w *Worker) convNum(t *Term, fw uint8, fs, ff bool, tw uint8, ts, tf bool) Value {
	tp := w.tp
	if t.real {
		if ff && tf {
			return t
		}
		w.abort("conversion of a real to an integer")
	}
	switch {
	case ff && tf:
		return tp.FConv(OpFToF, t, tw, 0)
	case tf:
		op := OpUToF
		if fs {
			op = OpSToF
		}
		return tp.FConv(op, t, tw, 0)
	case ff:
		if ts || tw < 64 {
			// amd64: CVTTSD2SQ, out of range gives the sign bit
			var lo, hi *Term
			if fw == 64 {
				lo, hi = tp.Const(0xC3E0000000000000, 64), tp.Const(0x43E0000000000000, 64)
			} else {
				lo, hi = tp.Const(0xDF000000, 32), tp.Const(0x5F000000, 32)
			}
			in := tp.And(tp.FCmp(OpFle, lo, t), tp.FCmp(OpFlt, t, hi))
			v := tp.Ite(in, tp.FConv(OpFToS, t, 64, 0), tp.Const(1<<63, 64))
			if tw < 64 {
				return tp.Extract(v, tw-1, 0)
			}
			return v
		}
		// unsigned 64: values below 2^63 convert as signed, others are shifted
		two63 := tp.Const(0x43E0000000000000, 64)
		if fw != 64 {
			t = tp.FConv(OpFToF, t, 64, 0)
		}
		small := tp.FCmp(OpFlt, t, two63)
		lo := tp.Const(0xC3E0000000000000, 64)
		in1 := tp.FCmp(OpFle, lo, t)
		a := tp.Ite(in1, tp.FConv(OpFToS, t, 64, 0), tp.Const(1<<63, 64))
		sh := tp.FBin(OpFsub, t, two63)
		in2 := tp.FCmp(OpFlt, sh, two63)
		b := tp.Bin(OpBxor, tp.Ite(in2, tp.FConv(OpFToS, sh, 64, 0), tp.Const(1<<63, 64)), tp.Const(1<<63, 64))
		return tp.Ite(small, a, b)
	}
	if tw < fw {
		return tp.Extract(t, tw-1, 0)
	}
	if fs {
		return tp.Sext(t, tw)
	}
	return tp.Zext(t, tw)
}

// encodeRune is utf8.AppendRune on a 32-bit term.
func (w *Worker) encodeRune(r *Term) []*Term {
	tp := w.tp
	if r.isConst() {
		var b []*Term
		for _, c := range []byte(string(rune(int32(r.val)))) {
			b = append(b, tp.Const(uint64(c), 8))
		}
		return b
	}
	c := func(v uint64) *Term { return tp.Const(v, 32) }
	low := func(t *Term) *Term { return tp.Extract(t, 7, 0) }
	cont := func(sh uint64) *Term {
		return low(tp.Bin(OpBor, c(0x80), tp.Bin(OpBand, tp.Bin(OpLshr, r, c(sh)), c(0x3f))))
	}
	if w.decide(tp.Ult(r, c(0x80))) {
		return []*Term{low(r)}
	}
	if w.decide(tp.Ult(r, c(0x800))) {
		return []*Term{low(tp.Bin(OpBor, c(0xc0), tp.Bin(OpLshr, r, c(6)))), cont(0)}
	}
	bad := tp.Or(tp.Ult(c(0x10ffff), r), tp.And(tp.Ule(c(0xd800), r), tp.Ule(r, c(0xdfff))))
	if w.decide(bad) {
		return []*Term{tp.Const(0xef, 8), tp.Const(0xbf, 8), tp.Const(0xbd, 8)}
	}
	if w.decide(tp.Ult(r, c(0x10000))) {
		return []*Term{low(tp.Bin(OpBor, c(0xe0), tp.Bin(OpLshr, r, c(12)))), cont(6), cont(0)}
	}
	return []*Term{low(tp.Bin(OpBor, c(0xf0), tp.Bin(OpLshr, r, c(18)))), cont(12), cont(6), cont(0)}
}

// decodeRune is utf8.DecodeRuneInString at pos.
func (w *Worker) decodeRune(s *Str, pos int) (*Term, int) {
	tp := w.tp
	if s.b == nil {
		r, n := utf8.DecodeRuneInString(s.s[pos:])
		return tp.Const(uint64(uint32(r)), 32), n
	}
	b0 := s.b[pos]
	k := func(v uint64) *Term { return tp.Const(v, 8) }
	bad := tp.Const(0xfffd, 32)
	z := func(t *Term) *Term { return tp.Zext(t, 32) }
	bits := func(t *Term, m uint64, sh uint64) *Term {
		return tp.Bin(OpShl, z(tp.Bin(OpBand, t, k(m))), tp.Const(sh, 32))
	}
	or := func(a, b *Term) *Term { return tp.Bin(OpBor, a, b) }
	in := func(t *Term, lo, hi uint64) *Term { return tp.And(tp.Ule(k(lo), t), tp.Ule(t, k(hi))) }
	if w.decide(tp.Ult(b0, k(0x80))) {
		return z(b0), 1
	}
	left := len(s.b) - pos
	if left >= 2 && w.decide(in(b0, 0xc2, 0xdf)) {
		if w.decide(in(s.b[pos+1], 0x80, 0xbf)) {
			return or(bits(b0, 0x1f, 6), bits(s.b[pos+1], 0x3f, 0)), 2
		}
		return bad, 1
	}
	if left >= 2 && w.decide(in(b0, 0xe0, 0xef)) {
		lo := tp.Ite(tp.Eq(b0, k(0xe0)), k(0xa0), k(0x80))
		hi := tp.Ite(tp.Eq(b0, k(0xed)), k(0x9f), k(0xbf))
		b1 := s.b[pos+1]
		if w.decide(tp.And(tp.Ule(lo, b1), tp.Ule(b1, hi))) && left >= 3 && w.decide(in(s.b[pos+2], 0x80, 0xbf)) {
			return or(or(bits(b0, 0x0f, 12), bits(b1, 0x3f, 6)), bits(s.b[pos+2], 0x3f, 0)), 3
		}
		return bad, 1
	}
	if left >= 2 && w.decide(in(b0, 0xf0, 0xf4)) {
		lo := tp.Ite(tp.Eq(b0, k(0xf0)), k(0x90), k(0x80))
		hi := tp.Ite(tp.Eq(b0, k(0xf4)), k(0x8f), k(0xbf))
		b1 := s.b[pos+1]
		if w.decide(tp.And(tp.Ule(lo, b1), tp.Ule(b1, hi))) && left >= 4 && w.decide(in(s.b[pos+2], 0x80, 0xbf)) && w.decide(in(s.b[pos+3], 0x80, 0xbf)) {
			return or(or(bits(b0, 0x07, 18), bits(b1, 0x3f, 12)), or(bits(s.b[pos+2], 0x3f, 6), bits(s.b[pos+3], 0x3f, 0))), 4
		}
		return bad, 1
	}
	return bad, 1
}

func (w *Worker) next(in *ssa.Next, it Value) Value {
	tp := w.tp
	switch x := it.(type) {
	case *StrIter:
		if x.pos >= x.s.Len() {
			return Tuple{tp.fls, tp.Const(0, 64), tp.Const(0, 32)}
		}
		pos := x.pos
		r, n := w.decodeRune(x.s, pos)
		w.undo(func() { x.pos = pos })
		x.pos = pos + n
		return Tuple{tp.tru, tp.Const(uint64(pos), 64), r}
	case *MapIter:
		mt := in.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
		if x.m != nil {
			old := x.pos
			w.undo(func() { x.pos = old })
			if x.order != nil {
				for x.pos < len(x.order) {
					e := &x.m.ents[x.order[x.pos]]
					x.pos++
					if e.live {
						return Tuple{tp.tru, copyVal(e.k), copyVal(e.v)}
					}
				}
			} else {
				for x.pos < len(x.m.ents) {
					e := &x.m.ents[x.pos]
					x.pos++
					if e.live {
						return Tuple{tp.tru, copyVal(e.k), copyVal(e.v)}
					}
				}
			}
		}
		return Tuple{tp.fls, w.zero(mt.Key()), w.zero(mt.Elem())}
	}
	w.abort("next")
	return nil
}

// chooseOrder makes the iteration order of a small map symbolic.
func (w *Worker) chooseOrder(m *Map) []int {
	var rest, order []int
	for i := range m.ents {
		if m.ents[i].live {
			rest = append(rest, i)
		}
	}
	for len(rest) > 1 {
		v := w.tp.Var(fmt.Sprintf("ord%d_%d", w.nOrder, len(rest)), 8)
		w.noteVar(v)
		k := 0
		for ; k < len(rest)-1; k++ {
			if w.decide(w.tp.Eq(v, w.tp.Const(uint64(k), 8))) {
				break
			}
		}
		order = append(order, rest[k])
		rest = append(append([]int(nil), rest[:k]...), rest[k+1:]...)
	}
	old := w.nOrder
	w.undo(func() { w.nOrder = old })
	w.nOrder++
	return append(order, rest...)
}

func (w *Worker) slice(in *ssa.Slice, x, lo, hi, mx Value) Value {
	var l, h, m int64 = 0, -1, -1
	if lo != nil {
		l = w.boundInt(lo, in.Low.Type())
	}
	if hi != nil {
		h = w.boundInt(hi, in.High.Type())
	}
	if mx != nil {
		m = w.boundInt(mx, in.Max.Type())
	}
	switch y := x.(type) {
	case *Str:
		n := int64(y.Len())
		if hi == nil {
			h = n
		}
		if l < 0 || h < l || h > n {
			w.goPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with length %d", l, h, n))
		}
		return w.strSlice(y, int(l), int(h))
	case Slice:
		if hi == nil {
			h = int64(len(y.a))
		}
		if mx == nil {
			m = int64(cap(y.a))
		}
		if l < 0 || h < l || m < h || m > int64(cap(y.a)) {
			w.goPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d:%d] with capacity %d", l, h, m, cap(y.a)))
		}
		if y.a == nil {
			return y
		}
		return Slice{y.a[l:h:m]}
	case Ptr:
		if y.isNil() {
			w.nilDeref()
		}
		if y.s == nil {
			w.abort("slice of an unmaterialised element")
		}
		a, ok := (*y.s).(Array)
		if !ok {
			w.abort(fmt.Sprintf("slice of pointer to %T", *y.s))
		}
		if hi == nil {
			h = int64(len(a))
		}
		if mx == nil {
			m = int64(len(a))
		}
		if l < 0 || h < l || m < h || m > int64(len(a)) {
			w.goPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d:%d]", l, h, m))
		}
		return Slice{[]Value(a)[l:h:m]}
	}
	w.abort(fmt.Sprintf("slice of %T", x))
	return nil
}

func (w *Worker) boundInt(v Value, t types.Type) int64 {
	x := v.(*Term)
	_, signed, _, _ := scalarType(t)
	u := x.val
	if !x.isConst() {
		u = w.concretize(x)
	}
	if signed {
		return sext64(u, x.w)
	}
	return int64(u)
}

func (w *Worker) typeAssert(in *ssa.TypeAssert, v Value) Value {
	x, ok := v.(Iface)
	if !ok {
		w.abort(fmt.Sprintf("type assertion on %T", v))
	}
	at := in.AssertedType
	good := false
	var res Value
	if x.t != nil {
		if it, isI := at.Underlying().(*types.Interface); isI {
			good = w.implements(x, it)
			res = x
		} else if _, isR := x.v.(*RType); isR && x.t == rtypeT {
			good = false
		} else {
			good = x.t == at || types.Identical(x.t, at)
			res = copyVal(x.v)
		}
	}
	if !good {
		if in.CommaOk {
			return Tuple{w.zero(at), w.tp.fls}
		}
		from := "nil"
		if x.t != nil {
			from = x.t.String()
		}
		w.goPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", from, at))
	}
	if in.CommaOk {
		return Tuple{res, w.tp.tru}
	}
	return res
}

type implKey struct {
	t  types.Type
	it *types.Interface
}

func (w *Worker) implements(x Iface, it *types.Interface) bool {
	if it.NumMethods() == 0 {
		return true
	}
	k := implKey{x.t, it}
	if r, ok := w.implCache[k]; ok {
		return r
	}
	r := types.Implements(x.t, it)
	w.implCache[k] = r
	return r
}

// callee evaluates what is called and with which arguments.
func (w *Worker) callee(fr *Frame, ci *cinstr, c *ssa.CallCommon) (*Func, []Value) {
	n := len(c.Args) + 1 // a Defer has its stack as one more operand
	if c.IsInvoke() {
		recv := w.get(fr, &ci.op[0])
		x, ok := recv.(Iface)
		if !ok {
			w.abort(fmt.Sprintf("method call on %T", recv))
		}
		if x.t == nil {
			w.nilDeref()
		}
		args := make([]Value, 0, n)
		if rt, ok := x.v.(*RType); ok && x.t == rtypeT {
			name := c.Method.Name()
			for i := 1; i < n; i++ {
				args = append(args, copyVal(w.get(fr, &ci.op[i])))
			}
			return &Func{name: name, nat: func(w *Worker, a []Value) Value { return w.rtypeMethod(rt, name, a) }}, args
		}
		fn := w.lookupMethod(x.t, c.Method)
		if fn == nil {
			w.abort(fmt.Sprintf("no method %s on %s", c.Method.Name(), x.t))
		}
		args = append(args, copyVal(x.v))
		for i := 1; i < n; i++ {
			args = append(args, copyVal(w.get(fr, &ci.op[i])))
		}
		return w.funcVal(fn), args
	}
	fv := w.get(fr, &ci.op[0])
	f, ok := fv.(*Func)
	if !ok {
		w.abort(fmt.Sprintf("call of %T", fv))
	}
	args := make([]Value, 0, n)
	for i := 1; i < n; i++ {
		args = append(args, copyVal(w.get(fr, &ci.op[i])))
	}
	return f, args
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (w *Worker) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if f, ok := w.methCache[k]; ok {
		return f
	}
	f := w.eng.lookupMethod(t, m.Pkg(), m.Name())
	w.methCache[k] = f
	return f
}

func (w *Worker) execCall(th *Thread, fr *Frame, ci *cinstr, c *ssa.CallCommon, dst int) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		args := make([]Value, len(ci.op)-1)
		for i := 1; i < len(ci.op); i++ {
			args[i-1] = w.get(fr, &ci.op[i])
		}
		r := w.builtin(fr, b, args, c)
		if dst >= 0 {
			fr.regs[dst] = r
		}
		fr.pc++
		return
	}
	f, args := w.callee(fr, ci, c)
	w.pushCall(th, fr, f, args, dst, false)
}

func (w *Worker) builtin(fr *Frame, b *ssa.Builtin, args []Value, c *ssa.CallCommon) Value {
	tp := w.tp
	intv := func(n int) Value { return tp.Const(uint64(n), 64) }
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case *Str:
			return intv(x.Len())
		case Slice:
			if b.Name() == "cap" {
				return intv(cap(x.a))
			}
			return intv(len(x.a))
		case *Map:
			if x == nil {
				return intv(0)
			}
			w.accessMap(x, false)
			return intv(x.live)
		case Array:
			return intv(len(x))
		case Ptr:
			if a, ok := (*x.s).(Array); ok {
				return intv(len(a))
			}
		case *Chan:
			if x == nil {
				return intv(0)
			}
			if b.Name() == "cap" {
				return intv(x.cap)
			}
			return intv(len(x.buf))
		}
	case "append":
		s := args[0].(Slice)
		var add []Value
		switch x := args[1].(type) {
		case Slice:
			add = x.a
			for i := range add {
				w.access(&add[i], false)
			}
		case *Str:
			for _, t := range w.strBytes(x) {
				add = append(add, t)
			}
		}
		if len(add) == 0 {
			return s
		}
		n := len(s.a) + len(add)
		if n <= cap(s.a) {
			r := s.a[:n]
			if len(add) > 0 {
				// the source may overlap
				src := make([]Value, len(add))
				for i := range add {
					src[i] = copyVal(add[i])
				}
				for i := range src {
					w.access(&r[len(s.a)+i], true)
					w.assign(&r[len(s.a)+i], src[i])
				}
			}
			return Slice{r}
		}
		et := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
		nc := growCap(cap(s.a), n, w.sizeof(et))
		r := make([]Value, nc)
		for i := range s.a {
			w.access(&s.a[i], false)
			r[i] = copyVal(s.a[i])
		}
		for i := range add {
			r[len(s.a)+i] = copyVal(add[i])
		}
		if nc > n {
			z := w.zero(et)
			for i := n; i < nc; i++ {
				r[i] = copyVal(z)
			}
		}
		return Slice{r[:n]}
	case "copy":
		d := args[0].(Slice)
		var src []Value
		switch x := args[1].(type) {
		case Slice:
			src = x.a
		case *Str:
			for _, t := range w.strBytes(x) {
				src = append(src, t)
			}
		}
		n := min(len(d.a), len(src))
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			w.access(&src[i], false)
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			w.access(&d.a[i], true)
			w.assign(&d.a[i], tmp[i])
		}
		return intv(n)
	case "delete":
		w.mapDelete(args[0].(*Map), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				w.accessMap(x, true)
				for i := range x.ents {
					if x.ents[i].live {
						w.mapKill(x, i)
					}
				}
			}
		case Slice:
			et := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
			for i := range x.a {
				w.assign(&x.a[i], w.zero(et))
			}
		}
		return nil
	case "panic":
		panic(goPanicErr{args[0], ""})
	case "recover":
		th := w.st.threads[w.st.cur]
		n := len(th.frames)
		if n >= 2 && th.frames[n-1].isDefer {
			c := th.frames[n-2]
			if c.unwinding && !c.recovered {
				if c.shared {
					cc := *c
					cc.regs = append([]Value(nil), c.regs...)
					cc.defers = c.defers[:len(c.defers):len(c.defers)]
					cc.shared = false
					c = &cc
					th.frames[n-2] = c
				}
				c.recovered = true
				return c.panicVal
			}
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			switch x := r.(type) {
			case *Term:
				y := a.(*Term)
				var less *Term
				t := b.Type().(*types.Signature).Params().At(0).Type()
				_, signed, fl, _ := scalarType(t)
				if fl && (x.real || y.real) {
					less = w.realOp(token.LSS, y, x).(*Term)
				} else if fl {
					less = tp.FCmp(OpFlt, y, x)
				} else if signed {
					less = tp.Slt(y, x)
				} else {
					less = tp.Ult(y, x)
				}
				if b.Name() == "max" {
					if fl && (x.real || y.real) {
						less = w.realOp(token.LSS, x, y).(*Term)
					} else if fl {
						less = tp.FCmp(OpFlt, x, y)
					} else if signed {
						less = tp.Slt(x, y)
					} else {
						less = tp.Ult(x, y)
					}
				}
				r = tp.Ite(less, y, x)
			case *Str:
				y := a.(*Str)
				less := w.strLess(y, x)
				if b.Name() == "max" {
					less = w.strLess(x, y)
				}
				if w.decide(less) {
					r = y
				}
			default:
				w.abort("min of this type")
			}
		}
		return r
	case "close":
		ch := args[0].(*Chan)
		if ch == nil {
			w.goPanic("close of nil channel")
		}
		if ch.closed {
			w.goPanic("close of closed channel")
		}
		w.undo(func() { ch.closed = false })
		ch.closed = true
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.isNil() {
			w.nilDeref()
		}
		return args[0]
	case "StringData":
		s := args[0].(*Str)
		if s.Len() == 0 {
			return Ptr{}
		}
		return Ptr{e: &elem{str: s}}
	case "String":
		p := args[0].(Ptr)
		n := int(w.concreteInt(args[1]))
		if n == 0 {
			return w.emptyStr
		}
		if p.e != nil && p.e.str != nil {
			if p.e.i+n > p.e.str.Len() {
				w.abort("unsafe.String past its data")
			}
			return w.strSlice(p.e.str, p.e.i, p.e.i+n)
		}
		if p.e != nil && p.e.base != nil {
			return w.bytesToStr(Slice{p.e.base[p.e.i : p.e.i+n]})
		}
		w.abort("unsafe.String of a lone pointer")
	case "SliceData":
		s := args[0].(Slice)
		if s.a == nil {
			return Ptr{}
		}
		if cap(s.a) == 0 {
			var z Value = tp.Const(0, 8)
			return Ptr{s: &z}
		}
		f := s.a[:cap(s.a)]
		return Ptr{s: &f[0], e: &elem{base: f}}
	case "Slice":
		p := args[0].(Ptr)
		n := int(w.concreteInt(args[1]))
		if p.isNil() {
			return Slice{}
		}
		if p.e != nil && p.e.base != nil {
			if p.e.i+n > cap(p.e.base) {
				w.abort("unsafe.Slice past its data")
			}
			return Slice{p.e.base[p.e.i : p.e.i+n : p.e.i+n]}
		}
		if p.e != nil && p.e.str != nil {
			a := make([]Value, n)
			for i := range a {
				a[i] = w.strByte(p.e.str, p.e.i+i)
			}
			return Slice{a}
		}
		if n == 0 {
			return Slice{[]Value{}}
		}
		if a, ok := (*p.s).(Array); ok && n <= len(a) {
			return Slice{[]Value(a)[:n:n]}
		}
		w.abort("unsafe.Slice of a lone pointer")
	case "Add":
		p := args[0].(Ptr)
		n := int(w.concreteInt(args[1]))
		return w.ptrAdd(p, n)
	case "real":
		return args[0].(Struct)[0]
	case "imag":
		return args[0].(Struct)[1]
	case "complex":
		return Struct{args[0], args[1]}
	}
	w.abort("builtin " + b.Name())
	return nil
}

func (w *Worker) ptrAdd(p Ptr, n int) Ptr {
	if n == 0 {
		return p
	}
	if p.e != nil && p.e.str != nil {
		return Ptr{e: &elem{str: p.e.str, i: p.e.i + n}}
	}
	if p.e != nil && p.e.base != nil {
		if t, ok := p.e.base[0].(*Term); ok && t.w > 0 {
			sz := int(t.w / 8)
			if n%sz == 0 {
				k := p.e.i + n/sz
				if k >= 0 && k < cap(p.e.base) {
					b := p.e.base[:cap(p.e.base)]
					return Ptr{s: &b[k], e: &elem{base: b, i: k}}
				}
			}
		}
	}
	w.abort("pointer arithmetic")
	return Ptr{}
}

func (w *Worker) sizeof(t types.Type) int64 {
	return w.eng.sizes.Sizeof(t)
}

// ---- goroutines and channels ----

func (w *Worker) spawn(f *Func, args []Value) {
	if w.nest > 0 {
		return // goroutines started by initialisers do not run
	}
	th := &Thread{id: len(w.st.threads)}
	// a base frame that ends when the call returns
	w.st.threads = append(w.st.threads[:len(w.st.threads):len(w.st.threads)], th)
	base := &Frame{fi: w.spawnInfo(), regs: nil, ret: -1}
	th.frames = []*Frame{base}
	cur := w.st.cur
	w.st.cur = th.id
	w.pushCall(th, base, f, args, -1, false)
	w.st.cur = cur
	w.syncEvent(evFork, th.id, 0)
}

// spawnInfo is a function of one block holding two no-operation jumps: the spawned call
// returns to its second instruction, which ends the thread.
func (w *Worker) spawnInfo() *fnInfo {
	if w.spawnFI == nil {
		w.spawnFI = &fnInfo{name: "goroutine", blocks: [][]cinstr{{{in: nil, dst: -1}, {in: spawnEnd, dst: -1}}}, nphi: []int{0}}
		w.spawnFI.fn = &ssa.Function{}
	}
	return w.spawnFI
}

var spawnEnd = &ssa.Return{}

func (w *Worker) chanSend(ch *Chan, v Value) {
	if ch == nil {
		w.block("send on nil channel", func() bool { return false })
	}
	if ch.closed {
		w.goPanic("send on closed channel")
	}
	limit := ch.cap
	if limit == 0 {
		limit = 1 // a rendezvous is approximated by a buffer of one
	}
	if len(ch.buf) >= limit {
		w.block("channel send", func() bool { return ch.closed || len(ch.buf) < limit })
	}
	old := ch.buf
	w.undo(func() { ch.buf = old })
	ch.buf = append(ch.buf[:len(ch.buf):len(ch.buf)], v)
	w.syncEvent(evSend, ch, 0)
}

func (w *Worker) chanRecv(ch *Chan, et types.Type) (Value, bool) {
	if ch == nil {
		w.block("receive on nil channel", func() bool { return false })
	}
	if len(ch.buf) == 0 {
		if ch.closed {
			return w.zero(et), false
		}
		w.block("channel receive", func() bool { return ch.closed || len(ch.buf) > 0 })
	}
	old := ch.buf
	w.undo(func() { ch.buf = old })
	v := ch.buf[0]
	ch.buf = ch.buf[1:]
	w.syncEvent(evRecv, ch, 0)
	return v, true
}

func (w *Worker) selectOp(in *ssa.Select, fr *Frame, ci *cinstr) Value {
	// operands: for each state Chan, Send
	k := 0
	res := func(idx int, ok bool, recvIdx int, v Value) Value {
		t := Tuple{w.tp.Const(uint64(int64(idx)), 64), w.tp.Bool(ok)}
		n := 0
		for i, s := range in.States {
			if s.Dir == types.RecvOnly {
				if i == recvIdx {
					t = append(t, v)
				} else {
					t = append(t, w.zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
				n++
			}
		}
		return t
	}
	var waits []func() bool
	for i, s := range in.States {
		chv := w.get(fr, &ci.op[k])
		k++
		ch := chv.(*Chan)
		if s.Dir == types.SendOnly {
			v := w.get(fr, &ci.op[k])
			k++
			if ch == nil {
				continue
			}
			limit := max(ch.cap, 1)
			if ch.closed || len(ch.buf) < limit {
				w.chanSend(ch, copyVal(v))
				return res(i, false, -1, nil)
			}
			waits = append(waits, func() bool { return ch.closed || len(ch.buf) < limit })
		} else {
			k++
			if ch == nil {
				continue
			}
			if ch.closed || len(ch.buf) > 0 {
				v, ok := w.chanRecv(ch, s.Chan.Type().Underlying().(*types.Chan).Elem())
				return res(i, ok, i, v)
			}
			waits = append(waits, func() bool { return ch.closed || len(ch.buf) > 0 })
		}
	}
	if !in.Blocking {
		return res(-1, false, -1, nil)
	}
	w.block("select", func() bool {
		for _, f := range waits {
			if f() {
				return true
			}
		}
		return false
	})
	return nil
}
