package main

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
)

// Op is the operator of a Term.
type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot // boolean
	OpAnd
	OpOr
	OpIte
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpAdd
	OpSub
	OpMul
	OpUdiv
	OpSdiv
	OpUrem
	OpSrem
	OpBand
	OpBor
	OpBxor
	OpBnot
	OpNeg
	OpShl
	OpLshr
	OpAshr
	OpConcat
	OpExtract // val = hi<<8|lo
	OpZext
	OpSext
	OpFadd
	OpFsub
	OpFmul
	OpFdiv
	OpFsqrt
	OpFlt
	OpFle
	OpFeq
	OpFisNaN
	OpSToF // signed bv -> fp (w of result)
	OpUToF // unsigned bv -> fp
	OpFToS // fp -> signed bv (RTZ)
	OpFToU // fp -> unsigned bv (RTZ)
	OpFToF // fp width change
	OpFrnd // round to integral; val = mode 0 RNE 1 RNA 2 RTP 3 RTN 4 RTZ
	OpBoolBV
)

var smtName = map[Op]string{
	OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle", OpAdd: "bvadd", OpSub: "bvsub",
	OpMul: "bvmul", OpUdiv: "bvudiv", OpSdiv: "bvsdiv", OpUrem: "bvurem", OpSrem: "bvsrem",
	OpBand: "bvand", OpBor: "bvor", OpBxor: "bvxor", OpBnot: "bvnot", OpNeg: "bvneg", OpShl: "bvshl",
	OpLshr: "bvlshr", OpAshr: "bvashr", OpConcat: "concat", OpEq: "=", OpNot: "not", OpAnd: "and", OpOr: "or", OpIte: "ite",
}

// Term is a hash-consed SMT term. w == 0 means Bool, otherwise a bit-vector of that width.
// Floats are bit-vectors holding their IEEE representation.
type Term struct {
	op   Op
	w    uint8
	id   uint32
	val  uint64
	a    []*Term
	name string
	vars []uint32 // sorted ids of free variables
	real bool     // a float that is treated as a real number (see real.go)

	evGen uint32
	evOK  bool
	evVal uint64
}

type termKey struct {
	op      Op
	w       uint8
	val     uint64
	a, b, c uint32
}

// TermPool owns the terms of one worker.
type TermPool struct {
	tab    map[termKey]*Term
	vars   map[string]*Term
	byID   []*Term
	nextID uint32
	small  [65][512]*Term
	tru    *Term
	fls    *Term
	gen    uint32
	hasFP  bool
}

func NewTermPool() *TermPool {
	p := &TermPool{tab: map[termKey]*Term{}, vars: map[string]*Term{}}
	p.byID = append(p.byID, nil)
	p.nextID = 1
	p.tru = &Term{op: OpConst, val: 1}
	p.fls = &Term{op: OpConst, val: 0}
	return p
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (t *Term) isConst() bool { return t.op == OpConst }

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

// Const makes a constant of width w (0: Bool).
func (p *TermPool) Const(v uint64, w uint8) *Term {
	if w == 0 {
		if v != 0 {
			return p.tru
		}
		return p.fls
	}
	v &= mask(w)
	if v < 512 && w <= 64 {
		if t := p.small[w][v]; t != nil {
			return t
		}
		t := &Term{op: OpConst, w: w, val: v}
		p.small[w][v] = t
		return t
	}
	return &Term{op: OpConst, w: w, val: v}
}

func (p *TermPool) Bool(b bool) *Term {
	if b {
		return p.tru
	}
	return p.fls
}

// Var returns the variable of that name, made on first use.
func (p *TermPool) Var(name string, w uint8) *Term {
	if t := p.vars[name]; t != nil {
		if t.w != w {
			return p.Var(name+"_", w)
		}
		return t
	}
	t := &Term{op: OpVar, w: w, name: name, id: p.nextID}
	t.vars = []uint32{t.id}
	p.nextID++
	p.byID = append(p.byID, t)
	p.vars[name] = t
	return t
}

func mergeVars(a, b []uint32) []uint32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// subset fast path
	if len(a) == len(b) {
		same := true
		for i := range a {
			if a[i] != b[i] {
				same = false
				break
			}
		}
		if same {
			return a
		}
	}
	r := make([]uint32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] < b[j]:
			r = append(r, a[i])
			i++
		case a[i] > b[j]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	r = append(r, a[i:]...)
	r = append(r, b[j:]...)
	return r
}

// constID gives constants an identity for the hash-consing key.
func (p *TermPool) keyID(t *Term) uint32 {
	if t.id != 0 {
		return t.id
	}
	// constants get ids on demand
	k := termKey{op: OpConst, w: t.w, val: t.val}
	if u := p.tab[k]; u != nil {
		t.id = u.id
		return u.id
	}
	t.id = p.nextID
	p.nextID++
	p.byID = append(p.byID, t)
	p.tab[k] = t
	return t.id
}

func (p *TermPool) mk(op Op, w uint8, val uint64, args ...*Term) *Term {
	k := termKey{op: op, w: w, val: val}
	switch len(args) {
	case 3:
		k.c = p.keyID(args[2])
		fallthrough
	case 2:
		k.b = p.keyID(args[1])
		fallthrough
	case 1:
		k.a = p.keyID(args[0])
	}
	if t := p.tab[k]; t != nil {
		return t
	}
	t := &Term{op: op, w: w, val: val, id: p.nextID, a: append([]*Term(nil), args...)}
	for _, x := range args {
		t.vars = mergeVars(t.vars, x.vars)
	}
	p.markReal(t)
	p.nextID++
	p.byID = append(p.byID, t)
	p.tab[k] = t
	if op >= OpFadd && op <= OpFrnd {
		p.hasFP = true
	}
	return t
}

func (p *TermPool) Not(t *Term) *Term {
	if t.isConst() {
		return p.Bool(t.val == 0)
	}
	switch t.op {
	case OpNot:
		return t.a[0]
	case OpFlt, OpFle:
		if t.a[0].real || t.a[1].real {
			if t.op == OpFlt {
				return p.FCmp(OpFle, t.a[1], t.a[0])
			}
			return p.FCmp(OpFlt, t.a[1], t.a[0])
		}
	case OpUlt:
		return p.Ule(t.a[1], t.a[0])
	case OpUle:
		return p.Ult(t.a[1], t.a[0])
	case OpSlt:
		return p.Sle(t.a[1], t.a[0])
	case OpSle:
		return p.Slt(t.a[1], t.a[0])
	}
	return p.mk(OpNot, 0, 0, t)
}

func (p *TermPool) And(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 0 {
			return p.fls
		}
		return b
	}
	if b.isConst() {
		if b.val == 0 {
			return p.fls
		}
		return a
	}
	if a == b {
		return a
	}
	return p.mk(OpAnd, 0, 0, a, b)
}

func (p *TermPool) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.val != 0 {
			return p.tru
		}
		return b
	}
	if b.isConst() {
		if b.val != 0 {
			return p.tru
		}
		return a
	}
	if a == b {
		return a
	}
	return p.mk(OpOr, 0, 0, a, b)
}

func (p *TermPool) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.val != 0 {
			return a
		}
		return b
	}
	if a == b || (a.isConst() && b.isConst() && a.val == b.val && a.w == b.w) {
		return a
	}
	if a.w == 0 {
		if a.isConst() && b.isConst() {
			if a.val != 0 {
				return c
			}
			return p.Not(c)
		}
		if a.isConst() {
			if a.val != 0 {
				return p.Or(c, b)
			}
			return p.And(p.Not(c), b)
		}
		if b.isConst() {
			if b.val != 0 {
				return p.Or(p.Not(c), a)
			}
			return p.And(c, a)
		}
	}
	return p.mk(OpIte, a.w, 0, c, a, b)
}

func (p *TermPool) Eq(a, b *Term) *Term {
	if a == b {
		return p.tru
	}
	if a.isConst() && b.isConst() {
		return p.Bool(a.val == b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.w == 0 {
			if b.val != 0 {
				return a
			}
			return p.Not(a)
		}
		switch a.op {
		case OpZext:
			in := a.a[0]
			if b.val > mask(in.w) {
				return p.fls
			}
			return p.Eq(in, p.Const(b.val, in.w))
		case OpSext:
			in := a.a[0]
			tr := b.val & mask(in.w)
			if uint64(sext64(tr, in.w))&mask(a.w) != b.val {
				return p.fls
			}
			return p.Eq(in, p.Const(tr, in.w))
		case OpIte:
			if a.a[1].isConst() || a.a[2].isConst() {
				if a.a[1].isConst() && a.a[2].isConst() {
					t1, t2 := a.a[1].val == b.val, a.a[2].val == b.val
					switch {
					case t1 && t2:
						return p.tru
					case t1:
						return a.a[0]
					case t2:
						return p.Not(a.a[0])
					default:
						return p.fls
					}
				}
				return p.Ite(a.a[0], p.Eq(a.a[1], b), p.Eq(a.a[2], b))
			}
		case OpBxor:
			if a.a[1].isConst() {
				return p.Eq(a.a[0], p.Const(a.a[1].val^b.val, a.w))
			}
		case OpAdd:
			if a.a[1].isConst() {
				return p.Eq(a.a[0], p.Const(b.val-a.a[1].val, a.w))
			}
		case OpBoolBV:
			if b.val == 1 {
				return a.a[0]
			} else if b.val == 0 {
				return p.Not(a.a[0])
			}
			return p.fls
		}
	} else {
		if a.op == OpZext && b.op == OpZext && a.a[0].w == b.a[0].w {
			return p.Eq(a.a[0], b.a[0])
		}
		// a negation on either side goes to the side that is cheaper to negate
		if a.op == OpNeg && b.op == OpNeg {
			return p.Eq(a.a[0], b.a[0])
		}
		if b.op == OpNeg {
			a, b = b, a
		}
		if a.op == OpNeg && (b.op == OpVar || b.op == OpAdd) {
			// -sum == x  is  sum == -x
			a, b = a.a[0], p.Neg(b)
			if b.op == OpNeg && a.op == OpVar && b.a[0].op != OpVar {
				a, b = b.a[0], p.Neg(a)
			}
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return p.mk(OpEq, 0, 0, a, b)
}

func (p *TermPool) Ult(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return p.Bool(a.val < b.val)
	}
	if a == b {
		return p.fls
	}
	if b.isConst() {
		if b.val == 0 {
			return p.fls
		}
		if b.val == 1 {
			return p.Eq(a, p.Const(0, a.w))
		}
		if a.op == OpZext {
			in := a.a[0]
			if b.val > mask(in.w) {
				return p.tru
			}
			return p.Ult(in, p.Const(b.val, in.w))
		}
		if a.op == OpIte && a.a[1].isConst() && a.a[2].isConst() {
			return p.Ite(a.a[0], p.Ult(a.a[1], b), p.Ult(a.a[2], b))
		}
	}
	if a.isConst() {
		if a.val == mask(a.w) {
			return p.fls
		}
		if b.op == OpZext {
			in := b.a[0]
			if a.val >= mask(in.w) {
				return p.fls
			}
			return p.Ult(p.Const(a.val, in.w), in)
		}
		if b.op == OpIte && b.a[1].isConst() && b.a[2].isConst() {
			return p.Ite(b.a[0], p.Ult(a, b.a[1]), p.Ult(a, b.a[2]))
		}
	}
	if a.op == OpZext && b.op == OpZext && a.a[0].w == b.a[0].w {
		return p.Ult(a.a[0], b.a[0])
	}
	return p.mk(OpUlt, 0, 0, a, b)
}

func (p *TermPool) Ule(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return p.Bool(a.val <= b.val)
	}
	if a == b {
		return p.tru
	}
	if b.isConst() {
		if b.val == mask(b.w) {
			return p.tru
		}
		return p.Ult(a, p.Const(b.val+1, b.w))
	}
	if a.isConst() {
		if a.val == 0 {
			return p.tru
		}
		return p.Ult(p.Const(a.val-1, a.w), b)
	}
	if a.op == OpZext && b.op == OpZext && a.a[0].w == b.a[0].w {
		return p.Ule(a.a[0], b.a[0])
	}
	return p.mk(OpUle, 0, 0, a, b)
}

// nonneg reports that t, read as signed, is certainly not negative.
func nonneg(t *Term) bool {
	switch t.op {
	case OpConst:
		return sext64(t.val, t.w) >= 0
	case OpZext:
		return t.w > t.a[0].w
	case OpIte:
		return nonneg(t.a[1]) && nonneg(t.a[2])
	case OpLshr:
		return t.a[1].isConst() && t.a[1].val > 0
	case OpBand:
		return nonneg(t.a[0]) || nonneg(t.a[1])
	case OpBoolBV:
		return t.w > 1
	case OpUrem:
		return t.a[1].isConst() && t.a[1].val != 0 && sext64(t.a[1].val, t.w) > 0
	}
	return false
}

func (p *TermPool) Slt(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return p.Bool(sext64(a.val, a.w) < sext64(b.val, b.w))
	}
	if a == b {
		return p.fls
	}
	an, bn := nonneg(a), nonneg(b)
	if an && bn {
		return p.Ult(a, b)
	}
	if an && b.isConst() { // b negative
		return p.fls
	}
	if bn && a.isConst() {
		return p.tru
	}
	if b.isConst() && a.op == OpSext {
		in := a.a[0]
		v := sext64(b.val, b.w)
		lo, hi := -(int64(1) << (in.w - 1)), int64(1)<<(in.w-1)-1
		if v > hi {
			return p.tru
		}
		if v <= lo {
			return p.fls
		}
		return p.Slt(in, p.Const(uint64(v), in.w))
	}
	if a.isConst() && b.op == OpSext {
		in := b.a[0]
		v := sext64(a.val, a.w)
		lo, hi := -(int64(1) << (in.w - 1)), int64(1)<<(in.w-1)-1
		if v < lo {
			return p.tru
		}
		if v >= hi {
			return p.fls
		}
		return p.Slt(p.Const(uint64(v), in.w), in)
	}
	return p.mk(OpSlt, 0, 0, a, b)
}

func (p *TermPool) Sle(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return p.Bool(sext64(a.val, a.w) <= sext64(b.val, b.w))
	}
	if a == b {
		return p.tru
	}
	if b.isConst() {
		if b.val == mask(b.w)>>1 {
			return p.tru
		}
		return p.Slt(a, p.Const(b.val+1, b.w))
	}
	if a.isConst() {
		if sext64(a.val, a.w) == -(int64(1) << (a.w - 1)) {
			return p.tru
		}
		return p.Slt(p.Const(a.val-1, a.w), b)
	}
	if nonneg(a) && nonneg(b) {
		return p.Ule(a, b)
	}
	return p.mk(OpSle, 0, 0, a, b)
}

func evalBin(op Op, w uint8, x, y uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case OpAdd:
		return (x + y) & m, true
	case OpSub:
		return (x - y) & m, true
	case OpMul:
		return (x * y) & m, true
	case OpUdiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OpUrem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OpSdiv:
		a, b := sext64(x, w), sext64(y, w)
		if b == 0 {
			if a >= 0 {
				return m, true
			}
			return 1, true
		}
		if b == -1 {
			return uint64(-a) & m, true
		}
		return uint64(a/b) & m, true
	case OpSrem:
		a, b := sext64(x, w), sext64(y, w)
		if b == 0 {
			return x, true
		}
		if b == -1 {
			return 0, true
		}
		return uint64(a%b) & m, true
	case OpBand:
		return x & y, true
	case OpBor:
		return x | y, true
	case OpBxor:
		return x ^ y, true
	case OpShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OpLshr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OpAshr:
		s := sext64(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(s>>y) & m, true
	}
	return 0, false
}

// Bin builds a bit-vector binary operation; both operands have the same width.
func (p *TermPool) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() && w <= 64 {
		v, _ := evalBin(op, w, a.val, b.val)
		return p.Const(v, w)
	}
	switch op {
	case OpAdd, OpMul, OpBand, OpBor, OpBxor:
		if a.isConst() {
			a, b = b, a
		}
	}
	if b.isConst() {
		c := b.val
		switch op {
		case OpAdd, OpSub, OpBor, OpBxor, OpShl, OpLshr, OpAshr:
			if c == 0 {
				return a
			}
		case OpMul:
			if c == 0 {
				return b
			}
			if c == 1 {
				return a
			}
			if bits.OnesCount64(c) == 1 {
				return p.Bin(OpShl, a, p.Const(uint64(bits.TrailingZeros64(c)), w))
			}
		case OpUdiv:
			if c == 1 {
				return a
			}
			if bits.OnesCount64(c) == 1 {
				return p.Bin(OpLshr, a, p.Const(uint64(bits.TrailingZeros64(c)), w))
			}
			if a.op == OpZext {
				in := a.a[0]
				if c > mask(in.w) {
					return p.Const(0, w)
				}
				return p.Zext(p.Bin(OpUdiv, in, p.Const(c, in.w)), w)
			}
		case OpUrem:
			if c == 1 {
				return p.Const(0, w)
			}
			if bits.OnesCount64(c) == 1 {
				return p.Bin(OpBand, a, p.Const(c-1, w))
			}
			if a.op == OpZext {
				in := a.a[0]
				if c > mask(in.w) {
					return a
				}
				return p.Zext(p.Bin(OpUrem, in, p.Const(c, in.w)), w)
			}
		case OpSdiv:
			if c == 1 {
				return a
			}
			if nonneg(a) && sext64(c, w) > 0 {
				return p.Bin(OpUdiv, a, b)
			}
		case OpSrem:
			if nonneg(a) && sext64(c, w) > 0 {
				return p.Bin(OpUrem, a, b)
			}
		case OpBand:
			if c == 0 {
				return b
			}
			if c == mask(w) {
				return a
			}
			if a.op == OpZext {
				in := a.a[0]
				return p.Zext(p.Bin(OpBand, in, p.Const(c&mask(in.w), in.w)), w)
			}
		}
		switch op {
		case OpSub:
			return p.Bin(OpAdd, a, p.Const(-c, w))
		case OpAdd:
			if a.op == OpAdd && a.a[1].isConst() {
				return p.Bin(OpAdd, a.a[0], p.Const(a.a[1].val+c, w))
			}
		case OpShl, OpLshr:
			if c >= uint64(w) {
				return p.Const(0, w)
			}
			if op == OpLshr && a.op == OpZext {
				in := a.a[0]
				if c >= uint64(in.w) {
					return p.Const(0, w)
				}
				return p.Zext(p.Bin(OpLshr, in, p.Const(c, in.w)), w)
			}
		case OpAshr:
			if c >= uint64(w) {
				b = p.Const(uint64(w-1), w)
			}
			if nonneg(a) {
				return p.Bin(OpLshr, a, b)
			}
		}
	}
	if a == b {
		switch op {
		case OpSub, OpBxor:
			return p.Const(0, w)
		case OpBand, OpBor:
			return a
		}
	}
	if a.isConst() && a.val == 0 {
		switch op {
		case OpShl, OpLshr, OpAshr:
			return a
		}
	}
	switch op {
	case OpSdiv:
		if nonneg(a) && nonneg(b) {
			return p.Bin(OpUdiv, a, b)
		}
	case OpSrem:
		if nonneg(a) && nonneg(b) {
			return p.Bin(OpUrem, a, b)
		}
	}
	return p.mk(op, w, 0, a, b)
}

func (p *TermPool) Bnot(a *Term) *Term {
	if a.isConst() {
		return p.Const(^a.val, a.w)
	}
	if a.op == OpBnot {
		return a.a[0]
	}
	return p.mk(OpBnot, a.w, 0, a)
}

func (p *TermPool) Neg(a *Term) *Term {
	if a.isConst() {
		return p.Const(-a.val, a.w)
	}
	if a.op == OpNeg {
		return a.a[0]
	}
	return p.mk(OpNeg, a.w, 0, a)
}

func (p *TermPool) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return p.Const(a.val, w)
	}
	if a.op == OpZext {
		return p.Zext(a.a[0], w)
	}
	if a.op == OpIte && a.a[1].isConst() && a.a[2].isConst() {
		return p.Ite(a.a[0], p.Zext(a.a[1], w), p.Zext(a.a[2], w))
	}
	return p.mk(OpZext, w, 0, a)
}

func (p *TermPool) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return p.Const(uint64(sext64(a.val, a.w)), w)
	}
	if a.op == OpSext {
		return p.Sext(a.a[0], w)
	}
	if nonneg(a) {
		return p.Zext(a, w)
	}
	return p.mk(OpSext, w, 0, a)
}

func (p *TermPool) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	if a.isConst() {
		return p.Const(a.val>>lo, w)
	}
	switch a.op {
	case OpZext, OpSext:
		in := a.a[0]
		if hi < in.w {
			return p.Extract(in, hi, lo)
		}
		if a.op == OpZext && lo >= in.w {
			return p.Const(0, w)
		}
		if lo == 0 {
			if a.op == OpZext {
				return p.Zext(in, w)
			}
			return p.Sext(in, w)
		}
	case OpExtract:
		l0 := uint8(a.val & 0xff)
		return p.Extract(a.a[0], hi+l0, lo+l0)
	case OpConcat:
		lw := a.a[1].w
		if hi < lw {
			return p.Extract(a.a[1], hi, lo)
		}
		if lo >= lw {
			return p.Extract(a.a[0], hi-lw, lo-lw)
		}
	case OpIte:
		if a.a[1].isConst() && a.a[2].isConst() {
			return p.Ite(a.a[0], p.Extract(a.a[1], hi, lo), p.Extract(a.a[2], hi, lo))
		}
	case OpBand, OpBor, OpBxor:
		if lo == 0 {
			return p.Bin(a.op, p.Extract(a.a[0], hi, 0), p.Extract(a.a[1], hi, 0))
		}
	case OpAdd, OpSub, OpMul:
		if lo == 0 {
			return p.Bin(a.op, p.Extract(a.a[0], hi, 0), p.Extract(a.a[1], hi, 0))
		}
	case OpBoolBV:
		if lo == 0 {
			return p.BoolBV(a.a[0], w)
		}
	case OpShl:
		if lo == 0 && a.a[1].isConst() {
			if a.a[1].val >= uint64(w) {
				return p.Const(0, w)
			}
			return p.Bin(OpShl, p.Extract(a.a[0], hi, 0), p.Const(a.a[1].val, w))
		}
	}
	return p.mk(OpExtract, w, uint64(hi)<<8|uint64(lo), a)
}

// BoolBV turns a Bool into a bit-vector 0/1.
func (p *TermPool) BoolBV(a *Term, w uint8) *Term {
	if a.isConst() {
		return p.Const(a.val, w)
	}
	return p.mk(OpBoolBV, w, 0, a)
}

func f64(v uint64) float64 { return math.Float64frombits(v) }

// FBin builds a floating point arithmetic operation on IEEE bit patterns.
func (p *TermPool) FBin(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		if v, ok := evalF(op, a.w, a.val, b.val); ok {
			return p.Const(v, a.w)
		}
	}
	return p.mk(op, a.w, 0, a, b)
}

func evalF(op Op, w uint8, x, y uint64) (uint64, bool) {
	if w == 64 {
		a, b := f64(x), f64(y)
		var r float64
		switch op {
		case OpFadd:
			r = a + b
		case OpFsub:
			r = a - b
		case OpFmul:
			r = a * b
		case OpFdiv:
			r = a / b
		case OpFsqrt:
			r = math.Sqrt(a)
		default:
			return 0, false
		}
		return math.Float64bits(r), true
	}
	a, b := math.Float32frombits(uint32(x)), math.Float32frombits(uint32(y))
	var r float32
	switch op {
	case OpFadd:
		r = a + b
	case OpFsub:
		r = a - b
	case OpFmul:
		r = a * b
	case OpFdiv:
		r = a / b
	default:
		return 0, false
	}
	return uint64(math.Float32bits(r)), true
}

func evalFcmp(op Op, w uint8, x, y uint64) bool {
	var a, b float64
	if w == 64 {
		a, b = f64(x), f64(y)
	} else {
		a, b = float64(math.Float32frombits(uint32(x))), float64(math.Float32frombits(uint32(y)))
	}
	switch op {
	case OpFlt:
		return a < b
	case OpFle:
		return a <= b
	case OpFeq:
		return a == b
	}
	return false
}

func (p *TermPool) FCmp(op Op, a, b *Term) *Term {
	if a.real && special(b) || b.real && special(a) {
		// any finite number stands for the real
		x, y := 0.0, 0.0
		if special(a) {
			x = f64(a.val)
		} else {
			y = f64(b.val)
		}
		return p.Bool(evalFcmp(op, 64, math.Float64bits(x), math.Float64bits(y)))
	}
	if a == b && a.real {
		return p.Bool(op != OpFlt)
	}
	if a.isConst() && b.isConst() {
		return p.Bool(evalFcmp(op, a.w, a.val, b.val))
	}
	return p.mk(op, 0, 0, a, b)
}

func evalConv(op Op, w, inw uint8, val, x uint64) (uint64, bool) {
	tof := func(v uint64, w uint8) float64 {
		if w == 64 {
			return f64(v)
		}
		return float64(math.Float32frombits(uint32(v)))
	}
	fromf := func(f float64, w uint8) uint64 {
		if w == 64 {
			return math.Float64bits(f)
		}
		return uint64(math.Float32bits(float32(f)))
	}
	switch op {
	case OpSToF:
		if w == 32 {
			return uint64(math.Float32bits(float32(sext64(x, inw)))), true
		}
		return math.Float64bits(float64(sext64(x, inw))), true
	case OpUToF:
		if w == 32 {
			return uint64(math.Float32bits(float32(x))), true
		}
		return math.Float64bits(float64(x)), true
	case OpFToF:
		return fromf(tof(x, inw), w), true
	case OpFToS:
		f := tof(x, inw)
		if math.IsNaN(f) || f >= 9.3e18 || f <= -9.3e18 {
			return uint64(1) << 63 & mask(w), true
		}
		return uint64(int64(f)) & mask(w), true
	case OpFToU:
		f := tof(x, inw)
		return uint64(f) & mask(w), true
	case OpFrnd:
		f := tof(x, inw)
		switch val {
		case 0:
			f = math.RoundToEven(f)
		case 1:
			f = math.Round(f)
		case 2:
			f = math.Ceil(f)
		case 3:
			f = math.Floor(f)
		case 4:
			f = math.Trunc(f)
		}
		return fromf(f, w), true
	}
	return 0, false
}

// FConv builds a conversion to or from floating point.
func (p *TermPool) FConv(op Op, a *Term, w uint8, val uint64) *Term {
	if a.isConst() {
		if v, ok := evalConv(op, w, a.w, val, a.val); ok {
			return p.Const(v, w)
		}
	}
	if op == OpFToF && a.w == w {
		return a
	}
	return p.mk(op, w, val, a)
}

func (p *TermPool) FSqrt(a *Term) *Term {
	if a.isConst() {
		v, _ := evalF(OpFsqrt, a.w, a.val, 0)
		return p.Const(v, a.w)
	}
	return p.mk(OpFsqrt, a.w, 0, a)
}

// Model assigns values to variables (by term id).
type Model struct {
	v map[uint32]uint64
}

// Eval computes t under m; ok is false where evaluation is not supported.
// Variables m does not mention are zero. The caller must have bumped p.gen since m last changed.
func (p *TermPool) Eval(t *Term, m *Model) (uint64, bool) {
	if t.op == OpConst {
		return t.val, true
	}
	if t.real && t.op != OpVar {
		return 0, false // what a double would give is not what the real number is
	}
	for _, a := range t.a {
		if a.real {
			return 0, false
		}
	}
	if t.evGen == p.gen {
		return t.evVal, t.evOK
	}
	v, ok := p.eval1(t, m)
	t.evGen, t.evVal, t.evOK = p.gen, v, ok
	return v, ok
}

func (p *TermPool) eval1(t *Term, m *Model) (uint64, bool) {
	if t.w > 64 {
		return 0, false
	}
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case OpVar:
		return m.v[t.id] & func() uint64 {
			if t.w == 0 {
				return 1
			}
			return mask(t.w)
		}(), true
	case OpIte:
		c, ok := p.Eval(t.a[0], m)
		if !ok {
			return 0, false
		}
		if c != 0 {
			return p.Eval(t.a[1], m)
		}
		return p.Eval(t.a[2], m)
	}
	var x [3]uint64
	for i, a := range t.a {
		if a.w > 64 {
			return 0, false
		}
		v, ok := p.Eval(a, m)
		if !ok {
			return 0, false
		}
		x[i] = v
	}
	switch t.op {
	case OpNot:
		return b2u(x[0] == 0), true
	case OpAnd:
		return x[0] & x[1], true
	case OpOr:
		return x[0] | x[1], true
	case OpEq:
		return b2u(x[0] == x[1]), true
	case OpUlt:
		return b2u(x[0] < x[1]), true
	case OpUle:
		return b2u(x[0] <= x[1]), true
	case OpSlt:
		return b2u(sext64(x[0], t.a[0].w) < sext64(x[1], t.a[0].w)), true
	case OpSle:
		return b2u(sext64(x[0], t.a[0].w) <= sext64(x[1], t.a[0].w)), true
	case OpBnot:
		return ^x[0] & mask(t.w), true
	case OpNeg:
		return -x[0] & mask(t.w), true
	case OpConcat:
		return x[0]<<t.a[1].w | x[1], true
	case OpExtract:
		return x[0] >> (t.val & 0xff) & mask(t.w), true
	case OpZext, OpBoolBV:
		return x[0], true
	case OpSext:
		return uint64(sext64(x[0], t.a[0].w)) & mask(t.w), true
	case OpFadd, OpFsub, OpFmul, OpFdiv, OpFsqrt:
		return evalF(t.op, t.w, x[0], x[1])
	case OpFlt, OpFle, OpFeq:
		return b2u(evalFcmp(t.op, t.a[0].w, x[0], x[1])), true
	case OpSToF, OpUToF, OpFToS, OpFToU, OpFToF, OpFrnd:
		return evalConv(t.op, t.w, t.a[0].w, t.val, x[0])
	}
	return evalBin(t.op, t.w, x[0], x[1])
}

// ---- SMT-LIB printing ----

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func fpSort(w uint8) string {
	if w == 64 {
		return "11 53"
	}
	return "8 24"
}

func constSMT(t *Term) string {
	if t.w == 0 {
		if t.val != 0 {
			return "true"
		}
		return "false"
	}
	if t.w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(t.w/4), t.val)
	}
	return fmt.Sprintf("#b%0*b", int(t.w), t.val)
}

// ref is how t is mentioned inside other terms once it has been defined.
func (t *Term) ref() string {
	switch t.op {
	case OpConst:
		return constSMT(t)
	case OpVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

func isFPOp(op Op) bool { return op >= OpFadd && op <= OpFrnd }

// fref mentions t as a floating-point value.
func (t *Term) fref() string {
	switch t.op {
	case OpFadd, OpFsub, OpFmul, OpFdiv, OpFsqrt, OpSToF, OpUToF, OpFToF, OpFrnd:
		return fmt.Sprintf("f%d", t.id)
	}
	return fmt.Sprintf("((_ to_fp %s) %s)", fpSort(t.w), t.ref())
}

var rmName = []string{"RNE", "RNA", "RTP", "RTN", "RTZ"}

// define prints the definitions of t, given that its arguments are defined.
func (t *Term) define() string {
	if r := t.defineReal(); r != "" {
		return r
	}
	def := func(body string) string {
		return fmt.Sprintf("(define-fun t%d () %s %s)\n", t.id, sortOf(t.w), body)
	}
	fdef := func(body string) string {
		// The bits of a floating-point result: a fresh constant tied to it would need an
		// assertion; z3 and cvc5 differ, z3 has fp.to_ieee_bv.
		return fmt.Sprintf("(define-fun f%d () (_ FloatingPoint %s) %s)\n(define-fun t%d () (_ BitVec %d) (fp.to_ieee_bv f%d))\n",
			t.id, fpSort(t.w), body, t.id, t.w, t.id)
	}
	switch t.op {
	case OpExtract:
		return def(fmt.Sprintf("((_ extract %d %d) %s)", t.val>>8, t.val&0xff, t.a[0].ref()))
	case OpZext:
		return def(fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a[0].w, t.a[0].ref()))
	case OpSext:
		return def(fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a[0].w, t.a[0].ref()))
	case OpBoolBV:
		return def(fmt.Sprintf("(ite %s %s %s)", t.a[0].ref(), constSMT(&Term{w: t.w, val: 1}), constSMT(&Term{w: t.w})))
	case OpFadd:
		return fdef(fmt.Sprintf("(fp.add RNE %s %s)", t.a[0].fref(), t.a[1].fref()))
	case OpFsub:
		return fdef(fmt.Sprintf("(fp.sub RNE %s %s)", t.a[0].fref(), t.a[1].fref()))
	case OpFmul:
		return fdef(fmt.Sprintf("(fp.mul RNE %s %s)", t.a[0].fref(), t.a[1].fref()))
	case OpFdiv:
		return fdef(fmt.Sprintf("(fp.div RNE %s %s)", t.a[0].fref(), t.a[1].fref()))
	case OpFsqrt:
		return fdef(fmt.Sprintf("(fp.sqrt RNE %s)", t.a[0].fref()))
	case OpFlt:
		return def(fmt.Sprintf("(fp.lt %s %s)", t.a[0].fref(), t.a[1].fref()))
	case OpFle:
		return def(fmt.Sprintf("(fp.leq %s %s)", t.a[0].fref(), t.a[1].fref()))
	case OpFeq:
		return def(fmt.Sprintf("(fp.eq %s %s)", t.a[0].fref(), t.a[1].fref()))
	case OpSToF:
		return fdef(fmt.Sprintf("((_ to_fp %s) RNE %s)", fpSort(t.w), t.a[0].ref()))
	case OpUToF:
		return fdef(fmt.Sprintf("((_ to_fp_unsigned %s) RNE %s)", fpSort(t.w), t.a[0].ref()))
	case OpFToF:
		return fdef(fmt.Sprintf("((_ to_fp %s) RNE %s)", fpSort(t.w), t.a[0].fref()))
	case OpFrnd:
		return fdef(fmt.Sprintf("(fp.roundToIntegral %s %s)", rmName[t.val], t.a[0].fref()))
	case OpFToS:
		return def(fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.w, t.a[0].fref()))
	case OpFToU:
		return def(fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", t.w, t.a[0].fref()))
	}
	var sb strings.Builder
	sb.WriteString("(" + smtName[t.op])
	for _, a := range t.a {
		sb.WriteString(" " + a.ref())
	}
	sb.WriteString(")")
	return def(sb.String())
}

// script appends to sb declarations and definitions for t not yet in done.
func (p *TermPool) script(sb *strings.Builder, t *Term, done map[uint32]bool) {
	if t.op == OpConst || (t.id != 0 && done[t.id]) {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.t.op == OpConst || done[f.t.id] {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(f.t.a) {
			n := f.t.a[f.i]
			f.i++
			if n.op != OpConst && !done[n.id] {
				st = append(st, fr{n, 0})
			}
			continue
		}
		done[f.t.id] = true
		if f.t.op == OpVar {
			sort := sortOf(f.t.w)
			if f.t.real {
				sort = "Real"
			}
			fmt.Fprintf(sb, "(declare-const %s %s)\n", f.t.ref(), sort)
		} else {
			sb.WriteString(f.t.define())
		}
		st = st[:len(st)-1]
	}
}

func sortTerms(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
}

func (t *Term) String() string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			return fmt.Sprint(t.val != 0)
		}
		return fmt.Sprintf("%d", t.val)
	case OpVar:
		return t.name
	case OpExtract:
		return fmt.Sprintf("%v[%d:%d]", t.a[0], t.val>>8, t.val&0xff)
	}
	s := fmt.Sprintf("(%d", t.op)
	if n := smtName[t.op]; n != "" {
		s = "(" + n
	}
	for _, a := range t.a {
		s += " " + a.String()
	}
	return s + ")"
}
