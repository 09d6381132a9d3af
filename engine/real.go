package main

import (
	"fmt"
	"go/token"
	"golang.org/x/tools/go/ssa"
	"math"
	"math/big"
	"strings"
)

// Floats made by sym.Real are real numbers: arithmetic on them is exact (SMT Real), so rounding
// is outside of what is decided; a harness compares with a tolerance. They are always finite;
// a division by zero forks and gives the infinity or NaN the hardware gives.

func symReal(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
	t := w.newInput(w.argStr(args[0]), "f64", 1, 64)[0]
	t.real = true
	return t
}

func (p *TermPool) markReal(t *Term) {
	any := false
	for _, a := range t.a {
		any = any || a.real
	}
	if !any {
		return
	}
	switch t.op {
	case OpFadd, OpFsub, OpFmul, OpFdiv:
		t.real = true
	case OpIte:
		t.real = t.a[1].real || t.a[2].real
	case OpFlt, OpFle, OpFeq, OpEq:
	default:
		panic(pathEnd{"unsupported: bits of a real number"})
	}
	for _, a := range t.a {
		if a.w == 64 && !a.real && !a.isConst() {
			panic(pathEnd{"unsupported: real number with a symbolic float"})
		}
	}
}

func special(t *Term) bool {
	return t.isConst() && (math.IsNaN(f64(t.val)) || math.IsInf(f64(t.val), 0))
}

// realOp is a floating-point operation with at least one real operand.
func (w *Worker) realOp(op token.Token, a, b *Term) Value {
	tp := w.tp
	fl := func(f float64) *Term { return tp.Const(math.Float64bits(f), 64) }
	zero := fl(0)
	// sign of a real, deciding it: -1, 0, 1
	sign := func(t *Term) float64 {
		if t.isConst() {
			switch v := f64(t.val); {
			case v > 0:
				return 1
			case v < 0:
				return -1
			}
			return 0
		}
		if w.decide(tp.FCmp(OpFlt, zero, t)) {
			return 1
		}
		if w.decide(tp.FCmp(OpFlt, t, zero)) {
			return -1
		}
		return 0
	}
	switch op {
	case token.LSS:
		return tp.FCmp(OpFlt, a, b)
	case token.LEQ:
		return tp.FCmp(OpFle, a, b)
	case token.GTR:
		return tp.FCmp(OpFlt, b, a)
	case token.GEQ:
		return tp.FCmp(OpFle, b, a)
	case token.ADD, token.SUB, token.MUL, token.QUO:
	default:
		return nil
	}
	if special(a) || special(b) {
		// the other operand is finite
		x, y := 0.0, 0.0
		if special(a) {
			x = f64(a.val)
		}
		if special(b) {
			y = f64(b.val)
		}
		switch op {
		case token.ADD:
			return fl(x + y)
		case token.SUB:
			return fl(x - y)
		case token.MUL:
			if special(a) {
				return fl(x * sign(b))
			}
			return fl(sign(a) * y)
		}
		if special(a) {
			s := sign(b)
			if s == 0 {
				s = 1
				if math.IsNaN(x) {
					return fl(x)
				}
			}
			return fl(x * s)
		}
		if math.IsNaN(y) {
			return fl(y)
		}
		return zero
	}
	switch op {
	case token.ADD:
		if a.isConst() && f64(a.val) == 0 {
			return b
		}
		if b.isConst() && f64(b.val) == 0 {
			return a
		}
		return tp.FBin(OpFadd, a, b)
	case token.SUB:
		if b.isConst() && f64(b.val) == 0 {
			return a
		}
		if a == b {
			return zero
		}
		return tp.FBin(OpFsub, a, b)
	case token.MUL:
		if a.isConst() && f64(a.val) == 0 || b.isConst() && f64(b.val) == 0 {
			return zero
		}
		if a.isConst() && f64(a.val) == 1 {
			return b
		}
		if b.isConst() && f64(b.val) == 1 {
			return a
		}
		return tp.FBin(OpFmul, a, b)
	}
	if sign(b) == 0 {
		return fl(sign(a) / 0.0 * 1)
	}
	if b.isConst() && f64(b.val) == 1 {
		return a
	}
	return tp.FBin(OpFdiv, a, b)
}

// realRound is any number at most a half (for floor, ceil and trunc one) away.
func (w *Worker) realRound(t *Term, mode uint64) Value {
	tp := w.tp
	r := tp.Var(fmt.Sprintf("round%d_%d", mode, t.id), 64)
	r.real = true
	d := 0.5
	if mode >= 2 {
		d = 1
	}
	k := tp.Const(math.Float64bits(d), 64)
	w.assume(tp.FCmp(OpFle, tp.FBin(OpFsub, t, k), r))
	w.assume(tp.FCmp(OpFle, r, tp.FBin(OpFadd, t, k)))
	return r
}

func (t *Term) rref() string {
	if !t.isConst() {
		return t.ref()
	}
	r := new(big.Rat).SetFloat64(f64(t.val))
	if r == nil {
		panic(pathEnd{"unsupported: special value in real arithmetic"})
	}
	neg := r.Sign() < 0
	r.Abs(r)
	s := r.Num().String() + ".0"
	if !r.IsInt() {
		s = fmt.Sprintf("(/ %s.0 %s.0)", r.Num(), r.Denom())
	}
	if neg {
		s = "(- " + s + ")"
	}
	return s
}

// defineReal prints the definition of a term over reals, or nothing where t is none.
func (t *Term) defineReal() string {
	any := false
	for _, a := range t.a {
		any = any || a.real
	}
	if !any {
		return ""
	}
	var sb strings.Builder
	op := map[Op]string{OpFadd: "+", OpFsub: "-", OpFmul: "*", OpFdiv: "/", OpFlt: "<", OpFle: "<=", OpFeq: "=", OpEq: "=", OpIte: "ite"}[t.op]
	sort := "Bool"
	if t.real {
		sort = "Real"
	}
	fmt.Fprintf(&sb, "(define-fun t%d () %s (%s", t.id, sort, op)
	for _, a := range t.a {
		if a.w == 0 {
			sb.WriteString(" " + a.ref())
		} else {
			sb.WriteString(" " + a.rref())
		}
	}
	sb.WriteString("))\n")
	return sb.String()
}

// parseReal reads the value z3 gives for a real: 1.5, (- 2.0), (/ 1.0 3.0), (root-obj ...).
func parseReal(s string) (uint64, int) {
	i := 0
	for i < len(s) && (s[i] == ' ' || s[i] == '\n') {
		i++
	}
	r, j := ratSexp(s, i)
	f := 0.0
	if r != nil {
		f, _ = r.Float64()
	}
	return math.Float64bits(f), j
}

func ratSexp(s string, i int) (*big.Rat, int) {
	for i < len(s) && (s[i] == ' ' || s[i] == '\n') {
		i++
	}
	if i >= len(s) {
		return nil, i
	}
	if s[i] != '(' {
		j := i
		for j < len(s) && s[j] != ' ' && s[j] != ')' && s[j] != '\n' {
			j++
		}
		r, ok := new(big.Rat).SetString(strings.TrimSuffix(s[i:j], "?"))
		if !ok {
			r = nil
		}
		return r, j
	}
	j := i + 1
	for j < len(s) && s[j] != ' ' && s[j] != ')' {
		j++
	}
	op := s[i+1 : j]
	var args []*big.Rat
	for j < len(s) && s[j] != ')' {
		if s[j] == ' ' || s[j] == '\n' {
			j++
			continue
		}
		var r *big.Rat
		r, j = ratSexp(s, j)
		args = append(args, r)
	}
	j++
	for _, a := range args {
		if a == nil {
			return nil, j
		}
	}
	switch {
	case op == "-" && len(args) == 1:
		return args[0].Neg(args[0]), j
	case op == "/" && len(args) == 2 && args[1].Sign() != 0:
		return args[0].Quo(args[0], args[1]), j
	}
	return nil, j
}
