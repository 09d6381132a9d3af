package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is what a register or a memory slot holds: *Term, *Str, Slice, Ptr, *Map, Iface,
// *Func, Struct, Array, Tuple, *Chan, *RType, *RValue, *MapIter, *StrIter, Poison.
type Value interface{}

type Struct []Value
type Array []Value
type Tuple []Value

// Str is a string: concrete (b == nil) or a fixed number of byte terms.
type Str struct {
	s string
	b []*Term
}

// Slice shares its backing array the way Go's does.
type Slice struct{ a []Value }

// elem locates an array element: needed for pointer arithmetic and symbolic indexes.
type elem struct {
	base []Value
	i    int
	sym  *Term // symbolic index into base
	str  *Str  // pointer into a string's bytes
}

type Ptr struct {
	s *Value
	e *elem
}

type Iface struct {
	t types.Type
	v Value
}

type Func struct {
	fn   *ssa.Function
	free []Value
	bi   *ssa.Builtin
	nat  func(w *Worker, args []Value) Value
	name string
}

type Poison struct{ why string }

type mapEnt struct {
	k, v Value
	hk   string
	live bool
}

type Map struct {
	kt, vt types.Type
	ents   []mapEnt
	idx    map[string]int
	live   int
	nsym   int
}

type MapIter struct {
	m     *Map
	pos   int
	order []int // chosen order, if the order is symbolic
}

type StrIter struct {
	s   *Str
	pos int
}

type Chan struct {
	buf    []Value
	cap    int
	closed bool
	// rendezvous for unbuffered channels
	recvWaiting int
}

func (s *Str) Len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (w *Worker) str(s string) *Str { return &Str{s: s} }

func (w *Worker) strByte(s *Str, i int) *Term {
	if s.b != nil {
		return s.b[i]
	}
	return w.tp.Const(uint64(s.s[i]), 8)
}

// mkStr makes a string of byte terms, concrete if they all are.
func (w *Worker) mkStr(b []*Term) *Str {
	for _, t := range b {
		if !t.isConst() {
			return &Str{b: b}
		}
	}
	bs := make([]byte, len(b))
	for i, t := range b {
		bs[i] = byte(t.val)
	}
	return &Str{s: string(bs)}
}

func (w *Worker) strBytes(s *Str) []*Term {
	if s.b != nil {
		return s.b
	}
	r := make([]*Term, len(s.s))
	for i := 0; i < len(s.s); i++ {
		r[i] = w.tp.Const(uint64(s.s[i]), 8)
	}
	return r
}

func (w *Worker) strSlice(s *Str, lo, hi int) *Str {
	if s.b != nil {
		return w.mkStr(s.b[lo:hi])
	}
	return &Str{s: s.s[lo:hi]}
}

func (w *Worker) strCat(a, b *Str) *Str {
	if a.b == nil && b.b == nil {
		return &Str{s: a.s + b.s}
	}
	if a.Len() == 0 {
		return b
	}
	if b.Len() == 0 {
		return a
	}
	r := append(append([]*Term(nil), w.strBytes(a)...), w.strBytes(b)...)
	return &Str{b: r}
}

func (w *Worker) strEq(a, b *Str) *Term {
	if a.b == nil && b.b == nil {
		return w.tp.Bool(a.s == b.s)
	}
	if a.Len() != b.Len() {
		return w.tp.fls
	}
	r := w.tp.tru
	for i := 0; i < a.Len(); i++ {
		r = w.tp.And(r, w.tp.Eq(w.strByte(a, i), w.strByte(b, i)))
	}
	return r
}

func (w *Worker) strLess(a, b *Str) *Term {
	if a.b == nil && b.b == nil {
		return w.tp.Bool(a.s < b.s)
	}
	n := min(a.Len(), b.Len())
	r := w.tp.Bool(a.Len() < b.Len())
	for i := n - 1; i >= 0; i-- {
		x, y := w.strByte(a, i), w.strByte(b, i)
		r = w.tp.Or(w.tp.Ult(x, y), w.tp.And(w.tp.Eq(x, y), r))
	}
	return r
}

func basicWidth(b *types.Basic) (w uint8, signed, float, ok bool) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, false, true
	case types.Int8:
		return 8, true, false, true
	case types.Int16:
		return 16, true, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, false, true
	case types.Uint8:
		return 8, false, false, true
	case types.Uint16:
		return 16, false, false, true
	case types.Uint32:
		return 32, false, false, true
	case types.Float64, types.UntypedFloat:
		return 64, true, true, true
	case types.Float32:
		return 32, true, true, true
	}
	return 0, false, false, false
}

func scalarType(t types.Type) (w uint8, signed, float, ok bool) {
	if b, k := t.Underlying().(*types.Basic); k {
		return basicWidth(b)
	}
	return 0, false, false, false
}

// zero makes the zero value of a type.
func (w *Worker) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.String || u.Kind() == types.UntypedString {
			return w.emptyStr
		}
		if u.Kind() == types.UnsafePointer {
			return Ptr{}
		}
		if u.Kind() == types.UntypedNil {
			return Ptr{}
		}
		if u.Kind() == types.Complex128 || u.Kind() == types.Complex64 {
			return Struct{w.tp.Const(0, 64), w.tp.Const(0, 64)}
		}
		wd, _, _, ok := basicWidth(u)
		if ok {
			return w.tp.Const(0, wd)
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Func)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = w.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, u.Len())
		if len(a) > 0 {
			z := w.zero(u.Elem())
			switch z.(type) {
			case Struct, Array:
				for i := range a {
					a[i] = w.zero(u.Elem())
				}
			default:
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Tuple:
		s := make(Tuple, u.Len())
		for i := range s {
			s[i] = w.zero(u.At(i).Type())
		}
		return s
	case *types.TypeParam:
		w.abort("zero of type parameter " + t.String())
	}
	w.abort("zero of " + t.String())
	return nil
}

// copyVal copies aggregates so that they share no slots.
func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		r := make(Struct, len(x))
		for i := range x {
			r[i] = copyVal(x[i])
		}
		return r
	case Array:
		r := make(Array, len(x))
		for i := range x {
			r[i] = copyVal(x[i])
		}
		return r
	}
	return v
}

func (w *Worker) constValue(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return w.zero(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		w.abort("constant of type " + t.String())
	}
	switch b.Info() & (types.IsBoolean | types.IsString | types.IsInteger | types.IsFloat | types.IsComplex) {
	case types.IsBoolean:
		return w.tp.Bool(constant.BoolVal(c.Value))
	case types.IsString:
		if c.Value.Kind() == constant.String {
			return &Str{s: constant.StringVal(c.Value)}
		}
		return &Str{s: string(rune(c.Int64()))}
	case types.IsInteger:
		wd, signed, _, _ := basicWidth(b)
		if signed {
			return w.tp.Const(uint64(c.Int64()), wd)
		}
		return w.tp.Const(c.Uint64(), wd)
	case types.IsFloat:
		f := c.Float64()
		if b.Kind() == types.Float32 {
			return w.tp.Const(uint64(math.Float32bits(float32(f))), 32)
		}
		return w.tp.Const(math.Float64bits(f), 64)
	case types.IsComplex:
		z := c.Complex128()
		return Struct{w.tp.Const(math.Float64bits(real(z)), 64), w.tp.Const(math.Float64bits(imag(z)), 64)}
	}
	w.abort("constant of type " + t.String())
	return nil
}

// eqVal is the term for a == b, both of static type t.
func (w *Worker) eqVal(a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.w != y.w {
			w.abort(fmt.Sprintf("comparing %T with %T", a, b))
		}
		return w.tp.Eq(x, y)
	case *Str:
		return w.strEq(x, b.(*Str))
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			w.abort(fmt.Sprintf("comparing %T with %T", a, b))
		}
		return w.tp.Bool(ptrEq(x, y))
	case Iface:
		y := b.(Iface)
		if x.t == nil || y.t == nil {
			return w.tp.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return w.tp.fls
		}
		if !types.Comparable(x.t) {
			w.goPanic("runtime error: comparing uncomparable type " + x.t.String())
		}
		return w.eqTyped(x.t, x.v, y.v)
	case Struct:
		y := b.(Struct)
		r := w.tp.tru
		for i := range x {
			r = w.tp.And(r, w.eqVal(x[i], y[i]))
			if r == w.tp.fls {
				return r
			}
		}
		return r
	case Array:
		y := b.(Array)
		r := w.tp.tru
		for i := range x {
			r = w.tp.And(r, w.eqVal(x[i], y[i]))
		}
		return r
	case *Map:
		return w.tp.Bool(x == b.(*Map))
	case *Chan:
		return w.tp.Bool(x == b.(*Chan))
	case *Func:
		y, _ := b.(*Func)
		return w.tp.Bool(x == y)
	case Slice: // only against nil
		y, _ := b.(Slice)
		return w.tp.Bool(x.a == nil && y.a == nil)
	case *RType:
		y, ok := b.(*RType)
		return w.tp.Bool(ok && (x == y || (x != nil && y != nil && types.Identical(x.t, y.t))))
	case Poison:
		w.abort("poisoned value: " + x.why)
	}
	w.abort(fmt.Sprintf("comparing %T", a))
	return nil
}

// eqTyped compares values of a known dynamic type; floats use IEEE equality.
func (w *Worker) eqTyped(t types.Type, a, b Value) *Term {
	if _, _, fl, ok := scalarType(t); ok && fl {
		return w.tp.FCmp(OpFeq, a.(*Term), b.(*Term))
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		x, ok1 := a.(Struct)
		y, ok2 := b.(Struct)
		if ok1 && ok2 {
			r := w.tp.tru
			for i := range x {
				if st.Field(i).Name() == "_" {
					continue
				}
				r = w.tp.And(r, w.eqTyped(st.Field(i).Type(), x[i], y[i]))
				if r == w.tp.fls {
					return r
				}
			}
			return r
		}
	}
	return w.eqVal(a, b)
}

func ptrEq(x, y Ptr) bool {
	if x.s != nil || y.s != nil {
		return x.s == y.s
	}
	if x.e == nil || y.e == nil {
		return x.e == nil && y.e == nil
	}
	return x.e.str == y.e.str && x.e.i == y.e.i
}

func (p Ptr) isNil() bool { return p.s == nil && p.e == nil }

// hashKey gives a canonical text for a concrete map key.
func hashKey(v Value, sb *strings.Builder) bool {
	switch x := v.(type) {
	case *Term:
		if !x.isConst() {
			return false
		}
		fmt.Fprintf(sb, "i%d:%d;", x.w, x.val)
	case *Str:
		if x.b != nil {
			return false
		}
		fmt.Fprintf(sb, "s%d:%s;", len(x.s), x.s)
	case Iface:
		if x.t == nil {
			sb.WriteString("nil;")
			return true
		}
		if rt, ok := x.v.(*RType); ok {
			fmt.Fprintf(sb, "R%s;", rt.t.String())
			return true
		}
		fmt.Fprintf(sb, "I%s:", types.TypeString(x.t, nil))
		return hashKey(x.v, sb)
	case Struct:
		for _, f := range x {
			if !hashKey(f, sb) {
				return false
			}
		}
	case Array:
		for _, f := range x {
			if !hashKey(f, sb) {
				return false
			}
		}
	case Ptr:
		fmt.Fprintf(sb, "p%p;", x.s)
	case *Map:
		fmt.Fprintf(sb, "m%p;", x)
	case *Chan:
		fmt.Fprintf(sb, "c%p;", x)
	case *RType:
		fmt.Fprintf(sb, "R%s;", x.t.String())
	default:
		return false
	}
	return true
}

func (w *Worker) checkHashable(k Value) {
	if i, ok := k.(Iface); ok && i.t != nil {
		if _, isR := i.v.(*RType); !isR && !types.Comparable(i.t) {
			w.goPanic("runtime error: hash of unhashable type " + i.t.String())
		}
	}
}

func newMap(kt, vt types.Type) *Map {
	return &Map{kt: kt, vt: vt, idx: map[string]int{}}
}

// mapFind returns the index of the entry with that key, or -1; may decide equalities.
func (w *Worker) mapFind(m *Map, k Value) (int, string) {
	if m == nil {
		return -1, ""
	}
	w.checkHashable(k)
	var sb strings.Builder
	if hashKey(k, &sb) {
		hk := sb.String()
		if i, ok := m.idx[hk]; ok && m.ents[i].live {
			return i, hk
		}
		if m.nsym > 0 {
			for i := range m.ents {
				if m.ents[i].live && m.ents[i].hk == "" && w.decide(w.eqVal(m.ents[i].k, k)) {
					return i, hk
				}
			}
		}
		return -1, hk
	}
	for i := range m.ents {
		if m.ents[i].live && w.decide(w.eqVal(m.ents[i].k, k)) {
			return i, ""
		}
	}
	return -1, ""
}

func (w *Worker) mapGet(m *Map, k Value) (Value, bool) {
	i, _ := w.mapFind(m, k)
	if i < 0 {
		return nil, false
	}
	return copyVal(m.ents[i].v), true
}

func (w *Worker) mapSet(m *Map, k, v Value) {
	i, hk := w.mapFind(m, k)
	v = copyVal(v)
	w.accessMap(m, true)
	if i >= 0 {
		old := m.ents[i].v
		w.undo(func() { m.ents[i].v = old })
		m.ents[i].v = v
		return
	}
	n := len(m.ents)
	var oldIdx int
	var had bool
	if hk != "" {
		oldIdx, had = m.idx[hk]
		m.idx[hk] = n
	} else {
		m.nsym++
	}
	m.ents = append(m.ents[:n], mapEnt{copyVal(k), v, hk, true})
	m.live++
	w.undo(func() {
		m.ents = m.ents[:n]
		m.live--
		if hk != "" {
			if had {
				m.idx[hk] = oldIdx
			} else {
				delete(m.idx, hk)
			}
		} else {
			m.nsym--
		}
	})
}

func (w *Worker) mapDelete(m *Map, k Value) {
	if m == nil {
		return
	}
	i, _ := w.mapFind(m, k)
	w.accessMap(m, true)
	if i < 0 {
		return
	}
	w.mapKill(m, i)
}

func (w *Worker) mapKill(m *Map, i int) {
	hk := m.ents[i].hk
	// copy-on-write, since older snapshots of the slice may be restored
	m.ents[i].live = false
	m.live--
	if hk != "" {
		delete(m.idx, hk)
	} else {
		m.nsym--
	}
	w.undo(func() {
		m.ents[i].live = true
		m.live++
		if hk != "" {
			m.idx[hk] = i
		} else {
			m.nsym++
		}
	})
}

// show prints a value under the model for messages.
func (w *Worker) show(v Value, depth int) string {
	if depth > 4 {
		return "…"
	}
	switch x := v.(type) {
	case *Term:
		if x.isConst() {
			return fmt.Sprint(x.val)
		}
		if u, ok := w.evalModel(x); ok {
			return fmt.Sprint(u)
		}
		return "?"
	case *Str:
		return fmt.Sprintf("%q", w.concreteStr(x))
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return w.show(x.v, depth+1)
	case Struct:
		var p []string
		for _, f := range x {
			p = append(p, w.show(f, depth+1))
		}
		return "{" + strings.Join(p, " ") + "}"
	case Slice:
		var p []string
		for _, f := range x.a {
			p = append(p, w.show(f, depth+1))
		}
		return "[" + strings.Join(p, " ") + "]"
	case Ptr:
		if x.isNil() {
			return "nil"
		}
		if x.s != nil {
			return "&" + w.show(*x.s, depth+1)
		}
	}
	return fmt.Sprintf("%T", v)
}

// concreteStr evaluates a string under the current model.
func (w *Worker) concreteStr(s *Str) string {
	if s.b == nil {
		return s.s
	}
	bs := make([]byte, len(s.b))
	for i, t := range s.b {
		v, _ := w.evalModel(t)
		bs[i] = byte(v)
	}
	return string(bs)
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundSize(n int) int {
	if n > 32768 {
		return (n + 8191) &^ 8191
	}
	i := sort.SearchInts(sizeClasses, n)
	return sizeClasses[i]
}

// growCap follows runtime.growslice.
func growCap(oldCap, newLen int, elemSize int64) int {
	newcap := oldCap
	double := newcap + newcap
	if newLen > double {
		newcap = newLen
	} else if oldCap < 256 {
		newcap = double
	} else {
		for newcap < newLen {
			newcap += (newcap + 3*256) >> 2
		}
	}
	if elemSize <= 0 {
		return newLen
	}
	return roundSize(newcap*int(elemSize)) / int(elemSize)
}
