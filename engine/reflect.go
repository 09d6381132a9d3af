package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// RType stands for a reflect.Type (or its reflectlite twin).
type RType struct{ t types.Type }

// RValue stands for a reflect.Value.
type RValue struct {
	t    types.Type
	v    Value
	slot *Value  // when addressable
	recv []Value // of a method: the receiver it is bound to
}

// rtypeT is the dynamic type of interface values holding an *RType.
var rtypeT types.Type = types.NewPointer(types.NewNamed(types.NewTypeName(0, nil, "rtype", nil), types.NewStruct(nil, nil), nil))

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (w *Worker) rtypeMethod(rt *RType, name string, a []Value) Value {
	switch name {
	case "String":
		return &Str{s: typeString(rt.t)}
	case "Name":
		if n, ok := rt.t.(*types.Named); ok {
			return &Str{s: n.Obj().Name()}
		}
		if b, ok := rt.t.(*types.Basic); ok {
			return &Str{s: b.Name()}
		}
		return w.emptyStr
	case "PkgPath":
		if n, ok := rt.t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return &Str{s: n.Obj().Pkg().Path()}
		}
		return w.emptyStr
	case "Kind":
		return w.tp.Const(uint64(kindOf(rt.t)), 64)
	case "Comparable":
		return w.tp.Bool(types.Comparable(rt.t))
	case "NumField":
		return w.tp.Const(uint64(rt.t.Underlying().(*types.Struct).NumFields()), 64)
	case "Elem":
		switch u := rt.t.Underlying().(type) {
		case *types.Pointer:
			return Iface{rtypeT, &RType{u.Elem()}}
		case *types.Slice:
			return Iface{rtypeT, &RType{u.Elem()}}
		case *types.Array:
			return Iface{rtypeT, &RType{u.Elem()}}
		case *types.Map:
			return Iface{rtypeT, &RType{u.Elem()}}
		}
	case "Key":
		return Iface{rtypeT, &RType{rt.t.Underlying().(*types.Map).Key()}}
	case "NumIn":
		return w.tp.Const(uint64(rt.t.Underlying().(*types.Signature).Params().Len()), 64)
	case "NumOut":
		return w.tp.Const(uint64(rt.t.Underlying().(*types.Signature).Results().Len()), 64)
	case "In":
		return Iface{rtypeT, &RType{rt.t.Underlying().(*types.Signature).Params().At(int(w.concreteInt(a[0]))).Type()}}
	case "Out":
		return Iface{rtypeT, &RType{rt.t.Underlying().(*types.Signature).Results().At(int(w.concreteInt(a[0]))).Type()}}
	case "IsVariadic":
		return w.tp.Bool(rt.t.Underlying().(*types.Signature).Variadic())
	case "NumMethod":
		return w.tp.Const(uint64(exportedMethods(rt.t)), 64)
	case "ConvertibleTo":
		it := a[0].(Iface).v.(*RType)
		return w.tp.Bool(types.ConvertibleTo(rt.t, it.t))
	case "FieldByName":
		x, ok := a[0].(*Str)
		if !ok || x.b != nil {
			w.abort("a field of a symbolic name")
		}
		f := &RField{}
		obj, index, _ := types.LookupFieldOrMethod(rt.t, false, nil, x.s)
		if v, isV := obj.(*types.Var); isV && obj.Exported() {
			f.v, f.index = v, index
		}
		return Tuple{f.structField(w), w.tp.Bool(f.v != nil)}
	case "Implements":
		it := a[0].(Iface).v.(*RType)
		return w.tp.Bool(types.Implements(rt.t, it.t.Underlying().(*types.Interface)))
	case "AssignableTo":
		it := a[0].(Iface).v.(*RType)
		return w.tp.Bool(types.AssignableTo(rt.t, it.t))
	}
	w.abort("reflect type method " + name)
	return nil
}

func (w *Worker) rvalueMethod(name string, fn *ssa.Function, args []Value) Value {
	rv, ok := args[0].(*RValue)
	if !ok { // the zero reflect.Value
		switch name {
		case "IsValid":
			return w.tp.fls
		case "Kind":
			return w.tp.Const(0, 64)
		}
		w.goPanic("reflect: call of Value." + name + " on zero Value")
	}
	v := rv.v
	if rv.slot != nil {
		v = copyVal(*rv.slot)
	}
	switch name {
	case "Addr":
		if rv.slot == nil {
			w.goPanic("reflect.Value.Addr of unaddressable value")
		}
		return &RValue{t: types.NewPointer(rv.t), v: Ptr{s: rv.slot}}
	case "MethodByName":
		x, ok := args[1].(*Str)
		if !ok || x.b != nil {
			w.abort("a method of a symbolic name")
		}
		sel := w.eng.prog.MethodSets.MethodSet(rv.t).Lookup(nil, x.s)
		if sel == nil || !sel.Obj().Exported() {
			return w.zeroResults(fn)
		}
		of := rv.t
		if i, isI := v.(Iface); isI {
			if i.t == nil {
				w.goPanic("reflect: Method on nil interface value")
			}
			if i.t == rtypeT {
				rt := i.v.(*RType)
				return &RValue{t: sel.Type(), v: &Func{name: x.s, nat: func(w *Worker, a []Value) Value { return w.rtypeMethod(rt, x.s, a) }}}
			}
			of, v = i.t, i.v
		}
		f := w.eng.lookupMethod(of, nil, x.s)
		if f == nil {
			w.abort("no method " + x.s + " of " + of.String())
		}
		sig := sel.Type().(*types.Signature)
		return &RValue{t: types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic()), v: w.funcVal(f), recv: []Value{copyVal(v)}}
	case "MapIndex":
		m, _ := v.(*Map)
		k := args[1].(*RValue)
		kv := k.v
		if k.slot != nil {
			kv = copyVal(*k.slot)
		}
		if m != nil {
			if _, isI := kv.(Iface); !isI && types.IsInterface(m.kt) {
				kv = Iface{k.t, kv}
			}
			if x, ok := w.mapGet(m, kv); ok {
				return &RValue{t: m.vt, v: x}
			}
		}
		return w.zeroResults(fn)
	case "FieldByIndexErr":
		r := rv
		for _, ix := range args[1].(Slice).a {
			if pt, isP := r.t.Underlying().(*types.Pointer); isP {
				x := r.v
				if r.slot != nil {
					x = *r.slot
				}
				if x.(Ptr).isNil() {
					w.abort("a field of an embedded nil pointer")
				}
				r = &RValue{t: pt.Elem(), slot: x.(Ptr).s}
			}
			r = w.rvalueMethod("Field", fn, []Value{r, ix}).(*RValue)
		}
		return Tuple{r, Iface{}}
	case "CanSet":
		return w.tp.Bool(rv.slot != nil)
	case "SetString", "SetBool":
		w.assign(rv.slot, args[1])
		return nil
	case "SetInt", "SetUint":
		wd, _, _, _ := basicWidth(rv.t.Underlying().(*types.Basic))
		w.assign(rv.slot, w.tp.Extract(args[1].(*Term), wd-1, 0))
		return nil
	case "SetFloat":
		if kindOf(rv.t) != reflect.Float64 {
			break
		}
		w.assign(rv.slot, args[1])
		return nil
	case "Slice":
		i, j := int(w.concreteInt(args[1])), int(w.concreteInt(args[2]))
		switch x := v.(type) {
		case Slice:
			return &RValue{t: rv.t, v: Slice{a: x.a[i:j]}}
		}
	case "IsZero":
		z := w.zero(rv.t)
		return w.eqVal(v, z)
	case "Cap":
		if x, ok := v.(Slice); ok {
			return w.tp.Const(uint64(cap(x.a)), 64)
		}
	case "CanInt", "CanUint", "CanFloat":
		k := kindOf(rv.t)
		switch name {
		case "CanInt":
			return w.tp.Bool(k >= reflect.Int && k <= reflect.Int64)
		case "CanUint":
			return w.tp.Bool(k >= reflect.Uint && k <= reflect.Uintptr)
		}
		return w.tp.Bool(k == reflect.Float32 || k == reflect.Float64)
	case "IsValid":
		return w.tp.tru
	case "CanInterface":
		return w.tp.tru
	case "CanAddr":
		return w.tp.Bool(rv.slot != nil)
	case "Kind":
		return w.tp.Const(uint64(kindOf(rv.t)), 64)
	case "Type":
		return Iface{rtypeT, &RType{rv.t}}
	case "Interface":
		if i, ok := v.(Iface); ok {
			return i
		}
		return Iface{rv.t, v}
	case "Len":
		switch x := v.(type) {
		case Slice:
			return w.tp.Const(uint64(len(x.a)), 64)
		case Array:
			return w.tp.Const(uint64(len(x)), 64)
		case *Str:
			return w.tp.Const(uint64(x.Len()), 64)
		case *Map:
			if x == nil {
				return w.tp.Const(0, 64)
			}
			return w.tp.Const(uint64(x.live), 64)
		}
	case "IsNil":
		switch x := v.(type) {
		case Slice:
			return w.tp.Bool(x.a == nil)
		case Ptr:
			return w.tp.Bool(x.isNil())
		case *Map:
			return w.tp.Bool(x == nil)
		case *Func:
			return w.tp.Bool(x == nil)
		case *Chan:
			return w.tp.Bool(x == nil)
		case Iface:
			return w.tp.Bool(x.t == nil)
		}
	case "Elem":
		switch x := v.(type) {
		case Ptr:
			if x.isNil() {
				return w.zeroResults(fn)
			}
			return &RValue{t: rv.t.Underlying().(*types.Pointer).Elem(), slot: x.s}
		case Iface:
			if x.t == nil {
				return w.zeroResults(fn)
			}
			return &RValue{t: x.t, v: x.v}
		}
	case "String":
		if x, ok := v.(*Str); ok {
			return x
		}
		return &Str{s: "<" + typeString(rv.t) + " Value>"}
	case "Int":
		return w.tp.Sext(v.(*Term), 64)
	case "Uint":
		return w.tp.Zext(v.(*Term), 64)
	case "Float":
		t := v.(*Term)
		return w.tp.FConv(OpFToF, t, 64, 0)
	case "Bool":
		return v
	case "NumField":
		return w.tp.Const(uint64(rv.t.Underlying().(*types.Struct).NumFields()), 64)
	case "Field":
		i := int(w.concreteInt(args[1]))
		st := rv.t.Underlying().(*types.Struct)
		s := v.(Struct)
		r := &RValue{t: st.Field(i).Type(), v: s[i]}
		if rv.slot != nil {
			r.slot = &(*rv.slot).(Struct)[i]
		}
		return r
	case "Index":
		i := int(w.concreteInt(args[1]))
		switch x := v.(type) {
		case Slice:
			return &RValue{t: rv.t.Underlying().(*types.Slice).Elem(), slot: &x.a[i]}
		case Array:
			return &RValue{t: rv.t.Underlying().(*types.Array).Elem(), v: x[i]}
		}
	case "NumMethod":
		return w.tp.Const(uint64(types.NewMethodSet(rv.t).Len()), 64)
	case "Pointer", "UnsafePointer":
		w.abort("the numeric value of a pointer")
	}
	w.abort("reflect value method " + name + " on " + rv.t.String())
	return nil
}

func (w *Worker) deepEqual(a, b Value, depth int) *Term {
	if depth > 30 {
		w.abort("deep equality too deep")
	}
	x, ok1 := a.(Iface)
	y, ok2 := b.(Iface)
	if ok1 && ok2 {
		if x.t == nil || y.t == nil {
			return w.tp.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return w.tp.fls
		}
		return w.deepEqual(x.v, y.v, depth+1)
	}
	r := w.tp.tru
	switch x := a.(type) {
	case Struct:
		y := b.(Struct)
		for i := range x {
			r = w.tp.And(r, w.deepEqual(x[i], y[i], depth+1))
		}
		return r
	case Array:
		y := b.(Array)
		for i := range x {
			r = w.tp.And(r, w.deepEqual(x[i], y[i], depth+1))
		}
		return r
	case Slice:
		y := b.(Slice)
		if (x.a == nil) != (y.a == nil) || len(x.a) != len(y.a) {
			return w.tp.fls
		}
		for i := range x.a {
			r = w.tp.And(r, w.deepEqual(x.a[i], y.a[i], depth+1))
		}
		return r
	case *Map:
		y := b.(*Map)
		if (x == nil) != (y == nil) {
			return w.tp.fls
		}
		if x == nil {
			return w.tp.tru
		}
		if x.live != y.live {
			return w.tp.fls
		}
		for _, e := range x.ents {
			if !e.live {
				continue
			}
			v, ok := w.mapGet(y, e.k)
			if !ok {
				return w.tp.fls
			}
			r = w.tp.And(r, w.deepEqual(e.v, v, depth+1))
		}
		return r
	case Ptr:
		y := b.(Ptr)
		if ptrEq(x, y) {
			return w.tp.tru
		}
		if x.s == nil || y.s == nil {
			return w.tp.fls
		}
		return w.deepEqual(*x.s, *y.s, depth+1)
	}
	return w.eqVal(a, b)
}

// toGo turns a concrete value into a native one, for the encoding/json stand-in.
func (w *Worker) toGo(t types.Type, v Value) (any, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch x := v.(type) {
		case *Str:
			return x.s, x.b == nil
		case *Term:
			if !x.isConst() {
				return nil, false
			}
			wd, signed, fl, _ := basicWidth(u)
			switch {
			case wd == 0:
				return x.val != 0, true
			case fl && wd == 64:
				return math.Float64frombits(x.val), true
			case fl:
				return math.Float32frombits(uint32(x.val)), true
			case signed:
				return sext64(x.val, wd), true
			}
			return x.val, true
		}
	case *types.Slice:
		s := v.(Slice)
		if s.a == nil {
			return nil, true
		}
		if isByteSlice(t) {
			b := make([]byte, len(s.a))
			for i := range s.a {
				b[i] = byte(s.a[i].(*Term).val)
			}
			return b, true
		}
		r := make([]any, len(s.a))
		for i := range s.a {
			x, ok := w.toGo(u.Elem(), s.a[i])
			if !ok {
				return nil, false
			}
			r[i] = x
		}
		return r, true
	case *types.Map:
		m := v.(*Map)
		if m == nil {
			return nil, true
		}
		if b, ok := u.Key().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
			return nil, false
		}
		r := map[string]any{}
		for _, e := range m.ents {
			if !e.live {
				continue
			}
			x, ok := w.toGo(u.Elem(), e.v)
			if !ok {
				return nil, false
			}
			r[e.k.(*Str).s] = x
		}
		return r, true
	case *types.Interface:
		i := v.(Iface)
		if i.t == nil {
			return nil, true
		}
		if hasMarshaler(i.t) {
			return nil, false
		}
		return w.toGo(i.t, i.v)
	case *types.Pointer:
		p := v.(Ptr)
		if p.isNil() {
			return nil, true
		}
		if p.s == nil {
			return nil, false
		}
		return w.toGo(u.Elem(), *p.s)
	case *types.Struct:
		if hasMarshaler(t) {
			return nil, false
		}
		st := v.(Struct)
		var fs []reflect.StructField
		var vals []any
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() || f.Embedded() || strings.Contains(u.Tag(i), "omitempty") {
				if f.Embedded() || f.Exported() {
					return nil, false
				}
				continue
			}
			x, ok := w.toGo(f.Type(), st[i])
			if !ok {
				return nil, false
			}
			fs = append(fs, reflect.StructField{Name: f.Name(), Type: reflect.TypeOf((*any)(nil)).Elem(), Tag: reflect.StructTag(u.Tag(i))})
			vals = append(vals, x)
		}
		rv := reflect.New(reflect.StructOf(fs)).Elem()
		for i, x := range vals {
			if x != nil {
				rv.Field(i).Set(reflect.ValueOf(x))
			}
		}
		return rv.Interface(), true
	}
	return nil, false
}

func hasMarshaler(t types.Type) bool {
	for _, n := range []string{"MarshalJSON", "MarshalText"} {
		for _, x := range []types.Type{t, types.NewPointer(t)} {
			if o, _, _ := types.LookupFieldOrMethod(x, true, nil, n); o != nil {
				if _, ok := o.(*types.Func); ok {
					return true
				}
			}
		}
	}
	return false
}

// nativeMarshal answers ([]byte, ok) for concrete plain data.
func (w *Worker) nativeMarshal(x Iface) Value {
	bad := func(msg string) Value {
		return Tuple{Slice{}, &Str{s: msg}, w.tp.tru}
	}
	if x.t != nil {
		switch k := kindOf(x.t); k {
		case reflect.Chan, reflect.Func, reflect.Complex128, reflect.Complex64:
			return bad("json: unsupported type: " + typeString(x.t))
		}
		if !concreteWhole(x.v, 0) {
			w.abort("encoding/json on " + typeString(x.t))
		}
	}
	var gv any
	if x.t != nil {
		v, ok := w.toGo(x.t, x.v)
		if !ok {
			w.abort("encoding/json on " + typeString(x.t))
		}
		gv = v
	}
	b, err := json.Marshal(gv)
	if err != nil {
		return bad(err.Error())
	}
	return Tuple{w.strToBytes(&Str{s: string(b)}), w.emptyStr, w.tp.tru}
}

var _ = fmt.Sprint

// RField is a field found by its name.
type RField struct {
	v     *types.Var
	index []int
}

func (f *RField) structField(w *Worker) Value {
	s := Struct{w.emptyStr, w.emptyStr, Iface{}, w.emptyStr, w.tp.Const(0, 64), Slice{}, w.tp.fls}
	if f.v == nil {
		return s
	}
	ix := make([]Value, len(f.index))
	for i, n := range f.index {
		ix[i] = w.tp.Const(uint64(n), 64)
	}
	s[0], s[2], s[5], s[6] = &Str{s: f.v.Name()}, Iface{rtypeT, &RType{f.v.Type()}}, Slice{a: ix}, w.tp.Bool(f.v.Embedded())
	return s
}

func exportedMethods(t types.Type) int {
	n, ms := 0, types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			n++
		}
	}
	return n
}

// applied makes the arguments of a call by reflection.
func (w *Worker) applied(f *RValue, in []Value) []Value {
	sig := f.t.Underlying().(*types.Signature)
	fit := func(v Value, t types.Type) Value {
		r, ok := v.(*RValue)
		if !ok {
			if t.String() == "reflect.Value" {
				return v
			}
			w.goPanic("reflect: Call using zero Value argument")
		}
		x := r.v
		if r.slot != nil {
			x = copyVal(*r.slot)
		}
		if types.IsInterface(t) {
			if i, isI := x.(Iface); isI {
				return i
			}
			return Iface{r.t, x}
		}
		if !types.AssignableTo(r.t, t) {
			w.goPanic("reflect: Call using " + r.t.String() + " as type " + t.String())
		}
		return x
	}
	args := append([]Value{}, f.recv...)
	n := sig.Params().Len()
	if sig.Variadic() {
		n--
	}
	if len(in) < n || len(in) > n && !sig.Variadic() {
		w.goPanic("reflect: Call with too few or too many input arguments")
	}
	for i := 0; i < n; i++ {
		args = append(args, fit(in[i], sig.Params().At(i).Type()))
	}
	if sig.Variadic() {
		et := sig.Params().At(n).Type().(*types.Slice).Elem()
		rest := make([]Value, 0, len(in)-n)
		for _, x := range in[n:] {
			rest = append(rest, fit(x, et))
		}
		if len(rest) == 0 {
			args = append(args, Slice{})
		} else {
			args = append(args, Slice{a: rest})
		}
	}
	return args
}
