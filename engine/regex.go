package main

import (
	"regexp"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Regular expressions over text without symbolic bytes are matched by the host's package
// regexp; over symbolic text the code of the package is interpreted like any other.

var (
	regMu  sync.Mutex
	regexs = map[string]*regexp.Regexp{}
)

func hostRegexp(expr string) *regexp.Regexp {
	regMu.Lock()
	defer regMu.Unlock()
	r, ok := regexs[expr]
	if !ok {
		r, _ = regexp.Compile(expr)
		regexs[expr] = r
	}
	return r
}

func regexExecute(w *Worker, fr *Frame, fn *ssa.Function, args []Value) Value {
	p, ok := args[0].(Ptr)
	if !ok || p.s == nil {
		return runBody{}
	}
	st, ok := (*p.s).(Struct)
	if !ok {
		return runBody{}
	}
	expr, ok := st[0].(*Str)
	if !ok || expr.b != nil {
		return runBody{}
	}
	if r, ok := args[1].(Iface); !ok || r.t != nil {
		return runBody{}
	}
	s, ok := args[3].(*Str)
	if !ok || s.b != nil {
		return runBody{}
	}
	text := s.s
	if b := args[2].(Slice).a; b != nil {
		bs := make([]byte, len(b))
		for i, x := range b {
			t, ok := x.(*Term)
			if !ok || !t.isConst() {
				return runBody{}
			}
			bs[i] = byte(t.val)
		}
		text = string(bs)
	}
	pos, ncap := args[4].(*Term), args[5].(*Term)
	if !pos.isConst() || pos.val != 0 || !ncap.isConst() {
		return runBody{}
	}
	// field longest: POSIX matching is left to the interpreted code
	if len(st) != 16 {
		return runBody{}
	}
	if t, ok := st[15].(*Term); !ok || !t.isConst() || t.val != 0 {
		return runBody{}
	}
	re := hostRegexp(expr.s)
	if re == nil {
		return runBody{}
	}
	loc := re.FindStringSubmatchIndex(text)
	if loc == nil {
		return Slice{}
	}
	n := min(int(ncap.val), len(loc))
	out := make([]Value, n)
	for i := range out {
		out[i] = w.tp.Const(uint64(int64(loc[i])), 64)
	}
	return Slice{out}
}
