package logs

import (
	"log/slog"
	"math"
	"time"

	"github.com/madkins23/go-slog/internal/zzverif/jt"
	"github.com/madkins23/go-slog/internal/zzverif/sym"
)

var bases = []int64{0, -128, 900, -1100, 99_900, 1<<31 - 100, -1<<31 - 100, 1<<53 - 100,
	999_999_999_900, math.MaxInt64 - 255, math.MinInt64, -1_000_000_000_000_000_100}

// decimal reads an integer literal back.
func decimal(s string) (neg bool, mag uint64, ok bool) {
	i := 0
	if len(s) > 0 && s[0] == '-' {
		neg = true
		i = 1
	}
	if i >= len(s) || len(s)-i > 20 {
		return false, 0, false
	}
	for ; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false, 0, false
		}
		mag = mag*10 + uint64(s[i]-'0')
	}
	return neg, mag, true
}

func isInt(n *jt.Node, x int64) bool {
	if n.Kind != jt.Number {
		return false
	}
	neg, mag, ok := decimal(n.Text)
	if !ok {
		return false
	}
	if neg {
		return int64(-mag) == x && x < 0
	}
	return int64(mag) == x && x >= 0
}

func isUint(n *jt.Node, x uint64) bool {
	if n.Kind != jt.Number {
		return false
	}
	neg, mag, ok := decimal(n.Text)
	return ok && !neg && mag == x
}

// put logs the value at one of the places a value can be and returns what is there.
func put(which, place int, v slog.Value) *jt.Node {
	w := &sink{}
	h := newHandler(which, w, nil)
	r := rec(slog.LevelInfo, "m")
	a := slog.Attr{Key: "k", Value: v}
	switch place {
	case 0:
		r.AddAttrs(a)
	case 1:
		h = h.WithAttrs([]slog.Attr{a})
	case 2:
		r.AddAttrs(slog.Attr{Key: "g", Value: slog.GroupValue(a)})
	case 3:
		r.AddAttrs(slog.Any("k", valuer{v}))
	case 4:
		h = h.WithGroup("g")
		r.AddAttrs(a)
	case 5:
		h = h.WithGroup("g").WithAttrs([]slog.Attr{a})
	}
	handle(h, r)
	sym.ObserveString("out", string(w.all))
	o := line(w.all)
	sym.Assert(len(o.Keys) == 3, "number of members")
	if place == 2 || place >= 4 {
		g := o.Get("g")
		sym.Assert(g != nil && g.Kind == jt.Object && len(g.Keys) == 1, "group is not there")
		o = g
	}
	k := o.Get("k")
	sym.Assert(k != nil, "attribute is not there")
	return k
}

// Ints: any integer of a window of 256 around a base: p = {handler, place, kind, base}.
func Ints(p []int) {
	d := int64(sym.Byte("d"))
	x := bases[p[3]] + d
	switch p[2] {
	case 0:
		sym.Assert(isInt(put(p[0], p[1], slog.Int64Value(x)), x), "signed integer differs")
	case 1:
		sym.Assert(isUint(put(p[0], p[1], slog.Uint64Value(uint64(x))), uint64(x)), "unsigned integer differs")
	case 2:
		sym.Assert(isInt(put(p[0], p[1], slog.DurationValue(time.Duration(x))), x), "duration is not its nanoseconds")
	case 3:
		sym.Assert(isInt(put(p[0], p[1], slog.AnyValue(int(x))), x), "int differs")
	case 4:
		y := int32(x)
		sym.Assert(isInt(put(p[0], p[1], slog.AnyValue(y)), int64(y)), "int32 differs")
	}
	sym.Reach("end")
}

// IntsAll: any 64-bit integer: p = {handler, place, kind}.
func IntsAll(p []int) {
	x := sym.Int64("x")
	switch p[2] {
	case 0:
		sym.Assert(isInt(put(p[0], p[1], slog.Int64Value(x)), x), "signed integer differs")
	case 1:
		sym.Assert(isUint(put(p[0], p[1], slog.Uint64Value(uint64(x))), uint64(x)), "unsigned integer differs")
	case 2:
		sym.Assert(isInt(put(p[0], p[1], slog.DurationValue(time.Duration(x))), x), "duration is not its nanoseconds")
	}
	sym.Reach("end")
}

// Bools: p = {handler, place}.
func Bools(p []int) {
	b := sym.Bool("b")
	k := put(p[0], p[1], slog.BoolValue(b))
	sym.Assert(k.Kind == jt.Bool, "boolean is not one")
	sym.Assert((k.Text == "true") == b, "boolean differs")
	sym.Reach("end")
}

// Specials: any NaN, and both infinities: p = {handler, place}.
func Specials(p []int) {
	f := sym.Float64("f")
	bits := math.Float64bits(f)
	sym.Assume(bits>>52&0x7ff == 0x7ff)
	k := put(p[0], p[1], slog.Float64Value(f))
	sym.Assert(k.Kind == jt.String, "NaN or an infinity is not a string")
	want := "NaN"
	if bits<<12 == 0 {
		want = "+Inf"
		if bits>>63 != 0 {
			want = "-Inf"
		}
	}
	sym.Assert(k.Text == want, "NaN or an infinity has another name")
	sym.Reach("end")
}

var floats = []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 1.5, 1e21, 1e-7, 123456789.125, math.MaxFloat64,
	math.SmallestNonzeroFloat64, math.Pi, -2.5e-300, 1 << 53, 1e20, 0.3, 100, 0.1 + 0.2, 1<<53 + 2, 1 << 63, -1 << 63, 1 << 64, 123456789012345678, 1e15, 1e-5, 4.35, -1 / 3.0, 1e308, 0.000001}

// Floats: numbers of a table: p = {handler, place}.
func Floats(p []int) {
	f := floats[sym.Choose("f", len(floats))]
	k := put(p[0], p[1], slog.Float64Value(f))
	sym.Assert(k.Kind == jt.Number, "float is not a number")
	g, ok := parseFloat(k.Text)
	sym.Assert(ok && math.Float64bits(g) == math.Float64bits(f), "float differs")
	sym.Reach("end")
}
