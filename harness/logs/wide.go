package logs

import (
	"errors"
	"fmt"
	"log/slog"
	"os"
	"strconv"
	"strings"
	"time"

	"github.com/madkins23/go-slog/handlers/flash"
	"github.com/madkins23/go-slog/internal/zzverif/jt"
	"github.com/madkins23/go-slog/internal/zzverif/sym"
)

// Padded puts any text of n bytes behind and before many others, around the sizes of buffers:
// p = {handler, site, bytes before, n}.
func Padded(p []int) {
	txt := sym.String("txt", p[3])
	long := strings.Repeat("0123456789abcdefghijklmnopqrstuvwxyz", p[2]/36+1)[:p[2]] + txt + "end"
	w := &sink{}
	h := newHandler(p[0], w, nil)
	r := rec(slog.LevelInfo, "m")
	msg := "m"
	var want []pair
	switch p[1] {
	case 0:
		msg = long
		r = rec(slog.LevelInfo, long)
	case 1:
		r.AddAttrs(slog.String("a", "b"), slog.String("k", long))
		want = []pair{{"a", str("b")}, {"k", str(long)}}
	case 2:
		h = h.WithAttrs([]slog.Attr{slog.String("k", long), slog.Int("l", 1)})
		want = []pair{{"k", str(long)}, {"l", num("1")}}
	case 3:
		h = h.WithGroup(long)
		want = []pair{{long, obj(pair{"z", str("y")})}}
	case 4:
		r.AddAttrs(slog.Int(long, 7))
		want = []pair{{long, num("7")}}
	case 5:
		h = h.WithGroup("g").WithAttrs([]slog.Attr{slog.String("k", long)})
		want = []pair{{"g", obj(pair{"k", str(long)}, pair{"z", str("y")})}}
	}
	r.AddAttrs(slog.String("z", "y"))
	if p[1] != 3 && p[1] != 5 {
		want = append(want, pair{"z", str("y")})
	}
	handle(h, r)
	sym.Assert(w.calls == 1, "a record takes more than one Write")
	same(obj(append([]pair{{"level", str("INFO")}, {"msg", str(msg)}}, want...)...), line(w.take()))
	// and the one after it
	handle(h, rec(slog.LevelInfo, "m", slog.String("z", "y")))
	want2 := []pair{{"z", str("y")}}
	if p[1] == 2 || p[1] == 3 || p[1] == 5 {
		want2 = want
	}
	same(basics(want2), line(w.take()))
	sym.Reach("end")
}

// Two puts any two texts of one byte at two places at once: p = {handler, pair of places}.
func Two(p []int) {
	a, b := sym.String("a", 1), sym.String("b", 1)
	w := &sink{}
	h := newHandler(p[0], w, nil)
	r := rec(slog.LevelInfo, a)
	msg := a
	var want []pair
	switch p[1] {
	case 0:
		r.AddAttrs(slog.String("k", b))
		want = []pair{{"k", str(b)}}
	case 1:
		r = rec(slog.LevelInfo, "m", slog.String("k"+a, b))
		msg, want = "m", []pair{{"k" + a, str(b)}}
	case 2:
		h = h.WithAttrs([]slog.Attr{slog.String("k", a)}).WithGroup("g" + b)
		r = rec(slog.LevelInfo, "m", slog.String("k", "v"))
		msg, want = "m", []pair{{"k", str(a)}, {"g" + b, obj(pair{"k", str("v")})}}
	case 3:
		r = rec(slog.LevelInfo, "m", slog.String("k", a), slog.Group("g", slog.String("l", b)), slog.Int("n", 1))
		msg, want = "m", []pair{{"k", str(a)}, {"g", obj(pair{"l", str(b)})}, {"n", num("1")}}
	case 4:
		h = h.WithGroup("g" + a).WithGroup("h" + b)
		r = rec(slog.LevelInfo, "m", slog.String("k", "v"))
		msg, want = "m", []pair{{"g" + a, obj(pair{"h" + b, obj(pair{"k", str("v")})})}}
	}
	handle(h, r)
	same(obj(append([]pair{{"level", str("INFO")}, {"msg", str(msg)}}, want...)...), line(w.all))
	sym.Reach("end")
}

// Wide logs a record of many attributes, any of which may be a zero attribute or a group:
// p = {handler, attributes, groups open}.
func Wide(p []int) {
	w := &sink{}
	h := newHandler(p[0], w, nil)
	var ops []op
	for i := 0; i < p[2]; i++ {
		o := op{group: "g"}
		ops = append(ops, o)
		h = o.apply(h)
	}
	at := sym.Choose("at", p[1])
	kind := sym.Choose("kind", 4)
	var last []m
	for i := 0; i < p[1]; i++ {
		a := m{key: "k" + itoa(i), text: "v"}
		if i == at {
			a = shape([]int{0, 1, 5, 7}[kind], itoa(i), letter("t"))
		}
		last = append(last, a)
	}
	handle(h, rec(slog.LevelInfo, "m", attrs(last)...))
	same(basics(build(ops, last, nil, nil)), line(w.take()))
	// as one group
	g := []m{{key: "G", group: true, kids: last}}
	handle(h, rec(slog.LevelInfo, "m", attrs(g)...))
	same(basics(build(ops, g, nil, nil)), line(w.take()))
	// and by WithAttrs
	o := op{attrs: last}
	ops = append(ops, o)
	h = o.apply(h)
	handle(h, rec(slog.LevelInfo, "m"))
	same(basics(build(ops, nil, nil, nil)), line(w.take()))
	sym.Reach("end")
}

// Deep logs through a handler with a long history in which names repeat: p = {handler, steps, ReplaceAttr}.
func Deep(p []int) {
	w := &sink{}
	var o *slog.HandlerOptions
	var rw rewriter
	if p[2] == 1 {
		o = &slog.HandlerOptions{ReplaceAttr: func(gs []string, a slog.Attr) slog.Attr {
			if a.Equal(slog.Attr{}) {
				return a
			}
			a.Key += "/" + strings.Join(gs, ".")
			return a
		}}
		rw = func(gs []string, key, text string) (string, string, bool) {
			return key + "/" + strings.Join(gs, "."), text, true
		}
	}
	h := newHandler(p[0], w, o)
	var ops []op
	for i := 0; i < p[1]; i++ {
		s := op{group: "g"}
		switch sym.Choose("step", 4) {
		case 1:
			s = op{attrs: []m{{key: "a", text: letter("t")}}}
		case 2:
			s = op{attrs: []m{{key: "g", group: true, kids: []m{{key: "a", text: letter("t")}}}, {zero: true}}}
		case 3:
			s = op{attrs: []m{{key: "e", group: true}}}
		}
		ops = append(ops, s)
		h = s.apply(h)
	}
	for i := 0; i < 2; i++ {
		last := []m{{key: "z", text: "y"}}
		if i == 1 {
			last = nil
		}
		handle(h, rec(slog.LevelInfo, "m", attrs(last)...))
		base := expect([]m{{key: "level", text: "INFO"}, {key: "msg", text: "m"}}, nil, rw)
		same(obj(append(base, build(ops, last, nil, rw)...)...), line(w.take()))
	}
	sym.Reach("end")
}

// Family derives siblings at every depth from a chain of groups and uses them all, with a ReplaceAttr that shows
// the groups it is given: p = {handler, depth, ReplaceAttr}.
func Family(p []int) {
	w := &sink{}
	var o *slog.HandlerOptions
	var rw rewriter
	if p[2] == 1 {
		o = &slog.HandlerOptions{ReplaceAttr: func(gs []string, a slog.Attr) slog.Attr {
			if a.Equal(slog.Attr{}) {
				return a
			}
			a.Key += "/" + strings.Join(gs, ".")
			return a
		}}
		rw = func(gs []string, key, text string) (string, string, bool) {
			return key + "/" + strings.Join(gs, "."), text, true
		}
	}
	type one struct {
		ops []op
		h   slog.Handler
	}
	var all []one
	cur := one{nil, newHandler(p[0], w, o)}
	step := func(f one, s op) one { return one{append(append([]op{}, f.ops...), s), s.apply(f.h)} }
	with := sym.Choose("with", 3)
	for i := 0; i < p[1]; i++ {
		cur = step(cur, op{group: "g" + itoa(i)})
		if with == 1 && i == 0 || with == 2 {
			cur = step(cur, op{attrs: []m{{key: "a", text: "b"}}})
		}
		all = append(all, cur, step(cur, op{group: "s" + letter("s")}), step(cur, op{group: "S"}), step(cur, op{attrs: []m{{key: "w", text: "x"}}}))
	}
	rev := sym.Bool("reverse")
	for k := range all {
		f := all[k]
		if rev {
			f = all[len(all)-1-k]
		}
		last := []m{{key: "r", text: "v"}, {key: "q", group: true, kids: []m{{key: "r", text: "v"}}}}
		handle(f.h, rec(slog.LevelInfo, "m", attrs(last)...))
		base := expect([]m{{key: "level", text: "INFO"}, {key: "msg", text: "m"}}, nil, rw)
		same(obj(append(base, build(f.ops, last, nil, rw)...)...), line(w.take()))
	}
	sym.Reach("end")
}

// Builtins has ReplaceAttr remove or rename any of the built-in attributes and those of the same names elsewhere:
// p = {handler, open group and attributes}.
func Builtins(p []int) {
	keys := []string{"time", "level", "msg", "source"}
	what := make([]int, 4)
	for i := range what {
		what[i] = sym.Choose(keys[i], 3)
	}
	calls := map[string]int{}
	fn := func(gs []string, a slog.Attr) slog.Attr {
		calls[strings.Join(append(append([]string{}, gs...), a.Key), ".")]++
		if len(gs) > 0 {
			return a
		}
		for i, k := range keys {
			if a.Key == k {
				switch what[i] {
				case 1:
					return slog.Attr{}
				case 2:
					return slog.String("new"+k, "new")
				}
			}
		}
		return a
	}
	w := &sink{}
	var h slog.Handler = newHandler(p[0], w, &slog.HandlerOptions{AddSource: true, ReplaceAttr: fn})
	user := []slog.Attr{slog.String("time", "t"), slog.String("source", "s")}
	if p[1] == 1 {
		h = h.WithAttrs([]slog.Attr{slog.Int("w", 1)}).WithGroup("g")
	}
	r := slog.NewRecord(time.Date(2024, 2, 29, 23, 59, 58, 120, time.UTC), slog.LevelWarn, "text", pcHere())
	r.AddAttrs(user...)
	handle(h, r)
	o := line(w.all)
	sym.ObserveString("keys", strings.Join(o.Keys, ","))
	values := []string{"2024-02-29T23:59:58.00000012Z", "WARN", "text", ""}
	at := 0
	for i, k := range keys {
		if what[i] == 1 {
			continue
		}
		want := k
		if what[i] == 2 {
			want = "new" + k
		}
		sym.Assert(at < len(o.Keys) && o.Keys[at] == want, "built-in attribute")
		v := o.Kids[at]
		at++
		if what[i] == 2 {
			sym.Assert(v.Kind == jt.String && v.Text == "new", "value of ReplaceAttr")
		} else if i == 3 {
			sym.Assert(v.Kind == jt.Object && v.Get("line") != nil, "source")
		} else {
			sym.Assert(v.Kind == jt.String && v.Text == values[i], "value of a built-in attribute")
		}
	}
	prefix, n := "", 2
	if p[1] == 1 {
		sym.Assert(at+2 == len(o.Keys) && o.Keys[at] == "w" && o.Keys[at+1] == "g", "attributes of the handler")
		o = o.Get("g")
		sym.Assert(o != nil && len(o.Keys) == 2 && o.Keys[0] == "time" && o.Keys[1] == "source", "attributes in a group")
		prefix, n = "g.", 1
		sym.Assert(calls["w"] == 1 && calls["g.time"] == 1 && calls["g.source"] == 1, "calls for attributes")
		sym.Assert(len(calls) == 7, "calls for other attributes")
	} else {
		sym.Assert(len(calls) == 4, "calls for other attributes")
	}
	_ = prefix
	sym.Assert(calls["level"] == 1 && calls["msg"] == 1 && calls["time"] == n && calls["source"] == n, "calls for built-in attributes")
	sym.Reach("end")
}

var levelBases = []int{-128, 8, 100, -1100, 1<<31 - 100, 1<<62 - 100}

// LevelAny logs at any level of a window of 256: p = {handler, ReplaceAttr?, base}.
func LevelAny(p []int) {
	l := levelBases[p[2]] + int(sym.Byte("d"))
	w := &sink{}
	var o *slog.HandlerOptions
	if p[1] == 1 {
		o = &slog.HandlerOptions{ReplaceAttr: func(_ []string, a slog.Attr) slog.Attr { return a }}
	}
	handle(newHandler(p[0], w, o), rec(slog.Level(l), "m"))
	out := line(w.all)
	sym.Assert(len(out.Keys) == 2 && out.Keys[0] == "level", "members")
	n := out.Kids[0]
	sym.Assert(n.Kind == jt.String, "level is not a text")
	base, from := "DEBUG", -4
	switch {
	case l >= 8:
		base, from = "ERROR", 8
	case l >= 4:
		base, from = "WARN", 4
	case l >= 0:
		base, from = "INFO", 0
	}
	sym.Assert(strings.HasPrefix(n.Text, base), "name of the level")
	rest := n.Text[len(base):]
	if l == from {
		sym.Assert(rest == "", "offset of a level that has a name")
	} else {
		sym.Assert(rest != "" && (rest[0] == '+') == (l > from), "sign of the offset")
		if rest[0] == '+' {
			rest = rest[1:]
		}
		sym.Assert(isInt(&jt.Node{Kind: jt.Number, Text: rest}, int64(l-from)), "offset of the level")
	}
	sym.Reach("end")
}

var formats = []string{time.RFC3339Nano, time.DateOnly, time.RFC1123Z, time.Kitchen, `Monday "the" 2\1 Jan`, "15:04:05.000000", "x\ny 2006"}

// Names: flash's extras with long names, the source key and several time formats, also behind groups: p = {ReplaceAttr?}.
func Names(p []int) {
	w := &sink{}
	x := &flash.Extras{}
	pad := strings.Repeat("n", sym.Choose("pad", 3)*9)
	lk, mk, tk, sk := "level", "msg", "time", "source"
	for i, k := range []*string{&lk, &mk, &tk, &sk} {
		if sym.Bool("set") {
			*k = pad + string(sym.Letters("key", 1)) + itoa(i)
		}
	}
	if lk != "level" {
		x.LevelKey = lk
	}
	if mk != "msg" {
		x.MessageKey = mk
	}
	if tk != "time" {
		x.TimeKey = tk
	}
	if sk != "source" {
		x.SourceKey = sk
	}
	f := formats[sym.Choose("format", len(formats))]
	x.TimeFormat = f
	o := &slog.HandlerOptions{AddSource: true}
	if p[0] == 1 {
		o.ReplaceAttr = func(_ []string, a slog.Attr) slog.Attr { return a }
	}
	h := flash.NewHandler(w, o, x).WithGroup("g").WithAttrs([]slog.Attr{slog.Int("a", 1)})
	when := time.Date(2024, 2, 29, 23, 59, 58, 120, time.UTC)
	r := slog.NewRecord(when, slog.LevelInfo, "m", pcHere())
	r.AddAttrs(slog.Time("t", when))
	handle(h, r)
	out := line(w.all)
	sym.Assert(strings.Join(out.Keys, ",") == strings.Join([]string{tk, lk, mk, sk, "g"}, ","), "names of the members")
	sym.Assert(out.Kids[0].Kind == jt.String && out.Kids[0].Text == when.Format(f), "time")
	sym.Assert(out.Kids[1].Text == "INFO" && out.Kids[2].Text == "m", "level or message")
	sym.Assert(out.Kids[3].Kind == jt.Object && len(out.Kids[3].Keys) == 3, "source")
	g := out.Kids[4]
	sym.Assert(g.Kind == jt.Object && len(g.Keys) == 2 && g.Kids[0].Text == "1" && g.Kids[1].Kind == jt.String, "attributes")
	sym.Reach("end")
}

// Kinds: integers of every Go type, at the ends of the type: p = {handler, place, type}.
func Kinds(p []int) {
	d := sym.Byte("d")
	up := sym.Bool("up")
	end := func(lo, hi int64) int64 { // close to one end of the type
		x := lo + int64(d)
		if up {
			x = hi - int64(d)
		}
		return x
	}
	switch p[2] {
	case 0:
		x := int8(end(-128, 127))
		sym.Assert(isInt(put(p[0], p[1], slog.AnyValue(x)), int64(x)), "int8 differs")
	case 1:
		x := int16(end(-1<<15, 1<<15-1))
		sym.Assert(isInt(put(p[0], p[1], slog.AnyValue(x)), int64(x)), "int16 differs")
	case 2:
		x := int32(end(-1<<31, 1<<31-1))
		sym.Assert(isInt(put(p[0], p[1], slog.AnyValue(x)), int64(x)), "int32 differs")
	case 3:
		x := end(-1<<63, 1<<63-1)
		sym.Assert(isInt(put(p[0], p[1], slog.AnyValue(x)), x), "int64 differs")
	case 4:
		x := uint8(end(0, 255))
		sym.Assert(isUint(put(p[0], p[1], slog.AnyValue(x)), uint64(x)), "uint8 differs")
	case 5:
		x := uint16(end(0, 1<<16-1))
		sym.Assert(isUint(put(p[0], p[1], slog.AnyValue(x)), uint64(x)), "uint16 differs")
	case 6:
		x := uint32(end(0, 1<<32-1))
		sym.Assert(isUint(put(p[0], p[1], slog.AnyValue(x)), uint64(x)), "uint32 differs")
	case 7:
		x := uint64(end(0, -1))
		sym.Assert(isUint(put(p[0], p[1], slog.AnyValue(x)), x), "uint64 differs")
	case 8:
		x := uint(end(0, -1))
		sym.Assert(isUint(put(p[0], p[1], slog.AnyValue(x)), uint64(x)), "uint differs")
	case 9:
		x := uintptr(end(0, -1))
		sym.Assert(isUint(put(p[0], p[1], slog.AnyValue(x)), uint64(x)), "uintptr differs")
	case 10:
		x := time.Duration(end(-1<<63, 1<<63-1))
		sym.Assert(isInt(put(p[0], p[1], slog.AnyValue(x)), int64(x)), "duration differs")
	}
	sym.Reach("end")
}

// Float32: p = {handler, place}.
func Float32(p []int) {
	f := []float32{0, 1, -1.5, 0.1, 16777216, 3.4028235e38, 1e-45, 1e10}[sym.Choose("f", 8)]
	k := put(p[0], p[1], slog.AnyValue(f))
	sym.Assert(k.Kind == jt.Number, "float is not a number")
	g, ok := parseFloat(k.Text)
	sym.Assert(ok && float32(g) == f, "float differs")
	sym.Reach("end")
}

// Compound: texts inside values that are rendered as JSON: p = {handler, kind, n}.
func Compound(p []int) {
	txt := sym.String("txt", p[2])
	var v any
	var want *node
	switch p[1] {
	case 0:
		v, want = []any{txt, 1, true}, &node{kind: jt.Array, kids: []pair{{"", str(txt)}, {"", num("1")}, {"", boolean(true)}}}
	case 1:
		v, want = map[string]any{"b": map[string]any{"c": txt}, "a": 1}, obj(pair{"a", num("1")}, pair{"b", obj(pair{"c", str(txt)})})
	}
	w := &sink{}
	handle(newHandler(p[0], w, nil), rec(slog.LevelInfo, "m", slog.Any("v", v), slog.String("z", "y")))
	same(basics([]pair{{"v", want}, {"z", str("y")}}), line(w.all))
	sym.Reach("end")
}

var _ = strconv.Itoa

// Runes: any text of four bytes that starts like a sequence of several: p = {handler, site}.
func Runes(p []int) {
	txt := sym.String("txt", 4)
	sym.Assume(txt[0] >= 0xe0)
	w := &sink{}
	h := newHandler(p[0], w, nil)
	r := rec(slog.LevelInfo, "m", slog.String("k", txt+"z"))
	want := []pair{{"k", str(txt + "z")}}
	if p[1] == 1 {
		h = h.WithGroup("g" + txt)
		r = rec(slog.LevelInfo, "m", slog.Int("k", 1))
		want = []pair{{"g" + txt, obj(pair{"k", num("1")})}}
	}
	handle(h, r)
	same(basics(want), line(w.all))
	sym.Reach("end")
}

// Long: a text of many sequences of p[1] bytes, wherever they begin, is whole: p = {handler, bytes of each, bytes in all}.
func Long(p []int) {
	k := sym.Choose("offset", p[1])
	txt := "abc"[:k] + strings.Repeat([]string{"", "z", "\u00e9", "\u20ac", "\U0001f600"}[p[1]], p[2]/p[1]) + sym.String("txt", 1) + "end"
	w := &sink{}
	h := newHandler(p[0], w, nil)
	msg := "m"
	want := []pair{{"k", str(txt)}, {"z", str("y")}}
	r := rec(slog.LevelInfo, "m", slog.String("k", txt))
	switch sym.Choose("site", 4) {
	case 1:
		msg, want = txt, want[1:]
		r = rec(slog.LevelInfo, txt)
	case 2:
		h, want = h.WithGroup(txt), []pair{{txt, obj(pair{"z", str("y")})}}
		r = rec(slog.LevelInfo, "m")
	case 3:
		h = h.WithAttrs([]slog.Attr{slog.Any("k", errors.New(txt))})
		r = rec(slog.LevelInfo, "m")
	}
	r.AddAttrs(slog.String("z", "y"))
	handle(h, r)
	same(obj(append([]pair{{"level", str("INFO")}, {"msg", str(msg)}}, want...)...), line(w.all))
	sym.Reach("end")
}

// wrapper is an error with its own text around others.
type wrapper struct {
	text string
	errs []error
}

func (w wrapper) Error() string   { return w.text }
func (w wrapper) Unwrap() []error { return w.errs }

// Errors: an error is shown as its own text whatever it holds: p = {handler}.
func Errors(p []int) {
	txt := sym.String("txt", 1)
	in := errors.New("in")
	var err error
	text := txt
	switch sym.Choose("error", 6) {
	case 0:
		err = wrapper{txt, []error{in}}
	case 1:
		err = wrapper{txt, nil}
	case 2:
		err = fmt.Errorf("%s: %w", txt, in)
		text = txt + ": in"
	case 3:
		err = errors.Join(errors.New(txt), in)
		text = txt + "\nin"
	case 4:
		err = fmt.Errorf("%s %w %w", txt, in, in)
		text = txt + " in in"
	case 5:
		err = &os.PathError{Op: txt, Path: "/x", Err: in}
		text = txt + " /x: in"
	}
	w := &sink{}
	handle(newHandler(p[0], w, nil), rec(slog.LevelInfo, "m", slog.Any("k", err), slog.String("z", "y")))
	same(basics([]pair{{"k", str(text)}, {"z", str("y")}}), line(w.all))
	sym.Reach("end")
}
