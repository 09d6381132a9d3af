package logs

import (
	"context"
	"errors"
	"io"
	"log/slog"
	"runtime"
	"strconv"
	"time"

	"github.com/madkins23/go-slog/handlers/flash"
	"github.com/madkins23/go-slog/internal/zzverif/jt"
	"github.com/madkins23/go-slog/internal/zzverif/sym"
)

// levelText is the name of a level, written out independently of slog.
func levelText(l int) string {
	base, from := "DEBUG", -4
	switch {
	case l >= 8:
		base, from = "ERROR", 8
	case l >= 4:
		base, from = "WARN", 4
	case l >= 0:
		base, from = "INFO", 0
	}
	d := l - from
	if d == 0 {
		return base
	}
	if d > 0 {
		return base + "+" + itoa(d)
	}
	return base + "-" + itoa(-d)
}

func itoa(n int) string {
	s := ""
	for {
		s = string(rune('0'+n%10)) + s
		n /= 10
		if n == 0 {
			return s
		}
	}
}

// LevelName logs at any level of a range: p = {handler, ReplaceAttr?}.
func LevelName(p []int) {
	l := sym.Choose("level", 40) - 20
	w := &sink{}
	var o *slog.HandlerOptions
	if p[1] == 1 {
		o = &slog.HandlerOptions{ReplaceAttr: func(_ []string, a slog.Attr) slog.Attr { return a }}
	}
	handle(newHandler(p[0], w, o), rec(slog.Level(l), "m"))
	sym.ObserveString("out", string(w.all))
	same(obj(pair{"level", str(levelText(l))}, pair{"msg", str("m")}), line(w.all))
	sym.Reach("end")
}

// Threshold compares Enabled with the level configured, for any two levels, on a handler
// and on what derives from it, before and after the configured level changes:
// p = {handler, kind of configuration}.
func Threshold(p []int) {
	min := slog.Level(sym.Int("min"))
	l := slog.Level(sym.Int("level"))
	w := &sink{}
	var lv slog.LevelVar
	var o *slog.HandlerOptions
	switch p[1] {
	case 0:
		o = &slog.HandlerOptions{Level: min}
	case 1:
		lv.Set(min)
		o = &slog.HandlerOptions{Level: &lv}
	case 2:
		o = &slog.HandlerOptions{}
		min = slog.LevelInfo
	case 3:
		min = slog.LevelInfo
	}
	h := newHandler(p[0], w, o)
	want := l >= min
	if p[1] == 1 {
		l2 := slog.Level(sym.Int("min2"))
		h = h.WithGroup("g")
		sym.Assert(h.Enabled(ctx, l) == want, "Enabled disagrees with the level in force")
		lv.Set(l2)
		want = l >= l2
	}
	for _, d := range []slog.Handler{h, h.WithGroup("x"), h.WithAttrs([]slog.Attr{slog.Int("a", 1)}),
		h.WithGroup("x").WithAttrs([]slog.Attr{slog.Int("a", 1)}), h.WithAttrs([]slog.Attr{slog.Int("a", 1)}).WithGroup("x")} {
		sym.Assert(d.Enabled(ctx, l) == want, "Enabled disagrees with the configured level")
	}
	sym.Assert(w.calls == 0, "something was written")
	sym.Reach("end")
}

// Logger logs through a slog.Logger: exactly the records at or above the level are written:
// p = {handler}.
func Logger(p []int) {
	w := &sink{}
	min := slog.Level(sym.Choose("min", 14) - 5)
	log := slog.New(newHandler(p[0], w, &slog.HandlerOptions{Level: min}))
	if sym.Bool("derive") {
		log = log.With("a", 1).WithGroup("g")
	}
	l := slog.Level(sym.Choose("level", 14) - 5)
	log.Log(ctx, l, "m", "k", "v")
	if l >= min {
		sym.Assert(w.calls == 1, "a record at or above the level is not written once")
		o := line(w.all)
		lev := o.Get("level")
		sym.Assert(lev != nil && lev.Text == levelText(int(l)), "level of the record")
		sym.Assert(o.Get("time") != nil, "time of the record")
	} else {
		sym.Assert(w.calls == 0, "a record below the level is written")
	}
	sym.Reach("end")
}

// Extras: any subset of flash's extra names is honoured, the rest has slog's names:
// p = {ReplaceAttr?}.
func Extras(p []int) {
	w := &sink{}
	x := &flash.Extras{}
	lk, mk, tk, name := "level", "msg", "time", "INFO"
	if sym.Bool("levelKey") {
		lk = sym.Letters("lk", 2)
		x.LevelKey = lk
	}
	if sym.Bool("messageKey") {
		mk = sym.Letters("mk", 2)
		x.MessageKey = mk
	}
	if sym.Bool("timeKey") {
		tk = sym.Letters("tk", 2)
		x.TimeKey = tk
	}
	level := slog.Level(sym.Choose("level", 11) - 5)
	name = levelText(int(level))
	named := slog.Level(sym.Choose("named", 4)*4 - 4)
	if sym.Bool("names") {
		given := sym.Letters("name", 3)
		x.LevelNames = map[slog.Level]string{named: given}
		if named == level {
			name = given
		}
	}
	format := time.RFC3339Nano
	if sym.Bool("format") {
		format = time.DateOnly
		x.TimeFormat = format
	}
	o := &slog.HandlerOptions{}
	if p[0] == 1 {
		o.ReplaceAttr = func(_ []string, a slog.Attr) slog.Attr { return a }
	}
	h := flash.NewHandler(w, o, x)
	zone, offset := time.UTC, "Z"
	if p[0] == 1 && sym.Bool("zone") {
		zone, offset = time.FixedZone("", -3600*11), "-11:00"
	}
	r := slog.NewRecord(time.Date(2024, 2, 29, 23, 59, 58, 120, zone), level, "m", 0)
	r.AddAttrs(slog.Int("a", 1))
	handle(h, r)
	out := w.take()
	sym.ObserveString("out", string(out))
	when := "2024-02-29T23:59:58.00000012" + offset
	if format == time.DateOnly {
		when = "2024-02-29"
	}
	same(obj(pair{tk, str(when)}, pair{lk, str(name)}, pair{mk, str("m")}, pair{"a", num("1")}), line(out))
	sym.Reach("end")
}

// Times: the instant is read back from the record: p = {handler, place, base}.
func Times(p []int) {
	secs := []int64{0, 1709251198, 951782400, -62135596799 + 86400, 253402300700 - 86400, 1e9, -1}
	ns := []int64{0, 1, 999999999, 120000000, 1000, 500000}
	zones := []*time.Location{time.UTC, time.FixedZone("", 3600*5+1800), time.FixedZone("", -3600*11)}
	t := time.Unix(secs[sym.Choose("sec", len(secs))], ns[sym.Choose("ns", len(ns))]).In(zones[sym.Choose("zone", len(zones))])
	var text string
	if p[1] == 9 {
		w := &sink{}
		handle(newHandler(p[0], w, nil), slog.NewRecord(t, slog.LevelInfo, "m", 0))
		o := line(w.all)
		n := o.Get("time")
		if n == nil {
			sym.Fail("time is not there")
		}
		sym.Assert(o.Keys[0] == "time" && n.Kind == jt.String, "time is not the first member")
		text = n.Text
	} else {
		n := put(p[0], p[1], slog.TimeValue(t))
		sym.Assert(n.Kind == jt.String, "time is not a string")
		text = n.Text
	}
	back, err := time.Parse(time.RFC3339Nano, text)
	sym.Assert(err == nil && back.Equal(t), "time differs")
	_, was := t.Zone()
	_, is := back.Zone()
	sym.Assert(was == is, "time is shown for another zone")
	sym.Reach("end")
}

// NearTimes: times close to each other, or the same in another zone, one after another:
// p = {handler, place}. At place 9 they are those of records, at 8 they are attributes of one record.
func NearTimes(p []int) {
	first := time.Date(2024, 5, 6, 7, 8, 9, 123456789, time.UTC)
	near := []time.Duration{0, 1, -789, 999, 1000, 211 * time.Microsecond, time.Millisecond, 876 * time.Millisecond, time.Second, time.Minute, 24 * time.Hour, 7 * 24 * time.Hour}
	at := []time.Time{first, first.Add(near[sym.Choose("near", len(near))]), first}
	if sym.Choose("zone", 2) == 1 {
		at[1] = at[1].In(time.FixedZone("", 3600))
	}
	if sym.Choose("between", 2) == 1 {
		at[2] = at[1].Add(near[sym.Choose("next", len(near))])
	}
	w := &sink{}
	h := newHandler(p[0], w, nil)
	texts := make([]string, len(at))
	if p[1] == 8 {
		r := slog.NewRecord(at[0], slog.LevelInfo, "m", 0)
		r.AddAttrs(slog.Time("u", at[1]), slog.Any("v", at[2]))
		handle(h, r)
		o := line(w.all)
		for i, k := range []string{"time", "u", "v"} {
			n := o.Get(k)
			sym.Assert(n != nil && n.Kind == jt.String, "time is not there")
			texts[i] = n.Text
		}
	} else {
		for i, t := range at {
			before := len(w.all)
			handle(h, slog.NewRecord(t, slog.LevelInfo, "m", 0))
			n := line(w.all[before:]).Get("time")
			sym.Assert(n != nil && n.Kind == jt.String, "time is not there")
			texts[i] = n.Text
		}
	}
	for i, t := range at {
		back, err := time.Parse(time.RFC3339Nano, texts[i])
		sym.Assert(err == nil && back.Equal(t), "time differs from that of another")
		_, is := back.Zone()
		_, was := t.Zone()
		sym.Assert(is == was, "zone differs from that of another")
	}
	sym.Reach("end")
}

// Source: the source is there exactly when it is asked for and known: p = {handler, ReplaceAttr?}.
func Source(p []int) {
	w := &sink{}
	add := sym.Bool("add")
	known := sym.Bool("known")
	o := &slog.HandlerOptions{AddSource: add}
	if p[1] == 1 {
		o.ReplaceAttr = func(_ []string, a slog.Attr) slog.Attr { return a }
	}
	var pc uintptr
	if known {
		pc = pcHere()
	}
	r := slog.NewRecord(time.Time{}, []slog.Level{slog.LevelInfo, -8, slog.LevelDebug, slog.LevelWarn, 100}[sym.Choose("level", 5)], "m", pc)
	r.AddAttrs(slog.Int("a", 1))
	handle(newHandler(p[0], w, o).WithAttrs([]slog.Attr{slog.Int("b", 2)}), r)
	got := line(w.all)
	n := 4
	src := got.Get("source")
	if add && known {
		n = 5
		sym.Assert(src != nil && src.Kind == jt.Object && len(src.Keys) == 3, "source is not there")
		f, fl, ln := src.Get("function"), src.Get("file"), src.Get("line")
		sym.Assert(f != nil && fl != nil && ln != nil && f.Kind == jt.String && fl.Kind == jt.String && ln.Kind == jt.Number, "parts of the source")
		fr, _ := runtime.CallersFrames([]uintptr{pc}).Next()
		sym.Assert(f.Text == fr.Function && fl.Text == fr.File && ln.Text == strconv.Itoa(fr.Line), "source")
	} else {
		sym.Assert(src == nil, "source is there")
	}
	sym.Assert(len(got.Keys) == n, "number of members")
	a, b := got.Get("a"), got.Get("b")
	sym.Assert(a != nil && b != nil && a.Text == "1" && b.Text == "2", "attributes")
	sym.Reach("end")
}

// ---- faults ----

var errSink = errors.New("sink is full")

// failing fails on the calls chosen, writing only part of what it is given.
type failing struct {
	sink
	fail  [4]bool
	panic bool
	n     int
}

func (f *failing) Write(p []byte) (int, error) {
	i := f.n
	f.n++
	if i < len(f.fail) && f.fail[i] {
		if f.panic {
			panic("sink panic")
		}
		return sym.Range("written", 0, len(p)), errSink
	}
	return f.sink.Write(p)
}

// Writer: any of three writes may fail: Handle reports exactly those, and every other
// record is whole: p = {handler, derive, panic?}.
func Writer(p []int) {
	w := &failing{panic: p[2] == 1}
	for i := 0; i < 3; i++ {
		w.fail[i] = sym.Bool("fail")
	}
	h := newHandler(p[0], w, nil)
	var ops []op
	switch p[1] {
	case 1:
		ops = []op{{attrs: []m{{key: "a", text: "b"}}}}
	case 2:
		ops = []op{{group: "g"}, {attrs: []m{{key: "a", text: "b"}}}, {group: "e"}}
	}
	for _, o := range ops {
		h = o.apply(h)
	}
	for i := 0; i < 4; i++ {
		t := sym.Letters("t", 1)
		last := []m{{key: "k", text: t}}
		if i == 2 {
			last = nil // the innermost group is empty
		}
		var err error
		panicked := false
		func() {
			defer func() {
				if recover() != nil {
					panicked = true
				}
			}()
			err = h.Handle(ctx, rec(slog.LevelInfo, "m", attrs(last)...))
		}()
		out := w.take()
		if w.fail[i] && w.panic {
			sym.Assert(panicked, "the panic of the writer is lost")
			continue
		}
		sym.Assert(!panicked, "Handle panics")
		if w.fail[i] {
			sym.Assert(err != nil, "a failed write is not reported")
			sym.Assert(errors.Is(err, errSink), "the cause of the failed write is lost")
			continue
		}
		sym.Assert(err == nil, "Handle reports an error for a record that was written")
		sym.ObserveString("out", string(out))
		same(basics(build(ops, last, nil, nil)), line(out))
	}
	sym.Reach("end")
}

type badJSON struct{}

func (badJSON) MarshalJSON() ([]byte, error) { return nil, errors.New("bad json") }

type panicky struct{}

func (panicky) LogValue() slog.Value { panic("no value") }

// Values: a value that cannot be rendered leaves a whole record with everything else in it:
// p = {handler, place}.
func Values(p []int) {
	var v any
	switch sym.Choose("bad", 16) {
	case 11:
		v = badInt(3)
	case 12:
		v = badMap(nil)
	case 13:
		v = badList{}
	case 14:
		v = badFunc(nil)
	case 15:
		v = []any{badInt(3), map[string]any{"a": badMap(nil)}}
	case 5:
		v = (*pointed)(nil)
	case 6:
		v = &pointed{bad: true}
	case 7:
		v = badError{}
	case 8:
		v = badText{}
	case 9:
		v = badJSON2{}
	case 10:
		v = []any{badJSON2{}}
	case 0:
		v = badJSON{}
	case 1:
		v = failer{"bad text"}
	case 2:
		v = make(chan int)
	case 3:
		v = func() {}
	case 4:
		v = panicky{}
	}
	t := sym.Letters("t", 1)
	list := []slog.Attr{slog.String("before", t), slog.Any("bad", v), slog.String("after", t)}
	w := &sink{}
	h := newHandler(p[0], w, nil)
	r := rec(slog.LevelInfo, "m")
	switch p[1] {
	case 0:
		r.AddAttrs(list...)
	case 1:
		h = h.WithAttrs(list)
		r.AddAttrs(slog.Int("z", 1))
	case 2:
		h = h.WithGroup("g").WithAttrs(list)
		r.AddAttrs(slog.Int("z", 1))
	case 3:
		r.AddAttrs(slog.Attr{Key: "g", Value: slog.GroupValue(list...)})
	}
	handle(h, r)
	o := line(w.all)
	if p[1] >= 2 {
		sym.Assert(len(o.Keys) == 3, "number of members")
		o = o.Get("g")
		sym.Assert(o != nil, "group is lost")
	}
	b, bad, a := o.Get("before"), o.Get("bad"), o.Get("after")
	sym.Assert(b != nil && b.Text == t, "attribute before a bad value is lost")
	sym.Assert(bad != nil && bad.Kind == jt.String, "a bad value is not reported in the record")
	sym.Assert(a != nil && a.Text == t, "attribute after a bad value is lost")
	// the next record is not affected
	w.take()
	handle(newHandler(p[0], w, nil), rec(slog.LevelInfo, "m", slog.String("k", t)))
	same(basics([]pair{{"k", str(t)}}), line(w.all))
	sym.Reach("end")
}

type pointed struct{ bad bool }

func (p *pointed) String() string {
	if p.bad {
		panic("no string")
	}
	return "s"
}

type badError struct{}

func (badError) Error() string { var m map[string]string; m["a"] = "b"; return "e" }

type badText struct{}

func (badText) MarshalText() ([]byte, error) { panic(errors.New("no text")) }

type badInt int

func (badInt) String() string { panic("no string") }

func (badInt) MarshalJSON() ([]byte, error) { panic("no json") }

type badMap map[string]int

func (m badMap) Error() string { m["a"] = 1; return "e" }

type badList []int

func (l badList) MarshalText() ([]byte, error) { return []byte{byte(l[0])}, nil }

type badFunc func() string

func (f badFunc) String() string { return f() }

type badJSON2 struct{}

func (badJSON2) MarshalJSON() ([]byte, error) { panic(7) }

type cancelled struct{ context.Context }

// Context: what is in the context, cancelled or not, does not change the record: p = {handler}.
func Context(p []int) {
	key := sym.Choose("key", 3)
	c := context.Background()
	switch key {
	case 1:
		c = context.WithValue(c, "deadGroup", "k")
	case 2:
		c2, cancel := context.WithCancel(c)
		cancel()
		c = c2
	}
	w := &sink{}
	h := newHandler(p[0], w, nil)
	ops := []op{{group: "g"}}
	if sym.Bool("two") {
		ops = append(ops, op{group: "h"})
	}
	for _, o := range ops {
		h = o.apply(h)
	}
	last := []m{shape(sym.Choose("shape", shapes), "", letter("t"))}
	if err := h.Handle(c, rec(slog.LevelInfo, "m", attrs(last)...)); err != nil {
		sym.Fail("Handle failed")
	}
	same(basics(build(ops, last, nil, nil)), line(w.all))
	sym.Reach("end")
}

var _ io.Writer = &sink{}
