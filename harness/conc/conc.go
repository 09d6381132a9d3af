// Package conc uses handlers from several goroutines at once.
package conc

import (
	"bytes"
	"context"
	"errors"
	"io"
	"log/slog"
	"runtime"
	"time"

	"github.com/madkins23/go-slog/handlers/flash"
	"github.com/madkins23/go-slog/handlers/sloggy"
	"github.com/madkins23/go-slog/internal/zzverif/sym"
)

var ctx = context.Background()

// sink keeps what is written, call by call. Nothing in it synchronises: the handler has to.
type sink struct {
	lines []string
	fail  int // the call that fails, 0: none
}

var errSink = errors.New("sink")

func (s *sink) Write(p []byte) (int, error) {
	first := string(p)
	s.lines = append(s.lines, first)
	n := len(s.lines)
	sym.Yield()
	// what is being written stays as it is until Write returns
	sym.Assert(string(p) == first, "what a handler gave to the writer changed while it was being written")
	sym.Assert(len(s.lines) == n, "two writes at the same time")
	if n == s.fail {
		return 0, errSink
	}
	return len(p), nil
}

// quiet is the sink of the handlers used alone.
type quiet struct{ bytes.Buffer }

func newHandler(which int, w io.Writer, o *slog.HandlerOptions, x *flash.Extras) slog.Handler {
	if which == 0 {
		return flash.NewHandler(w, o, x)
	}
	return sloggy.NewHandler(w, o)
}

// at yields whenever it is asked for its value.
type at struct{ v slog.Value }

func (a at) LogValue() slog.Value {
	sym.Yield()
	return a.v
}

type texter struct{ s string }

func (t texter) MarshalText() ([]byte, error) { return []byte(t.s), nil }

type stringer struct{ s string }

func (t stringer) String() string { return t.s }

type broken struct{}

func (broken) MarshalJSON() ([]byte, error) { return nil, errors.New("broken") }

var instant = time.Date(2024, 5, 6, 7, 8, 9, 123456789, time.UTC)

// levels are the levels of the kinds of record, some of which have no name of their own.
var levels = []slog.Level{slog.LevelInfo, slog.LevelInfo + 1, slog.LevelWarn, slog.LevelInfo, slog.LevelError + 3, slog.LevelInfo + 1}

// record makes a record of a kind holding a text.
func record(kind int, txt string, pc uintptr) slog.Record {
	r := slog.NewRecord(instant, levels[kind], "m"+txt, pc)
	switch kind {
	case 0: // one attribute
		r.AddAttrs(slog.String("k", txt))
	case 1: // more attributes than a record keeps inline
		r.AddAttrs(slog.String("a", txt), slog.Int("b", 1), slog.Bool("c", true), slog.Duration("d", 2),
			slog.Uint64("e", 3), slog.String("f", txt), slog.Any("g", texter{txt}), slog.Any("h", stringer{txt}))
	case 2: // groups
		r.AddAttrs(slog.Group("g", slog.String("a", txt), slog.Group("h", slog.String("b", txt))), slog.String("z", txt))
	case 3: // values that take a while to resolve
		r.AddAttrs(slog.Any("a", at{slog.StringValue(txt)}), slog.Any("b", at{slog.GroupValue(slog.Any("c", at{slog.StringValue(txt)}))}))
	case 4: // values of other types
		r.AddAttrs(slog.Any("a", []string{txt, "x"}), slog.Any("b", errors.New(txt)), slog.Time("c", instant), slog.Any("d", broken{}))
	case 5: // text longer than the buffers start with
		pad := make([]byte, 1030)
		for i := range pad {
			pad[i] = 'p'
		}
		r.AddAttrs(slog.String("a", txt), slog.String("p", string(pad)), slog.String("z", txt))
	}
	return r
}

// derive makes the handler of goroutine i out of the common one.
func derive(h slog.Handler, how, i int, txt string) slog.Handler {
	switch how {
	case 0:
		return h
	case 1:
		return h.WithAttrs([]slog.Attr{slog.String("w", txt)})
	case 2:
		return h.WithGroup("g" + txt)
	case 3:
		return h.WithGroup("g").WithAttrs([]slog.Attr{slog.String("w", txt)})
	case 4: // only the second is derived
		if i == 1 {
			return h.WithGroup("g").WithAttrs([]slog.Attr{slog.String("w", txt)}).WithGroup("h")
		}
		return h
	}
	return h.WithAttrs([]slog.Attr{slog.String("w", txt), slog.Group("x", slog.String("y", txt))}).WithGroup("g" + txt)
}

func options(k int) (*slog.HandlerOptions, *flash.Extras) {
	switch k {
	case 1, 4, 5:
		return &slog.HandlerOptions{ReplaceAttr: func(gs []string, a slog.Attr) slog.Attr {
			sym.Yield()
			if len(gs) > 0 {
				a.Key = gs[len(gs)-1] + a.Key
			}
			return a
		}}, nil
	case 2:
		return &slog.HandlerOptions{AddSource: true}, &flash.Extras{}
	case 3:
		return &slog.HandlerOptions{Level: slog.LevelDebug}, &flash.Extras{TimeFormat: time.RFC3339, LevelKey: "l", MessageKey: "mm", TimeKey: "t",
			LevelNames: map[slog.Level]string{slog.LevelInfo: "info"}}
	}
	return nil, nil
}

// common is the handler all are derived from.
func common(k int, h slog.Handler) slog.Handler {
	h = h.WithAttrs([]slog.Attr{slog.Int("common", 1)})
	for i := 0; k >= 4 && i < []int{3, 5}[k-4]; i++ {
		// as many groups as leave room behind them in a slice
		h = h.WithGroup(string(rune('p' + i)))
	}
	return h
}

func pc() uintptr {
	var pcs [1]uintptr
	runtime.Callers(2, pcs[:])
	return pcs[0]
}

// Logging has goroutines log through handlers derived from one:
// p = {handler, goroutines, kind of record, how derived, when derived, options, preemptions}.
// When derived: 0 before, 1 by the goroutines themselves.
func Logging(p []int) {
	n := p[1]
	txt := make([]string, n)
	for i := range txt {
		txt[i] = sym.Letters("txt"+string(rune('0'+i)), 1)
	}
	o, x := options(p[5])
	src := uintptr(0)
	if p[5] == 2 {
		src = pc()
	}
	// what each writes when it is alone
	want := make([]string, n)
	for i := range want {
		alone := &quiet{}
		o2, x2 := options(p[5])
		h := common(p[5], newHandler(p[0], alone, o2, x2))
		sym.Assert(derive(h, p[3], i, txt[i]).Handle(ctx, record(p[2], txt[i], src)) == nil, "Handle returned an error")
		want[i] = alone.String()
	}
	w := &sink{}
	base := common(p[5], newHandler(p[0], w, o, x))
	hs := make([]slog.Handler, n)
	rs := make([]slog.Record, n)
	errs := make([]error, n)
	fs := make([]func(), n)
	for i := range fs {
		rs[i] = record(p[2], txt[i], src)
		if p[4] == 0 {
			hs[i] = derive(base, p[3], i, txt[i])
		}
		fs[i] = func() {
			h := hs[i]
			if p[4] == 1 {
				h = derive(base, p[3], i, txt[i])
			}
			if h.Enabled(ctx, slog.LevelInfo) {
				errs[i] = h.Handle(ctx, rs[i])
			}
		}
	}
	sym.Together(p[6], fs...)
	for i := range errs {
		sym.Assert(errs[i] == nil, "Handle returned an error")
	}
	complete(w.lines, want)
	sym.Reach("end")
}

// complete asserts that the lines are those wanted, in any order.
func complete(lines, want []string) {
	sym.Assert(len(lines) == len(want), "not one Write for each record")
	used := make([]bool, len(lines))
	for _, x := range want {
		found := false
		for i, l := range lines {
			if !used[i] && len(l) == len(x) && l == x {
				used[i], found = true, true
				break
			}
		}
		sym.Assert(found, "a record was not written as it is when nothing else happens")
	}
}

// Same has two goroutines handle the same record through two handlers or one:
// p = {handler, kind, how derived, preemptions}.
func Same(p []int) {
	txt := sym.Letters("txt", 1)
	alone := &quiet{}
	h := newHandler(p[0], alone, nil, nil)
	sym.Assert(derive(h, p[2], 0, "d").Handle(ctx, record(p[1], txt, 0)) == nil, "Handle returned an error")
	one := alone.String()
	alone.Reset()
	sym.Assert(derive(h, p[2], 1, "d").Handle(ctx, record(p[1], txt, 0)) == nil, "Handle returned an error")
	two := alone.String()
	w := &sink{}
	base := newHandler(p[0], w, nil, nil)
	r := record(p[1], txt, 0)
	a, b := derive(base, p[2], 0, "d"), derive(base, p[2], 1, "d")
	sym.Together(p[3], func() { a.Handle(ctx, r) }, func() { b.Handle(ctx, r.Clone()) })
	complete(w.lines, []string{one, two})
	sym.Reach("end")
}

// Attrs has two goroutines derive handlers from one with the same attributes and log:
// p = {handler, preemptions}.
func Attrs(p []int) {
	txt := sym.Letters("txt", 1)
	attrs := []slog.Attr{slog.String("a", txt), slog.Group("g", slog.String("b", txt)), slog.Any("c", at{slog.StringValue(txt)})}
	alone := &quiet{}
	h := newHandler(p[0], alone, nil, nil).WithGroup("x").WithAttrs(attrs)
	h.Handle(ctx, record(0, txt, 0))
	line := alone.String()
	w := &sink{}
	base := newHandler(p[0], w, nil, nil).WithGroup("x")
	f := func() { base.WithAttrs(attrs).Handle(ctx, record(0, txt, 0)) }
	sym.Together(p[1], f, f)
	complete(w.lines, []string{line, line})
	sym.Reach("end")
}

// Level changes the level while another goroutine logs: p = {handler, preemptions}.
func Level(p []int) {
	txt := sym.Letters("txt", 1)
	var lv slog.LevelVar
	w := &sink{}
	l := slog.New(newHandler(p[0], w, &slog.HandlerOptions{Level: &lv}, nil))
	sym.Together(p[1], func() { l.Info(txt) }, func() { lv.Set(slog.LevelError) }, func() { l.Error(txt) })
	sym.Assert(len(w.lines) == 1 || len(w.lines) == 2, "not one Write for each record")
	sym.Reach("end")
}

// Failing has the writer fail for one of the records: p = {handler, call, preemptions}.
func Failing(p []int) {
	txt := sym.Letters("txt", 1)
	w := &sink{fail: p[1]}
	h := newHandler(p[0], w, nil, nil)
	var errs [2]error
	alone := &quiet{}
	newHandler(p[0], alone, nil, nil).Handle(ctx, record(2, txt, 0))
	line := alone.String()
	sym.Together(p[2], func() { errs[0] = h.Handle(ctx, record(2, txt, 0)) }, func() { errs[1] = h.Handle(ctx, record(2, txt, 0)) })
	n := 0
	for _, e := range errs {
		if e != nil {
			sym.Assert(errors.Is(e, errSink), "the error is not the writer's")
			n++
		}
	}
	sym.Assert(n == 1, "not exactly the failing write is reported")
	complete(w.lines, []string{line, line})
	sym.Assert(h.Handle(ctx, record(2, txt, 0)) == nil, "Handle fails after a failed write")
	complete(w.lines, []string{line, line, line})
	sym.Reach("end")
}

// chatty logs through a handler when it is asked for its value.
type chatty struct {
	h   slog.Handler
	txt string
}

func (c chatty) LogValue() slog.Value {
	c.h.Handle(ctx, record(0, "in"+c.txt, 0))
	return slog.StringValue(c.txt)
}

// Nested has a value or ReplaceAttr log through the same handler, alone or beside another
// goroutine: p = {handler, where (0 value, 1 ReplaceAttr, 2 value in WithAttrs), goroutines, preemptions}.
func Nested(p []int) {
	txt := sym.Letters("txt", 1)
	w := &sink{}
	var o *slog.HandlerOptions
	var h slog.Handler
	if p[1] == 1 {
		o = &slog.HandlerOptions{ReplaceAttr: func(gs []string, a slog.Attr) slog.Attr {
			if a.Key == "chat" {
				h.Handle(ctx, record(0, "in"+txt, 0))
				a.Key = "c"
			}
			return a
		}}
	}
	h = newHandler(p[0], w, o, nil)
	alone := &quiet{}
	a := newHandler(p[0], alone, nil, nil)
	a.Handle(ctx, record(0, "in"+txt, 0))
	inner := alone.String()
	alone.Reset()
	fs := make([]func(), p[2])
	var want []string
	for i := range fs {
		want = append(want, inner)
		switch p[1] {
		case 0, 1:
			r := record(2, "t", 0)
			r.AddAttrs(slog.String("c", txt))
			a.Handle(ctx, r)
			fs[i] = func() {
				r := record(2, "t", 0)
				if p[1] == 0 {
					r.AddAttrs(slog.Any("c", chatty{h, txt}))
				} else {
					r.AddAttrs(slog.String("chat", txt))
				}
				h.Handle(ctx, r)
			}
		case 2:
			a.WithAttrs([]slog.Attr{slog.String("c", txt)}).Handle(ctx, record(2, "t", 0))
			fs[i] = func() {
				h.WithAttrs([]slog.Attr{slog.Any("c", chatty{h, txt})}).Handle(ctx, record(2, "t", 0))
			}
		}
		want = append(want, alone.String())
		alone.Reset()
	}
	sym.Together(p[3], fs...)
	complete(w.lines, want)
	sym.Reach("end")
}

// Creating makes handlers at the same time with the same options: p = {handler, options, preemptions}.
func Creating(p []int) {
	txt := sym.Letters("txt", 1)
	o, x := &slog.HandlerOptions{}, &flash.Extras{}
	if p[1] == 1 {
		x.LevelNames = map[slog.Level]string{slog.LevelInfo: "info"}
	}
	w := [2]*sink{{}, {}}
	alone := &quiet{}
	o2, x2 := &slog.HandlerOptions{}, &flash.Extras{}
	if p[1] == 1 {
		x2.LevelNames = map[slog.Level]string{slog.LevelInfo: "info"}
	}
	newHandler(p[0], alone, o2, x2).Handle(ctx, record(0, txt, 0))
	f := func(i int) func() {
		return func() { newHandler(p[0], w[i], o, x).Handle(ctx, record(0, txt, 0)) }
	}
	sym.Together(p[2], f(0), f(1))
	complete(w[0].lines, []string{alone.String()})
	complete(w[1].lines, []string{alone.String()})
	sym.Reach("end")
}

// Apart has goroutines use handlers that have nothing to do with each other:
// p = {handler, options of one, of the other, kind of record, preemptions}.
func Apart(p []int) {
	txt := sym.Letters("txt", 1)
	var want [2]string
	var w [2]*sink
	fs := make([]func(), 2)
	for i := range w {
		alone := &quiet{}
		o, x := options(p[1+i])
		newHandler(p[0], alone, o, x).Handle(ctx, record(p[3], txt, 0))
		want[i] = alone.String()
		w[i] = &sink{}
		o, x = options(p[1+i])
		fs[i] = func() { newHandler(p[0], w[i], o, x).Handle(ctx, record(p[3], txt, 0)) }
	}
	sym.Together(p[4], fs...)
	for i := range w {
		complete(w[i].lines, []string{want[i]})
	}
	sym.Reach("end")
}
