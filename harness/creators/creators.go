// Package creators drives the creators of handlers and what they share.
package creators

import (
	"context"
	"io"
	"log/slog"
	"strings"
	"time"

	"github.com/sirupsen/logrus"
	"go.uber.org/zap/zapcore"

	"github.com/madkins23/go-slog/creator/madkinsflash"
	"github.com/madkins23/go-slog/creator/madkinsreplattr"
	"github.com/madkins23/go-slog/creator/madkinssloggy"
	"github.com/madkins23/go-slog/creator/phsymzerolog"
	"github.com/madkins23/go-slog/creator/phusluslog"
	"github.com/madkins23/go-slog/creator/samberlogrus"
	"github.com/madkins23/go-slog/creator/samberzap"
	"github.com/madkins23/go-slog/creator/samberzerolog"
	"github.com/madkins23/go-slog/creator/slogjson"
	"github.com/madkins23/go-slog/creator/utillogrus"
	"github.com/madkins23/go-slog/creator/utilzap"
	"github.com/madkins23/go-slog/creator/veqryndedup"
	"github.com/madkins23/go-slog/handlers/flash"
	"github.com/madkins23/go-slog/handlers/sloggy"
	"github.com/madkins23/go-slog/infra"
	"github.com/madkins23/go-slog/internal/zzverif/jt"
	"github.com/madkins23/go-slog/internal/zzverif/sym"
)

var ctx = context.Background()

type sink struct{ all []byte }

func (s *sink) Write(p []byte) (int, error) {
	s.all = append(s.all, p...)
	return len(p), nil
}

func (s *sink) take() []byte {
	b := s.all
	s.all = nil
	return b
}

type plain struct{ id int }

func (*plain) Enabled(context.Context, slog.Level) bool  { return true }
func (*plain) Handle(context.Context, slog.Record) error { return nil }
func (p *plain) WithAttrs([]slog.Attr) slog.Handler      { return p }
func (p *plain) WithGroup(string) slog.Handler           { return p }

// Made: n bytes of name, of summary and of a link; a creator with a function for handlers, for loggers or both.
func Made(p []int) {
	n := p[0]
	name := sym.String("name", n)
	var summary string
	if sym.Choose("summary", 2) == 1 {
		summary = sym.String("text", n)
	}
	var links infra.Links
	nLinks := sym.Choose("links", 4)
	if nLinks > 0 {
		links = infra.Links{}
	}
	if nLinks > 1 {
		links["a"] = sym.String("link", n)
	}
	if nLinks > 2 {
		links["b"] = "x"
	}
	// asked holds which function was asked, with what
	type call struct {
		logger bool
		w      io.Writer
		o      *slog.HandlerOptions
	}
	var asked []call
	ha, hb := &plain{1}, &plain{2}
	lg := slog.New(hb)
	var hf infra.CreateHandlerFn
	var lf infra.CreateLoggerFn
	which := sym.Choose("functions", 3)
	if which != 1 {
		hf = func(w io.Writer, o *slog.HandlerOptions) slog.Handler {
			asked = append(asked, call{false, w, o})
			return ha
		}
	}
	if which != 0 {
		lf = func(w io.Writer, o *slog.HandlerOptions) *slog.Logger {
			asked = append(asked, call{true, w, o})
			return lg
		}
	}
	c := infra.NewCreator(name, hf, lf, summary, links)
	d := infra.NewCreator("other", func(io.Writer, *slog.HandlerOptions) slog.Handler { return nil }, nil, "other", infra.Links{"c": "y"})
	sym.Assert(d.Name() == "other" && d.Summary() == "other" && d.CanMakeHandler(), "another creator is wrong")
	sym.Assert(len(asked) == 0, "a creator makes handlers before it is asked to")
	for i := 0; i < 2; i++ {
		sym.Assert(c.Name() == name, "Name is not the name given")
		sym.Assert(c.Summary() == summary && c.HasSummary() == (len(summary) > 0), "Summary is not the summary given")
		sym.Assert(c.HasLinks() == (nLinks > 1), "HasLinks is wrong")
		sym.Assert(len(c.Links()) == max(nLinks-1, 0), "Links holds another number of links")
		for k, v := range links {
			got, found := c.Links()[k]
			sym.Assert(found && got == v, "Links is not the links given")
		}
		sym.Assert(c.CanMakeHandler() == (hf != nil), "CanMakeHandler is wrong")
		w := &sink{}
		var o *slog.HandlerOptions
		if sym.Choose("options", 2) == 1 {
			o = &slog.HandlerOptions{Level: slog.Level(3)}
		}
		if sym.Choose("first", 2) == 0 {
			l := c.NewLogger(w, o)
			sym.Assert(len(asked) == 1, "NewLogger does not ask one function once")
			sym.Assert(asked[0].w == io.Writer(w) && asked[0].o == o, "NewLogger does not pass what it is given")
			sym.Assert(asked[0].logger == (lf != nil), "NewLogger asks the wrong function")
			if lf != nil {
				sym.Assert(l == lg, "NewLogger returns another logger")
			} else {
				sym.Assert(l != nil && l.Handler() == slog.Handler(ha), "NewLogger returns a logger for another handler")
			}
		} else {
			h := c.NewHandler(w, o)
			if hf == nil {
				sym.Assert(h == nil && len(asked) == 0, "NewHandler makes a handler without a function")
			} else {
				sym.Assert(len(asked) == 1 && !asked[0].logger, "NewHandler asks the wrong function")
				sym.Assert(asked[0].w == io.Writer(w) && asked[0].o == o, "NewHandler does not pass what it is given")
				sym.Assert(h == slog.Handler(ha), "NewHandler returns another handler")
			}
		}
		asked = nil
	}
	sym.Reach("end")
}

// Options: the options for tests.
func Options(p []int) {
	level := slog.Level(sym.Int64("level"))
	var lv slog.LevelVar
	lv.Set(level)
	fn := func(groups []string, a slog.Attr) slog.Attr { return slog.String("z", a.Key) }
	type made struct {
		o      *slog.HandlerOptions
		level  slog.Level
		source bool
		fn     bool
	}
	for round := 0; round < 2; round++ {
		for _, m := range []made{
			{infra.SimpleOptions(), slog.LevelInfo, false, false},
			{infra.LevelOptions(level), level, false, false},
			{infra.LevelOptions(&lv), level, false, false},
			{infra.SourceOptions(), slog.LevelInfo, true, false},
			{infra.ReplaceAttrOptions(fn), slog.LevelInfo, false, true},
		} {
			sym.Assert(m.o != nil && m.o.Level != nil && m.o.Level.Level() == m.level, "options of another level")
			sym.Assert(m.o.AddSource == m.source, "AddSource is wrong")
			sym.Assert((m.o.ReplaceAttr != nil) == m.fn, "ReplaceAttr is wrong")
			if m.fn {
				sym.Assert(m.o.ReplaceAttr(nil, slog.Int("k", 1)).Equal(slog.String("z", "k")), "ReplaceAttr is another function")
			}
			// what one asks for is its own
			m.o.Level, m.o.AddSource, m.o.ReplaceAttr = slog.LevelError, true, fn
		}
	}
	o := infra.LevelOptions(&lv)
	other := slog.Level(sym.Int64("later"))
	lv.Set(other)
	sym.Assert(o.Level.Level() == other, "LevelOptions does not keep the Leveler")
	a := infra.EmptyAttr()
	sym.Assert(a.Equal(slog.Attr{}), "EmptyAttr is not empty")
	sym.Reach("end")
}

// Levels: the conversions of levels, for every level.
func Levels(p []int) {
	l := slog.Level(sym.Int64("level"))
	zap, log := zapcore.DebugLevel, logrus.DebugLevel
	switch {
	case l >= 8:
		zap, log = zapcore.ErrorLevel, logrus.ErrorLevel
	case l >= 4:
		zap, log = zapcore.WarnLevel, logrus.WarnLevel
	case l >= 0:
		zap, log = zapcore.InfoLevel, logrus.InfoLevel
	}
	sym.Assert(utilzap.ConvertLevelToZap(l) == zap, "another level of zap")
	sym.Assert(utillogrus.ConvertSlogLevel2Logrus(l) == log, "another level of logrus")
	sym.Reach("end")
}

// derive does one of 4 things to a handler.
func derive(h slog.Handler, kind int, k, v string) slog.Handler {
	switch kind {
	case 1:
		return h.WithAttrs([]slog.Attr{slog.String(k, v)})
	case 2:
		return h.WithGroup(k)
	case 3:
		return h.WithAttrs([]slog.Attr{slog.Group(k, slog.String("x", v))})
	}
	return h
}

// Same: creator c's handler writes what the handler it is named for writes, after n derivations.
func Same(p []int) {
	which, n, texts := p[0], p[1], p[2]
	o := &slog.HandlerOptions{}
	none := false
	switch sym.Choose("level", 4) {
	case 3:
		none = true
	case 1:
		o.Level = slog.Level(sym.Range("threshold", -4, 9))
	case 2:
		var lv slog.LevelVar
		lv.Set(slog.LevelWarn)
		o.Level = &lv
	}
	if none {
		o = nil
	} else if o.AddSource = sym.Choose("source", 2) == 1; sym.Choose("replace", 2) == 1 {
		o.ReplaceAttr = func(groups []string, a slog.Attr) slog.Attr {
			if a.Key == slog.MessageKey || a.Key == "d" {
				return slog.Attr{}
			}
			return slog.Attr{Key: strings.ToUpper(a.Key), Value: a.Value}
		}
	}
	wa, wb := &sink{}, &sink{}
	var c infra.Creator
	var h slog.Handler
	switch which {
	case 0:
		c, h = madkinsflash.Creator(), flash.NewHandler(wb, o, nil)
		sym.Assert(c.Name() == "madkins/flash" && madkinsflash.Name == "madkins/flash", "another name")
	case 1:
		c, h = madkinssloggy.Creator(), sloggy.NewHandler(wb, o)
		sym.Assert(c.Name() == "madkins/sloggy", "another name")
	case 2:
		c, h = slogjson.Creator(), slog.NewJSONHandler(wb, o)
		sym.Assert(c.Name() == "slog/JSONHandler", "another name")
	case 3:
		c, h = veqryndedup.Creator(veqryndedup.None), slog.NewJSONHandler(wb, o)
		sym.Assert(c.Name() == "veqryn/dedup/None", "another name")
	}
	sym.Assert(c.CanMakeHandler() && c.HasSummary() && c.HasLinks(), "creator lacks something")
	g := c.NewHandler(wa, o)
	if sym.Choose("logger", 2) == 1 {
		g = c.NewLogger(wa, o).Handler()
	}
	for i := 0; i < n; i++ {
		k, v := sym.Letters("key", 1), sym.String("value", texts)
		kind := sym.Choose("derive", 4)
		g, h = derive(g, kind, k, v), derive(h, kind, k, v)
	}
	l := slog.Level(sym.Range("level", -8, 9))
	en := h.Enabled(ctx, l)
	sym.Assert(g.Enabled(ctx, l) == en, "enabled for other levels")
	if !en {
		sym.Reach("end")
		return
	}
	r := slog.NewRecord(time.Date(2024, 5, 6, 7, 8, 9, 10, time.UTC), slog.LevelInfo, sym.String("message", texts), 0)
	r.AddAttrs(slog.String(sym.Letters("key", 1), sym.String("value", texts)), slog.Int("n", 1), slog.Group("grp", slog.Bool("b", true)))
	ea, eb := g.Handle(ctx, r.Clone()), h.Handle(ctx, r.Clone())
	sym.Assert(ea == nil && eb == nil, "Handle returns an error")
	sym.Assert(string(wa.all) == string(wb.all), "another line than the handler writes")
	sym.Reach("end")
}

// parse reads a line.
func parse(out []byte) *jt.Node {
	n, why := jt.Parse([]byte(strings.TrimSuffix(string(out), "\n")))
	sym.Assert(why == "", "not valid JSON: "+why)
	sym.Assert(n.Kind == jt.Object, "not a JSON object")
	return n
}

func equal(a, b *jt.Node) bool {
	if a.Kind != b.Kind || a.Text != b.Text || len(a.Keys) != len(b.Keys) || len(a.Kids) != len(b.Kids) {
		return false
	}
	for i := range a.Keys {
		if a.Keys[i] != b.Keys[i] {
			return false
		}
	}
	for i := range a.Kids {
		if !equal(a.Kids[i], b.Kids[i]) {
			return false
		}
	}
	return true
}

// Repl: madkins/replattr writes the fields madkins/flash writes, whatever ReplaceAttr there is.
func Repl(p []int) {
	n, texts := p[0], p[1]
	o := &slog.HandlerOptions{AddSource: p[2] == 1}
	if sym.Choose("level", 2) == 1 {
		o.Level = slog.LevelWarn
	}
	seen := 0
	switch sym.Choose("replace", 3) {
	case 1:
		o.ReplaceAttr = func(groups []string, a slog.Attr) slog.Attr {
			seen++
			if a.Key == slog.MessageKey && len(groups) == 0 {
				a.Key = "text"
			}
			if a.Key == slog.LevelKey && len(groups) == 0 {
				a.Value = slog.StringValue(strings.ToLower(a.Value.String()))
			}
			return a
		}
	case 2:
		o.ReplaceAttr = func(groups []string, a slog.Attr) slog.Attr {
			seen++
			if len(groups) == 0 && (a.Key == slog.LevelKey || a.Key == slog.TimeKey) {
				return slog.Attr{}
			}
			return a
		}
	}
	wa, wb := &sink{}, &sink{}
	c := madkinsreplattr.Creator()
	sym.Assert(c.Name() == "madkins/replattr", "another name")
	before := *o
	var g, h slog.Handler = c.NewHandler(wa, o), flash.NewHandler(wb, o, nil)
	sym.Assert(o.Level == before.Level && o.AddSource == before.AddSource && (o.ReplaceAttr == nil) == (before.ReplaceAttr == nil), "the options are changed")
	key := func() string {
		return []string{"a", "lvl", "message", "level", "msg", "time"}[sym.Choose("key", 6)]
	}
	top := true
	for i := 0; i < n; i++ {
		kind := sym.Choose("derive", 4)
		k, v := "g", sym.Letters("value", texts)
		if kind == 1 {
			k = key()
			if top {
				sym.Assume(k == "a")
			}
		}
		g, h = derive(g, kind, k, v), derive(h, kind, k, v)
		if kind == 2 {
			top = false
		}
	}
	l := slog.Level(4*sym.Choose("level", 4) - 4)
	sym.Assert(g.Enabled(ctx, l) == h.Enabled(ctx, l), "enabled for other levels")
	if !h.Enabled(ctx, l) {
		sym.Reach("end")
		return
	}
	r := slog.NewRecord(time.Date(2024, 5, 6, 7, 8, 9, 10, time.UTC), l, sym.Letters("message", texts), 0)
	k := key()
	if top {
		sym.Assume(k == "a")
	}
	r.AddAttrs(slog.String(k, sym.Letters("value", texts)), slog.Group("grp", slog.String(key(), "v")))
	ea, eb := g.Handle(ctx, r.Clone()), h.Handle(ctx, r.Clone())
	sym.Assert(ea == nil && eb == nil, "Handle returns an error")
	sym.Assert(equal(parse(wa.all), parse(wb.all)), "other fields than madkins/flash writes")
	sym.Reach("end")
}

type pair struct {
	key  string
	text string
	kids []*pair
	list bool
}

func put(mode veqryndedup.Mode, ps []*pair, top bool, q *pair) []*pair {
	base := q.key
	for i := 1; ; i++ {
		at := -1
		for j, x := range ps {
			if x.key == q.key {
				at = j
			}
		}
		builtin := top && (q.key == "time" || q.key == "level" || q.key == "msg" || q.key == "source")
		if at < 0 && !builtin {
			return append(ps, q)
		}
		if builtin || mode == veqryndedup.Increment {
			q.key = base + "#" + string(rune('0'+i/10)) + string(rune('0'+i%10))
			continue
		}
		switch mode {
		case veqryndedup.Ignore:
		case veqryndedup.Overwrite:
			ps[at] = q
		case veqryndedup.Append:
			if !ps[at].list {
				ps[at] = &pair{key: q.key, list: true, kids: []*pair{ps[at]}}
			}
			ps[at].kids = append(ps[at].kids, q)
		}
		return ps
	}
}

// is compares what was read with what is expected, in any order.
func is(n *jt.Node, ps []*pair, skip int) bool {
	if n.Kind != jt.Object || len(n.Keys) != len(ps)+skip {
		return false
	}
	for _, q := range ps {
		x := n.Get(q.key)
		if x == nil || !value(x, q) {
			return false
		}
	}
	return true
}

func value(x *jt.Node, q *pair) bool {
	switch {
	case q.list:
		if x.Kind != jt.Array || len(x.Kids) != len(q.kids) {
			return false
		}
		for i, k := range q.kids {
			if !value(x.Kids[i], k) {
				return false
			}
		}
		return true
	case q.kids != nil:
		return is(x, q.kids, 0)
	}
	return x.Kind == jt.String && x.Text == q.text
}

// Dedup: what each mode does with keys that repeat, at the top or in a group.
func Dedup(p []int) {
	mode, n, place := veqryndedup.Mode(p[0]), p[1], p[2]
	w := &sink{}
	c := veqryndedup.Creator(mode)
	sym.Assert(c.Name() == veqryndedup.Name(mode) && c.Name() == "veqryn/dedup/"+mode.String(), "another name")
	h := c.NewHandler(w, &slog.HandlerOptions{Level: slog.Level(-4)})
	sym.Assert(h.Enabled(ctx, -4) && !h.Enabled(ctx, -5), "another level is in force")
	var ps []*pair
	var attrs []slog.Attr
	for i := 0; i < n; i++ {
		k := []string{"a", "b", "msg", "source", "A"}[sym.Choose("key", 5)]
		v := sym.Letters("value", 1)
		if sym.Choose("group", 2) == 1 {
			attrs = append(attrs, slog.Group(k, slog.String("x", v)))
			ps = put(mode, ps, place != 1, &pair{key: k, kids: []*pair{{key: "x", text: v}}})
		} else {
			attrs = append(attrs, slog.String(k, v))
			ps = put(mode, ps, place != 1, &pair{key: k, text: v})
		}
	}
	switch place {
	case 1:
		h = h.WithGroup("g")
	case 2:
		h = h.WithAttrs(attrs[:1])
		attrs = attrs[1:]
	}
	r := slog.NewRecord(time.Time{}, slog.LevelInfo, "m", 0)
	r.AddAttrs(attrs...)
	sym.Assert(h.Handle(ctx, r) == nil, "Handle returns an error")
	got := parse(w.all)
	sym.Assert(got.Get("msg") != nil && got.Get("msg").Text == "m", "no message")
	if place == 1 {
		sym.Assert(got.Get("g") != nil && is(got.Get("g"), ps, 0), "the keys of a group are not treated as the mode says")
	} else {
		sym.Assert(is(got, ps, 2), "the keys are not treated as the mode says")
	}
	sym.Reach("end")
}

var modes = []string{"None", "Append", "Ignore", "Increment", "Overwrite"}

// Modes: names of modes in any case, with a byte replaced.
func Modes(p []int) {
	i := sym.Choose("mode", 5)
	m := veqryndedup.Mode(i)
	sym.Assert(m.String() == modes[i] && m.IsAMode() && veqryndedup.ModeValues()[i] == m && veqryndedup.ModeStrings()[i] == modes[i], "another name of a mode")
	b := []byte(modes[i])
	at := sym.Choose("at", len(b))
	b[at] = sym.Byte("byte")
	sym.Assume(b[at] < 0x80)
	s := string(b)
	got, err := veqryndedup.ModeString(s)
	right := -1
	for j, name := range modes {
		if s == name || lower(s) == lower(name) {
			right = j
		}
	}
	if right >= 0 {
		sym.Assert(err == nil && got == veqryndedup.Mode(right), "a name is read as another mode")
	} else {
		sym.Assert(err != nil, "what is no name is read as a mode")
	}
	u := veqryndedup.Mode(sym.Byte("any"))
	sym.Assert(u.IsAMode() == (u < 5), "IsAMode is wrong")
	sym.Reach("end")
}

func lower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// Wrapped: the creators for other libraries make handlers of the level asked for, which write to the writer.
func Wrapped(p []int) {
	var c infra.Creator
	msg := "message"
	switch p[0] {
	case 0:
		c = samberzap.Creator()
		msg = "msg"
	case 1:
		c = samberlogrus.Creator()
		msg = "msg"
	case 2:
		c = samberzerolog.Creator()
	case 3:
		c = phsymzerolog.Creator()
	case 4:
		c = phusluslog.Creator()
		msg = "msg"
	}
	wa, wb := &sink{}, &sink{}
	var va slog.LevelVar
	la, lb := slog.Level(sym.Choose("la", 4)*4-4), slog.Level(sym.Choose("lb", 2)*8)
	oa := &slog.HandlerOptions{Level: la}
	changed := sym.Choose("variable", 2) == 1
	if changed {
		va.Set(la)
		oa.Level = &va
	}
	log := func(l *slog.Logger, level slog.Level, msg string, attrs ...slog.Attr) {
		if l.Enabled(ctx, level) {
			r := slog.NewRecord(time.Time{}, level, msg, 0)
			r.AddAttrs(attrs...)
			sym.Assert(l.Handler().Handle(ctx, r) == nil, "Handle returns an error")
		}
	}
	a, b := c.NewLogger(wa, oa), c.NewLogger(wb, &slog.HandlerOptions{Level: lb})
	if changed {
		la = slog.Level(sym.Choose("later", 4)*4 - 4)
		va.Set(la)
	}
	l := slog.Level(sym.Choose("level", 4)*4 - 4)
	if p[0] != 1 {
		// (samber/slog-logrus panics for levels without a name)
		l += slog.Level(sym.Choose("between", 4))
	}
	log(a, l, "hello", slog.String("k", "v"))
	sym.Assert(len(wb.all) == 0, "written to another writer")
	sym.Assert((len(wa.all) > 0) == (l >= la), "another level is in force")
	if l >= la {
		n := parse(wa.all)
		sym.Assert(n.Get(msg) != nil && n.Get(msg).Text == "hello", "the message is not there")
		sym.Assert(n.Get("k") != nil && n.Get("k").Text == "v", "the attribute is not there")
	}
	wa.take()
	log(b, l, "hello")
	sym.Assert(len(wa.all) == 0, "written to another writer")
	sym.Assert((len(wb.all) > 0) == (l >= lb), "another level is in force")
	sym.Reach("end")
}

// Two: handlers made by one creator have nothing to do with one another: p = {which}.
func Two(p []int) {
	which := p[0]
	var c infra.Creator
	msg, replaces := "msg", true
	switch which {
	case 0:
		c = madkinsflash.Creator()
	case 1:
		c = madkinssloggy.Creator()
	case 2:
		c = slogjson.Creator()
	case 3:
		c = madkinsreplattr.Creator()
	case 4, 5, 6, 7, 8:
		c = veqryndedup.Creator(veqryndedup.Mode(which - 4))
	case 9:
		c = samberzap.Creator()
	case 10:
		c = samberlogrus.Creator()
	case 11:
		c = samberzerolog.Creator()
		msg = "message"
	case 12:
		c = phsymzerolog.Creator()
		msg, replaces = "message", false
	case 13:
		c = phusluslog.Creator()
	}
	to := func(v string) func([]string, slog.Attr) slog.Attr {
		return func(_ []string, a slog.Attr) slog.Attr {
			if a.Key == "k" {
				return slog.String("k", v)
			}
			return a
		}
	}
	var os [2]*slog.HandlerOptions
	var want [2]string
	same := sym.Choose("same", 2) == 1
	for i := range os {
		want[i] = "v"
		if i == 1 && same {
			os[1], want[1] = os[0], want[0]
		} else if os[i] = (&slog.HandlerOptions{Level: slog.LevelInfo}); replaces && sym.Choose("replace", 2) == 1 {
			want[i] = []string{"one", "two"}[i]
			os[i].ReplaceAttr = to(want[i])
		} else if which != 3 && which < 9 && sym.Choose("none", 2) == 1 {
			os[i] = nil
		}
	}
	var ws [2]*sink
	var ls [2]*slog.Logger
	for i := range ls {
		ws[i] = &sink{}
		if ls[i] = c.NewLogger(ws[i], os[i]); sym.Choose("handler", 2) == 1 {
			ls[i] = slog.New(c.NewHandler(ws[i], os[i]))
		}
	}
	for n := 0; n < 2; n++ {
		i := sym.Choose("logs", 2)
		text := []string{"hello", "there"}[n]
		h := ls[i].Handler()
		if sym.Choose("with", 2) == 1 {
			h = h.WithAttrs([]slog.Attr{slog.String("x", "y")})
		}
		r := slog.NewRecord(time.Time{}, slog.LevelInfo, text, 0)
		r.AddAttrs(slog.String("k", "v"))
		sym.Assert(h.Handle(ctx, r) == nil, "Handle returns an error")
		sym.Assert(len(ws[1-i].all) == 0, "written to another writer")
		sym.Assert(len(ws[i].all) > 0, "nothing is written")
		t := parse(ws[i].take())
		sym.Assert(t.Get(msg) != nil && t.Get(msg).Text == text, "the message is not there")
		sym.Assert(t.Get("k") != nil && t.Get("k").Text == want[i], "another ReplaceAttr is used")
	}
	sym.Reach("end")
}
