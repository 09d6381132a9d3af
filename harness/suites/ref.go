package suites

import (
	"context"
	"encoding/json"
	"io"
	"log/slog"
	"strconv"
	"time"
)

// What a handler under test may do wrong.
const (
	right = iota
	levelLower
	messageKey
	groupEmpty
	withGroupEmpty
	groupInline
	noEmptyName
	noNilValue
	emptyAttrs
	noResolve
	noRepl
	noReplBasic
	zeroTime
	zeroPC
	canceled
	defaultLevel
	levelMath
	levelVar
	durSeconds
	durMillis
	durString
	groupDur
	timeMillis
	timeSeconds
	groupWithTop
	sourceMissing
	sourceCaller
	stringAny
	withMutates
	withGroupMutates
	escape
	enabledAlways
	doubles
	groupsArg
	withGroupLost
	durStringTop
	durStringGroup
	nQuirks
)

// op is what was done to derive a handler: a group is opened, or attributes are added.
type op struct {
	group string
	attrs []slog.Attr
}

// handler writes what documentation of log/slog asks for, as log/slog.JSONHandler does, without
// fields that are there twice, but for one quirk.
type handler struct {
	w     io.Writer
	o     slog.HandlerOptions
	min   slog.Level
	ops   []op
	quirk int
	off   slog.Level // how far the level is from what it should be
	group bool
	alter func(line *[]*field) // changes a line before it is written
	blank func() string        // white space between what is in a line
}

func newHandler(w io.Writer, o *slog.HandlerOptions, quirk int, alter func(*[]*field)) *handler {
	h := &handler{w: w, quirk: quirk, alter: alter}
	if o != nil {
		h.o = *o
	}
	h.min = h.level()
	return h
}

func (h *handler) level() slog.Level {
	if h.o.Level == nil {
		if h.quirk == defaultLevel {
			return slog.LevelDebug
		}
		return slog.LevelInfo + h.off
	}
	return h.o.Level.Level() + h.off
}

func (h *handler) Enabled(_ context.Context, l slog.Level) bool {
	min := h.level()
	switch h.quirk {
	case levelVar:
		min = h.min
	case enabledAlways:
		return true
	case levelMath: // only the levels with a name exist
		switch l {
		case slog.LevelDebug, slog.LevelInfo, slog.LevelWarn, slog.LevelError:
		default:
			return false
		}
	}
	return l >= min
}

func (h *handler) derive(o op) *handler {
	n := *h
	n.ops = append(append([]op(nil), h.ops...), o)
	return &n
}

func (h *handler) WithAttrs(attrs []slog.Attr) slog.Handler {
	if len(attrs) == 0 {
		return h
	}
	n := h.derive(op{attrs: attrs})
	if h.quirk == withMutates {
		h.ops = n.ops
	}
	return n
}

func (h *handler) WithGroup(name string) slog.Handler {
	if name == "" && h.quirk != groupInline {
		return h
	}
	n := h.derive(op{group: name, attrs: nil})
	n.ops[len(n.ops)-1].group = name
	n.group = true
	if h.quirk == withGroupMutates {
		h.ops = n.ops
	}
	if h.quirk == withGroupLost && len(h.ops) > 0 {
		return h
	}
	return n
}

// line is a record being put together.
type line struct {
	h      *handler
	groups []string
	bad    bool // what is being logged should have been replaced
}

func (h *handler) Handle(ctx context.Context, r slog.Record) error {
	if h.quirk == canceled && ctx.Err() != nil {
		return nil
	}
	l := &line{h: h}
	var top []*field
	if !r.Time.IsZero() || h.quirk == zeroTime {
		l.builtin(&top, slog.Time(slog.TimeKey, r.Time))
		if r.Time.IsZero() {
			top[0].bad = true
		}
	}
	l.builtin(&top, slog.Any(slog.LevelKey, r.Level))
	if h.o.AddSource && (r.PC != 0 || h.quirk == zeroPC) && h.quirk != sourceMissing {
		if h.quirk == sourceCaller {
			top = append(top, spoiled(val("caller", `"x.go:1"`)))
		} else {
			l.builtin(&top, slog.Any(slog.SourceKey, &slog.Source{Function: "f", File: "/x.go", Line: 1}))
			if r.PC == 0 {
				spoiled(top[len(top)-1])
			}
		}
	}
	l.builtin(&top, slog.String(slog.MessageKey, r.Message))
	var attrs []slog.Attr
	r.Attrs(func(a slog.Attr) bool { attrs = append(attrs, a); return true })
	l.fill(&top, &top, h.ops, attrs)
	if h.quirk != doubles {
		top = once(top)
	}
	if h.alter != nil {
		h.alter(&top)
	}
	b := make([]byte, 0, 64)
	b = show(b, top, h.blank)
	b = append(b, '\n')
	_, err := h.w.Write(b)
	return err
}

// once keeps the last of the fields with a name.
func once(fs []*field) []*field {
	var res []*field
	for i, f := range fs {
		last := true
		for _, g := range fs[i+1:] {
			last = last && g.name != f.name
		}
		if last {
			res = append(res, f)
		}
	}
	return res
}

func show(b []byte, fs []*field, blank func() string) []byte {
	gap := func() {
		if blank != nil {
			b = append(b, blank()...)
		}
	}
	b = append(b, '{')
	for i, f := range fs {
		if i > 0 {
			b = append(b, ',')
		}
		gap()
		b = append(b, '"')
		b = append(b, f.name...)
		b = append(b, '"')
		gap()
		b = append(b, ':')
		gap()
		if f.group {
			b = show(b, f.sub, blank)
		} else {
			b = append(b, f.text...)
		}
		gap()
	}
	return append(b, '}')
}

func (l *line) builtin(fs *[]*field, a slog.Attr) {
	l.bad = false
	if rep := l.h.o.ReplaceAttr; rep != nil {
		b := rep(nil, a)
		if l.h.quirk == noRepl || l.h.quirk == noReplBasic {
			l.bad = !a.Equal(b)
		} else if a = b; a.Equal(slog.Attr{}) {
			if l.h.quirk != emptyAttrs {
				return
			}
			l.bad = true
		}
	}
	name := a.Key
	if name == slog.MessageKey && l.h.quirk == messageKey {
		name = "message"
	}
	if s, ok := a.Value.Any().(*slog.Source); ok {
		*fs = append(*fs, grp(name, val("function", quoted(s.Function, l.h)), val("file", quoted(s.File, l.h)), val("line", strconv.Itoa(s.Line))))
		return
	}
	if lv, ok := a.Value.Any().(slog.Level); ok {
		text := lv.String()
		if l.h.quirk == levelLower {
			b := []byte(text)
			for i := range b {
				if b[i] >= 'A' && b[i] <= 'Z' {
					b[i] += 'a' - 'A'
				}
			}
			text = string(b)
		}
		f := val(name, `"`+text+`"`)
		f.bad = l.h.quirk == levelLower || l.bad
		*fs = append(*fs, f)
		return
	}
	if a.Value.Kind() == slog.KindTime {
		f := val(name, `"`+a.Value.Time().Format(time.RFC3339Nano)+`"`)
		f.bad = l.bad
		*fs = append(*fs, f)
		return
	}
	f := l.value(name, a.Value)
	f.bad = f.bad || l.bad
	if name == "message" && l.h.quirk == messageKey {
		f.bad = true
	}
	*fs = append(*fs, f)
}

func (l *line) fill(top, fs *[]*field, ops []op, attrs []slog.Attr) {
	if len(ops) == 0 {
		for _, a := range attrs {
			l.attr(fs, a)
		}
		return
	}
	o := ops[0]
	if o.attrs != nil {
		dst := fs
		n := 0
		if l.h.quirk == groupWithTop && len(l.groups) > 0 {
			dst = top
			n = len(*dst)
		}
		for _, a := range o.attrs {
			l.attr(dst, a)
		}
		if dst != fs {
			for _, f := range (*dst)[n:] {
				f.bad = true
			}
		}
		l.fill(top, fs, ops[1:], attrs)
		return
	}
	l.groups = append(l.groups[:len(l.groups):len(l.groups)], o.group)
	g := grp(o.group)
	l.fill(top, &g.sub, ops[1:], attrs)
	if g.bad = len(g.sub) == 0 || o.group == ""; len(g.sub) > 0 || l.h.quirk == withGroupEmpty {
		*fs = append(*fs, g)
	}
}

func (l *line) attr(fs *[]*field, a slog.Attr) {
	raw := a.Value.Kind() == slog.KindLogValuer && l.h.quirk == noResolve
	if !raw {
		a.Value = a.Value.Resolve()
	}
	bad := false
	if rep := l.h.o.ReplaceAttr; rep != nil && a.Value.Kind() != slog.KindGroup {
		gs := l.groups
		if l.h.quirk == groupsArg {
			gs = nil
			bad = true
		}
		if b := rep(gs, a); l.h.quirk == noRepl {
			bad = !a.Equal(b)
		} else {
			a = b
			a.Value = a.Value.Resolve()
		}
	}
	if a.Equal(slog.Attr{}) {
		if l.h.quirk != emptyAttrs {
			return
		}
		bad = true
	}
	if a.Key == "" && l.h.quirk == noEmptyName && a.Value.Kind() != slog.KindGroup {
		return
	}
	if raw {
		*fs = append(*fs, spoiled(val(a.Key, "{}")))
		return
	}
	if a.Value.Kind() == slog.KindGroup {
		in := a.Value.Group()
		if len(in) == 0 && l.h.quirk != groupEmpty {
			return
		}
		if a.Key == "" && l.h.quirk != groupInline {
			for _, x := range in {
				l.attr(fs, x)
			}
			return
		}
		gs := l.groups
		l.groups = append(gs[:len(gs):len(gs)], a.Key)
		g := grp(a.Key)
		for _, x := range in {
			l.attr(&g.sub, x)
		}
		l.groups = gs
		g.bad = len(g.sub) == 0 || a.Key == ""
		*fs = append(*fs, g)
		return
	}
	if a.Value.Kind() == slog.KindAny && a.Value.Any() == nil && l.h.quirk == noNilValue {
		return
	}
	f := l.value(a.Key, a.Value)
	f.bad = f.bad || bad
	*fs = append(*fs, f)
}

// spoiled marks what a fault writes.
func spoiled(f *field) *field {
	f.bad = true
	return f
}

func (l *line) value(name string, v slog.Value) *field {
	switch v.Kind() {
	case slog.KindString:
		return val(name, quoted(v.String(), l.h))
	case slog.KindBool:
		return val(name, strconv.FormatBool(v.Bool()))
	case slog.KindInt64:
		return val(name, strconv.FormatInt(v.Int64(), 10))
	case slog.KindUint64:
		return val(name, strconv.FormatUint(v.Uint64(), 10))
	case slog.KindFloat64:
		return val(name, strconv.FormatFloat(v.Float64(), 'g', -1, 64))
	case slog.KindDuration:
		d := v.Duration()
		switch l.h.quirk {
		case durSeconds:
			return spoiled(val(name, strconv.FormatFloat(d.Seconds(), 'g', -1, 64)))
		case durMillis:
			return spoiled(val(name, strconv.FormatInt(d.Milliseconds(), 10)))
		case durStringTop:
			if len(l.groups) == 0 {
				return spoiled(val(name, `"`+d.String()+`"`))
			}
		case durStringGroup:
			if len(l.groups) > 0 {
				return spoiled(val(name, `"`+d.String()+`"`))
			}
		case durString:
			return spoiled(val(name, `"`+d.String()+`"`))
		case groupDur:
			if len(l.groups) > 0 {
				return spoiled(val(name, strconv.FormatInt(d.Milliseconds(), 10)))
			}
		}
		return val(name, strconv.FormatInt(int64(d), 10))
	case slog.KindTime:
		f := time.RFC3339Nano
		switch l.h.quirk {
		case timeMillis:
			f = "2006-01-02T15:04:05.999Z07:00"
		case timeSeconds:
			f = time.RFC3339
		}
		t := val(name, `"`+v.Time().Format(f)+`"`)
		t.bad = f != time.RFC3339Nano
		return t
	}
	if err, ok := v.Any().(error); ok {
		return val(name, quoted(err.Error(), l.h))
	}
	b, err := json.Marshal(v.Any())
	if err != nil {
		return val(name, quoted("!ERROR:"+err.Error(), l.h))
	}
	if l.h.quirk == stringAny {
		return spoiled(val(name, quoted(string(b), l.h)))
	}
	return val(name, string(b))
}

func quoted(s string, h *handler) string {
	b := []byte{'"'}
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '"' || c == '\\':
			b = append(b, '\\', c)
		case c == '\n' && h.quirk == escape:
			b = append(b, ' ')
		case c < 0x20:
			const hex = "0123456789abcdef"
			b = append(b, '\\', 'u', '0', '0', hex[c>>4], hex[c&15])
		default:
			b = append(b, c)
		}
	}
	return string(append(b, '"'))
}
