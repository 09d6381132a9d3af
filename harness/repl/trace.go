package repl

import (
	"context"
	"log/slog"
	"strconv"
	"time"

	"github.com/madkins23/go-slog/handlers/trace"
	"github.com/madkins23/go-slog/internal/zzverif/sym"
)

var levels = []struct {
	l slog.Level
	s string
}{{slog.LevelDebug, "DEBUG"}, {slog.LevelInfo, "INFO"}, {slog.LevelWarn, "WARN"}, {slog.LevelError, "ERROR"}, {1, "INFO+1"}, {-7, "DEBUG-3"}}

func attr(n int) (slog.Attr, string) {
	k, v := sym.String("key", n), sym.String("value", n)
	switch sym.Choose("attr", kinds) {
	case 3:
		return slog.Any(k, nil), k + "=<nil>"
	case 4:
		return slog.Attr{}, "=<nil>"
	case 5:
		return slog.String("", v), "=" + v
	case 6:
		return slog.Group("", slog.Int(k, 1), slog.Group("g", slog.String(k, v))), "=[" + k + "=1 g=[" + k + "=" + v + "]]"
	case 7:
		return slog.Duration(k, 1500*time.Millisecond), k + "=1.5s"
	case 8:
		return slog.Any(k, []string{v, v}), k + "=[" + v + " " + v + "]"
	case 9:
		return slog.Float64(k, 0.5), k + "=0.5"
	case 0:
		return slog.String(k, v), k + "=" + v
	case 1:
		i := sym.Choose("int", 3)*11 - 11
		return slog.Int(k, i), k + "=" + []string{"-11", "0", "11"}[(i+11)/11]
	case 2:
		return slog.Group(k, slog.String("a", v), slog.Bool("b", true)), k + "=[a=" + v + " b=true]"
	}
	return slog.Uint64(k, 1<<63), k + "=9223372036854775808"
}

// kinds is how many kinds of attribute are tried.
var kinds = 4

// Trace calls the methods of trace handlers: p = {derivations, length of texts, attributes of the record, use slog.Logger, kinds of attribute}.
func Trace(p []int) {
	kinds = p[4]
	indent := sym.String("indent", p[1])
	var h slog.Handler = trace.NewHandler(indent)
	ctx := context.Background()
	out := ""
	before := h
	sym.Stdout()
	for i := 0; i < p[0]; i++ {
		before = h
		if sym.Choose("step", 2) == 0 {
			name := sym.String("name", p[1])
			h = h.WithGroup(name)
			out += indent + "WithGroup(" + name + ")\n"
		} else {
			var as []slog.Attr
			s := ""
			switch n := sym.Choose("number", 4); n {
			case 0: // none
			case 1:
				as = []slog.Attr{}
			default:
				var a slog.Attr
				a, s = attr(p[1])
				as = []slog.Attr{a}
				if n == 3 {
					as = append(as, slog.Int("z", 1))
					s += " z=1"
				}
			}
			h = h.WithAttrs(as)
			out += indent + "WithAttrs([" + s + "])\n"
		}
		indent += "  "
	}
	lv := levels[sym.Choose("level", len(levels))]
	msg := sym.String("msg", p[1])
	var as []slog.Attr
	tail := ""
	for i := 0; i < p[2]; i++ {
		a, s := attr(p[1])
		as = append(as, a)
		if i == 0 {
			tail += " {" + s
		} else {
			tail += ", " + s
		}
	}
	if p[2] > 0 {
		tail += "}"
	}
	if p[3] == 1 {
		for _, a := range as {
			// slog.Logger is given what it must not drop
			sym.Assume(len(a.Key) > 0)
		}
		slog.New(h).LogAttrs(ctx, lv.l, msg, as...)
	} else {
		sym.Assert(h.Enabled(ctx, lv.l), "a trace handler is not enabled")
		r := slog.NewRecord(time.Time{}, lv.l, msg, 0)
		r.AddAttrs(as...)
		sym.Assert(h.Handle(ctx, r) == nil, "Handle fails")
	}
	out += indent + "Enabled(" + lv.s + ")\n" + indent + "Handle(" + lv.s + ` "` + msg + `"` + tail + ")\n"
	if p[0] > 0 {
		// the handler it was derived from is as it was
		before.Enabled(ctx, slog.LevelInfo)
		out += indent[:len(indent)-2] + "Enabled(INFO)\n"
	}
	got := sym.Stdout()
	sym.ObserveString("out", got)
	sym.Assert(got == out, "the calls are not traced")
	sym.Reach("end")
}

// Deep calls handlers at the end of a long chain and on the way to it, again after others: p = {derivations}.
func Deep(p []int) {
	ctx := context.Background()
	indent := []string{"", "> ", "\t", "100% "}[sym.Choose("indent", 4)]
	var h slog.Handler = trace.NewHandler(indent)
	hs := []slog.Handler{h}
	out := ""
	sym.Stdout()
	for i := 0; i < p[0]; i++ {
		if i%2 == 0 {
			h = h.WithGroup("a-group-with-a-long-name")
			out += indent + "WithGroup(a-group-with-a-long-name)\n"
		} else {
			as, s := []slog.Attr{}, ""
			for j := 0; j < i; j++ {
				as = append(as, slog.Int("key", j))
				if j > 0 {
					s += " "
				}
				s += "key=" + strconv.Itoa(j)
			}
			h = h.WithAttrs(as)
			out += indent + "WithAttrs([" + s + "])\n"
		}
		hs = append(hs, h)
		indent += "  "
	}
	full := len(indent)
	for j := 0; j < 2; j++ {
		i := sym.Choose("handler", len(hs))
		in := indent[:full-2*(p[0]-i)]
		if j == 1 {
			// a sibling is derived in between
			hs[i].WithGroup("s").Enabled(ctx, slog.LevelInfo)
			out += in + "WithGroup(s)\n" + in + "  Enabled(INFO)\n"
		}
		m := sym.String("msg", 1)
		r := slog.NewRecord(time.Time{}, slog.LevelWarn, "a message that is rather long "+m, 0)
		tail := ""
		for k := 0; k < 12; k++ {
			r.AddAttrs(slog.Int("n", k))
			tail += []string{" {", ", "}[min(k, 1)] + "n=" + strconv.Itoa(k)
		}
		sym.Assert(hs[i].Handle(ctx, r) == nil, "Handle fails")
		out += in + `Handle(WARN "a message that is rather long ` + m + `"` + tail + "})\n"
	}
	got := sym.Stdout()
	sym.ObserveString("out", got)
	sym.Assert(got == out, "what is printed")
	sym.Reach("end")
}
