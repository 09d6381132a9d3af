// Package logs drives the flash and sloggy handlers.
package logs

import (
	"context"
	"errors"
	"io"
	"log/slog"
	"time"

	"github.com/madkins23/go-slog/handlers/flash"
	"github.com/madkins23/go-slog/handlers/sloggy"
	"github.com/madkins23/go-slog/internal/zzverif/jt"
	"github.com/madkins23/go-slog/internal/zzverif/sym"
)

var ctx = context.Background()

// sink keeps what is written, call by call.
type sink struct {
	all   []byte
	lens  []int // of each call
	calls int
}

func (s *sink) Write(p []byte) (int, error) {
	s.all = append(s.all, p...)
	s.lens = append(s.lens, len(p))
	s.calls++
	return len(p), nil
}

func (s *sink) take() []byte {
	b := s.all
	s.all, s.lens, s.calls = nil, nil, 0
	return b
}

// Which handler: 0 flash, 1 sloggy.
func newHandler(which int, w io.Writer, o *slog.HandlerOptions) slog.Handler {
	if which == 0 {
		return flash.NewHandler(w, o, nil)
	}
	return sloggy.NewHandler(w, o)
}

// line checks that out is exactly one terminated line holding one JSON object.
func line(out []byte) *jt.Node {
	n := len(out)
	sym.Assert(n > 0 && out[n-1] == '\n', "record does not end in a newline")
	out = out[:n-1]
	if n > 1 && out[n-2] == '\r' {
		out = out[:n-2]
	}
	for _, b := range out {
		sym.Assert(b != '\n' && b != '\r', "record holds a raw newline")
	}
	node, why := jt.Parse(out)
	sym.Assert(why == "", "record is not valid JSON: "+why)
	sym.Assert(node.Kind == jt.Object, "record is not a JSON object")
	return node
}

func rec(level slog.Level, msg string, attrs ...slog.Attr) slog.Record {
	r := slog.NewRecord(time.Time{}, level, msg, 0)
	r.AddAttrs(attrs...)
	return r
}

func handle(h slog.Handler, r slog.Record) {
	err := h.Handle(ctx, r)
	sym.Assert(err == nil, "Handle returned an error")
}

type stringer struct{ s string }

func (s stringer) String() string { return s.s }

type jsoner struct{ s string }

func (s jsoner) MarshalJSON() ([]byte, error) { return []byte(s.s), nil }

type texter struct{ s string }

func (s texter) MarshalText() ([]byte, error) { return []byte(s.s), nil }

type valuer struct{ v slog.Value }

func (v valuer) LogValue() slog.Value { return v.v }

// Text puts any n bytes where a record may hold text and reads the record back:
// p = {handler, site, n}, with n 0 for texts that mean something elsewhere, among any bytes.
func Text(p []int) {
	txt := sym.String("txt", p[2])
	if p[2] == 0 {
		txt = looks[sym.Choose("looks", len(looks))]
		switch sym.Choose("where", 3) {
		case 1:
			txt += sym.String("after", 1)
		case 2:
			txt = sym.String("before", 1) + txt
		}
	}
	w := &sink{}
	h := newHandler(p[0], w, nil)
	r := rec(slog.LevelInfo, "m")
	var want []pair // below msg
	switch p[1] {
	case 0: // message
		r = rec(slog.LevelInfo, txt)
	case 1: // attribute key
		sym.Assume(txt != "")
		r.AddAttrs(slog.String(txt, "v"))
		want = []pair{{txt, str("v")}}
	case 2: // attribute value
		r.AddAttrs(slog.String("k", txt))
		want = []pair{{"k", str(txt)}}
	case 3: // group name and member key
		sym.Assume(txt != "")
		r.AddAttrs(slog.Group(txt, slog.Int(txt, 1)))
		want = []pair{{txt, obj(pair{txt, num("1")})}}
	case 4: // WithGroup name
		sym.Assume(txt != "")
		h = h.WithGroup(txt)
		r.AddAttrs(slog.Int("k", 1))
		want = []pair{{txt, obj(pair{"k", num("1")})}}
	case 5: // WithAttrs key and value
		sym.Assume(txt != "")
		h = h.WithAttrs([]slog.Attr{slog.String(txt, txt)})
		want = []pair{{txt, str(txt)}}
	case 6: // error
		r.AddAttrs(slog.Any("k", errors.New(txt)))
		want = []pair{{"k", str(txt)}}
	case 7: // Stringer
		r.AddAttrs(slog.Any("k", stringer{txt}))
		want = []pair{{"k", str(txt)}}
	case 8: // text marshaler
		r.AddAttrs(slog.Any("k", texter{txt}))
		want = []pair{{"k", str(txt)}}
	case 9: // LogValuer
		r.AddAttrs(slog.Any("k", valuer{slog.StringValue(txt)}))
		want = []pair{{"k", str(txt)}}
	case 10: // list of strings
		r.AddAttrs(slog.Any("k", []string{txt, "x"}))
		want = []pair{{"k", &node{kind: jt.Array, kids: []pair{{"", str(txt)}, {"", str("x")}}}}}
	case 11: // the text of a failed marshal
		r.AddAttrs(slog.Any("k", failer{txt}), slog.Int("n", 1))
	case 12: // nested WithGroup names
		sym.Assume(txt != "")
		h = h.WithGroup(txt).WithAttrs([]slog.Attr{slog.Int("a", 1)}).WithGroup(txt)
		r.AddAttrs(slog.Int("k", 1))
		want = []pair{{txt, obj(pair{"a", num("1")}, pair{txt, obj(pair{"k", num("1")})})}}
	case 13: // a value followed by others
		r.AddAttrs(slog.String("k", txt), slog.String(txt, "z"), slog.Bool("l", true))
		sym.Assume(txt != "")
		want = []pair{{"k", str(txt)}, {txt, str("z")}, {"l", boolean(true)}}
	}
	handle(h, r)
	sym.ObserveString("out", string(w.all))
	sym.Assert(w.calls == 1, "a record takes more than one Write")
	got := line(w.all)
	if p[1] == 0 {
		same(obj(pair{"level", str("INFO")}, pair{"msg", str(txt)}), got)
	} else if p[1] == 11 {
		k, n := got.Get("k"), got.Get("n")
		sym.Assert(k != nil && k.Kind == jt.String && n != nil && n.Text == "1", "record lost data after a failed marshal")
	} else {
		same(obj(append([]pair{{"level", str("INFO")}, {"msg", str("m")}}, want...)...), got)
	}
	sym.Reach("end")
}

// looks are texts that look like an escape, a value or an end of something.
var looks = []string{
	`\u003c\n\"`, "<&>'", "%s%!d(MISSING)%", `","x":"y"}`, `{"a":1}`, "[1,2]", "null", "1.50", "\ufeff", "\ufffd\ufffe", "\u2028", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\xaf", "e\u0301", "\x1b[0m", "!BADKEY", "{", `\`, "\r\n",
}

type failer struct{ s string }

func (f failer) MarshalText() ([]byte, error) { return nil, errors.New(f.s) }

// ---- expected trees ----

type pair struct {
	key string
	val *node
}

type node struct {
	kind int
	text string
	kids []pair
}

func str(s string) *node     { return &node{kind: jt.String, text: s} }
func num(s string) *node     { return &node{kind: jt.Number, text: s} }
func obj(kids ...pair) *node { return &node{kind: jt.Object, kids: kids} }
func boolean(b bool) *node {
	if b {
		return &node{kind: jt.Bool, text: "true"}
	}
	return &node{kind: jt.Bool, text: "false"}
}

// same asserts that the record holds what is expected, in order.
func same(want *node, got *jt.Node) {
	sym.Assert(want.kind == got.Kind, "kind of a value differs")
	switch want.kind {
	case jt.String:
		sym.Assert(got.Text == jt.Valid(want.text), "text of a value differs")
	case jt.Object:
		sym.Assert(len(want.kids) == len(got.Kids), "number of members differs")
		for i, k := range want.kids {
			sym.Assert(got.Keys[i] == jt.Valid(k.key), "key of a member differs")
			same(k.val, got.Kids[i])
		}
	case jt.Array:
		sym.Assert(len(want.kids) == len(got.Kids), "number of elements differs")
		for i, k := range want.kids {
			same(k.val, got.Kids[i])
		}
	default:
		sym.Assert(got.Text == want.text, "value differs")
	}
}
