// Package ginw drives the parser and the writer for Gin output.
package ginw

import (
	"context"
	"log/slog"

	"github.com/madkins23/go-slog/gin"
	"github.com/madkins23/go-slog/internal/zzverif/sym"
)

func attrOf(args []any, key string) (slog.Value, int) {
	var v slog.Value
	n := 0
	for _, a := range args {
		if at, ok := a.(slog.Attr); ok && at.Key == key {
			v = at.Value
			n++
		}
	}
	return v, n
}

// five asserts that the result is the five fields, each once.
func five(args []any) {
	sym.Assert(len(args) == 5, "a line that parses does not give five fields")
	for _, f := range []gin.Field{gin.Code, gin.Client, gin.Elapsed, gin.Method, gin.Url} {
		_, n := attrOf(args, string(f))
		sym.Assert(n == 1, "a field is not there exactly once")
	}
}

func text(args []any, f gin.Field, want, msg string) {
	v, n := attrOf(args, string(f))
	sym.Assert(n == 1 && v.Kind() == slog.KindString && v.String() == want, msg)
}

// noBar assumes a text that may stand in a field: no bar, no blank at either end, not empty.
func field(name string, n int) string {
	s := sym.String(name, n)
	for i := 0; i < n; i++ {
		sym.Assume(s[i] != '|')
	}
	if n > 0 {
		sym.Assume(s[0] != ' ' && s[n-1] != ' ')
	}
	return s
}

func spaces(n int) string { return "                "[:n] }

// ParseLine parses a line in Gin's own layout with any field: p = {which field is arbitrary, its length, padding}.
func ParseLine(p []int) {
	code, elapsed, client, method, url := "200", "1.5ms", "::1", "GET", "/a?b=c"
	want := int64(200)
	switch p[0] {
	case 0:
		c := sym.String("code", p[1])
		want = 0
		for i := 0; i < p[1]; i++ {
			sym.Assume(c[i] >= '0' && c[i] <= '9')
			want = want*10 + int64(c[i]-'0')
		}
		code = c
	case 1:
		elapsed = field("elapsed", p[1])
	case 2:
		client = field("client", p[1])
	case 3:
		method = field("method", p[1])
		for i := 0; i < p[1]; i++ {
			sym.Assume(method[i] > ' ')
		}
	case 4:
		url = sym.String("url", p[1])
		sym.Assume(p[1] == 0 || url[p[1]-1] != ' ')
		for i := 0; i < p[1]; i++ {
			sym.Assume(url[i] != '"' && (url[i] > ' ' || url[i] == ' ' && i > 0))
		}
	}
	line := spaces(p[2]) + code + " | " + spaces(p[2]) + elapsed + " | " + spaces(p[2]*3) + client + " | " + method + " " + spaces(p[2]) + `"` + url + `"` + spaces(p[2]/2)
	args, err := gin.Parse(line)
	sym.Assert(err == nil, "a line in Gin's layout does not parse")
	five(args)
	v, _ := attrOf(args, string(gin.Code))
	sym.Assert(v.Kind() == slog.KindInt64 && v.Int64() == want, "code differs")
	text(args, gin.Elapsed, elapsed, "elapsed differs")
	text(args, gin.Client, client, "client differs")
	text(args, gin.Method, method, "method differs")
	text(args, gin.Url, url, "URL differs")
	sym.Reach("end")
}

// ParseLong parses a line whose code has as many digits as fit into 64 bits, or more:
// it is read exactly or not at all. p = {number of digits before the arbitrary ones, number of those}.
func ParseLong(p []int) {
	c := sym.String("code", p[1])
	for i := 0; i < p[1]; i++ {
		sym.Assume(c[i] >= '0' && c[i] <= '9')
	}
	const head = "9223372036854775807"
	code := head[:p[0]] + c
	args, err := gin.Parse(code + " | 1ms | ::1 | GET /a")
	fits := len(code) < 19 || len(code) == 19 && code <= head
	sym.Assert((err == nil) == fits, "a code is accepted that does not fit into a number, or a number is rejected")
	if err == nil {
		five(args)
		v, _ := attrOf(args, string(gin.Code))
		var want int64
		for i := 0; i < len(code); i++ {
			want = want*10 + int64(code[i]-'0')
		}
		sym.Assert(v.Kind() == slog.KindInt64 && v.Int64() == want, "code differs")
	} else {
		sym.Assert(args == nil, "fields along with an error")
	}
	sym.Reach("end")
}

// ParseAny parses any text between concrete parts: it gives five fields or an error, never a panic:
// p = {where, length}.
func ParseAny(p []int) {
	s := sym.String("s", p[1])
	line := s
	switch p[0] {
	case 1:
		line = "2" + s + "| e | c | G u"
	case 2:
		line = "2|" + s + "|G u"
	case 3:
		line = "2|e|c|" + s
	case 4:
		line = "2|e|c|G " + s
	case 5:
		line = s + "2|e|c|G u"
	}
	args, err := gin.Parse(line)
	bars := 0
	for i := 0; i < len(line); i++ {
		if line[i] == '|' {
			bars++
		}
	}
	if err == nil {
		sym.Assert(bars >= 3, "a line of too few parts parses")
		five(args)
	} else {
		sym.Assert(args == nil, "fields along with an error")
	}
	sym.Reach("end")
}

// capture keeps the records of the default logger.
type capture struct{ recs *[]slog.Record }

func (c capture) Enabled(context.Context, slog.Level) bool { return true }
func (c capture) Handle(_ context.Context, r slog.Record) error {
	*c.recs = append(*c.recs, r)
	return nil
}
func (c capture) WithAttrs([]slog.Attr) slog.Handler { return c }
func (c capture) WithGroup(string) slog.Handler      { return c }

func listen() *[]slog.Record {
	var recs []slog.Record
	slog.SetDefault(slog.New(capture{&recs}))
	return &recs
}

// drop removes debug records with attributes: the writer makes one when a line is not traffic.
func drop(recs []slog.Record) []slog.Record {
	var out []slog.Record
	for _, r := range recs {
		if r.Level == slog.LevelDebug && r.NumAttrs() > 0 {
			continue
		}
		out = append(out, r)
	}
	return out
}

var tokens = []struct {
	text  string
	level slog.Level
	sets  bool
}{
	{"[GIN]", 0, false}, {"[GIN-debug]", slog.LevelDebug, true}, {"[DEBUG]", slog.LevelDebug, true},
	{"[ERROR]", slog.LevelError, true}, {"[INFO]", slog.LevelInfo, true}, {"[WARNING]", slog.LevelWarn, true},
}

// base chooses how the level is configured; later is called when the writer has been made.
func base(name string, kind int) (l slog.Leveler, want slog.Level, later func()) {
	later = func() {}
	switch kind {
	case 0:
		return nil, slog.LevelInfo, later
	case 1:
		l := slog.Level(sym.Int(name))
		return l, l, later
	}
	var v slog.LevelVar
	v.Set(slog.Level(sym.Int(name + " before")))
	want = slog.Level(sym.Choose(name, 4)*4 - 4)
	return &v, want, func() { v.Set(want) }
}

const blanks = " \t"

// Prefixes writes a line with up to p[0] prefixes: exactly one record, of the level the last of
// them sets, with the text after them: p = {prefixes, length of the text, kind of level, traffic}.
func Prefixes(p []int) {
	recs := listen()
	lev, want, later := base("level", p[2])
	w := gin.NewWriter(&gin.Options{Level: lev, Traffic: gin.Traffic{Parse: p[3] == 1}})
	later()
	line := ""
	for i := 0; i < p[0]; i++ {
		t := tokens[sym.Choose("token", len(tokens))]
		if t.sets {
			want = t.level
		}
		line += []string{"", " ", "\t "}[sym.Choose("blank", 3)] + t.text
	}
	if p[0] > 0 {
		line += []string{"", " "}[sym.Choose("sep", 2)]
	}
	t := sym.String("text", p[1])
	if p[1] > 0 {
		c := t[0]
		sym.Assume(c != '[' && c != ' ' && c != '\t' && c != '\n' && c != '\v' && c != '\f' && c != '\r')
		sym.Assume(t[len(t)-1] != '\n')
	}
	if p[3] == 1 {
		// not traffic
		for i := 0; i < len(t); i++ {
			sym.Assume(t[i] != '|')
		}
	}
	line += t + []string{"", "\n", "\n\n"}[sym.Choose("end", 3)]
	n, err := w.Write([]byte(line))
	sym.Assert(err == nil && n == len(line), "Write does not report the line as written")
	got := drop(*recs)
	sym.Assert(len(got) == 1, "not exactly one record")
	sym.Assert(got[0].Level == want, "level of the record")
	sym.Assert(got[0].Message == t, "message of the record")
	sym.Assert(got[0].NumAttrs() == 0, "attributes of the record")
	sym.Reach("end")
}

// AnyLine writes any text: either an error, or exactly one record and the whole length:
// p = {where the text stands, length}.
func AnyLine(p []int) {
	recs := listen()
	w := gin.NewWriter(&gin.Options{Traffic: gin.Traffic{Parse: p[0] >= 2}})
	s := sym.String("s", p[1])
	switch p[0] {
	case 1:
		s = "[" + s + "] x"
	case 2:
		s = "[GIN] " + s
	case 3:
		s = "2|e|c|G " + s
	}
	n, err := w.Write([]byte(s))
	got := drop(*recs)
	if err == nil {
		sym.Assert(n == len(s), "the length reported")
		sym.Assert(len(got) == 1, "not exactly one record")
	} else {
		sym.Assert(len(got) == 0, "a record along with an error")
	}
	sym.Reach("end")
}

// Line writes traffic as Gin does: p = {embed, kind of level, group given, time prefix}.
func Line(p []int) {
	recs := listen()
	tl, tw, later := base("traffic", p[1])
	bl, bw, later2 := base("base", 2)
	o := &gin.Options{Level: bl, Traffic: gin.Traffic{Parse: sym.Bool("parse"), Embed: p[0] == 1, Level: tl}}
	group, msg := "gin", "Gin Traffic"
	if p[2] == 1 {
		group = sym.Letters("group", 2)
		o.Traffic.Group = group
		msg = sym.String("msg", 2)
		o.Traffic.Message = msg
	}
	w := gin.NewWriter(o)
	later()
	later2()
	url := "/" + sym.Letters("url", 1)
	rest := `200 |  5.5s |   ::1 | GET      "` + url + `"`
	stamp := ""
	if p[3] == 1 {
		stamp = []string{"2024/01/26 - 13:21:32 | ", "1/2/3 - 4:5:6| ", " 2024/01/26  -  13:21:32 |"}[sym.Choose("stamp", 3)]
	}
	line := "[GIN] " + stamp + rest + "\n"
	n, err := w.Write([]byte(line))
	sym.Assert(err == nil && n == len(line), "Write does not report the line as written")
	got := *recs
	sym.Assert(len(got) == 1, "not exactly one record")
	r := got[0]
	if !o.Traffic.Parse {
		sym.Assert(r.Level == bw && r.Message == rest && r.NumAttrs() == 0, "traffic is parsed without being asked for")
		sym.Reach("end")
		return
	}
	sym.Assert(r.Level == tw, "level of traffic")
	sym.Assert(r.Message == msg, "message of traffic")
	var args []any
	r.Attrs(func(a slog.Attr) bool { args = append(args, a); return true })
	if p[0] == 0 {
		sym.Assert(len(args) == 1, "traffic is not in one group")
		v, n := attrOf(args, group)
		sym.Assert(n == 1 && v.Kind() == slog.KindGroup, "group of traffic")
		args = nil
		for _, a := range v.Group() {
			args = append(args, a)
		}
	}
	five(args)
	text(args, gin.Url, url, "URL differs")
	text(args, gin.Client, "::1", "client differs")
	text(args, gin.Elapsed, "5.5s", "elapsed differs")
	text(args, gin.Method, "GET", "method differs")
	sym.Reach("end")
}

// within puts one arbitrary byte into a text, anywhere.
func within(name, t string, ok func(c byte) bool) string {
	s := sym.String(name, 1)
	sym.Assume(ok(s[0]))
	i := sym.Choose(name+" at", len(t)+1)
	return t[:i] + s + t[i:]
}

func plain(c byte) bool { return c > ' ' && c < 0x7f && c != '|' && c != '"' }

// wide are texts for the fields of a line, longer than their columns among them.
var wide = [5][]string{
	1: {"13.458µs", "1m2.000000001s", "2562047h47m16.854775807s", "not a duration at all"},
	2: {"192.168.100.100:65535", "2001:0db8:85a3:0000:0000:8a2e:0370:7334", "fe80::1%eth0", "a client [x]"},
	3: {"PROPFIND", "VERSION-CONTROL", "x", "BASELINE-CONTROL-AND-MORE"},
	4: {"/", "/a b/c|d?e=f|g&h= i", "http://[::1]:8080/x?y=[z]#{w}", "/2024/01/26 - 13:21:32 | 200 | 1s | ::1 | GET /x", "/%7C%20%22"},
}

// ParseWide parses lines in which all fields are long and one has any byte in any place: p = {field}.
func ParseWide(p []int) {
	var f [5]string
	f[0] = []string{"200", "7", "1234567890", "007"}[sym.Choose("code", 4)]
	for i := 1; i < 5; i++ {
		f[i] = wide[i][0]
		if i == p[0] || p[0] == 0 && i == 4 {
			f[i] = wide[i][sym.Choose("wide", len(wide[i]))]
		}
	}
	if p[0] > 0 {
		f[p[0]] = within("any", f[p[0]], plain)
	} else {
		for i := 1; i < 4; i++ {
			f[i] = wide[i][sym.Choose("other", len(wide[i]))]
		}
	}
	pad := sym.Choose("pad", 3) * 3
	line := spaces(pad) + f[0] + " | " + spaces(pad) + f[1] + " | " + spaces(pad) + f[2] + " | " + f[3] + " " + spaces(pad) + `"` + f[4] + `"`
	args, err := gin.Parse(line)
	sym.Assert(err == nil, "a line in Gin's layout does not parse")
	five(args)
	v, _ := attrOf(args, string(gin.Code))
	want := map[string]int64{"200": 200, "7": 7, "1234567890": 1234567890, "007": 7}[f[0]]
	sym.Assert(v.Kind() == slog.KindInt64 && v.Int64() == want, "code differs")
	text(args, gin.Elapsed, f[1], "elapsed differs")
	text(args, gin.Client, f[2], "client differs")
	text(args, gin.Method, f[3], "method differs")
	text(args, gin.Url, f[4], "URL differs")
	sym.Reach("end")
}

var messages = []string{
	"", "plain", "Listening and serving HTTP on :8080", "GET    /go-slog/x   --> main.fn (4 handlers)",
	"x [ERROR] y", "x [GIN-debug] [WARNING] y]", "200] [GIN]", "[not a level", "a\nb\n\tc", "] ", "DEBUG", "ERROR x",
	"x 2024/01/26 - 13:21:32 | y", "2024/01/26 - 13:21:32", "2024/01/26 | 13:21:32 | z", "a | b | c", "200 | 1s | x", "using env:\texport GIN_MODE=release",
	"a message that is much longer than all of the others so that whatever is measured by them does not fit: 0123456789 0123456789 0123456789 0123456789",
}

// Messages writes longer messages with one byte arbitrary behind prefixes: p = {traffic, prefixes}.
func Messages(p []int) {
	recs := listen()
	w := gin.NewWriter(&gin.Options{Traffic: gin.Traffic{Parse: p[0] == 1}})
	want := slog.LevelInfo
	line := ""
	for i := 0; i < p[1]; i++ {
		k := i % len(tokens)
		if i == p[1]-1 {
			k = sym.Choose("token", len(tokens))
		}
		t := tokens[k]
		if t.sets {
			want = t.level
		}
		line += t.text + " "
	}
	m := messages[sym.Choose("message", len(messages))]
	if len(m) > 0 && m[0] == '[' {
		// no level that is complete
		m = within("any", m, func(c byte) bool { return plain(c) && c != ']' && c != '[' })
	} else {
		m = within("any", m, func(c byte) bool { return plain(c) && c != '[' && c != '/' && (c < '0' || c > '9') })
	}
	n, err := w.Write([]byte(line + m + "\n"))
	sym.Assert(err == nil && n == len(line)+len(m)+1, "Write does not report the line as written")
	got := drop(*recs)
	sym.Assert(len(got) == 1, "not exactly one record")
	sym.Assert(got[0].Level == want, "level of the record")
	sym.Assert(got[0].Message == m, "message of the record")
	sym.Assert(got[0].NumAttrs() == 0, "attributes of the record")
	sym.Reach("end")
}

// Sequence writes lines one after another to two writers: each becomes what it would become alone:
// p = {lines, prefixes of each}.
func Sequence(p []int) {
	recs := listen()
	var lv slog.LevelVar
	lv.Set(slog.Level(sym.Int("first level")))
	ws := []interface{ Write([]byte) (int, error) }{
		gin.NewWriter(&gin.Options{Level: &lv, Traffic: gin.Traffic{Parse: true, Embed: true, Level: slog.LevelWarn, Message: "t"}}),
		gin.NewWriter(&gin.Options{}),
	}
	for i := 0; i < p[0]; i++ {
		x := sym.Choose("writer", 2)
		want := slog.LevelInfo
		if x == 0 {
			if i > 0 {
				lv.Set(slog.Level(i * 4))
			}
			want = lv.Level()
		}
		line := ""
		for j := 0; j < p[1]; j++ {
			if k := sym.Choose("token", len(tokens)+1); k < len(tokens) {
				line += tokens[k].text
				if tokens[k].sets {
					want = tokens[k].level
				}
			}
		}
		msg := sym.Letters("text", 1)
		attrs := 0
		kind := sym.Choose("kind", 3)
		switch kind {
		case 0:
			line += msg
		case 1:
			url := msg
			line += "200 | 1s | ::1 | GET " + url
			if x == 0 {
				msg, want, attrs = "t", slog.LevelWarn, 5
			} else {
				msg = "200 | 1s | ::1 | GET " + url
			}
		case 2:
			line += "[NONE] " + msg
		}
		*recs = nil
		n, err := ws[x].Write([]byte(line + "\n"))
		if kind == 2 {
			sym.Assert(err != nil && len(drop(*recs)) == 0, "an unknown prefix is no error, or becomes a record")
			continue
		}
		sym.Assert(err == nil && n == len(line)+1, "Write does not report the line as written")
		got := drop(*recs)
		sym.Assert(len(got) == 1, "not exactly one record")
		sym.Assert(got[0].Level == want, "level of the record")
		sym.Assert(got[0].Message == msg, "message of the record")
		sym.Assert(got[0].NumAttrs() == attrs, "attributes of the record")
	}
	sym.Reach("end")
}
