// Package suites drives the benchmark and verification suites with output that is right or
// departs from what is right in one place, whatever it is there.
package suites

import (
	"io"
	"log/slog"
	"strings"

	"github.com/madkins23/go-slog/bench/tests"
	"github.com/madkins23/go-slog/infra"
	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/test"
	"github.com/madkins23/go-slog/internal/zzverif/sym"
)

// field of a line of output: text is JSON, or sub is the content of an object.
type field struct {
	name  string
	text  string
	sub   []*field
	group bool
	want  bool // the benchmark logs it
	kind  bool // only the kind of its value counts
	bad   bool // what a fault of the handler writes
}

func val(name, text string) *field { return &field{name: name, text: text, want: true} }

func grp(name string, sub ...*field) *field {
	return &field{name: name, sub: sub, group: true, want: true}
}

func loose(name, text string) *field { return &field{name: name, text: text} }

func render(sb *strings.Builder, fs []*field) {
	sb.WriteByte('{')
	for i, f := range fs {
		if i > 0 {
			sb.WriteByte(',')
		}
		sb.WriteByte('"')
		sb.WriteString(f.name)
		sb.WriteString(`":`)
		f.render(sb)
	}
	sb.WriteByte('}')
}

func (f *field) render(sb *strings.Builder) {
	if f.group {
		render(sb, f.sub)
	} else {
		sb.WriteString(f.text)
	}
}

func (f *field) json() string {
	var sb strings.Builder
	f.render(&sb)
	return sb.String()
}

// find returns the list a wanted field is in and where, counting depth first.
func find(fs *[]*field, n *int) (*[]*field, int) {
	for i, f := range *fs {
		if f.want {
			if *n == 0 {
				return fs, i
			}
			*n--
		}
		if f.group && f.want {
			if l, k := find(&f.sub, n); l != nil {
				return l, k
			}
		}
	}
	return nil, 0
}

func count(fs []*field) int {
	n := 0
	for _, f := range fs {
		if f.want {
			n++
			n += count(f.sub)
		}
	}
	return n
}

func basic() []*field {
	return []*field{loose("time", `"2024-02-03T04:05:06Z"`), val("level", `"INFO"`), val("msg", `"This is a message"`)}
}

func values(with string) []*field {
	return []*field{
		val(with+"Bool", "true"), val(with+"Int", "17"), val(with+"Int64", "-654"), val(with+"Uint64", "29399459393"),
		val(with+"Float64", "3.141592653589793"), val(with+"String", `"The only Thing we have to fear is fear itself."`),
		loose(with+"Time", `"2024-02-03T04:05:06Z"`), loose(with+"Duration", "3600000000000"),
		grp("group", val("alpha", `"omega"`), val("never", `"mind"`)),
		grp("Any", val("Name", `"Skidoo"`), val("Num", "23")),
		loose("Error", `"no"`),
	}
}

// both are the fields of two lists, those of the second only where they are not in the first
func both(a, b []*field) []*field {
	for _, f := range b {
		in := false
		for _, g := range a {
			in = in || g.name == f.name
		}
		if !in {
			a = append(a, f)
		}
	}
	return a
}

func source() *field {
	return grp("source", val("function", `"main.main"`), val("file", `"/a/b.go"`), val("line", "12"))
}

func deep(stem string, depth int) *field {
	g := grp(stem, loose("count", "1"), loose("depth", string(rune('0'+depth))), loose("limit", "5"))
	if depth < 5 {
		g.sub = append(g.sub, deep(stem+"-0", depth+1))
		if depth == 2 {
			g.sub = append(g.sub, grp(stem+"-1", loose("count", "2"), loose("depth", "3")))
			g.sub[4].want = false
		}
	}
	return g
}

const (
	bDisabled = iota
	bSimple
	bSource
	bAttributes
	bKeyValues
	bWithSimple
	bWithAttributes
	bWithKeyValues
	bGroupAttributes
	bGroupKeyValues
	bBigGroup
	bLogging
)

func benchmark(n int, suite *tests.SlogBenchmarkSuite) (*tests.Benchmark, []*field) {
	switch n {
	case bDisabled:
		return suite.BenchmarkDisabled(), nil
	case bSimple:
		return suite.BenchmarkSimple(), basic()
	case bSource:
		return suite.BenchmarkSimpleSource(), append(basic(), source())
	case bAttributes:
		return suite.BenchmarkAttributes(), append(basic(), values("")...)
	case bKeyValues:
		return suite.BenchmarkKeyValues(), append(basic(), values("")...)
	case bWithSimple:
		return suite.BenchmarkWithAttrsSimple(), append(basic(), values("with")...)
	case bWithAttributes:
		return suite.BenchmarkWithAttrsAttributes(), append(basic(), both(values("with"), values(""))...)
	case bWithKeyValues:
		return suite.BenchmarkWithAttrsKeyValues(), append(basic(), both(values("with"), values(""))...)
	case bGroupAttributes:
		return suite.BenchmarkWithGroupAttributes(), append(basic(), grp("withGroup", values("")...))
	case bGroupKeyValues:
		return suite.BenchmarkWithGroupKeyValues(), append(basic(), grp("withGroup", values("")...))
	case bBigGroup:
		fs := append(basic(), deep("group", 0))
		fs[1].want, fs[2].want = false, false // not looked at
		return suite.BenchmarkBigGroup(), fs
	}
	return suite.BenchmarkLogging(), []*field{loose("time", `"2024-02-03T04:05:06Z"`), val("level", `"INFO"`), val("msg", `"Handle"`),
		val("code", "200"), val("elapsed", "12345"), loose("client", `"::1"`), val("method", `"GET"`), val("url", `"/x"`)}
}

func newSuite(declared int) (*tests.SlogBenchmarkSuite, *warning.Warning) {
	suite := tests.NewSlogBenchmarkSuite(infra.NewCreator("a/b",
		func(w io.Writer, o *slog.HandlerOptions) slog.Handler { return slog.NewJSONHandler(w, o) }, nil, "", nil))
	d := []*warning.Warning{nil, warning.Mismatch, warning.StringAny, warning.SkipDedup, warning.Duplicates, warning.SourceKey, warning.NotDisabled}[declared]
	if d != nil {
		suite.WarnOnly(d)
	}
	return suite, d
}

// recorded is the number of instances of a warning.
func recorded(mgr *warning.Manager, w *warning.Warning) int {
	for _, r := range mgr.GetWarnings() {
		if r.Name == w.Name {
			return int(r.Count)
		}
	}
	return 0
}

// complaints is the number of warnings that say something about the handler.
func complaints(mgr *warning.Manager) int {
	n := 0
	for _, r := range mgr.GetWarnings() {
		if r.Name != warning.Unused.Name {
			n += int(r.Count)
		}
	}
	return n
}

func isDoubled(n int) bool { return n >= bAttributes && n <= bGroupKeyValues }

func name(n int, k int) string {
	return sym.Letters("name", k)
}

// Bench: the verification of a benchmark says nothing about right output and something about
// output that is wrong somewhere: p = {benchmark, departure, declared warning, letters}.
func Bench(p []int) {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	suite, declared := newSuite(p[2])
	b, fs := benchmark(p[0], suite)
	wrong, mismatch, str := false, false, false
	top := &fs
	if p[0] == bGroupAttributes || p[0] == bGroupKeyValues {
		top = &fs[len(fs)-1].sub
	}
	pick := func() (*[]*field, int, *field) {
		n := sym.Choose("field", count(fs))
		l, i := find(&fs, &n)
		return l, i, (*l)[i]
	}
	switch p[1] {
	case 0: // right
	case 1: // a field is missing
		l, i, _ := pick()
		*l = append((*l)[:i:i], (*l)[i+1:]...)
		wrong, mismatch = true, true
	case 2: // a field has some other text or number
		_, _, f := pick()
		if p[0] == bLogging || p[0] == bSource && f.name != "level" && f.name != "msg" && f.name != "source" {
			sym.Reach("any value will do")
			return
		}
		group, was := f.group, f.text
		f.group, f.text = false, `"`+sym.Letters("text", p[3])+`"`
		if f.name == "level" {
			sym.Assume(!strings.EqualFold(f.text, was))
		}
		if !group {
			sym.Assume(f.text != was)
		}
		wrong, mismatch = true, true
	case 3: // one byte of a text is another letter
		_, _, f := pick()
		if f.group || f.text[0] != '"' || p[0] == bLogging || p[0] == bSource && f.name != "msg" || p[0] == bBigGroup {
			sym.Reach("not a text that matters")
			return
		}
		c := sym.Letters("letter", 1)
		i := 1 + sym.Choose("place", len(f.text)-2)
		text := f.text[:i] + c + f.text[i+1:]
		wrong = text != f.text
		if f.name == "level" {
			wrong = !strings.EqualFold(text, f.text)
		}
		mismatch = wrong
		f.text = text
	case 4: // a field has another name
		_, _, f := pick()
		was := f.name
		f.name = sym.Letters("name", p[3])
		sym.Assume(f.name != was)
		if was == "msg" {
			sym.Assume(f.name != "message")
		}
		wrong, mismatch = true, true
	case 5: // a field is there twice
		if !isDoubled(p[0]) {
			sym.Reach("not looked at")
			return
		}
		var f *field
		i := sym.Choose("field", len(fs))
		f = fs[i]
		g := *f
		if !g.group {
			g.text = `"` + sym.Letters("text", p[3]) + `"`
		}
		fs = append([]*field{&g}, fs...)
		wrong = true
	case 6: // a field more
		nm := name(p[0], p[3])
		known := false
		for _, f := range *top {
			known = known || f.name == nm
		}
		for _, f := range fs {
			known = known || f.name == nm
		}
		sym.Assume(!known && nm != "fields")
		f := loose(nm, `"`+sym.Letters("text", p[3])+`"`)
		if sym.Choose("where", 2) == 0 {
			*top = append(*top, f)
		} else {
			fs = append([]*field{f}, fs...)
		}
		wrong = p[0] == bSimple
		mismatch = wrong
	case 7: // the level in any letters
		s := sym.String("level", 4)
		for i := range s {
			c := s[i] | 0x20
			sym.Assume(c >= 'a' && c <= 'z')
		}
		fs[1].text = `"` + s + `"`
		wrong = (s[0]|0x20 != 'i' || s[1]|0x20 != 'n' || s[2]|0x20 != 'f' || s[3]|0x20 != 'o') && p[0] != bBigGroup && p[0] != bLogging
		mismatch = wrong
	case 8: // the other name of the message
		fs[2].name = "message"
		if sym.Choose("time", 2) == 0 {
			fs = fs[1:]
		} else {
			fs[0].text = `"` + sym.Letters("time", p[3]) + `"`
		}
	case 9: // a group or number as text that is JSON
		_, _, f := pick()
		if p[0] == bLogging || p[0] == bSource || p[0] == bBigGroup || f.text != "" && f.text[0] == '"' || f.name == "group" || f.name == "withGroup" {
			sym.Reach("not for this field")
			return
		}
		f.text = `"` + strings.ReplaceAll(f.json(), `"`, `\"`) + `"`
		f.group = false
		wrong, str = true, true
	case 10: // the caller instead of the source
		fs[len(fs)-1] = loose("caller", []string{`"` + sym.Letters("caller", p[3]) + `.go:12"`, "12", `"x"`}[sym.Choose("kind", 3)])
		wrong = true
	}
	var line strings.Builder
	if p[0] == bDisabled {
		line.WriteString(sym.String("written", p[3]))
		wrong = p[3] > 0
	} else {
		render(&line, fs)
		line.WriteByte('\n')
	}
	out := line.String()
	if p[0] == bLogging {
		good := "{\"level\":\"INFO\",\"msg\":\"Handle\",\"code\":200,\"elapsed\":12345,\"method\":\"GET\",\"url\":\"/x\"}\n"
		switch sym.Choose("lines", 4) {
		case 1:
			out = good + out
		case 2:
			out += good
		case 3:
			out = good + out + good
		}
	}
	// Two defects of the suite: it never sees fields that are there twice, and BigGroup accepts a line without the group.
	finding, when := "bench-duplicates", p[1] == 5 && p[0] >= bAttributes && p[0] <= bGroupKeyValues
	if p[0] == bBigGroup {
		finding, when = "bench-big-group-missing", true
		for _, f := range fs {
			when = when && f.name != "group"
		}
	}
	err := b.VerifyFn([]byte(out), nil, suite.Manager)
	flagged := err != nil || complaints(suite.Manager) > 0
	sym.Finding(finding, when, declared != nil || (err != nil) == wrong, "the error is not what the output is")
	skipped := declared == warning.SkipDedup && (p[0] == bWithAttributes || p[0] == bWithKeyValues)
	if !skipped || !mismatch && !str {
		sym.Finding(finding, when, !wrong || flagged, "wrong output is accepted")
	}
	sym.Assert(wrong || !flagged, "right output is refused")
	if p[0] >= bAttributes && p[0] <= bGroupKeyValues && !skipped {
		// what has been declared is a warning and no longer an error
		if declared == warning.Mismatch && (mismatch || str) {
			sym.Assert(err == nil, "a declared mismatch is an error")
			sym.Assert(recorded(suite.Manager, warning.Mismatch) > 0, "a declared mismatch is not recorded")
		}
		if str && declared == warning.StringAny {
			sym.Assert(err == nil, "a declared string is an error")
			sym.Assert(recorded(suite.Manager, warning.StringAny) > 0, "a declared string is not recorded")
		}
		if p[1] == 5 {
			sym.Finding(finding, when, recorded(suite.Manager, warning.Duplicates) > 0, "no warning of duplicates")
		}
		if !wrong && declared != nil && declared != warning.SkipDedup && declared != warning.Duplicates && declared != warning.SourceKey && declared != warning.NotDisabled {
			sym.Assert(recorded(suite.Manager, warning.Unused) > 0, "what was declared and did not happen is not reported")
		}
	}
	sym.Reach("verified")
}

// Two: what is logged departs at two places and up to two warnings are declared:
// p = {benchmark, first departure, second departure, letters, declared (1: Mismatch, 2: StringAny, 3: both)}.
func Two(p []int) {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	suite, _ := newSuite(0)
	misses, strs := p[4]&1 > 0, p[4]&2 > 0
	if misses {
		suite.WarnOnly(warning.Mismatch)
	}
	if strs {
		suite.WarnOnly(warning.StringAny)
	}
	b, fs := benchmark(p[0], suite)
	names := map[string]bool{"message": true}
	var all func(fs []*field)
	all = func(fs []*field) {
		for _, f := range fs {
			names[f.name] = true
			all(f.sub)
		}
	}
	all(fs)
	wrong, str := false, false
	for _, how := range p[1:3] {
		n := sym.Choose("field", count(fs))
		l, i := find(&fs, &n)
		f := (*l)[i]
		f.want = false
		switch how {
		case 0: // missing
			*l = append((*l)[:i:i], (*l)[i+1:]...)
			wrong = true
		case 1: // some other text
			group, was := f.group, f.text
			f.group, f.text = false, `"`+sym.Letters("text", p[3])+`"`
			if f.name == "level" {
				sym.Assume(!strings.EqualFold(f.text, was))
			} else if !group {
				sym.Assume(f.text != was)
			}
			wrong = true
		case 2: // another name
			f.name = sym.Letters("name", p[3])
			for nm := range names {
				sym.Assume(f.name != nm)
			}
			names[f.name] = true
			wrong = true
		case 3: // a group or number as text that is JSON
			if f.text != "" && f.text[0] == '"' || f.name == "group" || f.name == "withGroup" {
				sym.Reach("not for this field")
				return
			}
			if count(f.sub) < len(f.sub) {
				sym.Reach("the other departure is in this group")
				return
			}
			f.text = `"` + strings.ReplaceAll(f.json(), `"`, `\"`) + `"`
			f.group = false
			str = true
		}
	}
	var line strings.Builder
	render(&line, fs)
	err := b.VerifyFn([]byte(line.String()), nil, suite.Manager)
	bad := wrong || str && !strs
	sym.Assert((err != nil) == (bad && !misses), "the error is not what the output is")
	sym.Assert((recorded(suite.Manager, warning.Mismatch) > 0) == (bad && misses), "the mismatch is not recorded")
	if str || !strs {
		// A group that is missing takes what is in it along.
		if !(wrong && str) {
			sym.Assert((recorded(suite.Manager, warning.StringAny) > 0) == (str && strs), "the text is not recorded")
		}
	}
	sym.Reach("verified")
}

// Empty: output that is not there is wrong: p = {benchmark}.
func Empty(p []int) {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	suite, _ := newSuite(0)
	b, _ := benchmark(p[0], suite)
	out := []string{"", "\n", "{}\n", "[]\n", `{"msg":"This`}[sym.Choose("output", 5)]
	err := b.VerifyFn([]byte(out), nil, suite.Manager)
	flagged := err != nil || complaints(suite.Manager) > 0
	if p[0] == bLogging {
		sym.Finding("bench-nothing-logged", out == "" || out == "\n", flagged, "nothing written is accepted")
	} else {
		sym.Finding("bench-big-group-missing", p[0] == bBigGroup && out == "{}\n", flagged, "nothing written is accepted")
	}
	sym.Reach("verified")
}

// Big: the nested groups of the BigGroup benchmark: p = {what is wrong, letters}.
func Big(p []int) {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	suite, _ := newSuite(0)
	b, fs := benchmark(bBigGroup, suite)
	g := fs[3]
	at := sym.Choose("depth", 5)
	for i := 0; i < at; i++ {
		g = g.sub[3]
	}
	wrong := true
	switch p[0] {
	case 0: // ends here
		g.sub = g.sub[:3]
	case 1: // the name of a group inside
		g.sub[3].name = sym.Letters("name", p[1])
		wrong = !strings.HasPrefix(g.sub[3].name, g.name)
	case 2: // a field more
		f := loose(sym.Letters("name", p[1]), "1")
		g.sub = append(g.sub, f)
		wrong = f.name != "count" && f.name != "depth" && f.name != "limit"
	case 3: // one level more
		for len(g.sub) > 3 {
			g = g.sub[3]
		}
		g.sub = append(g.sub, grp(g.name+"-0", loose("count", "1")))
	case 4: // another group beside
		f := grp(g.name+"-1", loose("count", "1"))
		if at == 2 {
			f.name += "x"
		}
		g.sub = append(g.sub, f)
		wrong = false
	case 5: // a number where a group should be
		g.sub[3].group, g.sub[3].text = false, "1"
	}
	var line strings.Builder
	render(&line, fs)
	err := b.VerifyFn([]byte(line.String()), nil, suite.Manager)
	sym.Assert((err != nil || complaints(suite.Manager) > 0) == wrong, "wrong verdict on nested groups")
	sym.Reach("verified")
}

// Count: what several goroutines write at the same time is counted by the line: p = {goroutines, writes, preemptions}.
func Count(p []int) {
	var cw test.CountWriter
	want := 0
	var fs []func()
	for i := 0; i < p[0]; i++ {
		var texts []string
		for k := 0; k < p[1]; k++ {
			s := sym.String("text", sym.Choose("length", 3))
			if len(s) > 0 && s[len(s)-1] == '\n' {
				want++
			}
			texts = append(texts, s)
		}
		fs = append(fs, func() {
			for _, s := range texts {
				n, err := cw.Write([]byte(s))
				sym.Assert(n == len(s) && err == nil, "Write did not take all")
			}
		})
	}
	sym.Together(p[2], fs...)
	sym.Assert(cw.Written() == uint64(want), "the lines are not counted")
	sym.Reach("counted")
}

// Whole: what the benchmarks log, written by a handler that is right or does one thing wrong: p = {quirk, order}.
func Whole(p []int) {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	suite, _ := newSuite(0)
	n := sym.Choose("benchmark", bBigGroup)
	b, _ := benchmark(n, suite)
	alter := func(fs *[]*field) {
		if p[1] > 0 {
			mix(fs, p[1])
		}
	}
	var buf strings.Builder
	var h slog.Handler = newHandler(&buf, b.Options, p[0], alter)
	if b.HandlerFn != nil {
		h = b.HandlerFn(h)
	}
	b.BenchmarkFn(slog.New(h))
	err := b.VerifyFn([]byte(buf.String()), nil, suite.Manager)
	wrong := false
	switch p[0] {
	case enabledAlways:
		wrong = n == bDisabled
	case sourceMissing, sourceCaller:
		wrong = n == bSource
	case stringAny:
		wrong = n >= bAttributes && n <= bGroupKeyValues
	case withGroupEmpty, zeroTime, levelLower, messageKey, right:
	}
	flagged := err != nil || complaints(suite.Manager) > 0
	sym.Assert(!wrong || flagged, "wrong output is accepted")
	sym.Assert(wrong || !flagged, "right output is refused")
	sym.Reach("verified")
}
