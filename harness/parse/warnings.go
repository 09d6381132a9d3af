// Package parse drives the parsers of benchmark and warning output.
package parse

import (
	"strconv"
	"strings"

	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/zzverif/sym"
)

var funcs = []struct{ fn, tag, name string }{
	{"TestBenchWith", "BenchWith", "Bench With"}, {"BenchmarkSimple", "Simple", "Simple"}, {"Unknown", "Unknown", "Unknown"},
}

var handlers = []struct{ name, shown, tag, tagName string }{
	{"phsym/zeroslog", "Phsym Zeroslog", "PhsymZerolog", "Phsym Zerolog"}, {"a/b", "A B", "AB", "AB"}, {"slog/JSONHandler", "Slog Jsonhandler", "SlogJson", "Slog Json"},
}

var warns = []*warning.Warning{warning.Required()[0], warning.StringAny, warning.Implied()[0], warning.SkippingTest, own}

// own is a warning that someone else could add.
var own = warning.NewWarning(warning.LevelRequired, "Zz own: x", "2 [of] them: {both} + end...", "")

type inst struct {
	fn         int
	text, line string
	source     string
}

type entry struct {
	h   int // handler
	w   *warning.Warning
	ins []inst
}

func isSpace(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\f' || c == '\r' }

// text is any text that survives the layout: lines without blanks at their end, the first without
// blanks at its start.
func text(n int) string {
	switch n {
	case 10, 11, 12, 13:
		return text(1) + []string{"\n\n", "\n\t ", "\n: ", "\n\n\n"}[n-10] + text(1)
	}
	if n == 14 {
		return strings.Repeat("a long text, of {words} and [brackets]: ", 20) + text(1) + strings.Repeat("\n+ line 3 [x] Required", 15)
	}
	s := sym.String("text", n)
	for i := 0; i < n; i++ {
		if i == 0 {
			sym.Assume(!isSpace(s[0]) && s[0] != '\v' || s[0] == '\n')
		}
		if i == n-1 {
			sym.Assume(!isSpace(s[i]) && s[i] != '\v')
		} else if s[i+1] == '\n' {
			sym.Assume(!isSpace(s[i]) || s[i] == '\n')
		}
	}
	return s
}

type expected struct {
	all       []*entry
	byHandler [][]*entry
}

func report(x *expected, per, n int, prefix, source string) string {
	var sb strings.Builder
	hs := len(x.byHandler)
	// all managers first: their output is shown at the end
	mgrs := make([]*warning.Manager, hs)
	for h := 0; h < hs; h++ {
		mgrs[h] = warning.NewWarningManager(handlers[h].name, "Test", prefix)
		for i := 0; i < per; i++ {
			k := sym.Choose("warning", len(warns)+1)
			if k == len(warns) {
				continue
			}
			w := warns[k]
			in := inst{fn: sym.Choose("fn", len(funcs)), source: source}
			if sym.Choose("with text", 2) == 1 {
				in.text = text(n)
			}
			in.line = []string{"", `{"a":1}`, `{broken`}[sym.Choose("record", 3)]
			mgrs[h].AddWarningFnText(w, funcs[in.fn].fn, in.text, in.line+"\n"[:min(len(in.line), 1)])
			var e *entry
			for _, o := range x.byHandler[h] {
				if o.w == w {
					e = o
				}
			}
			if e == nil {
				e = &entry{h: h, w: w}
				x.byHandler[h] = append(x.byHandler[h], e)
				x.all = append(x.all, e)
			}
			e.ins = append(e.ins, in)
		}
	}
	for h := 0; h < hs; h++ {
		mgrs[h].ShowWarnings(&sb)
	}
	return sb.String()
}

// sortE orders entries by name of the warning.
func sortE(es []*entry) []*entry {
	var out []*entry
	for _, e := range es {
		i := len(out)
		for i > 0 && e.w.Name < out[i-1].w.Name {
			i--
		}
		out = append(out, nil)
		copy(out[i+1:], out[i:])
		out[i] = e
	}
	return out
}

type shown interface {
	Name() string
	Extra() string
	Line() string
	Tag() string
	Source() string
	HasSource() bool
	Log() string
	HasLog() bool
}

// pair assigns every expected instance another parsed one.
func pair[T shown](gotten []T, n int, same func(i int, g shown) bool, msg string) {
	var got []shown
	for _, g := range gotten {
		got = append(got, g)
	}
	sym.Assert(len(got) == n, msg+": number of instances")
	used := make([]bool, n)
	last := map[string]int{}
	for i := 0; i < n; i++ {
		found := false
		for j, g := range got {
			if !used[j] && same(i, g) {
				used[j], found = true, true
				k, ok := last[g.Name()]
				sym.Assert(!ok || k < j, msg+": instances of one name are in another order than reported")
				last[g.Name()] = j
				break
			}
		}
		sym.Assert(found, msg+": an instance is not there as it was reported")
	}
	for j := 1; j < n; j++ {
		sym.Assert(got[j-1].Name() <= got[j].Name(), msg+": instances are not in order")
	}
}

func check(ws *data.Warnings, x *expected, sources []string, lookup map[string]data.HandlerTag) {
	all, byHandler := x.all, x.byHandler
	tag := func(h int) data.HandlerTag {
		if t, ok := lookup[handlers[h].name]; ok {
			return t
		}
		return data.HandlerTag(handlers[h].name)
	}
	sym.Assert(len(ws.HandlerTags()) == len(byHandler), "number of handlers")
	for i := 1; i < len(byHandler); i++ {
		sym.Assert(ws.HandlerName(ws.HandlerTags()[i-1]) <= ws.HandlerName(ws.HandlerTags()[i]), "handlers are not in order")
	}
	for h, es := range byHandler {
		t := tag(h)
		sym.Assert(ws.HasHandler(t) && ws.ForHandler(t) != nil, "a handler is not there")
		want := handlers[h].shown
		if lookup != nil {
			want = handlers[h].name
		}
		sym.Assert(ws.HandlerName(t) == want, "name of a handler")
		levels := ws.ForHandler(t)
		li := 0
		for _, l := range warning.LevelOrder {
			var at []*entry
			for _, e := range es {
				if e.w.Level == l {
					at = append(at, e)
				}
			}
			at = sortE(at)
			sym.Assert(levels.LevelCount(l) == uint64(len(at)), "number of warnings of a level")
			if len(at) == 0 {
				continue
			}
			sym.Assert(li < len(levels.Levels()), "a level is not there")
			dl := levels.Levels()[li]
			li++
			sym.Assert(dl.Level == l && dl.Name() == l.String() && levels.Level(l) == dl, "levels are not in order")
			got := dl.Warnings()
			sym.Assert(len(got) == len(at), "number of warnings of a level")
			for i, e := range at {
				sym.Assert(got[i].Name() == e.w.Name, "name of a warning")
				sym.Assert(got[i].Summary() == e.w.Summary, "summary of a warning")
				pair(got[i].Instances(), len(e.ins), func(k int, g shown) bool {
					in := e.ins[k]
					return g.Name() == funcs[in.fn].name && g.Extra() == in.text && g.Line() == in.line && g.Tag() == funcs[in.fn].tag && g.Source() == in.source && g.HasSource() == (in.source != "") && logged(g, in.line)
				}, "handler")
				sym.Assert(ws.HandlerWarningCount(t, e.w) == uint(len(e.ins)), "count of a warning")
			}
		}
		sym.Assert(li == len(levels.Levels()), "more levels than reported")
	}
	// by test and by warning
	tests := 0
	for _, source := range sources {
		ofSource := 0
		for f, fn := range funcs {
			tt := data.TestTag(fn.tag)
			if source != "" {
				tt = data.TestTag(source + "." + fn.tag)
			}
			n := 0
			for _, e := range all {
				for _, in := range e.ins {
					if in.fn == f && in.source == source {
						n++
					}
				}
			}
			sym.Assert(ws.HasTest(tt) == (n > 0), "a test is there without warnings, or not with them")
			if n == 0 {
				continue
			}
			tests++
			ofSource++
			sym.Assert(ws.TestName(tt) == fn.name, "name of a test")
			lv := ws.ForTest(tt)
			for _, w := range warns {
				var want []string
				for _, e := range all {
					for _, in := range e.ins {
						if in.fn == f && e.w == w && in.source == source {
							want = append(want, in.text+"\x00"+string(tag(e.h).Name())+"\x00"+indented(in.line))
						}
					}
				}
				found := false
				if dl := lv.Level(w.Level); dl != nil {
					for _, dw := range dl.Warnings() {
						if dw.Name() == w.Name {
							found = true
							sym.Assert(dw.Summary() == w.Summary, "summary of a warning of a test")
							pair(dw.Instances(), len(want), func(k int, g shown) bool {
								return g.Extra()+"\x00"+g.Name()+"\x00"+g.Log() == want[k]
							}, "test")
						}
					}
				}
				sym.Assert(found == (len(want) > 0), "a warning of a test")
			}
		}
		if source != "" {
			sym.Assert(len(ws.TestTagsForSource(source)) == ofSource, "number of tests of a source")
		}
	}
	sym.Assert(len(ws.TestTags()) == tests, "number of tests")
	for i := 1; i < tests; i++ {
		sym.Assert(ws.TestName(ws.TestTags()[i-1]) <= ws.TestName(ws.TestTags()[i]), "tests are not in order")
	}
	for _, w := range warns {
		hs := 0
		for _, e := range all {
			if e.w == w {
				hs++
			}
		}
		wd := ws.ByWarning[w.Name]
		sym.Assert((wd != nil && wd.HasHandlers()) == (hs > 0), "a warning by name")
		if wd != nil {
			sym.Assert(len(wd.Handlers()) == hs, "handlers of a warning")
			for i, t := range wd.Handlers() {
				found := false
				for _, e := range all {
					found = found || e.w == w && tag(e.h) == t
				}
				sym.Assert(found && (i == 0 || wd.Handlers()[i-1].Name() <= t.Name()), "handlers of a warning")
			}
			of := map[data.TestTag]bool{}
			for _, e := range all {
				for _, in := range e.ins {
					if e.w == w && in.source != "" {
						of[data.TestTag(in.source+"."+funcs[in.fn].tag)] = true
					} else if e.w == w {
						of[data.TestTag(funcs[in.fn].tag)] = true
					}
				}
			}
			sym.Assert(len(wd.Tests()) == len(of) && wd.HasTests() == (len(of) > 0) && wd.HasUsage() == (hs > 0), "tests of a warning")
			for i, t := range wd.Tests() {
				sym.Assert(of[t] && (i == 0 || wd.Tests()[i-1].Name() <= t.Name()), "tests of a warning")
			}
		}
	}
}

func indented(line string) string {
	if line == `{"a":1}` {
		return "{\n\t\"a\": 1\n}"
	}
	return line
}

// logged: the record is shown as it is, or indented when it is JSON.
func logged(g shown, line string) bool {
	return g.Log() == indented(line) && g.HasLog() == (line != "")
}

// RoundTrip: what the managers show is what the parser reads: p = {handlers, warnings each,
// length of a text, source and prefix, known handlers, something around, number of reports}.
func RoundTrip(p []int) {
	x := &expected{byHandler: make([][]*entry, p[0])}
	var lookup map[string]data.HandlerTag
	if p[4] == 1 {
		lookup = map[string]data.HandlerTag{}
		for h := range x.byHandler {
			lookup[handlers[h].name] = data.HandlerTag(handlers[h].tag)
		}
	}
	ws := data.NewWarnings()
	var sources []string
	for r := 0; r < p[6]; r++ {
		prefix, source := "", "Verify"
		if (p[3]+r)%3 == 1 {
			prefix, source = "# ", "Bench"
		} else if (p[3]+r)%3 == 2 {
			source = ""
		}
		sources = append(sources, source)
		out := report(x, p[1], p[2], prefix, source)
		if p[5] == 1 {
			out = "=== RUN   TestVerify\n  Required\n{\"x\":1}\n 3 [Name] Summary\n:[ a/b\n:: text\n:> x --> http://y\n:]\n--- PASS: x\n\n" + out +
				prefix + "\n" + prefix + " Handlers by warning:\n" + prefix + "  Required\n" + prefix + "    [Foo] bar\n" + prefix + "      a/b\nPASS\n"
		}
		if prefix != "" {
			b := data.NewBenchmarks()
			sym.Assert(b.ParseBenchmarkData(strings.NewReader(out)) == nil, "the output does not parse")
			out = string(b.WarningText())
		}
		sym.Assert(ws.ParseWarningData(strings.NewReader(out), source, lookup) == nil, "the output does not parse")
		check(ws, x, sources, lookup)
		if p[5] == 1 && p[4] == 1 && p[0] > 1 && prefix == "" {
			t := data.HandlerTag(handlers[1].tag)
			sym.Assert(ws.HasHandlerSummary(t) && ws.HasHandlerLinks(t) && len(ws.HandlerLinks(t)) == 1 && ws.HandlerLinks(t)["x"] == "http://y", "summary of a handler")
			sym.Assert(!ws.HasHandlerSummary(data.HandlerTag(handlers[0].tag)), "summary of another handler")
		}
	}
	sym.Reach("end")
}

// Many: one warning has many instances, from any of up to three functions: p = {instances, any of them}.
func Many(p []int) {
	m := warning.NewWarningManager(handlers[1].name, "Test", "")
	e := &entry{h: 1, w: warns[0]}
	for i := 0; i < p[0]; i++ {
		in := inst{fn: i * 7 % 5 % 3, text: strconv.Itoa(i), source: "Verify"}
		if i%4 == 1 && i/4 < p[1] {
			in.fn = sym.Choose("fn", 3)
		}
		m.AddWarningFnText(e.w, funcs[in.fn].fn, in.text, "")
		e.ins = append(e.ins, in)
	}
	var sb strings.Builder
	m.ShowWarnings(&sb)
	ws := data.NewWarnings()
	sym.Assert(ws.ParseWarningData(strings.NewReader(sb.String()), "Verify", nil) == nil, "the output does not parse")
	got := ws.ForHandler(data.HandlerTag(handlers[1].name)).Levels()[0].Warnings()[0]
	for again := 0; again < 2; again++ {
		pair(got.Instances(), p[0], func(k int, g shown) bool { return g.Name() == funcs[e.ins[k].fn].name && g.Extra() == e.ins[k].text }, "handler")
	}
	sym.Reach("end")
}
