package parse

import (
	"strconv"
	"strings"

	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/zzverif/sym"
)

// number is a decimal number of n digits, without leading zero, and its value.
func number(name string, n int) (string, uint64) {
	var v uint64
	if n == 0 {
		for _, c := range name {
			v = v*7%1000 + uint64(c)
		}
		return strconv.FormatUint(v, 10), v
	}
	b := make([]byte, n)
	for i := range b {
		lo := '0'
		if n > 1 && i == 0 {
			lo = '1'
		}
		c := byte(sym.Range(name, int(lo), '9'))
		b[i] = c
		v = v*10 + uint64(c-'0')
	}
	return string(b), v
}

type benchLine struct {
	handler, test string
	rec           data.TestRecord
}

type benchExp struct {
	lines []benchLine // one per handler and test, the last line counts
	names []struct{ tag, name string }
	warn  []string
}

func (x *benchExp) name(tag string) (string, bool) {
	for i := len(x.names) - 1; i >= 0; i-- {
		if x.names[i].tag == tag {
			return x.names[i].name, true
		}
	}
	return "", false
}

var floats = []struct {
	s string
	v float64
}{{"964.9", 964.9}, {"231879", 231879}, {"0.2731", 0.2731}}

var mbs = []struct {
	s string
	v float64
}{{"524377095.12", 524377095.12}, {"0.05", 0.05}, {"1234", 1234}}

var benchHandlers = []struct{ tag, shown string }{{"ChanchalZap", "Chanchal Zap"}, {"SlogJSON", "Slog JSON"}}
var benchTests = []struct{ tag, shown string }{{"BigGroup", "Big Group"}, {"Simple", "Simple"}, {"WithAttrsKeyValues", "With Attrs Key Values"}}

func letter(name string, n int) string {
	s := sym.Letters(name, n)
	return string(s[0]-'a'+'A') + s[1:]
}

// benchText writes lines the way go test -bench and the suites do.
func (x *benchExp) text(lines, digits, free int, single bool) string {
	var sb strings.Builder
	sb.WriteString("goos: linux\ngoarch: amd64\ncpu: Some CPU @ 2.90GHz\n")
	for i := 0; i < lines; i++ {
		kind := sym.Choose("line", 4)
		if i == lines-1 && free == 0 {
			kind = []int{0, 3, 1}[sym.Choose("last", 3)]
		}
		switch kind {
		case 0: // data
			var l benchLine
			if free == 1 {
				l.handler, l.test = letter("handler", 2), letter("test", 2)
			} else {
				l.handler = benchHandlers[sym.Choose("handler", len(benchHandlers))].tag
				l.test = benchTests[sym.Choose("test", 2)].tag
			}
			sb.WriteString("Benchmark" + l.handler + "/Benchmark" + l.test)
			shape := struct{ cpus, ns, cols, mb int }{}
			if single {
				shape.cpus, shape.ns, shape.cols = sym.Choose("cpus", 2), sym.Choose("ns", len(floats)), sym.Choose("columns", 3)
				if shape.cols == 2 {
					shape.mb = sym.Choose("mb", len(mbs))
				}
			} else {
				shape = []struct{ cpus, ns, cols, mb int }{{0, 0, 2, 0}, {1, 1, 0, 0}, {0, 2, 1, 0}}[sym.Choose("shape", 3)]
			}
			if shape.cpus == 0 {
				s, _ := number("cpus", min(digits, 1))
				sb.WriteString("-" + s)
			}
			sb.WriteString("         \t")
			s, v := number("runs", digits)
			sb.WriteString(" " + s + "\t")
			l.rec.Runs = v
			sb.WriteString("       " + floats[shape.ns].s + " ns/op")
			l.rec.NanosPerOp = floats[shape.ns].v
			if shape.cols == 2 {
				f := mbs[shape.mb]
				sb.WriteString("\t" + f.s + " MB/s")
				l.rec.MbPerSec, l.rec.GbPerSec, l.rec.TbPerSec = f.v, f.v/1_000, f.v/1_000_000
			}
			if shape.cols > 0 {
				s, v := number("bytes", digits)
				sb.WriteString("\t     " + s + " B/op")
				l.rec.MemBytesPerOp = v
				s, v = number("allocs", digits)
				sb.WriteString("\t       " + s + " allocs/op")
				l.rec.MemAllocsPerOp = v
			}
			sb.WriteString("\n")
			found := false
			for j := range x.lines {
				if x.lines[j].handler == l.handler && x.lines[j].test == l.test {
					x.lines[j].rec, found = l.rec, true
				}
			}
			if !found {
				x.lines = append(x.lines, l)
			}
		case 1: // name of a handler
			tag := benchHandlers[sym.Choose("handler", len(benchHandlers))].tag
			name := tag
			if sym.Choose("own name", 2) == 1 {
				name = sym.Letters("name", 1) + "/" + tag
			}
			sb.WriteString("# Handler[" + tag + "]=\"" + name + "\"\n")
			x.names = append(x.names, struct{ tag, name string }{tag, name})
		case 2: // text of a warning
			s := sym.String("text", 2*sym.Choose("some text", 2))
			for j := range s {
				sym.Assume(s[j] != '\n')
				sym.Assume(s[j] != '\r')
			}
			sb.WriteString("# " + s + "\n")
			x.warn = append(x.warn, s)
		case 3: // something else
			sb.WriteString([]string{"2024/02/25 07:54:11 WARN Verification Error err=\"x ns/op\"\n\n#\n", "PASS\nok  \tcommand-line-arguments\t111.442s\nBenchmarkX/BenchmarkY\n"}[sym.Choose("noise", 2)])
		}
	}
	return sb.String()
}

func same(a, b data.TestRecord) bool {
	return a.Runs == b.Runs && a.NanosPerOp == b.NanosPerOp && a.MemBytesPerOp == b.MemBytesPerOp &&
		a.MemAllocsPerOp == b.MemAllocsPerOp && a.MbPerSec == b.MbPerSec && a.GbPerSec == b.GbPerSec && a.TbPerSec == b.TbPerSec
}

func (x *benchExp) check(b *data.Benchmarks, free int) {
	handlers, tests := map[string]int{}, map[string]int{}
	for _, l := range x.lines {
		handlers[l.handler]++
		tests[l.test]++
	}
	for _, l := range x.lines {
		h, t := data.HandlerTag(l.handler), data.TestTag("Bench."+l.test)
		sym.Assert(b.HasHandler(h) && b.HasTest(t), "a handler or a test is not there")
		r1, ok1 := b.TestRecordsFor(h)[t]
		r2, ok2 := b.HandlerRecordsFor(t)[h]
		sym.Assert(ok1 && ok2, "a record is not there")
		sym.Assert(same(r1, l.rec), "a record of a handler is not what was written")
		sym.Assert(same(r2, l.rec), "a record of a test is not what was written")
		sym.Assert(same(b.ByHandler[h][t], l.rec), "a record by handler is not what was written")
		sym.Assert(len(b.TestRecordsFor(h)) == handlers[l.handler] && len(b.HandlerRecordsFor(t)) == tests[l.test], "number of records")
		sym.Assert(r1.IsEmpty() == (l.rec.Runs == 0), "an empty record")
		if name, ok := x.name(l.handler); ok {
			sym.Assert(b.HandlerName(h) == name, "name of a handler")
		}
	}
	sym.Assert(len(b.ByHandler) == len(handlers), "number of handlers")
	hs := b.HandlerTags()
	sym.Assert(len(hs) == len(handlers), "number of handlers listed")
	for i, h := range hs {
		sym.Assert(b.HasHandler(h) && (i == 0 || b.HandlerName(hs[i-1]) <= b.HandlerName(h)), "handlers are not in order")
		for j := 0; j < i; j++ {
			sym.Assert(hs[j] != h, "a handler is listed twice")
		}
	}
	ts := b.TestTags()
	sym.Assert(len(ts) == len(tests), "number of tests listed")
	for i, t := range ts {
		sym.Assert(b.HasTest(t) && (i == 0 || b.TestName(ts[i-1]) <= b.TestName(t)), "tests are not in order")
		for j := 0; j < i; j++ {
			sym.Assert(ts[j] != t, "a test is listed twice")
		}
	}
	if free == 0 {
		for _, t := range benchTests {
			if tests[t.tag] > 0 {
				sym.Assert(b.TestName(data.TestTag("Bench."+t.tag)) == t.shown, "name of a test")
			}
		}
		for _, h := range benchHandlers {
			if _, named := x.name(h.tag); handlers[h.tag] > 0 && !named {
				sym.Assert(b.HandlerName(data.HandlerTag(h.tag)) == h.shown, "name of a handler without one")
			}
		}
	}
	for _, h := range benchHandlers {
		if name, ok := x.name(h.tag); ok {
			sym.Assert(b.HandlerLookup()[name] == data.HandlerTag(h.tag), "look up of a handler")
		}
	}
	sym.Assert(!b.HasHandler("None") && !b.HasTest("Bench.None") && b.HandlerName("None") == "None" && b.TestName("Bench.None") == "Bench.None", "what is not there")
	want := strings.Join(x.warn, "\n")
	sym.Assert(strings.TrimLeft(string(b.WarningText()), "\n") == strings.TrimLeft(want, "\n"), "text of the warnings")
}

// Bench: p = {lines, digits of a number, names: from a table or any, number of reports}.
func Bench(p []int) {
	x := &benchExp{}
	b := data.NewBenchmarks()
	for r := 0; r < p[3]; r++ {
		sym.Assert(b.ParseBenchmarkData(strings.NewReader(x.text(p[0], p[1], p[2], p[0]*p[3] == 1))) == nil, "the output does not parse")
		x.check(b, p[2])
	}
	sym.Reach("end")
}

// Items: each item of a record has its value, its names and its place among the items.
func Items(p []int) {
	r := data.TestRecord{Runs: sym.Uint64("runs"), NanosPerOp: sym.Float64("ns"), MemBytesPerOp: sym.Uint64("bytes"), MemAllocsPerOp: sym.Uint64("allocs"),
		MbPerSec: sym.Float64("mb"), GbPerSec: sym.Float64("gb"), TbPerSec: sym.Float64("tb")}
	eq := func(a, b float64) bool { return a == b || a != a && b != b }
	for _, t := range []struct {
		i    data.BenchItems
		name string
		v    float64
	}{
		{data.Runs, "Runs", float64(r.Runs)}, {data.Nanos, "Nanos", r.NanosPerOp}, {data.MemAllocs, "MemAllocs", float64(r.MemAllocsPerOp)},
		{data.MemBytes, "MemBytes", float64(r.MemBytesPerOp)}, {data.MbPerSec, "MbPerSec", r.MbPerSec}, {data.GbPerSec, "GbPerSec", r.GbPerSec}, {data.TbPerSec, "TbPerSec", r.TbPerSec},
	} {
		sym.Assert(eq(r.ItemValue(t.i), t.v), "value of an item")
		sym.Assert(t.i.String() == t.name && t.i.IsABenchItems(), "name of an item")
		for _, s := range []string{t.name, strings.ToLower(t.name), strings.ToUpper(t.name)} {
			i, err := data.BenchItemsString(s)
			sym.Assert(err == nil && i == t.i, "item of a name")
		}
		sym.Assert(t.i.ShortName() != "" && t.i.LongName() != "", "an item without names to show")
		for _, o := range data.BenchItemsValues() {
			sym.Assert(o == t.i || o.ShortName() != t.i.ShortName() && o.LongName() != t.i.LongName(), "two items with the same name")
		}
	}
	sym.Assert(r.IsEmpty() == (r.Runs == 0), "an empty record")
	sym.Assert(len(data.BenchItemsValues()) == 7 && len(data.BenchItemsStrings()) == 7, "number of items")
	_, err := data.BenchItemsString(sym.String("other", p[0]))
	sym.Assert(err != nil, "an item of another name")
	u := sym.Uint64("item")
	sym.Assert(data.BenchItems(u).IsABenchItems() == (u < 7), "what is an item")
	sym.Reach("end")
}

// Large: many handlers and tests, whose names begin alike, in any of some orders, one line again
// with other numbers, long numbers with any last digit: p = {handlers, tests}.
func Large(p []int) {
	hs := []string{"SlogJSON", "Slog", "Handler10", "Handler2", "PhsymZerologWithALongName", "A", "AB", "ABC", "Benchmark", "X1", "X2", "X3"}[:p[0]]
	ts := []string{"BigGroup", "Big", "Test10", "Test2", "With_Attrs", "Simple", "SimpleSource", "Logging", "Attributes"}[:p[1]]
	x := &benchExp{}
	n := len(hs) * len(ts)
	step := []int{1, n - 1, 7, 11}[sym.Choose("order", 4)]
	again := []int{0, n / 2, n - 1, n}[sym.Choose("again", 4)]
	digit := string([]byte{byte(sym.Range("digit", '0', '9'))})
	var sb strings.Builder
	line := func(i, k int) {
		l := benchLine{handler: hs[i%len(hs)], test: ts[i/len(hs)%len(ts)]}
		runs := strconv.Itoa(i*1000+k) + "0000000000000" + digit
		v, _ := strconv.ParseUint(strconv.Itoa(i*1000+k)+"00000000000000", 10, 64)
		l.rec.Runs = v + uint64(digit[0]-'0')
		f := floats[(i+k)%len(floats)]
		l.rec.NanosPerOp = f.v
		l.rec.MemBytesPerOp, l.rec.MemAllocsPerOp = uint64(i)*12345678901, uint64(i)
		sb.WriteString("Benchmark" + l.handler + "/Benchmark" + l.test + []string{"-16   \t", "-128\t  ", "\t", "-1 "}[i%4] + runs + "\t  " + f.s + " ns/op")
		if i%3 == 2 {
			m := mbs[i%2]
			sb.WriteString("\t " + m.s + " MB/s")
			l.rec.MbPerSec, l.rec.GbPerSec, l.rec.TbPerSec = m.v, m.v/1_000, m.v/1_000_000
		}
		sb.WriteString("\t " + strconv.FormatUint(l.rec.MemBytesPerOp, 10) + " B/op\t" + strconv.Itoa(i) + " allocs/op\n")
		for j := range x.lines {
			if x.lines[j].handler == l.handler && x.lines[j].test == l.test {
				x.lines[j] = l
				return
			}
		}
		x.lines = append(x.lines, l)
	}
	for i := 0; i < n; i++ {
		if i*step%n == again {
			line(again, 5)
		}
		line(i*step%n, 1)
		if i == n/2 {
			sb.WriteString("# Handler[Slog]=\"some/slog\"\n")
			x.names = append(x.names, struct{ tag, name string }{"Slog", "some/slog"})
		}
	}
	if again < n {
		line(again, 7)
	}
	b := data.NewBenchmarks()
	sym.Assert(b.ParseBenchmarkData(strings.NewReader(sb.String())) == nil, "the output does not parse")
	x.check(b, 1)
	x.check(b, 1)
	sym.Reach("end")
}
