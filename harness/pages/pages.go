// Package pages drives the data behind the pages of the server from several requests at once.
package pages

import (
	"html/template"
	"io"
	"log/slog"
	"strconv"
	"strings"

	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/markdown"
	"github.com/madkins23/go-slog/internal/scoring/axis"
	"github.com/madkins23/go-slog/internal/scoring/axis/bench"
	"github.com/madkins23/go-slog/internal/scoring/score"
	"github.com/madkins23/go-slog/internal/zzverif/sym"
)

type site struct {
	b *data.Benchmarks
	w *data.Warnings
	k *score.Keeper
}

const benchText = "# Handler[PhsymZerolog]=\"phsym/zeroslog\"\n# Handler[AB]=\"a/b\"\n" +
	"BenchmarkPhsymZerolog/BenchmarkBigGroup-8 \t 100\t 10.5 ns/op\t 1.5 MB/s\t 24 B/op\t 1 allocs/op\n" +
	"BenchmarkAB/BenchmarkBigGroup-8 \t 100\t 20.5 ns/op\t 1.5 MB/s\t 24 B/op\t 2 allocs/op\n" +
	"BenchmarkAB/BenchmarkSimple-8 \t 100\t 20.5 ns/op\t 1.5 MB/s\t 24 B/op\t 2 allocs/op\n"

var warns = []*warning.Warning{warning.Required()[0], warning.Required()[1]}

func load() *site {
	s := &site{b: data.NewBenchmarks(), w: data.NewWarnings()}
	sym.Assert(s.b.ParseBenchmarkData(strings.NewReader(benchText)) == nil, "the output does not parse")
	var sb strings.Builder
	for h, n := range []string{"phsym/zeroslog", "a/b"} {
		m := warning.NewWarningManager(n, "Test", "")
		for i, w := range warns {
			if i <= h {
				m.AddWarningFnText(w, "TestTwo", "text", "")
				m.AddWarningFnText(w, "TestOne", "", "{}\n")
			}
		}
		m.ShowWarnings(&sb)
	}
	sym.Assert(s.w.ParseWarningData(strings.NewReader(sb.String()), "Verify", s.b.HandlerLookup()) == nil, "the output does not parse")
	s.k = score.NewKeeper("Default",
		axis.NewBenchmarks(map[bench.Weight]uint{bench.Allocations: 1, bench.AllocBytes: 2, bench.Nanoseconds: 3}, "summary", nil),
		axis.NewWarnings(map[warning.Level]uint{warning.LevelRequired: 8, warning.LevelImplied: 4}, "summary"), "doc", nil, nil)
	sym.Assert(s.k.Setup(s.b, s.w) == nil, "Setup fails")
	return s
}

// show does what fmt.Sprint does without its pool, which would order what requests do.
func show(xs ...any) string {
	var sb strings.Builder
	for _, x := range xs {
		switch x := x.(type) {
		case bool:
			sb.WriteString(strconv.FormatBool(x))
		case int:
			sb.WriteString(strconv.Itoa(x))
		case uint:
			sb.WriteString(strconv.Itoa(int(x)))
		case uint64:
			sb.WriteString(strconv.Itoa(int(x)))
		case float64:
			sb.WriteString(strconv.Itoa(int(x * 1000)))
		case string:
			sb.WriteString(x)
		case template.HTML:
			sb.WriteString(string(x))
		case data.HandlerTag:
			sb.WriteString(string(x))
		case data.BenchItems:
			sb.WriteString(x.String())
		default:
			panic("show")
		}
		sb.WriteByte(' ')
	}
	return sb.String()
}

const h0, h1 = data.HandlerTag("PhsymZerolog"), data.HandlerTag("AB")
const tOne, tBig = data.TestTag("Verify.One"), data.TestTag("Bench.BigGroup")

func list[T any](xs []T, f func(T) string) string {
	var sb strings.Builder
	for _, x := range xs {
		sb.WriteString(f(x) + ",")
	}
	return sb.String()
}

func hs(h data.HandlerTag) string { return string(h) }
func ts(t data.TestTag) string    { return string(t) }

func levels(l *data.Levels) string {
	return list(l.Levels(), func(d *data.DataLevel) string { return level(d) })
}

func level(d *data.DataLevel) string {
	s := d.Name() + show(d.Count()) + "("
	for _, w := range d.Warnings() {
		s += w.Name() + ":" + w.Summary() + "["
		for _, i := range w.Instances() {
			s += i.Name() + i.Extra() + i.Log() + i.Source() + i.Tag() + ";"
		}
		s += "]"
	}
	return s + ")"
}

// what pages show
var reads = []func(s *site) string{
	func(s *site) string { return h0.Name() + tOne.Name() },
	func(s *site) string { return h1.Name() + tBig.Name() + data.TestTag("").Name() },
	func(s *site) string { return list(s.b.HandlerTags(), s.b.HandlerName) },
	func(s *site) string { return list(s.b.TestTags(), s.b.TestName) },
	func(s *site) string { return string(s.b.HandlerLookup()["a/b"]) },
	func(s *site) string {
		return show(s.b.HasHandler(h0), s.b.HasTest(tBig), len(s.b.HandlerRecordsFor(tBig)), len(s.b.TestRecordsFor(h0)), s.b.HasWarningText())
	},
	func(s *site) string { return list(s.w.HandlerTags(), s.w.HandlerName) },
	func(s *site) string { return list(s.w.TestTags(), s.w.TestName) },
	func(s *site) string { return list(s.w.TestTagsForSource("Verify"), ts) },
	func(s *site) string { return levels(s.w.ForHandler(h0)) },
	func(s *site) string { return levels(s.w.ForHandler(h1)) },
	func(s *site) string { return levels(s.w.ForTest(tOne)) },
	func(s *site) string {
		return level(s.w.TestRecordsFor(h1).Level(warning.LevelRequired)) + show(s.w.ForHandler(h1).LevelCount(warning.LevelRequired))
	},
	func(s *site) string {
		d := s.w.FindWarning(warns[0].Name)
		return show(d.HasHandlers(), d.HasTests(), d.HasUsage()) + list(d.Handlers(), hs) + list(d.Tests(), ts)
	},
	func(s *site) string {
		d := s.w.FindWarning("no such")
		return show(d.HasHandlers(), d.HasTests(), d.HasUsage()) + list(d.Handlers(), hs) + list(d.Tests(), ts)
	},
	func(s *site) string {
		return show(s.w.HandlerWarningCount(h0, warns[0]), s.w.HandlerWarningCount(h0, warns[1]), s.w.HasHandler(h0), s.w.HasTest(tOne),
			s.w.HasHandlerSummary(h0), s.w.HasHandlerLinks(h1), len(s.w.HandlerLinks(h0)))
	},
	func(s *site) string {
		return list(s.k.HandlerTags(), hs) + list(s.k.TestTags(), ts) + string(s.k.Tag()) + string(s.k.ChartTitle())
	},
	func(s *site) string {
		return scores(s.k.X(), h1, tBig) + scores(s.k.X(), h0, "Bench.Simple") + show(s.k.X().HasTest(tBig))
	},
	func(s *site) string {
		w := s.k.Y().(*axis.Warnings)
		return scores(w, h1, tOne) + scores(w, h0, tBig) + show(int(w.ScoreForLevel(h0, warning.LevelRequired)), int(w.ScoreForLevel(h1, warning.LevelAdmin)), int(w.CountForLevel(h0, warning.LevelRequired)))
	},
	func(s *site) string {
		return string(s.k.X().Name()+s.k.Y().Name()) + string(s.k.X().Summary()+s.k.Y().Summary()) + show(len(s.k.X().Exhibits()), len(s.k.Y().Exhibits()))
	},
	func(s *site) string {
		return list(score.Keepers(), func(t score.KeeperTag) string { return string(t) }) + show(score.GetKeeper("b") != nil, score.GetKeeper("c") != nil)
	},
	func(s *site) string {
		w := warning.ByName(warns[0].Name)
		return w.Summary + list(warning.Required(), func(w *warning.Warning) string { return w.Name })
	},
	func(s *site) string {
		r := ""
		for _, d := range s.w.ForHandler(h0).Levels() {
			for _, w := range d.Warnings() {
				r += show(w.HasDescription(), w.Description())
			}
		}
		return r
	},
	func(s *site) string { return string(s.k.Overview()) },
	func(s *site) string {
		return s.b.HandlerName("none") + s.b.TestName("none") + show(s.b.HasHandler("none"), s.b.HasTest("none"), len(s.b.HandlerRecordsFor("none")), len(s.b.TestRecordsFor("none")), s.b.HandlerLookup()["none"], string(s.b.WarningText()))
	},
	func(s *site) string {
		return s.w.HandlerName("none") + s.w.TestName("none") + show(s.w.HasHandler("none"), s.w.HasTest("none"), s.w.ForHandler("none") == nil, s.w.ForTest("none") == nil, s.w.TestRecordsFor("none") == nil, s.w.HasHandlerLinks("none"), s.w.HasHandlerSummary("none"), s.w.HandlerSummaryHTML("none"))
	},
	func(s *site) string { return data.HandlerTag("none").Name() + data.TestTag("none").Name() },
	func(s *site) string {
		r := ""
		for _, l := range warning.LevelOrder {
			r += l.String() + string(l.Summary()) + show(len(l.Warnings()))
		}
		return r + show(warning.ByName("none") == nil, s.w.ForHandler(h0).Level(warning.LevelAdmin) == nil, s.w.ForHandler(h0).LevelCount(warning.LevelImplied))
	},
	func(s *site) string {
		r := s.b.ByHandler[h0][tBig]
		return show(r.IsEmpty(), r.ItemValue(data.MemBytes), r.ItemValue(data.Runs), data.Nanos.ShortName(), data.Nanos.LongName(), data.MemAllocs)
	},
	func(s *site) string { return string(s.w.HandlerSummaryHTML(h0)) },
	func(s *site) string { return string(markdown.TemplateHTML("# A\n\n* ^b^\n", true)) },
}

func scores(a score.Axis, h data.HandlerTag, t data.TestTag) string {
	f := func(v score.Value) string { return show(int(v*1000), v != v) }
	return f(a.ScoreFor(h)) + f(a.ScoreForTest(h, t)) + f(a.ScoreForType(h, score.ByData)) + f(a.ScoreForType(h, score.ByTest))
}

// Requests: what requests at the same time get is what each gets on its own:
// p = {preemptions, first of what the first may ask, number of it, things each asks, requests}.
func Requests(p []int) {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	for _, t := range []score.KeeperTag{"b", "+a", "a"} {
		if score.GetKeeper(t) == nil {
			sym.Assert(score.AddKeeper(score.NewKeeper(t, nil, nil, "doc", nil, nil)) == nil, "AddKeeper")
		}
	}
	s := load()
	var ask [][]int
	var got [][]string
	var fs []func()
	for i := 0; i < p[4]; i++ {
		var a []int
		for k := 0; k < p[3]; k++ {
			from, n := p[1], p[2]
			if i > 0 || k > 0 {
				n = len(reads) - from
			}
			a = append(a, from+sym.Choose("ask", n))
		}
		ask, got = append(ask, a), append(got, make([]string, len(a)))
		fs = append(fs, func() {
			for k, x := range ask[i] {
				got[i][k] = reads[x](s)
			}
		})
	}
	sym.Together(p[0], fs...)
	alone := load()
	for i := range ask {
		for k, x := range ask[i] {
			sym.Assert(got[i][k] == reads[x](alone), "a request shows something else")
		}
	}
	sym.Reach("end")
}

var texts = []string{"# A\n\n* ^b^\n", "# A\n\ntext\n\n## A\n", "text ^b^ `c`", "A | B\n--|--\nc | d\n\n# A\n", "", "[A](http://a)\n\n    code\n"}

// Markdown: what a text becomes does not depend on what else is rendered: p = {texts}.
func Markdown(p []int) {
	seen := map[string]string{}
	for i := 0; i < p[0]; i++ {
		t := texts[sym.Choose("text", len(texts))]
		carets := sym.Choose("carets", 2) == 1
		got := string(markdown.TemplateHTML(t, carets))
		if was, ok := seen[t+strconv.FormatBool(carets)]; ok {
			sym.Assert(got == was, "a text is rendered another way after other texts")
		}
		seen[t+strconv.FormatBool(carets)] = got
		sym.Assert(strings.Contains(got, "<code>b</code>") == (carets && strings.Contains(t, "^b^")), "fixed-width text")
	}
	sym.Reach("end")
}
