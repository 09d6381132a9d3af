// Package charts asks for the charts of the server.
package charts

import (
	"html/template"
	"io"
	"log"
	"log/slog"
	"math"
	"net/http"
	"strconv"
	"strings"

	"github.com/gin-gonic/gin"
	bars "github.com/vicanso/go-charts/v2"
	plots "github.com/wcharczuk/go-chart/v2"

	"github.com/madkins23/go-slog/cmd/server/chart"
	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/scoring/score"
	"github.com/madkins23/go-slog/internal/zzverif/sym"
)

// picture is what a library was asked to draw.
type picture struct {
	bar  *bars.ChartOption
	plot *plots.Chart
}

var pictures []picture

// setup makes both libraries keep what they are asked to draw. What they return names it.
func setup() {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	log.SetOutput(io.Discard)
	gin.SetMode(gin.ReleaseMode)
	pictures, scattered = nil, 0
	chart.Cache = map[string][]byte{}
	bars.Shown = func(o bars.ChartOption) (*bars.Painter, error) {
		pictures = append(pictures, picture{bar: &o})
		return bars.Recorded([]byte("picture " + strconv.Itoa(len(pictures)-1))), nil
	}
	plots.OnRender = func(c plots.Chart, w io.Writer) error {
		pictures = append(pictures, picture{plot: &c})
		_, err := w.Write([]byte("picture " + strconv.Itoa(len(pictures)-1)))
		return err
	}
}

type response struct {
	code   int
	header http.Header
	body   []byte
}

func (r *response) Header() http.Header { return r.header }
func (r *response) WriteHeader(c int)   { r.code = c }
func (r *response) Write(b []byte) (int, error) {
	r.body = append(r.body, b...)
	return len(b), nil
}

// dump writes what a library was asked to draw, so that drawings can be compared.
func dump(bar *bars.ChartOption, plot *plots.Chart) []byte {
	var sb strings.Builder
	num := func(x float64) { sb.WriteString(strconv.FormatFloat(x, 'f', 3, 64) + ",") }
	if bar != nil {
		sb.WriteString("bar " + bar.Title.Text + ":" + strings.Join(bar.YAxisOptions[0].Data, ",") + ":")
		for _, v := range bar.SeriesList[0].Data {
			num(v.Value)
		}
		return []byte(sb.String())
	}
	sb.WriteString("plot " + plot.XAxis.Name + "," + plot.YAxis.Name + ":")
	for _, s := range plot.Series {
		switch s := s.(type) {
		case plots.ContinuousSeries:
			for i := range s.XValues {
				num(s.XValues[i])
				num(s.YValues[i])
			}
		case plots.AnnotationSeries:
			for _, a := range s.Annotations {
				sb.WriteString(a.Label)
				num(a.XValue)
				num(a.YValue)
			}
		}
		sb.WriteString(";")
	}
	return []byte(sb.String())
}

// ask has f answer a request with these parameters.
func ask(f func(c *gin.Context), params ...string) *response {
	r := &response{code: 200, header: http.Header{}}
	c, _ := gin.CreateTestContext(r)
	for i := 0; i < len(params); i += 2 {
		c.Params = append(c.Params, gin.Param{Key: params[i], Value: params[i+1]})
	}
	f(c)
	return r
}

// shown is the picture a response shows, nil when it shows none.
func shown(r *response) *picture {
	s := string(r.body)
	if !strings.HasPrefix(s, "picture ") {
		return nil
	}
	i, err := strconv.Atoi(s[len("picture "):])
	sym.Assert(err == nil && i < len(pictures), "the response is not what was drawn")
	sym.Assert(r.code == 200, "another status with a chart")
	sym.Assert(len(r.header["Content-Type"]) == 1 && strings.HasPrefix(r.header["Content-Type"][0], "image/svg+xml"), "another content type")
	return &pictures[i]
}

var hTags = []string{"Big", "CD", "EF", "GH", "IJ", "KL", "MN", "OP", "QR", "ST"}
var tTags = []string{"Big", "Other", "Simple", "Three", "Too", "Ufo", "Vast", "With"}
var items = []string{"Runs", "Nanos", "MemAllocs", "MemBytes", "MbPerSec", "GbPerSec", "TbPerSec"}

type numbers struct {
	there bool
	vals  [7]float64
}

// bench makes the data of handlers and tests, of which any may not have been run.
func bench(nh, nt int, swap bool) (*data.Benchmarks, [][]numbers) {
	var sb strings.Builder
	sb.WriteString("# Handler[CD]=\"c/d\"\n# Handler[Big]=\"x/y\"\n")
	ns := make([][]numbers, nh)
	var lines []string
	for h := range ns {
		ns[h] = make([]numbers, nt)
		for t := range ns[h] {
			if nh*nt > 6 {
				// many: some were not run
				if (h*3+t)%5 == 4 {
					continue
				}
			} else if sym.Choose("ran", 2) == 0 && h+t > 0 {
				continue
			}
			n := &ns[h][t]
			n.there = true
			mb := 1.5 + float64(t)
			n.vals = [7]float64{float64(100 + h*10 + t), 10.5 + float64(h*7+t), float64(2 * h), float64(24 * t), mb, mb / 1e3, mb / 1e6}
			lines = append(lines, "Benchmark"+hTags[h]+"/Benchmark"+tTags[t]+"-8 \t "+strconv.Itoa(100+h*10+t)+"\t "+
				strconv.FormatFloat(n.vals[1], 'f', 1, 64)+" ns/op\t "+strconv.FormatFloat(n.vals[4], 'f', 1, 64)+" MB/s\t "+
				strconv.Itoa(24*t)+" B/op\t "+strconv.Itoa(2*h)+" allocs/op\n")
		}
	}
	if swap {
		for i, j := 0, len(lines)-1; i < j; i, j = i+1, j-1 {
			lines[i], lines[j] = lines[j], lines[i]
		}
	}
	b := data.NewBenchmarks()
	sym.Assert(b.ParseBenchmarkData(strings.NewReader(sb.String()+strings.Join(lines, ""))) == nil, "the output does not parse")
	// any time for one of them
	if ns[0][0].there {
		x := sym.Real("nanos")
		sym.Assume(x >= 0.001 && x <= 1e9)
		ns[0][0].vals[1] = x
		tt := data.TestTag("Bench" + data.TagSeparator + tTags[0])
		r := b.ByHandler[data.HandlerTag(hTags[0])][tt]
		r.NanosPerOp = x
		b.ByHandler[data.HandlerTag(hTags[0])][tt] = r
		b.HandlerRecordsFor(tt)[data.HandlerTag(hTags[0])] = r
	}
	return b, ns
}

func close(a, b float64) bool { return a-b <= 1e-9 && b-a <= 1e-9 }

// Bar asks for charts of benchmarks: p = {handlers, tests, requests}.
func Bar(p []int) {
	setup()
	b, ns := bench(p[0], p[1], sym.Choose("order", 2) == 1)
	names := map[string]string{"Big": "x/y", "CD": "c/d"}
	for i := 0; i < p[2]; i++ {
		item := sym.Choose("item", 8)
		it := "Bad"
		if item < 7 {
			it = items[item]
		}
		param := it
		if sym.Choose("suffix", 2) == 1 {
			param += ".svg"
		}
		which := sym.Choose("tag", p[0]+p[1]+1)
		tag := "Nothing"
		var labels []string
		var values []float64
		switch {
		case which < p[0]:
			tag = hTags[which]
			for t, n := range ns[which] {
				if n.there {
					labels = append(labels, b.TestName(data.TestTag("Bench"+data.TagSeparator+tTags[t])))
					sym.Assert(strings.Contains(labels[len(labels)-1], tTags[t]), "another name of a test")
					values = append(values, n.vals[item%7])
				}
			}
		case which < p[0]+p[1]:
			t := which - p[0]
			tag = "Bench" + data.TagSeparator + tTags[t]
			// in the order of their names
			for _, h := range []int{2, 3, 4, 5, 6, 7, 8, 9, 1, 0} {
				if h < len(ns) && ns[h][t].there {
					name, found := names[hTags[h]]
					if !found {
						name = b.HandlerName(data.HandlerTag(hTags[h]))
					}
					labels = append(labels, name)
					values = append(values, ns[h][t].vals[item%7])
				}
			}
		}
		r := ask(func(c *gin.Context) { chart.Bar(c, b) }, "tag", tag, "item", param)
		pic := shown(r)
		if item == 7 || len(labels) == 0 {
			sym.Assert(pic == nil, "a chart of nothing")
			continue
		}
		sym.Assert(pic != nil && pic.bar != nil, "no chart")
		o := pic.bar
		sym.Assert(o.Title.Text == data.BenchItems(item).LongName(), "another title")
		sym.Assert(len(o.YAxisOptions) == 1 && len(o.SeriesList) == 1, "more than one series")
		ls, vs := o.YAxisOptions[0].Data, o.SeriesList[0].Data
		sym.Assert(o.SeriesList[0].Type == bars.ChartTypeHorizontalBar, "another kind of chart")
		sym.Assert(len(ls) == len(labels), "another number of labels")
		sym.Assert(len(vs) == len(values), "another number of bars")
		for i := range labels {
			k := len(labels) - 1 - i // the last one is at the top
			sym.Assert(ls[k] == labels[i], "labels are missing or in another order")
			sym.Assert(close(vs[k].Value, values[i]), "a bar of another value")
		}
	}
	sym.Reach("end")
}

type axis struct {
	name   string
	scores map[data.HandlerTag]score.Value
}

func (a *axis) Setup(*data.Benchmarks, *data.Warnings) error               { return nil }
func (a *axis) Name() string                                               { return a.name }
func (a *axis) HasTest(data.TestTag) bool                                  { return true }
func (a *axis) ScoreFor(h data.HandlerTag) score.Value                     { return a.scores[h] }
func (a *axis) ScoreForTest(h data.HandlerTag, _ data.TestTag) score.Value { return a.scores[h] }
func (a *axis) ScoreForType(h data.HandlerTag, _ score.Type) score.Value   { return a.scores[h] }
func (a *axis) Summary() template.HTML                                     { return "" }
func (a *axis) Exhibits() []score.Exhibit                                  { return nil }
func (a *axis) Documentation() template.HTML                               { return "" }

type pointXY struct {
	tag  data.HandlerTag
	name string
	x, y float64
}

var lows = []float64{0, 25, 50, 75}
var sizeNames = []string{"Full Size", "3/4", "Half", "Quarter"}
var labelHeights = []float64{4.5, 3.15, 2.25, 1.8}

var scattered int

// value is a score of one of some kinds: any, at a bound, the same for all, or scattered.
func value(kind int, name string) float64 {
	switch kind {
	case 1:
		return []float64{0, 25, 50, 75, 100, 60}[sym.Choose(name, 6)]
	case 2:
		return 80
	case 3:
		scattered++
		return float64((scattered*37 + scattered*scattered*11) % 101)
	}
	x := sym.Real(name)
	sym.Assume(x >= 0 && x <= 100)
	sym.Assume(x == 0 || x > 0.001)
	return x
}

// keeper makes a keeper of n handlers under tag, whose scores are of these kinds.
func keeper(b *data.Benchmarks, w *data.Warnings, tag string, n, kx, ky int) (*score.Keeper, []pointXY) {
	x, y := &axis{"Eks", map[data.HandlerTag]score.Value{}}, &axis{"Why", map[data.HandlerTag]score.Value{}}
	var ps []pointXY
	for h := 0; h < n; h++ {
		t := data.HandlerTag(hTags[h])
		q := pointXY{tag: t, name: w.HandlerName(t), x: value(kx, "x"), y: value(ky, "y")}
		x.scores[t], y.scores[t] = score.Value(q.x), score.Value(q.y)
		ps = append(ps, q)
	}
	if k := score.GetKeeper(score.KeeperTag(tag)); k != nil { // the native build repeats this
		return k, ps
	}
	k := score.NewKeeper(score.KeeperTag(tag), x, y, "", nil, nil)
	sym.Assert(k.Setup(b, w) == nil && score.AddKeeper(k) == nil, "the keeper is not set up")
	return k, ps
}

// all has data of n handlers and one test, and their warnings.
func all(n int) (*data.Benchmarks, *data.Warnings) {
	var sb, wb strings.Builder
	for h := n - 1; h >= 0; h-- {
		sb.WriteString("# Handler[" + hTags[h] + "]=\"" + strings.ToLower(hTags[h]) + "\"\n")
		sb.WriteString("Benchmark" + hTags[h] + "/BenchmarkSimple-8 \t 100\t 10.5 ns/op\t 1.5 MB/s\t 24 B/op\t 1 allocs/op\n")
		m := warning.NewWarningManager(strings.ToLower(hTags[h]), "Test", "")
		m.AddWarningFnText(warning.Required()[0], "TestOne", "", "")
		m.ShowWarnings(&wb)
	}
	b, w := data.NewBenchmarks(), data.NewWarnings()
	sym.Assert(b.ParseBenchmarkData(strings.NewReader(sb.String())) == nil, "the output does not parse")
	sym.Assert(w.ParseWarningData(strings.NewReader(wb.String()), "Verify", b.HandlerLookup()) == nil, "the output does not parse")
	return b, w
}

// look says whether c shows these scores at this size.
func look(c *plots.Chart, ps []pointXY, size int) {
	low := lows[size]
	sym.Assert(c.XAxis.Name == "Eks" && c.YAxis.Name == "Why", "another name of an axis")
	ticks(c.XAxis.Ticks, low)
	ticks(c.YAxis.Ticks, low)
	var in []pointXY
	for _, q := range ps {
		if q.x >= low && q.y >= low && q.y > 0.00001 {
			in = append(in, q)
		}
	}
	type line struct{ xs, ys []float64 }
	var lines []line
	dots, shownDots := 0, false
	var notes []plots.Value2
	for _, s := range c.Series {
		switch s := s.(type) {
		case plots.ContinuousSeries:
			if s.Style.DotWidth > 0 {
				sym.Assert(!shownDots, "dots are shown twice")
				shownDots = true
				dots = len(s.XValues)
				sym.Assert(dots == len(s.YValues), "dots lack a coordinate")
				sym.Assert(dots == len(in), "another number of dots")
				for _, q := range in {
					found := 0
					for i := range s.XValues {
						if close(s.XValues[i], q.x) && close(s.YValues[i], q.y) {
							found++
						}
					}
					sym.Assert(found > 0, "a handler has no dot at its scores")
				}
			} else {
				sym.Assert(len(s.XValues) == len(s.YValues), "a line lacks a coordinate")
				lines = append(lines, line{s.XValues, s.YValues})
			}
		case plots.AnnotationSeries:
			notes = append(notes, s.Annotations...)
		default:
			sym.Fail("another kind of series")
		}
	}
	sym.Assert(shownDots, "there are no dots")
	find := func(name string) *plots.Value2 {
		var r *plots.Value2
		for i := range notes {
			if notes[i].Label == name {
				sym.Assert(r == nil, "a label is there twice")
				r = &notes[i]
			}
		}
		return r
	}
	sizesShown := 0
	for s := 1; s < len(lows); s++ {
		n := find(sizeNames[s])
		sym.Assert((n != nil) == (lows[s] > low), "the marks of the other sizes are wrong")
		if n == nil {
			continue
		}
		sizesShown++
		sym.Assert(n.YValue == lows[s], "the mark of a size is elsewhere")
		box := 0
		for _, l := range lines {
			if len(l.xs) == 3 && l.xs[0] == lows[s] && l.ys[0] == 100 && l.xs[1] == lows[s] && l.ys[1] == lows[s] && l.xs[2] == 100 && l.ys[2] == lows[s] {
				box++
			}
		}
		sym.Assert(box == 1, "the border of a size is elsewhere")
	}
	sym.Assert(len(notes) == sizesShown+len(in), "another number of labels")
	for _, q := range in {
		n := find(q.name)
		sym.Assert(n != nil, "a handler has no label")
		joined := false
		for _, l := range lines {
			if len(l.xs) == 2 && close(l.xs[0], q.x) && close(l.ys[0], q.y) && close(l.xs[1], n.XValue) && close(l.ys[1], n.YValue) {
				joined = true
			}
		}
		sym.Assert(joined, "a handler is not joined with its label")
		for _, r := range in {
			m := find(r.name)
			if r.tag != q.tag && m != nil {
				d := n.YValue - m.YValue
				sym.Assert(d >= labelHeights[size] || -d >= labelHeights[size], "labels overlap")
				if q.y > r.y {
					sym.Assert(d > 0, "labels are not in the order of the handlers")
				}
			}
		}
		sym.Assert(n.YValue <= 100.000001, "a label is above the chart")
	}
}

func ticks(ts []plots.Tick, low float64) {
	sym.Assert(len(ts) > 1 && ts[0].Value == low && ts[len(ts)-1].Value == 100, "the ticks do not span the chart")
	for i, t := range ts {
		if i > 0 {
			sym.Assert(t.Value > ts[i-1].Value, "ticks are not in order")
		}
		sym.Assert(t.Label == strconv.Itoa(int(t.Value)), "a tick has another label")
	}
}

// Score asks for charts of scores: p = {handlers, kind of x, kind of y, requests}.
func Score(p []int) {
	setup()
	b, w := all(p[0])
	k1, ps1 := keeper(b, w, "One", p[0], p[1], p[2])
	_, ps2 := keeper(b, w, "Two", p[0]-1, 2, 2)
	_ = k1
	for i := 0; i < p[3]; i++ {
		s := sym.Choose("size", 8)
		text := []string{"0", "1", "2", "3", "4", "-1", "", "x"}[s]
		size := []int{0, 1, 2, 3, 3, 0, 0, 0}[s]
		which := sym.Choose("keeper", 3)
		r := ask(func(c *gin.Context) { chart.Score(c, w) }, "keeper", []string{"One", "Two", "Three"}[which], "size", text)
		pic := shown(r)
		if which == 2 {
			sym.Assert(pic == nil, "a chart of nothing")
			continue
		}
		sym.Assert(pic != nil && pic.plot != nil, "no chart")
		ps := ps1
		if which == 1 {
			ps = ps2
			if p[0] > 1 {
				// the handler without scores in this keeper
				ps = append(append([]pointXY{}, ps...), pointXY{tag: data.HandlerTag(hTags[p[0]-1])})
			}
		}
		look(pic.plot, ps, size)
	}
	sym.Reach("end")
}

// Smallest: the smallest size that has all handlers.
func Smallest(p []int) {
	setup()
	b, w := all(p[0])
	k, ps := keeper(b, w, "One", p[0], p[1], p[2])
	want := 0
	for s := range lows {
		fits := true
		for _, q := range ps {
			fits = fits && q.x >= lows[s] && q.y >= lows[s]
		}
		if fits {
			want = s
		}
	}
	sym.Assert(int(chart.SmallestChartSize(k)) == want, "another size is said to be the smallest that has all handlers")
	sym.Reach("end")
}

// Colors: dots are red at the worst scores, green at the best.
func Colors(p []int) {
	setup()
	b, w := all(2)
	keeper(b, w, "One", 2, 2, 2)
	r := ask(func(c *gin.Context) { chart.Score(c, w) }, "keeper", "One", "size", strconv.Itoa(p[0]))
	pic := shown(r)
	sym.Assert(pic != nil && pic.plot != nil, "no chart")
	low := lows[p[0]]
	xr, yr := &plots.ContinuousRange{Min: low, Max: 100}, &plots.ContinuousRange{Min: low, Max: 100}
	seen := false
	for _, s := range pic.plot.Series {
		if c, ok := s.(plots.ContinuousSeries); ok && c.Style.DotColorProvider != nil {
			seen = true
			f := c.Style.DotColorProvider
			worst, best, mid := f(xr, yr, 0, low, low), f(xr, yr, 0, 100, 100), f(xr, yr, 0, (low+100)/2, (low+100)/2)
			sym.Assert(worst.R == 255 && worst.G == 0 && best.R == 0 && best.G == 255, "worst is not red or best is not green")
			sym.Assert(math.Abs(float64(mid.R)-float64(mid.G)) < 3, "the middle is not in between")
			sym.Assert(worst.A == 255 && best.A == 255 && worst.B == best.B, "a dot is transparent")
		}
	}
	sym.Assert(seen, "dots have no color")
	sym.Reach("end")
}

// Requests: charts asked for at the same time are those asked for alone: p = {preemptions, requests, charts each}.
func Requests(p []int) {
	setup()
	bars.Shown = func(o bars.ChartOption) (*bars.Painter, error) { return bars.Recorded(dump(&o, nil)), nil }
	plots.OnRender = func(c plots.Chart, w io.Writer) error {
		_, err := w.Write(dump(nil, &c))
		return err
	}
	b, w := all(2)
	if score.GetKeeper("One") == nil { // the native build repeats this
		keeper(b, w, "One", 1, 2, 2)
	}
	x, y := &axis{"Eks", map[data.HandlerTag]score.Value{}}, &axis{"Why", map[data.HandlerTag]score.Value{}}
	x.scores["Big"], y.scores["Big"], x.scores["CD"], y.scores["CD"] = 90, 80, 60, 55
	k := score.NewKeeper("Two", x, y, "", nil, nil)
	if score.GetKeeper("Two") == nil {
		sym.Assert(k.Setup(b, w) == nil && score.AddKeeper(k) == nil, "the keeper is not set up")
	}
	kinds := [][]string{
		{"tag", "Big", "item", "Nanos.svg"}, {"tag", "Big", "item", "Runs"}, {"tag", "CD", "item", "Nanos"}, {"tag", "Bench" + data.TagSeparator + "Simple", "item", "Nanos"},
		{"keeper", "One", "size", "0"}, {"keeper", "Two", "size", "0"}, {"keeper", "Two", "size", "2"}, {"tag", "none", "item", "Nanos"},
	}
	one := func(which int) string {
		r := ask(func(c *gin.Context) {
			if kinds[which][0] == "tag" {
				chart.Bar(c, b)
			} else {
				chart.Score(c, w)
			}
		}, kinds[which]...)
		return strconv.Itoa(r.code) + string(r.body)
	}
	var which [][]int
	var got [][]string
	var fs []func()
	for i := 0; i < p[1]; i++ {
		var ks []int
		for j := 0; j < p[2]; j++ {
			ks = append(ks, sym.Choose("chart", len(kinds)))
		}
		which, got = append(which, ks), append(got, make([]string, p[2]))
		fs = append(fs, func() {
			for j, k := range which[i] {
				got[i][j] = one(k)
			}
		})
	}
	sym.Together(p[0], fs...)
	for i, ks := range which {
		for j, k := range ks {
			chart.Cache = map[string][]byte{}
			sym.Assert(got[i][j] == one(k), "a request shows another chart")
		}
	}
	sym.Reach("end")
}
