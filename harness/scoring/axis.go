// Package scoring drives the calculation of scores.
package scoring

import (
	"html/template"
	"io"
	"log/slog"
	"strconv"
	"strings"

	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/scoring/axis"
	"github.com/madkins23/go-slog/internal/scoring/axis/bench"
	"github.com/madkins23/go-slog/internal/scoring/exhibit"
	"github.com/madkins23/go-slog/internal/scoring/score"
	"github.com/madkins23/go-slog/internal/zzverif/sym"
)

// tol is how far a score may be from what the documentation says (rounding); the inputs the solver
// finds are rounded to doubles for the native run, which therefore has half of it.
func tol() float64 {
	if sym.Native() {
		return 5e-7
	}
	return 1e-6
}

func near(a score.Value, b float64, msg string) {
	d := float64(a) - b
	sym.Assert(d <= tol(), msg+" is too high")
	sym.Assert(d >= -tol(), msg+" is too low")
}

type numbers struct {
	ok            bool
	nanos         float64
	bytes, allocs uint64
}

// weights used by the scorekeepers of the server and some others
var weights = []map[bench.Weight]uint{
	{bench.Allocations: 1, bench.AllocBytes: 2, bench.Nanoseconds: 3},
	{bench.Allocations: 1, bench.Nanoseconds: 2},
	{bench.Nanoseconds: 7},
	{bench.AllocBytes: 5, bench.Nanoseconds: 1},
}

var items = []bench.Weight{bench.Nanoseconds, bench.AllocBytes, bench.Allocations}

func (n numbers) item(i int) float64 {
	return []float64{n.nanos, float64(n.bytes), float64(n.allocs)}[i]
}

var hTags = []data.HandlerTag{"ChanchalZap", "SlogJSON", "Phsym", "Logrus", "Five", "Six", "Seven", "Eight", "Nine", "Ten", "Eleven", "Twelve"}
var tTags = []data.TestTag{"Simple", "BigGroup", "Other", "Logging", "Fifth", "Sixth", "Seventh", "Eighth"}

func testTag(t int) data.TestTag { return "Bench" + data.TagSeparator + tTags[t] }

// Numbers, Load, Judge and JudgeWarnings are for other harnesses.
type Numbers = numbers

// Num makes numbers of a benchmark that ran, or did not.
func Num(ok bool, nanos float64, bytes, allocs uint64) Numbers {
	return numbers{ok, nanos, bytes, allocs}
}

// Load parses a report with these numbers of handlers with these names.
func Load(nums [][]Numbers, names []string) *data.Benchmarks {
	var sb strings.Builder
	for h, n := range names {
		sb.WriteString("# Handler[" + string(hTags[h]) + "]=\"" + n + "\"\n")
	}
	return loadAfter(&sb, nums)
}

// Tag is the tag of a handler, TestTag that of a test.
func Tag(h int) data.HandlerTag  { return hTags[h] }
func TestTag(t int) data.TestTag { return testTag(t) }

// Judge compares the scores of an axis with those documented.
func Judge(a score.Axis, nums [][]Numbers, used []bool, weight map[bench.Weight]uint) {
	judge(a, nums, used, weight)
}

// load parses a report with these numbers and puts the symbolic ones in.
func load(nums [][]numbers) *data.Benchmarks { return loadAfter(&strings.Builder{}, nums) }

func loadAfter(sb *strings.Builder, nums [][]numbers) *data.Benchmarks {
	for h := range nums {
		for t, n := range nums[h] {
			if n.ok {
				sb.WriteString("Benchmark" + string(hTags[h]) + "/Benchmark" + string(tTags[t]) + "-8 \t 100\t 10.5 ns/op\t 1.5 MB/s\t " +
					strconv.Itoa(int(n.bytes)) + " B/op\t " + strconv.Itoa(int(n.allocs)) + " allocs/op\n")
			}
		}
	}
	b := data.NewBenchmarks()
	sym.Assert(b.ParseBenchmarkData(strings.NewReader(sb.String())) == nil, "the output does not parse")
	for h := range nums {
		for t, n := range nums[h] {
			if n.ok {
				tt := testTag(t)
				r := b.ByHandler[hTags[h]][tt]
				r.NanosPerOp = n.nanos
				b.ByHandler[hTags[h]][tt] = r
				b.HandlerRecordsFor(tt)[hTags[h]] = r
			}
		}
	}
	return b
}

// Bench: the scores of handlers are the weighted averages of their place between the best and the
// worst: p = {handlers, tests, where symbolic times are, kind of choices, weights}.
func Bench(p []int) {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	nums := make([][]numbers, p[0])
	for h := range nums {
		nums[h] = make([]numbers, p[1])
		for t := range nums[h] {
			n := numbers{ok: true, nanos: float64(100 + (h*37+t*11)%50), bytes: uint64(24 * ((h + t) % 3)), allocs: uint64(h * t % 2)}
			if t == 0 {
				switch p[2] {
				case 0: // any times in the first test
					n.nanos = sym.Real("nanos")
					sym.Assume(n.nanos >= 0.001)
					sym.Assume(n.nanos <= 1e9)
				case 1: // any allocations
					n.bytes, n.allocs = []uint64{0, 24, 1000}[sym.Choose("bytes", 3)], []uint64{0, 1, 7}[sym.Choose("allocs", 2)]
				case 2: // tests that were not run
					n.ok = h == 0 && p[1] == 1 || sym.Choose("ran", 2) == 1
				case 3: // equal numbers
					n.nanos = []float64{50, 75}[sym.Choose("nanos", 2)]
					n.bytes, n.allocs = []uint64{0, 24}[sym.Choose("bytes", 2)], 1
				}
			}
			if p[2] == 4 && t > 0 {
				// a test that only one handler ran
				n.ok = t != 1 || h == 0
			}
			if p[2] == 5 {
				// nothing was allocated
				n.bytes, n.allocs = 0, 0
			}
			if p[2] == 6 && h == t || p[2] == 7 && h == 0 && t == 1 {
				n.nanos = sym.Real("nanos")
				sym.Assume(n.nanos >= 0.001)
				sym.Assume(n.nanos <= 1e9)
			}
			nums[h][t] = n
		}
	}
	b := load(nums)
	var opts *axis.BenchOptions
	used := make([]bool, p[1])
	for t := range used {
		used[t] = true
	}
	if p[3] > 0 {
		opts = &axis.BenchOptions{}
		if p[3]&1 != 0 {
			opts.Name = sym.String("name", 1)
			inc := sym.Choose("include", 3)
			for t := range used {
				used[t] = inc == 0 || inc == 1 && t == 0 || inc == 2 && t != 0
				if inc > 0 && used[t] {
					opts.IncludeTests = append(opts.IncludeTests, testTag(t))
				}
			}
			if inc == 2 {
				opts.IncludeTests = append(opts.IncludeTests, "Bench.Unknown")
			}
		}
		if p[3]&2 != 0 {
			ex := sym.Choose("exclude", p[1]+2)
			if ex < p[1] {
				used[ex] = false
				opts.ExcludeTests = []data.TestTag{testTag(ex)}
			} else if ex > p[1] {
				// all but the first
				opts.ExcludeTests = []data.TestTag{"Bench.Unknown"}
				for t := 1; t < p[1]; t++ {
					used[t] = false
					opts.ExcludeTests = append(opts.ExcludeTests, testTag(t))
				}
			}
		}
	}
	weight := weights[p[4]]
	a := axis.NewBenchmarks(weight, "summary", opts)
	sym.Assert(a.Setup(b, nil) == nil, "Setup fails")
	judge(a, nums, used, weight)
	for again := 0; again < 2; again++ {
		ex := a.Exhibits()
		rows := ex[0].(*exhibit.Table).Rows()
		n := 0
		for _, it := range items {
			if w, ok := weight[it]; ok {
				sym.Assert(n < len(rows) && len(rows[n]) == 2 && rows[n][0] == string(it) && rows[n][1] == strconv.Itoa(int(w)), "table of weights")
				n++
			}
		}
		sym.Assert(len(rows) == n, "table of weights")
		n = 1
		if opts != nil && opts.IncludeTests != nil {
			lists(ex, n, "Included", opts.IncludeTests)
			n++
		}
		if opts != nil && opts.ExcludeTests != nil {
			lists(ex, n, "Excluded", opts.ExcludeTests)
			n++
		}
		sym.Assert(len(ex) == n, "number of exhibits")
	}
	sym.Assert(a.Summary() == "summary", "summary")
	if opts != nil && opts.Name != "" {
		sym.Assert(a.Name() == opts.Name, "name")
	} else {
		sym.Assert(a.Name() == "Benchmarks", "name")
	}
	sym.Reach("end")
}

// Axes: several axes over the same data, with other weights and other tests, do not influence each
// other, whichever is set up or asked first: p = {handlers, tests, 0: any time of one test, 1: one of
// three}.
func Axes(p []int) {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	nums := make([][]numbers, p[0])
	for h := range nums {
		nums[h] = make([]numbers, p[1])
		for t := range nums[h] {
			nums[h][t] = numbers{ok: (h+t)%5 != 4, nanos: float64(100 + (h*37+t*11)%50), bytes: uint64(24 * ((h + t) % 3)), allocs: uint64(h * t % 2)}
		}
	}
	if p[2] == 0 {
		nums[0][0].nanos = sym.Real("nanos")
		sym.Assume(nums[0][0].nanos >= 0.001)
		sym.Assume(nums[0][0].nanos <= 1e9)
	} else {
		nums[0][0].nanos = []float64{0.25, 120, 5e7}[sym.Choose("nanos", 3)]
	}
	b := load(nums)
	var as [3]score.Axis
	var used [3][]bool
	for i := range as {
		used[i] = make([]bool, p[1])
		opts := []*axis.BenchOptions{nil, {Name: "in"}, {Name: "out"}}[i]
		for t := range used[i] {
			used[i][t] = i == 0 || (t%2 == 0) == (i == 1)
			if i == 1 && used[i][t] {
				opts.IncludeTests = append(opts.IncludeTests, testTag(t))
			} else if i == 2 && !used[i][t] {
				opts.ExcludeTests = append(opts.ExcludeTests, testTag(t))
			}
		}
		as[i] = axis.NewBenchmarks(weights[i], template.HTML("axis "+strconv.Itoa(i)), opts)
	}
	first := sym.Choose("first", 3)
	for k := range as {
		i := (k + first) % 3
		sym.Assert(as[i].Setup(b, nil) == nil, "Setup fails")
		if k == 0 {
			judge(as[i], nums, used[i], weights[i])
		}
	}
	for i := range as {
		judge(as[i], nums, used[i], weights[i])
		sym.Assert(as[i].Name() == []string{"Benchmarks", "in", "out"}[i] && as[i].Summary() == template.HTML("axis "+strconv.Itoa(i)), "name and summary")
	}
	sym.Reach("end")
}

func lists(ex []score.Exhibit, n int, caption string, tags []data.TestTag) {
	sym.Assert(n < len(ex), "an exhibit is not there")
	l, ok := ex[n].(*exhibit.List)
	sym.Assert(ok && string(l.Caption()) == caption && l.HasCaption() && len(l.Items()) == len(tags), "list of tests")
	for i, t := range tags {
		sym.Assert(l.Items()[i] == t.Name(), "list of tests")
	}
}

func judge(a score.Axis, nums [][]numbers, used []bool, weight map[bench.Weight]uint) {
	tests := len(used)
	// best and worst of each test and item
	low, high := make([][3]float64, tests), make([][3]float64, tests)
	for t := range used {
		for i := range items {
			first := true
			for h := range nums {
				if n := nums[h][t]; n.ok {
					v := n.item(i)
					if first || v < low[t][i] {
						low[t][i] = v
					}
					if first || v > high[t][i] {
						high[t][i] = v
					}
					first = false
				}
			}
		}
	}
	for h := range nums {
		var byTest, testCount float64
		var sub, subCount [3]float64
		for t := range used {
			n := nums[h][t]
			if !n.ok || !used[t] {
				continue
			}
			var sum, w float64
			for i, it := range items {
				if high[t][i] > low[t][i] {
					v := 100 * (high[t][i] - n.item(i)) / (high[t][i] - low[t][i])
					sum += float64(weight[it]) * v
					w += float64(weight[it])
					sub[i] += v
					subCount[i]++
				}
			}
			if w > 0 {
				got := a.ScoreForTest(hTags[h], testTag(t))
				near(got, sum/w, "score for a test")
				bounds(got)
				byTest += sum / w
				testCount++
			}
		}
		if testCount > 0 {
			byTest /= testCount
			near(a.ScoreForType(hTags[h], score.ByTest), byTest, "score by test")
			near(a.ScoreForType(hTags[h], score.Original), byTest, "original score")
		}
		var byData, w float64
		for i, it := range items {
			if subCount[i] > 0 {
				byData += float64(weight[it]) * (sub[i] / subCount[i])
				w += float64(weight[it])
			}
		}
		if w > 0 && testCount > 0 {
			byData /= w
			near(a.ScoreForType(hTags[h], score.ByData), byData, "score by data")
			near(a.ScoreForType(hTags[h], score.Default), (byData+byTest)/2, "default score")
			got := a.ScoreFor(hTags[h])
			near(got, (byData+byTest)/2, "score")
			bounds(got)
		}
	}
	for t := range used {
		any := false
		for h := range nums {
			var w float64
			for i, it := range items {
				if nums[h][t].ok && high[t][i] > low[t][i] {
					w += float64(weight[it])
				}
			}
			any = any || w > 0
		}
		sym.Assert(a.HasTest(testTag(t)) == (used[t] && any), "tests of the axis")
	}
	sym.Assert(!a.HasTest("Bench.Unknown"), "a test nobody ran")
}

func bounds(v score.Value) {
	sym.Assert(float64(v) >= -tol(), "a score below 0")
	sym.Assert(float64(v) <= 100+tol(), "a score above 100")
}
