// Package keepers sets up the scorekeepers of the server.
package keepers

import (
	"io"
	"log/slog"
	"strings"

	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/scoring"
	"github.com/madkins23/go-slog/internal/scoring/axis/bench"
	"github.com/madkins23/go-slog/internal/scoring/score"
	zz "github.com/madkins23/go-slog/internal/zzverif/scoring"
	"github.com/madkins23/go-slog/internal/zzverif/sym"
)

// handler: a name and the keepers with a filter that show it.
var handlers = []struct {
	name            string
	basic, dup, rep bool
}{
	{"slog/JSONHandler", true, true, false},
	{"madkins/flash", true, false, true},
	{"madkins/replattr", false, false, true},
	{"snqk/meld", false, true, false},
	{"veqryn/dedup/Append", false, true, false},
	{"veqryn/dedup/Ignore", false, true, false},
	{"veqryn/dedup/Increment", false, true, false},
	{"veqryn/dedup/Overwrite", false, true, false},
	{"veqryn/dedup/None", true, false, false},
	{"madkins/sloggy", true, false, false},
	{"phsym/zeroslog", true, false, false},
	{"slog/JSONHandle", true, false, false},
}

var (
	full   = map[bench.Weight]uint{bench.Nanoseconds: 3, bench.AllocBytes: 2, bench.Allocations: 1}
	simple = map[bench.Weight]uint{bench.Nanoseconds: 2, bench.Allocations: 1}
	levels = map[warning.Level]uint{warning.LevelRequired: 8, warning.LevelImplied: 4, warning.LevelSuggested: 2, warning.LevelAdmin: 1}
	two    = map[warning.Level]uint{warning.LevelRequired: 2, warning.LevelImplied: 1}
)

// Keepers: the scorekeepers there are, whom they show and how they weigh:
// p = {handlers, tests, 0: any names, 1: any time, 2: any warnings of the first, 3: any two times}.
func Keepers(p []int) {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	chosen := make([]int, p[0])
	names := make([]string, p[0])
	for h := range chosen {
		chosen[h] = (h * 5) % len(handlers)
		if p[2] == 0 {
			chosen[h] = sym.Choose("handler", len(handlers)+1)
			for i := 0; i < h; i++ {
				sym.Assume(chosen[i] != chosen[h])
			}
		}
		if chosen[h] == len(handlers) {
			// any other name
			names[h] = "x" + sym.Letters("name", 2)
			continue
		}
		names[h] = handlers[chosen[h]].name
	}
	nums := make([][]zz.Numbers, p[0])
	for h := range nums {
		nums[h] = make([]zz.Numbers, p[1])
		for t := range nums[h] {
			nanos := float64(100 + (h*37+t*11)%50)
			if (p[2] == 1 || p[2] == 3) && h == 0 && t == 1 || p[2] == 3 && h == 1 && t == 0 {
				nanos = sym.Real("nanos")
				sym.Assume(nanos >= 0.001)
				sym.Assume(nanos <= 1e9)
			}
			nums[h][t] = zz.Num(h != 1 || t != 2, nanos, uint64(24*((h+t)%3)), uint64(h*t%2))
		}
	}
	ws := []*warning.Warning{warning.Required()[0], warning.Implied()[0], warning.Required()[1], warning.Suggested()[0], warning.SkippingTest}
	has := make([][]bool, p[0])
	tags := make([]data.HandlerTag, p[0])
	var sb strings.Builder
	for h := range has {
		tags[h] = zz.Tag(h)
		has[h] = make([]bool, len(ws))
		m := warning.NewWarningManager(names[h], "Test", "")
		same := p[2] == 2 && h > 0 && sym.Choose("same", 2) == 1
		for i, w := range ws {
			has[h][i] = (h+i)%3 == 0
			if same {
				has[h][i] = has[0][i]
			} else if p[2] == 2 && h == 0 {
				has[h][i] = sym.Choose("has", 2) == 1
			}
			if has[h][i] {
				m.AddWarningFnText(w, "TestOne", "", "")
			}
		}
		m.ShowWarnings(&sb)
	}
	b, w := zz.Load(nums, names), data.NewWarnings()
	sym.Assert(w.ParseWarningData(strings.NewReader(sb.String()), "Verify", b.HandlerLookup()) == nil, "the output does not parse")
	sym.Assert(scoring.Setup(b, w) == nil, "Setup fails")
	all := score.Keepers()
	want := []score.KeeperTag{"Default", "Simple", "Size", "+Dedup", "+ReplAttr"}
	sym.Assert(len(all) == len(want), "number of keepers")
	for i, tag := range want {
		sym.Assert(all[i] == tag, "keepers in order")
		k := score.GetKeeper(tag)
		sym.Assert(k != nil && k.Tag() == tag, "keeper of a tag")
		// handlers in the order of the data that the filter keeps
		n, shown := 0, k.HandlerTags()
		for _, h := range b.HandlerTags() {
			keep := true
			for j := range tags {
				if tags[j] != h {
					continue
				}
				if c := chosen[j]; c < len(handlers) {
					keep = []bool{handlers[c].basic, handlers[c].basic, handlers[c].basic, handlers[c].dup, handlers[c].rep}[i]
				} else {
					keep = i < 3
				}
			}
			if keep {
				sym.Assert(n < len(shown) && shown[n] == h, "handlers of a keeper")
				n++
			}
		}
		sym.Assert(len(shown) == n, "number of handlers of a keeper")
		used := make([]bool, p[1])
		for t := range used {
			used[t] = true
		}
		switch tag {
		case "Size":
			other := make([]bool, p[1])
			for t := range used {
				used[t] = zz.TestTag(t) == "Bench.BigGroup" || zz.TestTag(t) == "Bench.Logging"
				other[t] = !used[t]
			}
			sym.Assert(k.X().Name() == "Large" && k.Y().Name() == "Small", "names of the axes")
			zz.Judge(k.X(), nums, used, full)
			zz.Judge(k.Y(), nums, other, full)
		case "Simple":
			sym.Assert(k.X().Name() == "Warnings" && k.Y().Name() == "Benchmarks", "names of the axes")
			zz.JudgeWarnings(k.X(), tags, ws, has, two)
			zz.Judge(k.Y(), nums, used, simple)
		default:
			sym.Assert(k.X().Name() == "Warnings" && k.Y().Name() == "Benchmarks", "names of the axes")
			zz.JudgeWarnings(k.X(), tags, ws, has, levels)
			zz.Judge(k.Y(), nums, used, full)
		}
	}
	sym.Assert(score.GetKeeper("Dedup") == nil, "a keeper nobody made")
	sym.Reach("end")
}
