package scoring

import (
	"errors"
	"html/template"
	"io"
	"log/slog"
	"strconv"
	"strings"

	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/scoring/score"
	"github.com/madkins23/go-slog/internal/zzverif/sym"
)

// member makes an item for a filter, adds what it names to set, and says whether it is a group.
func member(depth, n int, set *[]string) any {
	if depth == 0 || sym.Choose("group", 2) == 0 {
		s := sym.String("item", n)
		*set = append(*set, s)
		return s
	}
	var items []any
	for i := sym.Choose("size", 3); i > 0; i-- {
		items = append(items, member(depth-1, n, set))
	}
	return score.NewFilterGroup(items...)
}

// Filter: a handler is kept exactly if it is among the names of an include filter, or not among
// those of an exclude filter: p = {items, depth of groups, length of names}.
func Filter(p []int) {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	var set []string
	var items []any
	for i := 0; i < p[0]; i++ {
		items = append(items, member(p[1], p[2], &set))
	}
	in, ex := score.NewIncludeFilter(items...), score.NewExcludeFilter(items...)
	if len(items) > 0 {
		// groups may be used again, and what is made of them later has no effect
		score.NewFilterGroup(append(items, "zzzz")...)
		items[0] = "zzzz"
	}
	name := sym.String("name", p[2])
	want := false
	for _, s := range set {
		if s == name {
			want = true
		}
	}
	sym.Assert(in.Keep(name) == want, "include filter")
	sym.Assert(ex.Keep(name) == !want, "exclude filter")
	sym.Assert(in.Keep(name) == want && ex.Keep(name) == !want, "asked again")
	sym.Assert(!in.Keep("zzzz") && ex.Keep("zzzz") && (p[2] == 0 || !in.Keep("") && ex.Keep("")), "another name")
	sym.Reach("end")
}

// Keepers: the registry has each keeper under its tag: p = {keepers, length of tags, ask in between}.
func Keepers(p []int) {
	type kept struct {
		tag score.KeeperTag
		k   *score.Keeper
	}
	var all []kept
	get := func(t score.KeeperTag) *score.Keeper {
		for _, k := range all {
			if k.tag == t {
				return k.k
			}
		}
		return nil
	}
	check := func() {
		tags := score.Keepers()
		sym.Assert(len(tags) == len(all), "number of keepers")
		for i, t := range tags {
			sym.Assert(get(t) != nil && score.GetKeeper(t) == get(t), "a keeper is not under its tag")
			if i > 0 {
				a, b := tags[i-1], t
				sp, sq := a[0] == '+', b[0] == '+'
				if sp == sq {
					sym.Assert(a < b, "tags are not in order")
				} else {
					sym.Assert(sq, "a special keeper is before another")
				}
			}
		}
	}
	for i := 0; i < p[0]; i++ {
		if p[2] == 1 && sym.Choose("ask", 2) == 1 {
			check()
		}
		n := p[1]
		if p[2] == 2 {
			n = 1 + sym.Choose("length", n)
		}
		tag := score.KeeperTag(sym.String("tag", n))
		k := score.NewKeeper(tag, nil, nil, "doc", nil, nil)
		err := score.AddKeeper(k)
		sym.Assert((err != nil) == (get(tag) != nil), "adding a keeper")
		if err == nil {
			all = append(all, kept{tag, k})
		} else {
			sym.Assert(strings.Contains(err.Error(), string(tag)), "which keeper is there already")
		}
		sym.Assert(k.Tag() == tag && k.Name() == string(tag) && k.Summary() == "doc", "tag of a keeper")
	}
	check()
	check()
	other := score.KeeperTag(sym.String("other", p[1]))
	sym.Assert(score.GetKeeper(other) == get(other), "a keeper that is not there")
	var none *score.Keeper
	sym.Assert(none.Tag() == "", "tag of no keeper")
	sym.Reach("end")
}

// fake is an axis that says how often it was set up.
type fake struct {
	score.AxisCore
	setups int
	fail   error
	bench  *data.Benchmarks
	warns  *data.Warnings
}

func (f *fake) Setup(b *data.Benchmarks, w *data.Warnings) error {
	f.setups++
	f.bench, f.warns = b, w
	return f.fail
}
func (f *fake) Name() string                                                   { return "fake" }
func (f *fake) HasTest(data.TestTag) bool                                      { return true }
func (f *fake) ScoreFor(data.HandlerTag) score.Value                           { return 0 }
func (f *fake) ScoreForTest(data.HandlerTag, data.TestTag) score.Value         { return 0 }
func (f *fake) ScoreForType(handler data.HandlerTag, t score.Type) score.Value { return 0 }
func (f *fake) Documentation() template.HTML                                   { return "" }

type shown struct{}

func (shown) HTML(any) template.HTML { return "x" }

// Setup: a keeper sets its axes up with the data and has the handlers its filter keeps, in order:
// p = {handlers, length of names, tests}.
func Setup(p []int) {
	var sb strings.Builder
	names := make([]string, p[0])
	for h := range names {
		names[h] = sym.Letters("name", p[1])
		for i := 0; i < h; i++ {
			sym.Assume(names[i] != names[h])
		}
		sb.WriteString("# Handler[" + string(hTags[h]) + "]=\"" + names[h] + "\"\n")
		for t := 0; t < p[2]; t++ {
			sb.WriteString("Benchmark" + string(hTags[h]) + "/Benchmark" + string(tTags[t]) + "-8 \t 100\t 10.5 ns/op\n")
		}
	}
	b := data.NewBenchmarks()
	sym.Assert(b.ParseBenchmarkData(strings.NewReader(sb.String())) == nil, "the output does not parse")
	w := data.NewWarnings()
	var wb strings.Builder
	for _, n := range names {
		warning.NewWarningManager(n, "Test", "").ShowWarnings(&wb)
	}
	sym.Assert(w.ParseWarningData(strings.NewReader(wb.String()), "Bench", b.HandlerLookup()) == nil, "the output does not parse")
	x, y := &fake{}, &fake{}
	var flt score.Filter
	item := sym.Letters("item", p[1])
	kind := sym.Choose("filter", 4)
	switch kind {
	case 1:
		flt = score.NewIncludeFilter(item)
	case 2:
		flt = score.NewExcludeFilter(item)
	case 3:
		flt = score.NewExcludeFilter()
	}
	opts := &score.KeeperOptions{}
	title, caption := template.HTML("No keeper title yet!!!"), template.HTML("No chart caption yet!!!")
	switch sym.Choose("options", 4) {
	case 0:
		opts = nil
	case 1:
		opts.Title, title = "t", "t"
	case 2:
		opts.ChartCaption, caption = "c", "c"
	}
	k := score.NewKeeper("tag", x, y, "doc", opts, flt)
	if opts != nil {
		opts.Title, opts.ChartCaption = "later", "later"
	}
	sym.Assert(k.ChartTitle() == title && k.ChartCaption() == caption, "title or caption")
	sym.Assert(k.X() == score.Axis(x) && k.Y() == score.Axis(y) && len(k.Axes()) == 2 && k.Axes()["X"] == score.Axis(x) && k.Axes()["Y"] == score.Axis(y), "axes")
	fails := sym.Choose("fails", 3)
	bad := errors.New("bad")
	if fails == 1 {
		x.fail = bad
	} else if fails == 2 {
		y.fail = bad
	}
	err := k.Setup(b, w)
	if fails > 0 {
		sym.Assert(errors.Is(err, bad), "an axis that cannot be set up")
		sym.Reach("end")
		return
	}
	sym.Assert(err == nil, "Setup fails")
	sym.Assert(x.setups == 1 && y.setups == 1 && x.bench == b && y.bench == b && x.warns == w && y.warns == w, "axes are not set up")
	for again := 0; again < 2; again++ {
		var want []data.HandlerTag
		for _, h := range b.HandlerTags() {
			name := b.HandlerName(h)
			if kind == 0 || kind == 3 || (name == item) == (kind == 1) {
				want = append(want, h)
			}
		}
		got := k.HandlerTags()
		sym.Assert(len(got) == len(want), "number of handlers")
		for i := range want {
			sym.Assert(got[i] == want[i], "handlers of a keeper")
		}
		if kind == 0 || kind == 3 {
			ts := k.TestTags()
			sym.Assert(len(ts) == p[2], "number of tests")
			for i, t := range b.TestTags() {
				sym.Assert(ts[i] == t, "tests of a keeper")
			}
		}
		sym.Assert(k.Setup(b, w) == nil, "Setup fails again")
	}
	// an axis keeps what it is given
	x.SetSummary("sum")
	sym.Assert(len(x.Exhibits()) == 0 && x.Summary() == "sum" && y.Summary() == "", "summary")
	for i := 1; i < 4; i++ {
		x.AddExhibit(shown{})
		sym.Assert(len(x.Exhibits()) == i && x.Exhibits()[i-1].HTML(nil) == "x" && len(y.Exhibits()) == 0, "exhibits")
	}
	sym.Reach("end")
}

// Types: the kinds of score have names that read back: p = {what, length}.
func Types(p []int) {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	known := []struct {
		t         score.Type
		name, col string
	}{{score.Default, "Default", "Score"}, {score.ByData, "ByData", "by Data"}, {score.Original, "Original", "Original"}, {score.ByTest, "ByTest", "by Test"}}
	switch p[0] {
	case 0:
		u := score.Type(sym.Byte("type"))
		is := false
		for _, k := range known {
			if u == k.t {
				is = true
				sym.Assert(u.String() == k.name && u.ColHeader() == k.col, "name of a type")
			}
		}
		sym.Assert(u.IsAType() == is, "what is a type")
		if !is {
			for _, k := range known {
				sym.Assert(u.String() != k.name && u.ColHeader() != k.col, "name of an unknown type")
			}
		}
		vs, ss := score.TypeValues(), score.TypeStrings()
		sym.Assert(len(vs) == 4 && len(ss) == 4, "number of types")
		for i := range vs {
			sym.Assert(vs[i].String() == ss[i], "values and names")
		}
	case 1: // a name in any mix of cases
		k := known[sym.Choose("known", len(known))]
		b := []byte(k.name)
		for i := range b {
			if i < p[1] && sym.Bool("other case") {
				b[i] ^= 32
			}
		}
		t, err := score.TypeString(string(b))
		sym.Assert(err == nil && t == k.t, "a name does not parse")
	case 2:
		_, err := score.TypeString(sym.String("s", p[1]))
		sym.Assert(err != nil, "a text that is no name parses")
	case 3: // one letter is another
		k := known[sym.Choose("known", len(known))]
		i := sym.Choose("at", len(k.name))
		c := sym.Byte("c")
		sym.Assume(c != k.name[i])
		sym.Assume(c != k.name[i]^32)
		_, err := score.TypeString(k.name[:i] + string([]byte{c}) + k.name[i+1:])
		sym.Assert(err != nil, "a text that is no name parses")
	case 4: // lists keep their order and leave out what is not known
		var names []string
		var want []score.Type
		for i := 0; i < p[1]; i++ {
			c := sym.Choose("name", len(known)+1)
			if c == len(known) {
				names = append(names, "none")
			} else {
				names = append(names, known[c].name)
				want = append(want, known[c].t)
			}
		}
		got := score.List(names...)
		sym.Assert(len(got) == len(want), "number of types in a list")
		for i := range want {
			sym.Assert(got[i] == want[i], "types of a list")
		}
	}
	sym.Reach("end")
}

// Average: p = {values, multiples}.
func Average(p []int) {
	var a score.Average
	empty := a.Average()
	sym.Assert(empty != empty, "average of nothing")
	var sum float64
	var n uint
	for i := 0; i < p[0]; i++ {
		v := sym.Real("v")
		sym.Assume(v >= -1e6)
		sym.Assume(v <= 1e6)
		if p[1] == 1 {
			m := uint(sym.Choose("multiple", 4))
			sym.Assert(a.AddMultiple(score.Value(v), m) == &a, "AddMultiple")
			sum += v * float64(m)
			n += m
		} else {
			sym.Assert(a.Add(score.Value(v)) == &a, "Add")
			sum += v
			n++
		}
	}
	sym.Assert(a.Count == n, "count")
	if n > 0 {
		near(a.Average(), sum/float64(n), "average")
		near(a.Average(), sum/float64(n), "average asked again")
	}
	sym.Reach("end")
}

// FilterLarge: groups in groups, the same group in several places, many names: p = {depth, names each}.
func FilterLarge(p []int) {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	free := sym.Letters("name", 2)
	var all []string
	var shared, top *score.Group
	for d := 0; d < p[0]; d++ {
		var items []any
		for i := 0; i < p[1]; i++ {
			n := "n" + strconv.Itoa(d) + "/" + strconv.Itoa(i)
			if d == p[0]/2 && i == p[1]-1 {
				n = free
			}
			all = append(all, n)
			items = append(items, n)
			if i == p[1]/2 && top != nil {
				items = append(items, top)
			}
			if i == p[1]-1 && shared != nil {
				items = append(items, shared)
			}
		}
		top = score.NewFilterGroup(items...)
		if d == 0 {
			shared = top
		}
	}
	in, ex := score.NewIncludeFilter("first", top, "last"), score.NewExcludeFilter("first", top, "last")
	all = append(all, "first", "last")
	alone := score.NewIncludeFilter(shared)
	for k := 0; k < 2; k++ {
		i := sym.Choose("which", len(all)+2)
		name := "n0/"
		if i < len(all) {
			name = all[i]
		} else if i > len(all) {
			name = sym.Letters("other", 2)
		}
		want := i < len(all) || name == free
		sym.Assert(in.Keep(name) == want, "include filter")
		sym.Assert(ex.Keep(name) == !want, "exclude filter")
		sym.Assert(alone.Keep(name) == (i < p[1] || p[0] == 1 && name == free), "another filter of the same group")
	}
	sym.Reach("end")
}

// KeepersMany: many keepers, added in any of some orders, all listed in order: p = {keepers}.
func KeepersMany(p []int) {
	n := p[0]
	step := []int{1, n - 1, 5, 7}[sym.Choose("order", 4)]
	odd := score.KeeperTag(sym.String("tag", 2))
	at := sym.Choose("at", n)
	have := map[score.KeeperTag]*score.Keeper{}
	for i := 0; i < n; i++ {
		j := i * step % n
		tag := score.KeeperTag([]string{"", "+", "Keeper "}[j%3] + "k" + strconv.Itoa(j/3))
		if i == at {
			tag = odd
		}
		k := score.NewKeeper(tag, nil, nil, "doc", nil, nil)
		err := score.AddKeeper(k)
		_, dup := have[tag]
		sym.Assert((err != nil) == dup, "adding a keeper")
		if !dup {
			have[tag] = k
		}
		if i == n/2 {
			score.Keepers()
		}
	}
	tags := score.Keepers()
	sym.Assert(len(tags) == len(have), "number of keepers")
	for i, t := range tags {
		sym.Assert(have[t] != nil && score.GetKeeper(t) == have[t], "a keeper is not under its tag")
		if i > 0 {
			a, b := tags[i-1], t
			sp, sq := a[0] == '+', b[0] == '+'
			sym.Assert(sp == sq && a < b || !sp && sq, "tags are not in order")
		}
	}
	sym.Reach("end")
}
