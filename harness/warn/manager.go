// Package warn drives the warning manager and the registry of warnings.
package warn

import (
	"flag"
	"strings"

	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/zzverif/sym"
)

var some = []*warning.Warning{warning.Required()[0], warning.Implied()[1], warning.Suggested()[0], warning.Implied()[0], warning.SkippingTest}

type inst struct{ fn, text, rec string }

type group struct {
	w    *warning.Warning
	data []inst
}

// model is what a manager has been told, independently of how it keeps it.
type model struct {
	groups []*group
	only   []*warning.Warning
}

func (m *model) add(w *warning.Warning, i inst) {
	for _, g := range m.groups {
		if g.w == w {
			g.data = append(g.data, i)
			return
		}
	}
	m.groups = append(m.groups, &group{w, []inst{i}})
}

func (m *model) has(w *warning.Warning) bool {
	for _, g := range m.groups {
		if g.w == w {
			return true
		}
	}
	return false
}

func (m *model) warnOnly(w *warning.Warning) bool {
	for _, o := range m.only {
		if o == w {
			return true
		}
	}
	return false
}

// unused drops the Unused instances whose warning came up.
func (m *model) unused() {
	var keep []*group
	for _, g := range m.groups {
		if g.w == warning.Unused {
			var data []inst
			for _, i := range g.data {
				up := false
				for _, o := range m.groups {
					if o.w.Name == i.text {
						up = true
					}
				}
				if !up {
					data = append(data, i)
				}
			}
			if len(data) == 0 {
				continue
			}
			g.data = data
		}
		keep = append(keep, g)
	}
	m.groups = keep
}

func before(a, b *warning.Warning) bool {
	if a.Level != b.Level {
		return a.Level > b.Level
	}
	return a.Name < b.Name
}

// sorted orders the groups by insertion.
func (m *model) sorted() []*group {
	var out []*group
	for _, g := range m.groups {
		i := len(out)
		for i > 0 && before(g.w, out[i-1].w) {
			i--
		}
		out = append(out, nil)
		copy(out[i+1:], out[i:])
		out[i] = g
	}
	return out
}

// compare checks what the manager reports.
func (m *model) compare(mgr *warning.Manager, what string) {
	got := mgr.GetWarnings()
	m.unused()
	want := m.sorted()
	sym.Assert(len(got) == len(want), what+": number of warnings")
	for i, g := range want {
		sym.Assert(got[i].Name == g.w.Name && got[i].Level == g.w.Level && got[i].Summary == g.w.Summary, what+": warnings are not in order of level and name")
		sym.Assert(got[i].Count == uint(len(g.data)) && len(got[i].Data) == len(g.data), what+": number of instances")
		for j, d := range g.data {
			x := got[i].Data[j]
			sym.Assert(d.fn == "" || x.Function == d.fn, what+": function of an instance")
			sym.Assert(x.Text == d.text, what+": text of an instance")
			sym.Assert(x.Record == d.rec, what+": record of an instance")
		}
	}
}

// TestStep is a test function: the name of the function is recorded.
func TestStep(mgr *warning.Manager, m *model, op int, w *warning.Warning, n int) {
	me := "TestStep"
	switch op {
	case 0:
		fn, text, rec := sym.Letters("fn", n), sym.String("text", n), sym.String("record", n)
		mgr.AddWarningFnText(w, fn, text, rec)
		if n > 0 {
			// line ends at the end of a record are dropped
			rec = strings.TrimRight(rec, "\n")
		}
		m.add(w, inst{fn, text, rec})
	case 1:
		text := sym.String("text", n)
		mgr.AddWarning(w, text, "{}\n")
		m.add(w, inst{me, text, "{}"})
	case 2:
		fn := sym.Letters("fn", n)
		mgr.AddWarningFn(w, fn, "")
		m.add(w, inst{fn, "", ""})
	case 3:
		mgr.AddUnused(w, "{}")
		m.add(warning.Unused, inst{me, w.Name, "{}"})
	case 4:
		mgr.WarnOnly(w)
		m.only = append(m.only, w)
	case 5:
		mgr.SkipTest(w)
		m.add(warning.SkippingTest, inst{me, w.Summary, ""})
		m.add(w, inst{me, warning.SkippingTest.Summary, ""})
	case 6:
		other := some[(sym.Choose("other", 2)+1)%len(some)]
		got := mgr.SkipTestIf(other, w)
		var hit *warning.Warning
		if m.warnOnly(other) {
			hit = other
		} else if m.warnOnly(w) {
			hit = w
		}
		sym.Assert(got == (hit != nil), "SkipTestIf")
		if hit != nil {
			m.add(warning.SkippingTest, inst{me, hit.Summary, ""})
			m.add(hit, inst{me, warning.SkippingTest.Summary, ""})
		}
	}
}

func manager(name, prefix string) *warning.Manager {
	mgr := warning.NewWarningManager(name, "Test", prefix)
	mgr.Predefine(warning.Required()...)
	mgr.Predefine(warning.Implied()...)
	mgr.Predefine(warning.Suggested()...)
	return mgr
}

// History makes any sequence of calls: p = {calls, length of texts, ask after each call}.
func History(p []int) {
	mgr := manager("some/handler", "")
	m := &model{}
	sym.Assert(len(mgr.GetWarnings()) == 0, "warnings of a new manager")
	for i := 0; i < p[0]; i++ {
		w := some[sym.Choose("warning", len(some))]
		TestStep(mgr, m, sym.Choose("op", 7), w, p[1])
		if p[2] == 1 {
			m.compare(mgr, "in between")
		}
	}
	m.compare(mgr, "at the end")
	m.compare(mgr, "asked again")
	for _, w := range some {
		sym.Assert(mgr.HasWarning(w) == m.warnOnly(w), "HasWarning")
	}
	var want []*warning.Warning
	for _, w := range some {
		if m.warnOnly(w) {
			want = append(want, w)
		}
	}
	got := mgr.HasWarnings(some...)
	sym.Assert(len(got) == len(want), "HasWarnings")
	for i := range want {
		sym.Assert(got[i] == want[i], "HasWarnings")
	}
	sym.Reach("end")
}

// Two: managers do not influence each other, nor does a warning that is not predefined: p = {length}.
func Two(p []int) {
	a, b := manager("a", ""), warning.NewWarningManager("b", "Test", "")
	ma, mb := &model{}, &model{}
	for i := 0; i < 2; i++ {
		w := some[sym.Choose("warning", len(some))]
		if sym.Choose("manager", 2) == 0 {
			TestStep(a, ma, sym.Choose("op", 7), w, p[0])
			continue
		}
		op := sym.Choose("op", 7)
		if op == 4 {
			// not predefined there unless it is administrative
			b.WarnOnly(w)
			if w.Level != warning.LevelAdmin {
				mb.add(warning.Undefined, inst{"", w.Summary, ""})
			}
			mb.only = append(mb.only, w)
		} else {
			TestStep(b, mb, op, w, p[0])
		}
	}
	ma.compare(a, "first manager")
	mb.compare(b, "second manager")
	for _, w := range some {
		sym.Assert(a.HasWarning(w) == ma.warnOnly(w) && b.HasWarning(w) == mb.warnOnly(w), "HasWarning")
	}
	sym.Reach("end")
}

func lines(s string) []string {
	l := strings.Split(s, "\n")
	sym.Assert(l[len(l)-1] == "", "the last line is not ended")
	return l[:len(l)-1]
}

// ByWarning shows the handlers by warning: every level in order, every warning in order of its
// name, every handler that issued it, in order, once: p = {managers, predefined?, warnings}.
func ByWarning(p []int) {
	names := []string{"zeta/one", "alpha/two", "mid/three"}
	var ms []*model
	for i := 0; i < p[0]; i++ {
		var mgr *warning.Manager
		if p[1] == 1 {
			mgr = manager(names[i], "")
		} else {
			mgr = warning.NewWarningManager(names[i], "Test", "")
		}
		m := &model{}
		for k, w := range some[:p[2]] {
			if sym.Choose("issued", 2) == 1 {
				for n := 0; n <= k%2; n++ {
					mgr.AddWarningFn(w, "TestA", "")
					m.add(w, inst{"TestA", "", ""})
				}
			}
		}
		var sb strings.Builder
		mgr.ShowWarnings(&sb)
		ms = append(ms, m)
	}
	sym.Stdout()
	sym.MapOrder(true)
	warning.ShowHandlersByWarning("# ")
	sym.MapOrder(false)
	got := sym.Stdout()
	var want []string
	for _, level := range warning.LevelOrder {
		head := false
		for _, w := range warning.WarningsForLevel(level) {
			var who []string
			for _, i := range []int{1, 2, 0} {
				if i < len(ms) && ms[i].has(w) {
					who = append(who, "#       "+names[i])
				}
			}
			if len(who) == 0 {
				continue
			}
			if !head {
				head = true
				want = append(want, "#   "+level.String())
			}
			want = append(want, "#     ["+w.Name+"] "+w.Summary)
			want = append(want, who...)
		}
	}
	if want == nil {
		sym.Assert(got == "", "handlers by warning without warnings")
	} else {
		gl := lines(got)
		sym.Assert(len(gl) == len(want)+2, "number of lines of handlers by warning")
		for i := range want {
			sym.Assert(gl[i+2] == want[i], "handlers by warning")
		}
	}
	sym.Reach("end")
}

// Flag: the flag -useWarnings decides whether a warning can stand for a failure.
func Flag(p []int) {
	mgr := manager("some/handler", "")
	m := &model{}
	for i := 0; i < 2; i++ {
		w := some[sym.Choose("warning", len(some))]
		mgr.WarnOnly(w)
		m.only = append(m.only, w)
	}
	on := sym.Choose("use", 2) == 1
	sym.Assert(flag.Set("useWarnings", []string{"false", "true"}[sym.Choose("before", 2)]) == nil, "flag -useWarnings")
	sym.Assert(flag.Set("useWarnings", map[bool]string{false: "false", true: "true"}[on]) == nil, "flag -useWarnings")
	n := 0
	for _, w := range some {
		sym.Assert(mgr.HasWarning(w) == (on && m.warnOnly(w)), "HasWarning with the flag")
		if on && m.warnOnly(w) {
			n++
		}
	}
	sym.Assert(len(mgr.HasWarnings(some...)) == n, "HasWarnings with the flag")
	sym.Assert(len(mgr.GetWarnings()) == 0, "warnings that nobody issued")
	w := some[sym.Choose("skip", len(some))]
	skip := on && m.warnOnly(w)
	sym.Assert(mgr.SkipTestIf(w) == skip, "SkipTestIf with the flag")
	if skip {
		n = 2
	} else {
		n = 0
	}
	issued := 0
	for _, i := range mgr.GetWarnings() {
		issued += int(i.Count)
	}
	sym.Assert(issued == n, "warnings of a skipped test")
	sym.Reach("end")
}

type nest struct {
	mgr  *warning.Manager
	w    *warning.Warning
	kind int
}

// down calls itself n times before the warning is added.
func (x *nest) down(n int) {
	if n > 0 {
		if x.kind == 1 {
			func() { x.down(n - 1) }()
			return
		}
		x.down(n - 1)
		return
	}
	x.mgr.AddWarning(x.w, "", "")
}

func (x *nest) TestMethod(n int) { x.down(n) }

func TestPlain(x *nest, n int) { x.down(n) }

func TestOver(x *nest, n int) { x.TestMethod(n) }

func other(x *nest, n int) { x.down(n) }

// Depth: a warning is added under the name of the nearest function with the prefix, however far: p = {most calls}.
func Depth(p []int) {
	mgr := manager("deep", "Test")
	x := &nest{mgr, warning.Mismatch, sym.Choose("closures", 2)}
	n := sym.Choose("calls", p[0]+1)
	want := "TestMethod"
	switch sym.Choose("from", 4) {
	case 0:
		x.TestMethod(n)
	case 1:
		TestPlain(x, n)
		want = "TestPlain"
	case 2:
		TestOver(x, n)
	case 3:
		other(x, n)
		want = "Unknown"
	}
	ws := mgr.GetWarnings()
	sym.Assert(len(ws) == 1 && ws[0].Count == 1 && len(ws[0].Data) == 1, "another number of warnings")
	sym.Assert(ws[0].Data[0].Function == want, "added under the name of another function")
	sym.Reach("end")
}

// Long makes a long sequence of calls and asks after any of them: p = {calls}.
func Long(p []int) {
	mgr, quiet := manager("some/handler", ""), manager("quiet", "")
	m := &model{}
	x := 1 + sym.Choose("start", 6)*7
	ask := sym.Choose("ask", p[0])
	text := sym.String("text", 1)
	// Some of a program's own, whose names are in another order when case is ignored.
	list := append([]*warning.Warning{
		warning.NewWarning(warning.Required()[0].Level, "Own Zero", "", ""),
		warning.NewWarning(warning.Required()[0].Level, "own one", "", ""),
		warning.NewWarning(warning.Required()[0].Level, "Own", "another", ""),
	}, some...)
	for i := 0; i < p[0]; i++ {
		x = (x*29 + 17) % 1009
		w := list[x%len(list)]
		n := strings.Repeat("long ", 1+i%3*20) + text
		switch x / len(list) % 7 {
		case 0, 1, 2:
			mgr.AddWarningFnText(w, "TestSome", n, `{"a": 1}`+"\n")
			m.add(w, inst{"TestSome", n, `{"a": 1}`})
		case 3, 4:
			mgr.AddUnused(w, "")
			m.add(warning.Unused, inst{"", w.Name, ""})
		case 5:
			mgr.WarnOnly(w)
			m.only = append(m.only, w)
			if x%len(list) < 3 {
				m.add(warning.Undefined, inst{"", w.Summary, ""}) // not predefined to the manager
			}
		case 6:
			mgr.AddWarningFn(w, "TestOther", "")
			m.add(w, inst{"TestOther", "", ""})
		}
		if i == ask {
			m.compare(mgr, "in between")
		}
	}
	m.compare(mgr, "at the end")
	for _, w := range some {
		sym.Assert(mgr.HasWarning(w) == m.warnOnly(w), "HasWarning")
	}
	sym.Assert(len(quiet.GetWarnings()) == 0, "warnings of another manager")
	sym.Reach("end")
}
