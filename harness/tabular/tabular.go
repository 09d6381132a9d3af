// Package tabular runs the command that shows data as tables of text.
package tabular

import (
	"os"
	"sort"
	"strconv"
	"strings"

	"github.com/madkins23/go-slog/infra/warning"
	tabular "github.com/madkins23/go-slog/internal/zzverif/main_tabular"
	"github.com/madkins23/go-slog/internal/zzverif/sym"
)

// run runs the command on files of these contents and returns what it shows.
func run(bench, verify string) string {
	defer sym.Remove()
	os.Args = []string{"tabular", "-bench=" + sym.File("bench", bench)}
	if verify != "-" {
		os.Args = append(os.Args, "-verify="+sym.File("verify", verify))
	}
	sym.Stdout()
	tabular.Main()
	return sym.Stdout()
}

var handlers = []struct{ tag, name string }{{"AB", "x/y"}, {"CD", "c/d"}, {"EF", "m"}, {"GH", "n/o"}, {"IJ", "p/q-r"}, {"KL", "zz/23456789012345678901"}, {"MN", "u"}, {"OP", "s"}}

// handlers by name
var order = []int{1, 2, 3, 4, 7, 6, 0, 5}
var tests = []string{"Big", "Other", "Simple", "Ufo", "Vast", "With"}

type figures struct {
	runs, allocs, bytes uint64
	nanos, mb           string // with two digits, as they are
}

var some = []figures{
	{100, 0, 24, "10.50", "1.50"}, {1228219, 5, 418, "1041.00", "470809.52"}, {1, 1000, 999, "0.25", "0.00"}, {999, 90, 1234567, "25886.04", "12.34"},
}

// comma puts commas where thousands end.
func comma(s string) string {
	whole, rest := s, ""
	if i := strings.IndexByte(s, '.'); i >= 0 {
		whole, rest = s[:i], s[i:]
	}
	for i := len(whole) - 3; i > 0; i -= 3 {
		whole = whole[:i] + "," + whole[i:]
	}
	return whole + rest
}

func pad(s string, n int) string {
	if len(s) < n {
		return strings.Repeat(" ", n-len(s)) + s
	}
	return s
}

type inst struct{ source, tag, name, text, record string }

type entry struct {
	w   *warning.Warning
	ins []inst
}

var warns = []*warning.Warning{warning.Mismatch, warning.Duplicates, warning.LevelCase, warning.SkippingTest}
var funcs = []struct{ fn, tag, name string }{{"TestGroupWith", "GroupWith", "Group With"}, {"BenchmarkSimple", "Simple", "Simple"}}

func blank(c byte) bool { return c <= ' ' || c == 0x7f }

var texts int

// text is any text of n bytes without blanks, or one not used before.
func text(n int) string {
	if n == 0 {
		texts++
		return "text " + strconv.Itoa(texts)
	}
	s := sym.String("text", n)
	for i := 0; i < n; i++ {
		sym.Assume(!blank(s[i]) && s[i] < 0x80)
	}
	return s
}

// Tables: a table for each test, a row for each handler that ran it: p = {handlers, tests, numbers}.
func Tables(p []int) {
	var sb strings.Builder
	ran := make([][]*figures, p[0])
	for h := p[0] - 1; h >= 0; h-- {
		sb.WriteString("# Handler[" + handlers[h].tag + "]=\"" + handlers[h].name + "\"\n")
		ran[h] = make([]*figures, p[1])
		for t := range ran[h] {
			k := (h*3 + t*2) % 5
			if p[0]*p[1] <= 6 {
				k = sym.Choose("ran", p[2]+1)
			}
			if k == p[2] {
				continue
			}
			f := &some[k]
			ran[h][t] = f
			sb.WriteString("Benchmark" + handlers[h].tag + "/Benchmark" + tests[t] + "-8 \t " + strconv.FormatUint(f.runs, 10) + "\t " + f.nanos + " ns/op\t " + f.mb + " MB/s\t " +
				strconv.FormatUint(f.bytes, 10) + " B/op\t " + strconv.FormatUint(f.allocs, 10) + " allocs/op\n")
		}
	}
	got := run(sb.String(), "-")
	var want strings.Builder
	for t := 0; t < p[1]; t++ {
		any := false
		for h := range ran {
			any = any || ran[h][t] != nil
		}
		if !any {
			continue
		}
		want.WriteString("\nBenchmark " + tests[t] + "\n")
		want.WriteString(rule("╔", "═", "╦", "╤", "╗") + row("Handler", "Runs", "Ns/Op", "Allocs/Op", "Bytes/Op", "MB/Sec") + rule("╠", "═", "╬", "╪", "╣"))
		for _, h := range order {
			if h < p[0] && ran[h][t] != nil {
				f := ran[h][t]
				want.WriteString(row(handlers[h].name, comma(strconv.FormatUint(f.runs, 10)), comma(f.nanos), comma(strconv.FormatUint(f.allocs, 10)), comma(strconv.FormatUint(f.bytes, 10)), comma(f.mb)))
			}
		}
		want.WriteString(rule("╚", "═", "╩", "╧", "╝"))
	}
	want.WriteString("\n")
	same(got, want.String())
	sym.Reach("end")
}

func rule(l, mid, first, other, r string) string {
	s := "  " + l + strings.Repeat(mid, 24)
	for i, n := range []int{11, 13, 11, 11, 11} {
		if i == 0 {
			s += mid + first
		} else {
			s += mid + other
		}
		s += strings.Repeat(mid, n+1)
	}
	return s + mid + r + "\n"
}

func row(cells ...string) string {
	s := "  ║ " + cells[0] + strings.Repeat(" ", 23-len(cells[0]))
	for i, n := range []int{11, 13, 11, 11, 11} {
		if i == 0 {
			s += " ║ "
		} else {
			s += " │ "
		}
		s += pad(cells[i+1], n)
	}
	return s + " ║\n"
}

// same compares line by line, and but for blanks at the ends and rules.
func same(got, want string) {
	sym.ObserveString("shown", got)
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	sym.Assert(len(g) == len(w), "another number of lines is shown")
	for i := range w {
		sym.Assert(g[i] == w[i], "another line is shown")
	}
}

// Warnings: every warning of both files with all of its instances: p = {handlers, warnings in each file, length of texts, files}.
func Warnings(p []int) {
	var files [2]strings.Builder
	all := make([][]*entry, p[0])
	shown := make([]bool, p[0])
	for f := 0; f < p[3]; f++ {
		prefix, source := "# ", "Bench"
		if f == 1 {
			prefix, source = "", "Verify"
		}
		mgrs := make([]*warning.Manager, p[0])
		for h := range mgrs {
			if f == 0 {
				files[0].WriteString("# Handler[" + handlers[h].tag + "]=\"" + handlers[h].name + "\"\n")
			}
			mgrs[h] = warning.NewWarningManager(handlers[h].name, "Test", prefix)
		}
		for i := 0; i < p[1]; i++ {
			h, w, fn, kind, rec := (i*5+f)%p[0], warns[i*3%len(warns)], funcs[i/3%2], i%5, i/2%3
			last := i == 0 && f == p[3]-1
			if last || p[1] <= 2 {
				h, w, kind = sym.Choose("handler", p[0]), warns[sym.Choose("warning", len(warns))], sym.Choose("text", 5)
			}
			if last {
				fn, rec = funcs[sym.Choose("function", len(funcs))], sym.Choose("record", 3)
			}
			in := inst{source: source, tag: fn.tag, name: fn.name}
			switch kind {
			case 1:
				in.text = text(p[2])
			case 2:
				in.text = text(p[2]) + "\n" + text(p[2])
			case 3:
				in.text = "\n" + text(p[2]) + "\n  two\nthree\n4 " + text(0)
			case 4:
				in.text = text(p[2]) + strings.Repeat(" long", 60)
			}
			switch rec {
			case 1:
				in.record = `{"a":1}`
			case 2:
				in.record = `{"a":"` + strings.Repeat("long ", 60) + `","b":` + strconv.Itoa(i) + `}`
			}
			mgrs[h].AddWarningFnText(w, fn.fn, in.text, in.record)
			var e *entry
			for _, o := range all[h] {
				if o.w == w {
					e = o
				}
			}
			if e == nil {
				e = &entry{w: w}
				all[h] = append(all[h], e)
			}
			e.ins = append(e.ins, in)
		}
		for h, m := range mgrs {
			shown[h] = true
			m.ShowWarnings(&files[f])
		}
	}
	verify := "-"
	if p[3] > 1 {
		verify = files[1].String()
	}
	got := run(files[0].String(), verify)
	var want strings.Builder
	for _, h := range order {
		if h >= p[0] || !shown[h] {
			continue
		}
		want.WriteString("\nWarnings for " + handlers[h].name + ":\n")
		es := all[h]
		sort.SliceStable(es, func(i, j int) bool {
			if es[i].w.Level != es[j].w.Level {
				return es[i].w.Level > es[j].w.Level
			}
			return es[i].w.Name < es[j].w.Name
		})
		for i, e := range es {
			if i == 0 || es[i-1].w.Level != e.w.Level {
				want.WriteString("  " + e.w.Level.String() + "\n")
			}
			want.WriteString("  " + pad(strconv.Itoa(len(e.ins)), 4) + " [" + e.w.Name + "] " + e.w.Summary + "\n")
			sort.SliceStable(e.ins, func(i, j int) bool { return e.ins[i].name < e.ins[j].name })
			for _, in := range e.ins {
				want.WriteString("         " + in.source + ":" + in.tag)
				if in.text != "" {
					t := in.text
					if strings.Contains(t, "\n") {
						t = "\n           " + strings.ReplaceAll(t, "\n", "\n           ")
					}
					want.WriteString(": " + t)
				}
				want.WriteString("\n")
				if in.record != "" {
					want.WriteString("           " + in.record + "\n")
				}
			}
		}
	}
	want.WriteString("\n")
	same(got, want.String())
	sym.Reach("end")
}
