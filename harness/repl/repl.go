// Package repl drives the functions of package replace and the trace handler.
package repl

import (
	"log/slog"
	"strconv"
	"time"

	"github.com/madkins23/go-slog/infra"
	"github.com/madkins23/go-slog/internal/zzverif/sym"
	"github.com/madkins23/go-slog/replace"
)

func lowASCII(c byte) byte {
	if c >= 'A' && c <= 'Z' {
		return c + 32
	}
	return c
}

func upASCII(c byte) byte {
	if c >= 'a' && c <= 'z' {
		return c - 32
	}
	return c
}

func ascii(name string, n int) string {
	s := sym.String(name, n)
	for i := 0; i < n; i++ {
		sym.Assume(s[i] < 0x80)
	}
	return s
}

// words that differ only in case, and some that do not
var folds = []struct {
	a, b string
	same bool
}{
	{"é", "É", true}, {"ß", "ẞ", true}, {"k", "\u212a", true}, {"K", "\u212a", true}, {"ſ", "S", true}, {"s", "ſ", true},
	{"σ", "ς", true}, {"ς", "Σ", true}, {"Ω", "\u2126", true}, {"µ", "μ", true}, {"ß", "ss", false}, {"é", "e", false},
	{"I", "ı", false}, {"i", "İ", false}, {"aé", "AÉ", true}, {"éa", "É", false}, {"Ǆ", "ǅ", true},
}

// keys gives a key as asked for and the key of an attribute, and whether they match:
// kind 0: both any ASCII text of n bytes; 1: of n and n+1; 2: any bytes, exact match only; 3: from the table.
func keys(kind, n int, insensitive bool) (want, have string, match bool) {
	switch kind {
	case 0:
		want, have = ascii("want", n), ascii("have", n)
		match = true
		for i := 0; i < n; i++ {
			if insensitive && lowASCII(want[i]) != lowASCII(have[i]) || !insensitive && want[i] != have[i] {
				match = false
			}
		}
		return
	case 1:
		return ascii("want", n), ascii("have", n+1), false
	case 2:
		want, have = sym.String("want", n), sym.String("have", n)
		match = true
		for i := 0; i < n; i++ {
			if want[i] != have[i] {
				match = false
			}
		}
		sym.Assume(!insensitive || match)
		return
	}
	f := folds[sym.Choose("pair", len(folds))]
	return f.a, f.b, insensitive && f.same
}

// groups gives open groups, and a check with its result on them.
func groups(kind int) (gs []string, chk replace.GroupCheckFn, ok bool, calls *int) {
	calls = new(int)
	n := sym.Choose("groups", 4)
	for i := 0; i < n; i++ {
		gs = append(gs, sym.String("group", 1))
	}
	switch kind {
	case 0:
		return gs, nil, true, calls
	case 1:
		return gs, replace.TopCheck, n == 0, calls
	case 2:
		name := sym.String("name", 1)
		return gs, replace.Current(name), n > 0 && gs[n-1] == name, calls
	case 3:
		return gs, replace.Current(""), false, calls
	}
	ok = sym.Bool("ok")
	return gs, func(got []string) bool {
		*calls++
		sym.Assert(len(got) == len(gs), "the check is given other groups")
		for i := range got {
			sym.Assert(got[i] == gs[i], "the check is given other groups")
		}
		return ok
	}, ok, calls
}

type stringer struct{ s string }

func (s stringer) String() string { return s.s }

type list []int

// value gives some value and its text.
func value(kind int) slog.Value {
	switch kind {
	case 0:
		return slog.StringValue(sym.String("v", 2))
	case 1:
		return slog.Int64Value(sym.Int64("v"))
	case 2:
		return slog.BoolValue(sym.Bool("v"))
	case 3:
		return slog.AnyValue(slog.LevelWarn)
	case 4:
		return slog.DurationValue(1500 * time.Millisecond)
	case 5:
		return slog.GroupValue(slog.Int("a", 1))
	case 6:
		return slog.AnyValue(nil)
	}
	return slog.AnyValue(stringer{"Ab"})
}

const nValues = 8

func same(a, b slog.Value) bool { return a.Kind() == b.Kind() && a.Equal(b) }

func sameGroups(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Match applies a function to an attribute: p = {function, kind of keys, length, kind of check, kind of value}.
func Match(p []int) {
	ins := sym.Bool("insensitive")
	want, have, match := keys(p[1], p[2], ins)
	gs, chk, ok, _ := groups(p[3])
	before := append([]string{}, gs...)
	v := value(p[4])
	var fn infra.AttrFn
	expect := slog.Attr{Key: have, Value: v}
	hit := match && ok
	switch p[0] {
	case 0:
		to := sym.String("to", 2)
		fn = replace.ChangeKey(want, to, ins, chk)
		if hit {
			expect.Key = to
		}
	case 1:
		fn = replace.RemoveKey(want, ins, chk)
		if hit {
			expect = slog.Attr{}
		}
	case 2:
		to := sym.Int64("to")
		fn = replace.ChangeValue(want, replace.SetValueTo(slog.Int64Value(to)), ins, chk)
		if hit {
			expect.Value = slog.Int64Value(to)
		}
	case 3:
		// the function is called once, with the value, and only when it applies
		calls := 0
		fn = replace.ChangeValue(want, func(x slog.Value) slog.Value {
			calls++
			sym.Assert(same(x, v), "the function is given another value")
			return slog.StringValue("new")
		}, ins, chk)
		defer func() {
			sym.Assert(calls == 1 == hit && calls <= 1, "the function is not called once, exactly for a match")
			sym.Reach("end")
		}()
		if hit {
			expect.Value = slog.StringValue("new")
		}
	case 4, 5:
		c := replace.ChangeCases(sym.Byte("case"))
		sym.Assume(c != replace.CaseLower && c != replace.CaseUpper)
		fn = replace.ChangeCase(want, c, ins, chk)
	}
	got := fn(gs, slog.Attr{Key: have, Value: v})
	sym.Assert(got.Key == expect.Key, "key of the result")
	sym.Assert(same(got.Value, expect.Value), "value of the result")
	sym.Assert(sameGroups(gs, before), "the groups are changed")
	if p[0] != 3 {
		sym.Reach("end")
	}
}

var cased = []struct{ s, low, up string }{
	{"é", "é", "É"}, {"ÉaB", "éab", "ÉAB"}, {"Ω", "ω", "Ω"}, {"ſ", "ſ", "S"}, {"\u212a", "k", "\u212a"}, {"日本", "日本", "日本"},
	{"ΑΣ", "ας", "ΑΣ"}, {"ǆ", "ǆ", "Ǆ"},
}

// Case changes the case of a value: p = {upper, length or -1 for the table or -2 for other kinds, kind of check}.
func Case(p []int) {
	c := replace.CaseLower
	if p[0] == 1 {
		c = replace.CaseUpper
	}
	gs, chk, ok, _ := groups(p[2])
	hit := sym.Bool("hit")
	key := "k"
	if !hit {
		key = "kk"
	}
	var v slog.Value
	want := ""
	switch {
	case p[1] >= 0:
		s := ascii("s", p[1])
		v = slog.StringValue(s)
		b := []byte(s)
		for i := range b {
			if p[0] == 1 {
				b[i] = upASCII(b[i])
			} else {
				b[i] = lowASCII(b[i])
			}
		}
		want = string(b)
	case p[1] == -1:
		t := cased[sym.Choose("text", len(cased)-2)]
		v = slog.StringValue(t.s)
		want = t.low
		if p[0] == 1 {
			want = t.up
		}
	default:
		k := sym.Choose("kind", 5)
		v = []slog.Value{slog.AnyValue(slog.LevelWarn), slog.BoolValue(true), slog.AnyValue(stringer{"Ab"}), slog.DurationValue(1500 * time.Millisecond), slog.IntValue(-12)}[k]
		want = [][]string{{"warn", "WARN"}, {"true", "TRUE"}, {"{ab}", "{AB}"}, {"1.5s", "1.5S"}, {"-12", "-12"}}[k][p[0]]
		if k == 2 {
			want = []string{"ab", "AB"}[p[0]]
		}
	}
	fn := replace.ChangeCase("k", c, sym.Bool("insensitive"), chk)
	got := fn(gs, slog.Attr{Key: key, Value: v})
	sym.Assert(got.Key == key, "the key is changed")
	if hit && ok {
		sym.Assert(got.Value.Kind() == slog.KindString, "the result is not a string")
		sym.Assert(got.Value.String() == want, "case of the result")
	} else {
		sym.Assert(same(got.Value, v), "a value that does not match is changed")
	}
	sym.Reach("end")
}

// Multiple runs functions in order until one gives the empty attribute: p = {number, length of the key}.
func Multiple(p []int) {
	type call struct{ from, to slog.Attr }
	in := slog.Attr{Key: sym.String("key", p[1]), Value: slog.Int64Value(sym.Int64("v"))}
	gs := []string{sym.String("group", 1)}
	var want, got []string
	show := func(i int, a slog.Attr) string {
		return strconv.Itoa(i) + "/" + a.Key + "/" + a.Value.Kind().String()
	}
	var fns []infra.AttrFn
	cur, alive := in, true
	for i := 0; i < p[0]; i++ {
		i := i
		kind := sym.Choose("kind", 6)
		f := func(a slog.Attr) slog.Attr {
			switch kind {
			case 1:
				a.Key = "n" + strconv.Itoa(i)
			case 2:
				a.Value = slog.StringValue("x")
			case 3:
				return slog.Attr{}
			case 4:
				a.Key = "" // not empty while it has a value
			case 5:
				a.Value = slog.Value{} // nor while it has a key
			}
			return a
		}
		fns = append(fns, func(g []string, a slog.Attr) slog.Attr {
			sym.Assert(len(g) == 1 && g[0] == gs[0], "a function is given other groups")
			got = append(got, show(i, a))
			return f(a)
		})
		if alive {
			want = append(want, show(i, cur))
			cur = f(cur)
			if cur.Key == "" && cur.Value.Kind() == slog.KindAny && cur.Value.Any() == nil {
				alive = false
			}
		}
	}
	res := replace.Multiple(fns...)(gs, in)
	sym.Assert(len(want) == len(got), "number of functions called")
	for i := range want {
		sym.Assert(want[i] == got[i], "functions are not called in order with the result of the one before")
	}
	sym.Assert(res.Key == cur.Key && same(res.Value, cur.Value), "the result is not that of the last function")
	sym.Reach("end")
}

var longKeys = []string{"message", "a-name-of-a-field-that-is-longer-than-others-0123456789", "Größe.der.Nachricht", "x y\tz"}

// Again applies one function to several attributes in turn: what it does depends on that attribute alone:
// p = {function, attributes}.
func Again(p []int) {
	ins := sym.Bool("insensitive")
	name := longKeys[sym.Choose("name", len(longKeys))]
	at := []int{0, len(name) - 1}[sym.Choose("where", 2)]
	chk := sym.Choose("check", 4)
	check := []replace.GroupCheckFn{nil, replace.TopCheck, replace.Current("inner"), replace.Current("o")}[chk]
	var fn infra.AttrFn
	switch p[0] {
	case 0:
		fn = replace.ChangeKey(name, "to", ins, check)
	case 1:
		fn = replace.RemoveKey(name, ins, check)
	case 2:
		fn = replace.ChangeCase(name, replace.CaseUpper, ins, check)
	case 3:
		fn = replace.ChangeCase(name, replace.CaseLower, ins, check)
	case 4:
		fn = replace.Multiple(replace.ChangeCase(name, replace.CaseLower, ins, check), replace.ChangeKey(name, "to", ins, check))
	}
	stack := []string{"o", "m", "inner", "n", "m", "o", "n", "inner"}
	for i := 0; i < p[1]; i++ {
		gs := stack[:[]int{0, 1, 3, 6, 8}[sym.Choose("groups", 5)]]
		ok := []bool{true, len(gs) == 0, len(gs) > 0 && gs[max(len(gs)-1, 0)] == "inner", len(gs) > 0 && gs[max(len(gs)-1, 0)] == "o"}[chk]
		c := sym.String("key", 1)
		sym.Assume(c[0] < 0x80)
		have := name[:at] + c + name[at+1:]
		match := c[0] == name[at] || ins && lowASCII(c[0]) == lowASCII(name[at])
		text := "Text" + strconv.Itoa(i)
		want := slog.String(have, text)
		if match && ok {
			switch p[0] {
			case 0:
				want.Key = "to"
			case 1:
				want = slog.Attr{}
			case 2:
				want.Value = slog.StringValue("TEXT" + strconv.Itoa(i))
			case 3:
				want.Value = slog.StringValue("text" + strconv.Itoa(i))
			case 4:
				want = slog.String("to", "text"+strconv.Itoa(i))
			}
		}
		got := fn(gs, slog.String(have, text))
		sym.Assert(got.Key == want.Key, "key of the result")
		sym.Assert(same(got.Value, want.Value), "value of the result")
	}
	sym.Assert(sameGroups(stack, []string{"o", "m", "inner", "n", "m", "o", "n", "inner"}), "the groups are changed")
	sym.Reach("end")
}
