// Package fields drives the counter of JSON fields and the JSON parser of the tests.
package fields

import (
	"strings"

	"github.com/madkins23/go-slog/internal/json"
	"github.com/madkins23/go-slog/internal/zzverif/jt"
	"github.com/madkins23/go-slog/internal/zzverif/sym"
)

// names are the names of the members of a JSON object as they are written.
type want struct {
	names  []string
	counts []uint
}

func (w *want) add(name string) {
	for i, n := range w.names {
		if n == name {
			w.counts[i]++
			return
		}
	}
	w.names = append(w.names, name)
	w.counts = append(w.counts, 1)
}

func (w *want) check(c *json.FieldCounter, err error) {
	sym.Assert(err == nil, "a JSON object does not parse")
	sym.Assert(c.NumFields() == uint(len(w.names)), "number of fields")
	fs := c.Fields()
	sym.Assert(len(fs) == len(w.names), "number of fields listed")
	for i, f := range fs {
		sym.Assert(i == 0 || fs[i-1] < f, "fields are not in order")
		found := false
		for _, n := range w.names {
			if n == f {
				found = true
			}
		}
		sym.Assert(found, "a field that is not there")
	}
	d := c.Duplicates()
	n := 0
	for i, name := range w.names {
		if w.counts[i] > 1 {
			n++
			sym.Assert(d[name] == w.counts[i], "count of a duplicate field")
		}
	}
	sym.Assert(len(d) == n, "number of duplicate fields")
}

// spacer puts white space into one place of a text, or nowhere.
type spacer struct{ at, n int }

func (s *spacer) space() string {
	s.n++
	if s.n != s.at {
		return ""
	}
	return []string{" ", "\n", "\t\r"}[sym.Choose("space", 3)]
}

// name is the name of a member as written between its quotes.
func name(n int) string {
	switch sym.Choose("name", 4) {
	case 0:
		return "a"
	case 1: // any text that needs no escape
		s := sym.String("name", n)
		for i := 0; i < len(s); i++ {
			sym.Assume(s[i] >= 0x20)
			sym.Assume(s[i] < 0x80)
			sym.Assume(s[i] != '"')
			sym.Assume(s[i] != '\\')
		}
		return s
	case 2: // an escape
		c := []string{`\"`, `\\`, `\/`, `\n`, `\u00e9`, `\ud83d\ude00`}[sym.Choose("escape", 6)]
		return c + []string{"", "x"}[sym.Choose("after", 2)]
	}
	return []string{"", "é", "\U0001F600z", "fields2", "true", "{", "a:b,c"}[sym.Choose("fixed", 7)]
}

// value is any JSON value, of the kind and the depth given.
func value(depth, n int, sp *spacer) string {
	k := 4
	if depth > 0 {
		k = 6
	}
	switch sym.Choose("value", k) {
	case 0:
		return []string{"true", "false", "null"}[sym.Choose("keyword", 3)]
	case 1:
		s := sym.String("text", n)
		for i := 0; i < len(s); i++ {
			sym.Assume(s[i] >= 0x20)
			sym.Assume(s[i] < 0x80)
			sym.Assume(s[i] != '"')
			sym.Assume(s[i] != '\\')
		}
		return `"` + s + `"`
	case 2:
		return []string{`"\""`, `"\\"`, `"}\"],{"`, `"é\u00e9"`, `""`, `":"`}[sym.Choose("string", 6)]
	case 3: // a number: sign, digits, fraction, exponent
		s := []string{"", "-"}[sym.Choose("sign", 2)]
		if sym.Choose("zero", 2) == 0 {
			s += "0"
		} else {
			s += string([]byte{byte(sym.Range("digit", '1', '9')), byte(sym.Range("digit", '0', '9'))})
		}
		return s + []string{"", ".05", "e5", ".9E+07", "e-1", ".0E10"}[sym.Choose("rest", 6)]
	case 4:
		s := "[" + sp.space()
		for i, m := 0, sym.Choose("elements", 2+depth/2); i < m; i++ {
			if i > 0 {
				s += ","
			}
			s += value(depth-1, 1, sp)
		}
		return s + "]"
	}
	s := "{"
	for i, m := 0, sym.Choose("members", 2+depth/2); i < m; i++ {
		if i > 0 {
			s += ", "
		}
		s += []string{`"a":`, `"b" :`, `"fields":`}[sym.Choose("inner", 3)] + value(depth-1, 1, sp)
	}
	return s + "}"
}

// Object: an object of the JSON grammar: p = {members, depth of the values, length of texts, spaces?}.
func Object(p []int) {
	w := &want{}
	s := ""
	sp := &spacer{}
	if p[3] == 1 {
		sp.at = sym.Choose("at", 7*p[0]+2)
	}
	if p[3] == 1 {
		s = sp.space()
	}
	s += "{"
	for i := 0; i < p[0]; i++ {
		if i > 0 {
			s += ","
		}
		n := name(p[2])
		w.add(n)
		if i > 0 {
			s += `"` + n + `":` + []string{"-0.5e+1", `"}"`, "[{}]"}[sym.Choose("fixed value", 3)]
			continue
		}
		if p[3] == 1 {
			s += sp.space() + `"` + n + `"` + sp.space() + ":" + sp.space() + value(p[1], p[2], sp) + sp.space()
		} else {
			s += `"` + n + `":` + value(p[1], p[2], sp)
		}
	}
	s += "}"
	if p[3] == 1 {
		s += sp.space()
	}
	c := json.NewFieldCounter([]byte(s))
	w.check(c, c.Parse())
	sym.Reach("end")
}

// Members: the names of the members decide, their number and order are free: p = {members, length}.
func Members(p []int) {
	w := &want{}
	s := "{"
	for i := 0; i < p[0]; i++ {
		if i > 0 {
			s += ","
		}
		n := sym.Letters("name", p[1])
		w.add(n)
		s += `"` + n + `":` + []string{"1", `{"b":1,"b":2}`, `[{"a":{}}]`}[i%3]
	}
	s += "}"
	c := json.NewFieldCounter([]byte(s))
	w.check(c, c.Parse())
	a := c.String()
	sym.MapOrder(true)
	b := c.String()
	sym.MapOrder(false)
	sym.Assert(a == b, "two texts of the same state")
	sym.Reach("end")
}

// Apex: the members of an object called fields count as if they stood beside it: p = {members, length}.
func Apex(p []int) {
	w := &want{}
	at := sym.Choose("at", p[0]+1)
	s := "{"
	for i := 0; i <= p[0]; i++ {
		if i > 0 {
			s += ","
		}
		if i == at {
			n, m := sym.Letters("name", p[1]), sym.Letters("name", p[1])
			w.add(n)
			w.add(m)
			s += `"fields":{"` + n + `":{"x":1,"fields":` + []string{"[]", `{"y":{}}`}[sym.Choose("nested", 2)] + `}, "` + m + `":2}`
			continue
		}
		n, kinds := "fields", 2
		if sym.Choose("same", 2) == 0 {
			n, kinds = sym.Letters("name", p[1]), 3
		}
		w.add(n)
		// An object called fields within another value is nothing special.
		s += `"` + n + `":` + []string{`"fields"`, `[{"fields":{"zz":1}}, {"a" : {"fields" :{"fields":{"q":{}}}}}]`, `{"fields":{"zz":[1]},"zz":2}`}[sym.Choose("value", kinds)]
	}
	c := json.NewFieldCounter([]byte(s + "}"))
	w.check(c, c.Parse())
	sym.Reach("end")
}

// Text: any text at all in a place of an object; what is JSON is counted and nothing panics:
// p = {place, length}.
func Text(p []int) {
	t := sym.String("text", p[1])
	for i := 0; i < len(t); i++ {
		sym.Assume(t[i] < 0x80)
	}
	s := []string{"", "{", `{"a":`, `{"a":1,"`, `{"a":[`, `{"a":{"b":`}[p[0]] + t + []string{"", "}", "}", `":2}`, "]}", "}}"}[p[0]]
	c := json.NewFieldCounter([]byte(s))
	err := c.Parse()
	n, bad := jt.Parse([]byte(s))
	if bad == "" && n.Kind == jt.Object && strings.IndexByte(t, '\\') < 0 {
		w := &want{}
		for _, k := range n.Keys {
			w.add(k)
		}
		w.check(c, err)
	}
	m, err := json.Parse([]byte(s))
	e := json.Expect(s)
	if bad == "" && n.Kind == jt.Object {
		sym.Assert(err == nil && len(m) == len(e), "Parse of an object")
		for _, k := range n.Keys {
			_, ok := m[k]
			sym.Assert(ok, "a member is not there")
			_, ok = e[k]
			sym.Assert(ok, "a member is not there")
		}
	} else if bad != "" {
		sym.Assert(err != nil && m == nil, "Parse of a text that is no JSON")
		sym.Assert(len(e) == 1 && e["error"] == err.Error(), "Expect of a text that is no JSON")
	}
	sym.Reach("end")
}

// Broken: texts with one fault of each kind are refused: p = {}.
func Broken(p []int) {
	sp := &spacer{}
	v := value(0, 1, sp)
	s := []string{
		`{"a":` + v + ` "b":1}`, `{"a" ` + v + `}`, `{"a"::` + v + `}`, `{,"a":` + v + `}`, `{"a":` + v + `,,"b":1}`, `{a:` + v + `}`,
		`{"a":[` + v + ` ` + v + `]}`, `{"a":[,` + v + `]}`, `["a"]`, `{"a":` + v + `x}`, `{"a":tru}`, `{"a":1.2.3}`, `{"a":1e2e3}`, `x{"a":` + v + `}`,
	}[sym.Choose("fault", 14)]
	c := json.NewFieldCounter([]byte(s))
	sym.Assert(c.Parse() != nil, "a text with a fault parses")
	sym.Reach("end")
}

// Large: long names, texts and numbers, deep values and many members, one byte of a name and one of
// a text arbitrary: p = {depth, members}.
func Large(p []int) {
	w := &want{}
	any := func(name string) string {
		c := sym.String(name, 1)
		sym.Assume(c[0] >= 0x20 && c[0] < 0x80 && c[0] != '"' && c[0] != '\\')
		return c
	}
	long := strings.Repeat(`a long name, of a field: {with} [everything] é\"`, 1+sym.Choose("times", 2)*6) + any("name")
	deep := ""
	end := ""
	for i := 0; i < p[0]; i++ {
		if i%3 == 1 {
			deep += ` [ 12 , `
			end = `, [], {} ]` + end
		} else {
			deep += `{"` + []string{"a", "fields", "x y"}[i%3] + `": null,"d":`
			end = ` ,"a":[{"a":{}}],"d" : "x"}` + end
		}
	}
	number := []string{strings.Repeat("1234567890", 30), "-0." + strings.Repeat("0", 200) + "1e-300", "1E+" + strings.Repeat("9", 40)}[sym.Choose("number", 3)]
	vals := []string{deep + number + end, `"` + strings.Repeat(`0123456789{}[],:\\`, 30) + any("text") + `"`, number, "[" + strings.Repeat("[", p[0]) + strings.Repeat("]", p[0]) + "]"}
	at := sym.Choose("at", p[1])
	s := "{"
	for i := 0; i < p[1]; i++ {
		if i > 0 {
			s += ","
		}
		n := []string{"a", "b", "a", "other", "a", "d"}[i%6]
		if i == at || i == at+1 {
			n = long
		}
		w.add(n)
		s += "\n\t" + `"` + n + `" :  ` + vals[i%len(vals)]
	}
	s += "\r\n}\n"
	c := json.NewFieldCounter([]byte(s))
	w.check(c, c.Parse())
	sym.Reach("end")
}

// Others: counters do not influence each other, nor does asking: p = {}.
func Others(p []int) {
	n := [2]string{sym.Letters("name", 1), sym.Letters("name", 1)}
	var cs [2]*json.FieldCounter
	var ws [2]*want
	for i := range cs {
		cs[i] = json.NewFieldCounter([]byte(`{"a":1,"` + n[i] + `":{"a":2},"` + n[0] + `":[]}`))
		ws[i] = &want{}
		ws[i].add("a")
		ws[i].add(n[i])
		ws[i].add(n[0])
	}
	if sym.Choose("broken before", 2) == 1 {
		b := json.NewFieldCounter([]byte(`{"a":1,"a":2,"a" 3}`))
		sym.Assert(b.Parse() != nil, "a text with a fault parses")
		b.Duplicates()
	}
	first := sym.Choose("first", 2)
	err := cs[first].Parse()
	if sym.Choose("ask", 2) == 1 {
		d := cs[first].Duplicates()
		d["a"] = 7
		d["zz"] = 8
		f := cs[first].Fields()
		f[0] = "zz"
	}
	other := cs[1-first].Parse()
	ws[first].check(cs[first], err)
	ws[1-first].check(cs[1-first], other)
	sym.Reach("end")
}
