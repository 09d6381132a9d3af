package logs

import (
	"log/slog"
	"strings"

	"github.com/madkins23/go-slog/internal/zzverif/jt"
	"github.com/madkins23/go-slog/internal/zzverif/sym"
)

// m is the model of one attribute.
type m struct {
	key    string
	text   string // leaf text
	group  bool
	kids   []m
	valuer bool // the value hides behind a LogValuer
	zero   bool // the zero Attr
}

// attr builds the attribute the model describes.
func (a m) attr() slog.Attr {
	if a.zero {
		return slog.Attr{}
	}
	v := slog.StringValue(a.text)
	if a.group {
		v = slog.GroupValue(attrs(a.kids)...)
	}
	if a.valuer {
		v = slog.AnyValue(valuer{v})
	}
	return slog.Attr{Key: a.key, Value: v}
}

func attrs(ms []m) []slog.Attr {
	var out []slog.Attr
	for _, a := range ms {
		out = append(out, a.attr())
	}
	return out
}

// rewriter is the model of a ReplaceAttr function: keep is false when it removes.
type rewriter func(groups []string, key, text string) (newKey, newText string, keep bool)

// expect is what a record holds for the attributes, by the rules of slog.Handler.
func expect(ms []m, groups []string, rw rewriter) []pair {
	var out []pair
	for _, a := range ms {
		switch {
		case a.zero:
			// ignored
		case a.group:
			inner := groups
			if a.key != "" {
				inner = append(append([]string{}, groups...), a.key)
			}
			kids := expect(a.kids, inner, rw)
			if a.key == "" {
				out = append(out, kids...)
			} else if len(kids) > 0 || rw != nil && hollow(a) {
				out = append(out, pair{a.key, obj(kids...)})
			}
		default:
			k, t, keep := a.key, a.text, true
			if rw != nil {
				k, t, keep = rw(groups, k, t)
			}
			if keep {
				out = append(out, pair{k, str(t)})
			}
		}
	}
	return out
}

// hollow: the group has attributes, though all of them may end up removed.
func hollow(a m) bool {
	for _, k := range a.kids {
		if k.zero {
			continue
		}
		if !k.group || hollow(k) {
			return true
		}
	}
	return false
}

// shapes is the number of attribute shapes.
const shapes = 22

// shape is the i-th attribute shape with the leaf text t; keys derive from id.
func shape(i int, id, t string) m {
	leaf := m{key: "k" + id, text: t}
	other := m{key: "o" + id, text: "x"}
	switch i {
	case 0:
		return leaf
	case 1:
		return m{zero: true}
	case 2:
		return m{key: "g" + id, group: true}
	case 3:
		return m{key: "g" + id, group: true, kids: []m{leaf}}
	case 4:
		return m{group: true, kids: []m{leaf, other}}
	case 5:
		return m{key: "g" + id, group: true, kids: []m{{zero: true}, {key: "h", group: true}}}
	case 6:
		return m{key: "g" + id, group: true, kids: []m{leaf, {key: "h", group: true}, other}}
	case 7:
		return m{key: "g" + id, group: true, kids: []m{{key: "h", group: true, kids: []m{leaf}}, other}}
	case 8:
		return m{key: "k" + id, text: t, valuer: true}
	case 9:
		return m{key: "g" + id, group: true, valuer: true, kids: []m{leaf}}
	case 10:
		return m{group: true, kids: []m{{key: "g" + id, group: true, kids: []m{leaf}}, other}}
	case 11:
		return m{key: "g" + id, group: true, kids: []m{{zero: true}, leaf, {zero: true}}}
	case 12:
		return m{key: "g" + id, group: true, kids: []m{{key: "v", text: t, valuer: true}, {key: "h", group: true, valuer: true, kids: []m{leaf}}}}
	case 13:
		return m{key: "", text: t}
	case 14:
		return m{group: true}
	case 21: // no key and no text, but not the zero attribute
		return m{}
	case 16: // a nested group with nothing but a zero attribute, before others
		return m{key: "g" + id, group: true, kids: []m{{key: "h", group: true, kids: []m{{zero: true}}}, leaf, {key: "i", group: true, kids: []m{{zero: true}}}}}
	case 18: // a LogValuer that is an empty group
		return m{key: "g" + id, group: true, valuer: true}
	case 19: // nothing in there but LogValuers that are empty groups
		return m{key: "g" + id, group: true, kids: []m{{key: "h", group: true, valuer: true}, {group: true, valuer: true, kids: []m{{key: "i", group: true, valuer: true}}}}}
	case 20: // empty and other LogValuers in one that is a group
		return m{key: "g" + id, group: true, valuer: true, kids: []m{{key: "h", group: true, valuer: true, kids: []m{{zero: true}}}, leaf, {key: "i", group: true, valuer: true}}}
	case 17: // nothing in there but zero attributes, at two depths
		return m{key: "g" + id, group: true, kids: []m{{zero: true}, {key: "h", group: true, kids: []m{{zero: true}}}, {group: true, kids: []m{{zero: true}}}}}
	}
	return m{key: "g" + id, group: true, kids: []m{{group: true, kids: []m{leaf, {key: "", group: true}}}, other}}
}

// letter is any one-letter text.
func letter(name string) string { return sym.Letters(name, 1) }

// op is one step in the history of a handler: a group when attrs is nil.
type op struct {
	group string
	attrs []m
}

func (o op) apply(h slog.Handler) slog.Handler {
	if o.attrs == nil {
		return h.WithGroup(o.group)
	}
	return h.WithAttrs(attrs(o.attrs))
}

// build is the expected content below the message.
func build(ops []op, last []m, groups []string, rw rewriter) []pair {
	if len(ops) == 0 {
		return expect(last, groups, rw)
	}
	o := ops[0]
	if o.attrs != nil {
		first := expect(o.attrs, groups, rw)
		return append(first, build(ops[1:], last, groups, rw)...)
	}
	if o.group == "" {
		return build(ops[1:], last, groups, rw)
	}
	rest := build(ops[1:], last, append(append([]string{}, groups...), o.group), rw)
	if len(rest) == 0 {
		return nil
	}
	return []pair{{o.group, obj(rest...)}}
}

// chooseOp is any step: WithGroup, WithGroup(""), WithAttrs of nothing, of one or of two shapes.
func chooseOp(name string, two bool) op {
	n := 3 + shapes
	if two {
		n += 4
	}
	k := sym.Choose(name, n)
	switch {
	case k == 0:
		return op{group: "G" + name}
	case k == 1:
		return op{group: ""}
	case k == 2:
		return op{attrs: []m{}}
	case k < 3+shapes:
		return op{attrs: []m{shape(k-3, name, letter("t"+name))}}
	}
	t := letter("t" + name)
	switch k - 3 - shapes {
	case 0:
		return op{attrs: []m{shape(2, name+"a", t), shape(0, name+"b", t)}}
	case 1:
		return op{attrs: []m{shape(7, name+"a", t), shape(10, name+"b", t)}}
	case 2:
		return op{attrs: []m{shape(1, name+"a", t), shape(4, name+"b", t)}}
	}
	return op{attrs: []m{shape(9, name+"a", t), shape(6, name+"b", t)}}
}

func basics(below []pair) *node {
	return obj(append([]pair{{"level", str("INFO")}, {"msg", str("m")}}, below...)...)
}

// Structure logs a record of any shapes through a handler with any history:
// p = {handler, steps of history, attributes in the record}.
func Structure(p []int) {
	w := &sink{}
	h := newHandler(p[0], w, nil)
	var ops []op
	names := []string{"0", "1", "2", "3"}
	for i := 0; i < p[1]; i++ {
		o := chooseOp(names[i], p[1] < 2)
		ops = append(ops, o)
		h = o.apply(h)
	}
	var last []m
	for i := 0; i < p[2]; i++ {
		id := "r" + names[i]
		last = append(last, shape(sym.Choose("shape"+id, shapes), id, letter("t"+id)))
	}
	handle(h, rec(slog.LevelInfo, "m", attrs(last)...))
	sym.ObserveString("out", string(w.all))
	sym.Assert(w.calls == 1, "a record takes more than one Write")
	same(basics(build(ops, last, nil, nil)), line(w.all))
	sym.Reach("end")
}

// Siblings derives two handlers from one and checks that neither sees the other:
// p = {handler, depth of groups before, kind of the common step}.
func Siblings(p []int) {
	w := &sink{}
	h := newHandler(p[0], w, nil)
	var base []op
	step := func(ops []op, h slog.Handler, o op) ([]op, slog.Handler) {
		return append(append([]op{}, ops...), o), o.apply(h)
	}
	for i := 0; i < p[1]; i++ {
		base, h = step(base, h, op{group: "G"})
	}
	t := letter("t")
	switch p[2] {
	case 1:
		base, h = step(base, h, op{attrs: []m{{key: "a", text: t}}})
	case 2:
		base, h = step(base, h, op{attrs: []m{{key: "a", text: t}}})
		base, h = step(base, h, op{group: "H"})
	case 3:
		base, h = step(base, h, op{attrs: []m{{key: "a", text: strings.Repeat("x", 600)}}})
	case 4:
		base, h = step(base, h, op{attrs: []m{{key: "a", text: strings.Repeat("x", 5000)}}})
	}
	pick := func(name string) op {
		switch sym.Choose(name, 4) {
		case 0:
			return op{group: "S" + name}
		case 1:
			return op{attrs: []m{{key: "b" + name, text: letter("t" + name)}}}
		case 2:
			return op{attrs: []m{shape(7, name, letter("t"+name)), shape(4, "y"+name, "q")}}
		}
		return op{attrs: []m{}}
	}
	ops1, h1 := step(base, h, pick("1"))
	ops2, h2 := step(base, h, pick("2"))
	ops3, h3 := step(ops1, h1, pick("3"))
	ops4, h4 := step(ops1, h1, op{attrs: []m{{key: "z", text: "late"}}})
	order := sym.Choose("order", 2)
	use := func(ops []op, h slog.Handler) {
		last := []m{{key: "r", text: "v"}}
		handle(h, rec(slog.LevelInfo, "m", attrs(last)...))
		out := w.take()
		sym.ObserveString("out", string(out))
		same(basics(build(ops, last, nil, nil)), line(out))
	}
	if order == 0 {
		use(ops1, h1)
		use(ops2, h2)
		use(ops3, h3)
		use(ops4, h4)
		use(base, h)
		use(ops1, h1)
	} else {
		use(ops4, h4)
		use(base, h)
		use(ops3, h3)
		use(ops2, h2)
		use(ops1, h1)
		use(ops3, h3)
	}
	sym.Reach("end")
}

// Kept checks that handling leaves the caller's values alone and that the same handler
// gives the same record for the same input every time: p = {handler}.
func Kept(p []int) {
	w := &sink{}
	h := newHandler(p[0], w, nil)
	t := letter("t")
	with := shape([]int{7, 8, 12, 20}[sym.Choose("with", 4)], "w", t)
	list := []slog.Attr{slog.String("a", t), with.attr()}
	was := kinds(list)
	h1 := h.WithAttrs(list)
	sym.Assert(kinds(list) == was && len(list) == 2 && list[0].Key == "a" && list[1].Key == with.key, "WithAttrs changed the attributes it was given")
	list[0] = slog.String("changed", "changed")
	list[1] = slog.String("changed2", "changed")
	i := sym.Choose("shape", shapes)
	last := []m{shape(i, "r", t), {key: "z", text: t}}
	ops := []op{{attrs: []m{{key: "a", text: t}, with}}}
	r := rec(slog.LevelInfo, "m", attrs(last)...)
	count, was := r.NumAttrs(), kinds(held(r))
	handle(h1, r)
	sym.Assert(kinds(held(r)) == was, "Handle changed the attributes of the record")
	first := w.take()
	same(basics(build(ops, last, nil, nil)), line(first))
	// another record in between goes through the same pools
	handle(h, rec(slog.LevelInfo, "a much longer message so that buffers hold something else", slog.String("q", t)))
	w.take()
	handle(h1, r)
	sym.Assert(string(w.take()) == string(first), "the same record is written differently the second time")
	sym.Assert(r.NumAttrs() == count, "Handle changed the record")
	sym.Reach("end")
}

// kinds tells the kinds of values, those in groups included.
func kinds(list []slog.Attr) string {
	s := ""
	for _, a := range list {
		s += string(rune('0' + int(a.Value.Kind())))
		if a.Value.Kind() == slog.KindGroup {
			s += "(" + kinds(a.Value.Group()) + ")"
		}
	}
	return s
}

func held(r slog.Record) []slog.Attr {
	var out []slog.Attr
	r.Attrs(func(a slog.Attr) bool {
		out = append(out, a)
		return true
	})
	return out
}

// Returned: what a ReplaceAttr function returns is written like any attribute: p = {handler, place}.
func Returned(p []int) {
	t := letter("t")
	want := []pair{{"k", str(t + "!")}}
	var v slog.Value
	key := "k"
	group := slog.GroupValue(slog.Attr{}, slog.String("x", t), slog.Any("y", valuer{slog.StringValue("z")}))
	inner := []pair{{"x", str(t)}, {"y", str("z")}}
	switch sym.Choose("returns", 11) {
	case 0:
		v = slog.AnyValue(valuer{slog.StringValue(t + "!")})
	case 1:
		v = slog.AnyValue(valuer{slog.AnyValue(valuer{slog.StringValue(t + "!")})})
	case 2:
		v, want = group, []pair{{"k", obj(inner...)}}
	case 3:
		v, want = slog.AnyValue(valuer{group}), []pair{{"k", obj(inner...)}}
	case 4:
		key, v, want = "", group, inner
	case 5:
		key, v, want = "", slog.AnyValue(valuer{group}), inner
	case 6:
		key, v, want = "", slog.StringValue(t), []pair{{"", str(t)}}
	case 7:
		key, v, want = "", slog.IntValue(0), []pair{{"", num("0")}}
	case 8:
		v, want = slog.GroupValue(), nil
	case 9:
		key, v, want = "", slog.StringValue(""), []pair{{"", str("")}}
	case 10:
		v, want = slog.Value{}, []pair{{"k", &node{kind: jt.Null, text: "null"}}}
	}
	n, members := 0, 0
	fn := func(groups []string, a slog.Attr) slog.Attr {
		if a.Key == "x" || a.Key == "y" {
			members++
		}
		if a.Key == "k" {
			n++
			return slog.Attr{Key: key, Value: v}
		}
		return a
	}
	w := &sink{}
	h := newHandler(p[0], w, &slog.HandlerOptions{ReplaceAttr: fn})
	a := slog.String("k", "old")
	r := rec(slog.LevelInfo, "m", slog.Int("a", 1))
	switch p[1] {
	case 0:
		r.AddAttrs(a)
		want = append([]pair{{"a", num("1")}}, want...)
	case 1:
		h = h.WithAttrs([]slog.Attr{a})
		want = append(want, pair{"a", num("1")})
	case 2:
		h = h.WithGroup("g").WithAttrs([]slog.Attr{slog.Int("b", 2), a})
		want = []pair{{"g", obj(append(append([]pair{{"b", num("2")}}, want...), pair{"a", num("1")})...)}}
	case 3:
		r.AddAttrs(slog.Group("g", slog.Int("b", 2), a, slog.Int("c", 3)))
		want = []pair{{"a", num("1")}, {"g", obj(append(append([]pair{{"b", num("2")}}, want...), pair{"c", num("3")})...)}}
	}
	r.AddAttrs(slog.String("z", "y"))
	if p[1] == 2 {
		want[0].val.kids = append(want[0].val.kids, pair{"z", str("y")})
	} else {
		want = append(want, pair{"z", str("y")})
	}
	handle(h, r)
	sym.Assert(n == 1, "ReplaceAttr is called another number of times")
	if v.Resolve().Kind() == slog.KindGroup {
		sym.Assert(members == len(v.Resolve().Group())&^1, "ReplaceAttr is not called for the members of a group it returned")
	}
	same(basics(want), line(w.all))
	sym.Reach("end")
}

// Replace checks what ReplaceAttr is called with and what comes of it:
// p = {handler, steps, attributes, action}.
func Replace(p []int) {
	type call struct{ groups, key, text string }
	var calls []call
	act := p[3]
	rw := func(groups []string, key, text string) (string, string, bool) {
		top := len(groups) == 0
		switch act {
		case 1: // remove leaves named k…
			if strings.HasPrefix(key, "k") {
				return "", "", false
			}
		case 2: // rename and change
			return "R" + key, text + "!", true
		case 3: // remove the built-in ones
			if top && (key == "level" || key == "msg") {
				return "", "", false
			}
		case 4: // only inside groups
			if !top {
				return key + groups[len(groups)-1], text, true
			}
		case 5: // remove everything
			return "", "", false
		}
		return key, text, true
	}
	fn := func(groups []string, a slog.Attr) slog.Attr {
		sym.Assert(a.Value.Kind() != slog.KindGroup, "ReplaceAttr is called on a group")
		sym.Assert(a.Value.Kind() != slog.KindLogValuer, "ReplaceAttr sees an unresolved value")
		if a.Equal(slog.Attr{}) {
			return a
		}
		text := a.Value.String()
		calls = append(calls, call{strings.Join(groups, "."), a.Key, text})
		k, t, keep := rw(groups, a.Key, text)
		if !keep {
			return slog.Attr{}
		}
		return slog.String(k, t)
	}
	w := &sink{}
	h := newHandler(p[0], w, &slog.HandlerOptions{ReplaceAttr: fn})
	var ops []op
	names := []string{"0", "1", "2", "3"}
	for i := 0; i < p[1]; i++ {
		o := chooseOp(names[i], false)
		ops = append(ops, o)
		h = o.apply(h)
	}
	var last []m
	for i := 0; i < p[2]; i++ {
		id := "r" + names[i]
		last = append(last, shape(sym.Choose("shape"+id, shapes), id, letter("t"+id)))
	}
	last = append(last, m{key: "level", text: "user"})
	handle(h, rec(slog.LevelInfo, "m", attrs(last)...))
	out := w.take()
	sym.ObserveString("out", string(out))
	// what must have been asked
	var want []call
	ask := func(groups []string, key, text string) (string, string, bool) {
		want = append(want, call{strings.Join(groups, "."), key, text})
		return rw(groups, key, text)
	}
	below := build(ops, last, nil, ask)
	base := expect([]m{{key: "level", text: "INFO"}, {key: "msg", text: "m"}}, nil, rw)
	got := line(out)
	sameHollow(obj(append(base, below...)...), got, act == 1 || act == 5)
	want = append(want, call{"", "level", "INFO"}, call{"", "msg", "m"})
	for _, c := range want {
		n, k := 0, 0
		for _, d := range want {
			if c == d {
				n++
			}
		}
		for _, d := range calls {
			if c == d {
				k++
			}
		}
		sym.Assert(k >= n, "ReplaceAttr is not called for an attribute, or with other groups")
	}
	sym.Assert(len(calls) == len(want), "ReplaceAttr is called too often")
	sym.Reach("end")
}

// sameHollow is same, except that a group emptied by ReplaceAttr may be there or not.
func sameHollow(want *node, got *jt.Node, lenient bool) {
	if !lenient {
		same(want, got)
		return
	}
	w, g := prune(want), pruneGot(got)
	same(w, g)
}

func prune(n *node) *node {
	if n.kind != jt.Object {
		return n
	}
	out := obj()
	for _, k := range n.kids {
		v := prune(k.val)
		if v.kind == jt.Object && len(v.kids) == 0 {
			continue
		}
		out.kids = append(out.kids, pair{k.key, v})
	}
	return out
}

func pruneGot(n *jt.Node) *jt.Node {
	if n.Kind != jt.Object {
		return n
	}
	out := &jt.Node{Kind: jt.Object}
	for i, k := range n.Kids {
		v := pruneGot(k)
		if v.Kind == jt.Object && len(v.Kids) == 0 {
			continue
		}
		out.Keys = append(out.Keys, n.Keys[i])
		out.Kids = append(out.Kids, v)
	}
	return out
}
