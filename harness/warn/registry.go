package warn

import (
	"strconv"
	"strings"

	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/zzverif/sym"
)

var levelText = []struct {
	l warning.Level
	s string
}{{warning.LevelAdmin, "Administrative"}, {warning.LevelSuggested, "Suggested"}, {warning.LevelImplied, "Implied"}, {warning.LevelRequired, "Required"}}

// Parse parses any text: p = {kind, length or word}.
func Parse(p []int) {
	words := []string{"admin", "administrative", "suggested", "implied", "required"}
	levels := []warning.Level{warning.LevelAdmin, warning.LevelAdmin, warning.LevelSuggested, warning.LevelImplied, warning.LevelRequired}
	if p[0] == 0 {
		// a word in any mix of cases
		b := []byte(words[p[1]])
		for i := range b {
			if i%3 != 1 && sym.Bool("upper") {
				b[i] -= 32
			}
		}
		l, err := warning.ParseLevel(string(b))
		sym.Assert(err == nil && l == levels[p[1]], "a level name does not parse")
		sym.Reach("end")
		return
	}
	var s string
	switch p[0] {
	case 1:
		s = sym.String("s", p[1])
	case 3, 4:
		// a word with something put in
		w := words[p[1]]
		i := sym.Choose("at", len(w)+1)
		s = w[:i] + sym.String("s", p[0]-2) + w[i:]
		if p[1] < 2 {
			for _, o := range words[:2] {
				sym.Assume(len(s) != len(o) || !strings.EqualFold(s, o))
			}
		}
	case 5:
		// a part of a word
		w := words[p[1]]
		i := sym.Choose("from", len(w))
		j := i + sym.Choose("length", len(w)-i+1)
		if p[1] == 1 && i == 0 && j == 5 || j-i == len(w) {
			s = w + w
		} else {
			s = w[i:j]
		}
	default:
		// a word with one letter replaced
		w := words[p[1]]
		i := sym.Choose("at", len(w))
		c := sym.Byte("c")
		sym.Assume(c != w[i] && c != w[i]-32)
		s = w[:i] + string([]byte{c}) + w[i+1:]
	}
	l, err := warning.ParseLevel(s)
	sym.Assert(err != nil && l != warning.LevelAdmin && l != warning.LevelSuggested && l != warning.LevelImplied && l != warning.LevelRequired, "a text that is no level name parses")
	sym.Reach("end")
}

// LevelName: every level has a name of its own that parses back: p = {window}.
func LevelName(p []int) {
	l := warning.Level(sym.Uint64("level"))
	s := l.String()
	known := false
	for _, t := range levelText {
		if l == t.l {
			known = true
			sym.Assert(s == t.s, "name of a level")
			b, err := warning.ParseLevel(s)
			sym.Assert(err == nil && b == l, "the name of a level does not parse back")
		}
	}
	if !known {
		for _, t := range levelText {
			sym.Assert(s != t.s && s != "", "name of an unknown level")
		}
		sym.Assert(len(warning.WarningsForLevel(l)) == 0 && len(l.Warnings()) == 0, "warnings of an unknown level")
	}
	sym.Reach("end")
}

func count(ws []*warning.Warning, w *warning.Warning) int {
	n := 0
	for _, x := range ws {
		if x == w {
			n++
		}
	}
	return n
}

func inOrder(ws []*warning.Warning, l warning.Level) {
	for i, w := range ws {
		sym.Assert(w.Level == l, "a warning in the list of another level")
		sym.Assert(i == 0 || ws[i-1].Name < w.Name, "warnings of a level are not in order of their names")
		sym.Assert(warning.ByName(w.Name) == w, "ByName does not find a warning")
		sym.Assert(w.Error() == l.String()+" ["+w.Name+"] "+w.Summary, "text of a warning")
	}
}

// Create makes warnings: names are unique, each is in the list of its level and found by its
// name: p = {number, length of the name, ask before}.
func Create(p []int) {
	var made []*warning.Warning
	size := map[warning.Level]int{}
	for _, t := range levelText {
		if p[2] == 1 {
			size[t.l] = len(warning.WarningsForLevel(t.l))
		}
	}
	sizes := size
	for i := 0; i < p[3]; i++ {
		l := levelText[i%4].l
		w := warning.NewWarning(l, "Made "+strconv.Itoa(i*7%p[3]), "", "")
		made = append(made, w)
		sizes[l]++
	}
	for i := 0; i < p[0]; i++ {
		name := sym.Letters("name", p[1])
		l := levelText[sym.Choose("level", 4)].l
		before := warning.ByName(name)
		var prev *warning.Warning
		for _, w := range made {
			if w.Name == name {
				prev = w
			}
		}
		sym.Assert(before == prev, "ByName finds a warning that was not made")
		summary := sym.String("summary", 1)
		w := warning.NewWarning(l, name, summary, "")
		if prev != nil {
			sym.Assert(w == prev, "two warnings of the same name")
		} else {
			sym.Assert(w.Name == name && w.Level == l && w.Summary == summary && !w.HasDescription(), "parts of a warning")
			made = append(made, w)
			sizes[l]++
		}
		sym.Assert(warning.ByName(name) == w, "ByName does not find a new warning")
		if p[2] == 1 {
			sym.Assert(len(warning.WarningsForLevel(l)) == sizes[l], "number of warnings of a level")
		}
	}
	for _, t := range levelText {
		ws := t.l.Warnings()
		inOrder(ws, t.l)
		if p[2] == 1 {
			sym.Assert(len(ws) == sizes[t.l], "number of warnings of a level")
		}
		for _, w := range made {
			n := 0
			if w.Level == t.l {
				n = 1
			}
			sym.Assert(count(ws, w) == n, "a new warning is not in the list of its level exactly once")
		}
	}
	sym.Reach("end")
}

// Predefined: the warnings of the package itself are in the list of their level.
func Predefined(p []int) {
	lists := [][]*warning.Warning{warning.Administrative(), warning.Suggested(), warning.Implied(), warning.Required()}
	all := 0
	for i, t := range levelText {
		ws := warning.WarningsForLevel(t.l)
		sym.Assert(len(ws) > 0, "a level without warnings")
		for _, w := range lists[i] {
			sym.Assert(count(ws, w) == 1, "a warning is not in the list of its level")
			all++
		}
		inOrder(ws, t.l)
		for _, w := range ws {
			sym.Assert(w.Name != "", "a warning without name")
			e := sym.String("extra", 1)
			sym.Assert(w.ErrorExtra(e).Error() == w.Error()+": "+e, "text of a warning with extra text")
		}
	}
	for i, l := range warning.LevelOrder {
		sym.Assert(i == 0 || warning.LevelOrder[i-1] > l, "order of levels")
	}
	sym.Assert(len(warning.LevelOrder) == 4, "number of levels")
	sym.Assert(warning.ByName("no such warning") == nil, "ByName finds what is not there")
	sym.Assert(!warning.ByName("no such warning").HasDescription(), "description of no warning")
	sym.Reach("end")
}
