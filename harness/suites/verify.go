package suites

import (
	"io"
	"log/slog"
	"strings"
	"testing"

	"github.com/madkins23/go-slog/infra"
	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/zzverif/sym"
	"github.com/madkins23/go-slog/verify/tests"
)

type suite = *tests.SlogTestSuite

// verification is a test of the suite and what it looks at in a line of output:
// b: level and message, t: the time, m: fields that are too many, d: fields that are there twice,
// g: fields that are too many in groups, c: only the number of fields, x: not what the derived logger wrote.
type verification struct {
	name string
	run  func(suite)
	sees string
	n    int // lines
}

var all = []verification{
	0:  {"Attributes", suite.TestAttributes, "md", 1},
	1:  {"AttributesEmpty", suite.TestAttributesEmpty, "md", 1},
	2:  {"AttributesNotEmpty", suite.TestAttributesNotEmpty, "", 1},
	3:  {"AttributesWith", suite.TestAttributesWith, "md", 1},
	4:  {"AttributesWithEmpty", suite.TestAttributesWithEmpty, "md", 1},
	5:  {"AttributesWithNotEmpty", suite.TestAttributesWithNotEmpty, "md", 1},
	6:  {"Group", suite.TestGroup, "mdg", 1},
	7:  {"GroupEmpty", suite.TestGroupEmpty, "md", 1},
	8:  {"WithGroupEmpty", suite.TestWithGroupEmpty, "md", 1},
	9:  {"GroupInline", suite.TestGroupInline, "md", 1},
	10: {"WithGroupInline", suite.TestWithGroupInline, "md", 1},
	11: {"GroupWith", suite.TestGroupWith, "mdg", 1},
	12: {"GroupWithMulti", suite.TestGroupWithMulti, "mdg", 1},
	13: {"GroupWithMultiSubEmpty", suite.TestGroupWithMultiSubEmpty, "mdg", 1},
	14: {"Keys", suite.TestKeys, "btmd", 1},
	15: {"ResolveGroup", suite.TestResolveGroup, "mdg", 1},
	16: {"ResolveGroupWith", suite.TestResolveGroupWith, "mdg", 1},
	17: {"ResolveWith", suite.TestResolveWith, "md", 1},
	18: {"ResolveValuer", suite.TestResolveValuer, "md", 1},
	19: {"ZeroPC", suite.TestZeroPC, "btmd", 1},
	20: {"ZeroTime", suite.TestZeroTime, "bmd", 1},
	21: {"AttributeEmptyName", suite.TestAttributeEmptyName, "md", 1},
	22: {"AttributeNil", suite.TestAttributeNil, "md", 1},
	23: {"AttributeWithEmpty", suite.TestAttributeWithEmpty, "md", 1},
	24: {"AttributeWithEmptyName", suite.TestAttributeWithEmptyName, "md", 1},
	25: {"AttributeWithNil", suite.TestAttributeWithNil, "md", 1},
	26: {"CanceledContext", suite.TestCanceledContext, "btmd", 3},
	27: {"DefaultLevel", suite.TestDefaultLevel, "", 0},
	28: {"DerivedInvariantWith", suite.TestDerivedInvariantWith, "x", 3},
	29: {"DerivedInvariantWithGroup", suite.TestDerivedInvariantWithGroup, "x", 3},
	30: {"Disabled", suite.TestDisabled, "", 0},
	31: {"SourceKey", suite.TestSourceKey, "btmdg", 1},
	32: {"KeyCase", suite.TestKeyCase, "", 4},
	33: {"LevelVar", suite.TestLevelVar, "", 0},
	34: {"LogAttributes", suite.TestLogAttributes, "md", 1},
	35: {"AnyMap", suite.TestAnyMap, "", 1},
	36: {"LevelConfigured", suite.TestLevelConfigured, "", 0},
	37: {"LevelDifferent", suite.TestLevelDifferent, "", 0},
	38: {"GroupDuration", suite.TestGroupDuration, "", 1},
	39: {"GroupWithTop", suite.TestGroupWithTop, "", 1},
	40: {"TimestampFormat", suite.TestTimestampFormat, "tmd", 1},
	41: {"StringEscape", suite.TestStringEscape, "md", 3},
	42: {"ReplaceAttr", suite.TestReplaceAttr, "md", 1},
	43: {"ReplaceAttrBasic", suite.TestReplaceAttrBasic, "md", 1},
	44: {"ReplaceAttrGroup", suite.TestReplaceAttrGroup, "bmg", 1},
	45: {"ReplaceAttrFnLevelCase", suite.TestReplaceAttrFnLevelCase, "", 2},
	46: {"ReplaceAttrFnRemoveEmptyKey", suite.TestReplaceAttrFnRemoveEmptyKey, "", 2},
	47: {"ReplaceAttrFnChangeKey", suite.TestReplaceAttrFnChangeKey, "", 1},
	48: {"ReplaceAttrFnMulti", suite.TestReplaceAttrFnMulti, "bm", 1},
	49: {"ReplaceAttrFnRemoveTime", suite.TestReplaceAttrFnRemoveTime, "", 2},
	50: {"AttributeDuplicate", suite.TestAttributeDuplicate, "mdc", 1},
	51: {"AttributeWithDuplicate", suite.TestAttributeWithDuplicate, "mdc", 1},
	52: {"ComplexCases", suite.TestComplexCases, "bmg", 3},
	53: {"SlogTest", suite.TestSlogTest, "", 3},
}

// quirks are the warnings that forgive what is wrong and the tests that notice it.
var quirks = [nQuirks]struct {
	w     *warning.Warning
	tests []int
}{
	levelLower:       {warning.LevelCase, []int{14, 19, 20, 26, 31, 32}},
	messageKey:       {warning.MessageKey, []int{14, 19, 20, 26, 31}},
	withGroupEmpty:   {warning.WithGroupEmpty, []int{8}},
	groupInline:      {warning.GroupInline, []int{9}},
	noEmptyName:      {warning.NoEmptyName, []int{2, 5, 21, 24}},
	noNilValue:       {warning.NoNilValue, []int{22, 25}},
	emptyAttrs:       {warning.EmptyAttributes, []int{1, 4, 23, 42, 49}},
	noResolve:        {warning.Resolver, []int{15, 16, 17, 18}},
	noRepl:           {warning.NoReplAttr, []int{42, 43, 45, 48, 49}},
	noReplBasic:      {warning.NoReplAttrBasic, []int{43, 45, 48, 49}},
	zeroTime:         {warning.ZeroTime, []int{20}},
	zeroPC:           {warning.ZeroPC, []int{19}},
	canceled:         {warning.CanceledContext, []int{26}},
	defaultLevel:     {warning.DefaultLevel, []int{27}},
	levelMath:        {warning.LevelMath, []int{27, 33, 36, 37}},
	levelVar:         {warning.LevelVar, []int{33}},
	durSeconds:       {warning.DurationSeconds, []int{34}},
	durMillis:        {warning.DurationMillis, []int{34}},
	durString:        {warning.DurationString, []int{34, 38}},
	groupDur:         {warning.GroupDuration, []int{38}},
	timeMillis:       {warning.TimeMillis, []int{34}},
	timeSeconds:      {warning.TimeSeconds, []int{34}},
	groupWithTop:     {warning.GroupWithTop, []int{39}},
	sourceMissing:    {warning.SourceKey, []int{31}},
	sourceCaller:     {warning.SourceCaller, []int{31}},
	stringAny:        {warning.StringAny, []int{35}},
	withMutates:      {nil, []int{28}},
	withGroupMutates: {nil, []int{29}},
	escape:           {nil, []int{41}},
	enabledAlways:    {nil, []int{30, 33, 36, 37}},
	doubles:          {warning.Duplicates, []int{50, 51}},
	groupsArg:        {warning.ReplAttrGroup, []int{44}},
	withGroupLost:    {warning.WithGroup, []int{12}},
	durStringTop:     {nil, []int{38}},
	durStringGroup:   {nil, []int{38}},
}

// verdict runs a test of the suite with a handler.
func verdict(n int, quirk int, declared *warning.Warning, alter func(*[]*field)) (failed bool, mgr *warning.Manager) {
	return look(n, quirk, declared, alter, nil, 0)
}

func look(n int, quirk int, declared *warning.Warning, alter func(*[]*field), blank func() string, off slog.Level) (failed bool, mgr *warning.Manager) {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	s := tests.NewSlogTestSuite(infra.NewCreator("a/b", func(w io.Writer, o *slog.HandlerOptions) slog.Handler {
		h := newHandler(w, o, quirk, alter)
		h.blank, h.off = blank, off
		return h
	}, nil, "", nil))
	if declared != nil {
		s.WarnOnly(declared)
	}
	if sym.Native() {
		testing.Init()
	}
	t := new(testing.T)
	s.SetT(t)
	s.SetupTest()
	sym.RunTest(func() { all[n].run(s) })
	return t.Failed() || sym.TestFailed(), s.Manager
}

// Right: a handler that is right passes, whatever the order of its fields and with white space
// between them: p = {test, order, places}.
func Right(p []int) {
	line := 0
	var alter func(*[]*field)
	if p[1] > 0 {
		at := sym.Choose("line", max(all[p[0]].n, 1))
		alter = func(fs *[]*field) {
			if line++; line-1 != at {
				return
			}
			mix(fs, p[1])
			for _, f := range *fs {
				mix(&f.sub, p[1])
			}
		}
	}
	var blank func() string
	if p[2] > 0 {
		at, seen := sym.Choose("place", p[2]), 0
		text := []string{" ", "\t", "\r\n", "   "}[sym.Choose("blank", 4)]
		blank = func() string {
			if seen++; seen-1 == at {
				return text
			}
			return ""
		}
	}
	failed, mgr := look(p[0], right, nil, alter, blank, 0)
	sym.Assert(!failed, "a right handler fails "+all[p[0]].name)
	sym.Assert(complaints(mgr) == 0, "a right handler gets a warning")
	sym.Reach("verified")
}

// mix puts fields in any order (1: one of them first, 2: one of them last).
func mix(fs *[]*field, how int) {
	if len(*fs) < 2 {
		return
	}
	i := sym.Choose("field", len(*fs))
	f := (*fs)[i]
	rest := append((*fs)[:i:i], (*fs)[i+1:]...)
	if how == 1 {
		*fs = append([]*field{f}, rest...)
	} else {
		*fs = append(rest, f)
	}
}

// defect names the defect of the suite that shows in a test when a fault is there or only declared.
func defect(fault, test int) string {
	switch {
	case fault == withGroupMutates && test == 29:
		return "verify-derived-with-group"
	case fault == durStringGroup && test == 38:
		return "verify-duration-string"
	case fault == groupsArg && test == 44:
		return "verify-replattr-group"
	case fault == timeSeconds && test == 34:
		return "verify-time-seconds"
	case fault == noNilValue && (test == 22 || test == 25):
		return "verify-nil-value"
	case fault == emptyAttrs && (test == 42 || test == 49):
		return "verify-empty-attributes"
	}
	return ""
}

// spurious is defect for a warning that is declared when there is no fault.
func spurious(fault, test int) string {
	switch {
	case fault == noNilValue && (test == 22 || test == 25):
		return "verify-nil-value"
	case fault == emptyAttrs && (test == 42 || test == 49):
		return "verify-empty-attributes"
	case (fault == noRepl || fault == noReplBasic) && (test == 45 || test == 49):
		return "verify-replaced"
	case fault == defaultLevel && test == 27:
		return "verify-default-level"
	case fault == sourceMissing && test == 31:
		return "verify-source-line"
	}
	return ""
}

// Quirk: a handler that does one thing wrong: p = {what, declared}.
func Quirk(p []int) {
	q := quirks[p[0]]
	n := q.tests[sym.Choose("test", len(q.tests))]
	if p[1] == 0 {
		failed, _ := verdict(n, p[0], nil, nil)
		d := defect(p[0], n)
		sym.Finding(d, d != "", failed, all[n].name+" does not notice")
		sym.Reach("verified")
		return
	}
	if p[0] == durStringTop || p[0] == durStringGroup { // not what the warning is for
		failed, _ := verdict(n, p[0], warning.DurationString, nil)
		d := defect(p[0], n)
		sym.Finding(d, d != "", failed, all[n].name+" does not notice because a warning is declared")
		sym.Reach("verified")
		return
	}
	if q.w == nil {
		sym.Reach("nothing to declare")
		return
	}
	failed, mgr := verdict(n, p[0], q.w, nil)
	d := defect(p[0], n)
	sym.Finding(d, d != "", !failed, all[n].name+" fails although the warning is declared")
	sym.Finding(d, d != "", recorded(mgr, q.w) > 0, all[n].name+" does not record the warning")
	sym.Reach("verified")
}

// Declared: a right handler for which a warning has been declared passes, and hears of it: p = {quirk}.
func Declared(p []int) {
	q := quirks[p[0]]
	if q.w == nil {
		sym.Reach("nothing to declare")
		return
	}
	n := q.tests[sym.Choose("test", len(q.tests))]
	failed, mgr := verdict(n, right, q.w, nil)
	d := spurious(p[0], n)
	sym.Finding(d, d != "", !failed, "a right handler fails "+all[n].name+" when a warning is declared")
	sym.Finding(d, d != "", recorded(mgr, q.w) == 0, all[n].name+" records a warning that does not apply")
	sym.Finding(d, d != "", recorded(mgr, warning.Unused) > 0, all[n].name+" does not say that the warning is unused")
	sym.Reach("verified")
}

// Altered: a line of output is not what it should be, somewhere: p = {test, how, letters, declared}.
func Altered(p []int) {
	v := all[p[0]]
	at := sym.Choose("line", v.n)
	if strings.Contains(v.sees, "x") && at == 1 {
		sym.Reach("nothing to look at")
		return
	}
	var declared *warning.Warning
	if p[3] > 0 {
		ws := forgives(p[0])
		if len(ws) == 0 {
			sym.Reach("nothing to declare")
			return
		}
		declared = ws[sym.Choose("warning", len(ws))]
	}
	wrong, seen, failed, mgr := altered(p, at, right, declared)
	if !seen {
		sym.Reach("nothing to look at")
		return
	}
	flagged := failed || complaints(mgr) > 0
	d := ""
	if declared == warning.LevelCase && gone.name == slog.LevelKey && p[1] == 3 {
		d = "verify-level-case-missing"
	} else if declared == warning.NoNilValue && gone.text == "null" && p[1] == 0 {
		d = "verify-nil-value"
	}
	sym.Finding(d, d != "", !wrong || flagged, "wrong output passes")
	for _, w := range exact {
		if w == declared {
			sym.Finding(d, d == "verify-level-case-missing", !wrong || failed || complaints(mgr) > recorded(mgr, w), "something else is recorded as what is declared")
		}
	}
	sym.Reach("verified")
}

// Both: a line of output is not what it should be in one place, and there is a fault that is declared:
// p = {test, how, letters}. What is not the fault still makes the test fail or is recorded as something else.
func Both(p []int) {
	v := all[p[0]]
	var qs []int
	for q := range quirks {
		for _, i := range quirks[q].tests {
			if i == p[0] && quirks[q].w != nil {
				qs = append(qs, q)
			}
		}
	}
	q := qs[sym.Choose("fault", len(qs))]
	at := sym.Choose("line", v.n)
	wrong, seen, failed, mgr := altered(p, at, q, quirks[q].w)
	if !seen {
		sym.Reach("nothing to look at")
		return
	}
	sym.Assert(!wrong || failed || complaints(mgr) > recorded(mgr, quirks[q].w), "wrong output passes along with what is declared")
	sym.Reach("verified")
}

// altered runs a test with a handler of which a line is changed: p = {test, how, letters}.
// gone is the field that is no longer there under its name.
var gone field

func altered(p []int, at, quirk int, declared *warning.Warning) (wrong, seen, failed bool, mgr *warning.Manager) {
	v := all[p[0]]
	wrong, gone = true, field{}
	line := 0
	failed, mgr = verdict(p[0], quirk, declared, func(fs *[]*field) {
		line++
		if p[0] == 41 || p[0] == 32 { // whose lines come in any order
			if !anyOrder(*fs, p[0], at) {
				return
			}
		} else if line-1 != at {
			return
		}
		for _, f := range *fs {
			switch f.name {
			case slog.TimeKey:
				f.want = strings.Contains(v.sees, "t")
			case slog.LevelKey, slog.MessageKey, "message":
				f.want = strings.Contains(v.sees, "b")
				if f.bad && (quirk == messageKey || quirk == levelLower) && (p[1] == 1 || p[1] == 2 || p[1] == 7) {
					f.bad = false // only the name or the case is forgiven
				}
			case slog.SourceKey: // only the kind of a value counts
				for _, g := range f.sub {
					g.kind = true
				}
			}
		}
		leave(*fs)
		if len(*fs) > 0 && count(*fs) == 0 && p[1] != 4 && p[1] != 5 {
			return
		}
		seen = true
		pick := func() (*[]*field, int, *field) {
			n := sym.Choose("field", count(*fs))
			l, i := find(fs, &n)
			return l, i, (*l)[i]
		}
		kinds := func(f *field, was string) bool {
			if strings.Contains(v.sees, "c") {
				return false
			}
			return !f.kind || (was[0] == '"') != (f.text[0] == '"') || (f.text[0] > '9') != (was[0] > '9')
		}
		switch p[1] {
		case 0: // a field is missing
			l, i, f := pick()
			gone = *f
			*l = append((*l)[:i:i], (*l)[i+1:]...)
		case 1: // a field has some other text
			_, _, f := pick()
			was := f.text
			group := f.group
			f.group, f.text = false, `"`+sym.Letters("text", p[2])+`"`
			wrong = (group || f.text != was && kinds(f, was)) && !strings.Contains(v.sees, "c")
			if f.name == slog.TimeKey && p[0] != 40 {
				wrong = false
			}
		case 2: // one byte of a text is another letter
			_, _, f := pick()
			if f.group || f.text[0] != '"' || f.name == slog.TimeKey || len(f.text) < 3 {
				wrong = false
				return
			}
			i := 1 + sym.Choose("place", len(f.text)-2)
			text := f.text[:i] + sym.Letters("letter", 1) + f.text[i+1:]
			was := f.text
			f.text = text
			wrong = text != was && kinds(f, was)
			if declared == warning.LevelCase && f.name == slog.LevelKey && strings.EqualFold(text, was) {
				wrong = false
			}
		case 3: // a field has another name
			_, _, f := pick()
			gone = *f
			was := f.name
			f.name = sym.Letters("name", p[2])
			sym.Assume(f.name != was)
			wrong = !strings.Contains(v.sees, "c")
		case 4: // a field is there twice
			i := sym.Choose("field", len(*fs))
			f := *(*fs)[i]
			*fs = append([]*field{&f}, *fs...)
			wrong = strings.Contains(v.sees, "d")
		case 5: // a field more, at the top or in a group
			size := []int{p[2], 0}[sym.Choose("named", 2)]
			f := val(sym.Letters("name", size), `"`+sym.Letters("text", p[2])+`"`)
			to := fs
			if k := sym.Choose("where", 1+groups(*fs)); k > 0 {
				to = group(*fs, &k)
			}
			known := false
			for _, g := range *to {
				known = known || g.name == f.name
			}
			sym.Assume(!known)
			*to = append(*to, f)
			wrong = strings.Contains(v.sees, "m") && to == fs || strings.Contains(v.sees, "g") && to != fs
		case 7: // a text goes on, before or after
			_, _, f := pick()
			if f.group || f.text[0] != '"' || f.name == slog.TimeKey {
				wrong = false
				return
			}
			was := f.text
			if more := sym.Letters("more", 1); sym.Choose("end", 2) == 0 {
				f.text = `"` + more + was[1:]
			} else {
				f.text = was[:len(was)-1] + more + `"`
			}
			wrong = kinds(f, was)
		case 6: // a number is another one
			_, _, f := pick()
			if f.group || f.text[0] == '"' || f.text[0] == '{' {
				wrong = false
				return
			}
			was := f.text
			f.text = []string{"18", "-1.5", "null", "true", "6e10", "[]"}[sym.Choose("number", 6)]
			wrong = f.text != was && (f.text != "6e10" || f.name != "howLong") && kinds(f, was)
		}
	})
	return
}

// leave makes what a fault writes nothing to look at.
func leave(fs []*field) {
	for _, f := range fs {
		if f.bad {
			f.want = false
		}
		leave(f.sub)
	}
}

// groups is the number of groups in a line.
func groups(fs []*field) int {
	n := 0
	for _, f := range fs {
		if f.group {
			n += 1 + groups(f.sub)
		}
	}
	return n
}

// group is the k-th of them.
func group(fs []*field, k *int) *[]*field {
	for _, f := range fs {
		if f.group {
			if *k--; *k == 0 {
				return &f.sub
			}
			if g := group(f.sub, k); g != nil {
				return g
			}
		}
	}
	return nil
}

// anyOrder finds a line by its content.
func anyOrder(fs []*field, test, which int) bool {
	for _, f := range fs {
		if test == 41 && f.name == "esc" {
			return strings.HasPrefix(f.text, []string{`"3`, `"Quote`, `"Control`}[which])
		}
		if test == 32 && f.name == slog.LevelKey {
			return f.text == []string{`"DEBUG"`, `"INFO"`, `"WARN"`, `"ERROR"`}[which]
		}
	}
	return false
}

// forgives gives the warnings that a test knows.
func forgives(n int) (ws []*warning.Warning) {
	for _, q := range quirks {
		if q.w == nil {
			continue
		}
		for _, i := range q.tests {
			if i == n {
				ws = append(ws, q.w)
				break
			}
		}
	}
	return append(ws, knows[n]...)
}

// exact are the warnings that are for one thing only.
var exact = []*warning.Warning{warning.LevelCase, warning.MessageKey, warning.GroupInline, warning.EmptyAttributes, warning.ZeroTime, warning.ZeroPC,
	warning.SourceCaller, warning.CanceledContext, warning.DurationString, warning.GroupDuration, warning.GroupWithTop,
	warning.TimeMillis, warning.TimeSeconds, warning.DurationSeconds, warning.DurationMillis, warning.LevelVar, warning.LevelMath, warning.DefaultLevel}

// knows are more warnings that tests know, without a fault of the reference handler for them.
var knows = map[int][]*warning.Warning{
	12: {warning.Duplicates},
	13: {warning.WithGroup, warning.GroupEmpty},
	14: {warning.Duplicates},
	42: {warning.EmptyAttributes},
	43: {warning.MessageKey},
	44: {warning.EmptyAttributes, warning.LevelCase, warning.MessageKey},
	48: {warning.EmptyAttributes, warning.LevelCase, warning.MessageKey},
	52: {warning.Mismatch},
}

// Slogtest: the tests of testing/slogtest fail, and are forgiven: p = {what is wrong, declared}.
func Slogtest(p []int) {
	var declared *warning.Warning
	if p[1] > 0 {
		declared = warning.SlogTest
	}
	failed, mgr := verdict(53, p[0], declared, nil)
	if p[0] == right {
		sym.Assert(!failed, "a right handler fails SlogTest")
		sym.Assert((recorded(mgr, warning.Unused) > 0) == (p[1] > 0), "SlogTest does not say whether the warning is unused")
	} else {
		sym.Assert(failed == (p[1] == 0), "SlogTest fails when the warning is declared, or passes when it is not")
	}
	sym.Assert((recorded(mgr, warning.SlogTest) > 0) == (p[0] != right && p[1] > 0), "SlogTest does not record the warning")
	sym.Reach("verified")
}

// Levels: a handler that is enabled from some other level on is noticed: p = {test}.
func Levels(p []int) {
	off := slog.Level(sym.Int16("off"))
	failed, mgr := look(p[0], right, nil, nil, nil, off)
	bad := off != 0
	if p[0] == 30 {
		bad = off <= slog.LevelDebug
	}
	sym.Assert(failed == bad, "the test does not say whether the level is right")
	sym.Assert(complaints(mgr) == 0, "a warning that was not declared")
	sym.Reach("verified")
}
