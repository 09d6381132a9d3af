// Package server asks the server for its pages.
package server

import (
	"context"
	"log/slog"
	"net/http"
	"net/url"
	"os"
	"sort"
	"strconv"
	"strings"

	"github.com/gin-gonic/gin"
	"github.com/madkins23/gin-utils/pkg/shutdown"

	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/scoring/axis"
	"github.com/madkins23/go-slog/internal/scoring/score"
	server "github.com/madkins23/go-slog/internal/zzverif/main_server"
	"github.com/madkins23/go-slog/internal/zzverif/sym"
)

type response struct {
	code   int
	header http.Header
	body   []byte
}

func (r *response) Header() http.Header { return r.header }
func (r *response) WriteHeader(c int)   { r.code = c }
func (r *response) Write(b []byte) (int, error) {
	r.body = append(r.body, b...)
	return len(b), nil
}

var router *gin.Engine

// flags are more of the command.
var flags []string

// textNames are the files there are to show.
var textNames []string

// none drops what is logged.
type none struct{}

func (none) Enabled(context.Context, slog.Level) bool  { return false }
func (n none) WithAttrs([]slog.Attr) slog.Handler      { return n }
func (n none) WithGroup(string) slog.Handler           { return n }
func (none) Handle(context.Context, slog.Record) error { return nil }

// start runs the command on files of these contents up to where it would serve.
func start(bench, verify string, texts ...string) {
	gin.SetMode(gin.ReleaseMode)
	textNames = nil
	var names, paths []string
	for i := 0; i < len(texts); i += 2 {
		path := sym.File("text"+strconv.Itoa(i), texts[i+1])
		if texts[i+1] == "-" { // is not there
			path += "-none"
		}
		names, paths = append(names, texts[i]), append(paths, path)
		if texts[i+1] != "-" && texts[i+1] != "" {
			textNames = append(textNames, texts[i])
		}
	}
	server.Reset(names, paths)
	os.Args = []string{"server", "-bench=" + sym.File("bench", bench), "-verify=" + sym.File("verify", verify)}
	os.Args = append(os.Args, flags...)
	router = nil
	shutdown.OnServe = func(r *gin.Engine) error { router = r; return nil }
	server.Main()
	sym.Assert(router != nil, "nothing is served")
	slog.SetDefault(slog.New(none{}))
}

// get asks for a path.
func get(path string) *response {
	r := &response{header: http.Header{}}
	router.ServeHTTP(r, &http.Request{Method: "GET", URL: &url.URL{Path: path}, Header: http.Header{}, Proto: "HTTP/1.1", Host: "localhost:8080", RemoteAddr: "127.0.0.1:4000"})
	return r
}

// ---- reading pages ----

// token is a tag with its attributes or a text.
type token struct {
	tag   string // with / where it ends
	attrs [][2]string
	text  string
}

func letter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func space(c byte) bool  { return c == ' ' || c == '\n' || c == '\t' || c == '\r' }

var entities = [][2]string{{"&lt;", "<"}, {"&gt;", ">"}, {"&amp;", "&"}, {"&#34;", "\""}, {"&#39;", "'"}, {"&#43;", "+"}, {"&#96;", "`"}, {"&larr;", "<-"}, {"&rarr;", "->"}, {"&ldquo;", "\""}, {"&rdquo;", "\""}, {"&lsquo;", "'"}, {"&rsquo;", "'"}, {"&quot;", "\""}}

func unescape(s string) string {
	var out []byte
	for i := 0; i < len(s); {
		if s[i] == '&' {
			found := false
			for _, e := range entities {
				if len(s)-i >= len(e[0]) && s[i:i+len(e[0])] == e[0] {
					out = append(out, e[1]...)
					i += len(e[0])
					found = true
					break
				}
			}
			if found {
				continue
			}
		}
		out = append(out, s[i])
		i++
	}
	return string(out)
}

// squeeze makes one blank of blanks, and none at the ends.
func squeeze(s string) string {
	var out []byte
	gap := false
	for i := 0; i < len(s); i++ {
		if space(s[i]) {
			gap = len(out) > 0
			continue
		}
		if gap {
			out = append(out, ' ')
			gap = false
		}
		out = append(out, s[i])
	}
	return string(out)
}

// tokens reads what a browser would.
func tokens(body []byte) []token {
	var ts []token
	s := string(body)
	for i := 0; i < len(s); {
		if s[i] != '<' || i+1 >= len(s) || !(letter(s[i+1]) || s[i+1] == '/' || s[i+1] == '!') {
			j := i + 1
			for j < len(s) && s[j] != '<' {
				j++
			}
			if t := squeeze(unescape(s[i:j])); t != "" {
				ts = append(ts, token{text: t})
			}
			i = j
			continue
		}
		j := i + 1
		if s[j] == '!' { // a comment
			for j < len(s) && s[j] != '>' {
				j++
			}
			ts = append(ts, token{tag: "!"})
			i = j + 1
			continue
		}
		for j < len(s) && (letter(s[j]) || s[j] >= '0' && s[j] <= '9' || s[j] == '/' && j == i+1) {
			j++
		}
		t := token{tag: s[i+1 : j]}
		for j < len(s) && s[j] != '>' {
			if space(s[j]) || s[j] == '/' {
				j++
				continue
			}
			k := j
			for k < len(s) && !space(s[k]) && s[k] != '=' && s[k] != '>' && s[k] != '/' {
				k++
			}
			a := [2]string{s[j:k], ""}
			j = k
			if j < len(s) && s[j] == '=' {
				j++
				if j < len(s) && (s[j] == '"' || s[j] == '\'') {
					q := s[j]
					k = j + 1
					for k < len(s) && s[k] != q {
						k++
					}
					a[1] = unescape(s[j+1 : min(k, len(s))])
					j = k + 1
				} else {
					k = j
					for k < len(s) && !space(s[k]) && s[k] != '>' {
						k++
					}
					a[1] = unescape(s[j:k])
					j = k
				}
			}
			t.attrs = append(t.attrs, a)
		}
		ts = append(ts, t)
		i = j + 1
		if t.tag == "script" { // its text is not markup
			e := strings.Index(s[min(i, len(s)):], "</script>")
			if e >= 0 {
				i += e
			}
		}
	}
	return ts
}

func (t *token) attr(name string) (string, bool) {
	for _, a := range t.attrs {
		if a[0] == name {
			return a[1], true
		}
	}
	return "", false
}

type cell struct{ class, text string }

// page is what there is to see.
type page struct {
	rows    [][]cell
	links   [][2]string // where to, text
	options [][3]string // value, text, selected
	images  []string
	heads   []string
	toks    []token
}

// read sorts what is on a page. A cell holds its own text, not that of tables within it.
func read(r *response) *page {
	sym.Assert(r.code == 0 || r.code == 200, "the status of a page")
	p := &page{toks: tokens(r.body)}
	type open struct {
		tag   string
		class string
		text  []string
		cells []cell
	}
	var st []*open
	end := func() { // the innermost row or cell ends
		o := st[len(st)-1]
		st = st[:len(st)-1]
		if o.tag == "tr" {
			p.rows = append(p.rows, o.cells)
		} else if len(st) > 0 && st[len(st)-1].tag == "tr" {
			row := st[len(st)-1]
			row.cells = append(row.cells, cell{o.class, strings.Join(o.text, " ")})
		}
	}
	link, option, head := -1, -1, false
	for i := range p.toks {
		t := &p.toks[i]
		top := ""
		if len(st) > 0 {
			top = st[len(st)-1].tag
		}
		switch t.tag {
		case "":
			for j := len(st) - 1; j >= 0; j-- {
				if st[j].tag == "td" || st[j].tag == "th" {
					st[j].text = append(st[j].text, t.text)
				}
				break
			}
			if link >= 0 {
				p.links[link][1] += t.text
			}
			if option >= 0 {
				p.options[option][1] += t.text
			}
			if head {
				h := len(p.heads) - 1
				if p.heads[h] != "" {
					p.heads[h] += " "
				}
				p.heads[h] += t.text
			}
		case "table":
			st = append(st, &open{tag: "table"})
		case "/table":
			for len(st) > 0 && st[len(st)-1].tag != "table" {
				end()
			}
			if len(st) > 0 {
				st = st[:len(st)-1]
			}
		case "tr":
			for top == "td" || top == "th" || top == "tr" {
				end()
				top = ""
				if len(st) > 0 {
					top = st[len(st)-1].tag
				}
			}
			st = append(st, &open{tag: "tr"})
		case "/tr":
			if top == "td" || top == "th" {
				end()
			}
			if len(st) > 0 && st[len(st)-1].tag == "tr" {
				end()
			}
		case "td", "th":
			if top == "td" || top == "th" {
				end()
			}
			c, _ := t.attr("class")
			st = append(st, &open{tag: t.tag, class: c})
		case "/td", "/th":
			if top == "td" || top == "th" {
				end()
			}
		case "a":
			to, _ := t.attr("href")
			p.links, link = append(p.links, [2]string{to, ""}), len(p.links)
		case "/a":
			link = -1
		case "option":
			v, has := t.attr("value")
			sel := ""
			if _, is := t.attr("selected"); is {
				sel = "selected"
			}
			if !has {
				v = "-"
			}
			p.options, option = append(p.options, [3]string{v, "", sel}), len(p.options)
		case "/option":
			option = -1
		case "img":
			s, _ := t.attr("src")
			p.images = append(p.images, s)
		case "h1", "h2", "h3":
			p.heads, head = append(p.heads, ""), true
		case "/h1", "/h2", "/h3":
			head = false
		}
	}
	sym.Assert(len(p.toks) > 2 && p.toks[len(p.toks)-1].tag == "/html", "a page ends early")
	return p
}

// ---- the data ----

type handlerInfo struct{ tag, name, camel string }

var handlers = []handlerInfo{{"SlogJson", "slog/JSONHandler", "Slog Json"}, {"Flash", "madkins/flash", "Flash"}, {"AB", "x/y", "AB"}, {"Repl", "madkins/replattr", "Repl"}}

// handlers by their names
var order = []int{1, 3, 0, 2}

type testInfo struct{ tag, name string }

var tests = []testInfo{{"Logging", "Logging"}, {"BigGroup", "Big Group"}, {"Simple", "Simple"}}

// tests by their tags and names
var testOrder = []int{1, 0, 2}

type figures struct {
	runs, allocs, bytes uint64
	nanos, mb           string // with two digits, as they are
}

var some = []figures{
	{100, 0, 24, "10.50", "1.50"}, {1228219, 5, 418, "1041.00", "470809.52"}, {1, 1000, 999, "0.25", "0.00"}, {999, 90, 1234567, "25886.04", "12.34"},
}

// comma puts commas where thousands end.
func comma(s string) string {
	whole, rest := s, ""
	if i := strings.IndexByte(s, '.'); i >= 0 {
		whole, rest = s[:i], s[i:]
	}
	for i := len(whole) - 3; i > 0; i -= 3 {
		whole = whole[:i] + "," + whole[i:]
	}
	return whole + rest
}

func num(n uint64) string { return comma(strconv.FormatUint(n, 10)) }

type inst struct {
	h            int
	w            *warning.Warning
	source       string
	fn, tag      string
	name         string
	text, record string
}

var (
	warns = []*warning.Warning{warning.Mismatch, warning.Duplicates, warning.LevelCase, warning.SkippingTest}
	funcs = []struct{ fn, tag, name string }{{"TestGroupWith", "GroupWith", "Group With"}, {"BenchmarkSimple", "Simple", "Simple"}, {"TestKey", "Key", "Key"}}
)

// site is what the server has.
type site struct {
	n      int
	tests  int
	ran    [][]*figures
	ins    []inst
	summed bool
}

// files writes the files of a site.
func (s *site) files() (string, string) {
	var b, v strings.Builder
	for h := s.n - 1; h >= 0; h-- {
		b.WriteString("# Handler[" + handlers[h].tag + "]=\"" + handlers[h].name + "\"\n")
		for t := range s.ran[h] {
			if f := s.ran[h][t]; f != nil {
				b.WriteString("Benchmark" + handlers[h].tag + "/Benchmark" + tests[t].tag + "-8 \t " + strconv.FormatUint(f.runs, 10) + "\t " + f.nanos + " ns/op\t " + f.mb + " MB/s\t " +
					strconv.FormatUint(f.bytes, 10) + " B/op\t " + strconv.FormatUint(f.allocs, 10) + " allocs/op\n")
			}
		}
	}
	for h := 0; h < s.n; h++ {
		mb, mv := warning.NewWarningManager(handlers[h].name, "Test", "# "), warning.NewWarningManager(handlers[h].name, "Test", "")
		for _, in := range s.ins {
			if in.h == h {
				m := mv
				if in.source == "Bench" {
					m = mb
				}
				m.AddWarningFnText(in.w, in.fn, in.text, in.record)
			}
		}
		mb.ShowWarnings(&b)
		mv.ShowWarnings(&v)
	}
	return b.String(), v.String()
}

// has tells whether a handler ran anything.
func (s *site) has(h int) bool {
	for _, f := range s.ran[h] {
		if f != nil {
			return true
		}
	}
	return false
}

func (s *site) tested(t int) bool {
	for h := range s.ran {
		if s.ran[h][t] != nil {
			return true
		}
	}
	return false
}

// verifyTests are the tags of tests with warnings of the verification, by their names.
func (s *site) verifyTests() []int {
	var fs []int
	for _, f := range []int{0, 2, 1} {
		for _, in := range s.ins {
			if in.source == "Verify" && in.fn == funcs[f].fn {
				fs = append(fs, f)
				break
			}
		}
	}
	return fs
}

func same(got, want []string) {
	sym.Assert(len(got) == len(want), "another number of rows")
	for i := range want {
		sym.Assert(got[i] == want[i], "another row")
	}
}

// shown turns records of warnings into what rows show.
func shown(ins []inst, name func(inst) string, source bool) []string {
	ins = append([]inst{}, ins...)
	sort.SliceStable(ins, func(i, j int) bool {
		if ins[i].w.Level != ins[j].w.Level {
			return ins[i].w.Level > ins[j].w.Level
		}
		if ins[i].w.Name != ins[j].w.Name {
			return ins[i].w.Name < ins[j].w.Name
		}
		return name(ins[i]) < name(ins[j])
	})
	var out []string
	for i, in := range ins {
		if i == 0 || ins[i-1].w.Level != in.w.Level {
			out = append(out, "level "+in.w.Level.String())
		}
		if i == 0 || ins[i-1].w != in.w {
			out = append(out, "warning "+in.w.Name+"|"+squeeze(in.w.Summary))
		}
		s := ""
		if source {
			s = in.source + ": "
		}
		log := ""
		if in.record != "" {
			log = "Log"
		}
		out = append(out, "instance "+s+name(in)+"|"+squeeze(in.text)+"|"+log)
		out = append(out, "log "+in.record)
	}
	return out
}

// blanks drops all blanks.
func blanks(s string) string {
	var out []byte
	for i := 0; i < len(s); i++ {
		if !space(s[i]) {
			out = append(out, s[i])
		}
	}
	return string(out)
}

// listed is what the rows of warnings on a page show.
func (p *page) listed() []string {
	var out []string
	for _, r := range p.rows {
		switch {
		case len(r) == 1 && r[0].class == "level":
			out = append(out, "level "+r[0].text)
		case len(r) == 4 && r[1].class == "warning":
			out = append(out, "warning "+r[1].text+"|"+r[2].text)
		case len(r) == 3 && r[0].class == "name":
			out = append(out, "instance "+r[0].text+"|"+r[1].text+"|"+r[2].text)
		case len(r) == 2 && r[1].class == "logLine":
			out = append(out, "log "+blanks(r[1].text))
		}
	}
	return out
}

// figuresOf are the rows of a table of benchmarks.
func (p *page) figuresOf() []string {
	var out []string
	for _, r := range p.rows {
		if len(r) == 6 && r[0].text != "Benchmark" && r[0].text != "Handler" {
			s := ""
			for _, c := range r {
				s += c.text + "|"
			}
			out = append(out, s)
		}
	}
	return out
}

func record(name string, f *figures) string {
	return name + "|" + num(f.runs) + "|" + comma(f.nanos) + "|" + num(f.allocs) + "|" + num(f.bytes) + "|" + comma(f.mb) + "|"
}

func (p *page) headed(s string) bool {
	for _, h := range p.heads {
		if h == s {
			return true
		}
	}
	return false
}

// pictured asserts the charts of a page.
func (p *page) pictured(tag string, any bool) {
	var want []string
	for _, i := range p.images {
		if i != "/go-slog/home.svg" {
			want = append(want, i)
		}
	}
	if !any {
		sym.Assert(len(want) == 0, "charts of nothing")
		return
	}
	same(want, []string{"/go-slog/chart/" + tag + "/Nanos.svg", "/go-slog/chart/" + tag + "/MemAllocs.svg", "/go-slog/chart/" + tag + "/MemBytes.svg", "/go-slog/chart/" + tag + "/GbPerSec.svg"})
}

var keepers = []string{"Default", "Simple", "Size", "+Dedup", "+ReplAttr"}

// choices asserts the lists to choose from at the top of a page.
func (s *site) choices(p *page, chosen string) {
	var want []string
	add := func(value, text string) {
		sel := ""
		if value == chosen || "text/"+chosen+"/display.html" == value {
			sel = "selected"
		}
		want = append(want, value+"|"+text+"|"+sel)
	}
	for _, h := range order {
		if h < s.n && s.has(h) {
			add(handlers[h].tag, handlers[h].name)
		}
	}
	for _, t := range testOrder {
		if t < s.tests && s.tested(t) {
			add("Bench."+tests[t].tag, tests[t].name)
		}
	}
	for _, f := range s.verifyTests() {
		add("Verify."+funcs[f].tag, funcs[f].name)
	}
	for _, k := range keepers {
		add(k, k)
	}
	add("index.html", "Home")
	add("warnings.html", "Warnings")
	add("guts.html", "Guts")
	for _, n := range textNames {
		add("text/"+n+"/display.html", n)
	}
	var got []string
	for _, o := range p.options {
		if o[0] != "" && o[0] != "-" {
			got = append(got, o[0]+"|"+o[1]+"|"+o[2])
		}
	}
	same(got, want)
}

// Pages: everything the server has is on its pages, once: p = {handlers, tests, warnings}.
func Pages(p []int) {
	defer sym.Remove()
	s := some3(p)
	start(s.files())
	if len(p) > 3 {
		s.scores(keepers[p[3]])
	} else {
		s.check()
	}
	sym.Reach("end")
}

// some3 is a site of up to so many handlers, tests and warnings.
func some3(p []int) *site {
	s := &site{n: p[0], tests: p[1], ran: make([][]*figures, p[0])}
	for h := range s.ran {
		s.ran[h] = make([]*figures, p[1])
		for t := range s.ran[h] {
			if h == 0 && t == 0 || sym.Choose("ran", 2) == 1 {
				s.ran[h][t] = &some[(h*3+t)%len(some)]
			}
		}
	}
	for i := 0; i < p[2]; i++ {
		if sym.Choose("warned", 2) == 0 {
			continue
		}
		f := funcs[(i+i/3)%3]
		in := inst{h: i % p[0], w: warns[i*3%4], source: "Verify", fn: f.fn, tag: f.tag, name: f.name}
		if i%2 == 0 {
			in.text = "text " + strconv.Itoa(i) + "\nand more"
		}
		if i%3 == 0 {
			in.record = `{"a":` + strconv.Itoa(i) + `}`
		}
		if i%3 == 2 {
			in.source = "Bench"
		}
		if i == 1 {
			in.record = "{broken"
		}
		s.ins = append(s.ins, in)
	}
	return s
}

// inSource are the instances as they are loaded: those of the benchmarks first.
func (s *site) loaded() []inst {
	var out []inst
	for _, src := range []string{"Bench", "Verify"} {
		for _, in := range s.ins {
			if in.source == src {
				out = append(out, in)
			}
		}
	}
	return out
}

func (s *site) check() {
	ins := s.loaded()
	ask := "/go-slog/handler/" + handlers[0].tag + ".html"
	first := read(get(ask))
	// handlers
	for h := 0; h < s.n; h++ {
		p := read(get("/go-slog/handler/" + handlers[h].tag + ".html"))
		s.choices(p, handlers[h].tag)
		sym.Assert(p.headed("Handler "+handlers[h].name), "the title of a handler")
		var want []string
		for _, t := range testOrder {
			if t < s.tests && s.ran[h][t] != nil {
				want = append(want, record(tests[t].name, s.ran[h][t]))
			}
		}
		same(p.figuresOf(), want)
		p.pictured(handlers[h].tag, s.has(h))
		var mine []inst
		for _, in := range ins {
			if in.h == h {
				mine = append(mine, in)
			}
		}
		same(p.listed(), shown(mine, func(in inst) string { return in.name }, true))
	}
	// tests
	for t := 0; t < s.tests; t++ {
		tag := "Bench." + tests[t].tag
		p := read(get("/go-slog/test/" + tag + ".html"))
		var mine []inst
		for _, in := range ins {
			if in.source == "Bench" && in.tag == tests[t].tag {
				mine = append(mine, in)
			}
		}
		var want []string
		for h := range []int{0, 1, 2, 3} {
			// by tags of handlers
			h = []int{2, 1, 3, 0}[h]
			if h < s.n && s.ran[h][t] != nil {
				want = append(want, record(handlers[h].name, s.ran[h][t]))
			}
		}
		same(p.figuresOf(), want)
		p.pictured(tag, s.tested(t))
		same(p.listed(), shown(mine, func(in inst) string { return handlers[in.h].camel }, false))
		if s.tested(t) || len(mine) > 0 {
			sym.Assert(p.headed("Test "+tests[t].name), "the title of a test")
		}
		s.choices(p, tag)
	}
	for _, f := range s.verifyTests() {
		tag := "Verify." + funcs[f].tag
		p := read(get("/go-slog/test/" + tag + ".html"))
		var mine []inst
		for _, in := range ins {
			if in.source == "Verify" && in.fn == funcs[f].fn {
				mine = append(mine, in)
			}
		}
		same(p.figuresOf(), nil)
		p.pictured(tag, false)
		same(p.listed(), shown(mine, func(in inst) string { return handlers[in.h].camel }, false))
		sym.Assert(p.headed("Test "+funcs[f].name), "the title of a test")
		s.choices(p, tag)
	}
	s.home()
	s.warnings(ins)
	s.guts(ins)
	first.as(read(get(ask)))
}

// home: links to all there is.
func (s *site) home() {
	for _, path := range []string{"/go-slog/", "/go-slog/index.html"} {
		p := read(get(path))
		s.choices(p, "index.html")
		var want, got []string
		for _, h := range order {
			if h < s.n && s.has(h) {
				want = append(want, "/go-slog/handler/"+handlers[h].tag+".html|"+handlers[h].name)
			}
		}
		for _, t := range testOrder {
			if t < s.tests && s.tested(t) {
				want = append(want, "/go-slog/test/Bench."+tests[t].tag+".html|"+tests[t].name)
			}
		}
		for _, f := range s.verifyTests() {
			want = append(want, "/go-slog/test/Verify."+funcs[f].tag+".html|"+funcs[f].name)
		}
		for _, k := range keepers {
			want = append(want, "/go-slog/scores/"+strings.ReplaceAll(k, "+", "+")+"/summary.html|"+k)
		}
		want = append(want, "/go-slog/warnings.html|Warnings", "/go-slog/guts.html|Guts")
		for _, n := range textNames {
			want = append(want, "text/"+n+"/display.html|"+n)
		}
		for _, l := range p.links {
			if (strings.HasPrefix(l[0], "/go-slog/") || strings.HasPrefix(l[0], "text/")) && l[0] != "/go-slog/index.html" {
				to, err := url.PathUnescape(l[0])
				sym.Assert(err == nil, "a bad link")
				got = append(got, to+"|"+l[1])
			}
		}
		same(got, want)
	}
}

// guts: tags and names.
func (s *site) guts(ins []inst) {
	p := read(get("/go-slog/guts.html"))
	s.choices(p, "guts.html")
	var got, want []string
	for _, r := range p.rows {
		if len(r) == 2 && r[0].class == "" && r[0].text != "Tag" && r[1].class == "" && r[0].text != "Handlers" && r[1].text != "" {
			got = append(got, r[0].text+"|"+r[1].text)
		}
	}
	for _, h := range order {
		if h < s.n && s.has(h) {
			want = append(want, handlers[h].tag+"|"+handlers[h].name)
		}
	}
	for _, t := range testOrder {
		if t < s.tests && s.tested(t) {
			want = append(want, "Bench."+tests[t].tag+"|"+tests[t].name)
		}
	}
	for _, h := range order {
		if h < s.n {
			want = append(want, handlers[h].tag+"|"+handlers[h].name)
		}
	}
	// tests with warnings by their names
	for _, f := range []int{0, 2, 1} {
		for _, src := range []string{"Bench", "Verify"} {
			for _, in := range ins {
				if in.source == src && in.fn == funcs[f].fn {
					want = append(want, src+"."+in.tag+"|"+in.name)
					break
				}
			}
		}
	}
	sym.Assert(len(got) == len(want), "another number of tags")
	sort.Strings(got)
	sort.Strings(want)
	same(got, want)
}

// warnings: who has which, and how often.
func (s *site) warnings(ins []inst) {
	p := read(get("/go-slog/warnings.html"))
	s.choices(p, "warnings.html")
	var cols []int
	for _, h := range order {
		if h < s.n {
			cols = append(cols, h)
		}
	}
	// the names at the top
	found := false
	for _, r := range p.rows {
		if len(r) == len(cols)+1 && r[0].text == "" && r[len(r)-1].text == handlers[cols[len(cols)-1]].name {
			found = true
			for i, h := range cols {
				sym.Assert(r[i+1].text == handlers[h].name, "handlers of counts")
			}
		}
	}
	sym.Assert(found, "no handlers of counts")
	var got, want []string
	for _, r := range p.rows {
		if len(r) == len(cols)+2 && r[1].class == "name" {
			line := r[1].text
			for _, c := range r[2:] {
				line += "|" + c.text
			}
			got = append(got, line)
		}
	}
	var usage []string
	for _, l := range warning.LevelOrder {
		for _, w := range l.Warnings() {
			line := w.Name
			hs, ts := map[string]bool{}, map[string]bool{}
			for _, h := range cols {
				n := 0
				for _, in := range ins {
					if in.h == h && in.w == w {
						n++
						hs[handlers[h].camel] = true
						ts[in.name] = true
					}
				}
				line += "|"
				if n > 0 {
					line += strconv.Itoa(n)
				}
			}
			want = append(want, line)
			if len(hs) > 0 {
				usage = append(usage, joined(hs)+"|")
				// a test of both sources is listed for each
				var names []string
				for _, src := range []string{"Bench", "Verify"} {
					for _, f := range funcs {
						for _, in := range ins {
							if in.w == w && in.source == src && in.fn == f.fn {
								names = append(names, in.name)
								break
							}
						}
					}
				}
				sort.Strings(names)
				usage[len(usage)-1] += strings.Join(names, " ")
			}
		}
	}
	same(got, want)
	got = nil
	for i, r := range p.rows {
		if i > 0 && len(r) == 2 && len(p.rows[i-1]) == 2 && p.rows[i-1][0].text == "Handlers" && p.rows[i-1][1].text == "Tests" {
			got = append(got, r[0].text+"|"+r[1].text)
		}
	}
	same(got, usage)
}

func joined(m map[string]bool) string {
	var ss []string
	for k := range m {
		ss = append(ss, k)
	}
	sort.Strings(ss)
	return strings.Join(ss, " ")
}

func two(v score.Value) string { return comma(strconv.FormatFloat(float64(v), 'f', 2, 64)) }

// scores: what the axes of a keeper have for its handlers.
func (s *site) scores(name string) {
	r := get("/go-slog/scores/" + name + "/summary.html")
	p := read(r)
	s.choices(p, name)
	k := score.GetKeeper(score.KeeperTag(name))
	var want, got []string
	byName := map[data.HandlerTag]int{}
	for h, i := range handlers {
		byName[data.HandlerTag(i.tag)] = h
	}
	for _, h := range k.HandlerTags() {
		want = append(want, handlers[byName[h]].name+"|"+two(k.X().ScoreFor(h))+"|"+two(k.Y().ScoreFor(h)))
	}
	types := func(names []score.Type, a interface {
		ScoreForType(data.HandlerTag, score.Type) score.Value
	}, h data.HandlerTag) string {
		line := ""
		for _, n := range names {
			line += "|" + two(a.ScoreForType(h, n))
		}
		return line
	}
	for _, a := range []score.Axis{k.X(), k.Y()} {
		switch a := a.(type) {
		case *axis.Benchmarks:
			for kind := 0; kind < 4; kind++ {
				for _, h := range k.HandlerTags() {
					line := handlers[byName[h]].name
					for _, t := range testOrder {
						if t >= s.tests || !s.tested(t) {
							continue
						}
						tag := data.TestTag("Bench." + tests[t].tag)
						if !a.HasTest(tag) {
							continue
						}
						f := s.ran[byName[h]][t]
						if f == nil {
							f = &figures{nanos: "0"}
						}
						switch kind {
						case 0:
							line += "|" + two(a.ScoreForTest(h, tag))
						case 1:
							x, err := strconv.ParseFloat(f.nanos, 64)
							sym.Assert(err == nil, "a bad number")
							line += "|" + comma(strconv.FormatFloat(x/1000, 'f', 3, 64))
						case 2:
							line += "|" + num(f.allocs)
						case 3:
							line += "|" + num(f.bytes)
						}
					}
					if kind == 0 {
						line += types([]score.Type{score.Default, score.ByTest, score.ByData, score.Original}, a, h)
					} else {
						line += types([]score.Type{score.Default, score.ByData, score.ByTest, score.Original}, a, h)
					}
					want = append(want, line)
				}
			}
		case *axis.Warnings:
			for kind := 0; kind < 2; kind++ {
				for _, h := range k.HandlerTags() {
					line := handlers[byName[h]].name
					for _, l := range warning.LevelOrder {
						if kind == 0 {
							line += "|" + two(a.ScoreForLevel(h, l))
						} else {
							line += "|" + comma(strconv.FormatFloat(float64(a.CountForLevel(h, l)), 'f', 0, 64))
						}
					}
					want = append(want, line+types([]score.Type{score.Default, score.ByData, score.Original}, a, h))
				}
			}
		default:
			sym.Assert(false, "an axis of another kind")
		}
	}
	for _, r := range p.rows {
		if len(r) < 2 {
			continue
		}
		is := false
		for _, h := range handlers {
			is = is || r[0].text == h.name
		}
		if is && r[1].class == "number" {
			line := r[0].text
			for _, c := range r[1:] {
				line += "|" + c.text
			}
			got = append(got, line)
		}
	}
	same(got, want)
	p.as(read(get("/go-slog/scores/" + name + "/summary.html")))
	var images []string
	for _, i := range p.images {
		if i != "/go-slog/home.svg" {
			to, err := url.PathUnescape(i)
			sym.Assert(err == nil, "a bad link")
			images = append(images, to)
		}
	}
	for i := range images {
		sym.Assert(images[i] == "/go-slog/scores/"+name+"/"+strconv.Itoa(i)+"/chart.svg", "the charts of scores")
	}
	sym.Assert(len(images) == 4, "four charts of scores")
}

// as asserts that a page is as it was.
func (p *page) as(q *page) {
	sym.Assert(len(p.rows) == len(q.rows) && len(p.links) == len(q.links) && len(p.options) == len(q.options) && len(p.images) == len(q.images), "a page asked for again has changed")
	for i, r := range p.rows {
		sym.Assert(len(r) == len(q.rows[i]), "a page asked for again has other rows")
		for j, c := range r {
			sym.Assert(c == q.rows[i][j] || len(p.rows)-1 == i, "a page asked for again has other texts")
		}
	}
	for i := range p.links {
		sym.Assert(p.links[i] == q.links[i], "a page asked for again has other links")
	}
	for i := range p.options {
		sym.Assert(p.options[i] == q.options[i], "a page asked for again has other choices")
	}
}

// shape is what is left of a page without its texts and the values of its attributes.
func (p *page) shape() []string {
	var out []string
	for i := range p.toks {
		t := &p.toks[i]
		if t.tag == "" {
			continue
		}
		s := t.tag
		for _, a := range t.attrs {
			s += " " + a[0]
		}
		out = append(out, s)
	}
	return out
}

// like asserts that pages are alike but for their texts.
func (p *page) like(q *page) {
	a, b := p.shape(), q.shape()
	sym.Assert(len(a) == len(b), "a text adds tags to a page or removes some")
	for i := range a {
		sym.Assert(a[i] == b[i], "a text changes a tag of a page")
	}
}

// visible is any text of n ASCII characters one can see.
func visible(n int) string {
	s := sym.String("text", n)
	for i := 0; i < n; i++ {
		sym.Assume(s[i] > ' ' && s[i] < 0x7f)
	}
	return s
}

// Asked: what is asked for is at most a text on the page: p = {where, symbolic characters}.
func Asked(p []int) {
	defer sym.Remove()
	s := &site{n: 1, tests: 1, ran: [][]*figures{{&some[0]}}}
	start(s.files())
	dirs := []string{"/go-slog/handler/", "/go-slog/test/", "/go-slog/text/", "/go-slog/scores/", "/go-slog/chart/"}
	ends := []string{".html", "", "/display.html", "/summary.html", "/Nanos.svg"}
	tag := func(t string) string { return "a" + t + "e" + t + "z" }
	harmless := []string{"", "b", "bc", "bcd"}[p[1]]
	one := get(dirs[p[0]] + tag(harmless) + ends[p[0]])
	t := tag(visible(p[1]))
	for i := 0; i < len(t); i++ {
		sym.Assume(t[i] != '/')
	}
	r := get(dirs[p[0]] + t + ends[p[0]])
	if p[0] == 4 {
		sym.Assert(r.code == one.code, "the status for what is not there")
		sym.Reach("end")
		return
	}
	q := read(r)
	q.like(read(one))
	switch p[0] {
	case 0:
		sym.Assert(q.headed("Handler "+t), "the title of a handler")
	case 1:
		sym.Assert(q.headed("Test "+t), "the title of a test")
	case 2:
		text := ""
		for _, k := range q.toks {
			text += k.text
		}
		sym.Assert(strings.Contains(text, t), "what was asked for is not shown")
	}
	sym.Reach("end")
}

// clean asserts that no tag or attribute of a page comes from a text a?qj?z.
func (p *page) clean() {
	for i := range p.toks {
		t := &p.toks[i]
		sym.Assert(!strings.HasPrefix(strings.TrimPrefix(t.tag, "/"), "qj"), "a text adds a tag to a page")
		for _, a := range t.attrs {
			sym.Assert(!strings.HasPrefix(a[0], "qj") && !strings.HasPrefix(a[0], "z"), "a text adds an attribute to a page")
		}
	}
}

// Held: what the files hold is at most a text on the pages: p = {what, symbolic characters}.
func Held(p []int) {
	defer sym.Remove()
	was0, was1 := handlers[0].name, handlers[1].name
	f := func(h int, t string) inst {
		in := inst{h: h, w: warning.Mismatch, source: "Verify", fn: funcs[0].fn, tag: funcs[0].tag, name: funcs[0].name, text: "ab", record: "{cd}"}
		switch p[0] {
		case 0:
			handlers[h].name = t
		case 1:
			in.text = t
		case 2:
			in.record = "{" + t + "}"
		case 3:
			in.text = "a " + t + " b\n" + t + ": c"
		case 4:
			in.text = "name: no " + t + " (/usr/" + t + "/testing/slogtest/slogtest.go:61)"
		}
		return in
	}
	tag := func(t string) string { return "a" + t + "qj" + t + "z" }
	t := tag(visible(p[1]))
	s := &site{n: 2, tests: 1, ran: [][]*figures{{&some[0]}, {&some[0]}}}
	s.ins = []inst{f(0, t), f(1, tag([]string{"", "b", "bc", "bcd"}[p[1]])+"y")}
	start(s.files())
	mine := read(get("/go-slog/handler/" + handlers[0].tag + ".html"))
	other := read(get("/go-slog/handler/" + handlers[1].tag + ".html"))
	a, b := mine.shape(), other.shape()
	sym.Assert(len(a) == len(b), "a text adds tags to a page or removes some")
	if p[0] == 0 {
		sym.Assert(mine.headed("Handler "+t), "the title of a handler")
	}
	pages := []*page{mine}
	for _, path := range []string{"/go-slog/index.html", "/go-slog/test/Verify.GroupWith.html", "/go-slog/test/Bench.Logging.html", "/go-slog/guts.html", "/go-slog/warnings.html"} {
		pages = append(pages, read(get(path)))
	}
	for i, q := range pages {
		q.clean()
		found := false
		for _, o := range q.options {
			found = found || o[1] == handlers[0].name && o[0] == handlers[0].tag
		}
		sym.Assert(found, "a handler is not among those to choose from")
		if p[0] < 4 && (i == 0 || i == 2) {
			name := s.ins[0].name
			if i == 2 {
				name = handlers[0].camel
			}
			at := 0
			for j, r := range q.rows {
				if len(r) == 3 && r[0].class == "name" && strings.HasSuffix(r[0].text, name) {
					sym.Assert(r[1].text == squeeze(s.ins[0].text), "the text of a warning")
					at |= 1
					if l := q.rows[j+1]; len(l) == 2 && l[1].class == "logLine" {
						sym.Assert(l[1].text == squeeze(s.ins[0].record), "the record of a warning")
						at |= 2
					}
				}
			}
			sym.Assert(at == 3, "a warning is not shown")
		}
	}
	handlers[0].name, handlers[1].name = was0, was1
	sym.Reach("end")
}

// Figures: what was measured is shown: p = {column, symbolic digits, digits before, digits after}.
func Figures(p []int) {
	defer sym.Remove()
	text := []byte(sym.String("digits", p[1]))
	for _, c := range text {
		sym.Assume(c >= '0' && c <= '9')
	}
	d := "123456789"[:p[2]] + string(text) + "987654321"[:p[3]]
	sym.Assume(d[0] != '0')
	cols := []string{"77", "4.50", "3", "64", "8.25"}
	cols[p[0]] = d
	if p[0] == 1 || p[0] == 4 {
		cols[p[0]] += ".25"
	}
	start("# Handler[SlogJson]=\"slog/JSONHandler\"\nBenchmarkSlogJson/BenchmarkSimple-8 \t "+cols[0]+"\t "+cols[1]+" ns/op\t "+cols[4]+" MB/s\t "+cols[3]+" B/op\t "+cols[2]+" allocs/op\n", "")
	want := comma(cols[0]) + "|" + comma(cols[1]) + "|" + comma(cols[2]) + "|" + comma(cols[3]) + "|" + comma(cols[4]) + "|"
	same(read(get("/go-slog/handler/SlogJson.html")).figuresOf(), []string{"Simple|" + want})
	same(read(get("/go-slog/test/Bench.Simple.html")).figuresOf(), []string{"slog/JSONHandler|" + want})
	sym.Reach("end")
}

// within is the text there is within all elements with a class, as it is.
func within(body []byte, class string) string {
	s := string(body)
	i := strings.Index(s, "class=\""+class+"\">")
	sym.Assert(i >= 0, "a page lacks its text")
	s = s[i+len(class)+9:]
	i = strings.Index(s, "</div>")
	sym.Assert(i >= 0, "a text does not end")
	return unescape(s[:i])
}

// Texts: files are shown as they are, with all that is in them: p = {files, which one holds symbolic characters, how many}.
func Texts(p []int) {
	defer sym.Remove()
	s := &site{n: 1, tests: 1, ran: [][]*figures{{&some[0]}}}
	bench, verify := s.files()
	contents := []string{"line 1\n\t<nil> & \"more\"\n", "", "-", "other <b>text</b>"}[:p[0]]
	names := []string{"one.txt", "two.txt", "three.txt", "four.txt"}
	plain := []byte(nil)
	if p[2] > 0 {
		t := visible(p[2])
		contents[p[1]] = "a" + t + "qj" + t + "z\nmore\n"
	}
	var texts []string
	for i, c := range contents {
		texts = append(texts, names[i], c)
	}
	start(bench, verify, texts...)
	s.home()
	for i, c := range contents {
		r := get("/go-slog/text/" + names[i] + "/display.html")
		q := read(r)
		q.clean()
		if c == "" || c == "-" {
			sym.Assert(!q.headed("Text File "+names[i]), "a title for a text that is not there")
			s.choices(q, "")
			plain = r.body
			continue
		}
		s.choices(q, names[i])
		sym.Assert(q.headed("Text File "+names[i]), "the title of a text")
		sym.Assert(within(r.body, "text") == c, "a text is not shown as it is")
	}
	if plain != nil {
		sym.Assert(within(plain, "text-summary") == "Text Not Found", "no word of a text that is not there")
	}
	sym.Reach("end")
}

// Links: every link leads somewhere, and every page can be reached: p = {handlers, tests, warnings}.
func Links(p []int) {
	defer sym.Remove()
	s := some3(p)
	bench, verify := s.files()
	start(bench, verify, "one.txt", "text")
	todo, seen := []string{"/go-slog/index.html"}, map[string]bool{"/go-slog/index.html": true}
	for len(todo) > 0 {
		path := todo[0]
		todo = todo[1:]
		if strings.HasPrefix(path, "/go-slog/chart/") || strings.HasSuffix(path, "/chart.svg") {
			continue // those are drawn elsewhere
		}
		r := get(path)
		sym.Assert((r.code == 0 || r.code == 200) && len(r.body) > 0, "a link leads nowhere")
		if !strings.HasSuffix(path, ".html") {
			continue
		}
		q := read(r)
		for i := range q.toks {
			for _, name := range []string{"href", "src"} {
				to, has := q.toks[i].attr(name)
				if !has || strings.HasPrefix(to, "https://") || strings.HasPrefix(to, "http://") || strings.HasPrefix(to, "#") {
					continue
				}
				to, err := url.PathUnescape(to)
				sym.Assert(err == nil && to != "", "a bad link")
				if to[0] != '/' {
					to = path[:strings.LastIndexByte(path, '/')+1] + to
				}
				if !seen[to] {
					seen[to] = true
					todo = append(todo, to)
				}
			}
		}
	}
	for h := 0; h < s.n; h++ {
		if s.has(h) {
			sym.Assert(seen["/go-slog/handler/"+handlers[h].tag+".html"], "no link to a handler")
			sym.Assert(seen["/go-slog/chart/"+handlers[h].tag+"/Nanos.svg"], "no chart of a handler")
		}
	}
	for _, path := range []string{"warnings.html", "guts.html", "text/one.txt/display.html", "scores/Default/summary.html", "style.css", "scripts.js", "home.svg"} {
		sym.Assert(seen["/go-slog/"+path], "no link to a page")
	}
	sym.Assert(get("/go-slog/none.html").code == 404 && get("/").code == 404, "the status for what is not there")
	sym.Reach("end")
}

var languages = []struct {
	flags              []string
	thousands, decimal string
}{
	{nil, ",", "."},
	{[]string{"-language=de"}, ".", ","},
	{[]string{"-language=!!", "-language=da", "-language=en"}, ".", ","},
	{[]string{"-language=en", "-language=de"}, ",", "."},
	{[]string{"-language=no language"}, ",", "."},
	{[]string{"-language=nl_BE"}, ".", ","},
}

// Language: numbers look as they do in the first language of the flags there is: p = {flags, symbolic digits}.
func Language(p []int) {
	defer sym.Remove()
	l := languages[p[0]]
	text := sym.String("digits", p[1])
	for i := 0; i < p[1]; i++ {
		sym.Assume(text[i] >= '0' && text[i] <= '9')
	}
	flags = l.flags
	start("# Handler[SlogJson]=\"slog/JSONHandler\"\nBenchmarkSlogJson/BenchmarkSimple-8 \t 12"+text+"345\t 1041.25 ns/op\t 8.50 MB/s\t 64 B/op\t 3 allocs/op\n", "")
	var want []byte
	for _, c := range []byte("Simple|" + comma("12"+text+"345") + "|1,041.25|3|64|8.50|") {
		switch c {
		case ',':
			want = append(want, l.thousands...)
		case '.':
			want = append(want, l.decimal...)
		default:
			want = append(want, c)
		}
	}
	same(read(get("/go-slog/handler/SlogJson.html")).figuresOf(), []string{string(want)})
	sym.Reach("end")
}
