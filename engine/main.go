package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// CheckSpec is one entry of checks.json.
type CheckSpec struct {
	Property    string     `json:"property"`
	Package     string     `json:"package"`
	Cases       []CaseSpec `json:"cases"`
	Bounds      string     `json:"bounds"`
	Outside     string     `json:"outside"`
	Assumptions []string   `json:"assumptions"`
	Steps       int        `json:"steps"` // of a path at most, 20 million if 0
	Race        bool       `json:"race"`  // native runs use the race detector
	Patches     []Patch    `json:"patches"`
	Mains       []string   `json:"mains"` // commands whose code is made a package of its own, for the harness to call
	QuickS      int        `json:"quick_s"`
	ThoroughS   int        `json:"thorough_s"`
}

// Patch is what a check changes in a copy of a library, for the engine and the native build:
// what is inserted behind a text of a file, and files of its own.
type Patch struct {
	Module string            `json:"module"`
	Edits  [][3]string       `json:"edits"`
	Files  map[string]string `json:"files"`
	Stub   bool              `json:"stub"` // the library is not here: Files are all there is of it
}

type CaseSpec struct {
	Fn       string  `json:"fn"`
	Args     [][]int `json:"args"`
	Thorough [][]int `json:"thorough"`
	Tier     string  `json:"tier"` // "thorough": only there
}

func main() {
	prop := flag.String("prop", "", "property to check")
	verif := flag.String("verif", "/verif", "verification directory")
	repo := flag.String("repo", "/repo", "repository")
	only := flag.String("only", "", "run only harnesses whose name contains this")
	workers := flag.Int("j", runtime.NumCPU(), "workers")
	secs := flag.Int("t", 0, "time budget in seconds")
	noNative := flag.Bool("nonative", false, "skip native validation")
	verbose := flag.Bool("v", false, "verbose")
	flag.Parse()
	// The same toolchain as the one that builds the repository.
	os.Setenv("PATH", "/opt/veriftools/go1.23.12/bin:"+os.Getenv("PATH"))
	code := runCheck(*prop, *verif, *repo, *only, *workers, *secs, *noNative, *verbose)
	os.Exit(code)
}

type nativeCase struct {
	ID      int         `json:"id"`
	Harness string      `json:"harness"`
	Args    []int       `json:"args"`
	Inputs  []inputJSON `json:"inputs"`
	Repeat  int         `json:"repeat"` // schedules are not replayed: run it this often
}

type nativeResult struct {
	ID    int      `json:"id"`
	Kind  string   `json:"kind"` // ok assert panic assume mismatch timeout
	Msg   string   `json:"msg"`
	Obs   []obJSON `json:"obs"`
	Reach int      `json:"reach"`
	Known []string `json:"known"`
}

func loadChecks(verif string) (map[string]*CheckSpec, error) {
	m := map[string]*CheckSpec{}
	files, _ := filepath.Glob(filepath.Join(verif, "checks", "*.json"))
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		var c CheckSpec
		if err := json.Unmarshal(b, &c); err != nil {
			return nil, fmt.Errorf("%s: %w", f, err)
		}
		m[c.Property] = &c
	}
	return m, nil
}

func runCheck(prop, verif, repo, only string, workers, secs int, noNative, verbose bool) (code int) {
	start := time.Now()
	defer func() {
		if r := recover(); r != nil {
			fmt.Println("UNDECIDED engine fault:", r)
			code = 0
		}
	}()
	specs, err := loadChecks(verif)
	if err != nil {
		fmt.Println("error:", err)
		return 3
	}
	spec := specs[prop]
	if spec == nil {
		fmt.Println("error: no such property", prop)
		return 3
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	budget := spec.QuickS
	if budget == 0 {
		budget = 150
	}
	solverMS := 20000
	if tier == "thorough" {
		budget = spec.ThoroughS
		if budget == 0 {
			budget = 600
		}
		solverMS = 60000
	}
	if secs > 0 {
		budget = secs
	}
	e := &Engine{repo: repo, verif: verif, solverMS: solverMS, stepLimit: 20_000_000, cross: true, first: os.Getenv("GOSYM_FIRST") != ""}
	rep := &Report{spec: spec, tier: tier, seed: seed, start: start, eng: e, verif: verif}
	e.mains = spec.Mains
	if len(spec.Mains) > 0 {
		dir, err := os.MkdirTemp("", "gosym-main-")
		defer os.RemoveAll(dir)
		if err != nil {
			fmt.Println("error:", err)
			return 3
		}
		e.mainDir = dir
	}
	if spec.Steps > 0 {
		e.stepLimit = spec.Steps
	}
	if len(spec.Patches) > 0 {
		dir, err := e.patch(spec.Patches)
		defer os.RemoveAll(dir)
		if err != nil {
			fmt.Println("error:", err)
			return 3
		}
	}
	if err := e.load(spec.Package); err != nil {
		// The harness no longer builds against the tree: nothing was decided.
		rep.note = "the harness does not build against this tree: " + err.Error()
		fmt.Println("UNDECIDED", rep.note)
		rep.write()
		return 0
	}
	rep.loadS = time.Since(start).Seconds()
	var cases []*Case
	hp := e.pkgs[repoModule+zzDir+"/"+spec.Package]
	for _, cs := range spec.Cases {
		if only != "" && !strings.Contains(cs.Fn, only) {
			continue
		}
		if cs.Tier == "thorough" && tier != "thorough" {
			continue
		}
		args := cs.Args
		if tier == "thorough" {
			args = append(append([][]int{}, args...), cs.Thorough...)
		}
		if len(args) == 0 {
			args = [][]int{nil}
		}
		fn := hp.Func(cs.Fn)
		if fn == nil {
			fmt.Println("error: no harness", cs.Fn)
			return 3
		}
		for _, a := range args {
			c := newCase(cs.Fn, a)
			c.fn = fn
			cases = append(cases, c)
		}
	}
	e.deadline = time.Now().Add(time.Duration(budget) * time.Second)
	if err := e.run(cases, workers); err != nil {
		fmt.Println("error:", err)
		return 3
	}
	rep.cases = cases
	rep.exploreS = time.Since(start).Seconds() - rep.loadS
	if verbose {
		for _, c := range cases {
			fmt.Printf("%-40s paths=%v forks=%d asserts=%d/%d reach=%d %.1fs steps=%d\n", c.name(), c.paths, c.forks, c.assertSolve, c.asserts, c.reached, c.ended.Sub(c.started).Seconds(), c.steps)
			for k, n := range c.aborted {
				fmt.Printf("    abort %d: %s\n", n, k)
			}
			for k, n := range c.incompl {
				fmt.Printf("    incomplete %d: %s\n", n, k)
			}
			for k, n := range c.pinned {
				fmt.Printf("    pinned %d: %s\n", n, k)
			}
			for k, n := range c.violCount {
				fmt.Printf("    candidate %d: %s\n", n, k)
			}
		}
		fmt.Printf("load %.1fs explore %.1fs queries=%d (sat %d unsat %d unk %d) cache=%d model=%d solver=%.1fs cross=%d/%d\n", rep.loadS, rep.exploreS, e.stats.Queries,
			e.stats.Sat, e.stats.Unsat, e.stats.Unknown, e.stats.CacheHits, e.stats.ModelHits, e.stats.Time.Seconds(), e.stats.CrossDisagree, e.stats.CrossChecked)
	}
	if !noNative {
		if err := rep.native(); err != nil {
			rep.note = "native build failed: " + err.Error()
			fmt.Println("UNDECIDED", rep.note)
		}
	}
	rep.write()
	return rep.verdict(verbose)
}

// Report collects what one check found.
type Report struct {
	spec     *CheckSpec
	tier     string
	seed     int
	start    time.Time
	eng      *Engine
	verif    string
	cases    []*Case
	loadS    float64
	exploreS float64
	nativeS  float64
	note     string

	validated  int
	mismatches []string
	confirmed  []*confirmed
	unconf     []string
	knownHits  map[string]string
}

type confirmed struct {
	c     *Case
	msg   string
	in    []inputJSON
	path  string
	known string
}

// runner builds the native twin of the harness package.
func (r *Report) runner(dir string) (string, error) {
	names := map[string]bool{}
	for _, c := range r.cases {
		names[c.Harness] = true
	}
	var sb bytes.Buffer
	sb.WriteString("package main\n\nimport (\n\th \"" + repoModule + zzDir + "/" + r.spec.Package + "\"\n\t\"" + repoModule + zzDir + "/nativerun\"\n)\n\nfunc main() {\n\tnativerun.Main(map[string]func([]int){\n")
	for _, n := range sortedKeys(names) {
		fmt.Fprintf(&sb, "\t\t%q: h.%s,\n", n, n)
	}
	sb.WriteString("\t})\n}\n")
	mainGo := filepath.Join(dir, "main.go")
	if err := os.WriteFile(mainGo, sb.Bytes(), 0o644); err != nil {
		return "", err
	}
	ov := r.eng.overlay()
	ov[r.eng.repo+zzDir+"/cmd_"+r.spec.Package+"/main.go"] = mainGo
	ovf := filepath.Join(dir, "overlay.json")
	os.WriteFile(ovf, mustJSON(map[string]any{"Replace": ov}), 0o644)
	bin := filepath.Join(dir, "runner")
	args := []string{"build", "-overlay", ovf, "-o", bin}
	if r.spec.Race {
		args = append(args, "-race")
	}
	if mf := modFile(r.eng.repo); mf != "" {
		args = append(args, "-modfile="+mf)
	}
	args = append(args, repoModule+zzDir+"/cmd_"+r.spec.Package)
	cmd := exec.Command("go", args...)
	cmd.Path = "/opt/veriftools/go1.23.12/bin/go"
	cmd.Dir = r.eng.repo
	cmd.Env = r.eng.env()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("%v: %s", err, firstLines(string(out), 8))
	}
	return bin, nil
}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

func (r *Report) native() error {
	t0 := time.Now()
	defer func() { r.nativeS = time.Since(t0).Seconds() }()
	dir, err := os.MkdirTemp("", "gosym-native-")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	bin, err := r.runner(dir)
	if err != nil {
		return err
	}
	type job struct {
		c *Case
		v *Violation
		s *Sample
	}
	var jobs []job
	var ncs []nativeCase
	add := func(j job, in []inputJSON) {
		n := 1
		if r.spec.Race {
			n = 3
			if j.v != nil {
				n = 3000
			}
		}
		ncs = append(ncs, nativeCase{ID: len(jobs), Harness: j.c.Harness, Args: j.c.Args, Inputs: in, Repeat: n})
		jobs = append(jobs, j)
	}
	for _, c := range r.cases {
		for _, v := range c.viols {
			add(job{c, v, nil}, v.In)
		}
		for _, s := range c.suspects {
			add(job{c, nil, s}, s.Inputs)
		}
		for i, s := range c.samples {
			if r.spec.Race && i > 0 {
				break // they differ in schedule only, which is not replayed
			}
			add(job{c, nil, s}, s.Inputs)
		}
	}
	results := runNative(bin, ncs)
	r.knownHits = map[string]string{}
	for i, j := range jobs {
		res := results[i]
		if res == nil {
			r.unconf = append(r.unconf, j.c.name()+": no native result")
			continue
		}
		bad := res.Kind == "assert" || res.Kind == "panic" || res.Kind == "timeout"
		if bad {
			in := ncs[i].Inputs
			r.confirmed = append(r.confirmed, &confirmed{c: j.c, msg: res.Kind + ": " + res.Msg, in: in})
			if j.s != nil && j.s.Kind == "return" {
				r.mismatches = append(r.mismatches, fmt.Sprintf("%s: the engine saw no failure, the native build says %s: %s", j.c.name(), res.Kind, res.Msg))
			}
			continue
		}
		if j.v != nil && j.v.Known != "" && slices.Contains(res.Known, j.v.Known) {
			r.confirmed = append(r.confirmed, &confirmed{c: j.c, msg: j.v.Msg, in: ncs[i].Inputs, known: j.v.Known})
			continue
		}
		if j.v != nil {
			r.unconf = append(r.unconf, fmt.Sprintf("%s: %s did not reproduce (%s %s) inputs %s", j.c.name(), j.v.Msg, res.Kind, res.Msg, string(compact(j.v.In))))
			continue
		}
		if j.s.Kind == "return" {
			if res.Kind != "ok" {
				r.mismatches = append(r.mismatches, fmt.Sprintf("%s: native run ended with %s %s", j.c.name(), res.Kind, res.Msg))
				continue
			}
			if d := diffObs(j.s.Obs, res.Obs); d != "" {
				r.mismatches = append(r.mismatches, j.c.name()+": "+d+" inputs "+string(compact(j.s.Inputs)))
				continue
			}
			r.validated++
		}
	}
	return nil
}

func compact(v any) []byte {
	b, _ := json.Marshal(v)
	return b
}

func diffObs(a, b []obJSON) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d observations predicted, %d made", len(a), len(b))
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("observation %s: predicted %s, native %s", a[i].Name, a[i].V, b[i].V)
		}
	}
	return ""
}

// runNative runs every case in a process of its own: no case sees what another left behind.
func runNative(bin string, ncs []nativeCase) []*nativeResult {
	results := make([]*nativeResult, len(ncs))
	next := make(chan int)
	var wg sync.WaitGroup
	for k := 0; k < runtime.NumCPU(); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				results[i] = runOne(bin, ncs[i])
			}
		}()
	}
	begin := time.Now()
	for i := range ncs {
		if time.Since(begin) > 4*time.Minute {
			break // the rest stay unconfirmed
		}
		next <- i
	}
	close(next)
	wg.Wait()
	return results
}

func runOne(bin string, nc nativeCase) *nativeResult {
	ctx, cancel := context.WithTimeout(context.Background(), 40*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin)
	in, _ := json.Marshal(nc)
	cmd.Stdin = bytes.NewReader(append(in, '\n'))
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	cmd.Env = append(os.Environ(), "GOMAXPROCS=4", "TZ=UTC", "GORACE=halt_on_error=1 exitcode=66")
	err := cmd.Run()
	for _, l := range bytes.Split(out.Bytes(), []byte("\n")) {
		var res nativeResult
		i := bytes.Index(l, []byte("@@NR "))
		if i >= 0 && json.Unmarshal(l[i+5:], &res) == nil {
			return &res
		}
	}
	var ee *exec.ExitError
	if ctx.Err() != nil || !errors.As(err, &ee) || ee.ExitCode() < 0 {
		return nil
	}
	if ee.ExitCode() == 66 {
		return &nativeResult{ID: nc.ID, Kind: "panic", Msg: raceText(errb.String())}
	}
	return &nativeResult{ID: nc.ID, Kind: "panic", Msg: "process ended: " + firstLines(errb.String(), 3)}
}

// raceText names the two accesses of the race detector's report.
func raceText(s string) string {
	out := "data race:"
	l := strings.Split(s, "\n")
	for i, x := range l {
		x = strings.TrimSpace(x)
		for _, k := range []string{"Write at", "Read at", "Previous write at", "Previous read at"} {
			if strings.HasPrefix(x, k+" ") && i+1 < len(l) {
				out += " " + strings.ToLower(k) + " " + strings.TrimSpace(l[i+1])
			}
		}
	}
	return out
}

func (r *Report) verdict(verbose bool) int {
	kf := loadKnown(filepath.Join(r.verif, "known_findings.json"), r.spec.Property)
	code := 0
	seen := map[string]bool{}
	var vs []*confirmed
	for _, c := range r.confirmed {
		if c.known != "" && kf[c.known] != "" {
			if !seen["K"+c.known] {
				seen["K"+c.known] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", r.spec.Property, c.known, kf[c.known])
			}
			continue
		}
		key := c.c.Harness + c.msg
		if verbose {
			key += c.c.name()
		}
		if seen[key] {
			continue
		}
		seen[key] = true
		vs = append(vs, c)
	}
	for i, c := range vs {
		if i >= 8 && !verbose {
			break
		}
		dir := filepath.Join(r.verif, "replays")
		os.MkdirAll(dir, 0o755)
		p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", r.spec.Property, i))
		os.WriteFile(p, mustJSON(map[string]any{"property": r.spec.Property, "package": r.spec.Package, "harness": c.c.Harness,
			"args": c.c.Args, "inputs": c.in, "observed": c.msg, "readable": readable(c.in)}), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.spec.Property, p)
		fmt.Printf("  %s: %s inputs: %s\n", c.c.name(), c.msg, readable(c.in))
		code = 1
	}
	for _, s := range r.mismatches {
		fmt.Println("TRANSLATION-MISMATCH", s)
	}
	n := 0
	for _, s := range r.unconf {
		fmt.Println("UNCONFIRMED", s)
		if n++; n > 10 {
			break
		}
	}
	inc := 0
	for _, c := range r.cases {
		for k, n := range c.aborted {
			inc += n
			fmt.Printf("REDUCED-BOUND %s: %d paths not decided: %s\n", c.name(), n, k)
		}
		for k, n := range c.undec {
			inc += n
			fmt.Printf("REDUCED-BOUND %s: %d assertions the solver did not decide: %s\n", c.name(), n, k)
		}
		if c.reached == 0 && len(c.viols) == 0 {
			fmt.Printf("VACUOUS %s: no path reached its end\n", c.name())
		}
	}
	if code == 0 {
		fmt.Printf("OK property=%s paths=%d queries=%d validated=%d undecided=%d wall=%.1fs\n", r.spec.Property, r.totalPaths(), r.eng.stats.Queries, r.validated, inc, time.Since(r.start).Seconds())
	}
	return code
}

func (r *Report) totalPaths() int {
	n := 0
	for _, c := range r.cases {
		for _, k := range c.paths {
			n += k
		}
	}
	return n
}

func readable(in []inputJSON) string {
	var p []string
	for _, i := range in {
		switch i.Kind {
		case "str":
			b := make([]byte, len(i.V))
			for k, v := range i.V {
				b[k] = byte(v)
			}
			p = append(p, fmt.Sprintf("%s=%q", i.Name, b))
		case "i64":
			p = append(p, fmt.Sprintf("%s=%d", i.Name, int64(i.V[0])))
		case "f64":
			p = append(p, fmt.Sprintf("%s=%v", i.Name, f64(i.V[0])))
		default:
			p = append(p, fmt.Sprintf("%s=%d", i.Name, i.V[0]))
		}
	}
	return strings.Join(p, " ")
}

func loadKnown(path, prop string) map[string]string {
	var f struct {
		Findings []struct {
			ID, Property, What string
		} `json:"findings"`
	}
	m := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	json.Unmarshal(b, &f)
	for _, k := range f.Findings {
		if k.Property == prop {
			m[k.ID] = k.What
		}
	}
	return m
}

func (r *Report) write() {
	type caseJSON struct {
		Case       string         `json:"case"`
		Paths      map[string]int `json:"paths"`
		Forks      int            `json:"forks"`
		Asserts    int            `json:"assertions_discharged"`
		BySolver   int            `json:"assertions_by_solver"`
		Reached    int            `json:"paths_reaching_the_end"`
		Undecided  map[string]int `json:"undecided,omitempty"`
		Aborted    map[string]int `json:"aborted,omitempty"`
		Incomplete map[string]int `json:"incomplete,omitempty"`
		Pinned     map[string]int `json:"pinned,omitempty"`
		Seconds    float64        `json:"seconds"`
	}
	var cj []caseJSON
	paths, forks, inst, asserts, asolve, und := 0, 0, 0, 0, 0, 0
	var samples []any
	for _, c := range r.cases {
		cj = append(cj, caseJSON{c.name(), c.paths, c.forks, c.asserts, c.assertSolve, c.reached, c.undec, c.aborted, c.incompl, c.pinned, c.ended.Sub(c.started).Seconds()})
		for _, n := range c.paths {
			paths += n
		}
		for _, n := range c.aborted {
			und += n
		}
		for _, n := range c.undec {
			und += n
		}
		forks += c.decisions
		inst += c.steps
		asserts += c.asserts
		asolve += c.assertSolve
		if len(samples) < 12 {
			for i, s := range c.samples {
				if i < 2 {
					samples = append(samples, map[string]any{"case": c.name(), "inputs": readable(s.Inputs), "observed": s.Obs})
				}
			}
		}
	}
	if samples == nil {
		samples = []any{r.note}
	}
	e := r.eng
	funcs := sortedKeys(e.funcs)
	mods := sortedKeys(e.models)
	viol := 0
	for _, c := range r.confirmed {
		if c.known == "" {
			viol++
		}
	}
	cov := map[string]any{
		"states": paths, "transitions": forks, "traces_validated_against_impl": r.validated, "samples": samples,
		"rule":                          "a state is one symbolic path through the real code (a set of inputs), a transition one decision on it; each path stands for every input that satisfies its path condition",
		"exhaustive":                    und == 0 && r.note == "",
		"bounds":                        r.spec.Bounds,
		"outside_the_claim":             r.spec.Outside,
		"functions_encoded":             funcs,
		"functions_modelled":            mods,
		"solver_queries":                e.stats.Queries,
		"solver_sat":                    e.stats.Sat,
		"solver_unsat":                  e.stats.Unsat,
		"solver_unknown":                e.stats.Unknown,
		"solver_cache_hits":             e.stats.CacheHits,
		"solver_seconds":                e.stats.Time.Seconds(),
		"second_solver_checked":         e.stats.CrossChecked,
		"second_solver_disagreed":       e.stats.CrossDisagree,
		"instructions_interpreted":      inst,
		"assertions_discharged":         asserts,
		"assertions_by_solver_query":    asolve,
		"paths_or_assertions_undecided": und,
		"translation_mismatches":        r.mismatches,
		"unconfirmed_candidates":        r.unconf,
		"cases":                         cj,
		"load_s":                        r.loadS, "explore_s": r.exploreS, "native_s": r.nativeS,
	}
	if r.note != "" {
		cov["note"] = r.note
	}
	as := append([]string{}, r.spec.Assumptions...)
	as = append(as, "the engine's stand-ins for run-time functions (functions_modelled) behave as the functions they replace",
		"Go semantics of go/ssa as interpreted by /verif/engine; paths sampled on each run are replayed in the native build and compared")
	ev := map[string]any{"property": r.spec.Property, "tier": r.tier, "seed": r.seed, "level": "model_checking", "coverage": cov,
		"assumptions": as, "wall_s": time.Since(r.start).Seconds(), "violations": viol}
	dir := filepath.Join(r.verif, "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, r.spec.Property+".json"), mustJSON(ev), 0o644)
}

var _ = sort.Strings
