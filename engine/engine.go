package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoModule = "github.com/madkins23/go-slog"
const modelPkg = repoModule + "/internal/zzverif/models"
const zzDir = "/internal/zzverif"

// Engine holds what the workers share.
type Engine struct {
	repo, verif string
	mains       []string
	mainDir     string
	prog        *ssa.Program
	pkgs        map[string]*ssa.Package
	sizes       types.Sizes
	rtErr       types.Type
	modelFns    map[string]*ssa.Function
	mu          sync.Mutex
	buildMu     sync.Mutex
	built       map[*ssa.Package]bool

	qmu      sync.Mutex
	qcond    *sync.Cond
	queue    []*workItem
	idle     int
	nwork    int
	hungryN  atomic.Int32
	deadline time.Time
	first    bool // stop at the first candidate (for development)
	late     atomic.Bool

	solverMS  int
	stepLimit int
	cross     bool

	stats  SolverStats
	funcs  map[string]int
	models map[string]int
	insts  int64
	pcIDs  map[string]uint64
	pcs    []pcInfo
}

type workItem struct {
	c     *Case
	dec   []Dec
	model map[string]uint64
}

// Case is one harness with concrete parameters.
type Case struct {
	Harness string
	Args    []int
	fn      *ssa.Function
	prefix  string

	mu          sync.Mutex
	paths       map[string]int
	forks       int
	decisions   int
	reached     int
	asserts     int
	assertSolve int
	undec       map[string]int
	incompl     map[string]int
	pinned      map[string]int
	aborted     map[string]int
	viols       []*Violation
	violCount   map[string]int
	samples     []*Sample
	suspects    []*Sample
	started     time.Time
	ended       time.Time
	steps       int
	traces      int // recorded traces asked for races
	pairs       int // pairs of conflicting segments in them
}

// Sample is one path with concrete inputs and what the engine predicts.
type Sample struct {
	Inputs []inputJSON `json:"inputs"`
	Obs    []obJSON    `json:"obs"`
	Kind   string      `json:"kind"`
	Why    string      `json:"why,omitempty"`
	Reach  int         `json:"reach"`
}

type inputJSON struct {
	Name string   `json:"name"`
	Kind string   `json:"kind"`
	V    []uint64 `json:"v"`
}

type obJSON struct {
	Name string `json:"name"`
	V    string `json:"v"`
}

// Violation is a counterexample candidate.
type Violation struct {
	Msg   string
	In    []inputJSON
	Known string
	c     *Case
}

func (c *Case) name() string {
	s := c.Harness
	for _, a := range c.Args {
		s += fmt.Sprintf(",%d", a)
	}
	return s
}

func (c *Case) noteIncomplete(why string) {
	c.mu.Lock()
	c.incompl[why]++
	c.mu.Unlock()
}
func (c *Case) notePinned(why string) {
	c.mu.Lock()
	c.pinned[why]++
	c.mu.Unlock()
}
func (c *Case) discharged(msg string, solved bool) {
	c.mu.Lock()
	c.asserts++
	if solved {
		c.assertSolve++
	}
	c.mu.Unlock()
}
func (c *Case) undecided(msg string) {
	c.mu.Lock()
	c.undec[msg]++
	c.mu.Unlock()
}

// Worker interprets; every worker has its own heap and solver.
type Worker struct {
	eng *Engine
	id  int
	tp  *TermPool
	sol *Solver

	fns       map[*ssa.Function]*fnInfo
	bodies    map[*ssa.Function]*fnInfo
	funcVals  map[*ssa.Function]*Func
	models    map[string]*ssa.Function
	globals   map[*ssa.Global]*Value
	inited    map[*ssa.Package]bool
	implCache map[implKey]bool
	methCache map[methKey]*ssa.Function
	emptyStr  *Str
	spawnFI   *fnInfo

	st      *State
	trail   []undoEnt
	noTrail int
	nest    int
	ist     instrState
	dec     []Dec
	decPos  int
	pc      []*Term
	model   map[uint32]uint64
	pending map[string]uint64
	inputs  []Input
	obs     []Obs
	events  []Event
	reached int
	steps   int
	snaps   []*snapshot
	forks   int
	cs      *Case

	pathIncomplete string
	stepLimit      int
	mapOrder       bool
	nOrder         int
	tracing        bool
	sched          int // bound on preemptions while schedules are explored, -1: not explored
	preempts       int
	traceFrom      int
	race           *orderSolver
	poolAlwaysNew  bool
	wg             map[*Value]int
	pools          map[*Value][]poolEnt
	clock          int
	uniq           map[string]*Value
	usedFns        map[*fnInfo]bool
}

func (w *Worker) used(fi *fnInfo)      { fi.calls++ }
func (w *Worker) usedModel(fi *fnInfo) { fi.calls++ }

func (e *Engine) env() []string {
	var out []string
	for _, kv := range os.Environ() {
		k := strings.SplitN(kv, "=", 2)[0]
		switch k {
		case "PATH", "GOTOOLCHAIN", "GOFLAGS", "GOPROXY", "GOPATH", "GOMODCACHE", "HOME", "GOSUMDB", "GOWORK", "GO111MODULE":
			continue
		}
		out = append(out, kv)
	}
	return append(out, "PATH=/opt/veriftools/go1.23.12/bin:"+os.Getenv("PATH"), "HOME=/root", "GOTOOLCHAIN=local",
		"GOFLAGS=-mod=mod", "GOPROXY=off", "GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOSUMDB=off", "GOWORK=off")
}

// overlay maps the harness sources into the repository's module.
func (e *Engine) overlay() map[string]string {
	m := map[string]string{}
	root := filepath.Join(e.verif, "harness")
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(root, p)
			m[e.repo+zzDir+"/"+rel] = p
		}
		return nil
	})
	for _, c := range e.mains {
		for k, v := range e.command(c) {
			m[k] = v
		}
	}
	return m
}

// command copies the code of a command to a package main_<name> with a function Main.
func (e *Engine) command(c string) map[string]string {
	m := map[string]string{}
	name := "main_" + filepath.Base(c)
	es, _ := os.ReadDir(filepath.Join(e.repo, c))
	put := func(f string, b []byte) {
		to := filepath.Join(e.mainDir, name+"_"+f)
		os.WriteFile(to, b, 0o644)
		m[e.repo+zzDir+"/"+name+"/"+f] = to
	}
	for _, f := range es {
		b, err := os.ReadFile(filepath.Join(e.repo, c, f.Name()))
		if err != nil || !strings.HasSuffix(f.Name(), ".go") || strings.HasSuffix(f.Name(), "_test.go") {
			continue
		}
		put(f.Name(), embedded([]byte(mainClause.ReplaceAllString(string(b), "package "+name)), filepath.Join(e.repo, c)))
	}
	put("zz_main.go", []byte("package "+name+"\n\n// Main is the command.\nfunc Main() { main() }\n"))
	return m
}

var embedVar = regexp.MustCompile(`//go:embed (\S+)\n((?:\s*var)?\s*\w+\s+)(string|\[\]byte)\b`)

// embedded gives variables with embedded files their contents in the source.
func embedded(src []byte, dir string) []byte {
	return embedVar.ReplaceAllFunc(src, func(m []byte) []byte {
		x := embedVar.FindSubmatch(m)
		b, err := os.ReadFile(filepath.Join(dir, string(x[1])))
		if err != nil {
			return m
		}
		return []byte("// embed " + string(x[1]) + "\n" + string(x[2]) + string(x[3]) + " = " + string(x[3]) + "(" + strconv.Quote(string(b)) + ")")
	})
}

var mainClause = regexp.MustCompile(`(?m)^package main\b`)

func (e *Engine) load(pkg string) error {
	ov := map[string][]byte{}
	for k, v := range e.overlay() {
		b, err := os.ReadFile(v)
		if err != nil {
			return err
		}
		ov[k] = b
	}
	if len(e.mains) > 0 {
		filepath.Walk(filepath.Join(e.repo, "internal"), func(p string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || ov[p] != nil {
				return nil
			}
			if b, err := os.ReadFile(p); err == nil && strings.Contains(string(b), "//go:embed") {
				ov[p] = embedded(b, filepath.Dir(p))
			}
			return nil
		})
	}
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax | packages.NeedModule,
		Dir:     e.repo,
		Env:     e.env(),
		Overlay: ov,
	}
	if mf := modFile(e.repo); mf != "" {
		cfg.BuildFlags = append(cfg.BuildFlags, "-modfile="+mf)
	}
	ps, err := packages.Load(cfg, repoModule+zzDir+"/"+pkg, modelPkg, symPkg)
	if err != nil {
		return err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, er := range p.Errors {
			errs = append(errs, er.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 5 {
			errs = errs[:5]
		}
		return fmt.Errorf("loading: %s", strings.Join(errs, "; "))
	}
	e.prog, _ = ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	e.pkgs = map[string]*ssa.Package{}
	for _, p := range e.prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
	}
	e.prog.Build()
	e.sizes = types.SizesFor("gc", "amd64")
	if rt := e.pkgs["runtime"]; rt != nil {
		if t := rt.Type("errorString"); t != nil {
			e.rtErr = t.Type()
		}
	}
	e.modelFns = map[string]*ssa.Function{}
	mp := e.pkgs[modelPkg]
	for name, fn := range map[string]string{"errors.As": "ErrorsAs", "encoding/json.Marshal": "JSONMarshal",
		"encoding/json.Unmarshal": "JSONUnmarshal", "(reflect.Value).Call": "ReflectCall", "encoding/json.MarshalIndent": "JSONMarshalIndent",
		"github.com/stretchr/testify/assert.Fail": "AssertFail", "github.com/stretchr/testify/assert.Equal": "AssertEqual",
		"github.com/stretchr/testify/assert.Len": "AssertLen", "github.com/stretchr/testify/assert.Empty": "AssertEmpty",
		"github.com/stretchr/testify/assert.NoError": "AssertNoError", "github.com/stretchr/testify/assert.True": "AssertTrue",
		"github.com/stretchr/testify/assert.False": "AssertFalse", "github.com/stretchr/testify/assert.Nil": "AssertNil",
		"github.com/stretchr/testify/assert.NotNil": "AssertNotNil", "github.com/stretchr/testify/assert.IsType": "AssertIsType",
		"(*testing.common).FailNow": "FailNow", "(*testing.common).Helper": "Helper", "(*testing.common).Failed": "Failed",
		"log/slog.appendJSONMarshal": "SlogJSONMarshal", "encoding/json.NewEncoder": "JSONNewEncoder",
		"(*encoding/json.Encoder).SetEscapeHTML": "JSONSetEscapeHTML", "(*encoding/json.Encoder).Encode": "JSONEncode",
		"(*encoding/json.Encoder).SetIndent": "JSONSetIndent", "os.Open": "FileOpen", "os.ReadFile": "FileReadFile", "(*os.File).Read": "FileRead", "(*os.File).Close": "FileClose", "(*os.File).Write": "FileWrite", "(*os.File).WriteString": "FileWriteString"} {
		if f := mp.Func(fn); f != nil {
			e.modelFns[name] = f
		}
	}
	return nil
}

func (e *Engine) buildFn(fn *ssa.Function) {}
func (e *Engine) buildPkg(p *ssa.Package)  {}
func (e *Engine) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	ms := e.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return e.prog.MethodValue(sel)
}

func (e *Engine) expired() bool {
	if time.Now().After(e.deadline) {
		e.late.Store(true)
		return true
	}
	return false
}

func (e *Engine) hungry() bool { return e.hungryN.Load() > 0 }

func (e *Engine) donate(it *workItem) {
	e.qmu.Lock()
	e.queue = append(e.queue, it)
	e.updHungry()
	e.qcond.Signal()
	e.qmu.Unlock()
}

func (e *Engine) updHungry() {
	e.hungryN.Store(int32(e.idle - len(e.queue)))
}

// take returns the next item, or nil when all work is done.
func (e *Engine) take() *workItem {
	e.qmu.Lock()
	defer e.qmu.Unlock()
	e.idle++
	e.updHungry()
	for len(e.queue) == 0 {
		if e.idle == e.nwork {
			e.qcond.Broadcast()
			return nil
		}
		e.qcond.Wait()
		if len(e.queue) == 0 && e.idle == e.nwork {
			return nil
		}
	}
	it := e.queue[0]
	e.queue = e.queue[1:]
	e.idle--
	e.updHungry()
	return it
}

func (e *Engine) newWorker(id int) (*Worker, error) {
	w := &Worker{eng: e, id: id, tp: NewTermPool(), fns: map[*ssa.Function]*fnInfo{}, bodies: map[*ssa.Function]*fnInfo{},
		funcVals: map[*ssa.Function]*Func{}, models: e.modelFns, globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{},
		implCache: map[implKey]bool{}, methCache: map[methKey]*ssa.Function{}, emptyStr: &Str{}, wg: map[*Value]int{},
		pools: map[*Value][]poolEnt{}, usedFns: map[*fnInfo]bool{}, stepLimit: e.stepLimit}
	var err error
	w.sol, err = NewSolver(w.tp, e.solverMS)
	if err != nil {
		return nil, err
	}
	if e.cross && id == 0 {
		w.sol.cross, _ = NewSolver(w.tp, e.solverMS, "z3", "-in", "-smt2")
	}
	return w, nil
}

// runSafe keeps a fault of the engine itself from ending the run: the case counts as not decided.
func (w *Worker) runSafe(it *workItem) {
	defer func() {
		if r := recover(); r != nil {
			it.c.mu.Lock()
			it.c.aborted[fmt.Sprintf("engine fault: %v", r)]++
			it.c.mu.Unlock()
		}
	}()
	w.runItem(it)
}

// run explores all cases with n workers.
func (e *Engine) run(cases []*Case, n int) error {
	e.qcond = sync.NewCond(&e.qmu)
	e.nwork = n
	e.funcs = map[string]int{}
	e.models = map[string]int{}
	for _, c := range cases {
		e.queue = append(e.queue, &workItem{c: c})
	}
	var wg sync.WaitGroup
	var firstErr error
	for i := 0; i < n; i++ {
		w, err := e.newWorker(i)
		if err != nil {
			return err
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				w.sol.Close()
				if w.race != nil {
					w.race.close()
				}
			}()
			for {
				it := e.take()
				if it == nil {
					break
				}
				w.runSafe(it)
			}
			e.mu.Lock()
			e.stats.add(&w.sol.stats)
			for _, fi := range w.fns {
				if fi.calls > 0 || (fi.blocks != nil && fi.fn.Name() == "init") {
					if fi.intr != nil {
						e.models[fi.name] += fi.calls
					} else if fi.model != nil {
						e.models[fi.name] += fi.calls
					} else if fi.inRepo {
						e.funcs[fi.name] += fi.calls
					}
				}
			}
			e.mu.Unlock()
		}()
	}
	wg.Wait()
	return firstErr
}

func (w *Worker) runItem(it *workItem) {
	c := it.c
	w.cs = c
	c.mu.Lock()
	if c.started.IsZero() {
		c.started = time.Now()
	}
	c.mu.Unlock()
	if w.eng.expired() {
		c.mu.Lock()
		c.aborted["time budget exhausted"]++
		c.mu.Unlock()
		return
	}
	w.rollback(0)
	w.noTrail, w.nest = 0, 0
	w.pc, w.inputs, w.obs, w.events = nil, nil, nil, nil
	w.reached, w.steps, w.snaps, w.forks = 0, 0, nil, 0
	w.mapOrder, w.nOrder, w.tracing, w.clock = false, 0, false, 0
	w.sched, w.preempts = -1, 0
	w.wg = map[*Value]int{}
	w.dec, w.decPos = it.dec, 0
	w.pending = it.model
	m := map[uint32]uint64{}
	for n, v := range it.model {
		if t := w.tp.vars[n]; t != nil {
			m[t.id] = v
		}
	}
	w.setModel(m)
	w.st = &State{}
	th := &Thread{}
	w.st.threads = []*Thread{th}
	args := make([]Value, len(c.Args))
	for i, a := range c.Args {
		args[i] = w.tp.Const(uint64(int64(a)), 64)
	}
	fi := w.info(c.fn)
	// make sure the packages the harness names are initialised before anything runs
	w.preinit(c.fn.Pkg)
	fr := &Frame{fi: fi, regs: make([]Value, fi.nregs), ret: -1}
	if len(fi.params) > 0 {
		fr.regs[0] = Slice{args}
	}
	fi.calls++
	th.frames = []*Frame{fr}
	for {
		why, kind := w.runPath()
		w.endPath(why, kind)
		if len(w.snaps) == 0 {
			break
		}
		if w.eng.late.Load() {
			c.mu.Lock()
			c.aborted["time budget exhausted"] += len(w.snaps)
			c.mu.Unlock()
			break
		}
		w.resume()
	}
	c.mu.Lock()
	c.forks += w.forks
	c.ended = time.Now()
	c.mu.Unlock()
	w.rollback(0)
}

// preinit initialises the repository's packages the harness depends on, in dependency order.
func (w *Worker) preinit(p *ssa.Package) {
	seen := map[*types.Package]bool{}
	var visit func(tp *types.Package)
	visit = func(tp *types.Package) {
		if seen[tp] {
			return
		}
		seen[tp] = true
		for _, i := range tp.Imports() {
			visit(i)
		}
		if strings.HasPrefix(tp.Path(), repoModule) {
			if sp := w.eng.pkgs[tp.Path()]; sp != nil {
				w.initPackage(sp)
			}
		}
	}
	visit(p.Pkg)
}

func (w *Worker) inputValues() []inputJSON {
	var r []inputJSON
	for _, in := range w.inputs {
		if in.kind == "aux" {
			continue
		}
		j := inputJSON{Name: in.name, Kind: in.kind}
		for _, t := range in.t {
			v, _ := w.evalModel(t)
			j.V = append(j.V, v)
		}
		r = append(r, j)
	}
	return r
}

func (w *Worker) obsValues() []obJSON {
	var r []obJSON
	for _, o := range w.obs {
		if o.lit {
			b := make([]byte, len(o.v))
			for i, t := range o.v {
				v, _ := w.evalModel(t)
				b[i] = byte(v)
			}
			r = append(r, obJSON{o.name, fmt.Sprintf("%q", b)})
		} else {
			v, _ := w.evalModel(o.v[0])
			r = append(r, obJSON{o.name, fmt.Sprint(sext64(v, o.v[0].w))})
		}
	}
	return r
}

func (w *Worker) violation(msg string) {
	c := w.cs
	c.mu.Lock()
	defer c.mu.Unlock()
	key := msg
	c.violCount[key]++
	if c.violCount[key] > 4 {
		return
	}
	if w.eng.first {
		w.eng.late.Store(true)
		w.eng.deadline = time.Time{}
	}
	c.viols = append(c.viols, &Violation{Msg: msg, In: w.inputValues(), c: c})
}

// finding records inputs for which the defect known as id shows.
func (w *Worker) finding(id, msg string) {
	c := w.cs
	c.mu.Lock()
	defer c.mu.Unlock()
	key := "finding " + id + "|" + msg
	c.violCount[key]++
	if c.violCount[key] > 1 {
		return
	}
	c.viols = append(c.viols, &Violation{Msg: msg, In: w.inputValues(), Known: id, c: c})
}

func (w *Worker) endPath(why, kind string) {
	c := w.cs
	switch kind {
	case "panic", "assert":
		w.violation(why)
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if kind == "end" {
		kind = why
	}
	if i := strings.IndexByte(kind, ':'); i > 0 {
		kind = kind[:i]
	}
	c.paths[kind]++
	c.decisions += len(w.dec)
	c.steps += w.steps
	if w.reached > 0 {
		c.reached++
	}
	switch kind {
	case "abort":
		c.aborted[why]++
		if len(c.suspects) < 200 {
			c.suspects = append(c.suspects, &Sample{Inputs: w.inputValues(), Kind: kind, Why: why})
		}
	case "return":
		n := c.paths[kind]
		// the first ones, then ever rarer ones
		if len(c.samples) < 3 || (n&(n-1)) == 0 {
			c.samples = append(c.samples, &Sample{Inputs: w.inputValues(), Obs: w.obsValues(), Kind: kind, Reach: w.reached})
		} else if w.pathIncomplete != "" && len(c.suspects) < 200 {
			c.suspects = append(c.suspects, &Sample{Inputs: w.inputValues(), Kind: "incomplete", Why: w.pathIncomplete})
		}
	}
}

func newCase(h string, args []int) *Case {
	return &Case{Harness: h, Args: args, paths: map[string]int{}, undec: map[string]int{}, incompl: map[string]int{},
		pinned: map[string]int{}, aborted: map[string]int{}, violCount: map[string]int{}}
}

// modFile returns the alternative go.mod, when one is set up.
// patch copies the modules that a check patches and makes a go.mod that uses the copies.
func (e *Engine) patch(ps []Patch) (string, error) {
	dir, err := os.MkdirTemp("", "gosym-mod-")
	if err != nil {
		return "", err
	}
	mod, err := os.ReadFile(filepath.Join(e.repo, "go.mod"))
	if err != nil {
		return dir, err
	}
	for i, p := range ps {
		if p.Stub {
			to := filepath.Join(dir, "m"+strconv.Itoa(i))
			if err := os.MkdirAll(to, 0o755); err != nil {
				return dir, err
			}
			p.Files["go.mod"] = "module " + p.Module + "\n\ngo 1.22\n"
			for name, text := range p.Files {
				if err := os.WriteFile(filepath.Join(to, name), []byte(text), 0o644); err != nil {
					return dir, err
				}
			}
			mod = append(mod, []byte("\nreplace "+p.Module+" => "+to+"\n")...)
			continue
		}
		cmd := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", p.Module)
		cmd.Path = "/opt/veriftools/go1.23.12/bin/go"
		cmd.Dir = e.repo
		cmd.Env = e.env()
		out, err := cmd.Output()
		if err != nil {
			return dir, fmt.Errorf("%s: %v", p.Module, err)
		}
		from, to := strings.TrimSpace(string(out)), filepath.Join(dir, "m"+strconv.Itoa(i))
		err = filepath.Walk(from, func(path string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			rel, _ := filepath.Rel(from, path)
			if fi.IsDir() {
				return os.MkdirAll(filepath.Join(to, rel), 0o755)
			}
			if strings.HasSuffix(path, "_test.go") {
				return nil
			}
			b, err := os.ReadFile(path)
			if err != nil {
				return err
			}
			for _, ed := range p.Edits {
				if ed[0] == rel {
					if strings.Count(string(b), ed[1]) != 1 {
						return fmt.Errorf("%s %s: not as expected", p.Module, rel)
					}
					b = []byte(strings.Replace(string(b), ed[1], ed[1]+ed[2], 1))
				}
			}
			return os.WriteFile(filepath.Join(to, rel), b, 0o644)
		})
		if err != nil {
			return dir, err
		}
		for name, text := range p.Files {
			if err := os.WriteFile(filepath.Join(to, name), []byte(text), 0o644); err != nil {
				return dir, err
			}
		}
		mod = append(mod, []byte("\nreplace "+p.Module+" => "+to+"\n")...)
	}
	mf := filepath.Join(dir, "go.mod")
	if err := os.WriteFile(mf, mod, 0o644); err != nil {
		return dir, err
	}
	sum, err := os.ReadFile(filepath.Join(e.repo, "go.sum"))
	if err != nil {
		return dir, err
	}
	if err := os.WriteFile(filepath.Join(dir, "go.sum"), sum, 0o644); err != nil {
		return dir, err
	}
	os.Setenv("GOSYM_MODFILE", mf)
	return dir, nil
}

func modFile(repo string) string { return os.Getenv("GOSYM_MODFILE") }

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func mustJSON(v any) []byte {
	b, err := json.MarshalIndent(v, "", "  ")
	if err != nil {
		panic(err)
	}
	return b
}

// modelFunc is a function of the models package.
func (e *Engine) modelFunc(name string) *ssa.Function {
	p := e.pkgs[modelPkg]
	e.buildPkg(p)
	return p.Func(name)
}
