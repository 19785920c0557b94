package vm

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"

	"verif/engine/sym"
)

// Program is the SSA form of the packages under analysis.
type Program struct {
	SSA    *ssa.Program
	Pkgs   map[string]*ssa.Package
	Module string
	mu     sync.Mutex
	TypeOf map[string]types.Type
}

func Load(dir string, env []string, overlay map[string][]byte, patterns ...string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: env, Overlay: overlay}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	pr := &Program{SSA: prog, Pkgs: map[string]*ssa.Package{}, Module: "github.com/DaoCloud/ckube"}
	for _, p := range prog.AllPackages() {
		pr.Pkgs[p.Pkg.Path()] = p
	}
	return pr, nil
}

func (p *Program) Func(pkg, name string) *ssa.Function {
	pk := p.Pkgs[pkg]
	if pk == nil {
		return nil
	}
	return pk.Func(name)
}

// Type returns the named type pkg.name.
func (p *Program) TypeOrNil(pkg, name string) types.Type {
	pk := p.Pkgs[pkg]
	if pk == nil || pk.Type(name) == nil {
		return nil
	}
	return pk.Type(name).Type()
}

func (p *Program) Type(pkg, name string) types.Type {
	pk := p.Pkgs[pkg]
	if pk == nil {
		return nil
	}
	o := pk.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

type Stats struct {
	Paths, Ended, Infeasible   int64
	Steps                      int64
	Branches, DomQueries       int64
	AssertTriv, AssertUnsat    int64
	SolverQueries              int64
	SolverTime                 time.Duration
	Limits, Unsup, Deadlocks   int64
	SolverUnknown, SolverError int64
	Preempt                    int64
}

func (s *Stats) Add(o *Stats) {
	s.Paths += o.Paths
	s.Ended += o.Ended
	s.Infeasible += o.Infeasible
	s.Steps += o.Steps
	s.Branches += o.Branches
	s.DomQueries += o.DomQueries
	s.AssertTriv += o.AssertTriv
	s.AssertUnsat += o.AssertUnsat
	s.SolverQueries += o.SolverQueries
	s.SolverTime += o.SolverTime
	s.Limits += o.Limits
	s.Unsup += o.Unsup
	s.Deadlocks += o.Deadlocks
	s.SolverUnknown += o.SolverUnknown
	s.SolverError += o.SolverError
}

type Options struct {
	Workers    int
	StepLimit  int64
	Deadline   time.Time
	MaxPaths   int64
	SolverMS   int
	Solver     []string
	Verbose    bool
	Trace      bool
	MaxViol    int
	Samples    int
	PanicIsBug bool
	Thorough   bool
	Seed       int64
	Params     map[string]int64
	Known      map[string]bool // assertions with a recorded finding
}

// Sample is a completed path with one concrete input and what was observed.
type Sample struct {
	Harness  string
	Inputs   []InputVal
	Observed []string
}

// Explorer runs one harness to exhaustion of its decision tree.
type Explorer struct {
	prog    *Program
	harness *ssa.Function
	Name    string
	opt     Options

	mu      sync.Mutex
	cond    *sync.Cond
	stack   []*WorkItem
	active  int
	stopped bool

	Stats      Stats
	Violations []*Violation
	violIDs    map[string]int
	Reduced    map[string]int
	Reached    map[string]int
	Samples    []Sample
	Funcs      map[string]bool
	nsampled   int64
	npaths     atomic.Int64
	Unsup      map[string]int
	Covers     map[string]int
	TimedOut   bool
	Elapsed    time.Duration
	Bounds     map[string]int64
}

func (ex *Explorer) setBound(n string, v int64) {
	ex.mu.Lock()
	ex.Bounds[n] = v
	ex.mu.Unlock()
}

func NewExplorer(prog *Program, h *ssa.Function, opt Options) *Explorer {
	ex := &Explorer{prog: prog, harness: h, Name: h.Name(), opt: opt, violIDs: map[string]int{}, Reduced: map[string]int{},
		Reached: map[string]int{}, Funcs: map[string]bool{}, Unsup: map[string]int{}, Covers: map[string]int{}, Bounds: map[string]int64{}}
	ex.cond = sync.NewCond(&ex.mu)
	return ex
}

func (ex *Explorer) reduce(msg string) {
	ex.mu.Lock()
	ex.Reduced[msg]++
	ex.mu.Unlock()
}

func (ex *Explorer) push(it *WorkItem) {
	ex.mu.Lock()
	ex.stack = append(ex.stack, it)
	ex.mu.Unlock()
	ex.cond.Signal()
}

func (ex *Explorer) pop() *WorkItem {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stopped {
			return nil
		}
		if len(ex.stack) > 0 {
			if time.Now().After(ex.opt.Deadline) || (ex.opt.MaxPaths > 0 && ex.npaths.Load() >= ex.opt.MaxPaths) {
				ex.TimedOut = true
				ex.stopped = true
				ex.Reduced[fmt.Sprintf("time or path budget reached; %d pending prefixes not explored", len(ex.stack))]++
				ex.cond.Broadcast()
				return nil
			}
			it := ex.stack[len(ex.stack)-1]
			ex.stack = ex.stack[:len(ex.stack)-1]
			ex.active++
			return it
		}
		if ex.active == 0 {
			ex.stopped = true
			ex.cond.Broadcast()
			return nil
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) done() {
	ex.mu.Lock()
	ex.active--
	ex.mu.Unlock()
	ex.cond.Broadcast()
}

// Pool keeps warmed-up workers between harnesses.
type Pool struct {
	prog *Program
	ws   []*Worker
	opt  Options
}

func NewPool(prog *Program, opt Options) *Pool {
	p := &Pool{prog: prog, opt: opt}
	for i := 0; i < opt.Workers; i++ {
		w := newWorker(prog, opt)
		w.id = i
		p.ws = append(p.ws, w)
	}
	return p
}

func (p *Pool) Close() {
	for _, w := range p.ws {
		w.closeSolver()
	}
}

func (p *Pool) Run(ex *Explorer) {
	st := time.Now()
	ex.push(&WorkItem{model: Model{}})
	var wg sync.WaitGroup
	for _, w := range p.ws {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			w.ex = ex
			w.stats = Stats{}
			w.q0, w.t0 = w.solverCounts()
			for {
				it := ex.pop()
				if it == nil {
					break
				}
				w.runPath(it)
				ex.done()
			}
			q, t := w.solverCounts()
			w.stats.SolverQueries = int64(q - w.q0)
			w.stats.SolverTime = t - w.t0
			ex.mu.Lock()
			ex.Stats.Add(&w.stats)
			for f := range w.funcsSeen {
				ex.Funcs[f] = true
			}
			ex.mu.Unlock()
			w.funcsSeen = map[string]bool{}
		}(w)
	}
	wg.Wait()
	ex.Elapsed = time.Since(st)
}

type trailEnt struct {
	p   *Value
	old Value
	f   func()
}

// Worker executes paths one at a time.
type Worker struct {
	id      int
	prog    *Program
	ex      *Explorer
	opt     Options
	ctx     *sym.Ctx
	solver  *sym.Solver
	solver2 *sym.Solver
	path    *Path
	stats   Stats

	globals  map[*ssa.Global]*Value
	inited   map[*ssa.Package]int // 1 running, 2 done
	initing  int
	trailLog []trailEnt
	fns      map[*ssa.Function]*fn
	tcanon   typeutil.Map
	methods  map[methodKey]*ssa.Function
	msets    typeutil.MethodSetCache
	implC    map[[2]types.Type]bool

	jfields   map[types.Type][]jfield
	rtypes    map[types.Type]*Opaque
	funcsSeen map[string]bool
	sched     *sched
	panicAt   string
	b64src    map[*sym.Term]*sym.Term
	q0        int
	t0        time.Duration

	nat      map[string]natFn
	side     map[any]any // per-path side tables of intrinsics
	locks    map[*Value]*lockState
	nextID   int
	race     *raceState
	curFrame *frame
	qcache   map[string]qres
}

type qres struct {
	r sym.Result
	m map[string]uint64
}

type methodKey struct {
	t    types.Type
	name string
}

func newWorker(prog *Program, opt Options) *Worker {
	w := &Worker{prog: prog, opt: opt}
	w.reset()
	return w
}

func (w *Worker) reset() {
	w.ctx = sym.NewCtx()
	w.globals = map[*ssa.Global]*Value{}
	w.inited = map[*ssa.Package]int{}
	w.fns = map[*ssa.Function]*fn{}
	w.methods = map[methodKey]*ssa.Function{}
	w.implC = map[[2]types.Type]bool{}
	w.funcsSeen = map[string]bool{}
	w.rtypes = map[types.Type]*Opaque{}
	w.b64src = map[*sym.Term]*sym.Term{}
	w.panicAt = ""
	w.nat = natives
	w.trailLog = nil
	w.tcanon = typeutil.Map{}
	w.closeSolver()
}

func (w *Worker) closeSolver() {
	if w.solver != nil {
		w.solver.Close()
		w.solver = nil
	}
}

func (w *Worker) solverCounts() (int, time.Duration) {
	if w.solver == nil {
		return 0, 0
	}
	return w.solver.Queries, w.solver.Time
}

func (w *Worker) check(cs []*sym.Term, dom func(v *sym.Term) (sym.Dom, bool)) (sym.Result, map[*sym.Term]uint64) {
	if w.solver == nil {
		s, err := sym.NewSolver(w.opt.SolverMS, w.opt.Solver...)
		if err != nil {
			panic(err)
		}
		w.solver = s
	}
	r, m := w.solver.Check(cs, dom)
	if r == sym.Unknown {
		w.stats.SolverUnknown++
	}
	return r, m
}

func (w *Worker) trail(f func()) {
	if w.initing == 0 {
		w.trailLog = append(w.trailLog, trailEnt{f: f})
	}
}

func (w *Worker) set(p *Value, v Value) {
	if w.initing == 0 {
		w.trailLog = append(w.trailLog, trailEnt{p: p, old: *p})
	}
	*p = v
}

func (w *Worker) undo() {
	for i := len(w.trailLog) - 1; i >= 0; i-- {
		e := &w.trailLog[i]
		if e.f != nil {
			e.f()
		} else {
			*e.p = e.old
		}
		*e = trailEnt{}
	}
	w.trailLog = w.trailLog[:0]
}

// assign stores v into the cell p, keeping the addresses of parts of
// aggregates stable.
func (w *Worker) assign(p *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		if d, ok := (*p).(Struct); ok && len(d) == len(x) {
			for i := range x {
				w.assign(&d[i], x[i])
			}
			return
		}
		w.set(p, copyVal(v))
		return
	case Array:
		if d, ok := (*p).(Array); ok && len(d) == len(x) {
			for i := range x {
				w.assign(&d[i], x[i])
			}
			return
		}
		w.set(p, copyVal(v))
		return
	}
	w.set(p, v)
}

func (w *Worker) canon(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if n, ok := t.(*types.Named); ok && n.TypeArgs().Len() == 0 && n.TypeParams().Len() == 0 {
		if n.Obj().Parent() == nil || n.Obj().Pkg() == nil || n.Obj().Parent() == n.Obj().Pkg().Scope() {
			return t
		}
	}
	t = types.Unalias(t)
	if c := w.tcanon.At(t); c != nil {
		return c.(types.Type)
	}
	w.tcanon.Set(t, t)
	return t
}

func (w *Worker) runPath(it *WorkItem) {
	w.stats.Paths++
	w.ex.npaths.Add(1)
	if w.ctx.Size() > 4_000_000 {
		w.resetTerms()
	}
	p := &Path{w: w, prefix: it.prefix, initial: it.model, model: map[*sym.Term]uint64{}, doms: map[*sym.Term]sym.Dom{},
		entangle: map[*sym.Term]bool{}, known: map[*sym.Term]bool{}, byName: map[string]int{}, reached: map[string]int{}}
	w.path = p
	w.side = map[any]any{}
	w.locks = map[*Value]*lockState{}
	w.race = nil
	w.nextID = 0
	end := w.execPath(p)
	if end.kind == stopDeadlock {
		w.violation(p, "deadlock", end.msg, p.model)
	}
	for _, c := range p.cons {
		if end.kind == stopEnd && p.eval(c) != 1 {
			fmt.Fprintf(os.Stderr, "[model] path condition false under the model: %v\n", c)
		}
	}
	w.undo()
	w.stats.Steps += p.steps
	ex := w.ex
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for k, n := range p.reached {
		ex.Reached[k] += n
	}
	for _, c := range p.covers {
		ex.Covers[c]++
	}
	switch end.kind {
	case stopEnd:
		w.stats.Ended++
		if end.msg == "" {
			ex.sample(w, p)
		}
	case stopInfeasible:
		w.stats.Infeasible++
	case stopUnsupported:
		w.stats.Unsup++
		ex.Unsup[end.msg]++
		if w.opt.Verbose {
			fmt.Fprintf(os.Stderr, "[unsupported] %s\n", end.msg)
		}
	case stopLimit:
		w.stats.Limits++
		ex.Reduced["path cut: "+end.msg]++
	case stopDeadlock:
		w.stats.Deadlocks++
	}
}

func (w *Worker) resetTerms() {
	// Globals may hold terms only through path effects, which are undone, so
	// a fresh context is safe between paths.
	w.ctx = sym.NewCtx()
	w.b64src = map[*sym.Term]*sym.Term{}
	w.panicAt = ""
	w.closeSolverKeepCounts()
}

func (w *Worker) closeSolverKeepCounts() {
	if w.solver != nil {
		q, t := w.solver.Queries, w.solver.Time
		w.solver.Close()
		w.solver = nil
		s, err := sym.NewSolver(w.opt.SolverMS, w.opt.Solver...)
		if err != nil {
			panic(err)
		}
		s.Queries, s.Time = q, t
		w.solver = s
	}
}

// sample keeps a spread of completed paths for native replay.
func (ex *Explorer) sample(w *Worker, p *Path) {
	ex.nsampled++
	k := ex.nsampled
	max := ex.opt.Samples
	if max == 0 {
		return
	}
	keep := -1
	if len(ex.Samples) < max {
		keep = len(ex.Samples)
		ex.Samples = append(ex.Samples, Sample{})
	} else {
		// deterministic spread: replace on powers-of-two spacing
		h := uint64(k) * 0x9E3779B97F4A7C15
		if h%uint64(k) < uint64(max) {
			keep = int(h % uint64(max))
		}
	}
	if keep < 0 {
		return
	}
	s := Sample{Harness: ex.Name, Inputs: p.inputVals(p.model)}
	for _, o := range p.obs {
		s.Observed = append(s.Observed, o.name+"="+p.render(p.model, o.val))
	}
	ex.Samples[keep] = s
}

func (w *Worker) violation(p *Path, id, msg string, m map[*sym.Term]uint64) {
	ex := w.ex
	v := &Violation{Harness: ex.Name, ID: id, Msg: msg, Inputs: p.inputVals(m), Scheduled: w.sched != nil && w.sched.preempted}
	for _, o := range p.obs {
		v.Observed = append(v.Observed, o.name+"="+p.render(m, o.val))
	}
	v.Detail = append(v.Detail, p.notes...)
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.violIDs[id]++
	if ex.violIDs[id] == 1 && !ex.opt.Known[id] {
		// there is something to report, so the rest need not be explored to the end
		if t := time.Now().Add(10 * time.Second); t.Before(ex.opt.Deadline) {
			ex.opt.Deadline = t
		}
	}
	if ex.violIDs[id] <= ex.opt.MaxViol {
		ex.Violations = append(ex.Violations, v)
		if w.opt.Verbose {
			fmt.Fprintf(os.Stderr, "[violation] %s %s\n", id, msg)
		}
	}
}

// execPath runs the harness once.
func (w *Worker) execPath(p *Path) (end ctrl) {
	defer func() {
		if r := recover(); r != nil {
			if c, ok := r.(ctrl); ok {
				end = c
				return
			}
			if w.opt.Verbose {
				debug.PrintStack()
			}
			end = ctrl{stopUnsupported, fmt.Sprintf("engine: %v%s", r, w.where())}
		}
	}()
	return w.runScheduled(func(g *goroutine) {
		w.callFn(nil, g, w.ex.harness, nil, nil)
	})
}

func (w *Worker) where() string {
	var sb strings.Builder
	fr := w.curFrame
	for i := 0; fr != nil && i < 6; i++ {
		sb.WriteString(" <- " + fr.f.name)
		if fr.f.blocks != nil && fr.block < len(fr.f.blocks) && fr.pc < len(fr.f.blocks[fr.block].src) {
			if pos := fr.f.blocks[fr.block].src[fr.pc].Pos(); pos.IsValid() {
				ps := w.prog.SSA.Fset.Position(pos)
				fn := ps.Filename
				if j := strings.LastIndexByte(fn, '/'); j >= 0 {
					fn = fn[j+1:]
				}
				fmt.Fprintf(&sb, "(%s:%d)", fn, ps.Line)
			}
		}
		fr = fr.caller
	}
	return sb.String()
}

func (ex *Explorer) SortedFuncs(prefix string) []string {
	var out []string
	for f := range ex.Funcs {
		if strings.Contains(f, prefix) {
			out = append(out, f)
		}
	}
	sort.Strings(out)
	return out
}

func (ex *Explorer) SetDeadline(t time.Time) { ex.opt.Deadline = t }
