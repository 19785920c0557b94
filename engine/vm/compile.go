package vm

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"runtime"
	"runtime/debug"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine/sym"
)

type opd struct {
	s int32
	v Value
}

type instr func(fr *frame)

type phiC struct {
	dst  int32
	srcs []opd // by predecessor index
}

type cblock struct {
	phis  []phiC
	preds []int
	ins   []instr
	src   []ssa.Instruction
}

type natFn func(fr *frame, args []Value) Value

type fn struct {
	sf       *ssa.Function
	name     string
	nslots   int
	nparams  int
	blocks   []cblock
	hasDefer bool
	nat      natFn
	isInit   bool
	mod      bool // in the module under test
	tracked  bool // accesses count in race checks
	nores    bool
	recover  int // recover block index or -1
	zeroRes  []types.Type
}

type deferred struct {
	call func(fr *frame)
	next *deferred
}

type frame struct {
	w         *Worker
	g         *goroutine
	f         *fn
	caller    *frame
	regs      []Value
	block     int
	prev      int
	next      int
	pc        int
	ret       Value
	defers    *deferred
	panicking bool
	panicVal  any
	depth     int
	cur       ssa.Instruction
	native    string
}

func (fr *frame) get(o *opd) Value {
	if o.s >= 0 {
		return fr.regs[o.s]
	}
	return o.v
}

type compiler struct {
	w     *Worker
	f     *ssa.Function
	slots map[ssa.Value]int32
	n     int32
	out   *fn
}

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return o.String()
	}
	return f.String()
}

func pkgOf(f *ssa.Function) *ssa.Package {
	for f != nil {
		if f.Pkg != nil {
			return f.Pkg
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg
		}
		f = f.Parent()
	}
	return nil
}

// redirects are functions of dependencies that run a stand-in of the harness
// package model instead, where a harness uses it.
var redirects = map[string]string{
	"(*net/http.Server).ListenAndServe": "ServerListenAndServe",
	"(*net/http.Server).Shutdown":       "ServerShutdown",
	"(*net/http.Client).Do":             "ClientDo",
	"net/http.Get":                      "Get",

	"k8s.io/client-go/rest.TransportFor": "TransportFor",

	"os.ReadFile":  "ReadFile",
	"os.WriteFile": "WriteFile",
	"os.Stat":      "Stat",
	"os.Lstat":     "Stat",
	"os.Remove":    "Remove",
	"os.Rename":    "Rename",
	"os.MkdirTemp": "MkdirTemp",

	"os.MkdirAll": "MkdirAll",

	"os.IsNotExist": "IsNotExist",

	"github.com/fsnotify/fsnotify.NewWatcher":        "FsNewWatcher",
	"(*github.com/fsnotify/fsnotify.Watcher).Add":    "FsAdd",
	"(*github.com/fsnotify/fsnotify.Watcher).Remove": "FsRemove",
	"(*github.com/fsnotify/fsnotify.Watcher).Close":  "FsClose",

	"github.com/prometheus/client_golang/prometheus/promauto.NewGaugeVec":           "NewGaugeVec",
	"github.com/prometheus/client_golang/prometheus/promauto.NewCounterVec":         "NewCounterVec",
	"(*github.com/prometheus/client_golang/prometheus.GaugeVec).WithLabelValues":    "GaugeLabels",
	"(*github.com/prometheus/client_golang/prometheus.CounterVec).WithLabelValues":  "CounterLabels",
	"(*github.com/prometheus/client_golang/prometheus.metricVec).Reset":             "VecReset",
	"(*github.com/prometheus/client_golang/prometheus.GaugeVec).With":               "GaugeWith",
	"(*github.com/prometheus/client_golang/prometheus.CounterVec).With":             "CounterWith",
	"(*github.com/prometheus/client_golang/prometheus.metricVec).DeleteLabelValues": "VecDeleteValues",
	"(*github.com/prometheus/client_golang/prometheus.metricVec).Delete":            "VecDelete",
}

func (p *Program) redirect(name string) *ssa.Function {
	t, ok := redirects[name]
	if !ok {
		return nil
	}
	pk := p.Pkgs[p.Module+"/zzverif/model"]
	if pk == nil {
		return nil
	}
	return pk.Func(t)
}

func (w *Worker) fnOf(f *ssa.Function) *fn {
	if c, ok := w.fns[f]; ok {
		return c
	}
	name := fnName(f)
	c := &fn{sf: f, name: name, recover: -1}
	w.fns[f] = c
	pk := pkgOf(f)
	if pk != nil {
		pp := pk.Pkg.Path()
		c.mod = (strings.HasPrefix(pp, w.prog.Module) && !strings.Contains(pp, "/zzverif")) || strings.HasPrefix(pp, "github.com/samber/lo")
		// whose memory accesses count in race checks
		c.tracked = c.mod || pp == "k8s.io/apimachinery/pkg/runtime" || pp == "k8s.io/client-go/rest"
		if strings.HasPrefix(pp, w.prog.Module) && !strings.Contains(pp, "/zzverif") {
			w.funcsSeen[f.String()] = true
		}
	}
	if m := w.prog.redirect(name); m != nil && m != f {
		c = w.fnOf(m)
		w.fns[f] = c
		return c
	}
	if n, ok := w.nat[name]; ok {
		c.nat = n
		return c
	}
	if pk != nil {
		if n, ok := natPkgs[pk.Pkg.Path()]; ok {
			c.nat = n(f)
			if c.nat != nil {
				return c
			}
		}
		pk.Build()
		if f.Name() != "init" || f.Synthetic == "" {
			// the initialiser may call f itself
			delete(w.fns, f)
			w.ensureInit(pk)
			if c, ok := w.fns[f]; ok {
				return c
			}
			w.fns[f] = c
		}
	}
	if f.Blocks == nil {
		msg := "call of external function " + name
		c.nat = func(fr *frame, args []Value) Value { panic(unsupported(msg)) }
		return c
	}
	(&compiler{w: w, f: f, slots: map[ssa.Value]int32{}, out: c}).compile()
	return c
}

func (w *Worker) ensureInit(pk *ssa.Package) {
	if w.inited[pk] != 0 {
		return
	}
	w.inited[pk] = 1
	pk.Build()
	defer func() { w.inited[pk] = 2 }()
	if skipInit(pk.Pkg.Path()) {
		return
	}
	ini := pk.Func("init")
	if ini == nil || ini.Blocks == nil {
		return
	}
	w.initing++
	saved := w.curFrame
	defer func() {
		w.initing--
		w.curFrame = saved
		if r := recover(); r != nil {
			if c, ok := r.(ctrl); ok && c.kind != stopUnsupported {
				panic(r)
			}
			if w.opt.Verbose {
				fmt.Printf("[init] %s: %v\n", pk.Pkg.Path(), r)
			}
		}
	}()
	w.callFn(nil, w.initG(), ini, nil, nil)
}

func (w *Worker) initG() *goroutine { return &goroutine{w: w, id: -1} }

func (w *Worker) global(g *ssa.Global) *Value {
	if p, ok := w.globals[g]; ok {
		return p
	}
	p := new(Value)
	*p = zero(g.Type().(*types.Pointer).Elem())
	w.globals[g] = p
	if g.Pkg != nil {
		if f, ok := globalOverride[g.Pkg.Pkg.Path()+"."+g.Name()]; ok {
			*p = f(w)
			return p
		}
		w.ensureInit(g.Pkg)
	}
	return p
}

func (c *compiler) slot(v ssa.Value) int32 {
	if s, ok := c.slots[v]; ok {
		return s
	}
	s := c.n
	c.n++
	c.slots[v] = s
	return s
}

func constVal(k *ssa.Const) Value {
	if k.Value == nil {
		return zero(k.Type())
	}
	t := k.Type().Underlying()
	if tp, ok := t.(*types.Interface); ok {
		_ = tp
		panic(unsupported("constant of type-parameter type"))
	}
	b := t.(*types.Basic)
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(k.Value)
	case b.Info()&types.IsInteger != 0:
		ik, _ := intKind(b)
		v := constant.ToInt(k.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Int(uint64(i) & sym.Mask(ik.w))
		}
		u, _ := constant.Uint64Val(v)
		return Int(u & sym.Mask(ik.w))
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(k.Value)
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	case b.Info()&types.IsComplex != 0:
		re, _ := constant.Float64Val(constant.Real(k.Value))
		im, _ := constant.Float64Val(constant.Imag(k.Value))
		return complex(re, im)
	case b.Info()&types.IsString != 0:
		if k.Value.Kind() == constant.String {
			return constant.StringVal(k.Value)
		}
		i, _ := constant.Int64Val(k.Value)
		return string(rune(i))
	case b.Kind() == types.UnsafePointer:
		return UPtr{}
	}
	panic(unsupported("constant " + k.String()))
}

func (c *compiler) op(v ssa.Value) opd {
	switch v := v.(type) {
	case *ssa.Const:
		return opd{-1, constVal(v)}
	case *ssa.Global:
		return opd{-1, c.w.global(v)}
	case *ssa.Function:
		return opd{-1, &Closure{Fn: v}}
	case *ssa.Builtin:
		return opd{-1, &Opaque{Kind: "builtin", Data: v.Name()}}
	}
	return opd{c.slot(v), nil}
}

func (c *compiler) ops(vs []ssa.Value) []opd {
	r := make([]opd, len(vs))
	for i, v := range vs {
		r[i] = c.op(v)
	}
	return r
}

func (c *compiler) compile() {
	f := c.f
	for _, p := range f.Params {
		c.slot(p)
	}
	for _, p := range f.FreeVars {
		c.slot(p)
	}
	c.out.nparams = len(f.Params)
	c.out.isInit = f.Name() == "init" && f.Synthetic != "" && f.Signature.Recv() == nil && f.Parent() == nil
	if f.Recover != nil {
		c.out.recover = f.Recover.Index
	}
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		c.out.zeroRes = append(c.out.zeroRes, res.At(i).Type())
	}
	c.out.blocks = make([]cblock, len(f.Blocks))
	for i, b := range f.Blocks {
		cb := &c.out.blocks[i]
		for _, p := range b.Preds {
			cb.preds = append(cb.preds, p.Index)
		}
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				cb.phis = append(cb.phis, phiC{c.slot(ph), c.ops(ph.Edges)})
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			x := c.instrSafe(in)
			if x == nil {
				continue
			}
			if c.out.isInit {
				x = c.guardInit(in, x)
			}
			cb.ins = append(cb.ins, x)
			cb.src = append(cb.src, in)
		}
	}
	c.out.nslots = int(c.n)
	c.out.hasDefer = c.out.hasDefer || f.Recover != nil
}

type poison struct{ why string }

// guardInit makes one failing package initialiser poison only its own result.
func (c *compiler) guardInit(in ssa.Instruction, x instr) instr {
	switch in.(type) {
	case *ssa.If, *ssa.Jump, *ssa.Return:
		return x
	}
	dst := int32(-1)
	if v, ok := in.(ssa.Value); ok {
		dst = c.slot(v)
	}
	name := c.f.String()
	return func(fr *frame) {
		defer func() {
			if r := recover(); r != nil {
				if cc, ok := r.(ctrl); ok && cc.kind != stopUnsupported {
					panic(r)
				}
				if fr.w.opt.Verbose {
					fmt.Printf("[init] %s: %s: %v\n", name, in, r)
					if _, ok := r.(runtime.Error); ok {
						debug.PrintStack()
					}
				}
				if dst >= 0 {
					fr.regs[dst] = poison{fmt.Sprint(r)}
				}
			}
		}()
		x(fr)
	}
}

func (c *compiler) instrSafe(in ssa.Instruction) (x instr) {
	defer func() {
		if r := recover(); r != nil {
			if cc, ok := r.(ctrl); ok && cc.kind == stopUnsupported {
				msg := cc.msg
				x = func(fr *frame) { panic(unsupported(msg)) }
				return
			}
			panic(r)
		}
	}()
	return c.instr(in)
}

func (c *compiler) instr(in ssa.Instruction) instr {
	switch in := in.(type) {
	case *ssa.Alloc:
		dst := c.slot(in)
		t := in.Type().Underlying().(*types.Pointer).Elem()
		if isAgg(t) {
			return func(fr *frame) {
				p := new(Value)
				*p = zero(t)
				fr.regs[dst] = p
			}
		}
		z := zero(t)
		return func(fr *frame) {
			p := new(Value)
			*p = z
			fr.regs[dst] = p
		}
	case *ssa.BinOp:
		return c.binop(in)
	case *ssa.UnOp:
		return c.unop(in)
	case *ssa.Call:
		dst := c.slot(in)
		call := c.call(&in.Call)
		return func(fr *frame) {
			v := call(fr)
			fr.regs[dst] = v
		}
	case *ssa.ChangeInterface:
		dst, x := c.slot(in), c.op(in.X)
		return func(fr *frame) { fr.regs[dst] = fr.get(&x) }
	case *ssa.ChangeType:
		dst, x := c.slot(in), c.op(in.X)
		return func(fr *frame) { fr.regs[dst] = fr.get(&x) }
	case *ssa.Convert:
		return c.convert(in)
	case *ssa.MultiConvert:
		dst, x := c.slot(in), c.op(in.X)
		from, to := in.X.Type(), in.Type()
		return func(fr *frame) { fr.regs[dst] = fr.convertDyn(from, to, fr.get(&x)) }
	case *ssa.Defer:
		c.out.hasDefer = true
		call := c.deferCall(&in.Call)
		return func(fr *frame) {
			d := call(fr)
			fr.defers = &deferred{call: d, next: fr.defers}
		}
	case *ssa.Go:
		call := c.deferCall(&in.Call)
		return func(fr *frame) {
			d := call(fr)
			fr.w.spawn(fr, d)
		}
	case *ssa.Extract:
		dst, x, i := c.slot(in), c.op(in.Tuple), in.Index
		return func(fr *frame) { fr.regs[dst] = fr.get(&x).(Tuple)[i] }
	case *ssa.Field:
		dst, x, i := c.slot(in), c.op(in.X), in.Field
		return func(fr *frame) { fr.regs[dst] = fr.get(&x).(Struct)[i] }
	case *ssa.FieldAddr:
		dst, x, i := c.slot(in), c.op(in.X), in.Field
		return func(fr *frame) {
			p, ok := fr.get(&x).(*Value)
			if !ok {
				panic(unsupported(fmt.Sprintf("field address of %T (%v)", fr.get(&x), fr.get(&x))))
			}
			if p == nil {
				fr.nilDeref()
			}
			fr.regs[dst] = &(*p).(Struct)[i]
		}
	case *ssa.If:
		x := c.op(in.Cond)
		t, e := in.Block().Succs[0].Index, in.Block().Succs[1].Index
		return func(fr *frame) {
			var b bool
			switch v := fr.get(&x).(type) {
			case bool:
				b = v
			case *sym.Term:
				b = fr.w.path.Branch(v)
			default:
				panic(fmt.Sprintf("if on %T", v))
			}
			if b {
				fr.next = t
			} else {
				fr.next = e
			}
		}
	case *ssa.Jump:
		t := in.Block().Succs[0].Index
		return func(fr *frame) { fr.next = t }
	case *ssa.Index:
		return c.index(in)
	case *ssa.IndexAddr:
		return c.indexAddr(in)
	case *ssa.Lookup:
		return c.lookup(in)
	case *ssa.MakeChan:
		dst, sz := c.slot(in), c.op(in.Size)
		return func(fr *frame) {
			n := fr.concInt(fr.get(&sz))
			fr.w.nextID++
			fr.regs[dst] = &Chan{cap: int(n), id: fr.w.nextID}
		}
	case *ssa.MakeClosure:
		dst := c.slot(in)
		f := in.Fn.(*ssa.Function)
		b := c.ops(in.Bindings)
		return func(fr *frame) {
			env := make([]Value, len(b))
			for i := range b {
				env[i] = fr.get(&b[i])
			}
			fr.regs[dst] = &Closure{Fn: f, Env: env}
		}
	case *ssa.MakeInterface:
		dst, x := c.slot(in), c.op(in.X)
		t := c.w.canon(in.X.Type())
		return func(fr *frame) { fr.regs[dst] = Iface{t, fr.get(&x)} }
	case *ssa.MakeMap:
		dst := c.slot(in)
		return func(fr *frame) { fr.regs[dst] = &Map{} }
	case *ssa.MakeSlice:
		dst, l, cp := c.slot(in), c.op(in.Len), c.op(in.Cap)
		et := in.Type().Underlying().(*types.Slice).Elem()
		return func(fr *frame) {
			n, m := fr.concInt(fr.get(&l)), fr.concInt(fr.get(&cp))
			if n < 0 || n > 1<<26 {
				fr.rtErr("makeslice: len out of range")
			}
			if m < n || m > 1<<26 {
				fr.rtErr("makeslice: cap out of range")
			}
			fr.regs[dst] = makeSlice(et, int(n), int(m))
		}
	case *ssa.MapUpdate:
		m, k, v := c.op(in.Map), c.op(in.Key), c.op(in.Value)
		kt := in.Map.Type().Underlying().(*types.Map).Key()
		return func(fr *frame) {
			mm := fr.get(&m).(*Map)
			if mm == nil {
				fr.rtErrPlain("assignment to entry in nil map")
			}
			if fr.w.race != nil {
				fr.w.race.access(fr, mm, true)
			}
			fr.mapSet(mm, kt, fr.get(&k), fr.get(&v))
		}
	case *ssa.Next:
		return c.next(in)
	case *ssa.Panic:
		x := c.op(in.X)
		return func(fr *frame) { panic(targetPanic{fr.get(&x).(Iface)}) }
	case *ssa.Range:
		dst, x := c.slot(in), c.op(in.X)
		if isString(in.X.Type()) {
			return func(fr *frame) { fr.regs[dst] = &MapIter{str: fr.get(&x), isStr: true} }
		}
		return func(fr *frame) {
			m := fr.get(&x).(*Map)
			if fr.w.race != nil && m != nil {
				fr.w.race.access(fr, m, false)
			}
			fr.regs[dst] = fr.mapRange(m)
		}
	case *ssa.Return:
		switch len(in.Results) {
		case 0:
			return func(fr *frame) { fr.next = -1 }
		case 1:
			x := c.op(in.Results[0])
			return func(fr *frame) { fr.ret = fr.get(&x); fr.next = -1 }
		}
		xs := c.ops(in.Results)
		return func(fr *frame) {
			t := make(Tuple, len(xs))
			for i := range xs {
				t[i] = fr.get(&xs[i])
			}
			fr.ret = t
			fr.next = -1
		}
	case *ssa.RunDefers:
		return func(fr *frame) { fr.runDefers() }
	case *ssa.Select:
		return c.selectI(in)
	case *ssa.Send:
		ch, x := c.op(in.Chan), c.op(in.X)
		return func(fr *frame) { fr.chanSend(fr.get(&ch).(*Chan), fr.get(&x)) }
	case *ssa.Slice:
		return c.slice(in)
	case *ssa.SliceToArrayPointer:
		dst, x := c.slot(in), c.op(in.X)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(fr *frame) {
			s := fr.get(&x).(Slice)
			if len(s) < n {
				fr.rtErr("cannot convert slice to array pointer")
			}
			p := new(Value)
			*p = Array(s[:n:n])
			fr.regs[dst] = p
		}
	case *ssa.Store:
		a, v := c.op(in.Addr), c.op(in.Val)
		if isAgg(in.Val.Type()) {
			return func(fr *frame) {
				p := fr.ptr(fr.get(&a))
				if fr.w.race != nil {
					fr.w.race.access(fr, p, true)
				}
				fr.w.assign(p, fr.get(&v))
			}
		}
		return func(fr *frame) {
			p := fr.ptr(fr.get(&a))
			if fr.w.race != nil {
				fr.w.race.access(fr, p, true)
			}
			fr.w.set(p, fr.get(&v))
		}
	case *ssa.TypeAssert:
		return c.typeAssert(in)
	}
	panic(unsupported(fmt.Sprintf("instruction %T", in)))
}

// ptr resolves an address operand to a cell.
func (fr *frame) ptr(v Value) *Value {
	switch p := v.(type) {
	case *Value:
		if p == nil {
			fr.nilDeref()
		}
		return p
	case *SymElem:
		i := fr.w.path.Concretize(p.Idx)
		return &p.Cells[i]
	}
	panic(unsupported(fmt.Sprintf("address %T %v", v, v)))
}

func (fr *frame) load(v Value) Value {
	switch p := v.(type) {
	case *Value:
		if p == nil {
			fr.nilDeref()
		}
		if fr.w.race != nil {
			fr.w.race.access(fr, p, false)
		}
		switch x := (*p).(type) {
		case Struct, Array:
			return copyVal(x)
		case poison:
			panic(unsupported("use of a package variable whose initialiser is not supported: " + x.why))
		}
		return *p
	case *SymElem:
		return fr.symLoad(p)
	}
	panic(unsupported(fmt.Sprintf("load from %T %v", v, v)))
}

// symLoad reads cells[idx] for symbolic idx.
func (fr *frame) symLoad(p *SymElem) Value {
	w := fr.w
	n := len(p.Cells)
	if t := w.tableTerm(p.Cells, p.Idx); t != nil {
		return t
	}
	_ = n
	i := w.path.Concretize(p.Idx)
	return copyVal(p.Cells[i])
}

// tableTerm builds an if-then-else chain over runs of cells that are constant
// or affine in the index. Cells must be integers or booleans.
func (w *Worker) tableTerm(cells []Value, idx *sym.Term) Value {
	n := len(cells)
	if n == 0 {
		return nil
	}
	isBoolT := false
	var width uint8
	allConst := true
	for _, c := range cells {
		switch x := c.(type) {
		case Int:
		case bool:
			isBoolT = true
		case *sym.Term:
			allConst = false
			if x.W == 0 {
				isBoolT = true
			} else {
				width = x.W
			}
		default:
			return nil
		}
	}
	ctx := w.ctx
	if isBoolT {
		r := ctx.False
		var last *sym.Term
		// runs
		for i := n - 1; i >= 0; i-- {
			t := w.boolTerm(cells[i])
			if last == nil {
				r, last = t, t
				continue
			}
			if t == last {
				continue
			}
			r = ctx.Ite(w.idxLt(idx, i+1), t, r)
			// t covers [.., i]; smaller indexes override later
			last = t
		}
		return w.mkBool(r)
	}
	if !allConst {
		if n > 64 {
			return nil
		}
		var r *sym.Term
		for i := n - 1; i >= 0; i-- {
			t := w.intTerm(cells[i], width)
			if r == nil {
				r = t
			} else {
				r = ctx.Ite(ctx.Eq(idx, ctx.Const(idx.W, uint64(i))), t, r)
			}
		}
		return mkInt(r)
	}
	return nil // integer constants need the element width: see tableTermW
}

func (w *Worker) idxLt(idx *sym.Term, n int) *sym.Term {
	if idx.W < 64 && uint64(n) > sym.Mask(idx.W) {
		return w.ctx.True
	}
	return w.ctx.Ult(idx, w.ctx.Const(idx.W, uint64(n)))
}

// tableTermW handles constant integer cells of the given width.
func (w *Worker) tableTermW(cells []Value, idx *sym.Term, width uint8) Value {
	n := len(cells)
	// strip extension so guards mention the narrow term
	for idx.Op == sym.OZExt {
		idx = idx.X
	}
	if idx.W < 64 && uint64(n) > sym.Mask(idx.W)+1 {
		n = int(sym.Mask(idx.W) + 1)
	}
	type run struct {
		lo, hi int
		affine bool
		c      uint64 // value, or offset
	}
	var runs []run
	m := sym.Mask(width)
	for i := 0; i < n; {
		v, ok := cells[i].(Int)
		if !ok {
			return nil
		}
		j := i + 1
		for j < n && cells[j] == cells[i] {
			j++
		}
		k := i + 1
		for k < n {
			x, ok := cells[k].(Int)
			if !ok || uint64(x)&m != (uint64(v)+uint64(k-i))&m {
				break
			}
			k++
		}
		if k > j && k-i >= 2 {
			runs = append(runs, run{i, k, true, (uint64(v) - uint64(i)) & m})
			i = k
		} else {
			runs = append(runs, run{i, j, false, uint64(v)})
			i = j
		}
	}
	if len(runs) > 48 {
		return nil
	}
	ctx := w.ctx
	var val *sym.Term
	switch {
	case idx.W == width:
		val = idx
	case idx.W < width:
		val = ctx.ZExt(idx, width)
	default:
		val = ctx.Trunc(idx, width)
	}
	var r *sym.Term
	for i := len(runs) - 1; i >= 0; i-- {
		u := runs[i]
		t := ctx.Const(width, u.c)
		if u.affine {
			t = ctx.Bin(sym.OAdd, val, t)
		}
		if r == nil {
			r = t
		} else {
			r = ctx.Ite(w.idxLt(idx, u.hi), t, r)
		}
	}
	return mkInt(r)
}

func makeSlice(et types.Type, n, m int) Slice {
	s := make(Slice, m)
	if isAgg(et) {
		for i := range s {
			s[i] = zero(et)
		}
	} else {
		z := zero(et)
		for i := range s {
			s[i] = z
		}
	}
	return s[:n]
}

func (fr *frame) concInt(v Value) int64 {
	switch x := v.(type) {
	case Int:
		return int64(x)
	case *sym.Term:
		return sym.SignExt(fr.w.path.Concretize(x), x.W)
	}
	panic(fmt.Sprintf("concInt of %T", v))
}

// checkIndex returns a concrete index, or a symbolic one in range.
func (fr *frame) checkIndex(v Value, k ikind, n int) (int, *sym.Term) {
	switch x := v.(type) {
	case Int:
		i := sym.SignExt(uint64(x), k.w)
		if !k.signed {
			i = int64(x)
		}
		if i < 0 || i >= int64(n) {
			fr.rtErr(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	case *sym.Term:
		ctx := fr.w.ctx
		var in *sym.Term
		if x.W < 64 && uint64(n) > sym.Mask(x.W) && !k.signed {
			in = ctx.True
		} else if n == 0 {
			in = ctx.False
		} else if k.signed && x.W < 64 && uint64(n) > sym.Mask(x.W-1) {
			in = ctx.Not(ctx.Slt(x, ctx.Const(x.W, 0)))
		} else {
			in = ctx.Ult(x, ctx.Const(x.W, uint64(n)))
		}
		if !fr.w.path.Branch(in) {
			fr.rtErr(fmt.Sprintf("index out of range with length %d", n))
		}
		if n == 1 {
			return 0, nil
		}
		return 0, x
	}
	panic(fmt.Sprintf("index %T", v))
}

func (c *compiler) indexAddr(in *ssa.IndexAddr) instr {
	dst, x, i := c.slot(in), c.op(in.X), c.op(in.Index)
	k, _ := intKind(in.Index.Type())
	return func(fr *frame) {
		var cells []Value
		switch b := fr.get(&x).(type) {
		case Slice:
			cells = b
		case *Value:
			if b == nil {
				fr.nilDeref()
			}
			cells = (*b).(Array)
		case poison:
			panic(unsupported(b.why))
		default:
			panic(unsupported(fmt.Sprintf("index address of %T", b)))
		}
		iv := fr.get(&i)
		if ci, ok := iv.(Int); ok && uint64(ci) < uint64(len(cells)) {
			fr.regs[dst] = &cells[ci]
			return
		}
		ci, t := fr.checkIndex(iv, k, len(cells))
		if t == nil {
			fr.regs[dst] = &cells[ci]
			return
		}
		fr.regs[dst] = &SymElem{cells, t}
	}
}

func (c *compiler) index(in *ssa.Index) instr {
	dst, x, i := c.slot(in), c.op(in.X), c.op(in.Index)
	k, _ := intKind(in.Index.Type())
	if isString(in.X.Type()) {
		return func(fr *frame) { fr.regs[dst] = fr.strIndex(fr.get(&x), fr.get(&i), k) }
	}
	et, _ := intKind(in.Type())
	return func(fr *frame) {
		a := fr.get(&x).(Array)
		ci, t := fr.checkIndex(fr.get(&i), k, len(a))
		if t == nil {
			fr.regs[dst] = a[ci]
			return
		}
		fr.regs[dst] = fr.symCell(a, t, et.w)
	}
}

func (fr *frame) symCell(cells []Value, t *sym.Term, width uint8) Value {
	if width != 0 {
		if v := fr.w.tableTermW(cells, t, width); v != nil {
			return v
		}
	}
	if v := fr.w.tableTerm(cells, t); v != nil {
		return v
	}
	return copyVal(cells[fr.w.path.Concretize(t)])
}

func (fr *frame) strIndex(s, i Value, k ikind) Value {
	if str, ok := s.(string); ok {
		if ci, ok := i.(Int); ok && uint64(ci) < uint64(len(str)) {
			return Int(str[ci])
		}
	}
	n := strLen(s)
	ci, t := fr.checkIndex(i, k, n)
	if t == nil {
		if str, ok := s.(string); ok {
			return Int(str[ci])
		}
		return sbVal(s.(*SymStr).B[ci])
	}
	b := strBytes(s)
	cells := make([]Value, len(b))
	for j, x := range b {
		cells[j] = sbVal(x)
	}
	return fr.symCell(cells, t, 8)
}

func (c *compiler) lookup(in *ssa.Lookup) instr {
	dst, x, i := c.slot(in), c.op(in.X), c.op(in.Index)
	if isString(in.X.Type()) {
		k, _ := intKind(in.Index.Type())
		return func(fr *frame) { fr.regs[dst] = fr.strIndex(fr.get(&x), fr.get(&i), k) }
	}
	mt := in.X.Type().Underlying().(*types.Map)
	kt := mt.Key()
	z := zero(mt.Elem())
	ok := in.CommaOk
	return func(fr *frame) {
		m, isM := fr.get(&x).(*Map)
		if !isM {
			panic(unsupported(fmt.Sprintf("lookup in %T", fr.get(&x))))
		}
		if fr.w.race != nil && m != nil {
			fr.w.race.access(fr, m, false)
		}
		key := fr.get(&i)
		if ik, isI := key.(Iface); isI && ik.T != nil && !types.Comparable(ik.T) {
			fr.rtErr("hash of unhashable type " + ik.T.String())
		}
		e := fr.mapFind(m, kt, key)
		var v Value = z
		if e != nil {
			v = e.v
		} else if isAgg(mt.Elem()) {
			v = copyVal(z)
		}
		if ok {
			fr.regs[dst] = Tuple{v, e != nil}
		} else {
			fr.regs[dst] = v
		}
	}
}

func (c *compiler) next(in *ssa.Next) instr {
	dst, x := c.slot(in), c.op(in.Iter)
	return func(fr *frame) {
		it := fr.get(&x).(*MapIter)
		if it.isStr {
			b := strLen(it.str)
			if it.pos >= b {
				fr.regs[dst] = Tuple{false, Int(0), Int(0)}
				return
			}
			var r Value
			var sz int
			if s, ok := it.str.(string); ok {
				ru, n := decodeRuneInString(s[it.pos:])
				r, sz = Int(uint64(uint32(ru))), n
			} else {
				r, sz = fr.decodeRune(it.str.(*SymStr).B, it.pos)
			}
			p := it.pos
			it.pos += sz
			fr.regs[dst] = Tuple{true, Int(p), r}
			return
		}
		for it.pos < len(it.ents) && it.ents[it.pos].dead {
			it.pos++
		}
		if it.pos >= len(it.ents) {
			fr.regs[dst] = Tuple{false, nil, nil}
			return
		}
		e := it.ents[it.pos]
		it.pos++
		fr.regs[dst] = Tuple{true, e.k, e.v}
	}
}

func (fr *frame) mapRange(m *Map) *MapIter {
	ents := m.liveEntries()
	w := fr.w
	if w.initing == 0 && w.path.mapMode > 0 && len(ents) > 1 && fr.f.mod {
		fr.w.path.permute(ents)
	}
	return &MapIter{m: m, ents: ents}
}

// permute picks any order for up to 3 entries, otherwise forward, reverse or
// a rotation.
func (p *Path) permute(ents []*mapEntry) {
	n := len(ents)
	if n <= p.mapMode {
		for i := 0; i < n-1; i++ {
			j := i + p.Choose(n-i)
			e := ents[j]
			copy(ents[i+1:j+1], ents[i:j])
			ents[i] = e
		}
		return
	}
	switch p.Choose(3) {
	case 1:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			ents[i], ents[j] = ents[j], ents[i]
		}
	case 2:
		e := ents[0]
		copy(ents, ents[1:])
		ents[n-1] = e
	}
}

func (c *compiler) slice(in *ssa.Slice) instr {
	dst, x := c.slot(in), c.op(in.X)
	var lo, hi, max opd
	hasLo, hasHi, hasMax := in.Low != nil, in.High != nil, in.Max != nil
	if hasLo {
		lo = c.op(in.Low)
	}
	if hasHi {
		hi = c.op(in.High)
	}
	if hasMax {
		max = c.op(in.Max)
	}
	return func(fr *frame) {
		v := fr.get(&x)
		var n, cp int
		var arr []Value
		switch b := v.(type) {
		case string:
			n = len(b)
			cp = n
		case *SymStr:
			n = len(b.B)
			cp = n
		case Slice:
			n, cp = len(b), cap(b)
			arr = b
		case *Value:
			if b == nil {
				fr.nilDeref()
			}
			a := (*b).(Array)
			n, cp = len(a), len(a)
			arr = a
		default:
			panic(unsupported(fmt.Sprintf("slice of %T", v)))
		}
		var lv, hv, mv Value = Int(0), Int(n), Int(cp)
		if hasLo {
			lv = fr.get(&lo)
		}
		if hasHi {
			hv = fr.get(&hi)
		}
		if hasMax {
			mv = fr.get(&max)
		}
		isStr := arr == nil && (func() bool { _, a := v.(string); _, b := v.(*SymStr); return a || b })()
		bound := cp
		if isStr {
			bound = n
		}
		// symbolic bounds: decide in-range first so that out-of-range inputs
		// become a single panicking path.
		m := bound
		if hasMax {
			m = int(fr.sliceBound(mv, 0, bound))
		}
		h := int(fr.sliceBound2(lv, hv, m))
		l := int(fr.sliceBound(lv, 0, h))
		if isStr {
			fr.regs[dst] = strSlice(v, l, h)
			return
		}
		if arr == nil {
			fr.regs[dst] = Slice(nil)
			return
		}
		fr.regs[dst] = Slice(arr[l:h:m])
	}
}

func (fr *frame) sliceBound(v Value, lo, hi int) int64 {
	switch x := v.(type) {
	case Int:
		i := int64(x)
		if i < int64(lo) || i > int64(hi) {
			fr.rtErr(fmt.Sprintf("slice bounds out of range [%d] with capacity %d", i, hi))
		}
		return i
	case *sym.Term:
		t := x
		if t.W < 64 {
			t = fr.w.ctx.ZExt(t, 64)
		}
		if !fr.w.path.Branch(fr.w.ctx.Ult(t, fr.w.ctx.Const(64, uint64(hi)+1))) {
			fr.rtErr(fmt.Sprintf("slice bounds out of range with capacity %d", hi))
		}
		return int64(fr.w.path.Concretize(t))
	}
	panic("sliceBound")
}

// sliceBound2 checks 0<=lo<=hi<=m and returns a concrete hi.
func (fr *frame) sliceBound2(lo, hi Value, m int) int64 {
	if _, ok := lo.(Int); ok {
		return fr.sliceBound(hi, 0, m)
	}
	ctx := fr.w.ctx
	l := ctx.ZExt(lo.(*sym.Term), 64)
	var h *sym.Term
	switch x := hi.(type) {
	case Int:
		h = ctx.Const(64, uint64(x))
	case *sym.Term:
		h = ctx.ZExt(x, 64)
	}
	if !fr.w.path.Branch(ctx.Ult(h, ctx.Const(64, uint64(m)+1))) {
		fr.rtErr(fmt.Sprintf("slice bounds out of range with capacity %d", m))
	}
	if fr.w.path.Branch(ctx.Ult(h, l)) {
		fr.rtErr("slice bounds out of range (low > high)")
	}
	return int64(fr.w.path.Concretize(h))
}

func (c *compiler) typeAssert(in *ssa.TypeAssert) instr {
	dst, x := c.slot(in), c.op(in.X)
	at := in.AssertedType
	ok := in.CommaOk
	if it, isI := at.Underlying().(*types.Interface); isI {
		z := Value(Iface{})
		return func(fr *frame) {
			v := fr.w.asIface(fr.get(&x))
			good := v.T != nil && fr.w.implements(v.T, it)
			if ok {
				if good {
					fr.regs[dst] = Tuple{v, true}
				} else {
					fr.regs[dst] = Tuple{z, false}
				}
				return
			}
			if !good {
				fr.typeErr(v, at)
			}
			fr.regs[dst] = v
		}
	}
	ct := c.w.canon(at)
	z := zero(at)
	return func(fr *frame) {
		v := fr.w.asIface(fr.get(&x))
		good := v.T != nil && (v.T == ct || types.Identical(v.T, ct))
		if ok {
			if good {
				fr.regs[dst] = Tuple{v.V, true}
			} else {
				fr.regs[dst] = Tuple{copyVal(z), false}
			}
			return
		}
		if !good {
			fr.typeErr(v, at)
		}
		fr.regs[dst] = v.V
	}
}

func (w *Worker) implements(t types.Type, it *types.Interface) bool {
	k := [2]types.Type{t, it}
	if r, ok := w.implC[k]; ok {
		return r
	}
	r := types.Implements(t, it)
	w.implC[k] = r
	return r
}

func (fr *frame) typeErr(v Iface, at types.Type) {
	if v.T == nil {
		fr.rtErr(fmt.Sprintf("interface conversion: interface is nil, not %v", at))
	}
	fr.rtErr(fmt.Sprintf("interface conversion: interface {} is %v, not %v", v.T, at))
}

func (c *compiler) unop(in *ssa.UnOp) instr {
	dst, x := c.slot(in), c.op(in.X)
	switch in.Op {
	case token.MUL:
		et, _ := intKind(in.Type())
		width := et.w
		return func(fr *frame) {
			v := fr.get(&x)
			if se, ok := v.(*SymElem); ok {
				fr.regs[dst] = fr.symCell(se.Cells, se.Idx, width)
				return
			}
			fr.regs[dst] = fr.load(v)
		}
	case token.NOT:
		return func(fr *frame) {
			switch v := fr.get(&x).(type) {
			case bool:
				fr.regs[dst] = !v
			case *sym.Term:
				fr.regs[dst] = fr.w.mkBool(fr.w.ctx.Not(v))
			}
		}
	case token.SUB:
		if isFloat(in.Type()) {
			return func(fr *frame) {
				switch v := fr.get(&x).(type) {
				case float64:
					fr.regs[dst] = -v
				case *FInt:
					fr.regs[dst] = &FInt{fr.w.ctx.Neg(v.T)}
				}
			}
		}
		k, isI := intKind(in.Type())
		if !isI {
			return func(fr *frame) { fr.regs[dst] = -(fr.get(&x).(complex128)) }
		}
		return func(fr *frame) {
			switch v := fr.get(&x).(type) {
			case Int:
				fr.regs[dst] = Int((-uint64(v)) & sym.Mask(k.w))
			case *sym.Term:
				fr.regs[dst] = mkInt(fr.w.ctx.Neg(v))
			}
		}
	case token.XOR:
		k, _ := intKind(in.Type())
		return func(fr *frame) {
			switch v := fr.get(&x).(type) {
			case Int:
				fr.regs[dst] = Int((^uint64(v)) & sym.Mask(k.w))
			case *sym.Term:
				fr.regs[dst] = mkInt(fr.w.ctx.BNot(v))
			}
		}
	case token.ARROW:
		ok := in.CommaOk
		et := in.X.Type().Underlying().(*types.Chan).Elem()
		return func(fr *frame) {
			v, open := fr.chanRecv(fr.get(&x).(*Chan), et)
			if ok {
				fr.regs[dst] = Tuple{v, open}
			} else {
				fr.regs[dst] = v
			}
		}
	}
	panic(unsupported("unop " + in.Op.String()))
}

func (c *compiler) convert(in *ssa.Convert) instr {
	dst, x := c.slot(in), c.op(in.X)
	from, to := in.X.Type(), in.Type()
	fk, fi := intKind(from)
	tk, ti := intKind(to)
	if fi && ti {
		return func(fr *frame) {
			switch v := fr.get(&x).(type) {
			case Int:
				u := uint64(v)
				if fk.signed {
					u = uint64(sym.SignExt(u, fk.w))
				}
				fr.regs[dst] = Int(u & sym.Mask(tk.w))
			case *sym.Term:
				fr.regs[dst] = fr.w.convInt(v, fk, tk)
			default:
				panic(unsupported(fmt.Sprintf("convert %T", v)))
			}
		}
	}
	return func(fr *frame) { fr.regs[dst] = fr.convertDyn(from, to, fr.get(&x)) }
}

func (w *Worker) convInt(v *sym.Term, fk, tk ikind) Value {
	switch {
	case tk.w == fk.w:
		return v
	case tk.w < fk.w:
		return mkInt(w.ctx.Trunc(v, tk.w))
	case fk.signed:
		return mkInt(w.ctx.SExt(v, tk.w))
	}
	return mkInt(w.ctx.ZExt(v, tk.w))
}

func (fr *frame) convertDyn(from, to types.Type, v Value) Value {
	w := fr.w
	fk, fi := intKind(from)
	tk, ti := intKind(to)
	switch {
	case fi && ti:
		switch x := v.(type) {
		case Int:
			u := uint64(x)
			if fk.signed {
				u = uint64(sym.SignExt(u, fk.w))
			}
			return Int(u & sym.Mask(tk.w))
		case *sym.Term:
			return w.convInt(x, fk, tk)
		}
	case fi && isFloat(to):
		switch x := v.(type) {
		case Int:
			if fk.signed {
				return float64(sym.SignExt(uint64(x), fk.w))
			}
			return float64(uint64(x))
		case *sym.Term:
			return &FInt{w.convInt(x, fk, ikind{64, fk.signed}).(*sym.Term)}
		}
	case isFloat(from) && ti:
		switch x := v.(type) {
		case float64:
			if tk.signed {
				return Int(uint64(int64(x)) & sym.Mask(tk.w))
			}
			return Int(uint64(x) & sym.Mask(tk.w))
		case *FInt:
			return w.convInt(x.T, ikind{64, true}, tk)
		}
	case isFloat(from) && isFloat(to):
		if f, ok := v.(float64); ok && to.Underlying().(*types.Basic).Kind() == types.Float32 {
			return float64(float32(f))
		}
		return v
	case isString(to) && fi:
		switch x := v.(type) {
		case Int:
			i := int64(x)
			if fk.signed {
				i = sym.SignExt(uint64(x), fk.w)
			}
			if i < 0 || i > 0x10FFFF {
				i = 0xFFFD
			}
			return string(rune(i))
		case *sym.Term:
			return fr.runeToStr(x)
		}
	case isString(to) && isString(from):
		return v
	case isString(to):
		if s, ok := from.Underlying().(*types.Slice); ok {
			k, _ := intKind(s.Elem())
			sl := v.(Slice)
			if k.w == 8 {
				return bytesToStr(sl)
			}
			var r Value = ""
			for _, e := range sl {
				switch x := e.(type) {
				case Int:
					r = strCat(r, string(rune(int32(x))))
				case *sym.Term:
					r = strCat(r, fr.runeToStr(x))
				}
			}
			return r
		}
	case isString(from):
		if s, ok := to.Underlying().(*types.Slice); ok {
			k, _ := intKind(s.Elem())
			if k.w == 8 {
				return strToBytes(v)
			}
			b := strBytes(v)
			out := Slice{}
			for i := 0; i < len(b); {
				r, n := fr.decodeRune(b, i)
				out = append(out, r)
				i += n
			}
			return out
		}
	}
	tb, _ := to.Underlying().(*types.Basic)
	fb, _ := from.Underlying().(*types.Basic)
	if tb != nil && tb.Kind() == types.UnsafePointer {
		if u, ok := v.(UPtr); ok {
			return u
		}
		return UPtr{v}
	}
	if fb != nil && fb.Kind() == types.UnsafePointer {
		u := v.(UPtr)
		if u.V == nil {
			return zero(to)
		}
		if _, ok := to.Underlying().(*types.Pointer); ok {
			if _, ok := u.V.(*Value); ok {
				return u.V
			}
		}
		panic(unsupported("conversion from unsafe.Pointer"))
	}
	panic(unsupported(fmt.Sprintf("convert %v to %v", from, to)))
}

func (fr *frame) runeToStr(x *sym.Term) Value {
	w := fr.w
	lim := w.ctx.Const(x.W, 0x80)
	if w.path.Branch(w.ctx.Ult(x, lim)) {
		return mkStr([]SB{{T: w.ctx.Trunc(x, 8)}})
	}
	return string(rune(sym.SignExt(w.path.Concretize(x), x.W)))
}
