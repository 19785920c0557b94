package vm

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"

	"verif/engine/sym"
)

// targetPanic is a Go panic of the program under analysis.
type targetPanic struct{ v Iface }

func decodeRuneInString(s string) (rune, int) { return utf8.DecodeRuneInString(s) }

// rtErr raises a runtime.Error panic in the target.
func (fr *frame) rtErr(msg string) {
	w := fr.w
	w.panicAt = w.where()
	panic(targetPanic{Iface{w.runtimeErrType(), "runtime error: " + msg}})
}

func (fr *frame) rtErrPlain(msg string) {
	panic(targetPanic{Iface{fr.w.runtimeErrType(), msg}})
}

func (fr *frame) nilDeref() {
	fr.rtErr("invalid memory address or nil pointer dereference")
}

func (w *Worker) targetPanicf(f string, a ...any) {
	panic(targetPanic{Iface{w.runtimeErrType(), "runtime error: " + fmt.Sprintf(f, a...)}})
}

func (w *Worker) runtimeErrType() types.Type {
	t := w.prog.Type("runtime", "errorString")
	if t == nil {
		t = types.Typ[types.String]
	}
	return w.canon(t)
}

func (fr *frame) run() {
	w := fr.w
	w.curFrame = fr
	if fr.f.hasDefer {
		fr.runDeferring()
	} else {
		fr.loop()
	}
	w.curFrame = fr.caller
}

func (fr *frame) runDeferring() {
	defer func() {
		if fr.next == -1 {
			return
		}
		r := recover()
		if r == nil {
			return
		}
		if _, ok := r.(targetPanic); !ok {
			panic(r)
		}
		fr.w.curFrame = fr
		fr.panicking = true
		fr.panicVal = r
		fr.runDefers()
		// recovered
		if fr.f.recover >= 0 {
			fr.prev = -1
			fr.block = fr.f.recover
			fr.next = fr.block
			fr.loop()
			return
		}
		fr.next = -1
		switch len(fr.f.zeroRes) {
		case 0:
		case 1:
			fr.ret = zero(fr.f.zeroRes[0])
		default:
			t := make(Tuple, len(fr.f.zeroRes))
			for i := range t {
				t[i] = zero(fr.f.zeroRes[i])
			}
			fr.ret = t
		}
	}()
	fr.loop()
}

func (fr *frame) runDefers() {
	for d := fr.defers; d != nil; d = fr.defers {
		fr.defers = d.next
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.panicVal)
	}
}

func (fr *frame) runDefer(d *deferred) {
	ok := false
	defer func() {
		if !ok {
			r := recover()
			if _, is := r.(targetPanic); !is {
				panic(r)
			}
			fr.w.curFrame = fr
			fr.panicking = true
			fr.panicVal = r
		}
	}()
	d.call(fr)
	ok = true
}

func (fr *frame) loop() {
	w := fr.w
	f := fr.f
	var tmp [8]Value
	for {
		b := &f.blocks[fr.block]
		if len(b.phis) > 0 {
			pi := 0
			for i, p := range b.preds {
				if p == fr.prev {
					pi = i
					break
				}
			}
			if len(b.phis) == 1 {
				ph := &b.phis[0]
				fr.regs[ph.dst] = fr.get(&ph.srcs[pi])
			} else {
				vals := tmp[:0]
				for i := range b.phis {
					vals = append(vals, fr.get(&b.phis[i].srcs[pi]))
				}
				for i := range b.phis {
					fr.regs[b.phis[i].dst] = vals[i]
				}
			}
		}
		if w.initing == 0 {
			w.path.steps += int64(len(b.ins))
			if w.path.steps > w.opt.StepLimit {
				panic(ctrl{stopLimit, fmt.Sprintf("more than %d instructions on one path (in %s)", w.opt.StepLimit, f.name)})
			}
		}
		fr.next = -2
		for i, in := range b.ins {
			fr.pc = i
			in(fr)
		}
		if fr.next == -1 {
			return
		}
		fr.prev = fr.block
		fr.block = fr.next
	}
}

// callFn runs f with args in goroutine g.
func (w *Worker) callFn(caller *frame, g *goroutine, sf *ssa.Function, args []Value, env []Value) Value {
	f := w.fnOf(sf)
	if f.nat != nil {
		fr := caller
		if fr == nil {
			fr = &frame{w: w, g: g, f: f}
		}
		w.enterNat(f.name)
		return f.nat(fr, args)
	}
	fr := &frame{w: w, g: g, f: f, caller: caller}
	if caller != nil {
		fr.depth = caller.depth + 1
		if fr.depth > 3000 {
			panic(ctrl{stopLimit, "call depth over 3000 in " + f.name})
		}
	}
	fr.regs = make([]Value, f.nslots)
	n := copy(fr.regs, args)
	copy(fr.regs[n:], env)
	fr.run()
	return fr.ret
}

func (w *Worker) enterNat(string) {}

func (fr *frame) callSSA(sf *ssa.Function, args ...Value) Value {
	return fr.w.callFn(fr, fr.g, sf, args, nil)
}

func (fr *frame) callClosure(c *Closure, args ...Value) Value {
	if c == nil {
		fr.nilDeref()
	}
	if c.Nat != nil {
		return c.Nat(fr, args)
	}
	return fr.w.callFn(fr, fr.g, c.Fn, args, c.Env)
}

// method finds the implementation of name on concrete type t.
func (w *Worker) method(t types.Type, pkg *types.Package, name string) *ssa.Function {
	k := methodKey{t, name}
	if m, ok := w.methods[k]; ok {
		return m
	}
	ms := w.prog.SSA.MethodSets.MethodSet(t)
	sel := ms.Lookup(pkg, name)
	var f *ssa.Function
	if sel != nil {
		f = w.prog.SSA.MethodValue(sel)
	}
	w.methods[k] = f
	return f
}

// invoke calls a method on an interface value.
func (fr *frame) invoke(v Iface, pkg *types.Package, name string, args ...Value) Value {
	if v.T == nil {
		fr.nilDeref()
	}
	if o, ok := v.V.(*Opaque); ok {
		if h, ok := opaqueMethods[o.Kind+"."+name]; ok {
			return h(fr, append([]Value{o}, args...))
		}
		if o.Kind == "noop" {
			if r, ok := fr.w.noopInvoke(o, name); ok {
				return r
			}
		}
	}
	m := fr.w.method(v.T, pkg, name)
	if m == nil {
		panic(unsupported(fmt.Sprintf("no method %s on %v", name, v.T)))
	}
	return fr.w.callFn(fr, fr.g, m, append([]Value{v.V}, args...), nil)
}

// noopInvoke is a method call on an inert object.
func (w *Worker) noopInvoke(o *Opaque, name string) (Value, bool) {
	t, _ := o.Data.(types.Type)
	if t == nil {
		return nil, false
	}
	obj, _, _ := types.LookupFieldOrMethod(t, true, nil, name)
	f, ok := obj.(*types.Func)
	if !ok {
		return nil, false
	}
	r := f.Type().(*types.Signature).Results()
	switch r.Len() {
	case 0:
		return nil, true
	case 1:
		return noopVal(w, r.At(0).Type()), true
	}
	tp := make(Tuple, r.Len())
	for i := range tp {
		tp[i] = noopVal(w, r.At(i).Type())
	}
	return tp, true
}

func (c *compiler) call(cc *ssa.CallCommon) func(fr *frame) Value {
	args := c.ops(cc.Args)
	w := c.w
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		name := cc.Method.Name()
		pkg := cc.Method.Pkg()
		var ct types.Type
		var cf *ssa.Function
		return func(fr *frame) Value {
			v, ok := fr.get(&recv).(Iface)
			if !ok {
				panic(unsupported(fmt.Sprintf("invoke %s on %T", name, fr.get(&recv))))
			}
			if v.T == nil {
				fr.nilDeref()
			}
			if o, ok := v.V.(*Opaque); ok {
				if h, ok := opaqueMethods[o.Kind+"."+name]; ok {
					a := make([]Value, len(args)+1)
					a[0] = o
					for i := range args {
						a[i+1] = fr.get(&args[i])
					}
					return h(fr, a)
				}
				if o.Kind == "noop" {
					if r, ok := w.noopInvoke(o, name); ok {
						return r
					}
				}
			}
			if ct != v.T {
				m := w.method(v.T, pkg, name)
				if m == nil {
					panic(unsupported(fmt.Sprintf("no method %s on %v", name, v.T)))
				}
				ct, cf = v.T, m
			}
			a := make([]Value, len(args)+1)
			a[0] = v.V
			for i := range args {
				a[i+1] = fr.get(&args[i])
			}
			return w.callFn(fr, fr.g, cf, a, nil)
		}
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		return c.builtin(v.Name(), cc, args)
	case *ssa.Function:
		// package initialisers of other packages run lazily
		if c.out.isInit && v.Name() == "init" && v.Synthetic != "" && v.Parent() == nil && v.Signature.Recv() == nil {
			return func(fr *frame) Value { return nil }
		}
		var cf *fn
		return func(fr *frame) Value {
			if cf == nil {
				cf = w.fnOf(v)
			}
			a := make([]Value, len(args), len(args)+1)
			for i := range args {
				a[i] = fr.get(&args[i])
			}
			if cf.nat != nil {
				w.enterNat(cf.name)
				return cf.nat(fr, a)
			}
			return w.callFn(fr, fr.g, v, a, nil)
		}
	}
	fv := c.op(cc.Value)
	return func(fr *frame) Value {
		a := make([]Value, len(args))
		for i := range args {
			a[i] = fr.get(&args[i])
		}
		cl, ok := fr.get(&fv).(*Closure)
		if !ok {
			panic(unsupported(fmt.Sprintf("call of %T %v", fr.get(&fv), fr.get(&fv))))
		}
		return fr.callClosure(cl, a...)
	}
}

// deferCall evaluates the operands now and returns the call to make later.
func (c *compiler) deferCall(cc *ssa.CallCommon) func(fr *frame) func(fr *frame) {
	args := c.ops(cc.Args)
	get := func(fr *frame) []Value {
		a := make([]Value, len(args))
		for i := range args {
			a[i] = fr.get(&args[i])
		}
		return a
	}
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		name, pkg := cc.Method.Name(), cc.Method.Pkg()
		return func(fr *frame) func(*frame) {
			v := fr.get(&recv).(Iface)
			a := get(fr)
			return func(fr *frame) { fr.invoke(v, pkg, name, a...) }
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		nargs := make([]opd, len(args))
		copy(nargs, args)
		name := b.Name()
		return func(fr *frame) func(*frame) {
			a := get(fr)
			return func(fr *frame) { c.w.builtinCall(fr, name, cc, a) }
		}
	}
	fv := c.op(cc.Value)
	return func(fr *frame) func(*frame) {
		cl, ok := fr.get(&fv).(*Closure)
		if !ok {
			panic(unsupported(fmt.Sprintf("deferred call of %T", fr.get(&fv))))
		}
		a := get(fr)
		return func(fr *frame) { fr.callClosure(cl, a...) }
	}
}

func (c *compiler) builtin(name string, cc *ssa.CallCommon, args []opd) func(fr *frame) Value {
	w := c.w
	if name == "len" {
		x := args[0]
		return func(fr *frame) Value {
			switch v := fr.get(&x).(type) {
			case string:
				return Int(len(v))
			case Slice:
				return Int(len(v))
			case *SymStr:
				return Int(len(v.B))
			case *Map:
				if fr.w.race != nil && v != nil {
					fr.w.race.access(fr, v, false)
				}
				return Int(v.len())
			}
			return w.builtinCall(fr, name, cc, []Value{fr.get(&x)})
		}
	}
	return func(fr *frame) Value {
		a := make([]Value, len(args))
		for i := range args {
			a[i] = fr.get(&args[i])
		}
		return w.builtinCall(fr, name, cc, a)
	}
}

func (w *Worker) builtinCall(fr *frame, name string, cc *ssa.CallCommon, a []Value) Value {
	switch name {
	case "len":
		switch v := a[0].(type) {
		case string, *SymStr:
			return Int(strLen(v))
		case Slice:
			return Int(len(v))
		case Array:
			return Int(len(v))
		case *Map:
			return Int(v.len())
		case *Chan:
			if v == nil {
				return Int(0)
			}
			return Int(len(v.buf))
		case *Value:
			return Int(len((*v).(Array)))
		}
	case "cap":
		switch v := a[0].(type) {
		case Slice:
			return Int(cap(v))
		case Array:
			return Int(len(v))
		case *Chan:
			if v == nil {
				return Int(0)
			}
			return Int(v.cap)
		case *Value:
			return Int(len((*v).(Array)))
		}
	case "append":
		s := a[0].(Slice)
		var more []Value
		switch v := a[1].(type) {
		case Slice:
			more = v
		case string, *SymStr:
			more = strToBytes(v)
		}
		return w.appendSlice(s, more)
	case "copy":
		dst := a[0].(Slice)
		var src []Value
		switch v := a[1].(type) {
		case Slice:
			src = v
		case string, *SymStr:
			src = strToBytes(v)
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			w.assign(&dst[i], tmp[i])
		}
		return Int(n)
	case "delete":
		m := a[0].(*Map)
		if m == nil {
			return nil
		}
		if w.race != nil {
			w.race.access(fr, m, true)
		}
		fr.mapDelete(m, cc.Args[0].Type().Underlying().(*types.Map).Key(), a[1])
		return nil
	case "close":
		fr.chanClose(a[0].(*Chan))
		return nil
	case "panic":
		panic(targetPanic{a[0].(Iface)})
	case "recover":
		return fr.doRecover()
	case "print", "println":
		return nil
	case "min", "max":
		r := a[0]
		for _, x := range a[1:] {
			var lt Value
			t := cc.Args[0].Type()
			op := token.LSS
			if name == "max" {
				op = token.GTR
			}
			lt = fr.binop(op, t, cc.Args[0].Type(), x, r)
			switch b := lt.(type) {
			case bool:
				if b {
					r = x
				}
			case *sym.Term:
				if xt, ok := intKind(t); ok {
					r = mkInt(w.ctx.Ite(b, w.intTerm(x, xt.w), w.intTerm(r, xt.w)))
				} else if w.path.Branch(b) {
					r = x
				}
			}
		}
		return r
	case "clear":
		switch v := a[0].(type) {
		case *Map:
			if v != nil {
				for _, e := range v.liveEntries() {
					fr.mapDelete(v, cc.Args[0].Type().Underlying().(*types.Map).Key(), e.k)
				}
			}
		case Slice:
			et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range v {
				w.assign(&v[i], zero(et))
			}
		}
		return nil
	case "ssa:wrapnilchk":
		if p, ok := a[0].(*Value); ok && p == nil {
			fr.rtErrPlain("value method called using nil pointer")
		}
		return a[0]
	case "String": // unsafe.String
		n := fr.concInt(a[1])
		p := a[0]
		if n == 0 {
			return ""
		}
		if up, ok := p.(*unsafeSlice); ok {
			return bytesToStr(Slice(up.s[:n]))
		}
	case "StringData", "SliceData":
		switch v := a[0].(type) {
		case Slice:
			return &unsafeSlice{v}
		case string, *SymStr:
			return &unsafeSlice{strToBytes(v)}
		}
	case "Slice":
		n := fr.concInt(a[1])
		if up, ok := a[0].(*unsafeSlice); ok {
			return up.s[:n:n]
		}
		if n == 0 {
			return Slice(nil)
		}
	case "real":
		return real(a[0].(complex128))
	case "imag":
		return imag(a[0].(complex128))
	case "complex":
		return complex(a[0].(float64), a[1].(float64))
	}
	panic(unsupported(fmt.Sprintf("builtin %s on %T", name, a)))
}

type unsafeSlice struct{ s Slice }

func (w *Worker) appendSlice(s Slice, more []Value) Slice {
	n := len(s)
	if len(more) == 0 {
		return s
	}
	if n+len(more) <= cap(s) {
		r := s[:n+len(more)]
		for i, x := range more {
			p := &r[n+i]
			if w.initing == 0 {
				w.trailLog = append(w.trailLog, trailEnt{p: p, old: *p})
			}
			*p = copyVal(x)
		}
		return r
	}
	nc := growCap(cap(s), n+len(more))
	r := make(Slice, n+len(more), nc)
	for i, x := range s {
		r[i] = copyVal(x)
	}
	for i, x := range more {
		r[n+i] = copyVal(x)
	}
	// spare capacity must hold zero values of the element kind; it is only
	// reachable by reslicing, which target code does rarely
	if nc > n+len(more) {
		var z Value
		switch r[0].(type) {
		case Int, *sym.Term:
			z = Int(0)
		case bool:
			z = false
		case string, *SymStr:
			z = ""
		case float64, *FInt:
			z = float64(0)
		case Iface:
			z = Iface{}
		case *Value:
			z = (*Value)(nil)
		}
		full := r[:nc]
		for i := n + len(more); i < nc; i++ {
			full[i] = z
		}
	}
	return r
}

// growCap follows the runtime's doubling rule (ignoring size classes).
func growCap(old, need int) int {
	c := old * 2
	if old >= 256 {
		c = old + (old+3*256)/4
	}
	if c < need {
		c = need
	}
	if need <= 8 && c < 8 && old == 0 {
		return need
	}
	return c
}

func (fr *frame) doRecover() Value {
	// recover works when called by a deferred function: its caller is the
	// panicking frame.
	c := fr.caller
	if c != nil && c.panicking {
		c.panicking = false
		p := c.panicVal.(targetPanic)
		c.panicVal = nil
		return p.v
	}
	return Iface{}
}

// ---- binary operators ----

func (c *compiler) binop(in *ssa.BinOp) instr {
	dst, x, y := c.slot(in), c.op(in.X), c.op(in.Y)
	t, yt, op := in.X.Type(), in.Y.Type(), in.Op
	if k, ok := intKind(t); ok {
		w := k.w
		mask := sym.Mask(w)
		sg := k.signed
		type f2 func(a, b uint64) Value
		var fast f2
		switch op {
		case token.ADD:
			fast = func(a, b uint64) Value { return Int((a + b) & mask) }
		case token.SUB:
			fast = func(a, b uint64) Value { return Int((a - b) & mask) }
		case token.MUL:
			fast = func(a, b uint64) Value { return Int((a * b) & mask) }
		case token.AND:
			fast = func(a, b uint64) Value { return Int(a & b) }
		case token.OR:
			fast = func(a, b uint64) Value { return Int(a | b) }
		case token.XOR:
			fast = func(a, b uint64) Value { return Int(a ^ b) }
		case token.AND_NOT:
			fast = func(a, b uint64) Value { return Int(a &^ b) }
		case token.EQL:
			fast = func(a, b uint64) Value { return a == b }
		case token.NEQ:
			fast = func(a, b uint64) Value { return a != b }
		case token.LSS:
			if sg {
				fast = func(a, b uint64) Value { return sym.SignExt(a, w) < sym.SignExt(b, w) }
			} else {
				fast = func(a, b uint64) Value { return a < b }
			}
		case token.LEQ:
			if sg {
				fast = func(a, b uint64) Value { return sym.SignExt(a, w) <= sym.SignExt(b, w) }
			} else {
				fast = func(a, b uint64) Value { return a <= b }
			}
		case token.GTR:
			if sg {
				fast = func(a, b uint64) Value { return sym.SignExt(a, w) > sym.SignExt(b, w) }
			} else {
				fast = func(a, b uint64) Value { return a > b }
			}
		case token.GEQ:
			if sg {
				fast = func(a, b uint64) Value { return sym.SignExt(a, w) >= sym.SignExt(b, w) }
			} else {
				fast = func(a, b uint64) Value { return a >= b }
			}
		}
		if fast != nil {
			return func(fr *frame) {
				a, b := fr.get(&x), fr.get(&y)
				if p, ok := a.(Int); ok {
					if q, ok := b.(Int); ok {
						fr.regs[dst] = fast(uint64(p), uint64(q))
						return
					}
				}
				fr.regs[dst] = fr.binop(op, t, yt, a, b)
			}
		}
	}
	return func(fr *frame) {
		fr.regs[dst] = fr.binop(op, t, yt, fr.get(&x), fr.get(&y))
	}
}

func (fr *frame) binop(op token.Token, t, yt types.Type, a, b Value) Value {
	w := fr.w
	switch op {
	case token.EQL:
		return w.eqMixed(t, yt, a, b)
	case token.NEQ:
		switch r := w.eqMixed(t, yt, a, b).(type) {
		case bool:
			return !r
		case *sym.Term:
			return w.mkBool(w.ctx.Not(r))
		}
	}
	if k, ok := intKind(t); ok {
		return fr.intOp(op, k, yt, a, b)
	}
	if isString(t) {
		switch op {
		case token.ADD:
			return strCat(a, b)
		case token.LSS:
			return w.strLess(a, b)
		case token.GTR:
			return w.strLess(b, a)
		case token.LEQ:
			return w.not(w.strLess(b, a))
		case token.GEQ:
			return w.not(w.strLess(a, b))
		}
	}
	if isFloat(t) {
		f, ok1 := a.(float64)
		g, ok2 := b.(float64)
		if ok1 && ok2 {
			r32 := t.Underlying().(*types.Basic).Kind() == types.Float32
			var r float64
			switch op {
			case token.ADD:
				r = f + g
			case token.SUB:
				r = f - g
			case token.MUL:
				r = f * g
			case token.QUO:
				r = f / g
			case token.LSS:
				return f < g
			case token.LEQ:
				return f <= g
			case token.GTR:
				return f > g
			case token.GEQ:
				return f >= g
			}
			if r32 {
				r = float64(float32(r))
			}
			return r
		}
		return w.floatCmp(op.String(), a, b)
	}
	if x, ok := a.(complex128); ok {
		y := b.(complex128)
		switch op {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		}
	}
	panic(unsupported(fmt.Sprintf("binop %v on %v", op, t)))
}

func (w *Worker) not(v Value) Value {
	switch x := v.(type) {
	case bool:
		return !x
	case *sym.Term:
		return w.mkBool(w.ctx.Not(x))
	}
	panic("not")
}

// eqMixed handles comparisons of an interface with a concrete value.
func (w *Worker) eqMixed(t, yt types.Type, a, b Value) Value {
	_, xi := t.Underlying().(*types.Interface)
	_, yi := yt.Underlying().(*types.Interface)
	if xi && !yi {
		return w.ifaceEq(w.asIface(a), Iface{w.canon(yt), b})
	}
	if yi && !xi {
		return w.ifaceEq(Iface{w.canon(t), a}, w.asIface(b))
	}
	return w.eq(t, a, b)
}

func (w *Worker) floatTerm(v Value) (*sym.Term, bool) {
	switch x := v.(type) {
	case *FInt:
		return x.T, true
	case float64:
		if x == float64(int64(x)) && x > -9e15 && x < 9e15 {
			return w.ctx.Const(64, uint64(int64(x))), true
		}
	}
	return nil, false
}

// floatCmp compares floats of which at least one is a symbolic integer.
func (w *Worker) floatCmp(op string, a, b Value) Value {
	x, ok1 := a.(float64)
	y, ok2 := b.(float64)
	if ok1 && ok2 {
		switch op {
		case "==":
			return x == y
		case "<":
			return x < y
		}
	}
	p, ok1 := w.floatTerm(a)
	q, ok2 := w.floatTerm(b)
	if !ok1 || !ok2 {
		panic(unsupported("symbolic floating point " + op))
	}
	c := w.ctx
	switch op {
	case "==":
		return w.mkBool(c.Eq(p, q))
	case "<":
		return w.mkBool(c.Slt(p, q))
	case ">":
		return w.mkBool(c.Slt(q, p))
	case "<=":
		return w.mkBool(c.Not(c.Slt(q, p)))
	case ">=":
		return w.mkBool(c.Not(c.Slt(p, q)))
	}
	panic(unsupported("symbolic floating point " + op))
}

func (fr *frame) intOp(op token.Token, k ikind, yt types.Type, a, b Value) Value {
	w := fr.w
	c := w.ctx
	if op == token.SHL || op == token.SHR {
		yk, _ := intKind(yt)
		if n, ok := b.(Int); ok {
			if yk.signed && sym.SignExt(uint64(n), yk.w) < 0 {
				fr.rtErr("negative shift amount")
			}
			s := uint64(n)
			if v, ok := a.(Int); ok {
				switch {
				case op == token.SHL:
					if s >= uint64(k.w) {
						return Int(0)
					}
					return Int(uint64(v) << s & sym.Mask(k.w))
				case k.signed:
					if s > 63 {
						s = 63
					}
					return Int(uint64(sym.SignExt(uint64(v), k.w)>>s) & sym.Mask(k.w))
				default:
					if s >= uint64(k.w) {
						return Int(0)
					}
					return Int(uint64(v) >> s)
				}
			}
			if s > 255 {
				s = 255
			}
			if s > sym.Mask(k.w) {
				s = sym.Mask(k.w)
			}
			return fr.shiftTerm(op, k, a.(*sym.Term), c.Const(k.w, s))
		}
		yT := b.(*sym.Term)
		if yk.signed {
			if w.path.Branch(c.Slt(yT, c.Const(yT.W, 0))) {
				fr.rtErr("negative shift amount")
			}
		}
		var s *sym.Term
		if yT.W > k.w {
			big := c.Not(c.Ult(yT, c.Const(yT.W, uint64(k.w))))
			s = c.Ite(big, c.Const(k.w, uint64(k.w)), c.Trunc(yT, k.w))
		} else {
			s = c.ZExt(yT, k.w)
		}
		return fr.shiftTerm(op, k, w.intTerm(a, k.w), s)
	}
	if x, ok := a.(Int); ok {
		if y, ok := b.(Int); ok {
			return fr.intConst(op, k, uint64(x), uint64(y))
		}
	}
	x, y := w.intTerm(a, k.w), w.intTerm(b, k.w)
	switch op {
	case token.ADD:
		return mkInt(c.Bin(sym.OAdd, x, y))
	case token.SUB:
		return mkInt(c.Bin(sym.OSub, x, y))
	case token.MUL:
		return mkInt(c.Bin(sym.OMul, x, y))
	case token.QUO, token.REM:
		if w.path.Branch(c.Eq(y, c.Const(k.w, 0))) {
			fr.rtErr("integer divide by zero")
		}
		o := sym.OUDiv
		switch {
		case op == token.QUO && k.signed:
			o = sym.OSDiv
		case op == token.REM && k.signed:
			o = sym.OSRem
		case op == token.REM:
			o = sym.OURem
		}
		if y.IsConst() && !k.signed && y.C&(y.C-1) == 0 {
			sh := uint64(0)
			for 1<<sh != y.C {
				sh++
			}
			if op == token.QUO {
				return mkInt(c.Bin(sym.OLShr, x, c.Const(k.w, sh)))
			}
			return mkInt(c.Bin(sym.OBAnd, x, c.Const(k.w, y.C-1)))
		}
		return mkInt(c.Bin(o, x, y))
	case token.AND:
		return mkInt(c.Bin(sym.OBAnd, x, y))
	case token.OR:
		return mkInt(c.Bin(sym.OBOr, x, y))
	case token.XOR:
		return mkInt(c.Bin(sym.OBXor, x, y))
	case token.AND_NOT:
		return mkInt(c.Bin(sym.OBAnd, x, c.BNot(y)))
	case token.LSS:
		return w.mkBool(w.less(k, x, y))
	case token.GTR:
		return w.mkBool(w.less(k, y, x))
	case token.LEQ:
		return w.mkBool(c.Not(w.less(k, y, x)))
	case token.GEQ:
		return w.mkBool(c.Not(w.less(k, x, y)))
	}
	panic(unsupported("int op " + op.String()))
}

func (w *Worker) less(k ikind, x, y *sym.Term) *sym.Term {
	if k.signed {
		return w.ctx.Slt(x, y)
	}
	return w.ctx.Ult(x, y)
}

func (fr *frame) shiftTerm(op token.Token, k ikind, x, s *sym.Term) Value {
	c := fr.w.ctx
	switch {
	case op == token.SHL:
		return mkInt(c.Bin(sym.OShl, x, s))
	case k.signed:
		return mkInt(c.Bin(sym.OAShr, x, s))
	}
	return mkInt(c.Bin(sym.OLShr, x, s))
}

func (fr *frame) intConst(op token.Token, k ikind, x, y uint64) Value {
	w := k.w
	m := sym.Mask(w)
	switch op {
	case token.ADD:
		return Int((x + y) & m)
	case token.SUB:
		return Int((x - y) & m)
	case token.MUL:
		return Int((x * y) & m)
	case token.QUO, token.REM:
		if y == 0 {
			fr.rtErr("integer divide by zero")
		}
		o := sym.OUDiv
		switch {
		case op == token.QUO && k.signed:
			o = sym.OSDiv
		case op == token.REM && k.signed:
			o = sym.OSRem
		case op == token.REM:
			o = sym.OURem
		}
		return Int(sym.Fold(o, w, x, y))
	case token.AND:
		return Int(x & y)
	case token.OR:
		return Int(x | y)
	case token.XOR:
		return Int(x ^ y)
	case token.AND_NOT:
		return Int(x &^ y & m)
	}
	if k.signed {
		a, b := sym.SignExt(x, w), sym.SignExt(y, w)
		switch op {
		case token.LSS:
			return a < b
		case token.GTR:
			return a > b
		case token.LEQ:
			return a <= b
		case token.GEQ:
			return a >= b
		}
	}
	switch op {
	case token.LSS:
		return x < y
	case token.GTR:
		return x > y
	case token.LEQ:
		return x <= y
	case token.GEQ:
		return x >= y
	}
	panic(unsupported("int op " + op.String()))
}

func (fr *frame) describePanic(v Iface) string {
	if v.T == nil {
		return "nil"
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%v: ", v.T)
	switch x := v.V.(type) {
	case string:
		sb.WriteString(x)
	case *SymStr:
		sb.WriteString(fr.w.path.render(fr.w.path.model, x))
	default:
		fmt.Fprintf(&sb, "%T", x)
	}
	return sb.String()
}
