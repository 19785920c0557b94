package vm

import (
	"fmt"
	"sort"

	"verif/engine/sym"
)

// A decision is one nondeterministic outcome on a path. Replaying the same
// decisions re-executes the same path without consulting the solver.
type decision struct {
	val    uint64
	kind   byte // 'b' branch, 'f' forced branch, 'c' choose, 'v' concretize, 'V' forced concretize
	n      int32
	hasMod bool
}

// Model assigns values to variables by name.
type Model map[string]uint64

type WorkItem struct {
	prefix []decision
	model  Model
}

type ctrlKind int

const (
	stopInfeasible ctrlKind = iota // assumption failed
	stopUnsupported
	stopLimit
	stopEnd
	stopKilled
	stopDeadlock
)

// ctrl is panicked to leave a path.
type ctrl struct {
	kind ctrlKind
	msg  string
}

func (c ctrl) Error() string { return c.msg }

func unsupported(msg string) ctrl { return ctrl{stopUnsupported, msg} }

type InputRec struct {
	Name string
	Kind string // str int bool choice
	Len  int
	W    uint8
	Val  uint64 // for choice
	T    []SB   // str bytes
	I    *sym.Term
	B    Value
}

type Violation struct {
	Harness  string
	ID       string
	Msg      string
	Inputs   []InputVal
	Detail   []string
	Observed []string
	// Scheduled: preemption was allowed, a replay may need a certain schedule.
	Scheduled bool
}

type InputVal struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Str  []int  `json:"str,omitempty"`
	Int  int64  `json:"int"`
}

type Path struct {
	jdecs    map[*Value]*jdecState
	w        *Worker
	prefix   []decision
	pos      int
	trace    []decision
	model    map[*sym.Term]uint64
	doms     map[*sym.Term]sym.Dom
	entangle map[*sym.Term]bool
	cons     []*sym.Term
	known    map[*sym.Term]bool // boolean terms asserted on this path
	inputs   []InputRec
	byName   map[string]int
	steps    int64
	obs      []obsRec
	reached  map[string]int
	mapMode  int
	notes    []string
	covers   []string
	initial  Model
}

type obsRec struct {
	name string
	val  Value
	t    string
}

func (p *Path) get(v *sym.Term) uint64 {
	if x, ok := p.model[v]; ok {
		return x
	}
	if x, ok := p.initial[v.Name]; ok {
		p.model[v] = x
		return x
	}
	var x uint64
	if d, ok := p.doms[v]; ok {
		x = d.First()
	}
	p.model[v] = x
	return x
}

func (p *Path) eval(t *sym.Term) uint64 { return p.w.ctx.Eval(t, p.get) }

func (p *Path) dom(v *sym.Term) (sym.Dom, bool) {
	d, ok := p.doms[v]
	return d, ok
}

func small(v *sym.Term) bool { return v.W <= 8 }

// newVar declares an input variable, with an optional domain.
func (p *Path) newVar(name string, width uint8, dom *sym.Dom) *sym.Term {
	v := p.w.ctx.Var(name, width)
	if small(v) {
		if dom != nil {
			p.doms[v] = *dom
		} else {
			p.doms[v] = sym.FullDom(width)
		}
		d := p.doms[v]
		if x, ok := p.initial[name]; ok && d.Has(x) {
			p.model[v] = x
		} else {
			p.model[v] = d.First()
		}
	}
	return v
}

// assume adds c (true under the model) to the path condition.
func (p *Path) addCons(c *sym.Term) {
	if c.IsConst() {
		return
	}
	if c.Op == sym.OAnd {
		p.addCons(c.X)
		p.addCons(c.Y)
		return
	}
	p.known[c] = true
	vs := c.Vars()
	if len(vs) == 1 && small(vs[0]) {
		v := vs[0]
		t := p.w.ctx.Table(c)
		d, ok := p.doms[v]
		if !ok {
			d = sym.FullDom(v.W)
		}
		p.doms[v] = d.And(t)
		return
	}
	p.cons = append(p.cons, c)
	if len(vs) > 1 {
		for _, v := range vs {
			p.entangle[v] = true
		}
	} else if len(vs) == 1 {
		p.entangle[vs[0]] = true
	}
}

// slice returns the constraints connected to vs.
func (p *Path) slice(vs []*sym.Term) []*sym.Term {
	in := map[*sym.Term]bool{}
	for _, v := range vs {
		in[v] = true
	}
	used := make([]bool, len(p.cons))
	var out []*sym.Term
	for {
		ch := false
		for i, c := range p.cons {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range c.Vars() {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				out = append(out, c)
				ch = true
				for _, v := range c.Vars() {
					in[v] = true
				}
			}
		}
		if !ch {
			return out
		}
	}
}

// feasible decides PC ∧ c, returning changed variable values.
func (p *Path) feasible(c *sym.Term) (sym.Result, map[*sym.Term]uint64) {
	if c.IsConst() {
		if c.C == 1 {
			return sym.Sat, nil
		}
		return sym.Unsat, nil
	}
	if p.known[c] {
		return sym.Sat, nil
	}
	if p.known[p.w.ctx.Not(c)] {
		return sym.Unsat, nil
	}
	vs := c.Vars()
	if len(vs) == 1 && small(vs[0]) {
		v := vs[0]
		t := p.w.ctx.Table(c)
		d, ok := p.doms[v]
		if !ok {
			d = sym.FullDom(v.W)
		}
		d = d.And(t)
		if d.Empty() {
			p.w.stats.DomQueries++
			return sym.Unsat, nil
		}
		if !p.entangle[v] {
			p.w.stats.DomQueries++
			return sym.Sat, map[*sym.Term]uint64{v: d.First()}
		}
	} else if r, ok := p.rangeDecide(c); ok && !r {
		p.w.stats.DomQueries++
		return sym.Unsat, nil
	}
	cs := append(p.slice(vs), c)
	key := ""
	_ = key
	r, m := p.w.check(cs, p.dom)
	return r, m
}

func (p *Path) modelMap() Model {
	m := Model{}
	for n, x := range p.initial {
		m[n] = x
	}
	for v, x := range p.model {
		m[v.Name] = x
	}
	return m
}

// fork queues the sibling path.
func (p *Path) fork(d decision, upd map[*sym.Term]uint64) {
	pre := make([]decision, len(p.trace)+1)
	copy(pre, p.trace)
	pre[len(p.trace)] = d
	m := p.modelMap()
	for v, x := range upd {
		m[v.Name] = x
	}
	p.w.ex.push(&WorkItem{prefix: pre, model: m})
}

// Branch resolves a symbolic condition, forking when both sides are possible.
func (p *Path) Branch(c *sym.Term) bool {
	if c.IsConst() {
		return c.C == 1
	}
	ctx := p.w.ctx
	if p.known[c] {
		return true
	}
	nc := ctx.Not(c)
	if p.known[nc] {
		return false
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		if d.kind != 'b' && d.kind != 'f' {
			panic(ctrl{stopUnsupported, "nondeterministic replay (branch)"})
		}
		p.pos++
		p.trace = append(p.trace, d)
		b := d.val == 1
		if d.kind == 'b' {
			if b {
				p.addCons(c)
			} else {
				p.addCons(nc)
			}
		} else if b {
			p.known[c] = true
		} else {
			p.known[nc] = true
		}
		return b
	}
	b := p.eval(c) == 1
	other := c
	cur := nc
	if b {
		other, cur = nc, c
	}
	p.w.stats.Branches++
	r, upd := p.feasible(other)
	val := uint64(0)
	if b {
		val = 1
	}
	switch r {
	case sym.Unsat:
		p.trace = append(p.trace, decision{val: val, kind: 'f'})
		p.known[cur] = true
	case sym.Sat:
		p.fork(decision{val: 1 - val, kind: 'b'}, upd)
		p.trace = append(p.trace, decision{val: val, kind: 'b'})
		p.addCons(cur)
	default:
		p.w.ex.reduce("solver gave no answer on a branch condition; that side was not explored")
		p.trace = append(p.trace, decision{val: val, kind: 'b'})
		p.addCons(cur)
	}
	return b
}

// Choose forks over 0..n-1.
func (p *Path) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		if d.kind != 'c' || int(d.n) != n {
			panic(ctrl{stopUnsupported, "nondeterministic replay (choose)"})
		}
		p.pos++
		p.trace = append(p.trace, d)
		return int(d.val)
	}
	for i := n - 1; i >= 1; i-- {
		p.fork(decision{val: uint64(i), kind: 'c', n: int32(n)}, nil)
	}
	p.trace = append(p.trace, decision{val: 0, kind: 'c', n: int32(n)})
	return 0
}

// Concretize fixes t to one of its values, forking over the others.
func (p *Path) Concretize(t *sym.Term) uint64 {
	if t.IsConst() {
		return t.C
	}
	ctx := p.w.ctx
	for n := 0; n < 300; n++ {
		x := p.evalOr(t)
		if p.Branch(ctx.Eq(t, ctx.Const(t.W, x))) {
			return x
		}
	}
	panic(unsupported("concretisation of a value with more than 300 possible values"))
}

// evalOr evaluates t under the current model; during replay it must return
// the same candidate as in the original run, so the candidate is recorded.
func (p *Path) evalOr(t *sym.Term) uint64 {
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		if d.kind != 'v' {
			panic(ctrl{stopUnsupported, "nondeterministic replay (value)"})
		}
		p.pos++
		p.trace = append(p.trace, d)
		return d.val
	}
	x := p.eval(t)
	p.trace = append(p.trace, decision{val: x, kind: 'v'})
	return x
}

// Assume restricts the path.
func (p *Path) Assume(c *sym.Term) {
	if c.IsConst() {
		if c.C == 0 {
			panic(ctrl{stopInfeasible, "assume"})
		}
		return
	}
	if p.known[c] {
		return
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		if d.kind != 'a' {
			panic(ctrl{stopUnsupported, "nondeterministic replay (assume)"})
		}
		p.pos++
		p.trace = append(p.trace, d)
		p.addCons(c)
		return
	}
	if p.eval(c) != 1 {
		r, upd := p.feasible(c)
		if r == sym.Unknown {
			p.w.ex.reduce("solver gave no answer on an assumption")
		}
		if r != sym.Sat {
			panic(ctrl{stopInfeasible, "assume"})
		}
		for v, x := range upd {
			p.model[v] = x
		}
	}
	p.trace = append(p.trace, decision{val: 1, kind: 'a'})
	p.addCons(c)
}

// Assert checks c on every input of this path.
func (p *Path) Assert(c Value, id, msg string) {
	p.reached[id]++
	var t *sym.Term
	switch x := c.(type) {
	case bool:
		if x {
			if p.pos >= len(p.prefix) {
				p.w.stats.AssertTriv++
			}
			return
		}
		if p.pos < len(p.prefix) {
			panic(ctrl{stopEnd, ""})
		}
		p.w.violation(p, id, msg, p.model)
		panic(ctrl{stopEnd, "assertion failed"})
	case *sym.Term:
		t = x
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		if d.kind != 'A' {
			panic(ctrl{stopUnsupported, "nondeterministic replay (assert)"})
		}
		p.pos++
		p.trace = append(p.trace, d)
		if d.val == 2 { // violated earlier: continue under the assertion
			p.addCons(t)
		} else {
			p.known[t] = true
		}
		return
	}
	nt := p.w.ctx.Not(t)
	var upd map[*sym.Term]uint64
	r := sym.Sat
	if p.eval(t) == 1 {
		r, upd = p.feasible(nt)
	}
	switch r {
	case sym.Unsat:
		p.w.stats.AssertUnsat++
		p.trace = append(p.trace, decision{val: 1, kind: 'A'})
		p.known[t] = true
	case sym.Unknown:
		p.w.ex.reduce("solver gave no answer on an assertion " + id)
		p.trace = append(p.trace, decision{val: 2, kind: 'A'})
		p.addCons(t)
	case sym.Sat:
		m := map[*sym.Term]uint64{}
		for v, x := range p.model {
			m[v] = x
		}
		for v, x := range upd {
			m[v] = x
		}
		p.w.violation(p, id, msg, m)
		// continue where the assertion holds, if anywhere
		if p.eval(t) != 1 {
			r, upd := p.feasible(t)
			if r != sym.Sat {
				panic(ctrl{stopEnd, "assertion failed on all inputs"})
			}
			for v, x := range upd {
				p.model[v] = x
			}
		}
		p.trace = append(p.trace, decision{val: 2, kind: 'A'})
		p.addCons(t)
	}
}

func evalIn(ctx *sym.Ctx, p *Path, m map[*sym.Term]uint64, t *sym.Term) uint64 {
	return ctx.Eval(t, func(v *sym.Term) uint64 {
		if x, ok := m[v]; ok {
			return x
		}
		return p.get(v)
	})
}

// inputVals renders the path's inputs under a model.
func (p *Path) inputVals(m map[*sym.Term]uint64) []InputVal {
	var out []InputVal
	for _, in := range p.inputs {
		iv := InputVal{Name: in.Name, Kind: in.Kind}
		switch in.Kind {
		case "str":
			iv.Str = []int{}
			for _, b := range in.T {
				if b.T == nil {
					iv.Str = append(iv.Str, int(b.C))
				} else {
					iv.Str = append(iv.Str, int(evalIn(p.w.ctx, p, m, b.T)))
				}
			}
		case "int":
			if in.I == nil {
				iv.Int = int64(in.Val)
			} else {
				iv.Int = sym.SignExt(evalIn(p.w.ctx, p, m, in.I), in.I.W)
			}
		case "bool":
			iv.Int = int64(evalIn(p.w.ctx, p, m, in.I))
		case "choice":
			iv.Int = int64(in.Val)
		}
		out = append(out, iv)
	}
	return out
}

// render gives a concrete rendering of a value under a model (scalars,
// strings, slices of them).
func (p *Path) render(m map[*sym.Term]uint64, v Value) string {
	switch x := v.(type) {
	case string:
		return fmt.Sprintf("%q", x)
	case *SymStr:
		b := make([]byte, len(x.B))
		for i, c := range x.B {
			if c.T == nil {
				b[i] = c.C
			} else {
				b[i] = byte(evalIn(p.w.ctx, p, m, c.T))
			}
		}
		return fmt.Sprintf("%q", string(b))
	case bool:
		return fmt.Sprint(x)
	case Int:
		return fmt.Sprint(int64(x))
	case *sym.Term:
		if x.W == 0 {
			return fmt.Sprint(evalIn(p.w.ctx, p, m, x) == 1)
		}
		return fmt.Sprint(sym.SignExt(evalIn(p.w.ctx, p, m, x), x.W))
	case Iface:
		if x.T == nil {
			return "<nil>"
		}
		return p.render(m, x.V)
	case Slice:
		s := "["
		for i, e := range x {
			if i > 0 {
				s += " "
			}
			s += p.render(m, e)
		}
		return s + "]"
	}
	return fmt.Sprintf("%T", v)
}

// ---- cheap value-set reasoning for conditions on <=8-bit terms ----

// vals over-approximates the values of a term of width <= 8.
func (p *Path) vals(t *sym.Term, depth int) (sym.Dom, bool) {
	var d sym.Dom
	if t.W == 0 || t.W > 8 || depth > 12 {
		return d, false
	}
	switch t.Op {
	case sym.OConst:
		d.Add(t.C)
		return d, true
	case sym.OVar:
		if d, ok := p.doms[t]; ok {
			return d, true
		}
		return sym.FullDom(t.W), true
	}
	if t.Op == sym.OIte {
		// collect guards over the same base
		return p.iteVals(t, depth)
	}
	if (t.Op == sym.OAdd || t.Op == sym.OBXor || t.Op == sym.OBOr || t.Op == sym.OBAnd) && t.Y.IsConst() {
		b, ok := p.vals(t.X, depth+1)
		if !ok {
			b = sym.FullDom(t.X.W)
		}
		for i := uint64(0); i <= sym.Mask(t.W); i++ {
			if b.Has(i) {
				d.Add(sym.Fold(t.Op, t.W, i, t.Y.C))
			}
		}
		return d, true
	}
	if t.Op == sym.OZExt {
		return p.vals(t.X, depth+1)
	}
	return sym.FullDom(t.W), true
}

type refine struct {
	t *sym.Term
	d sym.Dom
}

func (p *Path) iteVals(t *sym.Term, depth int) (sym.Dom, bool) {
	// walk an ite chain whose guards are tests of one base term against
	// constants, refining the base's set along the way
	var out sym.Dom
	var base *sym.Term
	var bd sym.Dom
	cur := t
	for n := 0; n < 64; n++ {
		if cur.Op != sym.OIte {
			d, ok := p.valsWith(cur, base, bd, depth+1)
			if !ok {
				return out, false
			}
			for i := range out {
				out[i] |= d[i]
			}
			return out, true
		}
		g := cur.X
		gb, yes, ok := guardSet(g)
		if !ok {
			a, ok1 := p.vals(cur.Y, depth+1)
			b, ok2 := p.vals(cur.Z, depth+1)
			if !ok1 || !ok2 {
				return out, false
			}
			for i := range out {
				out[i] |= a[i] | b[i]
			}
			return out, true
		}
		if base == nil {
			base = gb
			d, ok := p.vals(gb, depth+1)
			if !ok {
				return out, false
			}
			bd = d
		} else if base != gb {
			a, ok1 := p.vals(cur.Y, depth+1)
			b, ok2 := p.vals(cur.Z, depth+1)
			if !ok1 || !ok2 {
				return out, false
			}
			for i := range out {
				out[i] |= a[i] | b[i]
			}
			return out, true
		}
		td := bd.And(&yes)
		if !td.Empty() {
			d, ok := p.valsWith(cur.Y, base, td, depth+1)
			if !ok {
				return out, false
			}
			for i := range out {
				out[i] |= d[i]
			}
		}
		bd = bd.AndNot(&yes)
		if bd.Empty() {
			return out, true
		}
		cur = cur.Z
	}
	return out, false
}

func (p *Path) valsWith(t, base *sym.Term, bd sym.Dom, depth int) (sym.Dom, bool) {
	if base != nil {
		if t == base {
			return bd, true
		}
		if t.Op == sym.OAdd && t.X == base && t.Y.IsConst() {
			var d sym.Dom
			for i := uint64(0); i <= sym.Mask(t.W); i++ {
				if bd.Has(i) {
					d.Add(sym.Fold(sym.OAdd, t.W, i, t.Y.C))
				}
			}
			return d, true
		}
		if t.Op == sym.OZExt {
			return p.valsWith(t.X, base, bd, depth)
		}
		if t.Op == sym.OAdd && t.X.Op == sym.OZExt && t.X.X == base && t.Y.IsConst() {
			var d sym.Dom
			for i := uint64(0); i <= sym.Mask(base.W); i++ {
				if bd.Has(i) {
					d.Add(sym.Fold(sym.OAdd, t.W, i, t.Y.C))
				}
			}
			return d, true
		}
	}
	return p.vals(t, depth)
}

// guardSet recognises base<const, const<base, base==const (width <= 8).
func guardSet(g *sym.Term) (base *sym.Term, yes sym.Dom, ok bool) {
	neg := false
	if g.Op == sym.ONot {
		g, neg = g.X, true
	}
	if g.Op != sym.OUlt && g.Op != sym.OEq {
		return
	}
	if g.X.W == 0 || g.X.W > 8 {
		return
	}
	var c uint64
	left := false
	if g.Y.IsConst() {
		base, c, left = g.X, g.Y.C, true
	} else if g.X.IsConst() {
		base, c = g.Y, g.X.C
	} else {
		return
	}
	for i := uint64(0); i <= sym.Mask(base.W); i++ {
		var r bool
		switch {
		case g.Op == sym.OEq:
			r = i == c
		case left:
			r = i < c
		default:
			r = c < i
		}
		if r != neg {
			yes.Add(i)
		}
	}
	return base, yes, true
}

// rangeDecide tries to refute c with value sets; ok && !r means unsat.
func (p *Path) rangeDecide(c *sym.Term) (r, ok bool) {
	switch c.Op {
	case sym.OAnd:
		if r, ok := p.rangeDecide(c.X); ok && !r {
			return false, true
		}
		return p.rangeDecide(c.Y)
	case sym.OOr:
		a, ok1 := p.rangeDecide(c.X)
		if !ok1 || a {
			return true, ok1
		}
		return p.rangeDecide(c.Y)
	case sym.ONot:
		if c.X.Op == sym.OOr {
			if r, ok := p.rangeDecide(p.w.ctx.Not(c.X.X)); ok && !r {
				return false, true
			}
			return p.rangeDecide(p.w.ctx.Not(c.X.Y))
		}
	}
	if len(c.Vars()) == 1 && small(c.Vars()[0]) {
		v := c.Vars()[0]
		d, has := p.doms[v]
		if !has {
			d = sym.FullDom(v.W)
		}
		d = d.And(p.w.ctx.Table(c))
		return !d.Empty(), true
	}
	base, yes, isg := guardSet(c)
	if !isg {
		return true, false
	}
	d, vok := p.vals(base, 0)
	if !vok {
		return true, false
	}
	d = d.And(&yes)
	return !d.Empty(), true
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
