package vm

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"

	"verif/engine/sym"
)

// rval is the content of a reflect.Value.
type rval struct {
	t    types.Type // nil: the invalid Value
	v    Value
	addr *Value
	ro   bool
}

func (r *rval) get() Value {
	if r.addr != nil {
		return *r.addr
	}
	return r.v
}

func mkRV(t types.Type, v Value) Value { return &Opaque{Kind: "rv", Data: &rval{t: t, v: v}} }

func mkRVA(t types.Type, p *Value, ro bool) Value {
	return &Opaque{Kind: "rv", Data: &rval{t: t, addr: p, ro: ro}}
}

var invalidRV = &Opaque{Kind: "rv", Data: &rval{}}

func asRV(v Value) *rval {
	switch x := v.(type) {
	case *Opaque:
		return x.Data.(*rval)
	case Struct:
		return &rval{}
	case *Value:
		return asRV(*x)
	}
	panic(fmt.Sprintf("asRV of %T", v))
}

const (
	kInvalid = iota
	kBool
	kInt
	kInt8
	kInt16
	kInt32
	kInt64
	kUint
	kUint8
	kUint16
	kUint32
	kUint64
	kUintptr
	kFloat32
	kFloat64
	kComplex64
	kComplex128
	kArray
	kChan
	kFunc
	kInterface
	kMap
	kPointer
	kSlice
	kString
	kStruct
	kUnsafePointer
)

var kindNames = []string{"invalid", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "float32", "float64",
	"complex64", "complex128", "array", "chan", "func", "interface", "map", "ptr", "slice", "string", "struct", "unsafe.Pointer"}

func kindOf(t types.Type) int {
	if t == nil {
		return kInvalid
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return kBool
		case types.Int, types.UntypedInt:
			return kInt
		case types.Int8:
			return kInt8
		case types.Int16:
			return kInt16
		case types.Int32, types.UntypedRune:
			return kInt32
		case types.Int64:
			return kInt64
		case types.Uint:
			return kUint
		case types.Uint8:
			return kUint8
		case types.Uint16:
			return kUint16
		case types.Uint32:
			return kUint32
		case types.Uint64:
			return kUint64
		case types.Uintptr:
			return kUintptr
		case types.Float32:
			return kFloat32
		case types.Float64, types.UntypedFloat:
			return kFloat64
		case types.Complex64:
			return kComplex64
		case types.Complex128:
			return kComplex128
		case types.String, types.UntypedString:
			return kString
		case types.UnsafePointer:
			return kUnsafePointer
		}
	case *types.Array:
		return kArray
	case *types.Chan:
		return kChan
	case *types.Signature:
		return kFunc
	case *types.Interface:
		return kInterface
	case *types.Map:
		return kMap
	case *types.Pointer:
		return kPointer
	case *types.Slice:
		return kSlice
	case *types.Struct:
		return kStruct
	}
	return kInvalid
}

// rtype wraps a type as reflect.Type.
func (w *Worker) rtype(t types.Type) Iface {
	if t == nil {
		return Iface{}
	}
	t = w.canon(t)
	o, _ := w.rtypes[t]
	if o == nil {
		o = &Opaque{Kind: "rtype", Data: t}
		w.rtypes[t] = o
	}
	return Iface{w.canon(types.NewPointer(w.prog.Type("reflect", "rtype"))), o}
}

func rtOf(v Value) types.Type {
	switch x := v.(type) {
	case Iface:
		return x.V.(*Opaque).Data.(types.Type)
	case *Opaque:
		return x.Data.(types.Type)
	}
	panic(fmt.Sprintf("rtOf %T", v))
}

func (fr *frame) rpanic(msg string) {
	panic(targetPanic{Iface{fr.w.canon(types.Typ[types.String]), msg}})
}

func (fr *frame) structField(st *types.Struct, i int, index []int) Value {
	f := st.Field(i)
	pkgPath := ""
	if !f.Exported() && f.Pkg() != nil {
		pkgPath = f.Pkg().Path()
	}
	idx := make(Slice, len(index))
	for k, x := range index {
		idx[k] = intv(x)
	}
	return Struct{f.Name(), pkgPath, fr.w.rtype(f.Type()), st.Tag(i), Int(0), idx, f.Anonymous()}
}

func (r *rval) field(i int) Value {
	st := r.t.Underlying().(*types.Struct)
	ro := r.ro || !st.Field(i).Exported()
	if r.addr != nil {
		s := (*r.addr).(Struct)
		return mkRVA(st.Field(i).Type(), &s[i], ro)
	}
	return &Opaque{Kind: "rv", Data: &rval{t: st.Field(i).Type(), v: r.v.(Struct)[i], ro: ro}}
}

func (r *rval) elem() Value {
	switch kindOf(r.t) {
	case kPointer:
		switch p := r.get().(type) {
		case *Value:
			if p == nil {
				return invalidRV
			}
			return mkRVA(r.t.Underlying().(*types.Pointer).Elem(), p, r.ro)
		case *Opaque:
			return &Opaque{Kind: "rv", Data: &rval{t: r.t.Underlying().(*types.Pointer).Elem(), v: p}}
		}
	case kInterface:
		i, ok := r.get().(Iface)
		if !ok || i.T == nil {
			return invalidRV
		}
		return &Opaque{Kind: "rv", Data: &rval{t: i.T, v: i.V, ro: r.ro}}
	}
	return nil
}

// exportedMethods lists t's exported methods in name order.
func (w *Worker) exportedMethods(t types.Type) []*types.Selection {
	ms := w.prog.SSA.MethodSets.MethodSet(t)
	var out []*types.Selection
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			out = append(out, ms.At(i))
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Obj().Name() < out[j].Obj().Name() })
	return out
}

func (fr *frame) boundMethod(r *rval, sel *types.Selection) Value {
	sig := sel.Obj().Type().(*types.Signature)
	ft := types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())
	recv := r.get()
	name := sel.Obj().Name()
	pkg := sel.Obj().Pkg()
	t := r.t
	cl := &Closure{Name: name, Nat: func(fr *frame, args []Value) Value {
		if _, ok := t.Underlying().(*types.Interface); ok {
			return fr.invoke(recv.(Iface), pkg, name, args...)
		}
		m := fr.w.method(t, pkg, name)
		if m == nil {
			panic(unsupported("reflect method " + name))
		}
		return fr.w.callFn(fr, fr.g, m, append([]Value{recv}, args...), nil)
	}}
	return mkRV(ft, cl)
}

// assignTo converts a value of type from for storage in a location of type to.
func (fr *frame) assignTo(to, from types.Type, v Value) Value {
	if _, ok := to.Underlying().(*types.Interface); ok {
		if _, ok := from.Underlying().(*types.Interface); ok {
			return v
		}
		return Iface{fr.w.canon(from), copyVal(v)}
	}
	return copyVal(v)
}

func rvLen(fr *frame, r *rval) int {
	switch x := r.get().(type) {
	case Slice:
		return len(x)
	case Array:
		return len(x)
	case string, *SymStr:
		return strLen(x)
	case *Map:
		return x.len()
	case *Chan:
		return len(x.buf)
	}
	fr.rpanic("reflect: call of reflect.Value.Len on " + kindNames[kindOf(r.t)] + " Value")
	return 0
}

// rzero reports whether v is the zero value (may be symbolic).
func (fr *frame) rzero(t types.Type, v Value) Value {
	w := fr.w
	switch u := t.Underlying().(type) {
	case *types.Struct:
		r := w.ctx.True
		for i, x := range v.(Struct) {
			r = w.ctx.And(r, w.boolTerm(fr.rzero(u.Field(i).Type(), x)))
		}
		return w.mkBool(r)
	case *types.Array:
		r := w.ctx.True
		for _, x := range v.(Array) {
			r = w.ctx.And(r, w.boolTerm(fr.rzero(u.Elem(), x)))
		}
		return w.mkBool(r)
	case *types.Slice:
		return v.(Slice) == nil
	case *types.Map:
		return v.(*Map) == nil
	case *types.Signature:
		return v.(*Closure) == nil
	case *types.Interface:
		return v.(Iface).T == nil
	case *types.Chan:
		return v.(*Chan) == nil
	case *types.Pointer:
		p, ok := v.(*Value)
		return ok && p == nil
	}
	return w.eq(t, v, zero(t))
}

func (fr *frame) deepEq(t types.Type, a, b Value, depth int) *sym.Term {
	w := fr.w
	c := w.ctx
	if depth > 60 {
		panic(unsupported("DeepEqual too deep"))
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		r := c.True
		x, y := a.(Struct), b.(Struct)
		for i := range x {
			r = c.And(r, fr.deepEq(u.Field(i).Type(), x[i], y[i], depth+1))
			if r.IsFalse() {
				return r
			}
		}
		return r
	case *types.Array:
		r := c.True
		x, y := a.(Array), b.(Array)
		for i := range x {
			r = c.And(r, fr.deepEq(u.Elem(), x[i], y[i], depth+1))
		}
		return r
	case *types.Slice:
		x, y := a.(Slice), b.(Slice)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return c.False
		}
		r := c.True
		for i := range x {
			r = c.And(r, fr.deepEq(u.Elem(), x[i], y[i], depth+1))
			if r.IsFalse() {
				return r
			}
		}
		return r
	case *types.Map:
		x, y := a.(*Map), b.(*Map)
		if (x == nil) != (y == nil) || x.len() != y.len() {
			return c.False
		}
		if x == y {
			return c.True
		}
		r := c.True
		for _, e := range x.liveEntries() {
			o := fr.mapFind(y, u.Key(), e.k)
			if o == nil {
				return c.False
			}
			r = c.And(r, fr.deepEq(u.Elem(), e.v, o.v, depth+1))
		}
		return r
	case *types.Pointer:
		p, ok1 := a.(*Value)
		q, ok2 := b.(*Value)
		if !ok1 || !ok2 {
			return c.Bool(a == b)
		}
		if p == q {
			return c.True
		}
		if p == nil || q == nil {
			return c.False
		}
		return fr.deepEq(u.Elem(), *p, *q, depth+1)
	case *types.Interface:
		x, y := w.asIface(a), w.asIface(b)
		if x.T == nil || y.T == nil {
			return c.Bool(x.T == nil && y.T == nil)
		}
		if !types.Identical(x.T, y.T) {
			return c.False
		}
		return fr.deepEq(x.T, x.V, y.V, depth+1)
	case *types.Signature:
		return c.Bool(a.(*Closure) == nil && b.(*Closure) == nil)
	}
	return w.boolTerm(w.eq(t, a, b))
}

type rmapIter struct {
	kt, vt types.Type
	ents   []*mapEntry
	pos    int
	ro     bool
}

func (fr *frame) rcall(r *rval, args []Value) []Value {
	sig := r.t.Underlying().(*types.Signature)
	np := sig.Params().Len()
	if sig.Variadic() {
		fixed := np - 1
		if len(args) < fixed {
			fr.rpanic("reflect: Call with too few input arguments")
		}
		et := sig.Params().At(fixed).Type().Underlying().(*types.Slice).Elem()
		rest := make(Slice, 0, len(args)-fixed)
		for _, x := range args[fixed:] {
			xr := asRV(x)
			rest = append(rest, fr.assignTo(et, xr.t, xr.get()))
		}
		var a []Value
		for i := 0; i < fixed; i++ {
			xr := asRV(args[i])
			a = append(a, fr.assignTo(sig.Params().At(i).Type(), xr.t, xr.get()))
		}
		return fr.rresults(sig, fr.callClosure(r.get().(*Closure), append(a, rest)...))
	}
	if len(args) != np {
		fr.rpanic("reflect: Call with wrong number of input arguments")
	}
	var a []Value
	for i, x := range args {
		xr := asRV(x)
		a = append(a, fr.assignTo(sig.Params().At(i).Type(), xr.t, xr.get()))
	}
	return fr.rresults(sig, fr.callClosure(r.get().(*Closure), a...))
}

func (fr *frame) rresults(sig *types.Signature, v Value) []Value {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return []Value{mkRV(sig.Results().At(0).Type(), v)}
	}
	t := v.(Tuple)
	out := make([]Value, len(t))
	for i := range t {
		out[i] = mkRV(sig.Results().At(i).Type(), t[i])
	}
	return out
}

func rvSlice(vs []Value) Slice {
	s := make(Slice, len(vs))
	copy(s, vs)
	return s
}

// fieldByName finds a (possibly promoted) field.
func fieldByName(t types.Type, name string, pkg *types.Package) (path []int, f *types.Var) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return []int{i}, st.Field(i)
		}
	}
	var best []int
	var bf *types.Var
	for i := 0; i < st.NumFields(); i++ {
		if !st.Field(i).Anonymous() {
			continue
		}
		ft := st.Field(i).Type()
		if p, ok := ft.Underlying().(*types.Pointer); ok {
			ft = p.Elem()
		}
		p, f := fieldByName(ft, name, pkg)
		if f != nil && (best == nil || len(p)+1 < len(best)) {
			best = append([]int{i}, p...)
			bf = f
		}
	}
	return best, bf
}

func init() {
	natPkgs["reflect"] = func(f *ssa.Function) natFn {
		name := f.String()
		switch name {
		case "(reflect.StructTag).Get", "(reflect.StructTag).Lookup", "(*reflect.ValueError).Error", "(reflect.Method).IsExported", "(reflect.StructField).IsExported":
			return nil
		}
		if f.Name() == "init" {
			return nil
		}
		if o := f.Origin(); o != nil && o.Name() == "TypeFor" && len(f.TypeArgs()) == 1 {
			t := f.TypeArgs()[0]
			return func(fr *frame, a []Value) Value { return fr.w.rtype(fr.w.canon(t)) }
		}
		return func(fr *frame, a []Value) Value { panic(unsupported("reflection: " + name + fr.w.where())) }
	}
	natPkgs["internal/reflectlite"] = func(f *ssa.Function) natFn {
		name := f.String()
		return func(fr *frame, a []Value) Value { panic(unsupported("reflection: " + name + fr.w.where())) }
	}
	n("(reflect.Kind).String", func(fr *frame, a []Value) Value { return kindNames[fr.concInt(a[0])] })
	valueOf := func(fr *frame, a []Value) Value {
		i := fr.w.asIface(a[0])
		if i.T == nil {
			return invalidRV
		}
		return mkRV(i.T, i.V)
	}
	typeOf := func(fr *frame, a []Value) Value {
		i := fr.w.asIface(a[0])
		return fr.w.rtype(i.T)
	}
	n("reflect.ValueOf", valueOf)
	n("reflect.TypeOf", typeOf)
	n("internal/reflectlite.ValueOf", valueOf)
	n("internal/reflectlite.TypeOf", typeOf)
	n("reflect.Indirect", func(fr *frame, a []Value) Value {
		r := asRV(a[0])
		if kindOf(r.t) != kPointer {
			return a[0]
		}
		return r.elem()
	})
	n("reflect.Zero", func(fr *frame, a []Value) Value { t := rtOf(a[0]); return mkRV(t, zero(t)) })
	n("reflect.New", func(fr *frame, a []Value) Value {
		t := rtOf(a[0])
		p := new(Value)
		*p = zero(t)
		return mkRV(fr.w.canon(types.NewPointer(t)), p)
	})
	n("reflect.MakeMap", func(fr *frame, a []Value) Value { return mkRV(rtOf(a[0]), &Map{}) })
	n("reflect.MakeMapWithSize", func(fr *frame, a []Value) Value { return mkRV(rtOf(a[0]), &Map{}) })
	n("reflect.MakeSlice", func(fr *frame, a []Value) Value {
		t := rtOf(a[0])
		return mkRV(t, makeSlice(t.Underlying().(*types.Slice).Elem(), int(fr.concInt(a[1])), int(fr.concInt(a[2]))))
	})
	n("reflect.Append", func(fr *frame, a []Value) Value {
		r := asRV(a[0])
		et := r.t.Underlying().(*types.Slice).Elem()
		var more []Value
		for _, x := range a[1].(Slice) {
			xr := asRV(x)
			more = append(more, fr.assignTo(et, xr.t, xr.get()))
		}
		return mkRV(r.t, fr.w.appendSlice(r.get().(Slice), more))
	})
	n("reflect.PointerTo", func(fr *frame, a []Value) Value { return fr.w.rtype(types.NewPointer(rtOf(a[0]))) })
	n("reflect.PtrTo", natives["reflect.PointerTo"])
	n("reflect.SliceOf", func(fr *frame, a []Value) Value { return fr.w.rtype(types.NewSlice(rtOf(a[0]))) })
	n("reflect.DeepEqual", func(fr *frame, a []Value) Value {
		x, y := fr.w.asIface(a[0]), fr.w.asIface(a[1])
		if x.T == nil || y.T == nil {
			return x.T == nil && y.T == nil
		}
		if !types.Identical(x.T, y.T) {
			return false
		}
		return fr.w.mkBool(fr.deepEq(x.T, x.V, y.V, 0))
	})
	swapper := func(fr *frame, a []Value) Value {
		s := a[0].(Iface).V.(Slice)
		return &Closure{Name: "swap", Nat: func(fr *frame, b []Value) Value {
			i, j := fr.concInt(b[0]), fr.concInt(b[1])
			x, y := copyVal(s[i]), copyVal(s[j])
			fr.w.assign(&s[i], y)
			fr.w.assign(&s[j], x)
			return nil
		}}
	}
	n("reflect.Swapper", swapper)
	n("internal/reflectlite.Swapper", swapper)

	rv := func(name string, f func(fr *frame, r *rval, a []Value) Value) {
		g := func(fr *frame, a []Value) Value { return f(fr, asRV(a[0]), a) }
		n("(reflect.Value)."+name, g)
		n("(internal/reflectlite.Value)."+name, g)
	}
	rv("Kind", func(fr *frame, r *rval, a []Value) Value { return intv(kindOf(r.t)) })
	rv("IsValid", func(fr *frame, r *rval, a []Value) Value { return r.t != nil })
	rv("Type", func(fr *frame, r *rval, a []Value) Value {
		if r.t == nil {
			fr.rpanic("reflect: call of reflect.Value.Type on zero Value")
		}
		return fr.w.rtype(r.t)
	})
	rv("Elem", func(fr *frame, r *rval, a []Value) Value {
		e := r.elem()
		if e == nil {
			fr.rpanic("reflect: call of reflect.Value.Elem on " + kindNames[kindOf(r.t)] + " Value")
		}
		return e
	})
	rv("Len", func(fr *frame, r *rval, a []Value) Value { return intv(rvLen(fr, r)) })
	rv("Cap", func(fr *frame, r *rval, a []Value) Value { return intv(cap(r.get().(Slice))) })
	rv("IsNil", func(fr *frame, r *rval, a []Value) Value {
		switch x := r.get().(type) {
		case *Value:
			return x == nil
		case Iface:
			return x.T == nil
		case Slice:
			return x == nil
		case *Map:
			return x == nil
		case *Chan:
			return x == nil
		case *Closure:
			return x == nil
		case *Opaque:
			return false
		}
		fr.rpanic("reflect: call of reflect.Value.IsNil on " + kindNames[kindOf(r.t)] + " Value")
		return nil
	})
	rv("IsZero", func(fr *frame, r *rval, a []Value) Value { return fr.rzero(r.t, r.get()) })
	rv("NumField", func(fr *frame, r *rval, a []Value) Value {
		st, ok := r.t.Underlying().(*types.Struct)
		if !ok {
			fr.rpanic("reflect: call of reflect.Value.NumField on " + kindNames[kindOf(r.t)] + " Value")
		}
		return intv(st.NumFields())
	})
	rv("Field", func(fr *frame, r *rval, a []Value) Value { return r.field(int(fr.concInt(a[1]))) })
	rv("FieldByName", func(fr *frame, r *rval, a []Value) Value {
		if kindOf(r.t) != kStruct {
			fr.rpanic("reflect: call of reflect.Value.FieldByName on " + kindNames[kindOf(r.t)] + " Value")
		}
		path, f := fieldByName(r.t, fr.w.concStr(a[1]), nil)
		if f == nil {
			return invalidRV
		}
		cur := a[0]
		for i, k := range path {
			c := asRV(cur)
			if i > 0 && kindOf(c.t) == kPointer {
				cur = c.elem()
				c = asRV(cur)
				if c.t == nil {
					fr.rpanic("reflect: indirection through nil pointer to embedded struct")
				}
			}
			cur = c.field(k)
		}
		return cur
	})
	byIndex := func(fr *frame, r *rval, a []Value) (Value, bool) {
		var cur Value = &Opaque{Kind: "rv", Data: r}
		for i, k := range a[1].(Slice) {
			c := asRV(cur)
			if i > 0 && kindOf(c.t) == kPointer {
				cur = c.elem()
				c = asRV(cur)
				if c.t == nil {
					return nil, false
				}
			}
			cur = c.field(int(fr.concInt(k)))
		}
		return cur, true
	}
	rv("FieldByIndex", func(fr *frame, r *rval, a []Value) Value {
		v, ok := byIndex(fr, r, a)
		if !ok {
			fr.rpanic("reflect: indirection through nil pointer to embedded struct")
		}
		return v
	})
	rv("FieldByIndexErr", func(fr *frame, r *rval, a []Value) Value {
		v, ok := byIndex(fr, r, a)
		if !ok {
			return Tuple{invalidRV, errIface(fr.w, "reflect: indirection through nil pointer to embedded struct field")}
		}
		return Tuple{v, Iface{}}
	})
	rv("Index", func(fr *frame, r *rval, a []Value) Value {
		i := int(fr.concInt(a[1]))
		switch x := r.get().(type) {
		case Slice:
			if i < 0 || i >= len(x) {
				fr.rpanic("reflect: slice index out of range")
			}
			return mkRVA(r.t.Underlying().(*types.Slice).Elem(), &x[i], r.ro)
		case Array:
			if i < 0 || i >= len(x) {
				fr.rpanic("reflect: array index out of range")
			}
			if r.addr != nil {
				return mkRVA(r.t.Underlying().(*types.Array).Elem(), &x[i], r.ro)
			}
			return mkRV(r.t.Underlying().(*types.Array).Elem(), x[i])
		case string, *SymStr:
			if i < 0 || i >= strLen(x) {
				fr.rpanic("reflect: string index out of range")
			}
			return mkRV(types.Typ[types.Uint8], sbVal(strBytes(x)[i]))
		}
		fr.rpanic("reflect: call of reflect.Value.Index on " + kindNames[kindOf(r.t)] + " Value")
		return nil
	})
	rv("Interface", func(fr *frame, r *rval, a []Value) Value {
		if r.t == nil {
			fr.rpanic("reflect: call of reflect.Value.Interface on zero Value")
		}
		if r.ro {
			fr.rpanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		if kindOf(r.t) == kInterface {
			return r.get()
		}
		return Iface{fr.w.canon(r.t), copyVal(r.get())}
	})
	rv("CanInterface", func(fr *frame, r *rval, a []Value) Value {
		if r.t == nil {
			fr.rpanic("reflect: call of reflect.Value.CanInterface on zero Value")
		}
		return !r.ro
	})
	rv("CanAddr", func(fr *frame, r *rval, a []Value) Value { return r.addr != nil })
	rv("CanSet", func(fr *frame, r *rval, a []Value) Value { return r.addr != nil && !r.ro })
	rv("Addr", func(fr *frame, r *rval, a []Value) Value {
		if r.addr == nil {
			fr.rpanic("reflect.Value.Addr of unaddressable value")
		}
		return &Opaque{Kind: "rv", Data: &rval{t: fr.w.canon(types.NewPointer(r.t)), v: r.addr, ro: r.ro}}
	})
	rv("Set", func(fr *frame, r *rval, a []Value) Value {
		if r.addr == nil || r.ro {
			fr.rpanic("reflect: reflect.Value.Set using unaddressable value")
		}
		x := asRV(a[1])
		if x.t == nil {
			fr.rpanic("reflect: call of reflect.Value.Set on zero Value")
		}
		if !types.AssignableTo(x.t, r.t) {
			fr.rpanic(fmt.Sprintf("reflect.Set: value of type %v is not assignable to type %v", x.t, r.t))
		}
		fr.w.assign(r.addr, fr.assignTo(r.t, x.t, x.get()))
		return nil
	})
	set := func(name string) {
		rv(name, func(fr *frame, r *rval, a []Value) Value {
			if r.addr == nil || r.ro {
				fr.rpanic("reflect: reflect.Value." + name + " using unaddressable value")
			}
			v := a[1]
			if k, ok := intKind(r.t); ok {
				switch x := v.(type) {
				case Int:
					v = Int(uint64(x) & sym.Mask(k.w))
				case *sym.Term:
					v = mkInt(fr.w.ctx.Trunc(x, k.w))
				}
			}
			fr.w.assign(r.addr, v)
			return nil
		})
	}
	for _, s := range []string{"SetInt", "SetUint", "SetFloat", "SetString", "SetBool", "SetBytes"} {
		set(s)
	}
	rv("SetLen", func(fr *frame, r *rval, a []Value) Value {
		fr.w.assign(r.addr, r.get().(Slice)[:fr.concInt(a[1])])
		return nil
	})
	rv("SetMapIndex", func(fr *frame, r *rval, a []Value) Value {
		mt := r.t.Underlying().(*types.Map)
		k := asRV(a[1])
		v := asRV(a[2])
		m := r.get().(*Map)
		if v.t == nil {
			if m != nil {
				fr.mapDelete(m, mt.Key(), fr.assignTo(mt.Key(), k.t, k.get()))
			}
			return nil
		}
		if m == nil {
			fr.rpanic("assignment to entry in nil map")
		}
		fr.mapSet(m, mt.Key(), fr.assignTo(mt.Key(), k.t, k.get()), fr.assignTo(mt.Elem(), v.t, v.get()))
		return nil
	})
	rv("MapIndex", func(fr *frame, r *rval, a []Value) Value {
		mt, ok := r.t.Underlying().(*types.Map)
		if !ok {
			fr.rpanic("reflect: call of reflect.Value.MapIndex on " + kindNames[kindOf(r.t)] + " Value")
		}
		k := asRV(a[1])
		e := fr.mapFind(r.get().(*Map), mt.Key(), fr.assignTo(mt.Key(), k.t, k.get()))
		if e == nil {
			return invalidRV
		}
		return &Opaque{Kind: "rv", Data: &rval{t: mt.Elem(), v: e.v, ro: r.ro}}
	})
	rv("MapKeys", func(fr *frame, r *rval, a []Value) Value {
		mt := r.t.Underlying().(*types.Map)
		var out Slice
		for _, e := range r.get().(*Map).liveEntries() {
			out = append(out, mkRV(mt.Key(), e.k))
		}
		if out == nil {
			out = Slice{}
		}
		return out
	})
	rv("MapRange", func(fr *frame, r *rval, a []Value) Value {
		mt := r.t.Underlying().(*types.Map)
		return &Opaque{Kind: "rmapiter", Data: &rmapIter{kt: mt.Key(), vt: mt.Elem(), ents: r.get().(*Map).liveEntries(), pos: -1}}
	})
	n("(*reflect.MapIter).Next", func(fr *frame, a []Value) Value {
		it := a[0].(*Opaque).Data.(*rmapIter)
		it.pos++
		return it.pos < len(it.ents)
	})
	n("(*reflect.MapIter).Key", func(fr *frame, a []Value) Value {
		it := a[0].(*Opaque).Data.(*rmapIter)
		return mkRV(it.kt, it.ents[it.pos].k)
	})
	n("(*reflect.MapIter).Value", func(fr *frame, a []Value) Value {
		it := a[0].(*Opaque).Data.(*rmapIter)
		return mkRV(it.vt, it.ents[it.pos].v)
	})
	widen := func(fr *frame, r *rval) Value {
		k, ok := intKind(r.t)
		if !ok {
			fr.rpanic("reflect: call of reflect.Value.Int on " + kindNames[kindOf(r.t)] + " Value")
		}
		switch x := r.get().(type) {
		case Int:
			if k.signed {
				return Int(uint64(sym.SignExt(uint64(x), k.w)))
			}
			return x
		case *sym.Term:
			if k.w == 64 {
				return x
			}
			if k.signed {
				return mkInt(fr.w.ctx.SExt(x, 64))
			}
			return mkInt(fr.w.ctx.ZExt(x, 64))
		}
		panic("widen")
	}
	rv("Int", func(fr *frame, r *rval, a []Value) Value { return widen(fr, r) })
	rv("Uint", func(fr *frame, r *rval, a []Value) Value { return widen(fr, r) })
	rv("Float", func(fr *frame, r *rval, a []Value) Value { return r.get() })
	rv("Bool", func(fr *frame, r *rval, a []Value) Value { return r.get() })
	rv("Bytes", func(fr *frame, r *rval, a []Value) Value { return r.get() })
	rv("String", func(fr *frame, r *rval, a []Value) Value {
		if kindOf(r.t) == kString {
			return r.get()
		}
		if r.t == nil {
			return "<invalid Value>"
		}
		return "<" + fr.w.typeString(r.t) + " Value>"
	})
	rv("Pointer", func(fr *frame, r *rval, a []Value) Value { return fr.w.address(r.v) })
	rv("UnsafeAddr", func(fr *frame, r *rval, a []Value) Value {
		if r.addr == nil {
			fr.rpanic("reflect.Value.UnsafeAddr of unaddressable value")
		}
		return fr.w.address(r.addr)
	})
	rv("UnsafePointer", func(fr *frame, r *rval, a []Value) Value { return UPtr{} })
	rv("NumMethod", func(fr *frame, r *rval, a []Value) Value {
		if r.t == nil {
			fr.rpanic("reflect: call of reflect.Value.NumMethod on zero Value")
		}
		return intv(len(fr.w.exportedMethods(r.t)))
	})
	rv("MethodByName", func(fr *frame, r *rval, a []Value) Value {
		if r.t == nil {
			return invalidRV
		}
		name := fr.w.concStr(a[1])
		for _, s := range fr.w.exportedMethods(r.t) {
			if s.Obj().Name() == name {
				return fr.boundMethod(r, s)
			}
		}
		return invalidRV
	})
	rv("Method", func(fr *frame, r *rval, a []Value) Value {
		return fr.boundMethod(r, fr.w.exportedMethods(r.t)[fr.concInt(a[1])])
	})
	rv("Call", func(fr *frame, r *rval, a []Value) Value { return rvSlice(fr.rcall(r, a[1].(Slice))) })
	rv("Convert", func(fr *frame, r *rval, a []Value) Value {
		t := rtOf(a[1])
		if _, ok := t.Underlying().(*types.Interface); ok {
			return mkRV(t, fr.assignTo(t, r.t, r.get()))
		}
		return mkRV(t, fr.convertDyn(r.t, t, r.get()))
	})
	rv("CanConvert", func(fr *frame, r *rval, a []Value) Value { return types.ConvertibleTo(r.t, rtOf(a[1])) })
	rv("Slice", func(fr *frame, r *rval, a []Value) Value {
		i, j := int(fr.concInt(a[1])), int(fr.concInt(a[2]))
		switch x := r.get().(type) {
		case Slice:
			if i < 0 || j < i || j > cap(x) {
				fr.rpanic("reflect.Value.Slice: slice index out of bounds")
			}
			return mkRV(r.t, x[i:j])
		case string, *SymStr:
			if i < 0 || j < i || j > strLen(x) {
				fr.rpanic("reflect.Value.Slice: string slice index out of bounds")
			}
			return mkRV(r.t, strSlice(x, i, j))
		case Array:
			return mkRV(types.NewSlice(r.t.Underlying().(*types.Array).Elem()), Slice(x[i:j]))
		}
		panic(unsupported("reflect.Value.Slice"))
	})
	rv("CanInt", func(fr *frame, r *rval, a []Value) Value { k := kindOf(r.t); return k >= kInt && k <= kInt64 })
	rv("CanUint", func(fr *frame, r *rval, a []Value) Value { k := kindOf(r.t); return k >= kUint && k <= kUintptr })
	rv("CanFloat", func(fr *frame, r *rval, a []Value) Value { k := kindOf(r.t); return k == kFloat32 || k == kFloat64 })
	rv("Comparable", func(fr *frame, r *rval, a []Value) Value { return r.t == nil || types.Comparable(r.t) })
	rv("Equal", func(fr *frame, r *rval, a []Value) Value {
		o := asRV(a[1])
		x, y := fr.w.mkIfaceAny(r), fr.w.mkIfaceAny(o)
		return fr.w.ifaceEq(x, y)
	})
	rv("OverflowInt", func(fr *frame, r *rval, a []Value) Value {
		k, _ := intKind(r.t)
		x, ok := a[1].(Int)
		if !ok {
			return false
		}
		return sym.SignExt(uint64(x)&sym.Mask(k.w), k.w) != int64(x)
	})

	// ---- reflect.Type ----
	rt := func(name string, f func(fr *frame, t types.Type, a []Value) Value) {
		g := func(fr *frame, a []Value) Value { return f(fr, rtOf(a[0]), a) }
		opaqueMethods["rtype."+name] = g
		n("(*reflect.rtype)."+name, g)
	}
	rt("Kind", func(fr *frame, t types.Type, a []Value) Value { return intv(kindOf(t)) })
	rt("String", func(fr *frame, t types.Type, a []Value) Value { return fr.w.typeString(t) })
	rt("Name", func(fr *frame, t types.Type, a []Value) Value {
		switch x := t.(type) {
		case *types.Named:
			return x.Obj().Name()
		case *types.Basic:
			return x.Name()
		}
		return ""
	})
	rt("PkgPath", func(fr *frame, t types.Type, a []Value) Value {
		if x, ok := t.(*types.Named); ok && x.Obj().Pkg() != nil {
			return x.Obj().Pkg().Path()
		}
		return ""
	})
	rt("Elem", func(fr *frame, t types.Type, a []Value) Value {
		switch x := t.Underlying().(type) {
		case *types.Pointer:
			return fr.w.rtype(x.Elem())
		case *types.Slice:
			return fr.w.rtype(x.Elem())
		case *types.Array:
			return fr.w.rtype(x.Elem())
		case *types.Map:
			return fr.w.rtype(x.Elem())
		case *types.Chan:
			return fr.w.rtype(x.Elem())
		}
		fr.rpanic("reflect: Elem of invalid type " + t.String())
		return nil
	})
	rt("Key", func(fr *frame, t types.Type, a []Value) Value { return fr.w.rtype(t.Underlying().(*types.Map).Key()) })
	rt("Len", func(fr *frame, t types.Type, a []Value) Value { return intv(int(t.Underlying().(*types.Array).Len())) })
	rt("NumField", func(fr *frame, t types.Type, a []Value) Value {
		return intv(t.Underlying().(*types.Struct).NumFields())
	})
	rt("Field", func(fr *frame, t types.Type, a []Value) Value {
		i := int(fr.concInt(a[1]))
		return fr.structField(t.Underlying().(*types.Struct), i, []int{i})
	})
	rt("FieldByName", func(fr *frame, t types.Type, a []Value) Value {
		path, f := fieldByName(t, fr.w.concStr(a[1]), nil)
		if f == nil {
			return Tuple{zero(fr.w.prog.Type("reflect", "StructField")), false}
		}
		cur := t
		for _, k := range path[:len(path)-1] {
			cur = cur.Underlying().(*types.Struct).Field(k).Type()
			if p, ok := cur.Underlying().(*types.Pointer); ok {
				cur = p.Elem()
			}
		}
		return Tuple{fr.structField(cur.Underlying().(*types.Struct), path[len(path)-1], path), true}
	})
	rt("NumMethod", func(fr *frame, t types.Type, a []Value) Value { return intv(len(fr.w.exportedMethods(t))) })
	rt("MethodByName", func(fr *frame, t types.Type, a []Value) Value {
		name := fr.w.concStr(a[1])
		for i, s := range fr.w.exportedMethods(t) {
			if s.Obj().Name() == name {
				return Tuple{Struct{name, "", fr.w.rtype(s.Type()), invalidRV, intv(i)}, true}
			}
		}
		return Tuple{Struct{"", "", Iface{}, invalidRV, Int(0)}, false}
	})
	rt("Implements", func(fr *frame, t types.Type, a []Value) Value {
		return fr.w.implements(t, rtOf(a[1]).Underlying().(*types.Interface))
	})
	rt("AssignableTo", func(fr *frame, t types.Type, a []Value) Value { return types.AssignableTo(t, rtOf(a[1])) })
	rt("ConvertibleTo", func(fr *frame, t types.Type, a []Value) Value { return types.ConvertibleTo(t, rtOf(a[1])) })
	rt("Comparable", func(fr *frame, t types.Type, a []Value) Value { return types.Comparable(t) })
	rt("NumIn", func(fr *frame, t types.Type, a []Value) Value {
		return intv(t.Underlying().(*types.Signature).Params().Len())
	})
	rt("NumOut", func(fr *frame, t types.Type, a []Value) Value {
		return intv(t.Underlying().(*types.Signature).Results().Len())
	})
	rt("In", func(fr *frame, t types.Type, a []Value) Value {
		return fr.w.rtype(t.Underlying().(*types.Signature).Params().At(int(fr.concInt(a[1]))).Type())
	})
	rt("Out", func(fr *frame, t types.Type, a []Value) Value {
		return fr.w.rtype(t.Underlying().(*types.Signature).Results().At(int(fr.concInt(a[1]))).Type())
	})
	rt("IsVariadic", func(fr *frame, t types.Type, a []Value) Value { return t.Underlying().(*types.Signature).Variadic() })
	rt("Size", func(fr *frame, t types.Type, a []Value) Value { return Int(8) })
	rt("Bits", func(fr *frame, t types.Type, a []Value) Value {
		if k, ok := intKind(t); ok {
			return intv(int(k.w))
		}
		return Int(64)
	})
}

func (w *Worker) mkIfaceAny(r *rval) Iface {
	if r.t == nil {
		return Iface{}
	}
	return w.mkIface(r.t, r.get())
}

// address is a number for what v refers to, 0 for nil; only equality means
// anything.
func (w *Worker) address(v Value) Value {
	var key any
	switch x := v.(type) {
	case *Value:
		if x == nil {
			return Int(0)
		}
		key = x
	case *Map:
		if x == nil {
			return Int(0)
		}
		key = x
	case *Chan:
		if x == nil {
			return Int(0)
		}
		key = x
	case *Closure:
		if x == nil {
			return Int(0)
		}
		key = x
	case Slice:
		if x == nil {
			return Int(0)
		}
		if cap(x) == 0 {
			return Int(0xc000000008)
		}
		key = &x[:1][0]
	default:
		panic(unsupported(fmt.Sprintf("address of %T", v)))
	}
	m, _ := w.side["addresses"].(map[any]uint64)
	if m == nil {
		m = map[any]uint64{}
		w.side["addresses"] = m
	}
	if m[key] == 0 {
		m[key] = 0xc000010000 + 16*uint64(len(m))
	}
	return Int(m[key])
}
