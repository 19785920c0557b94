package vm

import (
	"fmt"
	"go/types"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"

	"verif/engine/sym"
)

// Value is one of: Int, bool, *sym.Term (symbolic integer or boolean),
// float64, *FInt, string, *SymStr, Slice, Array, Struct, *Value (pointer),
// *SymElem, Iface, *Map, *Chan, *Closure, Tuple, *MapIter, *Opaque, UPtr,
// complex128.
type Value = any

type Int uint64

// FInt is a float64 that is exactly the signed integer T (64 bit term).
type FInt struct{ T *sym.Term }

type SB struct {
	C byte
	T *sym.Term // 8 bit; nil when concrete
}

// SymStr is a string of concrete length with at least one symbolic byte.
type SymStr struct{ B []SB }

type Slice []Value
type Array []Value
type Struct []Value
type Tuple []Value

// SymElem is the address of cells[idx] for a symbolic, in-range idx.
type SymElem struct {
	Cells []Value
	Idx   *sym.Term
}

type Iface struct {
	T types.Type // canonical; nil for the nil interface
	V Value
}

type Closure struct {
	Fn   *ssa.Function
	Env  []Value
	Nat  func(fr *frame, args []Value) Value
	Name string
}

type UPtr struct{ V Value }

type Opaque struct {
	Kind string
	Data any
}

type mapEntry struct {
	k, v Value
	dead bool
}

type Map struct {
	entries []*mapEntry
	idx     map[any]*mapEntry // concrete keys
	nsym    int               // live entries with symbolic keys
	live    int
}

type MapIter struct {
	m       *Map
	ents    []*mapEntry
	pos     int
	str     Value // string iteration
	isStr   bool
	permute bool
	rev     bool
}

type Chan struct {
	buf    []Value
	cap    int
	closed bool
	sendq  []*chanWait
	recvq  []*chanWait
	id     int
}

// waiter is a goroutine blocked in a channel operation or select.
type waiter struct {
	over bool // an operation happened, or the waiter went on by itself
	done bool // an operation happened
	k    int  // which case
	v    Value
}

type chanWait struct {
	w *waiter
	k int
	v Value // to send
}

var nilFunc = (*Closure)(nil)

func under(t types.Type) types.Type { return t.Underlying() }

type ikind struct {
	w      uint8
	signed bool
}

func intKind(t types.Type) (ikind, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return ikind{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return ikind{64, true}, true
	case types.Int8:
		return ikind{8, true}, true
	case types.Int16:
		return ikind{16, true}, true
	case types.Int32, types.UntypedRune:
		return ikind{32, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return ikind{64, false}, true
	case types.Uint8:
		return ikind{8, false}, true
	case types.Uint16:
		return ikind{16, false}, true
	case types.Uint32:
		return ikind{32, false}, true
	}
	return ikind{}, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// zero returns the zero value of t.
func zero(t types.Type) Value {
	switch t := t.(type) {
	case *types.Named, *types.Alias:
		return zero(t.Underlying())
	case *types.Basic:
		switch {
		case t.Kind() == types.UnsafePointer:
			return UPtr{}
		case t.Kind() == types.UntypedNil:
			return Iface{}
		case t.Info()&types.IsBoolean != 0:
			return false
		case t.Info()&types.IsInteger != 0:
			return Int(0)
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsComplex != 0:
			return complex128(0)
		case t.Info()&types.IsString != 0:
			return ""
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Array:
		a := make(Array, t.Len())
		if t.Len() > 0 {
			if isAgg(t.Elem()) {
				for i := range a {
					a[i] = zero(t.Elem())
				}
			} else {
				z := zero(t.Elem())
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Struct:
		s := make(Struct, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Interface:
		return Iface{}
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return nilFunc
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		s := make(Tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	}
	panic(unsupported(fmt.Sprintf("zero value of %T %v", t, t)))
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Array, *types.Struct:
		return true
	}
	return false
}

// copyVal copies aggregates (value semantics).
func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		n := make(Struct, len(v))
		for i, x := range v {
			switch x.(type) {
			case Struct, Array:
				n[i] = copyVal(x)
			default:
				n[i] = x
			}
		}
		return n
	case Array:
		n := make(Array, len(v))
		for i, x := range v {
			switch x.(type) {
			case Struct, Array:
				n[i] = copyVal(x)
			default:
				n[i] = x
			}
		}
		return n
	}
	return v
}

// ---- strings ----

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.B)
	}
	panic(fmt.Sprintf("strLen of %T", v))
}

func strBytes(v Value) []SB {
	switch s := v.(type) {
	case string:
		b := make([]SB, len(s))
		for i := 0; i < len(s); i++ {
			b[i].C = s[i]
		}
		return b
	case *SymStr:
		return s.B
	}
	panic(fmt.Sprintf("strBytes of %T", v))
}

// mkStr normalises a byte sequence.
func mkStr(b []SB) Value {
	for _, x := range b {
		if x.T != nil {
			return &SymStr{b}
		}
	}
	var sb strings.Builder
	sb.Grow(len(b))
	for _, x := range b {
		sb.WriteByte(x.C)
	}
	return sb.String()
}

func strSlice(v Value, lo, hi int) Value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *SymStr:
		return mkStr(s.B[lo:hi:hi])
	}
	panic("strSlice")
}

func strCat(a, b Value) Value {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x + y
	}
	if ok1 && x == "" {
		return b
	}
	if ok2 && y == "" {
		return a
	}
	p, q := strBytes(a), strBytes(b)
	r := make([]SB, 0, len(p)+len(q))
	r = append(r, p...)
	r = append(r, q...)
	return mkStr(r)
}

func sbVal(b SB) Value {
	if b.T != nil {
		return b.T
	}
	return Int(b.C)
}

func valSB(v Value) SB {
	switch x := v.(type) {
	case Int:
		return SB{C: byte(x)}
	case *sym.Term:
		if x.IsConst() {
			return SB{C: byte(x.C)}
		}
		return SB{T: x}
	}
	panic(fmt.Sprintf("byte value %T", v))
}

func bytesToStr(s Slice) Value {
	b := make([]SB, len(s))
	for i, v := range s {
		b[i] = valSB(v)
	}
	return mkStr(b)
}

func strToBytes(v Value) Slice {
	b := strBytes(v)
	s := make(Slice, len(b))
	for i, x := range b {
		s[i] = sbVal(x)
	}
	return s
}

func (w *Worker) term(b SB) *sym.Term {
	if b.T != nil {
		return b.T
	}
	return w.ctx.Const(8, uint64(b.C))
}

func (w *Worker) bytesEq(a, b []SB) *sym.Term {
	if len(a) != len(b) {
		return w.ctx.False
	}
	for i := range a {
		if a[i].T == nil && b[i].T == nil && a[i].C != b[i].C {
			return w.ctx.False
		}
	}
	r := w.ctx.True
	for i := range a {
		if a[i].T == nil && b[i].T == nil {
			continue
		}
		r = w.ctx.And(r, w.ctx.Eq(w.term(a[i]), w.term(b[i])))
		if r.IsFalse() {
			return r
		}
	}
	return r
}

func (w *Worker) strEq(a, b Value) Value {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x == y
	}
	return w.mkBool(w.bytesEq(strBytes(a), strBytes(b)))
}

func (w *Worker) strLess(a, b Value) Value {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x < y
	}
	p, q := strBytes(a), strBytes(b)
	n := len(p)
	if len(q) < n {
		n = len(q)
	}
	r := w.ctx.Bool(len(p) < len(q))
	for i := n - 1; i >= 0; i-- {
		pt, qt := w.term(p[i]), w.term(q[i])
		r = w.ctx.Ite(w.ctx.Eq(pt, qt), r, w.ctx.Ult(pt, qt))
	}
	return w.mkBool(r)
}

// containsAt returns the condition that needle occurs in hay at position i.
func (w *Worker) containsAt(hay, needle []SB, i int) *sym.Term {
	return w.bytesEq(hay[i:i+len(needle)], needle)
}

func (w *Worker) mkBool(t *sym.Term) Value {
	if t.IsConst() {
		return t.C == 1
	}
	return t
}

func mkInt(t *sym.Term) Value {
	if t.IsConst() {
		return Int(t.C)
	}
	return t
}

func (w *Worker) boolTerm(v Value) *sym.Term {
	switch x := v.(type) {
	case bool:
		return w.ctx.Bool(x)
	case *sym.Term:
		return x
	}
	panic(fmt.Sprintf("boolTerm of %T", v))
}

func (w *Worker) intTerm(v Value, width uint8) *sym.Term {
	switch x := v.(type) {
	case Int:
		return w.ctx.Const(width, uint64(x))
	case *sym.Term:
		if x.W != width {
			panic(fmt.Sprintf("intTerm width %d want %d", x.W, width))
		}
		return x
	}
	panic(fmt.Sprintf("intTerm of %T", v))
}

// ---- equality and hashing ----

// eq compares two values of static type t.
func (w *Worker) eq(t types.Type, a, b Value) Value {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsString != 0:
			return w.strEq(a, b)
		case t.Info()&types.IsBoolean != 0:
			x, ok1 := a.(bool)
			y, ok2 := b.(bool)
			if ok1 && ok2 {
				return x == y
			}
			return w.mkBool(w.ctx.Eq(w.boolTerm(a), w.boolTerm(b)))
		case t.Info()&types.IsInteger != 0:
			x, ok1 := a.(Int)
			y, ok2 := b.(Int)
			if ok1 && ok2 {
				return x == y
			}
			k, _ := intKind(t)
			return w.mkBool(w.ctx.Eq(w.intTerm(a, k.w), w.intTerm(b, k.w)))
		case t.Info()&types.IsFloat != 0:
			return w.floatCmp("==", a, b)
		case t.Kind() == types.UnsafePointer:
			return a.(UPtr) == b.(UPtr)
		case t.Info()&types.IsComplex != 0:
			return a.(complex128) == b.(complex128)
		}
	case *types.Struct:
		x, y := a.(Struct), b.(Struct)
		r := w.ctx.True
		for i := 0; i < t.NumFields(); i++ {
			if t.Field(i).Name() == "_" {
				continue
			}
			r = w.ctx.And(r, w.boolTerm(w.eq(t.Field(i).Type(), x[i], y[i])))
			if r.IsFalse() {
				return false
			}
		}
		return w.mkBool(r)
	case *types.Array:
		x, y := a.(Array), b.(Array)
		r := w.ctx.True
		for i := range x {
			r = w.ctx.And(r, w.boolTerm(w.eq(t.Elem(), x[i], y[i])))
		}
		return w.mkBool(r)
	case *types.Interface:
		return w.ifaceEq(w.asIface(a), w.asIface(b))
	case *types.Pointer:
		return ptrEq(a, b)
	case *types.Chan:
		return a.(*Chan) == b.(*Chan)
	case *types.Map:
		return a.(*Map) == nil && b.(*Map) == nil || a.(*Map) == b.(*Map)
	case *types.Slice:
		return (a.(Slice) == nil) == (b.(Slice) == nil) && (a.(Slice) == nil)
	case *types.Signature:
		return a.(*Closure) == b.(*Closure)
	}
	panic(unsupported(fmt.Sprintf("eq on %v", t)))
}

func ptrEq(a, b Value) bool {
	if x, ok := a.(*Value); ok {
		y, ok := b.(*Value)
		return ok && x == y
	}
	if x, ok := a.(*Opaque); ok {
		y, ok := b.(*Opaque)
		return ok && x == y
	}
	panic(unsupported(fmt.Sprintf("pointer comparison %T %T", a, b)))
}

func (w *Worker) asIface(v Value) Iface {
	if v == nil {
		return Iface{}
	}
	return v.(Iface)
}

func (w *Worker) ifaceEq(a, b Iface) Value {
	if a.T == nil || b.T == nil {
		return a.T == nil && b.T == nil
	}
	if a.T != b.T && !types.Identical(a.T, b.T) {
		return false
	}
	if !types.Comparable(a.T) {
		w.targetPanicf("comparing uncomparable type %v", a.T)
	}
	return w.eq(a.T, a.V, b.V)
}

// hashKey returns a Go-comparable key for a concrete value.
func hashKey(v Value) (any, bool) {
	switch x := v.(type) {
	case string, Int, bool, float64, *Value, *Chan, *Opaque, *Closure:
		return x, true
	case *SymStr, *sym.Term:
		return nil, false
	case Struct:
		return aggKey("S", []Value(x))
	case Array:
		return aggKey("A", []Value(x))
	case Iface:
		if x.T == nil {
			return "I:nil", true
		}
		k, ok := hashKey(x.V)
		if !ok {
			return nil, false
		}
		return [2]any{x.T.String(), k}, true
	case UPtr:
		return hashKey(x.V)
	}
	return nil, false
}

func aggKey(tag string, vs []Value) (any, bool) {
	if len(vs) == 0 {
		return tag, true
	}
	var acc any = tag
	for _, e := range vs {
		k, ok := hashKey(e)
		if !ok {
			return nil, false
		}
		acc = [2]any{acc, k}
	}
	return acc, true
}

func (m *Map) len() int {
	if m == nil {
		return 0
	}
	return m.live
}

// mapFind locates the entry for k (branching on symbolic key equality).
func (fr *frame) mapFind(m *Map, kt types.Type, k Value) *mapEntry {
	if m == nil || m.live == 0 {
		return nil
	}
	w := fr.w
	hk, conc := hashKey(k)
	if conc {
		if e, ok := m.idx[hk]; ok && !e.dead {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.entries {
		if e.dead {
			continue
		}
		if conc {
			if _, c := hashKey(e.k); c {
				continue
			}
		}
		r := w.eq(kt, k, e.k)
		switch r := r.(type) {
		case bool:
			if r {
				return e
			}
		case *sym.Term:
			if w.path.Branch(r) {
				return e
			}
		}
	}
	return nil
}

func (fr *frame) mapSet(m *Map, kt types.Type, k, v Value) {
	w := fr.w
	if e := fr.mapFind(m, kt, k); e != nil {
		old := e.v
		w.trail(func() { e.v = old })
		e.v = v
		return
	}
	e := &mapEntry{k: k, v: v}
	hk, conc := hashKey(k)
	n := len(m.entries)
	m.entries = append(m.entries, e)
	m.live++
	if conc {
		if m.idx == nil {
			m.idx = map[any]*mapEntry{}
		}
		old, had := m.idx[hk]
		m.idx[hk] = e
		w.trail(func() {
			m.entries = m.entries[:n]
			m.live--
			if had {
				m.idx[hk] = old
			} else {
				delete(m.idx, hk)
			}
		})
	} else {
		m.nsym++
		w.trail(func() { m.entries = m.entries[:n]; m.live--; m.nsym-- })
	}
}

func (fr *frame) mapDelete(m *Map, kt types.Type, k Value) {
	e := fr.mapFind(m, kt, k)
	if e == nil {
		return
	}
	w := fr.w
	hk, conc := hashKey(e.k)
	e.dead = true
	m.live--
	if conc {
		delete(m.idx, hk)
		w.trail(func() { e.dead = false; m.live++; m.idx[hk] = e })
	} else {
		m.nsym--
		w.trail(func() { e.dead = false; m.live++; m.nsym++ })
	}
}

func (m *Map) liveEntries() []*mapEntry {
	if m == nil {
		return nil
	}
	r := make([]*mapEntry, 0, m.live)
	for _, e := range m.entries {
		if !e.dead {
			r = append(r, e)
		}
	}
	return r
}

// decodeRune decodes one rune of b at i, branching where bytes are symbolic.
func (fr *frame) decodeRune(b []SB, i int) (Value, int) {
	x := b[i]
	if x.T == nil && x.C < utf8.RuneSelf {
		return Int(x.C), 1
	}
	w := fr.w
	if x.T != nil {
		if w.path.Branch(w.ctx.Ult(x.T, w.ctx.Const(8, utf8.RuneSelf))) {
			return mkInt(w.ctx.ZExt(x.T, 32)), 1
		}
	}
	// multi-byte: all bytes of the window are made concrete
	n := len(b) - i
	if n > 4 {
		n = 4
	}
	buf := make([]byte, 0, 4)
	for j := 0; j < n; j++ {
		buf = append(buf, fr.concByte(b[i+j]))
		if utf8.FullRune(buf) {
			break
		}
	}
	r, sz := utf8.DecodeRune(buf)
	return Int(uint64(uint32(r))), sz
}

func (fr *frame) concByte(b SB) byte {
	if b.T == nil {
		return b.C
	}
	return byte(fr.w.path.Concretize(b.T))
}

func (w *Worker) concStr(v Value) string {
	switch s := v.(type) {
	case string:
		return s
	case *SymStr:
		b := make([]byte, len(s.B))
		for i, x := range s.B {
			if x.T == nil {
				b[i] = x.C
			} else {
				b[i] = byte(w.path.Concretize(x.T))
			}
		}
		return string(b)
	}
	panic(fmt.Sprintf("concStr of %T", v))
}
