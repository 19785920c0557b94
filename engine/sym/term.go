// Package sym holds the term language (bit-vectors and booleans), its
// simplifier, concrete evaluation, and the SMT-LIB2 back end.
package sym

import (
	"fmt"
	"math/bits"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OUlt
	OSlt
	OZExt
	OSExt
	OExtract // C = low bit
)

// Term is an immutable hash-consed expression. W==0 means Bool.
type Term struct {
	Op      Op
	W       uint8
	C       uint64
	X, Y, Z *Term
	ID      uint32
	vars    []*Term // distinct variables, sorted by index; shared slices
	Name    string  // for OVar
	Idx     int     // for OVar: index in Ctx.Vars
}

func (t *Term) IsConst() bool { return t.Op == OConst }
func (t *Term) IsTrue() bool  { return t.Op == OConst && t.W == 0 && t.C == 1 }
func (t *Term) IsFalse() bool { return t.Op == OConst && t.W == 0 && t.C == 0 }
func (t *Term) Vars() []*Term { return t.vars }

type key struct {
	op      Op
	w       uint8
	c       uint64
	x, y, z uint32
}

type Ctx struct {
	tab    map[key]*Term
	n      uint32
	Vars   []*Term
	byName map[string]*Term
	True   *Term
	False  *Term
	tt     map[*Term]*Dom // truth tables of single-small-var boolean terms
	memo   []uint64
	memoE  []uint32
	epoch  uint32
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[key]*Term{}, byName: map[string]*Term{}, tt: map[*Term]*Dom{}}
	c.n = 1
	c.True = c.mk(OConst, 0, 1, nil, nil, nil)
	c.False = c.mk(OConst, 0, 0, nil, nil, nil)
	return c
}

func (c *Ctx) Size() int { return int(c.n) }

func id(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.ID
}

func mergeVars(a, b []*Term) []*Term {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	if len(a) == len(b) {
		same := true
		for i := range a {
			if a[i] != b[i] {
				same = false
				break
			}
		}
		if same {
			return a
		}
	}
	out := make([]*Term, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] == b[j]:
			out = append(out, a[i])
			i++
			j++
		case a[i].Idx < b[j].Idx:
			out = append(out, a[i])
			i++
		default:
			out = append(out, b[j])
			j++
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	if len(out) == len(a) {
		return a
	}
	if len(out) == len(b) {
		return b
	}
	return out
}

func (c *Ctx) mk(op Op, w uint8, cv uint64, x, y, z *Term) *Term {
	k := key{op, w, cv, id(x), id(y), id(z)}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{Op: op, W: w, C: cv, X: x, Y: y, Z: z, ID: c.n}
	c.n++
	if x != nil {
		t.vars = x.vars
		if y != nil {
			t.vars = mergeVars(t.vars, y.vars)
			if z != nil {
				t.vars = mergeVars(t.vars, z.vars)
			}
		}
	}
	c.tab[k] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func Mask(w uint8) uint64 { return mask(w) }

func SignExt(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func (c *Ctx) Const(w uint8, v uint64) *Term {
	return c.mk(OConst, w, v&mask(w), nil, nil, nil)
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

// Var returns the variable called name (created on first use).
func (c *Ctx) Var(name string, w uint8) *Term {
	if t, ok := c.byName[name]; ok {
		if t.W != w {
			panic(fmt.Sprintf("variable %s redeclared with width %d (was %d)", name, w, t.W))
		}
		return t
	}
	t := &Term{Op: OVar, W: w, ID: c.n, Name: name, Idx: len(c.Vars)}
	c.n++
	t.vars = []*Term{t}
	c.Vars = append(c.Vars, t)
	c.byName[name] = t
	return t
}

func (c *Ctx) Lookup(name string) *Term { return c.byName[name] }

func (c *Ctx) Not(x *Term) *Term {
	if x.IsConst() {
		return c.Bool(x.C == 0)
	}
	if x.Op == ONot {
		return x.X
	}
	return c.mk(ONot, 0, 0, x, nil, nil)
}

func (c *Ctx) And(x, y *Term) *Term {
	if x.IsConst() {
		if x.C == 0 {
			return x
		}
		return y
	}
	if y.IsConst() {
		if y.C == 0 {
			return y
		}
		return x
	}
	if x == y {
		return x
	}
	if (x.Op == ONot && x.X == y) || (y.Op == ONot && y.X == x) {
		return c.False
	}
	if x.ID > y.ID {
		x, y = y, x
	}
	return c.mk(OAnd, 0, 0, x, y, nil)
}

func (c *Ctx) Or(x, y *Term) *Term {
	if x.IsConst() {
		if x.C == 1 {
			return x
		}
		return y
	}
	if y.IsConst() {
		if y.C == 1 {
			return y
		}
		return x
	}
	if x == y {
		return x
	}
	if (x.Op == ONot && x.X == y) || (y.Op == ONot && y.X == x) {
		return c.True
	}
	if x.ID > y.ID {
		x, y = y, x
	}
	return c.mk(OOr, 0, 0, x, y, nil)
}

func (c *Ctx) Ite(g, a, b *Term) *Term {
	if g.IsConst() {
		if g.C == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.W == 0 {
		if a.IsTrue() {
			return c.Or(g, b)
		}
		if a.IsFalse() {
			return c.And(c.Not(g), b)
		}
		if b.IsTrue() {
			return c.Or(c.Not(g), a)
		}
		if b.IsFalse() {
			return c.And(g, a)
		}
	}
	if g.Op == ONot {
		return c.Ite(g.X, b, a)
	}
	return c.mk(OIte, a.W, 0, g, a, b)
}

func (c *Ctx) Eq(x, y *Term) *Term {
	if x == y {
		return c.True
	}
	if x.W != y.W {
		panic(fmt.Sprintf("eq width mismatch %d %d", x.W, y.W))
	}
	if x.IsConst() && y.IsConst() {
		return c.Bool(x.C == y.C)
	}
	if x.W == 0 {
		if x.IsConst() {
			x, y = y, x
		}
		if y.IsConst() {
			if y.C == 1 {
				return x
			}
			return c.Not(x)
		}
	}
	if x.IsConst() {
		x, y = y, x
	}
	if y.IsConst() {
		switch x.Op {
		case OZExt:
			if y.C&^mask(x.X.W) != 0 {
				return c.False
			}
			return c.Eq(x.X, c.Const(x.X.W, y.C))
		case OSExt:
			if uint64(SignExt(y.C&mask(x.X.W), x.X.W))&mask(x.W) != y.C {
				return c.False
			}
			return c.Eq(x.X, c.Const(x.X.W, y.C))
		case OAdd:
			if x.Y.IsConst() {
				return c.Eq(x.X, c.Const(x.W, y.C-x.Y.C))
			}
		case OBXor:
			if x.Y.IsConst() {
				return c.Eq(x.X, c.Const(x.W, y.C^x.Y.C))
			}
		case OIte:
			if x.Y.IsConst() && x.Z.IsConst() {
				a, b := x.Y.C == y.C, x.Z.C == y.C
				switch {
				case a && b:
					return c.True
				case a:
					return x.X
				case b:
					return c.Not(x.X)
				default:
					return c.False
				}
			}
			if x.Y.IsConst() || x.Z.IsConst() {
				return c.Ite(x.X, c.Eq(x.Y, y), c.Eq(x.Z, y))
			}
		}
	} else if x.ID > y.ID {
		x, y = y, x
	}
	if x.Op == OZExt && y.Op == OZExt && x.X.W == y.X.W {
		return c.Eq(x.X, y.X)
	}
	return c.mk(OEq, 0, 0, x, y, nil)
}

func commut(op Op) bool {
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		return true
	}
	return false
}

// Fold computes a binary operation on constants of width w.
func Fold(op Op, w uint8, a, b uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := SignExt(a, w), SignExt(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := SignExt(a, w), SignExt(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(SignExt(a, w)>>b) & m
	case OUlt:
		if a < b {
			return 1
		}
		return 0
	case OSlt:
		if SignExt(a, w) < SignExt(b, w) {
			return 1
		}
		return 0
	}
	panic(fmt.Sprintf("fold %d w%d", op, w))
}

// Bin builds a bit-vector binary operation.
func (c *Ctx) Bin(op Op, x, y *Term) *Term {
	if op < OAdd || op == OBNot || op == ONeg {
		panic("not a bit-vector operation")
	}
	if x.W != y.W || x.W == 0 {
		panic(fmt.Sprintf("bin %d width mismatch %d %d", op, x.W, y.W))
	}
	w := x.W
	if x.IsConst() && y.IsConst() {
		return c.Const(w, Fold(op, w, x.C, y.C))
	}
	if commut(op) && (x.IsConst() || (!y.IsConst() && x.ID > y.ID)) {
		x, y = y, x
	}
	if y.IsConst() {
		switch op {
		case OAdd, OSub, OBOr, OBXor, OShl, OLShr, OAShr:
			if y.C == 0 {
				return x
			}
		}
		switch op {
		case OAdd:
			if x.Op == OAdd && x.Y.IsConst() {
				return c.Bin(OAdd, x.X, c.Const(w, x.Y.C+y.C))
			}
		case OSub:
			return c.Bin(OAdd, x, c.Const(w, -y.C))
		case OMul:
			if y.C == 0 {
				return y
			}
			if y.C == 1 {
				return x
			}
		case OUDiv, OSDiv:
			if y.C == 1 {
				return x
			}
		case OBAnd:
			if y.C == 0 {
				return y
			}
			if y.C == mask(w) {
				return x
			}
			if x.Op == OZExt && y.C&mask(x.X.W) == mask(x.X.W) {
				return x
			}
			if x.Op == OZExt {
				return c.ZExt(c.Bin(OBAnd, x.X, c.Const(x.X.W, y.C)), w)
			}
			if x.Op == OBAnd && x.Y.IsConst() {
				return c.Bin(OBAnd, x.X, c.Const(w, x.Y.C&y.C))
			}
		case OBOr:
			if y.C == mask(w) {
				return y
			}
		case OShl, OLShr:
			if y.C >= uint64(w) {
				return c.Const(w, 0)
			}
			if op == OLShr && x.Op == OZExt {
				if y.C >= uint64(x.X.W) {
					return c.Const(w, 0)
				}
				return c.ZExt(c.Bin(OLShr, x.X, c.Const(x.X.W, y.C)), w)
			}
		}
	}
	if x == y {
		switch op {
		case OSub, OBXor:
			return c.Const(w, 0)
		case OBAnd, OBOr:
			return x
		}
	}
	if x.IsConst() && x.C == 0 {
		switch op {
		case OShl, OLShr, OAShr:
			return x
		}
	}
	return c.mk(op, w, 0, x, y, nil)
}

func (c *Ctx) Ult(x, y *Term) *Term {
	if x.IsConst() && y.IsConst() {
		return c.Bool(x.C < y.C)
	}
	if x == y {
		return c.False
	}
	if y.IsConst() {
		if y.C == 0 {
			return c.False
		}
		if x.Op == OZExt {
			if y.C > mask(x.X.W) {
				return c.True
			}
			return c.Ult(x.X, c.Const(x.X.W, y.C))
		}
	}
	if x.IsConst() {
		if x.C == mask(x.W) {
			return c.False
		}
		if y.Op == OZExt {
			if x.C >= mask(y.X.W) {
				return c.False
			}
			return c.Ult(c.Const(y.X.W, x.C), y.X)
		}
	}
	if x.Op == OZExt && y.Op == OZExt && x.X.W == y.X.W {
		return c.Ult(x.X, y.X)
	}
	return c.mk(OUlt, 0, 0, x, y, nil)
}

func (c *Ctx) Slt(x, y *Term) *Term {
	if x.IsConst() && y.IsConst() {
		return c.Bool(SignExt(x.C, x.W) < SignExt(y.C, y.W))
	}
	if x == y {
		return c.False
	}
	if x.Op == OZExt && x.X.W < x.W {
		if y.IsConst() {
			if SignExt(y.C, y.W) <= 0 {
				return c.False
			}
			return c.Ult(x, y)
		}
		if y.Op == OZExt && y.X.W < y.W {
			return c.Ult(x, y)
		}
	}
	if x.IsConst() && y.Op == OZExt && y.X.W < y.W {
		if SignExt(x.C, x.W) < 0 {
			return c.True
		}
		return c.Ult(x, y)
	}
	return c.mk(OSlt, 0, 0, x, y, nil)
}

func (c *Ctx) BNot(x *Term) *Term {
	if x.IsConst() {
		return c.Const(x.W, ^x.C)
	}
	if x.Op == OBNot {
		return x.X
	}
	return c.mk(OBNot, x.W, 0, x, nil, nil)
}

func (c *Ctx) Neg(x *Term) *Term {
	if x.IsConst() {
		return c.Const(x.W, -x.C)
	}
	return c.mk(ONeg, x.W, 0, x, nil, nil)
}

func (c *Ctx) ZExt(x *Term, w uint8) *Term {
	if x.W == w {
		return x
	}
	if x.IsConst() {
		return c.Const(w, x.C)
	}
	if x.Op == OZExt {
		return c.ZExt(x.X, w)
	}
	return c.mk(OZExt, w, 0, x, nil, nil)
}

func (c *Ctx) SExt(x *Term, w uint8) *Term {
	if x.W == w {
		return x
	}
	if x.IsConst() {
		return c.Const(w, uint64(SignExt(x.C, x.W)))
	}
	if x.Op == OZExt && x.X.W < x.W {
		return c.ZExt(x.X, w)
	}
	if x.Op == OSExt {
		return c.SExt(x.X, w)
	}
	return c.mk(OSExt, w, 0, x, nil, nil)
}

// Trunc keeps the low w bits.
func (c *Ctx) Trunc(x *Term, w uint8) *Term { return c.Extract(x, 0, w) }

func (c *Ctx) Extract(x *Term, lo, w uint8) *Term {
	if lo == 0 && w == x.W {
		return x
	}
	if x.IsConst() {
		return c.Const(w, x.C>>lo)
	}
	switch x.Op {
	case OZExt, OSExt:
		if lo == 0 && w <= x.X.W {
			return c.Extract(x.X, 0, w)
		}
		if lo+w <= x.X.W {
			return c.Extract(x.X, lo, w)
		}
		if x.Op == OZExt && lo == 0 {
			return c.ZExt(x.X, w)
		}
		if x.Op == OZExt && lo >= x.X.W {
			return c.Const(w, 0)
		}
	case OExtract:
		return c.Extract(x.X, uint8(x.C)+lo, w)
	case OIte:
		if x.Y.IsConst() || x.Z.IsConst() {
			return c.Ite(x.X, c.Extract(x.Y, lo, w), c.Extract(x.Z, lo, w))
		}
	case OBAnd, OBOr, OBXor:
		return c.Bin(x.Op, c.Extract(x.X, lo, w), c.Extract(x.Y, lo, w))
	case OAdd, OSub, OMul:
		if lo == 0 {
			return c.Bin(x.Op, c.Extract(x.X, 0, w), c.Extract(x.Y, 0, w))
		}
	case OShl:
		if x.Y.IsConst() {
			k := x.Y.C
			if uint64(lo) >= k {
				return c.Extract(x.X, lo-uint8(k), w)
			}
			if uint64(lo)+uint64(w) <= k {
				return c.Const(w, 0)
			}
		}
	case OLShr:
		if x.Y.IsConst() && uint64(lo)+uint64(w)+x.Y.C <= uint64(x.W) {
			return c.Extract(x.X, lo+uint8(x.Y.C), w)
		}
	}
	return c.mk(OExtract, w, uint64(lo), x, nil, nil)
}

// Dom is a set of values of a variable of width <= 8.
type Dom [4]uint64

func (d *Dom) Has(v uint64) bool { return d[v>>6]>>(v&63)&1 == 1 }
func (d *Dom) Add(v uint64)      { d[v>>6] |= 1 << (v & 63) }
func (d Dom) And(e *Dom) Dom {
	for i := range d {
		d[i] &= e[i]
	}
	return d
}
func (d Dom) AndNot(e *Dom) Dom {
	for i := range d {
		d[i] &^= e[i]
	}
	return d
}
func (d *Dom) Empty() bool { return d[0]|d[1]|d[2]|d[3] == 0 }
func (d *Dom) Count() int {
	n := 0
	for _, x := range d {
		n += bits.OnesCount64(x)
	}
	return n
}
func (d *Dom) First() uint64 {
	for i, x := range d {
		if x != 0 {
			return uint64(i*64 + bits.TrailingZeros64(x))
		}
	}
	return 0
}

func FullDom(w uint8) Dom {
	var d Dom
	n := uint64(1) << w
	if w == 0 {
		n = 2
	}
	for i := uint64(0); i < n; i++ {
		d.Add(i)
	}
	return d
}

// Table returns the set of values of t's only (small) variable making t true.
func (c *Ctx) Table(t *Term) *Dom {
	if d, ok := c.tt[t]; ok {
		return d
	}
	v := t.vars[0]
	d := &Dom{}
	n := uint64(1) << v.W
	if v.W == 0 {
		n = 2
	}
	var cell uint64
	get := func(*Term) uint64 { return cell }
	for cell = 0; cell < n; cell++ {
		if c.eval(t, get) == 1 {
			d.Add(cell)
		}
	}
	c.tt[t] = d
	return d
}

// Eval evaluates t under the assignment get.
func (c *Ctx) Eval(t *Term, get func(v *Term) uint64) uint64 { return c.eval(t, get) }

func (c *Ctx) eval(t *Term, get func(v *Term) uint64) uint64 {
	c.epoch++
	if len(c.memo) < int(c.n) {
		m := make([]uint64, int(c.n)*2+1024)
		c.memo = m
		c.memoE = make([]uint32, len(m))
		c.epoch = 1
	}
	return c.ev(t, get)
}

func (c *Ctx) ev(t *Term, get func(v *Term) uint64) uint64 {
	switch t.Op {
	case OConst:
		return t.C
	case OVar:
		return get(t)
	}
	if c.memoE[t.ID] == c.epoch {
		return c.memo[t.ID]
	}
	var r uint64
	switch t.Op {
	case ONot:
		r = 1 - c.ev(t.X, get)
	case OAnd:
		r = c.ev(t.X, get)
		if r == 1 {
			r = c.ev(t.Y, get)
		}
	case OOr:
		r = c.ev(t.X, get)
		if r == 0 {
			r = c.ev(t.Y, get)
		}
	case OEq:
		if c.ev(t.X, get) == c.ev(t.Y, get) {
			r = 1
		}
	case OIte:
		if c.ev(t.X, get) == 1 {
			r = c.ev(t.Y, get)
		} else {
			r = c.ev(t.Z, get)
		}
	case OUlt, OSlt:
		r = Fold(t.Op, t.X.W, c.ev(t.X, get), c.ev(t.Y, get))
	case OBNot:
		r = ^c.ev(t.X, get) & mask(t.W)
	case ONeg:
		r = -c.ev(t.X, get) & mask(t.W)
	case OZExt:
		r = c.ev(t.X, get)
	case OSExt:
		r = uint64(SignExt(c.ev(t.X, get), t.X.W)) & mask(t.W)
	case OExtract:
		r = c.ev(t.X, get) >> t.C & mask(t.W)
	default:
		r = Fold(t.Op, t.W, c.ev(t.X, get), c.ev(t.Y, get))
	}
	c.memoE[t.ID] = c.epoch
	c.memo[t.ID] = r
	return r
}
