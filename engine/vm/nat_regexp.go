package vm

import (
	"regexp"
	"regexp/syntax"

	"golang.org/x/tools/go/ssa"

	"verif/engine/sym"
)

// Regular expressions are compiled by the host; matching on symbolic bytes
// runs the compiled program: as a disjunction over all runs for a yes/no
// answer, as a leftmost-first backtracking search that branches on bytes for
// submatches.

type rex struct {
	re   *regexp.Regexp
	prog *syntax.Prog
}

func mkRex(expr string) (*Value, error) {
	re, err := regexp.Compile(expr)
	if err != nil {
		return nil, err
	}
	p, err := syntax.Parse(expr, syntax.Perl)
	if err != nil {
		return nil, err
	}
	prog, err := syntax.Compile(p.Simplify())
	if err != nil {
		return nil, err
	}
	c := new(Value)
	*c = &Opaque{Kind: "regexp", Data: &rex{re, prog}}
	return c, nil
}

func (fr *frame) rex(v Value) *rex {
	p, ok := v.(*Value)
	if !ok || p == nil {
		fr.nilDeref()
	}
	return (*p).(*Opaque).Data.(*rex)
}

// runeCond is the condition that byte b is in the instruction's class. Only
// classes that treat all bytes from 0x80 alike are decided bytewise.
func (w *Worker) runeCond(in *syntax.Inst, b SB) *sym.Term {
	var set [128]bool
	for i := range set {
		set[i] = in.MatchRune(rune(i))
	}
	hi, mixed := in.MatchRune(0xFFFD), false
	for _, r := range []rune{0x80, 0xFF, 0x100, 0x4E2D, 0x1F600} {
		if in.MatchRune(r) != hi {
			mixed = true
		}
	}
	if b.T == nil {
		if b.C < 0x80 {
			return w.ctx.Bool(set[b.C])
		}
		if mixed {
			panic(unsupported("regular expression on non-ASCII text"))
		}
		return w.ctx.Bool(hi)
	}
	if mixed && !w.asciiOnly(&SymStr{B: []SB{b}}) {
		panic(unsupported("regular expression on non-ASCII text"))
	}
	r := w.ctx.False
	in256 := func(i int) bool {
		if i < 128 {
			return set[i]
		}
		return hi && !mixed
	}
	for i := 0; i < 256; {
		if !in256(i) {
			i++
			continue
		}
		j := i
		for j < 256 && in256(j) {
			j++
		}
		c := w.ctx.True
		if i > 0 {
			c = w.ctx.Not(w.ctx.Ult(b.T, w.ctx.Const(8, uint64(i))))
		}
		if j < 256 {
			c = w.ctx.And(c, w.ctx.Ult(b.T, w.ctx.Const(8, uint64(j))))
		}
		r = w.ctx.Or(r, c)
		i = j
	}
	return r
}

func (w *Worker) emptyOK(in *syntax.Inst, b []SB, pos int) bool {
	op := syntax.EmptyOp(in.Arg)
	if op&(syntax.EmptyBeginText) != 0 && pos != 0 {
		return false
	}
	if op&(syntax.EmptyEndText) != 0 && pos != len(b) {
		return false
	}
	if op&^(syntax.EmptyBeginText|syntax.EmptyEndText) != 0 {
		panic(unsupported("regular expression with line or word boundaries"))
	}
	return true
}

// rexMatch is the condition that the text contains a match.
func (w *Worker) rexMatch(x *rex, b []SB) *sym.Term {
	conc := true
	for i := range b {
		if b[i].T != nil {
			conc = false
		}
	}
	if conc {
		bs := make([]byte, len(b))
		for i := range b {
			bs[i] = b[i].C
		}
		return w.ctx.Bool(x.re.Match(bs))
	}
	c := w.ctx
	n := len(x.prog.Inst)
	cur := make([]*sym.Term, n)
	res := c.False
	var add func(set []*sym.Term, pc int, t *sym.Term, pos int, depth int)
	add = func(set []*sym.Term, pc int, t *sym.Term, pos int, depth int) {
		if t.IsFalse() || depth > n+1 {
			return
		}
		in := &x.prog.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			add(set, int(in.Out), t, pos, depth+1)
			add(set, int(in.Arg), t, pos, depth+1)
		case syntax.InstCapture, syntax.InstNop:
			add(set, int(in.Out), t, pos, depth+1)
		case syntax.InstEmptyWidth:
			if w.emptyOK(in, b, pos) {
				add(set, int(in.Out), t, pos, depth+1)
			}
		case syntax.InstMatch:
			res = c.Or(res, t)
		case syntax.InstFail:
		default:
			if set[pc] == nil {
				set[pc] = t
			} else {
				set[pc] = c.Or(set[pc], t)
			}
		}
	}
	for pos := 0; pos <= len(b); pos++ {
		add(cur, x.prog.Start, c.True, pos, 0)
		if res.IsTrue() || pos == len(b) {
			break
		}
		next := make([]*sym.Term, n)
		for pc, t := range cur {
			if t == nil {
				continue
			}
			in := &x.prog.Inst[pc]
			add(next, int(in.Out), c.And(t, w.runeCond(in, b[pos])), pos+1, 0)
		}
		cur = next
	}
	return res
}

// rexFind is the leftmost-first match, branching on symbolic bytes.
func (fr *frame) rexFind(x *rex, v Value) []int {
	if s, ok := v.(string); ok {
		return x.re.FindStringSubmatchIndex(s)
	}
	w := fr.w
	b := strBytes(v)
	ncap := 2 * (x.re.NumSubexp() + 1)
	type key struct{ pc, pos int }
	caps := make([]int, ncap)
	for i := range caps {
		caps[i] = -1
	}
	seen := map[key]bool{}
	var try func(pc, pos int) bool
	try = func(pc, pos int) bool {
		k := key{pc, pos}
		if seen[k] {
			return false
		}
		seen[k] = true
		in := &x.prog.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			return try(int(in.Out), pos) || try(int(in.Arg), pos)
		case syntax.InstNop:
			return try(int(in.Out), pos)
		case syntax.InstCapture:
			if int(in.Arg) >= ncap {
				return try(int(in.Out), pos)
			}
			old := caps[in.Arg]
			caps[in.Arg] = pos
			if try(int(in.Out), pos) {
				return true
			}
			caps[in.Arg] = old
			return false
		case syntax.InstEmptyWidth:
			return w.emptyOK(in, b, pos) && try(int(in.Out), pos)
		case syntax.InstMatch:
			caps[1] = pos
			return true
		case syntax.InstFail:
			return false
		}
		if pos >= len(b) {
			return false
		}
		if !w.path.Branch(w.runeCond(in, b[pos])) {
			return false
		}
		return try(int(in.Out), pos+1)
	}
	for s := 0; s <= len(b); s++ {
		caps[0] = s
		if try(x.prog.Start, s) {
			return caps
		}
	}
	return nil
}

func intSlice(xs []int) Slice {
	if xs == nil {
		return nil
	}
	s := make(Slice, len(xs))
	for i, x := range xs {
		s[i] = intv(x)
	}
	return s
}

func init() {
	natPkgs["regexp"] = func(f *ssa.Function) natFn {
		name := f.String()
		return func(fr *frame, a []Value) Value { panic(unsupported("regexp: " + name)) }
	}
	natPkgs["regexp/syntax"] = func(f *ssa.Function) natFn {
		name := f.String()
		return func(fr *frame, a []Value) Value { panic(unsupported("regexp/syntax: " + name)) }
	}
	n("regexp.init", func(fr *frame, a []Value) Value { return nil })
	n("regexp/syntax.init", func(fr *frame, a []Value) Value { return nil })
	n("regexp.MustCompile", func(fr *frame, a []Value) Value {
		r, err := mkRex(fr.w.concStr(a[0]))
		if err != nil {
			fr.w.targetPanicf("regexp: Compile: %v", err)
		}
		return r
	})
	n("regexp.Compile", func(fr *frame, a []Value) Value {
		r, err := mkRex(fr.w.concStr(a[0]))
		if err != nil {
			return Tuple{(*Value)(nil), errIface(fr.w, err.Error())}
		}
		return Tuple{r, Iface{}}
	})
	n("regexp.QuoteMeta", func(fr *frame, a []Value) Value { return regexp.QuoteMeta(fr.w.concStr(a[0])) })
	n("(*regexp.Regexp).MatchString", func(fr *frame, a []Value) Value {
		return fr.w.mkBool(fr.w.rexMatch(fr.rex(a[0]), strBytes(a[1])))
	})
	n("(*regexp.Regexp).Match", func(fr *frame, a []Value) Value {
		return fr.w.mkBool(fr.w.rexMatch(fr.rex(a[0]), strBytes(sliceSB(a[1].(Slice)))))
	})
	n("regexp.MatchString", func(fr *frame, a []Value) Value {
		r, err := mkRex(fr.w.concStr(a[0]))
		if err != nil {
			return Tuple{false, errIface(fr.w, err.Error())}
		}
		return Tuple{fr.w.mkBool(fr.w.rexMatch(fr.rex(r), strBytes(a[1]))), Iface{}}
	})
	n("(*regexp.Regexp).String", func(fr *frame, a []Value) Value { return fr.rex(a[0]).re.String() })
	n("(*regexp.Regexp).NumSubexp", func(fr *frame, a []Value) Value { return intv(fr.rex(a[0]).re.NumSubexp()) })
	n("(*regexp.Regexp).SubexpNames", func(fr *frame, a []Value) Value {
		var s Slice
		for _, x := range fr.rex(a[0]).re.SubexpNames() {
			s = append(s, x)
		}
		return s
	})
	n("(*regexp.Regexp).FindStringSubmatchIndex", func(fr *frame, a []Value) Value { return intSlice(fr.rexFind(fr.rex(a[0]), a[1])) })
	n("(*regexp.Regexp).FindStringIndex", func(fr *frame, a []Value) Value {
		r := fr.rexFind(fr.rex(a[0]), a[1])
		if r == nil {
			return Slice(nil)
		}
		return intSlice(r[:2])
	})
	n("(*regexp.Regexp).FindStringSubmatch", func(fr *frame, a []Value) Value {
		r := fr.rexFind(fr.rex(a[0]), a[1])
		if r == nil {
			return Slice(nil)
		}
		s := make(Slice, len(r)/2)
		for i := range s {
			s[i] = ""
			if r[2*i] >= 0 {
				s[i] = strSlice(a[1], r[2*i], r[2*i+1])
			}
		}
		return s
	})
	n("(*regexp.Regexp).FindString", func(fr *frame, a []Value) Value {
		r := fr.rexFind(fr.rex(a[0]), a[1])
		if r == nil {
			return ""
		}
		return strSlice(a[1], r[0], r[1])
	})
	n("(*regexp.Regexp).ReplaceAllString", func(fr *frame, a []Value) Value {
		return fr.rex(a[0]).re.ReplaceAllString(fr.w.concStr(a[1]), fr.w.concStr(a[2]))
	})
	n("(*regexp.Regexp).ReplaceAllLiteralString", func(fr *frame, a []Value) Value {
		return fr.rex(a[0]).re.ReplaceAllLiteralString(fr.w.concStr(a[1]), fr.w.concStr(a[2]))
	})
	n("(*regexp.Regexp).FindAllStringIndex", func(fr *frame, a []Value) Value {
		var s Slice
		for _, p := range fr.rex(a[0]).re.FindAllStringIndex(fr.w.concStr(a[1]), int(fr.concInt(a[2]))) {
			s = append(s, intSlice(p))
		}
		return s
	})
	n("(*regexp.Regexp).FindAllString", func(fr *frame, a []Value) Value {
		var s Slice
		for _, p := range fr.rex(a[0]).re.FindAllString(fr.w.concStr(a[1]), int(fr.concInt(a[2]))) {
			s = append(s, p)
		}
		return s
	})
}
