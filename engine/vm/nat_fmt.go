package vm

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"verif/engine/sym"
)

// textOf calls Error or String on v when it has them.
func (fr *frame) textOf(v Iface) (Value, bool) {
	if v.T == nil {
		return nil, false
	}
	if o, ok := v.V.(*Opaque); ok {
		if h, ok := opaqueMethods[o.Kind+".Error"]; ok {
			return h(fr, []Value{o}), true
		}
		if h, ok := opaqueMethods[o.Kind+".String"]; ok {
			return h(fr, []Value{o}), true
		}
		return "", false
	}
	for _, name := range []string{"Error", "String"} {
		m := fr.w.method(v.T, nil, name)
		if m == nil || m.Signature.Params().Len() != 0 || m.Signature.Results().Len() != 1 || !isString(m.Signature.Results().At(0).Type()) {
			continue
		}
		if p, ok := v.V.(*Value); ok && p == nil {
			return "<nil>", true
		}
		return fr.w.callFn(fr, fr.g, m, []Value{v.V}, nil), true
	}
	return nil, false
}

func (fr *frame) quote(s Value) Value {
	if c, ok := s.(string); ok {
		return strconv.Quote(c)
	}
	return fr.callSSA(fr.w.prog.Func("strconv", "Quote"), s)
}

type fmtFlags struct {
	plus, sharp, minus, zero, space bool
	wid, prec                       int
	hasW, hasP                      bool
}

func (f fmtFlags) spec(verb byte) string {
	s := "%"
	if f.plus {
		s += "+"
	}
	if f.sharp {
		s += "#"
	}
	if f.minus {
		s += "-"
	}
	if f.zero {
		s += "0"
	}
	if f.space {
		s += " "
	}
	if f.hasW {
		s += strconv.Itoa(f.wid)
	}
	if f.hasP {
		s += "." + strconv.Itoa(f.prec)
	}
	return s + string(verb)
}

func (fr *frame) pad(s Value, f fmtFlags) Value {
	if !f.hasW {
		return s
	}
	k := f.wid - strLen(s)
	if k <= 0 {
		return s
	}
	sp := strings.Repeat(" ", k)
	if f.minus {
		return strCat(s, sp)
	}
	return strCat(sp, s)
}

func (fr *frame) fmtVal(verb byte, f fmtFlags, v Iface, depth int) Value {
	w := fr.w
	if depth > 12 {
		return "..."
	}
	if verb == 'T' {
		if v.T == nil {
			return "<nil>"
		}
		return w.typeString(v.T)
	}
	if v.T == nil {
		if verb == 'v' {
			return fr.pad("<nil>", f)
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if verb == 'p' {
		return "0xc000010000"
	}
	if o, ok := v.V.(*Opaque); ok && o.Kind == "rv" {
		r := o.Data.(*rval)
		return fr.fmtVal(verb, f, Iface{r.t, r.get()}, depth)
	}
	if verb == 's' || verb == 'v' || verb == 'q' || verb == 'x' || verb == 'X' {
		if !f.sharp {
			if s, ok := fr.textOf(v); ok {
				return fr.fmtStr(verb, f, s)
			}
		}
	}
	t := v.T.Underlying()
	switch t := t.(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsString != 0:
			if verb == 'v' && f.sharp {
				return fr.quote(v.V)
			}
			return fr.fmtStr(verb, f, v.V)
		case t.Info()&types.IsBoolean != 0:
			b, ok := v.V.(bool)
			if !ok {
				b = w.path.Branch(v.V.(*sym.Term))
			}
			if verb == 'v' || verb == 't' {
				return fr.pad(strconv.FormatBool(b), f)
			}
			return fmt.Sprintf("%!"+string(verb)+"(bool=%v)", b)
		case t.Info()&types.IsInteger != 0:
			ik, _ := intKind(t)
			if x, ok := v.V.(*sym.Term); ok {
				if (verb == 'd' || verb == 'v') && !f.hasW && !f.plus {
					return fr.fmtDec(x, ik.signed)
				}
				v.V = Int(w.path.Concretize(x))
			}
			x := v.V.(Int)
			if verb == 's' {
				return fmt.Sprintf("%%!s(%s=%d)", w.typeString(v.T), signedOf(x, ik))
			}
			if ik.signed {
				return fmt.Sprintf(f.spec(verb), sym.SignExt(uint64(x), ik.w))
			}
			return fmt.Sprintf(f.spec(verb), uint64(x))
		case t.Info()&types.IsFloat != 0:
			switch x := v.V.(type) {
			case float64:
				return fmt.Sprintf(f.spec(verb), x)
			case *FInt:
				return fmt.Sprintf(f.spec(verb), float64(int64(w.path.Concretize(x.T))))
			}
		}
	case *types.Slice, *types.Array:
		var el types.Type
		var xs []Value
		if s, ok := t.(*types.Slice); ok {
			el = s.Elem()
			xs = v.V.(Slice)
		} else {
			el = t.(*types.Array).Elem()
			xs = v.V.(Array)
		}
		if b, ok := el.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && verb != 'v' && verb != 'd' {
			return fr.fmtStr(verb, f, bytesToStr(xs))
		}
		var r Value = "["
		if f.sharp {
			r = w.typeString(v.T) + "{"
		}
		for i, x := range xs {
			if i > 0 {
				if f.sharp {
					r = strCat(r, ", ")
				} else {
					r = strCat(r, " ")
				}
			}
			r = strCat(r, fr.fmtVal(verb, f, w.mkIface(el, x), depth+1))
		}
		if f.sharp {
			return strCat(r, "}")
		}
		return strCat(r, "]")
	case *types.Map:
		m := v.V.(*Map)
		var r Value = "map["
		ents := fr.sortEntries(m, t.Key())
		for i, e := range ents {
			if i > 0 {
				r = strCat(r, " ")
			}
			r = strCat(r, fr.fmtVal(verb, f, w.mkIface(t.Key(), e.k), depth+1))
			r = strCat(r, ":")
			r = strCat(r, fr.fmtVal(verb, f, w.mkIface(t.Elem(), e.v), depth+1))
		}
		return strCat(r, "]")
	case *types.Struct:
		st, ok := v.V.(Struct)
		if !ok {
			return "{?}"
		}
		var r Value = "{"
		for i := range st {
			if i > 0 {
				r = strCat(r, " ")
			}
			if f.plus {
				r = strCat(r, t.Field(i).Name()+":")
			}
			ft := t.Field(i).Type()
			if !t.Field(i).Exported() {
				// methods are not called on unexported fields
				r = strCat(r, fr.fmtPlain(verb, f, ft, st[i], depth+1))
				continue
			}
			r = strCat(r, fr.fmtVal(verb, f, w.mkIface(ft, st[i]), depth+1))
		}
		return strCat(r, "}")
	case *types.Pointer:
		p, ok := v.V.(*Value)
		if ok && p == nil {
			return "<nil>"
		}
		if ok && depth == 0 {
			switch t.Elem().Underlying().(type) {
			case *types.Struct, *types.Map, *types.Slice, *types.Array:
				return strCat("&", fr.fmtVal(verb, f, w.mkIface(t.Elem(), *p), depth+1))
			}
		}
		return "0xc000010000"
	case *types.Signature, *types.Chan:
		return "0xc000010000"
	case *types.Interface:
		if i, ok := v.V.(Iface); ok {
			return fr.fmtVal(verb, f, i, depth)
		}
	}
	return "?"
}

func signedOf(x Int, k ikind) int64 {
	if k.signed {
		return sym.SignExt(uint64(x), k.w)
	}
	return int64(x)
}

func (fr *frame) fmtPlain(verb byte, f fmtFlags, t types.Type, v Value, depth int) Value {
	if i, ok := v.(Iface); ok {
		if i.T == nil {
			return "<nil>"
		}
		return fr.fmtPlain(verb, f, i.T, i.V, depth)
	}
	if _, ok := t.Underlying().(*types.Basic); ok {
		return fr.fmtVal(verb, f, Iface{t.Underlying(), v}, depth)
	}
	if p, ok := v.(*Value); ok {
		if p == nil {
			return "<nil>"
		}
		return "0xc000010000"
	}
	return fr.fmtVal(verb, f, fr.w.mkIface(t, v), depth)
}

// mkIface wraps v of static type t (interfaces are passed through).
func (w *Worker) mkIface(t types.Type, v Value) Iface {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return w.asIface(v)
	}
	return Iface{w.canon(t), v}
}

func (fr *frame) fmtStr(verb byte, f fmtFlags, s Value) Value {
	if f.hasP && strLen(s) > f.prec {
		s = strSlice(s, 0, f.prec)
	}
	switch verb {
	case 'q':
		return fr.pad(fr.quote(s), f)
	case 'x', 'X':
		return fmt.Sprintf("%"+string(verb), fr.w.concStr(s))
	case 's', 'v':
		return fr.pad(s, f)
	case 'd', 't':
		return strCat(strCat("%!"+string(verb)+"(string=", s), ")")
	}
	return s
}

func (w *Worker) typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// sortEntries orders map entries by key, branching when keys are symbolic.
func (fr *frame) sortEntries(m *Map, kt types.Type) []*mapEntry {
	ents := m.liveEntries()
	w := fr.w
	less := func(a, b Value) bool {
		if i, ok := a.(Iface); ok {
			a = i.V
			b = b.(Iface).V
		}
		switch x := a.(type) {
		case string, *SymStr:
			switch b.(type) {
			case string, *SymStr:
				r := w.strLess(x, b)
				if c, ok := r.(bool); ok {
					return c
				}
				return w.path.Branch(r.(*sym.Term))
			}
			return false
		case Int:
			if y, ok := b.(Int); ok {
				if k, ok := intKind(kt); ok && k.signed {
					return sym.SignExt(uint64(x), k.w) < sym.SignExt(uint64(y), k.w)
				}
				return x < y
			}
		}
		return false
	}
	// insertion sort keeps the number of symbolic comparisons predictable
	conc := true
	for _, e := range ents {
		k := e.k
		if i, ok := k.(Iface); ok {
			k = i.V
		}
		switch k.(type) {
		case *SymStr, *sym.Term:
			conc = false
		}
	}
	if conc {
		sort.SliceStable(ents, func(i, j int) bool { return less(ents[i].k, ents[j].k) })
		return ents
	}
	for i := 1; i < len(ents); i++ {
		for j := i; j > 0 && less(ents[j].k, ents[j-1].k); j-- {
			ents[j], ents[j-1] = ents[j-1], ents[j]
		}
	}
	return ents
}

// sprintf renders a format; wrapped collects %w operands.
func (fr *frame) sprintf(format Value, args Slice, wrapped *[]Iface) Value {
	fs := fr.w.concStr(format)
	var out Value = ""
	ai := 0
	next := func() (Iface, bool) {
		if ai >= len(args) {
			return Iface{}, false
		}
		v := fr.w.asIface(args[ai])
		ai++
		return v, true
	}
	for i := 0; i < len(fs); {
		j := strings.IndexByte(fs[i:], '%')
		if j < 0 {
			out = strCat(out, fs[i:])
			break
		}
		out = strCat(out, fs[i:i+j])
		i += j + 1
		var f fmtFlags
	flags:
		for i < len(fs) {
			switch fs[i] {
			case '+':
				f.plus = true
			case '#':
				f.sharp = true
			case '-':
				f.minus = true
			case '0':
				f.zero = true
			case ' ':
				f.space = true
			default:
				break flags
			}
			i++
		}
		num := func() (int, bool) {
			if i < len(fs) && fs[i] == '*' {
				i++
				v, _ := next()
				return int(fr.concInt(v.V)), true
			}
			st := i
			for i < len(fs) && fs[i] >= '0' && fs[i] <= '9' {
				i++
			}
			k, err := strconv.Atoi(fs[st:i])
			return k, err == nil
		}
		f.wid, f.hasW = num()
		if i < len(fs) && fs[i] == '.' {
			i++
			f.prec, _ = num()
			f.hasP = true
		}
		if i >= len(fs) {
			out = strCat(out, "%!(NOVERB)")
			break
		}
		verb := fs[i]
		i++
		if verb == '%' {
			out = strCat(out, "%")
			continue
		}
		v, ok := next()
		if !ok {
			out = strCat(out, "%!"+string(verb)+"(MISSING)")
			continue
		}
		if verb == 'w' {
			if wrapped != nil {
				*wrapped = append(*wrapped, v)
			}
			verb = 'v'
		}
		out = strCat(out, fr.fmtVal(verb, f, v, 0))
	}
	if ai < len(args) {
		out = strCat(out, "%!(EXTRA ")
		for k := ai; k < len(args); k++ {
			if k > ai {
				out = strCat(out, ", ")
			}
			v := fr.w.asIface(args[k])
			if v.T == nil {
				out = strCat(out, "<nil>")
				continue
			}
			out = strCat(out, fr.w.typeString(v.T)+"=")
			out = strCat(out, fr.fmtVal('v', fmtFlags{}, v, 0))
		}
		out = strCat(out, ")")
	}
	return out
}

func isStrIface(v Iface) bool {
	if v.T == nil {
		return false
	}
	return isString(v.T)
}

func (fr *frame) sprint(args Slice, ln bool) Value {
	var out Value = ""
	prevStr := false
	for i, a := range args {
		v := fr.w.asIface(a)
		s := isStrIface(v)
		if i > 0 && (ln || !s && !prevStr) {
			out = strCat(out, " ")
		}
		out = strCat(out, fr.fmtVal('v', fmtFlags{}, v, 0))
		prevStr = s
	}
	if ln {
		out = strCat(out, "\n")
	}
	return out
}

func (fr *frame) writeTo(w Iface, s Value) Value {
	if w.T == nil {
		fr.nilDeref()
	}
	return fr.invoke(w, nil, "Write", strToBytes(s))
}

func init() {
	n("fmt.Sprintf", func(fr *frame, a []Value) Value { return fr.sprintf(a[0], a[1].(Slice), nil) })
	n("fmt.Sprint", func(fr *frame, a []Value) Value { return fr.sprint(a[0].(Slice), false) })
	n("fmt.Sprintln", func(fr *frame, a []Value) Value { return fr.sprint(a[0].(Slice), true) })
	n("fmt.Fprintf", func(fr *frame, a []Value) Value { return fr.writeTo(a[0].(Iface), fr.sprintf(a[1], a[2].(Slice), nil)) })
	n("fmt.Fprint", func(fr *frame, a []Value) Value { return fr.writeTo(a[0].(Iface), fr.sprint(a[1].(Slice), false)) })
	n("fmt.Fprintln", func(fr *frame, a []Value) Value { return fr.writeTo(a[0].(Iface), fr.sprint(a[1].(Slice), true)) })
	n("fmt.Appendf", func(fr *frame, a []Value) Value {
		return fr.w.appendSlice(a[0].(Slice), strToBytes(fr.sprintf(a[1], a[2].(Slice), nil)))
	})
	n("fmt.Errorf", func(fr *frame, a []Value) Value {
		w := fr.w
		var wr []Iface
		s := fr.sprintf(a[0], a[1].(Slice), &wr)
		p := new(Value)
		if len(wr) == 1 {
			*p = Struct{s, wr[0]}
			return Iface{w.canon(types.NewPointer(w.prog.Type("fmt", "wrapError"))), p}
		}
		if len(wr) > 1 {
			es := make(Slice, len(wr))
			for i := range wr {
				es[i] = wr[i]
			}
			*p = Struct{s, es}
			return Iface{w.canon(types.NewPointer(w.prog.Type("fmt", "wrapErrors"))), p}
		}
		return errIface(w, s)
	})
	n("(*os.File).Write", func(fr *frame, a []Value) Value { return Tuple{intv(len(a[1].(Slice))), Iface{}} })
	n("(*os.File).WriteString", func(fr *frame, a []Value) Value { return Tuple{intv(strLen(a[1])), Iface{}} })
}
