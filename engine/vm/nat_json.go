package vm

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"

	"verif/engine/sym"
)

// encoding/json and the forks Kubernetes uses, over symbolic text: values are
// encoded by walking their types, text is parsed byte by byte with branches on
// symbolic bytes, and user-written (Un)MarshalJSON methods run symbolically.

type jfield struct {
	name      string
	path      []int
	t         types.Type
	omitEmpty bool
	quoted    bool
	tagged    bool
}

func jfieldsOf(w *Worker, t types.Type) []jfield {
	if w.jfields == nil {
		w.jfields = map[types.Type][]jfield{}
	}
	if f, ok := w.jfields[t]; ok {
		return f
	}
	type lvl struct {
		t    types.Type
		path []int
	}
	next := []lvl{{t: t}}
	visited := map[types.Type]bool{}
	var fields []jfield
	var count, nextCount map[types.Type]int
	for len(next) > 0 {
		cur := next
		next = nil
		count, nextCount = nextCount, map[types.Type]int{}
		for _, f := range cur {
			if visited[f.t] {
				continue
			}
			visited[f.t] = true
			st := f.t.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				sf := st.Field(i)
				ft := sf.Type()
				if sf.Embedded() {
					u := ft
					if p, ok := u.Underlying().(*types.Pointer); ok {
						u = p.Elem()
					}
					if _, isS := u.Underlying().(*types.Struct); !sf.Exported() && !isS {
						continue
					}
				} else if !sf.Exported() {
					continue
				}
				tag := reflect.StructTag(st.Tag(i)).Get("json")
				if tag == "-" {
					continue
				}
				name, opts, _ := strings.Cut(tag, ",")
				if !validJSONTag(name) {
					name = ""
				}
				path := append(append([]int{}, f.path...), i)
				bt := types.Unalias(ft)
				if _, named := bt.(*types.Named); !named {
					if p, ok := bt.(*types.Pointer); ok {
						bt = p.Elem()
					}
				}
				bt = w.canon(bt)
				has := func(o string) bool {
					for _, x := range strings.Split(opts, ",") {
						if x == o {
							return true
						}
					}
					return false
				}
				_, isStruct := bt.Underlying().(*types.Struct)
				if name != "" || !sf.Embedded() || !isStruct {
					tagged := name != ""
					if name == "" {
						name = sf.Name()
					}
					jf := jfield{name: name, path: path, t: w.canon(ft), omitEmpty: has("omitempty"), tagged: tagged}
					if has("string") {
						if b, ok := bt.Underlying().(*types.Basic); ok && b.Info()&(types.IsBoolean|types.IsNumeric|types.IsString) != 0 {
							jf.quoted = true
						}
					}
					fields = append(fields, jf)
					if count[f.t] > 1 {
						fields = append(fields, jf)
					}
					continue
				}
				nextCount[bt]++
				if nextCount[bt] == 1 {
					next = append(next, lvl{t: bt, path: path})
				}
			}
		}
	}
	sort.SliceStable(fields, func(i, j int) bool {
		a, b := fields[i], fields[j]
		if a.name != b.name {
			return a.name < b.name
		}
		if len(a.path) != len(b.path) {
			return len(a.path) < len(b.path)
		}
		if a.tagged != b.tagged {
			return a.tagged
		}
		return pathLess(a.path, b.path)
	})
	var out []jfield
	for i := 0; i < len(fields); {
		j := i
		for j < len(fields) && fields[j].name == fields[i].name {
			j++
		}
		if j == i+1 || len(fields[i].path) != len(fields[i+1].path) || fields[i].tagged != fields[i+1].tagged {
			out = append(out, fields[i])
		}
		i = j
	}
	sort.Slice(out, func(i, j int) bool { return pathLess(out[i].path, out[j].path) })
	w.jfields[t] = out
	return out
}

func pathLess(a, b []int) bool {
	for i := range a {
		if i >= len(b) {
			return false
		}
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

func validJSONTag(s string) bool {
	if s == "" {
		return false
	}
	for _, c := range s {
		switch {
		case strings.ContainsRune("!#$%&()*+-./:;<=>?@[]^_{|}~ ", c):
		case !unicode.IsLetter(c) && !unicode.IsDigit(c):
			return false
		}
	}
	return true
}

// ---- encoding ----

type jerr struct{ v Value }

func (fr *frame) jfail(pkg, typ string, fields Struct, msg string) {
	var e Value
	if t := fr.w.prog.TypeOrNil(pkg, typ); t != nil && fields != nil {
		p := new(Value)
		*p = fields
		e = Iface{fr.w.canon(types.NewPointer(t)), p}
	} else {
		e = errIface(fr.w, msg)
	}
	panic(jerr{e})
}

type jenc struct {
	fr   *frame
	out  []SB
	html bool
}

func (e *jenc) str(s string) {
	for i := 0; i < len(s); i++ {
		e.out = append(e.out, SB{C: s[i]})
	}
}

const jhex = "0123456789abcdef"

func (e *jenc) concretize(b SB) byte { return e.fr.concByte(b) }

func (e *jenc) quote(v Value) {
	w := e.fr.w
	c := w.ctx
	b := strBytes(v)
	e.str(`"`)
	safe := func(x byte) bool {
		return x >= 0x20 && x < 0x80 && x != '"' && x != '\\' && !(e.html && (x == '<' || x == '>' || x == '&'))
	}
	for i := 0; i < len(b); i++ {
		x := b[i]
		if x.T != nil {
			ok := c.And(c.Not(c.Ult(x.T, c.Const(8, 0x20))), c.Ult(x.T, c.Const(8, 0x80)))
			bad := "\"\\"
			if e.html {
				bad += "<>&"
			}
			for j := 0; j < len(bad); j++ {
				ok = c.And(ok, c.Not(c.Eq(x.T, c.Const(8, uint64(bad[j])))))
			}
			if w.path.Branch(ok) {
				e.out = append(e.out, x)
				continue
			}
			x = SB{C: e.concretize(x)}
		}
		if safe(x.C) {
			e.out = append(e.out, x)
			continue
		}
		if x.C < 0x80 {
			switch x.C {
			case '\\', '"':
				e.str("\\" + string(rune(x.C)))
			case '\b':
				e.str(`\b`)
			case '\f':
				e.str(`\f`)
			case '\n':
				e.str(`\n`)
			case '\r':
				e.str(`\r`)
			case '\t':
				e.str(`\t`)
			default:
				e.str(`\u00` + string(jhex[x.C>>4]) + string(jhex[x.C&15]))
			}
			continue
		}
		buf := []byte{x.C}
		for k := 1; k < utf8.UTFMax && i+k < len(b) && !utf8.FullRune(buf); k++ {
			buf = append(buf, e.concretize(b[i+k]))
		}
		r, n := utf8.DecodeRune(buf)
		switch {
		case r == utf8.RuneError && n == 1:
			e.str(`\ufffd`)
		case r == '\u2028' || r == '\u2029':
			e.str(`\u202` + string(jhex[r&15]))
			i += n - 1
		default:
			e.str(string(buf[:n]))
			i += n - 1
		}
	}
	e.str(`"`)
}

func (w *Worker) jiface(pkg, name string) *types.Interface {
	return w.prog.Type(pkg, name).Underlying().(*types.Interface)
}

func tupleErr(v Value) (Value, Iface) {
	t := v.(Tuple)
	e, _ := t[1].(Iface)
	return t[0], e
}

// value encodes v of type t; p is its address when it has one.
func (e *jenc) value(t types.Type, v Value, p *Value, quoted bool) {
	fr := e.fr
	w := fr.w
	_, isPtr := t.Underlying().(*types.Pointer)
	_, isIf := t.Underlying().(*types.Interface)
	if !isIf {
		mj := w.jiface("encoding/json", "Marshaler")
		mt := w.jiface("encoding", "TextMarshaler")
		pt := t
		if !isPtr {
			pt = w.canon(types.NewPointer(t))
		}
		for k, it := range []*types.Interface{mj, mt} {
			name := []string{"MarshalJSON", "MarshalText"}[k]
			var res Value
			switch {
			case !isPtr && p != nil && w.implements(pt, it):
				res = fr.invoke(Iface{pt, p}, nil, name)
			case w.implements(t, it):
				if isPtr && v.(*Value) == nil {
					e.str("null")
					return
				}
				res = fr.invoke(Iface{t, v}, nil, name)
			default:
				continue
			}
			b, err := tupleErr(res)
			if err.T != nil {
				panic(jerr{Iface{w.canon(types.NewPointer(w.prog.Type("encoding/json", "MarshalerError"))), func() *Value {
					c := new(Value)
					*c = Struct{w.rtype(t), err, name}
					return c
				}()}})
			}
			if k == 1 {
				e.quote(sliceSB(b.(Slice)))
			} else {
				e.compact(strBytes(sliceSB(b.(Slice))))
			}
			return
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if quoted && u.Info()&types.IsString == 0 {
			e.str(`"`)
			defer e.str(`"`)
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			if e.fr.branchVal(v) {
				e.str("true")
			} else {
				e.str("false")
			}
		case u.Info()&types.IsInteger != 0:
			k, _ := intKind(t)
			if x, ok := v.(Int); ok {
				if k.signed {
					e.str(strconv.FormatInt(signedOf(x, k), 10))
				} else {
					e.str(strconv.FormatUint(uint64(x)&sym.Mask(k.w), 10))
				}
			} else {
				e.out = append(e.out, strBytes(fr.fmtDec(v.(*sym.Term), k.signed))...)
			}
		case u.Info()&types.IsFloat != 0:
			f, ok := v.(float64)
			if fi, isF := v.(*FInt); isF {
				// integers below 1e21 print without exponent
				e.out = append(e.out, strBytes(fr.fmtDec(fi.T, true))...)
				return
			}
			if !ok {
				panic(unsupported("json: symbolic float"))
			}
			if math.IsInf(f, 0) || math.IsNaN(f) {
				fr.jfail("encoding/json", "UnsupportedValueError", Struct{mkRV(t, v), strconv.FormatFloat(f, 'g', -1, 64)}, "json: unsupported value")
			}
			var b []byte
			if u.Kind() == types.Float32 {
				b, _ = json.Marshal(float32(f))
			} else {
				b, _ = json.Marshal(f)
			}
			e.str(string(b))
		case u.Info()&types.IsString != 0:
			if t == w.prog.Type("encoding/json", "Number") {
				s := v
				if w.concBool(w.strEq(s, "")) {
					s = "0"
				}
				e.out = append(e.out, strBytes(s)...)
				return
			}
			if quoted {
				in := &jenc{fr: fr, html: e.html}
				in.quote(v)
				e.quote(mkStr(in.out))
				return
			}
			e.quote(v)
		default:
			fr.jfail("encoding/json", "UnsupportedTypeError", Struct{w.rtype(t)}, "json: unsupported type: "+t.String())
		}
	case *types.Interface:
		i := v.(Iface)
		if i.T == nil {
			e.str("null")
			return
		}
		e.value(i.T, i.V, nil, false)
	case *types.Pointer:
		pv, ok := v.(*Value)
		if !ok {
			panic(unsupported(fmt.Sprintf("json: pointer %T", v)))
		}
		if pv == nil {
			e.str("null")
			return
		}
		e.value(w.canon(u.Elem()), *pv, pv, quoted)
	case *types.Struct:
		st := v.(Struct)
		first := true
		e.str("{")
	fields:
		for _, f := range jfieldsOf(w, t) {
			cur, cp := Value(st), p
			ct := t
			for _, i := range f.path {
				if pt, ok := ct.Underlying().(*types.Pointer); ok {
					pv := cur.(*Value)
					if pv == nil {
						continue fields
					}
					cur, cp = *pv, pv
					ct = pt.Elem()
				}
				s := cur.(Struct)
				cur = s[i]
				if cp != nil {
					cp = &s[i]
				}
				ct = ct.Underlying().(*types.Struct).Field(i).Type()
			}
			if f.omitEmpty && e.empty(f.t, cur) {
				continue
			}
			if !first {
				e.str(",")
			}
			first = false
			e.quote(f.name)
			e.str(":")
			e.value(f.t, cur, cp, f.quoted)
		}
		e.str("}")
	case *types.Map:
		m, _ := v.(*Map)
		if m == nil {
			e.str("null")
			return
		}
		kt := w.canon(u.Key())
		ktm := w.implements(kt, w.jiface("encoding", "TextMarshaler"))
		if !isString(kt) && !ktm {
			if _, ok := intKind(kt); !ok {
				fr.jfail("encoding/json", "UnsupportedTypeError", Struct{w.rtype(t)}, "json: unsupported type: "+t.String())
			}
		}
		type kv struct{ k, v Value }
		var ents []kv
		for _, x := range m.liveEntries() {
			k := x.k
			switch {
			case isString(kt):
			case ktm:
				b, err := tupleErr(fr.invoke(w.mkIface(kt, k), nil, "MarshalText"))
				if err.T != nil {
					panic(jerr{err})
				}
				k = sliceSB(b.(Slice))
			default:
				ik, _ := intKind(kt)
				n, ok := k.(Int)
				if !ok {
					panic(unsupported("json: symbolic map key"))
				}
				if ik.signed {
					k = strconv.FormatInt(signedOf(n, ik), 10)
				} else {
					k = strconv.FormatUint(uint64(n), 10)
				}
			}
			ents = append(ents, kv{k, x.v})
		}
		// insertion sort; comparisons on symbolic keys branch
		for i := 1; i < len(ents); i++ {
			for j := i; j > 0 && w.concBool(w.strLess(ents[j].k, ents[j-1].k)); j-- {
				ents[j], ents[j-1] = ents[j-1], ents[j]
			}
		}
		e.str("{")
		for i, x := range ents {
			if i > 0 {
				e.str(",")
			}
			e.quote(x.k)
			e.str(":")
			e.value(w.canon(u.Elem()), x.v, nil, false)
		}
		e.str("}")
	case *types.Slice:
		s := v.(Slice)
		if s == nil {
			e.str("null")
			return
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			pe := types.NewPointer(u.Elem())
			if !w.implements(pe, w.jiface("encoding/json", "Marshaler")) && !w.implements(pe, w.jiface("encoding", "TextMarshaler")) {
				e.str(`"`)
				e.out = append(e.out, w.b64enc(strBytes(sliceSB(s)), stdB64, '=')...)
				e.str(`"`)
				return
			}
		}
		e.str("[")
		for i := range s {
			if i > 0 {
				e.str(",")
			}
			e.value(w.canon(u.Elem()), s[i], &s[i], false)
		}
		e.str("]")
	case *types.Array:
		s := v.(Array)
		e.str("[")
		for i := range s {
			if i > 0 {
				e.str(",")
			}
			var ep *Value
			if p != nil {
				ep = &s[i]
			}
			e.value(w.canon(u.Elem()), s[i], ep, false)
		}
		e.str("]")
	default:
		fr.jfail("encoding/json", "UnsupportedTypeError", Struct{w.rtype(t)}, "json: unsupported type: "+t.String())
	}
}

func (fr *frame) branchVal(v Value) bool { return fr.w.concBool(v) }

func (w *Worker) concBool(v Value) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *sym.Term:
		return w.path.Branch(x)
	}
	panic(unsupported(fmt.Sprintf("boolean %T", v)))
}

func (e *jenc) empty(t types.Type, v Value) bool {
	w := e.fr.w
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return strLen(v) == 0
		case u.Info()&types.IsBoolean != 0:
			return !w.concBool(v)
		case u.Info()&types.IsInteger != 0:
			if x, ok := v.(Int); ok {
				k, _ := intKind(t)
				return uint64(x)&sym.Mask(k.w) == 0
			}
			x := v.(*sym.Term)
			return w.path.Branch(w.ctx.Eq(x, w.ctx.Const(x.W, 0)))
		case u.Info()&types.IsFloat != 0:
			if x, ok := v.(float64); ok {
				return x == 0
			}
			x := v.(*FInt).T
			return w.path.Branch(w.ctx.Eq(x, w.ctx.Const(x.W, 0)))
		}
	case *types.Slice:
		return len(v.(Slice)) == 0
	case *types.Array:
		return len(v.(Array)) == 0
	case *types.Map:
		m, _ := v.(*Map)
		return m == nil || m.len() == 0
	case *types.Pointer:
		return v.(*Value) == nil
	case *types.Interface:
		return v.(Iface).T == nil
	}
	return false
}

// compact re-emits the text a MarshalJSON method returned.
func (e *jenc) compact(b []SB) {
	ps := &jparse{fr: e.fr, b: b}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(jsyntax); ok {
					e.fr.jfail("", "", nil, "json: error calling MarshalJSON: invalid JSON")
				}
				panic(r)
			}
		}()
		ps.top()
	}()
	w := e.fr.w
	inStr := false
	for i := 0; i < len(b); i++ {
		x := b[i]
		is := func(c byte) bool {
			if x.T == nil {
				return x.C == c
			}
			return w.path.Branch(w.ctx.Eq(x.T, w.ctx.Const(8, uint64(c))))
		}
		if inStr {
			if e.html && (is('<') || is('>') || is('&')) {
				c := e.concretize(x)
				e.str(`\u00` + string(jhex[c>>4]) + string(jhex[c&15]))
				continue
			}
			e.out = append(e.out, x)
			if is('\\') {
				i++
				e.out = append(e.out, b[i])
			} else if is('"') {
				inStr = false
			}
			continue
		}
		if ps.digit[i] {
			e.out = append(e.out, x)
			continue
		}
		if is(' ') || is('\t') || is('\n') || is('\r') {
			continue
		}
		e.out = append(e.out, x)
		if is('"') {
			inStr = true
		}
	}
}

// ---- base64 ----

const stdB64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"

func (w *Worker) b64enc(b []SB, alpha string, pad rune) []SB {
	conc := true
	for i := range b {
		if b[i].T != nil {
			conc = false
		}
	}
	var out []SB
	if conc {
		src := make([]byte, len(b))
		for i := range b {
			src[i] = b[i].C
		}
		enc := base64.NewEncoding(alpha).WithPadding(pad)
		for _, c := range []byte(enc.EncodeToString(src)) {
			out = append(out, SB{C: c})
		}
		return out
	}
	c := w.ctx
	emit := func(six *sym.Term) { // 8 bit wide, below 64
		if six.IsConst() {
			out = append(out, SB{C: alpha[six.C]})
			return
		}
		cells := make([]Value, 64)
		for i := range cells {
			cells[i] = Int(alpha[i])
		}
		v := w.b64char(six, alpha)
		out = append(out, SB{T: v})
	}
	for i := 0; i < len(b); i += 3 {
		x := w.term(b[i])
		emit(c.Bin(sym.OLShr, x, c.Const(8, 2)))
		hi := c.Bin(sym.OShl, c.Bin(sym.OBAnd, x, c.Const(8, 3)), c.Const(8, 4))
		if i+1 >= len(b) {
			emit(hi)
			if pad >= 0 {
				out = append(out, SB{C: byte(pad)}, SB{C: byte(pad)})
			}
			break
		}
		y := w.term(b[i+1])
		emit(c.Bin(sym.OBOr, hi, c.Bin(sym.OLShr, y, c.Const(8, 4))))
		mid := c.Bin(sym.OShl, c.Bin(sym.OBAnd, y, c.Const(8, 15)), c.Const(8, 2))
		if i+2 >= len(b) {
			emit(mid)
			if pad >= 0 {
				out = append(out, SB{C: byte(pad)})
			}
			break
		}
		z := w.term(b[i+2])
		emit(c.Bin(sym.OBOr, mid, c.Bin(sym.OLShr, z, c.Const(8, 6))))
		emit(c.Bin(sym.OBAnd, z, c.Const(8, 63)))
	}
	return out
}

// b64char is alpha[six] as arithmetic on ranges of the alphabet.
func (w *Worker) b64char(six *sym.Term, alpha string) *sym.Term {
	c := w.ctx
	var r *sym.Term
	for i := len(alpha); i > 0; {
		j := i - 1
		for j > 0 && alpha[j-1]+1 == alpha[j] {
			j--
		}
		v := c.Bin(sym.OAdd, six, c.Const(8, uint64(alpha[j]-byte(j))))
		if r == nil {
			r = v
		} else {
			r = c.Ite(c.Ult(six, c.Const(8, uint64(i))), v, r)
		}
		i = j
	}
	w.b64src[r] = six
	return r
}

// b64dec undoes b64enc for unpadded text; ok=false when it does not apply.
func (w *Worker) b64dec(b []SB, dec *[256]byte) (out []SB, bad int, ok bool) {
	c := w.ctx
	var six []*sym.Term
	for i, x := range b {
		if x.T == nil {
			if x.C == '\n' || x.C == '\r' {
				continue
			}
			if dec[x.C] == 0xFF {
				return nil, i, true
			}
			six = append(six, c.Const(8, uint64(dec[x.C])))
			continue
		}
		if s, found := w.b64src[x.T]; found {
			six = append(six, s)
			continue
		}
		return nil, 0, false
	}
	if len(six)%4 == 1 {
		return nil, len(b), true
	}
	get := func(t *sym.Term) SB {
		if t.IsConst() {
			return SB{C: byte(t.C)}
		}
		return SB{T: t}
	}
	for i := 0; i < len(six); i += 4 {
		a, d := six[i], six[i+1]
		out = append(out, get(c.Bin(sym.OBOr, c.Bin(sym.OShl, a, c.Const(8, 2)), c.Bin(sym.OLShr, d, c.Const(8, 4)))))
		if i+2 >= len(six) {
			break
		}
		e := six[i+2]
		out = append(out, get(c.Bin(sym.OBOr, c.Bin(sym.OShl, d, c.Const(8, 4)), c.Bin(sym.OLShr, e, c.Const(8, 2)))))
		if i+3 >= len(six) {
			break
		}
		out = append(out, get(c.Bin(sym.OBOr, c.Bin(sym.OShl, e, c.Const(8, 6)), six[i+3])))
	}
	return out, -1, true
}

// ---- parsing ----

type jnode struct {
	kind byte // n b # " [ {
	b    bool
	num  []SB
	str  Value
	arr  []*jnode
	keys []Value
	raw  []SB
}

type jsyntax struct{ msg string }

type jparse struct {
	fr    *frame
	b     []SB
	i     int
	digit map[int]bool
	deep  int
}

func (p *jparse) is(c byte) bool {
	if p.i >= len(p.b) {
		return false
	}
	x := p.b[p.i]
	if x.T == nil {
		return x.C == c
	}
	return p.fr.w.path.Branch(p.fr.w.ctx.Eq(x.T, p.fr.w.ctx.Const(8, uint64(c))))
}

func (p *jparse) fail() {
	if p.i >= len(p.b) {
		panic(jsyntax{"unexpected end of JSON input"})
	}
	panic(jsyntax{"invalid character in JSON input"})
}

func (p *jparse) ws() {
	for p.i < len(p.b) && (p.is(' ') || p.is('\n') || p.is('\t') || p.is('\r')) {
		p.i++
	}
}

func (p *jparse) isDigit() bool {
	if p.i >= len(p.b) {
		return false
	}
	x := p.b[p.i]
	if x.T == nil {
		return x.C >= '0' && x.C <= '9'
	}
	c := p.fr.w.ctx
	return p.fr.w.path.Branch(c.And(c.Not(c.Ult(x.T, c.Const(8, '0'))), c.Ult(x.T, c.Const(8, '9'+1))))
}

func (p *jparse) top() *jnode {
	p.digit = map[int]bool{}
	p.ws()
	n := p.value()
	p.ws()
	if p.i < len(p.b) {
		panic(jsyntax{"invalid character after top-level value"})
	}
	return n
}

func (p *jparse) word(s string) {
	for k := 0; k < len(s); k++ {
		if !p.is(s[k]) {
			p.fail()
		}
		p.i++
	}
}

func (p *jparse) value() *jnode {
	st := p.i
	n := &jnode{}
	p.deep++
	if p.deep > 10000 {
		panic(jsyntax{"exceeded max depth"})
	}
	defer func() { p.deep-- }()
	switch {
	case p.i >= len(p.b):
		p.fail()
	case p.is('{'):
		n.kind = '{'
		p.i++
		p.ws()
		if p.is('}') {
			p.i++
			break
		}
		for {
			p.ws()
			if !p.is('"') {
				p.fail()
			}
			k := p.str()
			p.ws()
			if !p.is(':') {
				p.fail()
			}
			p.i++
			p.ws()
			n.keys = append(n.keys, k)
			n.arr = append(n.arr, p.value())
			p.ws()
			if p.is(',') {
				p.i++
				continue
			}
			if p.is('}') {
				p.i++
				break
			}
			p.fail()
		}
	case p.is('['):
		n.kind = '['
		p.i++
		p.ws()
		if p.is(']') {
			p.i++
			break
		}
		for {
			p.ws()
			n.arr = append(n.arr, p.value())
			p.ws()
			if p.is(',') {
				p.i++
				continue
			}
			if p.is(']') {
				p.i++
				break
			}
			p.fail()
		}
	case p.is('"'):
		n.kind = '"'
		n.str = p.str()
	case p.is('t'):
		n.kind, n.b = 'b', true
		p.word("true")
	case p.is('f'):
		n.kind = 'b'
		p.word("false")
	case p.is('n'):
		n.kind = 'n'
		p.word("null")
	default:
		n.kind = '#'
		p.number()
		n.num = p.b[st:p.i]
		for k := st; k < p.i; k++ {
			p.digit[k] = true
		}
	}
	n.raw = p.b[st:p.i]
	return n
}

func (p *jparse) number() {
	// decimal text produced earlier from a symbolic integer
	j := p.i
	if j < len(p.b) && p.b[j].T == nil && p.b[j].C == '-' {
		j++
	}
	if j < len(p.b) && p.b[j].T != nil {
		if run, ok := p.fr.w.side[decFirst(p.b[j].T.ID)].([]SB); ok && j+len(run) <= len(p.b) {
			same := true
			for k := range run {
				if p.b[j+k] != run[k] {
					same = false
				}
			}
			if same {
				p.i = j + len(run)
				return
			}
		}
	}
	if p.is('-') {
		p.i++
	}
	if p.is('0') {
		p.i++
	} else {
		if !p.isDigit() {
			p.fail()
		}
		for p.isDigit() {
			p.i++
		}
	}
	if p.is('.') {
		p.i++
		if !p.isDigit() {
			p.fail()
		}
		for p.isDigit() {
			p.i++
		}
	}
	if p.is('e') || p.is('E') {
		p.i++
		if p.is('+') || p.is('-') {
			p.i++
		}
		if !p.isDigit() {
			p.fail()
		}
		for p.isDigit() {
			p.i++
		}
	}
}

type decFirst uint32

func (p *jparse) str() Value {
	w := p.fr.w
	c := w.ctx
	p.i++
	var out []SB
	for {
		if p.i >= len(p.b) {
			p.fail()
		}
		x := p.b[p.i]
		if x.T != nil {
			plain := c.And(c.Not(c.Ult(x.T, c.Const(8, 0x20))), c.Ult(x.T, c.Const(8, 0x80)))
			plain = c.And(plain, c.And(c.Not(c.Eq(x.T, c.Const(8, '"'))), c.Not(c.Eq(x.T, c.Const(8, '\\')))))
			if w.path.Branch(plain) {
				out = append(out, x)
				p.i++
				continue
			}
			x = SB{C: p.fr.concByte(x)}
		}
		switch {
		case x.C == '"':
			p.i++
			return mkStr(out)
		case x.C < 0x20:
			p.fail()
		case x.C == '\\':
			p.i++
			if p.i >= len(p.b) {
				p.fail()
			}
			e := p.fr.concByte(p.b[p.i])
			switch e {
			case '"', '\\', '/':
				out = append(out, SB{C: e})
			case 'b':
				out = append(out, SB{C: '\b'})
			case 'f':
				out = append(out, SB{C: '\f'})
			case 'n':
				out = append(out, SB{C: '\n'})
			case 'r':
				out = append(out, SB{C: '\r'})
			case 't':
				out = append(out, SB{C: '\t'})
			case 'u':
				hex := func(at int) rune {
					if at+4 > len(p.b) {
						return -1
					}
					var h [4]byte
					for k := range h {
						h[k] = p.fr.concByte(p.b[at+k])
					}
					r, err := strconv.ParseUint(string(h[:]), 16, 32)
					if err != nil {
						return -1
					}
					return rune(r)
				}
				r := hex(p.i + 1)
				if r < 0 {
					p.fail()
				}
				p.i += 4
				if r >= 0xD800 && r < 0xE000 {
					r2 := rune(-1)
					if p.i+2 < len(p.b) && p.fr.concByte(p.b[p.i+1]) == '\\' && p.fr.concByte(p.b[p.i+2]) == 'u' {
						r2 = hex(p.i + 3)
					}
					if r < 0xDC00 && r2 >= 0xDC00 && r2 < 0xE000 {
						r = (r-0xD800)<<10 | (r2 - 0xDC00) + 0x10000
						p.i += 6
					} else {
						r = utf8.RuneError
					}
				}
				for _, b := range []byte(string(r)) {
					out = append(out, SB{C: b})
				}
			default:
				p.fail()
			}
			p.i++
		case x.C < 0x80:
			out = append(out, x)
			p.i++
		default:
			buf := []byte{x.C}
			for k := 1; k < utf8.UTFMax && p.i+k < len(p.b) && !utf8.FullRune(buf); k++ {
				buf = append(buf, p.fr.concByte(p.b[p.i+k]))
			}
			r, n := utf8.DecodeRune(buf)
			for _, b := range []byte(string(r)) {
				out = append(out, SB{C: b})
			}
			p.i += n
		}
	}
}

// ---- decoding ----

type jdec struct {
	fr       *frame
	k8s      bool // case-sensitive, integers kept
	fold     bool
	useNum   bool
	strict   bool
	saved    Iface
	hasSaved bool
}

func (d *jdec) typeErr(n *jnode, t types.Type) {
	if d.hasSaved {
		return
	}
	d.hasSaved = true
	w := d.fr.w
	kind := map[byte]string{'n': "null", 'b': "bool", '#': "number", '"': "string", '[': "array", '{': "object"}[n.kind]
	if kind == "number" {
		if s, ok := mkStr(n.num).(string); ok {
			kind += " " + s
		}
	}
	p := new(Value)
	*p = Struct{kind, w.rtype(t), Int(0), "", ""}
	tt := w.prog.Type("encoding/json", "UnmarshalTypeError")
	for len((*p).(Struct)) < tt.Underlying().(*types.Struct).NumFields() {
		*p = append((*p).(Struct), "")
	}
	d.saved = Iface{w.canon(types.NewPointer(tt)), p}
}

var (
	anyT    = types.NewInterfaceType(nil, nil)
	mapAnyT = types.NewMap(types.Typ[types.String], anyT)
	arrAnyT = types.NewSlice(anyT)
)

func (d *jdec) iface(n *jnode) Iface {
	fr := d.fr
	w := fr.w
	switch n.kind {
	case 'n':
		return Iface{}
	case 'b':
		return w.mkIface(types.Typ[types.Bool], n.b)
	case '"':
		return w.mkIface(types.Typ[types.String], n.str)
	case '[':
		s := make(Slice, len(n.arr))
		for i, x := range n.arr {
			s[i] = d.iface(x)
		}
		return w.mkIface(arrAnyT, s)
	case '{':
		m := &Map{}
		for i, x := range n.arr {
			fr.mapSet(m, types.Typ[types.String], n.keys[i], d.iface(x))
		}
		return w.mkIface(mapAnyT, m)
	}
	v := mkStr(n.num)
	if d.useNum {
		return w.mkIface(w.prog.Type("encoding/json", "Number"), v)
	}
	if d.k8s {
		if s, ok := v.(string); ok {
			if x, err := strconv.ParseInt(s, 10, 64); err == nil {
				return w.mkIface(types.Typ[types.Int64], Int(uint64(x)))
			}
		} else if t, ok := fr.parseDec(n.num); ok {
			return w.mkIface(types.Typ[types.Int64], mkInt(t))
		}
	}
	f := fr.parseFloat(v, 64).(Tuple)
	if f[1].(Iface).T != nil {
		d.typeErr(n, types.Typ[types.Float64])
		return Iface{}
	}
	return w.mkIface(types.Typ[types.Float64], f[0])
}

func (d *jdec) value(n *jnode, t types.Type, p *Value) {
	fr := d.fr
	w := fr.w
	t = w.canon(t)
	null := n.kind == 'n'
	// walk pointers to the value to set
	for {
		if i, ok := t.Underlying().(*types.Interface); ok {
			cur := (*p).(Iface)
			if cur.T != nil {
				if pt, ok := cur.T.Underlying().(*types.Pointer); ok {
					if cp, _ := cur.V.(*Value); cp != nil {
						_, pp := pt.Elem().Underlying().(*types.Pointer)
						if !null || pp {
							t, p = w.canon(pt.Elem()), cp
							continue
						}
					}
				}
			}
			_ = i
			break
		}
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			if null {
				break
			}
			cp, _ := (*p).(*Value)
			if cp == nil {
				cp = new(Value)
				*cp = zero(pt.Elem())
				w.set(p, cp)
			}
			if d.hooks(n, t, cp) {
				return
			}
			t, p = w.canon(pt.Elem()), cp
			continue
		}
		if d.hooks(n, w.canon(types.NewPointer(t)), p) {
			return
		}
		break
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if u.NumMethods() > 0 {
			if null {
				w.set(p, Iface{})
				return
			}
			d.typeErr(n, t)
			return
		}
		w.set(p, d.iface(n))
		return
	case *types.Pointer:
		w.set(p, (*Value)(nil))
		return
	case *types.Map:
		if null {
			w.set(p, (*Map)(nil))
			return
		}
		if n.kind != '{' {
			d.typeErr(n, t)
			return
		}
		m, _ := (*p).(*Map)
		if m == nil {
			m = &Map{}
			w.set(p, m)
		}
		kt := w.canon(u.Key())
		if !isString(kt) {
			panic(unsupported("json: map key " + kt.String()))
		}
		for i, x := range n.arr {
			c := new(Value)
			*c = zero(u.Elem())
			d.value(x, u.Elem(), c)
			fr.mapSet(m, kt, n.keys[i], *c)
		}
		return
	case *types.Slice:
		if null {
			w.set(p, Slice(nil))
			return
		}
		if n.kind == '"' {
			if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				s, ok := n.str.(string)
				if !ok {
					var dm [256]byte
					for i := range dm {
						dm[i] = 0xFF
					}
					for i := range stdB64 {
						dm[stdB64[i]] = byte(i)
					}
					b := strBytes(n.str)
					for len(b) > 0 && b[len(b)-1].T == nil && b[len(b)-1].C == '=' {
						b = b[:len(b)-1]
					}
					out, bad, ok := w.b64dec(b, &dm)
					if !ok || bad >= 0 {
						panic(unsupported("json: symbolic base64 text"))
					}
					w.set(p, strToBytes(mkStr(out)))
					return
				}
				bs, err := base64.StdEncoding.DecodeString(s)
				if err != nil {
					d.typeErr(n, t)
					return
				}
				w.set(p, strToBytes(string(bs)))
				return
			}
			d.typeErr(n, t)
			return
		}
		if n.kind != '[' {
			d.typeErr(n, t)
			return
		}
		s := make(Slice, len(n.arr))
		for i := range s {
			s[i] = zero(u.Elem())
			d.value(n.arr[i], u.Elem(), &s[i])
		}
		w.set(p, s)
		return
	case *types.Array:
		if null {
			return
		}
		if n.kind != '[' {
			d.typeErr(n, t)
			return
		}
		a := (*p).(Array)
		for i := range a {
			if i < len(n.arr) {
				d.value(n.arr[i], u.Elem(), &a[i])
			} else {
				w.assign(&a[i], zero(u.Elem()))
			}
		}
		return
	case *types.Struct:
		if null {
			return
		}
		if n.kind != '{' {
			d.typeErr(n, t)
			return
		}
		fields := jfieldsOf(w, t)
		for i, x := range n.arr {
			var f *jfield
			for k := range fields {
				if w.concBool(w.strEq(n.keys[i], fields[k].name)) {
					f = &fields[k]
					break
				}
			}
			if f == nil && d.fold {
				for k := range fields {
					if s, ok := n.keys[i].(string); ok {
						if strings.EqualFold(s, fields[k].name) {
							f = &fields[k]
							break
						}
					} else if w.concBool(w.strEq(fr.caseMap(n.keys[i], 'A', 'Z', 32), strings.ToLower(fields[k].name))) {
						f = &fields[k]
						break
					}
				}
			}
			if f == nil {
				continue
			}
			if f.quoted {
				panic(unsupported("json: string option"))
			}
			cp := p
			ct := t
			for _, k := range f.path {
				if pt, ok := ct.Underlying().(*types.Pointer); ok {
					pv, _ := (*cp).(*Value)
					if pv == nil {
						pv = new(Value)
						*pv = zero(pt.Elem())
						w.set(cp, pv)
					}
					cp, ct = pv, pt.Elem()
				}
				st := (*cp).(Struct)
				cp = &st[k]
				ct = ct.Underlying().(*types.Struct).Field(k).Type()
			}
			d.value(x, f.t, cp)
		}
		return
	case *types.Basic:
		if null {
			return
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			if n.kind != 'b' {
				d.typeErr(n, t)
				return
			}
			w.set(p, n.b)
		case u.Info()&types.IsString != 0:
			if n.kind == '#' && t == w.canon(w.prog.Type("encoding/json", "Number")) {
				w.set(p, mkStr(n.num))
				return
			}
			if n.kind != '"' {
				d.typeErr(n, t)
				return
			}
			w.set(p, n.str)
		case u.Info()&types.IsInteger != 0:
			if n.kind != '#' {
				d.typeErr(n, t)
				return
			}
			k, _ := intKind(t)
			if s, ok := mkStr(n.num).(string); ok {
				if k.signed {
					x, err := strconv.ParseInt(s, 10, int(k.w))
					if err != nil {
						d.typeErr(n, t)
						return
					}
					w.set(p, Int(uint64(x)&sym.Mask(k.w)))
				} else {
					x, err := strconv.ParseUint(s, 10, int(k.w))
					if err != nil {
						d.typeErr(n, t)
						return
					}
					w.set(p, Int(x))
				}
				return
			}
			x, ok := fr.parseDec(n.num)
			if !ok {
				s := w.concStr(mkStr(n.num))
				d.value(&jnode{kind: '#', num: strBytes(s)}, t, p)
				return
			}
			c := w.ctx
			if !k.signed {
				if w.path.Branch(c.Slt(x, c.Const(64, 0))) {
					d.typeErr(n, t)
					return
				}
			}
			if k.w < 64 {
				y := c.Trunc(x, k.w)
				if k.signed {
					y = c.SExt(y, 64)
				} else {
					y = c.ZExt(y, 64)
				}
				if !w.path.Branch(c.Eq(x, y)) {
					d.typeErr(n, t)
					return
				}
				x = c.Trunc(x, k.w)
			}
			w.set(p, mkInt(x))
		case u.Info()&types.IsFloat != 0:
			if n.kind != '#' {
				d.typeErr(n, t)
				return
			}
			f := fr.parseFloat(mkStr(n.num), 64).(Tuple)
			if f[1].(Iface).T != nil {
				d.typeErr(n, t)
				return
			}
			w.set(p, f[0])
		default:
			d.typeErr(n, t)
		}
		return
	}
	if !null {
		d.typeErr(n, t)
	}
}

// hooks runs UnmarshalJSON or UnmarshalText of pointer type pt.
func (d *jdec) hooks(n *jnode, pt types.Type, p *Value) bool {
	fr := d.fr
	w := fr.w
	if w.implements(pt, w.jiface("encoding/json", "Unmarshaler")) {
		e := fr.invoke(Iface{pt, p}, nil, "UnmarshalJSON", strToBytes(mkStr(n.raw)))
		if i, ok := e.(Iface); ok && i.T != nil && !d.hasSaved {
			d.saved, d.hasSaved = i, true
		}
		return true
	}
	if w.implements(pt, w.jiface("encoding", "TextUnmarshaler")) {
		if n.kind == 'n' {
			return true
		}
		if n.kind != '"' {
			d.typeErr(n, pt)
			return true
		}
		e := fr.invoke(Iface{pt, p}, nil, "UnmarshalText", strToBytes(n.str))
		if i, ok := e.(Iface); ok && i.T != nil && !d.hasSaved {
			d.saved, d.hasSaved = i, true
		}
		return true
	}
	return false
}

func (fr *frame) jsonParse(b []SB) (n *jnode, err Value) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(jsyntax); ok {
				p := new(Value)
				*p = Struct{s.msg, Int(0)}
				err = Iface{fr.w.canon(types.NewPointer(fr.w.prog.Type("encoding/json", "SyntaxError"))), p}
				return
			}
			panic(r)
		}
	}()
	return (&jparse{fr: fr, b: b}).top(), nil
}

func (fr *frame) jsonUnmarshal(d *jdec, data Value, target Value) Value {
	n, err := fr.jsonParse(strBytes(sliceSB(data.(Slice))))
	if err != nil {
		return err
	}
	v := target.(Iface)
	var pt *types.Pointer
	if v.T != nil {
		pt, _ = v.T.Underlying().(*types.Pointer)
	}
	cp, _ := v.V.(*Value)
	if pt == nil || cp == nil {
		return errIface(fr.w, "json: Unmarshal(non-pointer or nil)")
	}
	d.fr = fr
	d.value(n, pt.Elem(), cp)
	if d.hasSaved {
		return d.saved
	}
	return Iface{}
}

type jdecState struct {
	r      Iface
	buf    Slice
	useNum bool
	err    *Iface
}

// jsonDecode is Decoder.Decode: it takes the next value off the stream and
// reads no more of it than it needs.
func (fr *frame) jsonDecode(dp *Value, target Value) Value {
	w := fr.w
	st := w.path.jdecs[dp]
	if st == nil {
		panic(unsupported("json.Decoder not from NewDecoder"))
	}
	if st.err != nil {
		return *st.err
	}
	d := &jdec{fold: true, useNum: st.useNum, fr: fr}
	ioErr := func(name string) Value {
		return *w.global(w.prog.Pkgs["io"].Var(name))
	}
	eof := false
	for {
		buf := st.buf
		b := strBytes(sliceSB(buf))
		var n *jnode
		var serr *jsyntax
		p := &jparse{fr: fr, b: b, digit: map[int]bool{}}
		p.ws()
		empty := p.i >= len(b)
		if !empty {
			func() {
				defer func() {
					if r := recover(); r != nil {
						if s, ok := r.(jsyntax); ok {
							serr = &s
							return
						}
						panic(r)
					}
				}()
				n = p.value()
				if n.kind == '#' && p.i >= len(b) && !eof {
					n, serr = nil, &jsyntax{"unexpected end of JSON input"}
				}
			}()
		}
		if n != nil {
			st.buf = append(Slice(nil), buf[p.i:]...)
			v := target.(Iface)
			pt, _ := v.T.Underlying().(*types.Pointer)
			cp, _ := v.V.(*Value)
			if pt == nil || cp == nil {
				return errIface(w, "json: Unmarshal(non-pointer or nil)")
			}
			d.value(n, pt.Elem(), cp)
			if d.hasSaved {
				return d.saved
			}
			return Iface{}
		}
		if serr != nil && serr.msg != "unexpected end of JSON input" {
			e := new(Value)
			*e = Struct{serr.msg, Int(0)}
			err := Iface{w.canon(types.NewPointer(w.prog.Type("encoding/json", "SyntaxError"))), e}
			st.err = &err
			return err
		}
		if eof {
			name := "ErrUnexpectedEOF"
			if empty {
				name = "EOF"
			}
			err := ioErr(name).(Iface)
			st.err = &err
			return err
		}
		chunk := make(Slice, 512)
		for i := range chunk {
			chunk[i] = Int(0)
		}
		res := fr.invoke(st.r, nil, "Read", chunk).(Tuple)
		got := int(fr.concInt(res[0]))
		st.buf = append(append(Slice(nil), buf...), chunk[:got]...)
		if e, _ := res[1].(Iface); e.T != nil {
			if e == ioErr("EOF").(Iface) {
				eof = true
			} else {
				st.err = &e
				return e
			}
		}
	}
}

func (fr *frame) jsonMarshal(v Iface, html bool) (out []SB, err Value) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(jerr); ok {
				out, err = nil, e.v
				return
			}
			panic(r)
		}
	}()
	e := &jenc{fr: fr, html: html}
	e.value(anyT, v, nil, false)
	return e.out, nil
}

func init() {
	for _, pkg := range []string{"encoding/json", "sigs.k8s.io/json/internal/golang/encoding/json"} {
		pkg := pkg
		natPkgs[pkg] = func(f *ssa.Function) natFn {
			name := f.String()
			switch f.Name() {
			case "NewEncoder", "NewDecoder", "SetEscapeHTML", "UseNumber", "Error", "Unwrap", "String", "MarshalJSON", "UnmarshalJSON", "Int64", "Float64":
				return nil
			}
			return func(fr *frame, a []Value) Value { panic(unsupported(name)) }
		}
		n(pkg+".Marshal", func(fr *frame, a []Value) Value {
			out, err := fr.jsonMarshal(a[0].(Iface), true)
			if err != nil {
				return Tuple{Slice(nil), err}
			}
			return Tuple{strToBytes(mkStr(out)), Iface{}}
		})
		n(pkg+".MarshalIndent", func(fr *frame, a []Value) Value {
			out, err := fr.jsonMarshal(a[0].(Iface), true)
			if err != nil {
				return Tuple{Slice(nil), err}
			}
			var b bytes.Buffer
			_ = json.Indent(&b, []byte(fr.w.concStr(mkStr(out))), fr.w.concStr(a[1]), fr.w.concStr(a[2]))
			return Tuple{strToBytes(b.String()), Iface{}}
		})
		n("(*"+pkg+".Encoder).Encode", func(fr *frame, a []Value) Value {
			st := (*a[0].(*Value)).(Struct)
			out, err := fr.jsonMarshal(a[1].(Iface), fr.w.concBool(st[2]))
			if err != nil {
				return err
			}
			out = append(out, SB{C: '\n'})
			_, e := tupleErr(fr.invoke(st[0].(Iface), nil, "Write", strToBytes(mkStr(out))))
			return e
		})
	}
	n("encoding/json.NewDecoder", func(fr *frame, a []Value) Value {
		p := new(Value)
		*p = zero(fr.w.prog.Type("encoding/json", "Decoder"))
		if fr.w.path.jdecs == nil {
			fr.w.path.jdecs = map[*Value]*jdecState{}
		}
		fr.w.path.jdecs[p] = &jdecState{r: a[0].(Iface)}
		return p
	})
	n("(*encoding/json.Decoder).UseNumber", func(fr *frame, a []Value) Value {
		fr.w.path.jdecs[a[0].(*Value)].useNum = true
		return nil
	})
	n("(*encoding/json.Decoder).Decode", func(fr *frame, a []Value) Value { return fr.jsonDecode(a[0].(*Value), a[1]) })
	n("(*encoding/json.Decoder).Buffered", func(fr *frame, a []Value) Value { panic(unsupported("json.Decoder.Buffered")) })
	n("encoding/json.Valid", func(fr *frame, a []Value) Value {
		_, err := fr.jsonParse(strBytes(sliceSB(a[0].(Slice))))
		return err == nil
	})
	n("encoding/json.Unmarshal", func(fr *frame, a []Value) Value {
		return fr.jsonUnmarshal(&jdec{fold: true}, a[0], a[1])
	})
	kj := func(fr *frame, a []Value) Value { return fr.jsonUnmarshal(&jdec{k8s: true}, a[0], a[1]) }
	n("sigs.k8s.io/json.UnmarshalCaseSensitivePreserveInts", kj)
	// the JSON library of Kubernetes' serializers, set up like the standard one but case sensitive
	iter := func(fr *frame, a []Value) Value {
		t := fr.w.prog.Type("github.com/json-iterator/go", "API")
		return Iface{fr.w.canon(t), &Opaque{Kind: "jsoniter", Data: t}}
	}
	n("k8s.io/apimachinery/pkg/runtime/serializer/json.CaseSensitiveJSONIterator", iter)
	n("k8s.io/apimachinery/pkg/runtime/serializer/json.StrictCaseSensitiveJSONIterator", iter)
	opaqueMethods["jsoniter.Unmarshal"] = func(fr *frame, a []Value) Value { return kj(fr, a[1:]) }
	opaqueMethods["jsoniter.Marshal"] = func(fr *frame, a []Value) Value { return natives["encoding/json.Marshal"](fr, a[1:]) }
	for _, p := range []string{"github.com/gogo/protobuf/proto", "github.com/golang/protobuf/proto"} {
		natPkgs[p] = func(f *ssa.Function) natFn {
			if strings.HasPrefix(f.Name(), "Register") {
				return noopNat(f)
			}
			return nil
		}
	}
	n("sigs.k8s.io/json/internal/golang/encoding/json.Unmarshal", kj)

	// base64 with symbolic bytes
	n("(*encoding/base64.Encoding).EncodeToString", func(fr *frame, a []Value) Value {
		alpha, pad, _ := fr.b64conf(a[0])
		return mkStr(fr.w.b64enc(strBytes(sliceSB(a[1].(Slice))), alpha, pad))
	})
	n("(*encoding/base64.Encoding).DecodeString", func(fr *frame, a []Value) Value {
		alpha, pad, strict := fr.b64conf(a[0])
		corrupt := func(at int) Value {
			return fr.w.mkIface(fr.w.prog.Type("encoding/base64", "CorruptInputError"), Int(uint64(at)))
		}
		host := func(s string) Value {
			e := base64.NewEncoding(alpha).WithPadding(pad)
			if strict {
				e = e.Strict()
			}
			out, err := e.DecodeString(s)
			if err != nil {
				return Tuple{strToBytes(string(out)), corrupt(int(err.(base64.CorruptInputError)))}
			}
			return Tuple{strToBytes(string(out)), Iface{}}
		}
		if s, ok := a[1].(string); ok {
			return host(s)
		}
		if pad < 0 && !strict {
			var dm [256]byte
			for i := range dm {
				dm[i] = 0xFF
			}
			for i := range alpha {
				dm[alpha[i]] = byte(i)
			}
			out, bad, ok := fr.w.b64dec(strBytes(a[1]), &dm)
			if ok {
				if bad >= 0 {
					return Tuple{strToBytes(mkStr(out)), corrupt(bad)}
				}
				return Tuple{strToBytes(mkStr(out)), Iface{}}
			}
		}
		return host(fr.w.concStr(a[1]))
	})
}

func (fr *frame) b64conf(v Value) (alpha string, pad rune, strict bool) {
	st := (*v.(*Value)).(Struct)
	arr := st[0].(Array)
	b := make([]byte, 64)
	for i := range b {
		b[i] = byte(arr[i].(Int))
	}
	p := rune(int32(uint32(uint64(st[2].(Int)))))
	return string(b), p, fr.w.concBool(st[3])
}
