package hlib

import (
	"strings"

	rt "github.com/DaoCloud/ckube/zzverif/verifrt"
)

// Req is one requirement of a label selector.
type Req struct {
	Key  string
	op   int // 0 =,1 ==,2 in,3 !=,4 notin,5 exists,6 !exists
	vals []string
}

func (r Req) Text() string {
	switch r.op {
	case 0:
		return r.Key + "=" + r.vals[0]
	case 1:
		return r.Key + "==" + r.vals[0]
	case 2:
		return r.Key + " in (" + strings.Join(r.vals, ",") + ")"
	case 3:
		return r.Key + "!=" + r.vals[0]
	case 4:
		return r.Key + " notin (" + strings.Join(r.vals, ",") + ")"
	case 5:
		return r.Key
	}
	return "!" + r.Key
}

func (r Req) Holds(m map[string]string) bool {
	v, ok := m[r.Key]
	in := false
	for _, x := range r.vals {
		if x == v {
			in = true
		}
	}
	switch r.op {
	case 0, 1, 2:
		return ok && in
	case 3, 4:
		return !ok || !in
	case 5:
		return ok
	}
	return !ok
}

const Ident = rt.LowerNum + "ABCDEFGHIJKLMNOPQRSTUVWXYZ"

// Values is the alphabet of Word.
var Values = Ident

// FewValues keeps label values to three letters in the quick tier: what a
// selector does depends on which values are equal.
func FewValues() {
	if rt.Bound("value_alphabet", 3, len(Ident)) == 3 {
		Values = "ab0"
	}
}

// Word is a label value of n bytes.
func Word(name string, n int) string {
	if n == 1 {
		return rt.Str(name, 1, Values)
	}
	mid := Values
	if Values == Ident {
		mid += "-_."
	}
	return rt.Str(name+".first", 1, Values) + rt.Str(name+".mid", n-2, mid) + rt.Str(name+".last", 1, Values)
}

// OneOf is the requirement that key has the value.
func OneOf(key, value string) Req { return Req{Key: key, vals: []string{value}} }

// MaxVals bounds the values of in and notin.
var MaxVals = 2

// MkReq is any requirement on one of keys.
func MkReq(keys []string, maxVal int) Req {
	r := Req{Key: keys[rt.Choice("key", len(keys))], op: rt.Choice("op", 7)}
	n := 0
	switch r.op {
	case 0, 1, 3:
		n = 1
	case 2, 4:
		n = 1 + rt.Choice("nvals", MaxVals)
	}
	for i := 0; i < n; i++ {
		r.vals = append(r.vals, Word("val", 1+rt.Choice("vlen", maxVal)))
	}
	return r
}

// In is the requirement that the value of key is, or is not, in vs.
func In(key string, not bool, vs []string) Req {
	r := Req{Key: key, op: 2, vals: vs}
	if not {
		r.op = 4
	}
	return r
}
