package vm

import (
	"math/bits"

	"golang.org/x/tools/go/ssa"
)

// sort.Slice and friends: the real sorting code runs; only the reflective
// swapper is supplied.
func init() {
	run := func(fn string, limit bool) natFn {
		return func(fr *frame, a []Value) Value {
			s, ok := a[0].(Iface).V.(Slice)
			if !ok {
				fr.rpanic("reflect: call of Swapper on non-slice")
			}
			w := fr.w
			swap := &Closure{Name: "swap", Nat: func(fr *frame, x []Value) Value {
				i, j := int(x[0].(Int)), int(x[1].(Int))
				if i < 0 || j < 0 || i >= len(s) || j >= len(s) {
					fr.rpanic("reflect: slice index out of range")
				}
				p, q := copyVal(s[i]), copyVal(s[j])
				w.assign(&s[i], q)
				w.assign(&s[j], p)
				return nil
			}}
			f := w.prog.Func("sort", fn)
			args := []Value{Struct{a[1], swap}, Int(0), Int(uint64(len(s)))}
			if limit {
				args = append(args, intv(bits.Len(uint(len(s)))))
			} else {
				args = []Value{Struct{a[1], swap}, Int(uint64(len(s)))}
			}
			fr.callSSA(f, args...)
			return nil
		}
	}
	n("sort.Slice", run("pdqsort_func", true))
	n("sort.SliceStable", run("stable_func", false))
	n("sort.SliceIsSorted", func(fr *frame, a []Value) Value {
		s, _ := a[0].(Iface).V.(Slice)
		for i := len(s) - 1; i > 0; i-- {
			if fr.w.concBool(fr.callClosure(a[1].(*Closure), intv(i), intv(i-1))) {
				return false
			}
		}
		return true
	})
	_ = ssa.NaiveForm
}
