package vm

import (
	"fmt"
	"go/types"
)

// procState is what a main function under analysis does to its surroundings.
type procState struct {
	stdout []SB
	calls  Slice // of []string
	exit   int64 // of the commands it runs
	code   Value // os.Exit
}

func (w *Worker) fieldIdx(t types.Type, name string) int {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	panic(unsupported("no field " + name + " in " + t.String()))
}

func (w *Worker) proc() *procState {
	p, _ := w.side["proc"].(*procState)
	return p
}

func init() {
	for _, name := range []string{"Stdin", "Stdout", "Stderr"} {
		globalOverride["os."+name] = func(w *Worker) Value {
			p := new(Value)
			*p = zero(w.prog.Type("os", "File"))
			return p
		}
	}
	globalOverride["os.Args"] = func(w *Worker) Value { return Slice{"main"} }
	write := func(fr *frame, a []Value, b []SB) Value {
		w := fr.w
		out := *w.global(w.prog.Pkgs["os"].Var("Stdout"))
		if p := w.proc(); p != nil && a[0] == out {
			p.stdout = append(p.stdout, b...)
		}
		return Tuple{intv(len(b)), Iface{}}
	}
	n("(*os.File).Write", func(fr *frame, a []Value) Value { return write(fr, a, strBytes(sliceSB(a[1].(Slice)))) })
	n("(*os.File).WriteString", func(fr *frame, a []Value) Value { return write(fr, a, strBytes(a[1])) })
	pr := func(fr *frame, s Value) Value {
		if p := fr.w.proc(); p != nil {
			p.stdout = append(p.stdout, strBytes(s)...)
		}
		return Tuple{intv(len(strBytes(s))), Iface{}}
	}
	n("fmt.Printf", func(fr *frame, a []Value) Value { return pr(fr, fr.sprintf(a[0], a[1].(Slice), nil)) })
	n("fmt.Print", func(fr *frame, a []Value) Value { return pr(fr, fr.sprint(a[0].(Slice), false)) })
	n("fmt.Println", func(fr *frame, a []Value) Value { return pr(fr, fr.sprint(a[0].(Slice), true)) })
	n("os.Exit", func(fr *frame, a []Value) Value {
		if p := fr.w.proc(); p != nil {
			p.code = a[0]
		}
		panic(targetPanic{Iface{fr.w.canon(types.Typ[types.String]), "os.Exit"}})
	})
	n("os/exec.Command", func(fr *frame, a []Value) Value {
		t := fr.w.prog.Type("os/exec", "Cmd")
		c := zero(t).(Struct)
		c[fr.w.fieldIdx(t, "Path")] = a[0]
		c[fr.w.fieldIdx(t, "Args")] = append(Slice{a[0]}, a[1].(Slice)...)
		p := new(Value)
		*p = c
		return p
	})
	n("(*os/exec.Cmd).Run", func(fr *frame, a []Value) Value {
		w := fr.w
		t := w.prog.Type("os/exec", "Cmd")
		ps := w.proc()
		if ps == nil {
			panic(unsupported("os/exec outside of RunMain"))
		}
		c := (*fr.ptr(a[0])).(Struct)
		ps.calls = append(ps.calls, append(Slice(nil), c[w.fieldIdx(t, "Args")].(Slice)...))
		if ps.exit == 0 {
			return Iface{}
		}
		et := w.prog.Type("os/exec", "ExitError")
		st := new(Value)
		*st = zero(w.prog.Type("os", "ProcessState"))
		w.side[[2]any{"exit", st}] = ps.exit
		e := zero(et).(Struct)
		e[w.fieldIdx(et, "ProcessState")] = st
		p := new(Value)
		*p = e
		return Iface{w.canon(types.NewPointer(et)), p}
	})
	n("(*os.ProcessState).ExitCode", func(fr *frame, a []Value) Value {
		c, _ := fr.w.side[[2]any{"exit", a[0]}].(int64)
		return intv(int(c))
	})
	n("(*os.ProcessState).String", func(fr *frame, a []Value) Value {
		return fmt.Sprintf("exit status %v", fr.w.side[[2]any{"exit", a[0]}])
	})
	n(RT+"RunMain", func(fr *frame, a []Value) Value {
		w := fr.w
		ps := &procState{exit: fr.concInt(a[1])}
		w.side["proc"] = ps
		defer delete(w.side, "proc")
		w.set(w.global(w.prog.Pkgs["os"].Var("Args")), append(Slice{"main"}, a[2].(Slice)...))
		var code Value = Int(0)
		func() {
			saved := w.curFrame
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				tp, ok := r.(targetPanic)
				if !ok {
					panic(r)
				}
				w.curFrame = saved
				if ps.code != nil {
					code = ps.code
					return
				}
				code = Int(2)
				w.path.notes = append(w.path.notes, "the program panics: "+fr.describePanic(tp.v))
			}()
			fr.callClosure(a[0].(*Closure))
		}()
		calls := make(Slice, len(ps.calls))
		copy(calls, ps.calls)
		return Tuple{code, mkStr(ps.stdout), calls}
	})
}
