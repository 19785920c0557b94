package vm

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine/sym"
)

// lockState models a mutex: exclusive holder or reader count.
type lockState struct {
	writer  bool
	readers int
	waiting int // writers waiting
	owner   *goroutine
}

func (w *Worker) lock(p *Value) *lockState {
	l := w.locks[p]
	if l == nil {
		l = &lockState{}
		w.locks[p] = l
	}
	return l
}

func (fr *frame) lockAcquire(p *Value, write bool) {
	if p == nil {
		fr.nilDeref()
	}
	w := fr.w
	if w.initing > 0 {
		return
	}
	fr.syncPoint()
	l := w.lock(p)
	if write {
		if l.writer || l.readers > 0 {
			l.waiting++
			fr.wait(func() bool { return !l.writer && l.readers == 0 })
			l.waiting--
		}
		l.writer = true
		l.owner = fr.g
	} else {
		// a waiting writer blocks new readers
		if l.writer || l.waiting > 0 {
			fr.wait(func() bool { return !l.writer && l.waiting == 0 })
		}
		l.readers++
	}
	if w.race != nil {
		w.race.lockAcq(fr.g, p, write)
	}
}

func (fr *frame) lockRelease(p *Value, write bool) {
	w := fr.w
	if w.initing > 0 {
		return
	}
	l := w.lock(p)
	if write {
		if !l.writer {
			panic(targetPanic{Iface{w.canon(types.Typ[types.String]), "fatal error: sync: unlock of unlocked mutex"}})
		}
		l.writer = false
	} else {
		if l.readers == 0 {
			panic(targetPanic{Iface{w.canon(types.Typ[types.String]), "fatal error: sync: RUnlock of unlocked RWMutex"}})
		}
		l.readers--
	}
	if w.race != nil {
		w.race.lockRel(fr.g, p, write)
	}
	fr.syncPoint()
}

func (w *Worker) locksHeld() int {
	c := 0
	for _, l := range w.locks {
		if l.writer {
			c++
		}
		c += l.readers
	}
	return c
}

func init() {
	n("(*sync.Mutex).Lock", func(fr *frame, a []Value) Value { fr.lockAcquire(a[0].(*Value), true); return nil })
	n("(*sync.Mutex).Unlock", func(fr *frame, a []Value) Value { fr.lockRelease(a[0].(*Value), true); return nil })
	n("(*sync.Mutex).TryLock", func(fr *frame, a []Value) Value {
		l := fr.w.lock(a[0].(*Value))
		if l.writer {
			return false
		}
		l.writer = true
		return true
	})
	n("(*sync.RWMutex).Lock", func(fr *frame, a []Value) Value { fr.lockAcquire(a[0].(*Value), true); return nil })
	n("(*sync.RWMutex).Unlock", func(fr *frame, a []Value) Value { fr.lockRelease(a[0].(*Value), true); return nil })
	n("(*sync.RWMutex).RLock", func(fr *frame, a []Value) Value { fr.lockAcquire(a[0].(*Value), false); return nil })
	n("(*sync.RWMutex).RUnlock", func(fr *frame, a []Value) Value { fr.lockRelease(a[0].(*Value), false); return nil })
	n("(*sync.Pool).Get", func(fr *frame, a []Value) Value {
		p := a[0].(*Value)
		st := (*p).(Struct)
		f := st[len(st)-1].(*Closure)
		if f == nil {
			return Iface{}
		}
		return fr.callClosure(f)
	})
	n("(*sync.Pool).Put", func(fr *frame, a []Value) Value { return nil })
	type wg struct{ c int64 }
	getWG := func(fr *frame, v Value) *wg {
		k := [2]any{"wg", v}
		x, _ := fr.w.side[k].(*wg)
		if x == nil {
			x = &wg{}
			fr.w.side[k] = x
		}
		return x
	}
	n("(*sync.WaitGroup).Add", func(fr *frame, a []Value) Value {
		x := getWG(fr, a[0])
		x.c += fr.concInt(a[1])
		if x.c < 0 {
			panic(targetPanic{Iface{fr.w.canon(types.Typ[types.String]), "sync: negative WaitGroup counter"}})
		}
		return nil
	})
	n("(*sync.WaitGroup).Done", func(fr *frame, a []Value) Value {
		x := getWG(fr, a[0])
		x.c--
		if fr.w.race != nil {
			fr.w.race.release(fr.g, x)
		}
		if x.c < 0 {
			panic(targetPanic{Iface{fr.w.canon(types.Typ[types.String]), "sync: negative WaitGroup counter"}})
		}
		return nil
	})
	n("(*sync.WaitGroup).Wait", func(fr *frame, a []Value) Value {
		x := getWG(fr, a[0])
		fr.wait(func() bool { return x.c == 0 })
		if fr.w.race != nil {
			fr.w.race.acquire(fr.g, x)
		}
		return nil
	})
	n("(*sync.Once).Do", func(fr *frame, a []Value) Value {
		p := a[0].(*Value)
		st := (*p).(Struct)
		k := [2]any{"once", p}
		// done flag lives in the first integer cell so that it survives
		// package initialisation and is rolled back per path
		cell := firstIntCell(st)
		if cell != nil {
			if *cell != Value(Int(0)) {
				return nil
			}
			if fr.w.initing == 0 {
				if fr.w.side[k] != nil {
					// another goroutine is at it
					fr.wait(func() bool { return *cell != Value(Int(0)) })
					return nil
				}
				fr.w.side[k] = true
			}
			defer fr.w.set(cell, Int(1))
		} else {
			if fr.w.side[k] != nil {
				return nil
			}
			fr.w.side[k] = true
		}
		fr.callClosure(a[1].(*Closure))
		return nil
	})
	// sync.Map
	smap := func(fr *frame, v Value) *Map {
		p := v.(*Value)
		st := (*p).(Struct)
		// keep the contents in the first cell of the struct
		if m, ok := st[0].(*Map); ok {
			return m
		}
		m := &Map{}
		fr.w.set(&st[0], m)
		return m
	}
	anyT := types.NewInterfaceType(nil, nil)
	n("(*sync.Map).Load", func(fr *frame, a []Value) Value {
		e := fr.mapFind(smap(fr, a[0]), anyT, a[1])
		if e == nil {
			return Tuple{Iface{}, false}
		}
		return Tuple{e.v, true}
	})
	n("(*sync.Map).Store", func(fr *frame, a []Value) Value { fr.mapSet(smap(fr, a[0]), anyT, a[1], a[2]); return nil })
	n("(*sync.Map).LoadOrStore", func(fr *frame, a []Value) Value {
		m := smap(fr, a[0])
		if e := fr.mapFind(m, anyT, a[1]); e != nil {
			return Tuple{e.v, true}
		}
		fr.mapSet(m, anyT, a[1], a[2])
		return Tuple{a[2], false}
	})
	n("(*sync.Map).Delete", func(fr *frame, a []Value) Value { fr.mapDelete(smap(fr, a[0]), anyT, a[1]); return nil })
	n("(*sync.Map).LoadAndDelete", func(fr *frame, a []Value) Value {
		m := smap(fr, a[0])
		e := fr.mapFind(m, anyT, a[1])
		if e == nil {
			return Tuple{Iface{}, false}
		}
		fr.mapDelete(m, anyT, a[1])
		return Tuple{e.v, true}
	})
	n("(*sync.Map).Range", func(fr *frame, a []Value) Value {
		for _, e := range smap(fr, a[0]).liveEntries() {
			r := fr.callClosure(a[1].(*Closure), e.k, e.v)
			if b, ok := r.(bool); ok && !b {
				break
			}
		}
		return nil
	})

	// ---- sync/atomic ----
	for _, ty := range []struct {
		s string
		k ikind
	}{{"Int32", ikind{32, true}}, {"Int64", ikind{64, true}}, {"Uint32", ikind{32, false}}, {"Uint64", ikind{64, false}}, {"Uintptr", ikind{64, false}}, {"Pointer", ikind{}}} {
		k := ty.k
		n("sync/atomic.Load"+ty.s, func(fr *frame, a []Value) Value { return *fr.ptr(a[0]) })
		n("sync/atomic.Store"+ty.s, func(fr *frame, a []Value) Value { fr.w.set(fr.ptr(a[0]), a[1]); return nil })
		n("sync/atomic.Swap"+ty.s, func(fr *frame, a []Value) Value {
			p := fr.ptr(a[0])
			o := *p
			fr.w.set(p, a[1])
			return o
		})
		n("sync/atomic.CompareAndSwap"+ty.s, func(fr *frame, a []Value) Value {
			p := fr.ptr(a[0])
			if eqScalar(*p, a[1]) {
				fr.w.set(p, a[2])
				return true
			}
			return false
		})
		if ty.s != "Pointer" {
			n("sync/atomic.Add"+ty.s, func(fr *frame, a []Value) Value {
				p := fr.ptr(a[0])
				x, ok1 := (*p).(Int)
				y, ok2 := a[1].(Int)
				if !ok1 || !ok2 {
					panic(unsupported("atomic add of symbolic value"))
				}
				v := Int((uint64(x) + uint64(y)) & sym.Mask(k.w))
				fr.w.set(p, v)
				return v
			})
			n("sync/atomic.And"+ty.s, func(fr *frame, a []Value) Value {
				p := fr.ptr(a[0])
				o := *p
				fr.w.set(p, Int(uint64(o.(Int))&uint64(a[1].(Int))))
				return o
			})
			n("sync/atomic.Or"+ty.s, func(fr *frame, a []Value) Value {
				p := fr.ptr(a[0])
				o := *p
				fr.w.set(p, Int(uint64(o.(Int))|uint64(a[1].(Int))))
				return o
			})
		}
	}
	n("(*sync/atomic.Value).Load", func(fr *frame, a []Value) Value { return (*fr.ptr(a[0])).(Struct)[0] })
	n("(*sync/atomic.Value).Store", func(fr *frame, a []Value) Value {
		st := (*fr.ptr(a[0])).(Struct)
		fr.w.set(&st[0], a[1])
		return nil
	})
	n("(*sync/atomic.Value).CompareAndSwap", func(fr *frame, a []Value) Value {
		st := (*fr.ptr(a[0])).(Struct)
		if r, ok := fr.w.ifaceEq(st[0].(Iface), a[1].(Iface)).(bool); ok && r {
			fr.w.set(&st[0], a[2])
			return true
		}
		return false
	})
	// atomics order what comes before and after them
	for name, f := range natives {
		if !strings.Contains(name, "sync/atomic.") && !strings.HasPrefix(name, "(*sync.Map)") && !strings.HasPrefix(name, "(*sync.Once)") {
			continue
		}
		f := f
		natives[name] = func(fr *frame, a []Value) Value {
			w := fr.w
			if w.initing > 0 {
				return f(fr, a)
			}
			fr.syncPoint()
			p, _ := a[0].(*Value)
			if w.race == nil || p == nil {
				return f(fr, a)
			}
			w.race.acquire(fr.g, p)
			r := f(fr, a)
			w.race.acquire(fr.g, p)
			w.race.release(fr.g, p)
			return r
		}
	}
	natPkgs["internal/race"] = func(f *ssa.Function) natFn { return noopNat(f) }
	natPkgs["internal/testlog"] = func(f *ssa.Function) natFn { return noopNat(f) }
	_ = strings.HasPrefix
}

func firstIntCell(st Struct) *Value {
	for i := range st {
		switch x := st[i].(type) {
		case Int:
			return &st[i]
		case Struct:
			if c := firstIntCell(x); c != nil {
				return c
			}
		}
	}
	return nil
}

func eqScalar(a, b Value) bool {
	switch a.(type) {
	case Int, bool, UPtr, *Value:
		return a == b
	}
	return false
}
