package vm

import (
	"fmt"
	"os"

	"verif/engine/sym"
)

const RT = "github.com/DaoCloud/ckube/zzverif/verifrt."

func (p *Path) uniq(name string) string {
	k := p.byName[name]
	p.byName[name] = k + 1
	if k == 0 {
		return name
	}
	return fmt.Sprintf("%s~%d", name, k)
}

func (w *Worker) cStr(v Value) string {
	s, ok := v.(string)
	if !ok {
		panic(unsupported("harness name must be concrete"))
	}
	return s
}

func init() {
	rt := func(name string, f natFn) { n(RT+name, f) }
	rt("Str", func(fr *frame, a []Value) Value {
		p := fr.w.path
		name := fr.w.cStr(a[0])
		k := int(fr.concInt(a[1]))
		al := fr.w.cStr(a[2])
		var d sym.Dom
		for i := 0; i < len(al); i++ {
			d.Add(uint64(al[i]))
		}
		u := p.uniq(name)
		b := make([]SB, k)
		for i := range b {
			if d.Count() == 1 {
				b[i].C = byte(d.First())
				continue
			}
			b[i].T = p.newVar(fmt.Sprintf("%s[%d]", u, i), 8, &d)
		}
		p.inputs = append(p.inputs, InputRec{Name: name, Kind: "str", T: b})
		return mkStr(b)
	})
	rt("Int64", func(fr *frame, a []Value) Value {
		p := fr.w.path
		name := fr.w.cStr(a[0])
		t := p.newVar(p.uniq(name), 64, nil)
		p.inputs = append(p.inputs, InputRec{Name: name, Kind: "int", I: t})
		return t
	})
	rt("Int64In", func(fr *frame, a []Value) Value {
		p := fr.w.path
		name := fr.w.cStr(a[0])
		lo, hi := fr.concInt(a[1]), fr.concInt(a[2])
		c := fr.w.ctx
		var t *sym.Term
		if lo >= 0 && hi < 256 {
			// small ranges become one byte, decided by value sets
			var d sym.Dom
			for i := lo; i <= hi; i++ {
				d.Add(uint64(i))
			}
			v := p.newVar(p.uniq(name+"~8"), 8, &d)
			t = c.ZExt(v, 64)
		} else if hi-lo >= 0 && hi-lo < 256 {
			var d sym.Dom
			for i := int64(0); i <= int64(hi-lo); i++ {
				d.Add(uint64(i))
			}
			v := p.newVar(p.uniq(name+"~8"), 8, &d)
			t = c.Bin(sym.OAdd, c.ZExt(v, 64), c.Const(64, uint64(lo)))
		} else {
			t = p.newVar(p.uniq(name), 64, nil)
			if _, ok := p.initial[t.Name]; !ok {
				p.model[t] = uint64(lo)
			}
			p.Assume(c.Not(c.Slt(t, c.Const(64, uint64(lo)))))
			p.Assume(c.Not(c.Slt(c.Const(64, uint64(hi)), t)))
		}
		p.inputs = append(p.inputs, InputRec{Name: name, Kind: "int", I: t})
		return mkInt(t)
	})
	rt("Bool", func(fr *frame, a []Value) Value {
		p := fr.w.path
		name := fr.w.cStr(a[0])
		d := sym.FullDom(1)
		v := p.newVar(p.uniq(name), 1, &d)
		t := fr.w.ctx.Eq(v, fr.w.ctx.Const(1, 1))
		p.inputs = append(p.inputs, InputRec{Name: name, Kind: "bool", I: t})
		return fr.w.mkBool(t)
	})
	rt("Choice", func(fr *frame, a []Value) Value {
		p := fr.w.path
		name := fr.w.cStr(a[0])
		k := p.Choose(int(fr.concInt(a[1])))
		p.inputs = append(p.inputs, InputRec{Name: name, Kind: "choice", Val: uint64(k)})
		return intv(k)
	})
	rt("Assume", func(fr *frame, a []Value) Value {
		fr.w.path.Assume(fr.w.boolTerm(a[0]))
		return nil
	})
	rt("Assert", func(fr *frame, a []Value) Value {
		fr.w.path.Assert(a[1], fr.w.cStr(a[0]), fr.msgOf(a[2]))
		return nil
	})
	rt("Observe", func(fr *frame, a []Value) Value {
		fr.w.path.obs = append(fr.w.path.obs, obsRec{name: fr.w.cStr(a[0]), val: snapshot(a[1])})
		return nil
	})
	rt("Note", func(fr *frame, a []Value) Value { return nil })
	rt("Cover", func(fr *frame, a []Value) Value {
		fr.w.path.covers = append(fr.w.path.covers, fr.w.cStr(a[0]))
		return nil
	})
	rt("MapOrder", func(fr *frame, a []Value) Value {
		if a[0].(bool) {
			fr.w.path.mapMode = 3
		} else {
			fr.w.path.mapMode = 0
		}
		return nil
	})
	rt("InEngine", func(fr *frame, a []Value) Value { return true })
	rt("Bound", func(fr *frame, a []Value) Value {
		name := fr.w.cStr(a[0])
		v := fr.concInt(a[1])
		if fr.w.opt.Thorough {
			v = fr.concInt(a[2])
		}
		fr.w.ex.setBound(name, v)
		return intv(int(v))
	})
	rt("Quiesce", func(fr *frame, a []Value) Value { fr.quiesce(); return nil })
	rt("Advance", func(fr *frame, a []Value) Value {
		s := fr.w.sched
		target := s.now + fr.concInt(a[0])
		fr.quiesce()
		for {
			bi := -1
			for i, t := range s.timers {
				if !t.dead && t.at <= target && (bi < 0 || t.at < s.timers[bi].at) {
					bi = i
				}
			}
			if bi < 0 {
				break
			}
			t := s.timers[bi]
			s.timers = append(append([]*timer{}, s.timers[:bi]...), s.timers[bi+1:]...)
			if t.at > s.now {
				s.now = t.at
			}
			t.fire()
			fr.quiesce()
		}
		s.now = target
		return nil
	})
	rt("Preempt", func(fr *frame, a []Value) Value {
		s := fr.w.sched
		s.preempt = int(fr.concInt(a[0]))
		s.preempted = s.preempted || s.preempt > 0
		return nil
	})
	rt("RaceStart", func(fr *frame, a []Value) Value { fr.w.race = newRace(fr.w); return nil })
	rt("Races", func(fr *frame, a []Value) Value {
		if fr.w.race == nil {
			return Int(0)
		}
		for k := range fr.w.race.reports {
			fr.w.path.notes = append(fr.w.path.notes, "race: "+k)
		}
		return intv(len(fr.w.race.reports))
	})
	rt("LocksHeld", func(fr *frame, a []Value) Value { return intv(fr.w.locksHeld()) })
	rt("Setenv", func(fr *frame, a []Value) Value {
		e, _ := fr.w.side["env"].(map[string]Value)
		if e == nil {
			e = map[string]Value{}
			fr.w.side["env"] = e
		}
		e[fr.w.cStr(a[0])] = a[1]
		return nil
	})
	rt("SetArgs", func(fr *frame, a []Value) Value {
		pk := fr.w.prog.Pkgs["os"]
		g := fr.w.global(pk.Var("Args"))
		fr.w.set(g, a[0])
		return nil
	})
	rt("Exit", func(fr *frame, a []Value) Value { panic(ctrl{stopEnd, ""}) })
	rt("Main", func(fr *frame, a []Value) Value { return nil })
	_ = os.Stderr
}

// msgOf renders an assertion message (evaluated only when reported).
func (fr *frame) msgOf(v Value) string {
	if s, ok := v.(string); ok {
		return s
	}
	return fr.w.path.render(fr.w.path.model, v)
}

// snapshot copies what Observe saw.
func snapshot(v Value) Value {
	switch x := v.(type) {
	case Slice:
		c := make(Slice, len(x))
		for i := range x {
			c[i] = snapshot(x[i])
		}
		return c
	case Iface:
		return Iface{x.T, snapshot(x.V)}
	}
	return copyVal(v)
}
