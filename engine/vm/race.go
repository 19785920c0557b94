package vm

import "fmt"

// raceState records accesses for lock-discipline checks: every access to a
// shared cell or map together with the locks held, and a happens-before
// relation (vector clocks over goroutine start, channels, mutexes, wait
// groups).
type raceState struct {
	w       *Worker
	vc      map[*goroutine]vclock
	obj     map[any]vclock
	held    map[*goroutine]map[*Value]bool // lock -> exclusive?
	last    map[any]*cellHist
	reports map[string]bool
	onlyMod bool
}

type vclock map[int]int

type accessRec struct {
	g     int
	clock int
	write bool
	where string
}

type cellHist struct {
	lastW *accessRec
	reads map[int]*accessRec
}

func newRace(w *Worker) *raceState {
	return &raceState{w: w, vc: map[*goroutine]vclock{}, obj: map[any]vclock{}, held: map[*goroutine]map[*Value]bool{},
		last: map[any]*cellHist{}, reports: map[string]bool{}}
}

func (r *raceState) clock(g *goroutine) vclock {
	v := r.vc[g]
	if v == nil {
		v = vclock{g.id: 1}
		r.vc[g] = v
	}
	return v
}

func (v vclock) join(o vclock) {
	for k, x := range o {
		if v[k] < x {
			v[k] = x
		}
	}
}

func (v vclock) copy() vclock {
	n := vclock{}
	for k, x := range v {
		n[k] = x
	}
	return n
}

func (r *raceState) fork(p, c *goroutine) {
	cv := r.clock(p).copy()
	cv[c.id] = 1
	r.vc[c] = cv
	r.clock(p)[p.id]++
}

func (r *raceState) release(g *goroutine, o any) {
	v := r.clock(g)
	if r.obj[o] == nil {
		r.obj[o] = vclock{}
	}
	r.obj[o].join(v)
	v[g.id]++
}

func (r *raceState) acquire(g *goroutine, o any) {
	if ov := r.obj[o]; ov != nil {
		r.clock(g).join(ov)
	}
}

type rlockKey struct{ p *Value }

// Readers do not order with one another: a reader acquires what writers
// released; a writer acquires what both released.
func (r *raceState) lockAcq(g *goroutine, p *Value, write bool) {
	r.acquire(g, p)
	if write {
		r.acquire(g, rlockKey{p})
	}
}

func (r *raceState) lockRel(g *goroutine, p *Value, write bool) {
	if write {
		r.release(g, p)
	} else {
		r.release(g, rlockKey{p})
	}
}

func (r *raceState) access(fr *frame, loc any, write bool) {
	if !fr.f.tracked || fr.w.initing > 0 {
		return
	}
	// a struct or array is its fields
	if p, ok := loc.(*Value); ok {
		switch x := (*p).(type) {
		case Struct:
			if len(x) > 0 {
				for i := range x {
					r.access(fr, &x[i], write)
				}
				return
			}
		case Array:
			if len(x) > 0 && len(x) <= 64 {
				for i := range x {
					r.access(fr, &x[i], write)
				}
				return
			}
		}
	}
	g := fr.g
	v := r.clock(g)
	h := r.last[loc]
	if h == nil {
		h = &cellHist{reads: map[int]*accessRec{}}
		r.last[loc] = h
	}
	ordered := func(a *accessRec) bool { return a.g == g.id || a.clock <= v[a.g] }
	if h.lastW != nil && !ordered(h.lastW) {
		r.report(fr, h.lastW, write)
	}
	if write {
		for _, a := range h.reads {
			if !ordered(a) {
				r.report(fr, a, true)
			}
		}
		h.lastW = &accessRec{g.id, v[g.id], true, r.pos(fr)}
		h.reads = map[int]*accessRec{}
	} else {
		h.reads[g.id] = &accessRec{g.id, v[g.id], false, r.pos(fr)}
	}
}

func (r *raceState) pos(fr *frame) string {
	if fr.f.blocks == nil || fr.pc >= len(fr.f.blocks[fr.block].src) {
		return fr.f.name
	}
	in := fr.f.blocks[fr.block].src[fr.pc]
	ps := r.w.prog.SSA.Fset.Position(in.Pos())
	return fmt.Sprintf("%s (%s:%d)", fr.f.name, ps.Filename, ps.Line)
}

func (r *raceState) report(fr *frame, a *accessRec, write bool) {
	k := a.where + " / " + r.pos(fr)
	if r.reports[k] {
		return
	}
	r.reports[k] = true
}
