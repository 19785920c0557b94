package vm

import (
	"fmt"
	"go/types"
	"runtime/debug"

	"golang.org/x/tools/go/ssa"
)

// Target goroutines are coroutines: exactly one runs at a time, and control
// changes hands only at blocking operations or where the harness enables
// preemption at synchronisation points.
type goroutine struct {
	w     *Worker
	id    int
	wake  chan struct{}
	done  bool
	ready func() bool // nil when runnable
	saved *frame
	fin   chan struct{}
	held  []*Value // locks held
}

type sched struct {
	gs        []*goroutine
	cur       *goroutine
	dying     bool
	end       *ctrl
	preempt   int  // remaining preemptions
	preempted bool // preemption was allowed at some time
	now       int64
	timers    []*timer
	onBlock   func() // harness hook when everything is blocked
}

type timer struct {
	at   int64
	fire func()
	dead bool
}

func (w *Worker) runScheduled(main func(g *goroutine)) (end ctrl) {
	g := &goroutine{w: w, id: 0, wake: make(chan struct{}, 1)}
	s := &sched{gs: []*goroutine{g}, cur: g}
	w.sched = s
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case ctrl:
					end = x
				case targetPanic:
					end = ctrl{stopEnd, "panic"}
					w.uncaught(x)
				default:
					if w.opt.Verbose {
						debug.PrintStack()
					}
					end = ctrl{stopUnsupported, fmt.Sprintf("engine: %v%s", r, w.where())}
				}
			} else {
				end = ctrl{stopEnd, ""}
			}
		}()
		main(g)
	}()
	if s.end != nil {
		end = *s.end
	}
	s.dying = true
	for _, o := range s.gs[1:] {
		if !o.done {
			o.wake <- struct{}{}
			<-o.fin
		}
	}
	w.sched = nil
	return end
}

// uncaught reports a panic that escapes a goroutine (it would crash the
// process).
func (w *Worker) uncaught(x targetPanic) {
	fr := w.curFrame
	if fr == nil {
		fr = &frame{w: w, f: &fn{name: "?"}}
	}
	if w.path.pos < len(w.path.prefix) {
		return
	}
	w.path.notes = append(w.path.notes, "panic: "+fr.describePanic(x.v)+w.where())
	if w.panicAt != "" {
		w.path.notes = append(w.path.notes, "last runtime error raised at"+w.panicAt)
	}
	w.violation(w.path, "no-panic", "uncaught panic: "+fr.describePanic(x.v), w.path.model)
}

func (w *Worker) spawn(fr *frame, call func(fr *frame)) {
	s := w.sched
	g := &goroutine{w: w, id: len(s.gs), wake: make(chan struct{}, 1), fin: make(chan struct{})}
	s.gs = append(s.gs, g)
	if w.race != nil {
		w.race.fork(fr.g, g)
	}
	go func() {
		<-g.wake
		defer close(g.fin)
		if s.dying {
			g.done = true
			return
		}
		root := &frame{w: w, g: g, f: &fn{name: fmt.Sprintf("go#%d", g.id), recover: -1}}
		w.curFrame = root
		func() {
			defer func() {
				if r := recover(); r != nil {
					var e ctrl
					switch x := r.(type) {
					case ctrl:
						if x.kind == stopKilled {
							return
						}
						e = x
					case targetPanic:
						w.uncaught(x)
						e = ctrl{stopEnd, "panic in goroutine"}
					default:
						if w.opt.Verbose {
							debug.PrintStack()
						}
						e = ctrl{stopUnsupported, fmt.Sprintf("engine: %v%s", r, w.where())}
					}
					if s.end == nil {
						s.end = &e
					}
				}
			}()
			call(root)
		}()
		g.done = true
		if s.dying {
			return
		}
		if s.end != nil {
			s.gs[0].wake <- struct{}{}
			return
		}
		s.dispatch(w, g)
	}()
}

// dispatch hands control to another goroutine after g finished.
func (s *sched) dispatch(w *Worker, g *goroutine) {
	var n *goroutine
	func() {
		defer func() {
			if r := recover(); r != nil {
				e, ok := r.(ctrl)
				if !ok {
					panic(r)
				}
				s.end = &e
			}
		}()
		n = s.pick(w, g, true)
	}()
	if s.end != nil {
		s.gs[0].wake <- struct{}{}
		return
	}
	if n == nil {
		e := ctrl{stopDeadlock, "all goroutines are blocked"}
		s.end = &e
		s.gs[0].wake <- struct{}{}
		return
	}
	s.cur = n
	n.wake <- struct{}{}
}

// pick chooses the next runnable goroutine in round-robin order after g,
// advancing virtual time when nothing can run. With preemption enabled any
// other one may be taken instead, which counts like a preemption.
func (s *sched) pick(w *Worker, g *goroutine, excl bool) *goroutine {
	for {
		n := len(s.gs)
		var run []*goroutine
		for i := 1; i <= n; i++ {
			o := s.gs[(g.id+i)%n]
			if o.done || (excl && o == g) {
				continue
			}
			if o.ready == nil || o.ready() {
				if s.preempt <= 0 {
					return o
				}
				run = append(run, o)
			}
		}
		if len(run) > 0 {
			k := w.path.Choose(len(run))
			if k > 0 {
				s.preempt--
			}
			return run[k]
		}
		if !s.fireTimer() {
			return nil
		}
	}
}

func (s *sched) fireTimer() bool {
	bi := -1
	for i, t := range s.timers {
		if t.dead {
			continue
		}
		if bi < 0 || t.at < s.timers[bi].at {
			bi = i
		}
	}
	if bi < 0 {
		return false
	}
	t := s.timers[bi]
	s.timers = append(append([]*timer{}, s.timers[:bi]...), s.timers[bi+1:]...)
	if t.at > s.now {
		s.now = t.at
	}
	t.fire()
	return true
}

// wait blocks until ready holds.
func (fr *frame) wait(ready func() bool) {
	w := fr.w
	s := w.sched
	g := fr.g
	if s == nil || w.initing > 0 {
		if ready() {
			return
		}
		panic(unsupported("blocking operation during package initialisation"))
	}
	if ready() {
		return
	}
	g.ready = ready
	fr.switchTo(s.pick(w, g, false))
	g.ready = nil
}

// yield lets every other runnable goroutine run until it blocks.
func (fr *frame) yield() {
	s := fr.w.sched
	if s == nil {
		return
	}
	n := len(s.gs)
	for i := 1; i < n; i++ {
		o := s.gs[(fr.g.id+i)%n]
		if !o.done && (o.ready == nil || o.ready()) {
			fr.switchTo(o)
			return
		}
	}
}

// quiesce lets other goroutines run until all of them are blocked (virtual
// time does not advance).
func (fr *frame) quiesce() {
	s := fr.w.sched
	for k := 0; k < 10000; k++ {
		n := len(s.gs)
		var next *goroutine
		for i := 1; i < n; i++ {
			o := s.gs[(fr.g.id+i)%n]
			if !o.done && (o.ready == nil || o.ready()) {
				next = o
				break
			}
		}
		if next == nil {
			return
		}
		fr.switchTo(next)
	}
	panic(ctrl{stopLimit, "goroutines did not quiesce"})
}

func (fr *frame) switchTo(n *goroutine) {
	w := fr.w
	s := w.sched
	g := fr.g
	if n == nil {
		e := ctrl{stopDeadlock, "all goroutines are blocked" + w.where()}
		if g.id == 0 {
			panic(e)
		}
		s.end = &e
		s.gs[0].wake <- struct{}{}
		<-g.wake
		panic(ctrl{stopKilled, ""})
	}
	if n == g {
		return
	}
	saved := w.curFrame
	s.cur = n
	n.wake <- struct{}{}
	<-g.wake
	if s.dying {
		panic(ctrl{stopKilled, ""})
	}
	if s.end != nil {
		panic(*s.end)
	}
	s.cur = g
	w.curFrame = saved
}

// syncPoint is called at synchronisation operations of the module under test;
// with preemption enabled it may switch to any runnable goroutine.
func (fr *frame) syncPoint() {
	w := fr.w
	s := w.sched
	if s == nil || s.preempt <= 0 || w.initing > 0 {
		return
	}
	var run []*goroutine
	for _, o := range s.gs {
		if o != fr.g && !o.done && (o.ready == nil || o.ready()) {
			run = append(run, o)
		}
	}
	if len(run) == 0 {
		return
	}
	k := w.path.Choose(len(run) + 1)
	if k == 0 {
		return
	}
	s.preempt--
	fr.switchTo(run[k-1])
}

// ---- channels ----

// chanOp is one case of a select, or a single operation.
type chanOp struct {
	ch   *Chan
	send bool
	v    Value
	et   types.Type
}

func first(q *[]*chanWait) *chanWait {
	for len(*q) > 0 {
		if !(*q)[0].w.over {
			return (*q)[0]
		}
		*q = (*q)[1:]
	}
	return nil
}

// ready reports whether the operation can happen now.
func (o *chanOp) ready() bool {
	ch := o.ch
	if ch == nil {
		return false
	}
	if o.send {
		return ch.closed || len(ch.buf) < ch.cap || first(&ch.recvq) != nil
	}
	return ch.closed || len(ch.buf) > 0 || first(&ch.sendq) != nil
}

// do carries a ready operation out.
func (fr *frame) do(o *chanOp) (Value, bool) {
	ch, r := o.ch, fr.w.race
	if o.send {
		if ch.closed {
			fr.rtErrPlain("send on closed channel")
		}
		if r != nil {
			r.release(fr.g, ch)
		}
		if rw := first(&ch.recvq); rw != nil {
			rw.w.over, rw.w.done, rw.w.k, rw.w.v = true, true, rw.k, o.v
			if r != nil && ch.cap == 0 {
				r.acquire(fr.g, ch)
			}
			return nil, false
		}
		ch.buf = append(ch.buf, o.v)
		return nil, false
	}
	if r != nil {
		r.acquire(fr.g, ch)
		if ch.cap == 0 {
			r.release(fr.g, ch)
		}
	}
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = ch.buf[1:]
		if s := first(&ch.sendq); s != nil {
			ch.buf = append(ch.buf, s.v)
			s.w.over, s.w.done, s.w.k = true, true, s.k
		}
		return v, true
	}
	if s := first(&ch.sendq); s != nil {
		s.w.over, s.w.done, s.w.k = true, true, s.k
		return s.v, true
	}
	return zero(o.et), false
}

// perform does one of the operations, waiting until one can happen.
func (fr *frame) perform(ops []chanOp) (k int, v Value, ok bool) {
	ready := func() (r []int) {
		for i := range ops {
			if ops[i].ready() {
				r = append(r, i)
			}
		}
		return
	}
	r := ready()
	if len(r) == 0 {
		w := &waiter{}
		race := fr.w.race
		for i := range ops {
			o := &ops[i]
			if o.ch == nil {
				continue
			}
			cw := &chanWait{w: w, k: i, v: o.v}
			if race != nil && (o.send || o.ch.cap == 0) {
				race.release(fr.g, o.ch)
			}
			if o.send {
				o.ch.sendq = append(o.ch.sendq, cw)
			} else {
				o.ch.recvq = append(o.ch.recvq, cw)
			}
		}
		func() {
			defer func() { w.over = true }()
			fr.wait(func() bool {
				if w.done {
					return true
				}
				for i := range ops {
					// the queues only hold waiters while nothing can happen, so
					// look for what needs no partner
					ch := ops[i].ch
					if ch != nil && (ch.closed || !ops[i].send && len(ch.buf) > 0 || ops[i].send && len(ch.buf) < ch.cap) {
						return true
					}
				}
				return false
			})
		}()
		if w.done {
			if race != nil {
				race.acquire(fr.g, ops[w.k].ch)
			}
			return w.k, w.v, true
		}
		r = ready()
	}
	k = r[0]
	if len(r) > 1 {
		k = r[fr.w.path.Choose(len(r))]
	}
	v, ok = fr.do(&ops[k])
	return
}

func (fr *frame) chanSend(ch *Chan, v Value) {
	fr.syncPoint()
	fr.perform([]chanOp{{ch: ch, send: true, v: v}})
}

func (fr *frame) chanRecv(ch *Chan, et types.Type) (Value, bool) {
	fr.syncPoint()
	_, v, ok := fr.perform([]chanOp{{ch: ch, et: et}})
	return v, ok
}

func (fr *frame) chanClose(ch *Chan) {
	if ch == nil {
		fr.rtErrPlain("close of nil channel")
	}
	fr.syncPoint()
	if ch.closed {
		fr.rtErrPlain("close of closed channel")
	}
	if fr.w.race != nil {
		fr.w.race.release(fr.g, ch)
	}
	ch.closed = true
	fr.w.trail(func() { ch.closed = false })
}

type selCase struct {
	ch   opd
	val  opd
	send bool
	et   types.Type
}

func (c *compiler) selectI(in *ssa.Select) instr {
	dst := c.slot(in)
	var cases []selCase
	for _, s := range in.States {
		sc := selCase{ch: c.op(s.Chan), send: s.Dir == types.SendOnly}
		sc.et = s.Chan.Type().Underlying().(*types.Chan).Elem()
		if sc.send {
			sc.val = c.op(s.Send)
		}
		cases = append(cases, sc)
	}
	blocking := in.Blocking
	nrecv := 0
	recvPos := make([]int, len(cases))
	for i := range cases {
		if !cases[i].send {
			recvPos[i] = nrecv
			nrecv++
		}
	}
	return func(fr *frame) {
		fr.syncPoint()
		ops := make([]chanOp, len(cases))
		for i := range cases {
			ops[i] = chanOp{ch: fr.get(&cases[i].ch).(*Chan), send: cases[i].send, et: cases[i].et}
			if cases[i].send {
				ops[i].v = fr.get(&cases[i].val)
			}
		}
		res := make(Tuple, 2+nrecv)
		for i := range cases {
			if !cases[i].send {
				res[2+recvPos[i]] = zero(cases[i].et)
			}
		}
		res[1] = false
		if !blocking {
			any := false
			for i := range ops {
				any = any || ops[i].ready()
			}
			if !any {
				neg := int64(-1)
				res[0] = Int(uint64(neg))
				fr.regs[dst] = res
				return
			}
		}
		k, v, ok := fr.perform(ops)
		res[0] = Int(k)
		if !cases[k].send {
			res[1] = ok
			res[2+recvPos[k]] = v
		}
		fr.regs[dst] = res
	}
}
