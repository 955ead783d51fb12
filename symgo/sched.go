package main

import (
	"fmt"
	"go/token"
	"strings"
)

// Gor is a goroutine of the program under test. Exactly one runs at a time;
// control is handed over at synchronisation operations.
type Gor struct {
	id    int
	wake  chan bool // true: run, false: die
	done  bool
	ready func() bool // nil: runnable
	what  string
	vc    []int32
	depth int
}

type goKilled struct{}

type Sched struct {
	w      *Worker
	gs     []*Gor
	cur    *Gor
	budget int
	abort  *pathAbort
	enerr  any
	finish chan struct{}
	shadow map[any]*access
	rr     int
}

type access struct {
	wg     int
	wc     int32
	wpos   func() string
	reads  map[int]int32
	rpos   map[int]func() string
	hasW   bool
}

type ChanV struct {
	id     int
	cap    int
	buf    []chanItem
	closed bool
	cvc    []int32
	sendq  []*sendWait
	slotvc []int32
	nrecv  int // goroutines blocked in a receive
}
type chanItem struct {
	v  Value
	vc []int32
}
type sendWait struct {
	g    *Gor
	v    Value
	done bool
	rvc  []int32
}

func (w *Worker) execMain() *pathAbort {
	s := &Sched{w: w, budget: w.ex.lim.Sched, finish: make(chan struct{}), shadow: map[any]*access{}}
	w.sched = s
	m := &Gor{id: 0, wake: make(chan bool, 1), vc: []int32{1}}
	s.gs = []*Gor{m}
	s.cur = m
	go s.body(m, func() {
		w.initPkg(m, w.ex.harness.Pkg)
		w.call(m, nil, w.ex.harness, nil, token.NoPos)
	})
	m.wake <- true
	<-s.finish
	// kill the rest
	n := 0
	for _, g := range s.gs {
		if !g.done {
			n++
			g.wake <- false
		}
	}
	for ; n > 0; n-- {
		<-s.finish
	}
	if s.enerr != nil {
		panic(s.enerr)
	}
	return s.abort
}

func (s *Sched) body(g *Gor, f func()) {
	if !<-g.wake {
		g.done = true
		s.finish <- struct{}{}
		return
	}
	defer func() {
		r := recover()
		switch x := r.(type) {
		case nil:
		case goKilled:
			g.done = true
			s.finish <- struct{}{}
			return
		case pathAbort:
			s.setAbort(&x)
		case engineError:
			s.setAbort(&pathAbort{"unsupported", string(x)})
		case targetPanic:
			s.setAbort(&pathAbort{"panic", "panic: " + s.w.panicText(x.v) + " at " + x.where})
		default:
			if s.abort == nil {
				if len(fmt.Sprint(x)) > 0 && !engineStrict {
					s.setAbort(&pathAbort{"unsupported", "engine: " + fmt.Sprint(x)})
				} else {
					s.enerr = r
					s.setAbort(&pathAbort{"unsupported", "engine"})
				}
			}
		}
		g.done = true
		if g.id == 0 || s.abort != nil {
			s.finish <- struct{}{}
			return
		}
		s.next(g)
	}()
	f()
}

func (s *Sched) setAbort(a *pathAbort) {
	if s.abort == nil {
		s.abort = a
	}
}

// runnable goroutines other than g.
func (s *Sched) runnable(g *Gor) []*Gor {
	var r []*Gor
	n := len(s.gs)
	for i := 1; i <= n; i++ {
		x := s.gs[(g.id+i)%n]
		if x == g || x.done {
			continue
		}
		if x.ready == nil || x.ready() {
			r = append(r, x)
		}
	}
	return r
}

// next transfers control away from g, which has finished.
func (s *Sched) next(g *Gor) {
	r := s.runnable(g)
	if len(r) == 0 {
		s.setAbort(&pathAbort{"deadlock", s.deadlockMsg()})
		s.finish <- struct{}{}
		return
	}
	k := 0
	if s.w.ex.lim.Sched > 0 && len(r) > 1 {
		k = s.w.choose(len(r))
	}
	s.cur = r[k]
	r[k].ready = nil
	r[k].wake <- true
}

func (s *Sched) deadlockMsg() string {
	var b []string
	for _, g := range s.gs {
		if !g.done {
			b = append(b, fmt.Sprintf("goroutine %d: %s", g.id, g.what))
		}
	}
	return "all goroutines are blocked: " + strings.Join(b, ", ")
}

func (s *Sched) switchTo(g, to *Gor) {
	s.cur = to
	to.ready = nil
	to.wake <- true
	if !<-g.wake {
		panic(goKilled{})
	}
}

// block waits until ready() holds.
func (s *Sched) block(g *Gor, what string, ready func() bool) {
	if ready() {
		return
	}
	g.ready, g.what = ready, what
	r := s.runnable(g)
	if len(r) == 0 {
		panic(pathAbort{"deadlock", s.deadlockMsg()})
	}
	k := 0
	if s.w.ex.lim.Sched > 0 && len(r) > 1 {
		k = s.w.choose(len(r))
	}
	s.switchTo(g, r[k])
	g.ready = nil
}

// preempt is a scheduling point.
func (s *Sched) preempt(g *Gor) {
	if len(s.gs) < 2 || s.budget <= 0 {
		return
	}
	r := s.runnable(g)
	if len(r) == 0 {
		return
	}
	k := s.w.choose(len(r) + 1)
	if k == 0 {
		return
	}
	s.budget--
	s.switchTo(g, r[k-1])
}

// quiesce lets every other goroutine run until it ends or blocks; returns the
// number of goroutines that are still alive (blocked).
func (s *Sched) quiesce(g *Gor) int {
	for {
		r := s.runnable(g)
		if len(r) == 0 {
			break
		}
		s.switchTo(g, r[0])
	}
	n := 0
	for _, x := range s.gs {
		if x != g && !x.done {
			n++
		}
	}
	return n
}

// ---- vector clocks

func vcJoin(a, b []int32) []int32 {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i := range b {
		if b[i] > a[i] {
			a[i] = b[i]
		}
	}
	return a
}
func vcCopy(a []int32) []int32 { return append([]int32{}, a...) }
func (g *Gor) tick() {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}
func vcGet(a []int32, i int) int32 {
	if i < len(a) {
		return a[i]
	}
	return 0
}

func (s *Sched) tracking() bool { return len(s.gs) > 1 && s.w.ex.lim.Race }

func (s *Sched) read(g *Gor, cell any, pos func() string) {
	if !s.tracking() {
		return
	}
	a := s.shadow[cell]
	if a == nil {
		a = &access{}
		s.shadow[cell] = a
	}
	if a.hasW && a.wg != g.id && vcGet(g.vc, a.wg) < a.wc {
		s.race("write at "+a.wpos(), "read at "+pos())
	}
	if a.reads == nil {
		a.reads = map[int]int32{}
		a.rpos = map[int]func() string{}
	}
	a.reads[g.id] = vcGet(g.vc, g.id)
	a.rpos[g.id] = pos
}

func (s *Sched) write(g *Gor, cell any, pos func() string) {
	if !s.tracking() {
		return
	}
	a := s.shadow[cell]
	if a == nil {
		a = &access{}
		s.shadow[cell] = a
	}
	if a.hasW && a.wg != g.id && vcGet(g.vc, a.wg) < a.wc {
		s.race("write at "+a.wpos(), "write at "+pos())
	}
	for id, c := range a.reads {
		if id != g.id && vcGet(g.vc, id) < c {
			s.race("read at "+a.rpos[id](), "write at "+pos())
		}
	}
	a.hasW, a.wg, a.wc, a.wpos = true, g.id, vcGet(g.vc, g.id), pos
	a.reads, a.rpos = nil, nil
}

func (s *Sched) race(a, b string) {
	if s.w.raceSeen {
		return
	}
	s.w.raceSeen = true
	s.w.violate("race", "data race: "+a+" and "+b+" are not ordered", s.w.c.True)
}

// ---- operations

func (w *Worker) spawn(g *Gor, fnv Value, args []Value, pos token.Pos) {
	s := w.sched
	if len(s.gs) > 40000 {
		panic(pathAbort{"limit", "more than 40000 goroutines"})
	}
	n := &Gor{id: len(s.gs), wake: make(chan bool, 1)}
	g.tick()
	n.vc = vcCopy(g.vc)
	n.tick()
	s.gs = append(s.gs, n)
	go s.body(n, func() { w.call(n, nil, fnv, args, pos) })
	s.preempt(g)
}

func (w *Worker) chanSend(g *Gor, ch *ChanV, v Value) {
	s := w.sched
	if ch == nil {
		s.block(g, "send on nil channel", func() bool { return false })
	}
	s.preempt(g)
	if ch.closed {
		w.panicRT(nil, "send on closed channel")
	}
	g.tick()
	if ch.cap > 0 {
		s.block(g, "send", func() bool { return len(ch.buf) < ch.cap || ch.closed })
		if ch.closed {
			w.panicRT(nil, "send on closed channel")
		}
		g.vc = vcJoin(g.vc, ch.slotvc)
		ch.buf = append(ch.buf, chanItem{v, vcCopy(g.vc)})
		g.tick()
		s.preempt(g)
		return
	}
	sw := &sendWait{g: g, v: v}
	ch.sendq = append(ch.sendq, sw)
	s.block(g, "send", func() bool { return sw.done || ch.closed })
	if !sw.done {
		w.panicRT(nil, "send on closed channel")
	}
	g.vc = vcJoin(g.vc, sw.rvc)
	g.tick()
	s.preempt(g)
}

func (ch *ChanV) canRecv() bool { return len(ch.buf) > 0 || len(ch.sendq) > 0 || ch.closed }

func (w *Worker) recvNow(g *Gor, ch *ChanV) (Value, bool) {
	g.tick()
	if len(ch.buf) > 0 {
		it := ch.buf[0]
		ch.buf = ch.buf[1:]
		g.vc = vcJoin(g.vc, it.vc)
		ch.slotvc = vcJoin(vcCopy(ch.slotvc), g.vc)
		return it.v, true
	}
	if len(ch.sendq) > 0 {
		sw := ch.sendq[0]
		ch.sendq = ch.sendq[1:]
		g.vc = vcJoin(g.vc, sw.g.vc)
		sw.rvc = vcCopy(g.vc)
		g.tick()
		sw.done = true
		return sw.v, true
	}
	g.vc = vcJoin(g.vc, ch.cvc)
	return nil, false
}

func (w *Worker) chanRecv(g *Gor, ch *ChanV) (Value, bool) {
	s := w.sched
	if ch == nil {
		s.block(g, "receive from nil channel", func() bool { return false })
	}
	s.preempt(g)
	ch.nrecv++
	s.block(g, "receive", ch.canRecv)
	ch.nrecv--
	v, ok := w.recvNow(g, ch)
	s.preempt(g)
	return v, ok
}

func (w *Worker) chanClose(g *Gor, ch *ChanV) {
	if ch == nil {
		w.panicRT(nil, "close of nil channel")
	}
	w.sched.preempt(g)
	if ch.closed {
		w.panicRT(nil, "close of closed channel")
	}
	g.tick()
	ch.closed = true
	ch.cvc = vcCopy(g.vc)
	g.tick()
	w.sched.preempt(g)
}

// select over receive and send cases. Returns index (-1 default), value, ok.
type selCase struct {
	ch   *ChanV
	send bool
	v    Value
}

func (w *Worker) doSelect(g *Gor, cs []selCase, blocking bool) (int, Value, bool) {
	s := w.sched
	s.preempt(g)
	ready := func(i int) bool {
		c := cs[i]
		if c.ch == nil {
			return false
		}
		if c.send {
			return c.ch.closed || len(c.ch.buf) < c.ch.cap || c.ch.nrecv > 0
		}
		return c.ch.canRecv()
	}
	for {
		var r []int
		for i := range cs {
			if ready(i) {
				r = append(r, i)
			}
		}
		if len(r) == 0 {
			if !blocking {
				return -1, nil, false
			}
			s.block(g, "select", func() bool {
				for i := range cs {
					if ready(i) {
						return true
					}
				}
				return false
			})
			continue
		}
		k := 0
		if len(r) > 1 {
			k = w.choose(len(r)) // the language chooses arbitrarily
		}
		i := r[k]
		if cs[i].send {
			w.chanSend(g, cs[i].ch, cs[i].v)
			return i, nil, false
		}
		v, ok := w.recvNow(g, cs[i].ch)
		s.preempt(g)
		return i, v, ok
	}
}

// ---- mutexes (opaqueObj kind "mutex")

type mutexState struct {
	w     int // holder+1
	r     int
	relvc []int32
	rdvc  []int32
}

func mstate(o *opaqueObj) *mutexState {
	if o.data == nil {
		o.data = &mutexState{}
	}
	return o.data.(*mutexState)
}

func (w *Worker) lock(g *Gor, m *mutexState, write bool) {
	s := w.sched
	s.preempt(g)
	if write {
		s.block(g, "Lock", func() bool { return m.w == 0 && m.r == 0 })
		m.w = g.id + 1
		g.vc = vcJoin(vcJoin(g.vc, m.relvc), m.rdvc)
	} else {
		s.block(g, "RLock", func() bool { return m.w == 0 })
		m.r++
		g.vc = vcJoin(g.vc, m.relvc)
	}
	g.tick()
}

func (w *Worker) unlock(g *Gor, m *mutexState, write bool) {
	g.tick()
	if write {
		if m.w == 0 {
			w.panicRT(nil, "unlock of unlocked mutex")
		}
		m.w = 0
		m.relvc = vcCopy(g.vc)
	} else {
		if m.r == 0 {
			w.panicRT(nil, "RUnlock of unlocked mutex")
		}
		m.r--
		m.rdvc = vcJoin(vcCopy(m.rdvc), g.vc)
	}
	g.tick()
	w.sched.preempt(g)
}
