package main

import (
	"fmt"
	"go/token"
	"math"
)

const tokLSS = token.LSS

type muKey struct {
	o   *Object
	off uint64
}

type muState struct {
	locked  bool // writer holds it
	owner   int
	readers int
	pendW   *Gor // RWMutex: writer that announced itself and waits for readers
	waiters []*Gor
	rwait   []*Gor
	n       int64 // WaitGroup counter
	// WaitGroup waiters whose count reached zero but which have not resumed yet
	released []*Gor
}

type wgroup struct {
	done    bool
	idx     int
	val     Value
	ok      bool
	closedP bool
	granted bool
}

type waiter struct {
	g   *Gor
	grp *wgroup
	idx int
	val Value
	vc  []int32
}

type timer struct {
	id     int
	at     Value
	period Value
	ch     *Chan
	fn     *Closure
	g      *Gor // sleeping goroutine
	obj    *Object
	dead   bool
}

func (m *Machine) mu(p Value) *muState {
	o, ok := p.P.(*Object)
	if !ok {
		panic(rtPanic{msg: "runtime error: invalid memory address or nil pointer dereference"})
	}
	k := muKey{o, p.N}
	s := m.mus[k]
	if s == nil {
		s = &muState{}
		m.mus[k] = s
	}
	return s
}

func (m *Machine) spawn(g *Gor, c *callInfo, fnv Value, args []Value) {
	ng := &Gor{id: len(m.gors)}
	m.gors = append(m.gors, ng)
	if len(m.gors) > 500 {
		panic(unsupported("more than 500 goroutines"))
	}
	ng.name = m.where(g)
	if m.h.race {
		m.raceFork(g, ng)
	}
	// resolve the callee now
	_, st := m.doCall(ng, nil, c, fnv, args, math.MinInt32)
	if st == stDone {
		ng.st = gDone
		return
	}
	if st != stCall {
		panic(unsupported("go statement on a blocking primitive"))
	}
}

// enabled goroutines, current first
func (m *Machine) runnable() []*Gor {
	var r []*Gor
	if m.cur != nil && m.cur.st == gRun && m.cur.id >= 0 {
		r = append(r, m.cur)
	}
	// round robin after the current one
	n := len(m.gors)
	start := 0
	if m.cur != nil && m.cur.id >= 0 {
		start = m.cur.id + 1
	}
	for i := 0; i < n; i++ {
		x := m.gors[(start+i)%n]
		if x != m.cur && x.st == gRun {
			r = append(r, x)
		}
	}
	return r
}

// yield is a scheduling point before a visible operation. It returns true when another goroutine runs first.
func (m *Machine) yield(g *Gor, why string) bool {
	if g.passed {
		g.passed = false
		return false
	}
	if m.initing > 0 || m.devs <= 0 || len(m.gors) == 1 && len(m.timers) == 0 {
		return false
	}
	r := m.runnable()
	n := len(r)
	tm := 0
	if m.h.earlyTimers && len(m.timers) > 0 {
		tm = 1
	}
	if n+tm <= 1 {
		return false
	}
	c := m.choose(n+tm, "sched", true)
	if c == 0 {
		return false
	}
	m.devs--
	if c == n {
		m.fireTimer()
		return false
	}
	g.passed = true
	m.cur = r[c]
	m.tracef(r[c], "preempts "+fmt.Sprint(g.id)+" at "+why)
	return true
}

func (m *Machine) tracef(g *Gor, why string) {
	if len(m.trace) < 400 {
		m.trace = append(m.trace, schedEv{g.id, m.where(g), why})
	}
}

func (m *Machine) block(g *Gor, why string) status {
	g.st = gBlocked
	g.why = why
	return stBlock
}

func (m *Machine) wake(g *Gor) {
	if g.st == gBlocked {
		g.st = gRun
		g.why = ""
	}
}

// schedule runs goroutines until main ends.
func (m *Machine) schedule() {
	main := m.gors[0]
	m.cur = main
	for {
		m.run(m.cur)
		if main.st == gDone {
			return
		}
		if m.cur.st == gRun {
			continue // preempted: m.cur is already the chosen one
		}
		r := m.runnable()
		if len(r) == 0 {
			if m.settle() {
				continue
			}
			if len(m.timers) > 0 {
				m.ticks++
				if m.ticks > m.h.maxTicks {
					m.hang("no progress while timers keep firing")
				}
				m.fireTimer()
				continue
			}
			m.deadlock()
		}
		c := 0
		if len(r) > 1 && (m.devs > 0 || m.h.freeBlock) {
			c = m.choose(len(r), "sched", true)
			if c != 0 && !m.h.freeBlock {
				m.devs--
			}
		}
		if c != 0 {
			m.tracef(r[c], fmt.Sprintf("chosen after %d blocked/ended", m.cur.id))
		}
		m.cur = r[c]
	}
}

func (m *Machine) fireTimer() {
	// earliest deadline; symbolic deadlines split the path
	best := 0
	for i := 1; i < len(m.timers); i++ {
		if m.truth(m.binop(token.LSS, intRT, intRT, m.timers[i].at, m.timers[best].at)) {
			best = i
		}
	}
	t := m.timers[best]
	if m.truth(m.binop(token.LSS, intRT, intRT, m.now, t.at)) {
		m.now = t.at
	}
	if t.period.P != nil || t.period.N != 0 {
		t.at = m.binop(token.ADD, intRT, intRT, t.at, t.period)
	} else {
		m.timers = append(m.timers[:best:best], m.timers[best+1:]...)
		t.dead = true
	}
	switch {
	case t.g != nil:
		m.wake(t.g)
	case t.ch != nil:
		m.trySend(t.ch, m.timeValue())
	case t.fn != nil:
		ng := &Gor{id: len(m.gors), name: "timer func"}
		m.gors = append(m.gors, ng)
		_, st := m.callClosure(ng, nil, &callInfo{}, t.fn, nil, math.MinInt32)
		if st == stDone {
			ng.st = gDone
		}
	}
}

// ---- channels ----

func (m *Machine) chanSave(c *Chan) {
	if c.init && m.initing == 0 && !c.saved {
		c.saved = true
		cp := *c
		cp.saved = false
		cp.buf = append([]Value(nil), c.buf...)
		m.undoFn = append(m.undoFn, func() { *c = cp })
	}
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.grp.done {
			return w
		}
	}
	return nil
}

func hasWaiter(q []*waiter) bool {
	for _, w := range q {
		if !w.grp.done {
			return true
		}
	}
	return false
}

// trySend completes a send if it needs no waiting.
func (m *Machine) trySend(c *Chan, v Value) bool {
	m.chanSave(c)
	if c.closed {
		panic(rtPanic{msg: "send on closed channel"})
	}
	if w := popWaiter(&c.recvq); w != nil {
		w.grp.done, w.grp.idx, w.grp.val, w.grp.ok = true, w.idx, v, true
		m.hbPeer(w)
		m.wake(w.g)
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf[:len(c.buf):len(c.buf)], v)
		return true
	}
	return false
}

func (m *Machine) tryRecv(c *Chan, et *RType) (v Value, ok, done bool) {
	m.chanSave(c)
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = append([]Value(nil), c.buf[1:]...)
		if w := popWaiter(&c.sendq); w != nil {
			c.buf = append(c.buf, w.val)
			w.grp.done, w.grp.idx, w.grp.ok = true, w.idx, true
			m.hbPeer(w)
			m.wake(w.g)
		}
		return v, true, true
	}
	if w := popWaiter(&c.sendq); w != nil {
		w.grp.done, w.grp.idx, w.grp.ok = true, w.idx, true
		m.hbPeer(w)
		m.wake(w.g)
		return w.val, true, true
	}
	if c.closed {
		return zeroOf(et), false, true
	}
	return Value{}, false, false
}

func (m *Machine) chanSend(g *Gor, cv, v Value, ci *cinstr) status {
	if g.grp != nil {
		grp := g.grp
		if !grp.done {
			return m.block(g, "chan send")
		}
		g.grp = nil
		m.hbAcqK(g, cv.P.(*Chan))
		if grp.closedP {
			panic(rtPanic{msg: "send on closed channel"})
		}
		return stDone
	}
	if m.yield(g, "send") {
		return stYield
	}
	if cv.P == nil {
		return m.block(g, "send on nil channel")
	}
	c := cv.P.(*Chan)
	m.hbChan(g, c)
	if m.trySend(c, v) {
		return stDone
	}
	g.grp = &wgroup{}
	c.sendq = append(c.sendq, &waiter{g: g, grp: g.grp, val: v})
	return m.block(g, "chan send")
}

func (m *Machine) chanRecv(g *Gor, cv Value, et *RType, ci *cinstr) (Value, bool, status) {
	if g.grp != nil {
		grp := g.grp
		if !grp.done {
			return Value{}, false, m.block(g, "chan receive")
		}
		g.grp = nil
		if cv.P != nil {
			m.hbChan(g, cv.P.(*Chan))
		}
		return grp.val, grp.ok, stDone
	}
	if m.yield(g, "receive") {
		return Value{}, false, stYield
	}
	if cv.P == nil {
		return Value{}, false, m.block(g, "receive on nil channel")
	}
	c := cv.P.(*Chan)
	m.hbChan(g, c)
	v, ok, done := m.tryRecv(c, et)
	if done {
		return v, ok, stDone
	}
	g.grp = &wgroup{}
	c.recvq = append(c.recvq, &waiter{g: g, grp: g.grp})
	return Value{}, false, m.block(g, "chan receive")
}

func (m *Machine) chanClose(g *Gor, cv Value) status {
	if cv.P == nil {
		panic(rtPanic{msg: "close of nil channel"})
	}
	c := cv.P.(*Chan)
	m.chanSave(c)
	if c.closed {
		panic(rtPanic{msg: "close of closed channel"})
	}
	m.hbChan(g, c)
	c.closed = true
	for {
		w := popWaiter(&c.recvq)
		if w == nil {
			break
		}
		w.grp.done, w.grp.idx, w.grp.ok, w.grp.val = true, w.idx, false, zeroOf(c.et)
		m.wake(w.g)
	}
	for {
		w := popWaiter(&c.sendq)
		if w == nil {
			break
		}
		w.grp.done, w.grp.idx, w.grp.closedP = true, w.idx, true
		m.wake(w.g)
	}
	return stDone
}

type selCase struct {
	send bool
	c    *Chan
	val  Value
	t    *RType
}

// selectOn runs a select. It returns the chosen case (-1: default), the received value and ok.
func (m *Machine) selectOn(g *Gor, cases []selCase, blocking bool) (int, Value, bool, status) {
	if g.grp != nil {
		grp := g.grp
		if !grp.done {
			return 0, Value{}, false, m.block(g, "select")
		}
		g.grp = nil
		if cases[grp.idx].c != nil {
			m.hbChan(g, cases[grp.idx].c)
		}
		if grp.closedP {
			panic(rtPanic{msg: "send on closed channel"})
		}
		return grp.idx, grp.val, grp.ok, stDone
	}
	if m.yield(g, "select") {
		return 0, Value{}, false, stYield
	}
	var ready []int
	for i, k := range cases {
		if k.c == nil {
			continue
		}
		if k.send {
			if k.c.closed || hasWaiter(k.c.recvq) || len(k.c.buf) < k.c.cap {
				ready = append(ready, i)
			}
		} else if len(k.c.buf) > 0 || hasWaiter(k.c.sendq) || k.c.closed {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		i := ready[0]
		if len(ready) > 1 {
			i = ready[m.choose(len(ready), "select", true)]
		}
		k := cases[i]
		m.hbChan(g, k.c)
		if k.send {
			m.trySend(k.c, k.val)
			return i, Value{}, false, stDone
		}
		v, ok, _ := m.tryRecv(k.c, k.t)
		return i, v, ok, stDone
	}
	if !blocking {
		return -1, Value{}, false, stDone
	}
	g.grp = &wgroup{}
	for i, k := range cases {
		if k.c == nil {
			continue
		}
		w := &waiter{g: g, grp: g.grp, idx: i, val: k.val, vc: m.hbSnap(g)}
		if k.send {
			k.c.sendq = append(k.c.sendq, w)
		} else {
			k.c.recvq = append(k.c.recvq, w)
		}
	}
	return 0, Value{}, false, m.block(g, "select")
}

func (m *Machine) doSelect(g *Gor, f *Frame, ci *cinstr) (Value, status) {
	cases := make([]selCase, len(ci.sub))
	for i, s := range ci.sub {
		k := selCase{send: s.send, t: s.t}
		if c := m.get(f, s.ch); c.P != nil {
			k.c = c.P.(*Chan)
		}
		if s.send {
			k.val = m.get(f, s.val)
		}
		cases[i] = k
	}
	idx, v, ok, st := m.selectOn(g, cases, ci.flag)
	if st != stDone {
		return Value{}, st
	}
	res := []Value{intV(int64(idx)), boolV(ok)}
	for i, k := range cases {
		if k.send {
			continue
		}
		if i == idx {
			res = append(res, v)
		} else {
			res = append(res, zeroOf(k.t))
		}
	}
	return Value{P: &Agg{f: res}}, stDone
}

// ---- mutexes ----

func (m *Machine) lock(g *Gor, p Value) status {
	s := m.mu(p)
	if m.yield(g, "Lock") {
		return stYield
	}
	if s.locked {
		s.waiters = append(s.waiters, g)
		g.passed = true
		return m.block(g, "Mutex.Lock")
	}
	s.locked, s.owner = true, g.id
	m.hbAcq(g, p)
	return stDone
}

func (m *Machine) unlock(g *Gor, p Value) status {
	s := m.mu(p)
	if !s.locked {
		panic(rtPanic{msg: "fatal error: sync: unlock of unlocked mutex", fatal: true})
	}
	m.hbRel(g, p)
	s.locked = false
	for _, w := range s.waiters {
		m.wake(w)
	}
	s.waiters = nil
	return stDone
}

func (m *Machine) rlock(g *Gor, p Value) status {
	s := m.mu(p)
	if g.grp != nil && g.grp.granted {
		g.grp = nil
		m.hbAcq(g, p)
		return stDone
	}
	if m.yield(g, "RLock") {
		return stYield
	}
	if s.locked || s.pendW != nil {
		s.rwait = append(s.rwait, g)
		return m.block(g, "RWMutex.RLock")
	}
	s.readers++
	m.hbAcq(g, p)
	return stDone
}

func (m *Machine) runlock(g *Gor, p Value) status {
	s := m.mu(p)
	if s.readers == 0 {
		panic(rtPanic{msg: "fatal error: sync: RUnlock of unlocked RWMutex", fatal: true})
	}
	m.hbRelR(g, p)
	s.readers--
	if s.readers == 0 && s.pendW != nil {
		m.wake(s.pendW)
	}
	return stDone
}

func (m *Machine) wlock(g *Gor, p Value) status {
	s := m.mu(p)
	if s.pendW == g {
		if s.readers > 0 {
			return m.block(g, "RWMutex.Lock")
		}
		g.passed = false
		s.pendW = nil
		s.locked, s.owner = true, g.id
		m.hbAcqW(g, p)
		return stDone
	}
	if m.yield(g, "Lock") {
		return stYield
	}
	if s.locked || s.pendW != nil {
		s.waiters = append(s.waiters, g)
		g.passed = true
		return m.block(g, "RWMutex.Lock")
	}
	if s.readers > 0 {
		s.pendW = g
		return m.block(g, "RWMutex.Lock")
	}
	s.locked, s.owner = true, g.id
	m.hbAcqW(g, p)
	return stDone
}

func (m *Machine) wunlock(g *Gor, p Value) status {
	s := m.mu(p)
	if !s.locked {
		panic(rtPanic{msg: "fatal error: sync: Unlock of unlocked RWMutex", fatal: true})
	}
	m.hbRel(g, p)
	s.locked = false
	for _, r := range s.rwait {
		s.readers++
		r.grp = &wgroup{granted: true}
		m.wake(r)
	}
	s.rwait = nil
	for _, w := range s.waiters {
		m.wake(w)
	}
	s.waiters = nil
	return stDone
}
