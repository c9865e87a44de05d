package main

import "sort"

// Facts of the current path: the literals known to hold, and the order relations between terms that they imply.
// simp uses them to decide conditions that follow from the path condition by order reasoning alone, and to shrink
// the conditions that are handed to the solver.

type edge struct {
	to     *Term
	strict bool
}

type orderGraph struct {
	out    map[*Term][]edge
	consts []*Term // sorted by value in this graph's signedness
	signed bool
}

type facts struct {
	g   [2]orderGraph // unsigned, signed
	ne  map[[2]*Term]bool
	ver int
	// memo of simp for the current version
	memo    map[*Term]*Term
	memoVer int
}

func newFacts() *facts {
	f := &facts{ne: map[[2]*Term]bool{}, memo: map[*Term]*Term{}}
	for i := range f.g {
		f.g[i].out = map[*Term][]edge{}
		f.g[i].signed = i == 1
	}
	return f
}

func (g *orderGraph) less(a, b *Term) bool {
	if g.signed {
		return sext(a.c, a.w) < sext(b.c, b.w)
	}
	return a.c < b.c
}

func (g *orderGraph) node(t *Term) {
	if t.op != OConst {
		return
	}
	for _, c := range g.consts {
		if c == t {
			return
		}
	}
	g.consts = append(g.consts, t)
	sort.SliceStable(g.consts, func(i, j int) bool {
		if g.consts[i].w != g.consts[j].w {
			return g.consts[i].w < g.consts[j].w
		}
		return g.less(g.consts[i], g.consts[j])
	})
}

func (g *orderGraph) add(a, b *Term, strict bool) {
	g.node(a)
	g.node(b)
	for _, e := range g.out[a] {
		if e.to == b && (e.strict || !strict) {
			return
		}
	}
	g.out[a] = append(g.out[a], edge{b, strict})
}

// reach reports whether a <= b (1) or a < b (2) follows from the recorded edges.
func (g *orderGraph) reach(a, b *Term) int {
	if len(g.out) == 0 {
		return 0
	}
	type st struct {
		t *Term
		s int
	}
	best := map[*Term]int{a: 1}
	work := []st{{a, 1}}
	visit := func(t *Term, s int) {
		if best[t] < s {
			best[t] = s
			work = append(work, st{t, s})
		}
	}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if best[x.t] > x.s {
			continue
		}
		for _, e := range g.out[x.t] {
			s := x.s
			if e.strict {
				s = 2
			}
			visit(e.to, s)
		}
		if x.t.op == OConst {
			if b.op == OConst && b.w == x.t.w {
				if g.less(x.t, b) {
					visit(b, 2)
				} else if x.t == b {
					visit(b, x.s)
				}
			}
			// the next larger known constant
			for _, c := range g.consts {
				if c.w == x.t.w && g.less(x.t, c) {
					visit(c, 2)
					break
				}
			}
		} else {
			continue
		}
	}
	// a smaller end point than a constant b: handled by the constant chain; b constant larger than a reached one
	if b.op == OConst && best[b] == 0 {
		for t, s := range best {
			if t.op == OConst && t.w == b.w {
				if g.less(t, b) {
					return 2
				}
				if t == b {
					return s
				}
			}
		}
	}
	return best[b]
}

func neKey(a, b *Term) [2]*Term {
	if after(a, b) {
		a, b = b, a
	}
	return [2]*Term{a, b}
}

// know records that t holds.
func (m *Machine) know(t *Term) {
	if t.op == OConst || m.pcSet[t] {
		return
	}
	m.pcSet[t] = true
	f := m.facts
	f.ver++
	switch t.op {
	case OAnd:
		m.know(t.a[0])
		m.know(t.a[1])
	case OUlt:
		f.g[0].add(t.a[0], t.a[1], true)
	case OUle:
		f.g[0].add(t.a[0], t.a[1], false)
	case OSlt:
		f.g[1].add(t.a[0], t.a[1], true)
	case OSle:
		f.g[1].add(t.a[0], t.a[1], false)
	case OEq:
		if t.a[0].w > 0 {
			for i := range f.g {
				f.g[i].add(t.a[0], t.a[1], false)
				f.g[i].add(t.a[1], t.a[0], false)
			}
		}
	case ONot:
		n := t.a[0]
		switch n.op {
		case OOr:
			m.know(m.b.Not(n.a[0]))
			m.know(m.b.Not(n.a[1]))
		case OUlt:
			f.g[0].add(n.a[1], n.a[0], false)
		case OUle:
			f.g[0].add(n.a[1], n.a[0], true)
		case OSlt:
			f.g[1].add(n.a[1], n.a[0], false)
		case OSle:
			f.g[1].add(n.a[1], n.a[0], true)
		case OEq:
			if n.a[0].w > 0 {
				f.ne[neKey(n.a[0], n.a[1])] = true
			}
		}
	}
}

// rel: 2 when a < b follows, 1 when a <= b follows.
func (f *facts) rel(signed int, a, b *Term) int {
	r := f.g[signed].reach(a, b)
	if r == 1 && f.ne[neKey(a, b)] {
		return 2
	}
	return r
}

// decide returns 1 or 0 when the literal follows from the facts, -1 otherwise.
func (m *Machine) decide(t *Term) int {
	f := m.facts
	switch t.op {
	case OUlt, OSlt:
		s := 0
		if t.op == OSlt {
			s = 1
		}
		if f.rel(s, t.a[0], t.a[1]) == 2 {
			return 1
		}
		if f.rel(s, t.a[1], t.a[0]) >= 1 {
			return 0
		}
	case OUle, OSle:
		s := 0
		if t.op == OSle {
			s = 1
		}
		if f.rel(s, t.a[0], t.a[1]) >= 1 {
			return 1
		}
		if f.rel(s, t.a[1], t.a[0]) == 2 {
			return 0
		}
	case OEq:
		if t.a[0].w == 0 {
			return -1
		}
		if f.ne[neKey(t.a[0], t.a[1])] {
			return 0
		}
		for s := 0; s < 2; s++ {
			x, y := f.rel(s, t.a[0], t.a[1]), f.rel(s, t.a[1], t.a[0])
			if x == 2 || y == 2 {
				return 0
			}
			if x == 1 && y == 1 {
				return 1
			}
		}
	}
	return -1
}

// simp rewrites t under the facts of the path.
func (m *Machine) simp(t *Term) *Term {
	f := m.facts
	if f.memoVer != f.ver || len(f.memo) > 200000 {
		f.memo = map[*Term]*Term{}
		f.memoVer = f.ver
	}
	return m.simp1(t)
}

func (m *Machine) simp1(t *Term) *Term {
	if t.op == OConst || t.op == OVar && t.w > 0 {
		return t
	}
	f := m.facts
	if r, ok := f.memo[t]; ok {
		return r
	}
	r := t
	if t.w == 0 {
		if m.pcSet[t] {
			r = m.b.Bool(true)
		} else if m.pcSet[m.b.Not(t)] {
			r = m.b.Bool(false)
		}
	}
	if r == t {
		switch t.op {
		case ONot:
			r = m.b.Not(m.simp1(t.a[0]))
		case OAnd:
			x := m.simp1(t.a[0])
			if x.isFalse() {
				r = x
			} else {
				r = m.b.And(x, m.simp1(t.a[1]))
			}
		case OOr:
			x := m.simp1(t.a[0])
			if x.isTrue() {
				r = x
			} else {
				r = m.b.Or(x, m.simp1(t.a[1]))
			}
		case OIte:
			c := m.simp1(t.a[0])
			switch {
			case c.isTrue():
				r = m.simp1(t.a[1])
			case c.isFalse():
				r = m.simp1(t.a[2])
			default:
				r = m.b.Ite(c, m.simp1(t.a[1]), m.simp1(t.a[2]))
			}
		case OEq:
			x, y := m.simp1(t.a[0]), m.simp1(t.a[1])
			r = m.b.Eq(x, y)
			if r.op == OEq {
				if d := m.decide(r); d >= 0 {
					r = m.b.Bool(d == 1)
				}
			}
		case OUlt, OUle, OSlt, OSle:
			x, y := m.simp1(t.a[0]), m.simp1(t.a[1])
			r = m.b.Bin(t.op, 0, x, y)
			if r.w == 0 && (r.op == OUlt || r.op == OUle || r.op == OSlt || r.op == OSle || r.op == OEq) {
				if d := m.decide(r); d >= 0 {
					r = m.b.Bool(d == 1)
				}
			}
		case OAdd, OSub:
			r = m.b.Bin(t.op, t.w, m.simp1(t.a[0]), m.simp1(t.a[1]))
		}
	}
	f.memo[t] = r
	return r
}
