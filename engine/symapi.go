package main

import (
	"go/token"
	"math"
)

const (
	tokSUB = token.SUB
	tokADD = token.ADD
)

type InputVar struct {
	Name string
	Kind string
	w    uint8
	t    *Term
	n    uint64
}

type Observation struct {
	Label string
	vals  []Value
	types []*RType
}

func (m *Machine) freshVar(w uint8, def uint64) *Term {
	t := m.b.Var(m.nvars, w)
	if len(m.model) <= m.nvars {
		for len(m.model) < m.nvars {
			m.model = append(m.model, 0)
		}
		m.model = append(m.model[:len(m.model):len(m.model)], def)
		m.ev.m = m.model
	}
	m.nvars++
	return t
}

func (m *Machine) input(name, kind string, w uint8) *Term {
	t := m.freshVar(w, 0)
	m.inputs = append(m.inputs, InputVar{Name: name, Kind: kind, w: w, t: t})
	return t
}

func regSym(reg func(intrinsic, ...string)) {
	P := symPath + "."
	scalar := func(kind string, w uint8) intrinsic {
		return ret(func(m *Machine, g *Gor, a []Value) Value {
			return Value{P: m.input(mustStr(a[0], "input name"), kind, w)}
		})
	}
	reg(scalar("bool", 0), P+"Bool")
	reg(scalar("int", 64), P+"Int", P+"Int64")
	reg(scalar("int32", 32), P+"Int32")
	reg(scalar("int16", 16), P+"Int16")
	reg(scalar("int8", 8), P+"Int8")
	reg(scalar("uint", 64), P+"Uint", P+"Uint64")
	reg(scalar("uint32", 32), P+"Uint32")
	reg(scalar("uint16", 16), P+"Uint16")
	reg(scalar("uint8", 8), P+"Uint8")
	reg(scalar("float32", 32), P+"Float32")
	reg(scalar("float64", 64), P+"Float64")
	reg(ret(func(m *Machine, g *Gor, a []Value) Value {
		lo, hi := int64(a[1].N), int64(a[2].N)
		if lo == hi {
			m.inputs = append(m.inputs, InputVar{Name: cs(a[0]), Kind: "int", w: 64, n: uint64(lo)})
			return intV(lo)
		}
		t := m.freshVar(64, uint64(lo))
		m.inputs = append(m.inputs, InputVar{Name: cs(a[0]), Kind: "int", w: 64, t: t})
		m.assumeFresh(m.b.And(m.b.Bin(OSle, 0, m.b.Const(64, uint64(lo)), t), m.b.Bin(OSle, 0, t, m.b.Const(64, uint64(hi)))))
		return Value{P: t}
	}), P+"IntRange")
	reg(ret(func(m *Machine, g *Gor, a []Value) Value {
		n := int(int64(a[1].N))
		if n <= 0 {
			panic(pathEnd{"empty choice"})
		}
		k := m.choose(n, "input", false)
		m.inputs = append(m.inputs, InputVar{Name: cs(a[0]), Kind: "int", w: 64, n: uint64(k)})
		return intV(int64(k))
	}), P+"Choose")
	reg(ret(func(m *Machine, g *Gor, a []Value) Value {
		mx := int(int64(a[1].N))
		n := m.choose(mx+1, "input", false)
		m.inputs = append(m.inputs, InputVar{Name: cs(a[0]) + ".len", Kind: "int", w: 64, n: uint64(n)})
		bs := make([]*Term, n)
		for i := range bs {
			t := m.freshVar(8, 'a')
			m.inputs = append(m.inputs, InputVar{Name: cs(a[0]) + "[" + string(rune('0'+i)) + "]", Kind: "uint8", w: 8, t: t})
			m.assumeFresh(m.b.Bin(OUlt, 0, t, m.b.Const(8, 0x80)))
			bs[i] = t
		}
		return m.b.strFromBytes(bs)
	}), P+"String")
	reg(ret(func(m *Machine, g *Gor, a []Value) Value {
		m.assume(a[0])
		return Value{}
	}), P+"Assume")
	reg(ret(func(m *Machine, g *Gor, a []Value) Value {
		m.assertion(g, a[0], cs(a[1]))
		return Value{}
	}), P+"Assert")
	reg(ret(func(m *Machine, g *Gor, a []Value) Value {
		m.reach[cs(a[0])] = true
		return Value{}
	}), P+"Reach")
	reg(ret(func(m *Machine, g *Gor, a []Value) Value {
		o := Observation{Label: cs(a[0])}
		for _, v := range m.varargs(a[1]) {
			if v.P == nil {
				o.vals = append(o.vals, Value{})
				o.types = append(o.types, nil)
				continue
			}
			iv := v.P.(*IfaceV)
			o.vals = append(o.vals, iv.v)
			o.types = append(o.types, iv.t)
		}
		m.obs = append(m.obs, o)
		return Value{}
	}), P+"Observe")
	reg(ret(func(m *Machine, g *Gor, a []Value) Value {
		if m.w.ex.tier == "thorough" {
			m.w.ex.bound(m.h, cs(a[0]), int64(a[2].N))
			return a[2]
		}
		m.w.ex.bound(m.h, cs(a[0]), int64(a[1].N))
		return a[1]
	}), P+"Bound")
	reg(ret(func(m *Machine, g *Gor, a []Value) Value { return boolV(true) }), P+"Symbolic")
	reg(ret(func(m *Machine, g *Gor, a []Value) Value { return intV(int64(m.concInt(a[0], "value"))) }), P+"Concrete")
	reg(ret(func(m *Machine, g *Gor, a []Value) Value {
		// merged conjunction/disjunction helpers: no path split
		return termV(m.b.And(m.term(a[0], 0), m.term(a[1], 0)))
	}), P+"And")
	reg(ret(func(m *Machine, g *Gor, a []Value) Value {
		return termV(m.b.Or(m.term(a[0], 0), m.term(a[1], 0)))
	}), P+"Or")
	reg(ret(func(m *Machine, g *Gor, a []Value) Value {
		return termV(m.b.Eq(m.term(a[0], 0), m.term(a[1], 0)))
	}), P+"Iff")
	reg(ret(func(m *Machine, g *Gor, a []Value) Value {
		return termV(m.b.Ite(m.term(a[0], 0), m.term(a[1], 64), m.term(a[2], 64)))
	}), P+"IteInt")
	// Quiesce waits until no other goroutine can run without time passing.
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		if q, ok := g.scratch.(*quiet); ok && q != nil {
			if !q.done {
				return Value{}, m.block(g, "quiesce")
			}
			g.scratch = nil
			return Value{}, stDone
		}
		q := &quiet{g: g, until: m.now}
		g.scratch = q
		m.quiets = append(m.quiets, q)
		return Value{}, m.block(g, "quiesce")
	}, P+"Quiesce")
	// Advance lets virtual time pass, firing every timer due, then quiesces.
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		if q, ok := g.scratch.(*quiet); ok && q != nil {
			if !q.done {
				return Value{}, m.block(g, "advance")
			}
			g.scratch = nil
			return Value{}, stDone
		}
		q := &quiet{g: g, until: m.binop(tokADD, intRT, intRT, m.now, a[0])}
		g.scratch = q
		m.quiets = append(m.quiets, q)
		return Value{}, m.block(g, "advance")
	}, P+"Advance")
	reg(ret(func(m *Machine, g *Gor, a []Value) Value { return m.now }), P+"Now")
	reg(ret(func(m *Machine, g *Gor, a []Value) Value {
		n := 0
		for _, x := range m.gors {
			if x.st != gDone {
				n++
			}
		}
		return intV(int64(n))
	}), P+"Goroutines")
	reg(ret(func(m *Machine, g *Gor, a []Value) Value {
		m.devs = m.concInt(a[0], "budget")
		return Value{}
	}), P+"Preemptions")
	_ = math.MinInt32
}

type quiet struct {
	g     *Gor
	until Value
	done  bool
}

// settle is called when nothing can run. It wakes a quiescing goroutine or fires a timer due before it.
func (m *Machine) settle() bool {
	if len(m.quiets) == 0 {
		return false
	}
	q := m.quiets[len(m.quiets)-1]
	if len(m.timers) > 0 {
		best := 0
		for i := 1; i < len(m.timers); i++ {
			if m.truth(m.binop(token.LSS, intRT, intRT, m.timers[i].at, m.timers[best].at)) {
				best = i
			}
		}
		if m.truth(m.binop(token.LEQ, intRT, intRT, m.timers[best].at, q.until)) {
			m.ticks++
			if m.ticks > m.h.maxTicks {
				panic(unsupported("more than %d timer events", m.h.maxTicks))
			}
			m.fireTimer()
			return true
		}
	}
	if m.truth(m.binop(token.LSS, intRT, intRT, m.now, q.until)) {
		m.now = q.until
	}
	q.done = true
	m.quiets = m.quiets[:len(m.quiets)-1]
	m.wake(q.g)
	return true
}
