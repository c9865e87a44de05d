package main

import (
	"fmt"
	"go/types"
	"sort"
	"unicode/utf8"
)

// ---- maps ----

func (m *Machine) mapSave(o *MapObj) {
	if o.init && m.initing == 0 && !o.saved {
		o.saved = true
		cp := *o
		cp.keys = append([]Value(nil), o.keys...)
		cp.vals = append([]Value(nil), o.vals...)
		cp.dead = append([]bool(nil), o.dead...)
		idx, sidx := o.idx, o.sidx
		o.idx, o.sidx = map[uint64]int{}, map[string]int{}
		for k, v := range idx {
			o.idx[k] = v
		}
		for k, v := range sidx {
			o.sidx[k] = v
		}
		m.undoFn = append(m.undoFn, func() {
			*o = cp
			o.saved = false
			o.idx, o.sidx = idx, sidx
		})
	}
}

// mapFind returns the entry index of key k or -1.
func (m *Machine) mapFind(o *MapObj, k Value) int {
	t := o.kt
	switch {
	case t.kind == KIface:
		if k.P != nil {
			iv := k.P.(*IfaceV)
			if iv.t.kind == KSlice || iv.t.kind == KMap || iv.t.kind == KFunc {
				panic(rtPanic{msg: "runtime error: hash of unhashable type " + iv.t.str})
			}
		}
	case t.scalar() && t.kind != KFloat:
		if k.P == nil {
			if i, ok := o.idx[k.N]; ok {
				return i
			}
			if o.sym == 0 {
				return -1
			}
		}
	case t.kind == KString:
		if s, ok := concStr(k); ok {
			if i, ok := o.sidx[s]; ok {
				return i
			}
			if o.sym == 0 {
				return -1
			}
		}
	}
	for i := range o.keys {
		if o.dead[i] {
			continue
		}
		if m.truth(m.eq(t, o.keys[i], k)) {
			return i
		}
	}
	return -1
}

func (m *Machine) mapAdd(o *MapObj, k, v Value) {
	i := len(o.keys)
	o.keys = append(o.keys, k)
	o.vals = append(o.vals, v)
	o.dead = append(o.dead, false)
	o.live++
	t := o.kt
	switch {
	case t.scalar() && t.kind != KFloat && k.P == nil:
		if o.idx == nil {
			o.idx = map[uint64]int{}
		}
		o.idx[k.N] = i
		return
	case t.kind == KString:
		if s, ok := concStr(k); ok {
			if o.sidx == nil {
				o.sidx = map[string]int{}
			}
			o.sidx[s] = i
			return
		}
	}
	o.sym++
}

func (m *Machine) mapSet(mv, k, v Value) {
	if mv.P == nil {
		panic(rtPanic{msg: "assignment to entry in nil map"})
	}
	o := mv.P.(*MapObj)
	m.mapSave(o)
	if i := m.mapFind(o, k); i >= 0 {
		o.vals[i] = v
		return
	}
	m.mapAdd(o, k, v)
}

func (m *Machine) mapDelete(o *MapObj, k Value) {
	i := m.mapFind(o, k)
	if i < 0 {
		return
	}
	m.mapSave(o)
	kk := o.keys[i]
	o.dead[i] = true
	o.live--
	t := o.kt
	if t.scalar() && t.kind != KFloat && kk.P == nil {
		delete(o.idx, kk.N)
	} else if s, ok := "", false; t.kind == KString {
		if s, ok = concStr(kk); ok {
			delete(o.sidx, s)
		} else {
			o.sym--
		}
	} else {
		o.sym--
	}
	o.vals[i] = Value{}
}

func (m *Machine) mapGet(o *MapObj, k Value) (Value, bool) {
	if i := m.mapFind(o, k); i >= 0 {
		return o.vals[i], true
	}
	return zeroOf(o.vt), false
}

// mapSelect looks up a symbolic scalar key in a map of concrete keys and scalar values without splitting.
func (m *Machine) mapSelect(o *MapObj, k Value) (v, ok Value, done bool) {
	kt, ok2 := k.P.(*Term)
	if !ok2 || !o.kt.scalar() || o.kt.kind == KFloat || !o.vt.scalar() || o.sym > 0 || m.initing > 0 {
		return
	}
	r, f := m.b.Const(o.vt.w, 0), m.b.Const(0, 0)
	for i := len(o.keys) - 1; i >= 0; i-- {
		if o.dead[i] {
			continue
		}
		e := m.b.Eq(kt, m.b.Const(o.kt.w, o.keys[i].N))
		r = m.b.Ite(e, m.term(o.vals[i], o.vt.w), r)
		f = m.b.Or(f, e)
	}
	return termV(r), termV(f), true
}

func (m *Machine) lookup(f *Frame, ci *cinstr) Value {
	x := m.get(f, ci.a)
	k := m.get(f, ci.b)
	if ci.t.kind == KString {
		return m.strIndex(x, k, ci.t2)
	}
	var v Value
	ok := false
	if x.P == nil {
		v = zeroOf(ci.t.elem)
	} else if r, found, done := m.mapSelect(x.P.(*MapObj), k); done {
		if ci.commaOk {
			return Value{P: &Agg{f: []Value{r, found}}}
		}
		return r
	} else {
		v, ok = m.mapGet(x.P.(*MapObj), k)
	}
	if ci.commaOk {
		return Value{P: &Agg{f: []Value{v, boolV(ok)}}}
	}
	return v
}

type mapIter struct {
	o     *MapObj
	order []int
	pos   int
	left  []int
	all   bool
}

type strIter struct {
	v   Value
	pos int
}

func (m *Machine) rangeStart(x Value, t *RType) Value {
	if t.kind == KString {
		return Value{P: &strIter{v: x}}
	}
	it := &mapIter{}
	if x.P != nil {
		it.o = x.P.(*MapObj)
		for i := range it.o.keys {
			if !it.o.dead[i] {
				it.order = append(it.order, i)
			}
		}
		if len(it.order) > 1 && m.initing == 0 {
			switch m.h.mapOrder {
			case "all":
				it.all = true
			case "two":
				if m.choose(2, "maporder", false) == 1 {
					for i, j := 0, len(it.order)-1; i < j; i, j = i+1, j-1 {
						it.order[i], it.order[j] = it.order[j], it.order[i]
					}
				}
			}
		}
	}
	return Value{P: it}
}

func (m *Machine) next(x Value, ci *cinstr) Value {
	switch it := x.P.(type) {
	case *strIter:
		n := strLen(it.v)
		if it.pos >= n {
			return Value{P: &Agg{f: []Value{boolV(false), {}, {}}}}
		}
		s := it.v.P.(*Str)
		if s.b != nil {
			t := s.b[it.pos]
			if !m.branch(m.b.Bin(OUlt, 0, t, m.b.Const(8, 0x80))) {
				panic(unsupported("non-ASCII symbolic text"))
			}
			r := Value{P: &Agg{f: []Value{boolV(true), intV(int64(it.pos)), termV(m.b.Un(OZExt, 32, 0, t))}}}
			m.iterAdvance(it, 1)
			return r
		}
		r, sz := utf8.DecodeRuneInString(s.s[it.pos:])
		v := Value{P: &Agg{f: []Value{boolV(true), intV(int64(it.pos)), {N: uint64(uint32(r))}}}}
		m.iterAdvance(it, sz)
		return v
	case *mapIter:
		for it.pos < len(it.order) {
			if it.all {
				// choose the next among the entries still live
				var live []int
				for i := it.pos; i < len(it.order); i++ {
					if !it.o.dead[it.order[i]] {
						live = append(live, i)
					}
				}
				if len(live) == 0 {
					break
				}
				c := live[m.choose(len(live), "maporder", false)]
				it.order[it.pos], it.order[c] = it.order[c], it.order[it.pos]
			}
			i := it.order[it.pos]
			it.pos++
			if it.o.dead[i] {
				continue
			}
			return Value{P: &Agg{f: []Value{boolV(true), it.o.keys[i], it.o.vals[i]}}}
		}
		// missing key/value types are never read when ok is false
		return Value{P: &Agg{f: []Value{boolV(false), zeroOfTuple(ci.t, 1), zeroOfTuple(ci.t, 2)}}}
	}
	panic(unsupported("range over %T", x.P))
}

func zeroOfTuple(t *RType, i int) Value {
	if t.kind == KTuple && i < len(t.fields) {
		ft := t.fields[i]
		if ft.kind == KTuple {
			return Value{}
		}
		return zeroOf(ft)
	}
	return Value{}
}

func (m *Machine) iterAdvance(it *strIter, n int) { it.pos += n }

// ---- builtins ----

func (m *Machine) sliceElems(v Value, t *RType) []Value {
	if v.P == nil {
		return nil
	}
	s := v.P.(*SliceV)
	return s.o.s[s.off : s.off+s.len*t.elem.size]
}

func (m *Machine) mkSlice(elems []Value, t *RType) Value {
	o := m.newObj(len(elems), t)
	copy(o.s, elems)
	n := len(elems)
	if t.elem.size > 0 {
		n = len(elems) / t.elem.size
	}
	return Value{P: &SliceV{o: o, len: n, cap: n}}
}

func (m *Machine) builtin(g *Gor, f *Frame, c *callInfo, args []Value) (Value, status) {
	switch c.builtin {
	case "append":
		st := c.argT[0]
		es := st.elem.size
		var add []Value
		n2 := 0
		if c.argT[1].kind == KString {
			for _, t := range m.b.strBytes(args[1]) {
				add = append(add, termV(t))
			}
			n2 = len(add)
		} else if args[1].P != nil {
			s := args[1].P.(*SliceV)
			add = s.o.s[s.off : s.off+s.len*es]
			n2 = s.len
		}
		if n2 == 0 {
			return args[0], stDone
		}
		var s SliceV
		if args[0].P != nil {
			s = *args[0].P.(*SliceV)
		}
		if s.len+n2 <= s.cap {
			if s.o.init && m.initing == 0 {
				for i, v := range add {
					m.store1(s.o, s.off+s.len*es+i, v)
				}
			} else {
				copy(s.o.s[s.off+s.len*es:], add)
			}
			return Value{P: &SliceV{o: s.o, off: s.off, len: s.len + n2, cap: s.cap}}, stDone
		}
		nc := s.cap * 2
		if nc < s.len+n2 {
			nc = s.len + n2
		}
		if nc > 1<<18 {
			panic(unsupported("slice growing to %d", nc))
		}
		o := m.newObj(nc*es, st)
		if s.o != nil {
			copy(o.s, s.o.s[s.off:s.off+s.len*es])
		}
		copy(o.s[s.len*es:], add)
		return Value{P: &SliceV{o: o, len: s.len + n2, cap: nc}}, stDone
	case "cap":
		v := args[0]
		if v.P == nil {
			if c.argT[0].kind == KArray {
				return intV(int64(c.argT[0].n)), stDone
			}
			return Value{}, stDone
		}
		switch x := v.P.(type) {
		case *SliceV:
			return intV(int64(x.cap)), stDone
		case *Chan:
			return intV(int64(x.cap)), stDone
		}
		return intV(int64(c.argT[0].n)), stDone
	case "len":
		v := args[0]
		switch c.argT[0].kind {
		case KString:
			return intV(int64(strLen(v))), stDone
		case KArray:
			return intV(int64(c.argT[0].n)), stDone
		case KPtr:
			return intV(int64(c.argT[0].elem.n)), stDone
		}
		if v.P == nil {
			return Value{}, stDone
		}
		switch x := v.P.(type) {
		case *SliceV:
			return intV(int64(x.len)), stDone
		case *MapObj:
			return intV(int64(x.live)), stDone
		case *Chan:
			return intV(int64(len(x.buf))), stDone
		}
	case "clear":
		if args[0].P == nil {
			return Value{}, stDone
		}
		switch x := args[0].P.(type) {
		case *MapObj:
			m.mapSave(x)
			x.keys, x.vals, x.dead, x.live, x.sym, x.idx, x.sidx = nil, nil, nil, 0, 0, nil, nil
			return Value{}, stDone
		case *SliceV:
			es := c.argT[0].elem.size
			for i := 0; i < x.len*es; i++ {
				m.store1(x.o, x.off+i, Value{})
			}
			return Value{}, stDone
		}
	case "close":
		return Value{}, m.chanClose(g, args[0])
	case "copy":
		st := c.argT[0]
		es := st.elem.size
		if args[0].P == nil || args[1].P == nil {
			return Value{}, stDone
		}
		d := args[0].P.(*SliceV)
		var src []Value
		if c.argT[1].kind == KString {
			for _, t := range m.b.strBytes(args[1]) {
				src = append(src, termV(t))
			}
		} else {
			s := args[1].P.(*SliceV)
			src = append(src, s.o.s[s.off:s.off+s.len*es]...)
		}
		n := len(src) / max(es, 1)
		if d.len < n {
			n = d.len
		}
		for i := 0; i < n*es; i++ {
			m.store1(d.o, d.off+i, src[i])
		}
		return intV(int64(n)), stDone
	case "delete":
		if args[0].P != nil {
			m.mapDelete(args[0].P.(*MapObj), args[1])
		}
		return Value{}, stDone
	case "max", "min":
		r := args[0]
		t := c.argT[0]
		for _, a := range args[1:] {
			var lt Value
			if c.builtin == "max" {
				lt = m.binop(tokLSS, t, t, r, a)
			} else {
				lt = m.binop(tokLSS, t, t, a, r)
			}
			if t.scalar() && t.kind != KFloat {
				r = termV(m.b.Ite(m.term(lt, 0), m.term(a, t.w), m.term(r, t.w)))
			} else if m.truth(lt) {
				r = a
			}
		}
		return r, stDone
	case "panic":
		panic(rtPanic{msg: m.show(args[0], nil), val: args[0]})
	case "print", "println":
		return Value{}, stDone
	case "recover":
		// valid when called by a deferred function of a panicking frame
		n := len(g.fr)
		if f.isDefer && len(g.pan) > 0 && n >= 2 && g.fr[n-2].inUnwind && !g.pan[len(g.pan)-1].recovered {
			ps := g.pan[len(g.pan)-1]
			ps.recovered = true
			return ps.val, stDone
		}
		return Value{}, stDone
	case "Sizeof":
		return intV(types.SizesFor("gc", "amd64").Sizeof(c.argT[0].t)), stDone
	case "SliceData":
		if args[0].P == nil {
			return Value{}, stDone
		}
		s := args[0].P.(*SliceV)
		return Value{P: s.o, N: uint64(s.off)}, stDone
	case "String":
		if args[1].P == nil && args[1].N == 0 {
			return Value{}, stDone
		}
		o, ok := args[0].P.(*Object)
		if !ok || args[1].P != nil || o.t.size != 1 || int(args[0].N+args[1].N) > len(o.s) {
			panic(unsupported("unsafe.String"))
		}
		bs := make([]*Term, int(args[1].N))
		for i := range bs {
			x := o.s[int(args[0].N)+i]
			if _, ok := x.P.(*tokByte); ok {
				panic(unsupported("unsafe.String of a formatted number"))
			}
			bs[i] = m.term(x, 8)
		}
		return m.b.strFromBytes(bs), stDone
	case "ssa:wrapnilchk":
		if args[0].P == nil {
			panic(rtPanic{msg: "runtime error: invalid memory address or nil pointer dereference (value method via nil pointer)"})
		}
		return args[0], stDone
	}
	panic(unsupported("builtin %s", c.builtin))
}

// show renders a value for messages.
func (m *Machine) show(v Value, t *RType) string {
	switch p := v.P.(type) {
	case nil:
		if t == nil {
			return "nil"
		}
		switch t.kind {
		case KBool:
			return fmt.Sprint(v.N != 0)
		case KInt:
			return fmt.Sprint(sext(v.N, t.w))
		case KUint:
			return fmt.Sprint(v.N)
		case KFloat:
			return fmt.Sprint(fl(v.N, t.w))
		case KString:
			return ""
		}
		return "nil"
	case *Term:
		return "<sym>"
	case *Str:
		if p.tok != nil {
			return "<text>"
		}
		if p.b != nil {
			return "<symtext>"
		}
		return p.s
	case *IfaceV:
		if p.t.kind == KPtr && p.v.P != nil {
			// errors built by errors.New / fmt.Errorf
			if o, ok := p.v.P.(*Object); ok && (p.t.str == "*errors.errorString" || p.t.str == "*fmt.wrapError" || p.t.str == "*fmt.wrapErrors") {
				return m.show(o.s[0], strRT)
			}
		}
		return m.show(p.v, p.t)
	case *Object:
		return fmt.Sprintf("&obj%d", p.id)
	case *Agg:
		s := "{"
		for i, x := range p.f {
			if i > 0 {
				s += " "
			}
			s += m.show(x, nil)
		}
		return s + "}"
	}
	return fmt.Sprintf("%T", v.P)
}

var _ = sort.Strings
