package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// Models of library functions whose bodies use the runtime, unsafe or assembly. The repository uses few of
// them today; they are here so that code which starts to use them is still decided.

// symBytes returns the bytes of a string or a byte slice.
func (m *Machine) symBytes(v Value) []*Term {
	if v.P == nil {
		return nil
	}
	if s, ok := v.P.(*SliceV); ok {
		bs := make([]*Term, s.len)
		for i := range bs {
			x := s.o.s[s.off+i]
			if _, ok := x.P.(*tokByte); ok {
				panic(unsupported("bytes of a formatted number"))
			}
			bs[i] = m.term(x, 8)
		}
		return bs
	}
	return m.b.strBytes(v)
}

// bytesAt tells whether x continues with y at i.
func (m *Machine) bytesAt(x, y []*Term, i int) bool {
	r := m.b.Bool(true)
	for j := range y {
		r = m.b.And(r, m.b.Eq(x[i+j], y[j]))
	}
	return m.truth(termV(r))
}

func (m *Machine) compareBytes(x, y []*Term) Value {
	if len(x) == len(y) && m.bytesAt(x, y, 0) {
		return intV(0)
	}
	if m.truth(termV(m.strLt(x, y))) {
		return intV(-1)
	}
	return intV(1)
}

func regStdlib(reg func(intrinsic, ...string)) {
	// condition variables: the ticket of a waiter is compared with the number of notifications
	type notify struct {
		wait, done uint32
		waiters    []*Gor
	}
	list := func(m *Machine, p Value) *notify {
		k := "cond" + strconv.Itoa(int(p.P.(*Object).id)) + "/" + strconv.Itoa(int(p.N))
		n, _ := m.side[k].(*notify)
		if n == nil {
			n = &notify{}
			m.side[k] = n
		}
		return n
	}
	wake := func(m *Machine, n *notify) {
		for _, w := range n.waiters {
			m.wake(w)
		}
		n.waiters = nil
	}
	reg(ret(func(m *Machine, g *Gor, a []Value) Value {
		n := list(m, a[0])
		n.wait++
		return Value{N: uint64(n.wait - 1)}
	}), "sync.runtime_notifyListAdd")
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		n := list(m, a[0])
		if uint32(a[1].N) < n.done {
			return Value{}, stDone
		}
		n.waiters = append(n.waiters, g)
		return Value{}, m.block(g, "Cond.Wait")
	}, "sync.runtime_notifyListWait")
	reg(ret(func(m *Machine, g *Gor, a []Value) Value {
		n := list(m, a[0])
		n.done = n.wait
		wake(m, n)
		return Value{}
	}), "sync.runtime_notifyListNotifyAll")
	reg(ret(func(m *Machine, g *Gor, a []Value) Value {
		n := list(m, a[0])
		if n.done < n.wait {
			n.done++
			wake(m, n)
		}
		return Value{}
	}), "sync.runtime_notifyListNotifyOne")
	reg(noop, "(*sync.copyChecker).check")

	reg(ret(func(m *Machine, g *Gor, a []Value) Value {
		if a[0].P == nil || a[1].P == nil {
			return boolV(false)
		}
		x, y := a[0].P.(*SliceV), a[1].P.(*SliceV)
		return boolV(x.o == y.o && x.len > 0 && y.len > 0 && x.off < y.off+y.len && y.off < x.off+x.len)
	}), "slices.overlaps")

	reg(ret(func(m *Machine, g *Gor, a []Value) Value {
		iv := a[0].P.(*IfaceV)
		if iv.v.P == nil {
			return a[0]
		}
		o := iv.v.P.(*MapObj)
		m.nextObj++
		n := &MapObj{kt: o.kt, vt: o.vt, id: m.nextObj}
		for i, k := range o.keys {
			if !o.dead[i] {
				m.mapAdd(n, k, o.vals[i])
			}
		}
		return Value{P: &IfaceV{t: iv.t, v: Value{P: n}}}
	}), "maps.clone")

	// errors.As; an As method of the error itself is not looked at
	var as func(m *Machine, g *Gor, e Value, t *RType) (Value, bool)
	as = func(m *Machine, g *Gor, e Value, t *RType) (Value, bool) {
		for e.P != nil {
			iv := e.P.(*IfaceV)
			if t.kind == KIface {
				if iv.t.implements(t) {
					return e, true
				}
			} else if iv.t == t {
				return iv.v, true
			}
			if iv.t.method(m.prog.prog, "As", nil) != nil {
				panic(unsupported("errors.As with an As method"))
			}
			fn := iv.t.method(m.prog.prog, "Unwrap", nil)
			if fn == nil {
				break
			}
			r := m.callSync(g, getCfn(fn), []Value{iv.v}, nil)
			if rtypeOf(fn.Signature.Results().At(0).Type()).kind != KSlice {
				e = r
				continue
			}
			if r.P != nil {
				s := r.P.(*SliceV)
				for _, x := range s.o.s[s.off : s.off+s.len] {
					if v, ok := as(m, g, x, t); ok {
						return v, true
					}
				}
			}
			break
		}
		return Value{}, false
	}
	reg(ret(func(m *Machine, g *Gor, a []Value) Value {
		if a[0].P == nil {
			return boolV(false)
		}
		tv := a[1].P.(*IfaceV)
		v, ok := as(m, g, a[0], tv.t.elem)
		if ok {
			m.store(tv.v, tv.t.elem, v)
		}
		return boolV(ok)
	}), "errors.As")

	// fmt.Fprint: the text goes to the Write method of the writer
	fprint := func(text func(m *Machine, g *Gor, a []Value) Value) intrinsic {
		return func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
			if a[0].P == nil {
				panic(rtPanic{msg: "runtime error: invalid memory address or nil pointer dereference"})
			}
			iv := a[0].P.(*IfaceV)
			if iv.t.str == "*os.File" {
				return tuple(Value{}, Value{}), stDone
			}
			fn := iv.t.method(m.prog.prog, "Write", nil)
			if fn == nil {
				return tuple(Value{}, Value{}), stDone
			}
			bs := m.convert(text(m, g, a[1:]), rtypeOf(types.Typ[types.String]), rtypeOf(types.NewSlice(types.Typ[types.Byte])))
			return m.callClosure(g, c.f, c.c, &Closure{fn: fn, cf: getCfn(fn)}, []Value{iv.v, bs}, c.dst)
		}
	}
	join := func(sep, end string) func(m *Machine, g *Gor, a []Value) Value {
		return func(m *Machine, g *Gor, a []Value) Value {
			var sb []string
			for _, v := range m.varargs(a[0]) {
				x, ok := m.fmtArg(g, v)
				if !ok {
					return m.opaque()
				}
				sb = append(sb, fmt.Sprint(x))
			}
			return mkStr(strings.Join(sb, sep) + end)
		}
	}
	reg(fprint(func(m *Machine, g *Gor, a []Value) Value {
		f, ok := concStr(a[0])
		if !ok {
			return m.opaque()
		}
		return m.sprintf(g, f, m.varargs(a[1]))
	}), "fmt.Fprintf")
	reg(fprint(join("", "")), "fmt.Fprint")
	reg(fprint(join(" ", "\n")), "fmt.Fprintln")

	// the assembly of package bytealg
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		b := m.term(a[1], 8)
		for i, x := range m.symBytes(a[0]) {
			if m.truth(termV(m.b.Eq(x, b))) {
				return intV(int64(i)), stDone
			}
		}
		return intV(-1), stDone
	}, "internal/bytealg.IndexByte", "internal/bytealg.IndexByteString")
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		b := m.term(a[1], 8)
		xs := m.symBytes(a[0])
		for i := len(xs) - 1; i >= 0; i-- {
			if m.truth(termV(m.b.Eq(xs[i], b))) {
				return intV(int64(i)), stDone
			}
		}
		return intV(-1), stDone
	}, "internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString")
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		b := m.term(a[1], 8)
		n := 0
		for _, x := range m.symBytes(a[0]) {
			if m.truth(termV(m.b.Eq(x, b))) {
				n++
			}
		}
		return intV(int64(n)), stDone
	}, "internal/bytealg.Count", "internal/bytealg.CountString")
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		return m.compareBytes(m.symBytes(a[0]), m.symBytes(a[1])), stDone
	}, "internal/bytealg.Compare", "internal/bytealg.CompareString", "strings.Compare", "bytes.Compare")
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		x, y := m.symBytes(a[0]), m.symBytes(a[1])
		return boolV(len(x) == len(y) && m.bytesAt(x, y, 0)), stDone
	}, "internal/bytealg.Equal", "bytes.Equal")
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		x, y := m.symBytes(a[0]), m.symBytes(a[1])
		for i := 0; i+len(y) <= len(x); i++ {
			if m.bytesAt(x, y, i) {
				return intV(int64(i)), stDone
			}
		}
		return intV(-1), stDone
	}, "internal/bytealg.Index", "internal/bytealg.IndexString", "strings.Index", "bytes.Index")
}
