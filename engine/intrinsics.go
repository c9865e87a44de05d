package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"time"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

type icall struct {
	cf  *cfn
	c   *callInfo
	f   *Frame
	dst int32
}

type intrinsic func(m *Machine, g *Gor, c *icall, a []Value) (Value, status)

// interp falls back to interpreting the function's own body.
func (m *Machine) interp(g *Gor, c *icall, a []Value) (Value, status) {
	m.pushFrame(g, c.cf, a, nil, c.dst)
	return Value{}, stCall
}

// callSync runs a function to completion on g and returns its result.
func (m *Machine) callSync(g *Gor, cf *cfn, args, bind []Value) Value {
	if cf.intr != nil {
		v, st := cf.intr(m, g, &icall{cf: cf, c: &callInfo{}, dst: math.MinInt32}, args)
		if st == stDone {
			return v
		}
		if st != stCall {
			panic(unsupported("blocking call inside a modelled callback: %s", cf.name))
		}
		panic(unsupported("nested intrinsic call: %s", cf.name))
	}
	base := len(g.fr)
	var out Value
	f := m.pushFrame(g, cf, args, bind, math.MinInt32)
	f.onRet = func(_ *Machine, v Value) { out = v }
	for len(g.fr) > base {
		top := g.fr[len(g.fr)-1]
		if top.inUnwind {
			panic(unsupported("panic inside a modelled callback"))
		}
		if !m.exec(g, top) {
			if len(g.fr) == base {
				// the base frame list was empty: the goroutine was marked done by the return
				g.st = gRun
				break
			}
			panic(unsupported("blocking operation inside a modelled callback: %s", cf.name))
		}
	}
	return out
}

func (m *Machine) callFn(g *Gor, fn Value, args ...Value) Value {
	if fn.P == nil {
		panic(rtPanic{msg: "runtime error: invalid memory address or nil pointer dereference (nil func)"})
	}
	cl := fn.P.(*Closure)
	return m.callSync(g, cl.cf, args, cl.bind)
}

var noopPkgs = []string{"go.uber.org/zap", "log", "go.uber.org/multierr", "internal/race", "internal/godebug", "runtime/debug", "internal/asan", "internal/msan", "runtime/trace", "runtime/pprof"}

func pkgPathOf(fn *ssa.Function) string {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	return ""
}

func findIntrinsic(fn *ssa.Function) intrinsic {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if i, ok := intrinsics[name]; ok {
		return i
	}
	if fn.Synthetic != "" && fn.Pkg == nil && fn.Origin() == nil {
		// wrappers are interpreted
		if !strings.HasPrefix(fn.Synthetic, "instance") {
			return nil
		}
	}
	pp := pkgPathOf(fn)
	if fn.Name() == "init" && fn.Synthetic != "" {
		// package initialisers run lazily: a call from another initialiser does nothing
		return func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) { return Value{}, stDone }
	}
	if pp == "go.uber.org/zap" && fn.Signature.Recv() != nil {
		switch fn.Name() {
		case "Fatal", "Fatalf":
			return func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
				panic(rtPanic{msg: "process exit through logger.Fatal: " + m.show(a[1], strRT), fatal: true})
			}
		case "Panic", "DPanic":
			return func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
				panic(rtPanic{msg: "logger.Panic: " + m.show(a[1], strRT)})
			}
		}
	}
	for _, p := range noopPkgs {
		if pp == p || strings.HasPrefix(pp, p+"/") {
			return noop
		}
	}
	if pp == "strings" && fn.Signature.Recv() == nil {
		if n, ok := stringFns[fn.Name()]; ok {
			return n
		}
	}
	return nil
}

// noop returns zero values; pointer results become a pointer to an inert object.
func noop(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
	res := c.cf.fn.Signature.Results()
	mk := func(t types.Type) Value {
		rt := rtypeOf(t)
		if rt.kind == KPtr {
			return Value{P: m.newObj(rt.elem.size, rt.elem)}
		}
		return zeroOf(rt)
	}
	switch res.Len() {
	case 0:
		return Value{}, stDone
	case 1:
		return mk(res.At(0).Type()), stDone
	}
	fs := make([]Value, res.Len())
	for i := range fs {
		fs[i] = mk(res.At(i).Type())
	}
	return Value{P: &Agg{f: fs}}, stDone
}

func ret(f func(m *Machine, g *Gor, a []Value) Value) intrinsic {
	return func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) { return f(m, g, a), stDone }
}

func tuple(vs ...Value) Value { return Value{P: &Agg{f: vs}} }

func mustStr(v Value, what string) string {
	s, ok := concStr(v)
	if !ok {
		panic(unsupported("%s of a symbolic text", what))
	}
	return s
}

var stringFns map[string]intrinsic
var intrinsics map[string]intrinsic

func concreteArgs(a []Value) bool {
	for _, v := range a {
		switch p := v.P.(type) {
		case *Term:
			return false
		case *Str:
			if p.b != nil || p.tok != nil {
				return false
			}
		}
	}
	return true
}

// conc2 wraps a native function for concrete arguments and interprets the body otherwise.
func conc(f func(m *Machine, a []Value) Value) intrinsic {
	return func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		if concreteArgs(a) {
			return f(m, a), stDone
		}
		return m.interp(g, c, a)
	}
}

func cs(v Value) string { s, _ := concStr(v); return s }

func (m *Machine) strSlice(ss []string, t *RType) Value {
	vs := make([]Value, len(ss))
	for i, s := range ss {
		vs[i] = mkStr(s)
	}
	return m.mkSlice(vs, t)
}

func init() {
	strSliceRT := rtypeOf(types.NewSlice(types.Typ[types.String]))
	stringFns = map[string]intrinsic{
		"LastIndex":  conc(func(m *Machine, a []Value) Value { return intV(int64(strings.LastIndex(cs(a[0]), cs(a[1])))) }),
		"IndexByte":  conc(func(m *Machine, a []Value) Value { return intV(int64(strings.IndexByte(cs(a[0]), byte(a[1].N)))) }),
		"Contains":   conc(func(m *Machine, a []Value) Value { return boolV(strings.Contains(cs(a[0]), cs(a[1]))) }),
		"Count":      conc(func(m *Machine, a []Value) Value { return intV(int64(strings.Count(cs(a[0]), cs(a[1])))) }),
		"ToLower":    conc(func(m *Machine, a []Value) Value { return mkStr(strings.ToLower(cs(a[0]))) }),
		"ToUpper":    conc(func(m *Machine, a []Value) Value { return mkStr(strings.ToUpper(cs(a[0]))) }),
		"TrimSpace":  conc(func(m *Machine, a []Value) Value { return mkStr(strings.TrimSpace(cs(a[0]))) }),
		"Repeat":     conc(func(m *Machine, a []Value) Value { return mkStr(strings.Repeat(cs(a[0]), int(int64(a[1].N)))) }),
		"ReplaceAll": conc(func(m *Machine, a []Value) Value { return mkStr(strings.ReplaceAll(cs(a[0]), cs(a[1]), cs(a[2]))) }),
		"EqualFold":  conc(func(m *Machine, a []Value) Value { return boolV(strings.EqualFold(cs(a[0]), cs(a[1]))) }),
		"Split":      conc(func(m *Machine, a []Value) Value { return m.strSlice(strings.Split(cs(a[0]), cs(a[1])), strSliceRT) }),
		"Trim":       conc(func(m *Machine, a []Value) Value { return mkStr(strings.Trim(cs(a[0]), cs(a[1]))) }),
		"Fields":     conc(func(m *Machine, a []Value) Value { return m.strSlice(strings.Fields(cs(a[0])), strSliceRT) }),
	}
	intrinsics = map[string]intrinsic{}
	reg := func(i intrinsic, names ...string) {
		for _, n := range names {
			intrinsics[n] = i
		}
	}
	// --- sync ---
	st := func(f func(m *Machine, g *Gor, p Value) status) intrinsic {
		return func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) { return Value{}, f(m, g, a[0]) }
	}
	reg(st((*Machine).lock), "(*sync.Mutex).Lock", "(*internal/sync.Mutex).Lock")
	reg(st((*Machine).unlock), "(*sync.Mutex).Unlock", "(*internal/sync.Mutex).Unlock")
	reg(st((*Machine).wlock), "(*sync.RWMutex).Lock")
	reg(st((*Machine).wunlock), "(*sync.RWMutex).Unlock")
	reg(st((*Machine).rlock), "(*sync.RWMutex).RLock")
	reg(st((*Machine).runlock), "(*sync.RWMutex).RUnlock")
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		s := m.mu(a[0])
		if m.yield(g, "TryLock") {
			return Value{}, stYield
		}
		if s.locked || s.readers > 0 || s.pendW != nil {
			return boolV(false), stDone
		}
		s.locked = true
		m.hbAcqW(g, a[0])
		return boolV(true), stDone
	}, "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*internal/sync.Mutex).TryLock")
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		s := m.mu(a[0])
		if m.yield(g, "TryRLock") {
			return Value{}, stYield
		}
		if s.locked || s.pendW != nil {
			return boolV(false), stDone
		}
		s.readers++
		m.hbAcq(g, a[0])
		return boolV(true), stDone
	}, "(*sync.RWMutex).TryRLock")
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		s := m.mu(a[0])
		m.hbRel(g, a[0])
		if d := int64(m.concInt(a[1], "WaitGroup delta")); d > 0 && s.n == 0 && len(s.waiters) > 0 {
			panic(rtPanic{msg: "sync: WaitGroup misuse: Add called concurrently with Wait"})
		} else {
			s.n += d
		}
		return m.wgDone(s), stDone
	}, "(*sync.WaitGroup).Add")
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		s := m.mu(a[0])
		m.hbRel(g, a[0])
		s.n--
		return m.wgDone(s), stDone
	}, "(*sync.WaitGroup).Done")
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		s := m.mu(a[0])
		for i, w := range s.released {
			if w == g {
				s.released = append(append([]*Gor(nil), s.released[:i]...), s.released[i+1:]...)
				if s.n != 0 {
					panic(rtPanic{msg: "sync: WaitGroup is reused before previous Wait has returned"})
				}
				m.hbAcq(g, a[0])
				return Value{}, stDone
			}
		}
		if s.n > 0 {
			s.waiters = append(s.waiters, g)
			return Value{}, m.block(g, "WaitGroup.Wait")
		}
		m.hbAcq(g, a[0])
		return Value{}, stDone
	}, "(*sync.WaitGroup).Wait")
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		// a pool may always come back empty
		p := a[0]
		pt := rtypeOf(c.cf.fn.Params[0].Type()).elem
		off := pt.offs[len(pt.offs)-1]
		fn := p.P.(*Object).s[int(p.N)+off]
		if fn.P == nil {
			return Value{}, stDone
		}
		return m.callClosure(g, c.f, c.c, fn.P.(*Closure), nil, c.dst)
	}, "(*sync.Pool).Get")
	reg(noop, "(*sync.Pool).Put", "runtime.GC", "runtime.Gosched", "runtime.KeepAlive", "runtime.SetFinalizer",
		"(*strings.Builder).copyCheck", "runtime_registerPoolCleanup", "sync.runtime_registerPoolCleanup", "sync.runtime_notifyListCheck", "sync.throw", "sync.fatal")

	regAtomic(reg)
	regTime(reg)
	regSym(reg)
	regReflect(reg)
	regFmt(reg)
	regJSON(reg)
	regStdlib(reg)
	regStrconv(reg)

	// --- identifiers: contract = pairwise distinct, non-empty ---
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		t := rtypeOf(c.cf.fn.Signature.Results().At(0).Type())
		v := make([]Value, t.size)
		m.nfresh++
		v[t.size-1] = Value{N: uint64(m.nfresh & 255)}
		v[t.size-2] = Value{N: uint64(m.nfresh >> 8 & 255)}
		return Value{P: &Agg{f: v}}, stDone
	}, "github.com/segmentio/ksuid.New", "github.com/google/uuid.New")
	reg(ret(func(m *Machine, g *Gor, a []Value) Value {
		f := a[0].P.(*Agg).f
		s := ""
		for _, x := range f {
			s += fmt.Sprintf("%02x", x.N)
		}
		return mkStr("id-" + strings.TrimLeft(s, "0"))
	}), "(github.com/segmentio/ksuid.KSUID).String", "(github.com/google/uuid.UUID).String")
	reg(conc(func(m *Machine, a []Value) Value { return boolV(unicode.IsSpace(rune(a[0].N))) }), "unicode.IsSpace")
	reg(ret(func(m *Machine, g *Gor, a []Value) Value { return Value{} }), "os.Getenv")
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		panic(rtPanic{msg: "process exit through os.Exit", fatal: true})
	}, "os.Exit", harnessPath+"/hxh.crash")
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		panic(rtPanic{msg: "process exit through logger.Fatal: " + m.show(a[0], strRT), fatal: true})
	}, harnessPath+"/hxh.crashFatal")
	// sort.Slice / SliceStable: any sorted permutation that respects less; stable insertion here
	srt := func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		iv := a[0].P.(*IfaceV)
		if iv.v.P == nil {
			return Value{}, stDone
		}
		s := iv.v.P.(*SliceV)
		es := iv.t.elem.size
		swap := func(i, j int) {
			for k := 0; k < es; k++ {
				x, y := s.o.s[s.off+i*es+k], s.o.s[s.off+j*es+k]
				m.store1(s.o, s.off+i*es+k, y)
				m.store1(s.o, s.off+j*es+k, x)
			}
		}
		for i := 1; i < s.len; i++ {
			for j := i; j > 0; j-- {
				if !m.truth(m.callFn(g, a[1], intV(int64(j)), intV(int64(j-1)))) {
					break
				}
				swap(j, j-1)
			}
		}
		return Value{}, stDone
	}
	reg(srt, "sort.Slice", "sort.SliceStable")
	// strings are concrete almost everywhere: fast path
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		s, ok := a[0].P.(*SliceV)
		if !ok {
			return Value{}, stDone
		}
		for i := 1; i < s.len; i++ {
			for j := i; j > 0; j-- {
				x, y := s.o.s[s.off+j], s.o.s[s.off+j-1]
				if !m.truth(m.strOp(tokLSS, x, y)) {
					break
				}
				m.store1(s.o, s.off+j, y)
				m.store1(s.o, s.off+j-1, x)
			}
		}
		return Value{}, stDone
	}, "sort.Strings")
}

func (m *Machine) wgDone(s *muState) Value {
	if s.n < 0 {
		panic(rtPanic{msg: "sync: negative WaitGroup counter"})
	}
	if s.n == 0 {
		for _, w := range s.waiters {
			m.wake(w)
			s.released = append(s.released, w)
		}
		s.waiters = nil
	}
	return Value{}
}

// ---- atomics ----

func regAtomic(reg func(intrinsic, ...string)) {
	slot := func(p Value) (*Object, int) {
		o, ok := p.P.(*Object)
		if !ok {
			panic(rtPanic{msg: "runtime error: invalid memory address or nil pointer dereference"})
		}
		return o, int(p.N)
	}
	wrap := func(f func(m *Machine, o *Object, off int, a []Value, w uint8) Value, w uint8) intrinsic {
		return func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
			o, off := slot(a[0])
			if m.yield(g, "atomic") {
				return Value{}, stYield
			}
			m.hbAcq(g, a[0])
			v := f(m, o, off, a, w)
			m.hbRel(g, a[0])
			return v, stDone
		}
	}
	load := func(m *Machine, o *Object, off int, a []Value, w uint8) Value { return o.s[off] }
	store := func(m *Machine, o *Object, off int, a []Value, w uint8) Value {
		m.store1(o, off, a[1])
		return Value{}
	}
	add := func(m *Machine, o *Object, off int, a []Value, w uint8) Value {
		v := termV(m.b.Bin(OAdd, w, m.term(o.s[off], w), m.term(a[1], w)))
		m.store1(o, off, v)
		return v
	}
	swap := func(m *Machine, o *Object, off int, a []Value, w uint8) Value {
		v := o.s[off]
		m.store1(o, off, a[1])
		return v
	}
	cas := func(m *Machine, o *Object, off int, a []Value, w uint8) Value {
		if m.truth(termV(m.b.Eq(m.term(o.s[off], w), m.term(a[1], w)))) {
			m.store1(o, off, a[2])
			return boolV(true)
		}
		return boolV(false)
	}
	casp := func(m *Machine, o *Object, off int, a []Value, w uint8) Value {
		if o.s[off] == a[1] {
			m.store1(o, off, a[2])
			return boolV(true)
		}
		return boolV(false)
	}
	bit := func(op Op) func(m *Machine, o *Object, off int, a []Value, w uint8) Value {
		return func(m *Machine, o *Object, off int, a []Value, w uint8) Value {
			old := o.s[off]
			m.store1(o, off, termV(m.b.Bin(op, w, m.term(old, w), m.term(a[1], w))))
			return old
		}
	}
	for _, t := range []struct {
		n string
		w uint8
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}, {"Bool", 0}} {
		p := "(*sync/atomic." + t.n + ")."
		reg(wrap(load, t.w), p+"Load", "sync/atomic.Load"+t.n)
		reg(wrap(store, t.w), p+"Store", "sync/atomic.Store"+t.n)
		reg(wrap(swap, t.w), p+"Swap", "sync/atomic.Swap"+t.n)
		reg(wrap(cas, t.w), p+"CompareAndSwap", "sync/atomic.CompareAndSwap"+t.n)
		if t.w > 0 {
			reg(wrap(add, t.w), p+"Add", "sync/atomic.Add"+t.n)
			reg(wrap(bit(OBAnd), t.w), p+"And", "sync/atomic.And"+t.n)
			reg(wrap(bit(OBOr), t.w), p+"Or", "sync/atomic.Or"+t.n)
		}
	}
	for _, p := range []string{"(*sync/atomic.Pointer[T]).", "(*sync/atomic.Value)."} {
		reg(wrap(load, 0), p+"Load")
		reg(wrap(store, 0), p+"Store")
		reg(wrap(swap, 0), p+"Swap")
		reg(wrap(casp, 0), p+"CompareAndSwap")
	}
	reg(wrap(load, 0), "sync/atomic.LoadPointer")
	reg(wrap(store, 0), "sync/atomic.StorePointer")
	reg(wrap(casp, 0), "sync/atomic.CompareAndSwapPointer")
}

// ---- time ----

func regTime(reg func(intrinsic, ...string)) {
	sub := func(m *Machine, a, b Value) Value { return m.binop(tokSUB, intRT, intRT, a, b) }
	ext := func(v Value) Value { return v.P.(*Agg).f[1] }
	withExt := func(m *Machine, v, e Value) Value {
		f := append([]Value(nil), v.P.(*Agg).f...)
		f[0] = Value{N: 1 << 63}
		f[1] = e
		return Value{P: &Agg{f: f}}
	}
	reg(ret(func(m *Machine, g *Gor, a []Value) Value { return m.timeValue() }), "time.Now")
	reg(ret(func(m *Machine, g *Gor, a []Value) Value { return sub(m, m.now, ext(a[0])) }), "time.Since")
	reg(ret(func(m *Machine, g *Gor, a []Value) Value { return sub(m, ext(a[0]), m.now) }), "time.Until")
	reg(ret(func(m *Machine, g *Gor, a []Value) Value { return sub(m, ext(a[0]), ext(a[1])) }), "(time.Time).Sub")
	reg(ret(func(m *Machine, g *Gor, a []Value) Value {
		return withExt(m, a[0], m.binop(tokADD, intRT, intRT, ext(a[0]), a[1]))
	}), "(time.Time).Add")
	reg(ret(func(m *Machine, g *Gor, a []Value) Value { return m.binop(tokLSS, intRT, intRT, ext(a[0]), ext(a[1])) }), "(time.Time).Before")
	reg(ret(func(m *Machine, g *Gor, a []Value) Value { return m.binop(tokLSS, intRT, intRT, ext(a[1]), ext(a[0])) }), "(time.Time).After")
	reg(ret(func(m *Machine, g *Gor, a []Value) Value { return m.eq(intRT, ext(a[0]), ext(a[1])) }), "(time.Time).Equal")
	reg(ret(func(m *Machine, g *Gor, a []Value) Value { return boolV(a[0].P.(*Agg).f[0].N == 0) }), "(time.Time).IsZero")
	reg(ret(func(m *Machine, g *Gor, a []Value) Value { return ext(a[0]) }), "(time.Time).UnixNano")
	reg(ret(func(m *Machine, g *Gor, a []Value) Value { return mkStr("<time>") }), "(time.Time).String", "(time.Time).Format")
	reg(ret(func(m *Machine, g *Gor, a []Value) Value {
		if concreteArgs(a[:1]) {
			return mkStr(time.Duration(a[0].N).String())
		}
		return mkStr("<time>")
	}), "(time.Duration).String")
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		s, ok := concStr(a[0])
		if !ok {
			panic(unsupported("ParseDuration of a symbolic text"))
		}
		d, err := time.ParseDuration(s)
		if err != nil {
			return m.interp(g, c, a)
		}
		return tuple(intV(int64(d)), Value{}), stDone
	}, "time.ParseDuration")
	newTimer := func(m *Machine, d Value, period bool) (*timer, *Chan) {
		m.nextObj++
		ch := &Chan{cap: 1, et: m.timeRT(), id: m.nextObj}
		m.w.nTimer++
		t := &timer{id: len(m.timers), at: m.binop(tokADD, intRT, intRT, m.now, d), ch: ch}
		if period {
			t.period = d
		}
		m.timers = append(m.timers, t)
		return t, ch
	}
	tickerObj := func(m *Machine, t *timer, ch *Chan, rt *RType) Value {
		o := m.newObj(rt.size, rt)
		o.s[0] = Value{P: ch}
		t.obj = o
		m.side[fmt.Sprintf("timer%d", o.id)] = t
		return Value{P: o}
	}
	find := func(m *Machine, p Value) *timer {
		o, ok := p.P.(*Object)
		if !ok {
			panic(rtPanic{msg: "runtime error: invalid memory address or nil pointer dereference"})
		}
		t, _ := m.side[fmt.Sprintf("timer%d", o.id)].(*timer)
		return t
	}
	remove := func(m *Machine, t *timer) bool {
		for i, x := range m.timers {
			if x == t {
				m.timers = append(m.timers[:i:i], m.timers[i+1:]...)
				return true
			}
		}
		return false
	}
	// drain drops a tick nobody received yet: no stale tick survives Stop or Reset (Go 1.23 and later).
	drain := func(m *Machine, t *timer) bool {
		if t.ch == nil || len(t.ch.buf) == 0 {
			return false
		}
		m.chanSave(t.ch)
		t.ch.buf = nil
		return true
	}
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		if m.truth(m.binop(tokLSS, intRT, intRT, a[0], intV(1))) {
			panic(rtPanic{msg: "non-positive interval for NewTicker"})
		}
		t, ch := newTimer(m, a[0], true)
		return tickerObj(m, t, ch, rtypeOf(c.cf.fn.Signature.Results().At(0).Type()).elem), stDone
	}, "time.NewTicker")
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		t, ch := newTimer(m, a[0], false)
		return tickerObj(m, t, ch, rtypeOf(c.cf.fn.Signature.Results().At(0).Type()).elem), stDone
	}, "time.NewTimer")
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		_, ch := newTimer(m, a[0], false)
		return Value{P: ch}, stDone
	}, "time.After", "time.Tick")
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		t, _ := newTimer(m, a[0], false)
		t.ch = nil
		t.fn = a[1].P.(*Closure)
		rt := rtypeOf(c.cf.fn.Signature.Results().At(0).Type()).elem
		o := m.newObj(rt.size, rt)
		t.obj = o
		m.side[fmt.Sprintf("timer%d", o.id)] = t
		return Value{P: o}, stDone
	}, "time.AfterFunc")
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		if t := find(m, a[0]); t != nil {
			stale := drain(m, t)
			return boolV(remove(m, t) || stale), stDone
		}
		return boolV(false), stDone
	}, "(*time.Ticker).Stop", "(*time.Timer).Stop")
	reset := func(ticker bool) intrinsic {
		return func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
			t := find(m, a[0])
			if t == nil {
				return boolV(false), stDone
			}
			if ticker && m.truth(m.binop(tokLSS, intRT, intRT, a[1], intV(1))) {
				panic(rtPanic{msg: "non-positive interval for Ticker.Reset"})
			}
			was := drain(m, t)
			was = remove(m, t) || was
			t.at = m.binop(tokADD, intRT, intRT, m.now, a[1])
			if ticker {
				t.period = a[1]
			}
			m.timers = append(m.timers, t)
			return boolV(was), stDone
		}
	}
	reg(reset(true), "(*time.Ticker).Reset")
	reg(reset(false), "(*time.Timer).Reset")
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		if t, ok := g.scratch.(*timer); ok && t != nil {
			if !t.dead {
				return Value{}, m.block(g, "sleep")
			}
			g.scratch = nil
			return Value{}, stDone
		}
		t := &timer{at: m.binop(tokADD, intRT, intRT, m.now, a[0]), g: g}
		m.timers = append(m.timers, t)
		g.scratch = t
		return Value{}, m.block(g, "sleep")
	}, "time.Sleep")
}

func (m *Machine) timeRT() *RType {
	return rtypeOf(m.prog.allPkgs["time"].Type("Time").Type())
}

func (m *Machine) timeValue() Value {
	t := m.timeRT()
	f := make([]Value, t.size)
	f[0] = Value{N: 1 << 63}
	f[1] = m.now
	return Value{P: &Agg{f: f}}
}

// ---- reflect ----

func (m *Machine) rtObj(t *RType) *Object {
	o := m.rtObjs[t]
	if o == nil {
		m.initing++
		o = m.newObj(1, t)
		m.initing--
		m.rtObjs[t] = o
	}
	return o
}

func reflectKind(t *RType) int {
	switch t.kind {
	case KBool:
		return 1
	case KInt:
		b := t.t.Underlying().(*types.Basic)
		return map[types.BasicKind]int{types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6}[b.Kind()]
	case KUint:
		b := t.t.Underlying().(*types.Basic)
		return map[types.BasicKind]int{types.Uint: 7, types.Uint8: 8, types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.Uintptr: 12}[b.Kind()]
	case KFloat:
		if t.w == 32 {
			return 13
		}
		return 14
	case KComplex:
		return 16
	case KArray:
		return 17
	case KChan:
		return 18
	case KFunc:
		return 19
	case KIface:
		return 20
	case KMap:
		return 21
	case KPtr:
		return 22
	case KSlice:
		return 23
	case KString:
		return 24
	case KStruct:
		return 25
	}
	return 26
}

func regReflect(reg func(intrinsic, ...string)) {
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		if a[0].P == nil {
			return Value{}, stDone
		}
		t := a[0].P.(*IfaceV).t
		rt := rtypeOf(types.NewPointer(m.prog.allPkgs["reflect"].Type("rtype").Type()))
		return Value{P: &IfaceV{t: rt, v: Value{P: m.rtObj(t)}}}, stDone
	}, "reflect.TypeOf")
	reg(ret(func(m *Machine, g *Gor, a []Value) Value {
		return intV(int64(reflectKind(a[0].P.(*Object).t)))
	}), "(*reflect.rtype).Kind")
	reg(ret(func(m *Machine, g *Gor, a []Value) Value { return mkStr(a[0].P.(*Object).t.str) }), "(*reflect.rtype).String", "(*reflect.rtype).Name")
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		if a[0].P == nil {
			return Value{}, stDone
		}
		t := a[0].P.(*IfaceV).t
		rt := rtypeOf(m.prog.allPkgs["internal/reflectlite"].Type("rtype").Type())
		f := make([]Value, rt.size)
		f[0] = Value{P: m.rtObj(t)}
		return Value{P: &IfaceV{t: rt, v: Value{P: &Agg{f: f}}}}, stDone
	}, "internal/reflectlite.TypeOf")
	reg(ret(func(m *Machine, g *Gor, a []Value) Value {
		return boolV(types.Comparable(a[0].P.(*Agg).f[0].P.(*Object).t.t))
	}), "(internal/reflectlite.rtype).Comparable")
	// reflect.Value carries the interface value in its first slot
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		rt := rtypeOf(c.cf.fn.Signature.Results().At(0).Type())
		f := make([]Value, rt.size)
		f[0] = a[0]
		return Value{P: &Agg{f: f}}, stDone
	}, "reflect.ValueOf")
	reg(ret(func(m *Machine, g *Gor, a []Value) Value { return a[0].P.(*Agg).f[0] }), "(reflect.Value).Interface")
	reg(ret(func(m *Machine, g *Gor, a []Value) Value {
		iv := a[0].P.(*Agg).f[0]
		if iv.P == nil {
			return Value{}
		}
		return intV(int64(reflectKind(iv.P.(*IfaceV).t)))
	}), "(reflect.Value).Kind")
	reg(ret(func(m *Machine, g *Gor, a []Value) Value {
		iv := a[0].P.(*Agg).f[0]
		return boolV(iv.P == nil || iv.P.(*IfaceV).v.P == nil)
	}), "(reflect.Value).IsNil")
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		return boolV(m.deepEq(a[0], a[1])), stDone
	}, "reflect.DeepEqual")
	unwrap := func(to *RType) intrinsic {
		return ret(func(m *Machine, g *Gor, a []Value) Value {
			iv := a[0].P.(*Agg).f[0].P.(*IfaceV)
			return m.convert(iv.v, iv.t, to)
		})
	}
	reg(unwrap(rtypeOf(types.Typ[types.Float64])), "(reflect.Value).Float")
	reg(unwrap(rtypeOf(types.Typ[types.Int64])), "(reflect.Value).Int")
	reg(unwrap(rtypeOf(types.Typ[types.Uint64])), "(reflect.Value).Uint")
	reg(ret(func(m *Machine, g *Gor, a []Value) Value { return boolV(a[0].P.(*Agg).f[0].P != nil) }), "(reflect.Value).IsValid")
	reg(ret(func(m *Machine, g *Gor, a []Value) Value { return a[0] }), "internal/stringslite.Clone", "strings.Clone")
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		s := a[0].P.(*SliceV)
		ct := rtypeOf(c.cf.fn.Params[0].Type()).elem
		vt := ct.fields[1]
		cases := make([]selCase, s.len)
		def := -1
		var cts []*RType
		for i := 0; i < s.len; i++ {
			sl := s.o.s[s.off+i*ct.size : s.off+(i+1)*ct.size]
			dir := sl[ct.offs[0]].N
			chv := sl[ct.offs[1]]
			k := selCase{send: dir == 1}
			var et *RType
			if dir == 3 {
				def = i
			} else if chv.P != nil {
				iv := chv.P.(*IfaceV)
				et = iv.t.elem
				k.t = et
				if iv.v.P != nil {
					k.c = iv.v.P.(*Chan)
				}
				if k.send {
					k.val = sl[ct.offs[2]].P.(*IfaceV).v
				}
			}
			cts = append(cts, et)
			cases[i] = k
		}
		idx, v, ok, st := m.selectOn(g, cases, def < 0)
		if st != stDone {
			return Value{}, st
		}
		if idx < 0 {
			idx = def
		}
		rv := make([]Value, vt.size)
		if !cases[idx].send && cts[idx] != nil {
			if cts[idx].kind == KIface {
				rv[0] = v
			} else {
				rv[0] = Value{P: &IfaceV{t: cts[idx], v: v}}
			}
		}
		return tuple(intV(int64(idx)), Value{P: &Agg{f: rv}}, boolV(ok)), stDone
	}, "reflect.Select")
}

func (m *Machine) deepEq(a, b Value) bool {
	if a.P == nil || b.P == nil {
		return a.P == nil && b.P == nil
	}
	x, y := a.P.(*IfaceV), b.P.(*IfaceV)
	if x.t != y.t {
		return false
	}
	return m.deepEqT(x.t, x.v, y.v, 0)
}

func (m *Machine) deepEqT(t *RType, a, b Value, d int) bool {
	if d > 50 {
		panic(unsupported("reflect.DeepEqual depth"))
	}
	switch t.kind {
	case KPtr:
		if a == b {
			return true
		}
		if a.P == nil || b.P == nil {
			return false
		}
		return m.deepEqT(t.elem, m.load(a, t.elem), m.load(b, t.elem), d+1)
	case KIface:
		return m.deepEq(a, b)
	case KSlice:
		if (a.P == nil) != (b.P == nil) {
			return false
		}
		if a.P == nil {
			return true
		}
		x, y := a.P.(*SliceV), b.P.(*SliceV)
		if x.len != y.len {
			return false
		}
		for i := 0; i < x.len; i++ {
			p := Value{P: x.o, N: uint64(x.off + i*t.elem.size)}
			q := Value{P: y.o, N: uint64(y.off + i*t.elem.size)}
			if !m.deepEqT(t.elem, m.load(p, t.elem), m.load(q, t.elem), d+1) {
				return false
			}
		}
		return true
	case KMap:
		if (a.P == nil) != (b.P == nil) {
			return false
		}
		if a.P == nil {
			return true
		}
		x, y := a.P.(*MapObj), b.P.(*MapObj)
		if x.live != y.live {
			return false
		}
		for i := range x.keys {
			if x.dead[i] {
				continue
			}
			j := m.mapFind(y, x.keys[i])
			if j < 0 || !m.deepEqT(t.elem, x.vals[i], y.vals[j], d+1) {
				return false
			}
		}
		return true
	case KStruct:
		for i, ft := range t.fields {
			if !m.deepEqT(ft, aggSub(a, t.offs[i], ft), aggSub(b, t.offs[i], ft), d+1) {
				return false
			}
		}
		return true
	case KArray:
		for i := 0; i < t.n; i++ {
			if !m.deepEqT(t.elem, aggSub(a, i*t.elem.size, t.elem), aggSub(b, i*t.elem.size, t.elem), d+1) {
				return false
			}
		}
		return true
	case KFunc:
		return a.P == nil && b.P == nil
	}
	return m.truth(m.eq(t, a, b))
}

// ---- fmt ----

func (m *Machine) fmtArg(g *Gor, v Value) (any, bool) {
	if v.P == nil {
		return nil, true
	}
	iv := v.P.(*IfaceV)
	if fn := iv.t.method(m.prog.prog, "Error", nil); fn != nil {
		if iv.t.kind == KPtr && iv.v.P == nil {
			return "<nil>", true
		}
		r := m.callSync(g, getCfn(fn), []Value{iv.v}, nil)
		return concStr(r)
	}
	if fn := iv.t.method(m.prog.prog, "String", nil); fn != nil && fn.Signature.Params().Len() == 0 {
		if iv.t.kind == KPtr && iv.v.P == nil {
			return "<nil>", true
		}
		r := m.callSync(g, getCfn(fn), []Value{iv.v}, nil)
		return concStr(r)
	}
	switch iv.t.kind {
	case KBool:
		return iv.v.N != 0, iv.v.P == nil
	case KInt:
		return sext(iv.v.N, iv.t.w), iv.v.P == nil
	case KUint:
		return iv.v.N, iv.v.P == nil
	case KFloat:
		return fl(iv.v.N, iv.t.w), iv.v.P == nil
	case KString:
		return concStr2(iv.v)
	case KPtr, KFunc, KChan, KMap, KSlice, KStruct:
		return m.show(iv.v, iv.t), true
	}
	return m.show(iv.v, iv.t), true
}

func concStr2(v Value) (any, bool) { s, ok := concStr(v); return s, ok }

func (m *Machine) sprintf(g *Gor, format string, args []Value) Value {
	xs := make([]any, len(args))
	for i, a := range args {
		x, ok := m.fmtArg(g, a)
		if !ok {
			return m.opaque()
		}
		xs[i] = x
	}
	format = strings.ReplaceAll(format, "%w", "%v")
	format = strings.ReplaceAll(format, "%T", "%v")
	return mkStr(fmt.Sprintf(format, xs...))
}

func (m *Machine) varargs(v Value) []Value {
	if v.P == nil {
		return nil
	}
	s := v.P.(*SliceV)
	return s.o.s[s.off : s.off+s.len]
}

func regFmt(reg func(intrinsic, ...string)) {
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		f, ok := concStr(a[0])
		if !ok {
			return m.opaque(), stDone
		}
		return m.sprintf(g, f, m.varargs(a[1])), stDone
	}, "fmt.Sprintf")
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		var sb []string
		for _, v := range m.varargs(a[0]) {
			x, ok := m.fmtArg(g, v)
			if !ok {
				return m.opaque(), stDone
			}
			sb = append(sb, fmt.Sprint(x))
		}
		return mkStr(strings.Join(sb, " ")), stDone
	}, "fmt.Sprint", "fmt.Sprintln")
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		f, ok := concStr(a[0])
		msg := m.opaque()
		args := m.varargs(a[1])
		if ok {
			msg = m.sprintf(g, f, args)
		}
		pk := m.prog.allPkgs["fmt"]
		if ok && strings.Contains(f, "%w") {
			var errs []Value
			for _, v := range args {
				if v.P != nil && v.P.(*IfaceV).t.method(m.prog.prog, "Error", nil) != nil {
					errs = append(errs, v)
				}
			}
			if strings.Count(f, "%w") > 1 && len(errs) > 1 {
				t := rtypeOf(pk.Type("wrapErrors").Type())
				o := m.newObj(t.size, t)
				o.s[0], o.s[1] = msg, m.mkSlice(errs, rtypeOf(types.NewSlice(types.Universe.Lookup("error").Type())))
				return Value{P: &IfaceV{t: rtypeOf(types.NewPointer(t.t)), v: Value{P: o}}}, stDone
			}
			for _, v := range args {
				if v.P == nil {
					continue
				}
				if fn := v.P.(*IfaceV).t.method(m.prog.prog, "Error", nil); fn != nil {
					t := rtypeOf(pk.Type("wrapError").Type())
					o := m.newObj(t.size, t)
					o.s[0], o.s[1] = msg, v
					return Value{P: &IfaceV{t: rtypeOf(types.NewPointer(t.t)), v: Value{P: o}}}, stDone
				}
			}
		}
		t := rtypeOf(m.prog.allPkgs["errors"].Type("errorString").Type())
		o := m.newObj(t.size, t)
		o.s[0] = msg
		return Value{P: &IfaceV{t: rtypeOf(types.NewPointer(t.t)), v: Value{P: o}}}, stDone
	}, "fmt.Errorf")
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		return tuple(Value{}, Value{}), stDone
	}, "fmt.Println", "fmt.Printf", "fmt.Print")
}

// ---- strconv ----

func (m *Machine) numError(fn string, which string) Value {
	pk := m.prog.allPkgs["strconv"]
	var t *RType
	if tt := pk.Type("NumError"); tt != nil {
		t = rtypeOf(tt.Type())
	} else {
		t = rtypeOf(pk.Pkg.Scope().Lookup("NumError").Type())
	}
	o := m.newObj(t.size, t)
	o.s[0] = mkStr(fn)
	eg := pk.Var(which)
	if eg != nil {
		gp := m.global(eg)
		o.s[2] = gp.P.(*Object).s[0]
	}
	return Value{P: &IfaceV{t: rtypeOf(types.NewPointer(t.t)), v: Value{P: o}}}
}

func (m *Machine) tokTerm(t *Tok, w uint8) *Term {
	if t.w == w {
		return t.t
	}
	if t.kind == 'i' {
		return m.b.Un(OSExt, w, 0, t.t)
	}
	return m.b.Un(OZExt, w, 0, t.t)
}

// tokEqConc compares a formatted symbolic number with concrete text.
func (m *Machine) tokEqConc(t *Tok, s string) Value {
	switch t.kind {
	case 'i':
		n, err := strconv.ParseInt(s, 10, int(t.w))
		if err != nil || strconv.FormatInt(n, 10) != s {
			return boolV(false)
		}
		return termV(m.b.Eq(t.t, m.b.Const(t.w, uint64(n))))
	case 'u':
		n, err := strconv.ParseUint(s, 10, int(t.w))
		if err != nil || strconv.FormatUint(n, 10) != s {
			return boolV(false)
		}
		return termV(m.b.Eq(t.t, m.b.Const(t.w, n)))
	}
	if s == "" {
		return boolV(false)
	}
	panic(unsupported("comparison of an opaque text with %q", s))
}

func regStrconv(reg func(intrinsic, ...string)) {
	mkTok := func(k byte, t *Term) Value { return Value{P: &Str{tok: &Tok{kind: k, t: t, w: t.w}}} }
	isNarrow := func(t *Term, op Op) *Term {
		// keep the narrow width when the value was merely extended
		if t.op == op {
			return t.a[0]
		}
		return t
	}
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		if a[0].P == nil && a[1].P == nil {
			return mkStr(strconv.FormatInt(int64(a[0].N), int(a[1].N))), stDone
		}
		if a[1].P == nil && a[1].N == 10 {
			t := a[0].P.(*Term)
			if t.op == OZExt {
				return mkTok('u', t.a[0]), stDone
			}
			return mkTok('i', isNarrow(t, OSExt)), stDone
		}
		return m.interp(g, c, a)
	}, "strconv.FormatInt")
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		if a[0].P == nil {
			return mkStr(strconv.Itoa(int(int64(a[0].N)))), stDone
		}
		return mkTok('i', isNarrow(a[0].P.(*Term), OSExt)), stDone
	}, "strconv.Itoa")
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		if a[0].P == nil && a[1].P == nil {
			return mkStr(strconv.FormatUint(a[0].N, int(a[1].N))), stDone
		}
		if a[1].P == nil && a[1].N == 10 {
			return mkTok('u', isNarrow(a[0].P.(*Term), OZExt)), stDone
		}
		return m.interp(g, c, a)
	}, "strconv.FormatUint")
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		// f, fmt, prec, bitSize
		bs := int(a[3].N)
		if a[0].P == nil {
			return mkStr(strconv.FormatFloat(math.Float64frombits(a[0].N), byte(a[1].N), int(int64(a[2].N)), bs)), stDone
		}
		t := a[0].P.(*Term)
		text := func(f float64) (Value, status) {
			return mkStr(strconv.FormatFloat(f, byte(a[1].N), int(int64(a[2].N)), bs)), stDone
		}
		if int64(a[2].N) != -1 || !strings.ContainsRune("eEgGf", rune(a[1].N)) {
			return text(m.someFloat(t, "FormatFloat of a symbolic value without shortest precision"))
		}
		if bs == 32 {
			if t.op == OFToF && t.w == 64 {
				return mkTok('f', t.a[0]), stDone
			}
			return text(m.someFloat(t, "FormatFloat bitSize 32 of a float64"))
		}
		return mkTok('F', t), stDone
	}, "strconv.FormatFloat")
	fail := func(m *Machine, fn, which string, v Value) (Value, status) {
		return tuple(v, m.numError(fn, which)), stDone
	}
	parseInt := func(m *Machine, g *Gor, c *icall, a []Value, base, bits int, fn string) (Value, status) {
		if bits == 0 {
			bits = 64
		}
		if s, ok := concStr(a[0]); ok {
			n, err := strconv.ParseInt(s, base, bits)
			if err == nil {
				return tuple(intV(n), Value{}), stDone
			}
			w := "ErrSyntax"
			if err.(*strconv.NumError).Err == strconv.ErrRange {
				w = "ErrRange"
			}
			return fail(m, fn, w, intV(n))
		}
		tk := tokOf(a[0])
		if tk == nil {
			return m.interp(g, c, a)
		}
		if base != 10 && base != 0 {
			panic(unsupported("ParseInt base"))
		}
		switch tk.kind {
		case 'i':
			x := m.tokTerm(tk, 64)
			lo, hi := m.b.Const(64, uint64(-(int64(1)<<(bits-1)))), m.b.Const(64, uint64(int64(1)<<(bits-1)-1))
			if bits < 64 && int(tk.w) > bits {
				in := m.b.And(m.b.Bin(OSle, 0, lo, x), m.b.Bin(OSle, 0, x, hi))
				if !m.branch(in) {
					neg := m.b.Bin(OSlt, 0, x, m.b.Const(64, 0))
					return fail(m, fn, "ErrRange", termV(m.b.Ite(neg, lo, hi)))
				}
			}
			return tuple(termV(x), Value{}), stDone
		case 'u':
			x := m.tokTerm(tk, 64)
			hi := m.b.Const(64, uint64(int64(1)<<(bits-1)-1))
			if !m.branch(m.b.Bin(OUle, 0, x, hi)) {
				return fail(m, fn, "ErrRange", termV(hi))
			}
			return tuple(termV(x), Value{}), stDone
		case 'f', 'F':
			return fail(m, fn, "ErrSyntax", Value{})
		}
		panic(unsupported("ParseInt of an opaque text"))
	}
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		return parseInt(m, g, c, a, int(a[1].N), int(a[2].N), "ParseInt")
	}, "strconv.ParseInt")
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		return parseInt(m, g, c, a, 10, 64, "Atoi")
	}, "strconv.Atoi")
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		bits := int(a[2].N)
		if bits == 0 {
			bits = 64
		}
		if s, ok := concStr(a[0]); ok {
			n, err := strconv.ParseUint(s, int(a[1].N), bits)
			if err == nil {
				return tuple(Value{N: n}, Value{}), stDone
			}
			w := "ErrSyntax"
			if err.(*strconv.NumError).Err == strconv.ErrRange {
				w = "ErrRange"
			}
			return fail(m, "ParseUint", w, Value{N: n})
		}
		tk := tokOf(a[0])
		if tk == nil {
			return m.interp(g, c, a)
		}
		hi := m.b.Const(64, mask(uint8(bits)))
		switch tk.kind {
		case 'i':
			x := m.tokTerm(tk, 64)
			if m.branch(m.b.Bin(OSlt, 0, x, m.b.Const(64, 0))) {
				return fail(m, "ParseUint", "ErrSyntax", Value{})
			}
			if bits < 64 && !m.branch(m.b.Bin(OUle, 0, x, hi)) {
				return fail(m, "ParseUint", "ErrRange", termV(hi))
			}
			return tuple(termV(x), Value{}), stDone
		case 'u':
			x := m.tokTerm(tk, 64)
			if bits < int(tk.w) && !m.branch(m.b.Bin(OUle, 0, x, hi)) {
				return fail(m, "ParseUint", "ErrRange", termV(hi))
			}
			return tuple(termV(x), Value{}), stDone
		case 'f', 'F':
			return fail(m, "ParseUint", "ErrSyntax", Value{})
		}
		panic(unsupported("ParseUint of an opaque text"))
	}, "strconv.ParseUint")
	reg(func(m *Machine, g *Gor, c *icall, a []Value) (Value, status) {
		bits := int(a[1].N)
		if s, ok := concStr(a[0]); ok {
			n, err := strconv.ParseFloat(s, bits)
			if err == nil {
				return tuple(Value{N: math.Float64bits(n)}, Value{}), stDone
			}
			w := "ErrSyntax"
			if err.(*strconv.NumError).Err == strconv.ErrRange {
				w = "ErrRange"
			}
			return fail(m, "ParseFloat", w, Value{N: math.Float64bits(n)})
		}
		tk := tokOf(a[0])
		if tk == nil {
			panic(unsupported("ParseFloat of a symbolic text"))
		}
		switch {
		case tk.kind == 'f' && bits == 32:
			return tuple(Value{P: m.b.mk(OFToF, 64, 0, m.canonNaN(tk.t), nil, nil)}, Value{}), stDone
		case tk.kind == 'F' && bits == 64:
			return tuple(termV(m.canonNaN(tk.t)), Value{}), stDone
		}
		if tk.kind == 'f' || tk.kind == 'F' {
			b := 32
			if tk.kind == 'F' {
				b = 64
			}
			f := m.someFloat(tk.t, "ParseFloat with another size than the text was made with")
			n, err := strconv.ParseFloat(strconv.FormatFloat(f, 'E', -1, b), bits)
			if err == nil {
				return tuple(Value{N: math.Float64bits(n)}, Value{}), stDone
			}
			return fail(m, "ParseFloat", "ErrRange", Value{N: math.Float64bits(n)})
		}
		panic(unsupported("ParseFloat of this text"))
	}, "strconv.ParseFloat")
}

// someFloat is for operations on a symbolic float that have no model: the values on which rounding and range show are
// followed one by one, and the rest of the path is inconclusive.
func (m *Machine) someFloat(t *Term, why string) float64 {
	single := t.w == 32
	if t.op == OFToF && t.a[0].w == 32 {
		t, single = t.a[0], true
	}
	for _, f := range []float64{0.1 + 0.2, 1.0 / 3, math.Pi, 16777217, 123456.789, 1e21 / 3, math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxFloat32, math.SmallestNonzeroFloat32} {
		c, x := math.Float64bits(f), f
		if single {
			x = float64(float32(f))
			c = uint64(math.Float32bits(float32(f)))
			if math.IsInf(x, 0) || x == 0 {
				continue
			}
		}
		if m.branch(m.b.Eq(t, m.b.Const(t.w, c))) {
			return x
		}
	}
	panic(unsupported(why))
}

// canonNaN: every NaN formats as "NaN" and parses as the canonical NaN.
func (m *Machine) canonNaN(t *Term) *Term {
	c := uint64(0x7fc00000)
	if t.w == 64 {
		c = math.Float64bits(math.NaN())
	}
	return m.b.Ite(m.fNaN(t), m.b.Const(t.w, c), t)
}
