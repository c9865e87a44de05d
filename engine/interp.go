package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type status uint8

const (
	stDone  status = iota
	stBlock        // goroutine blocked: the instruction is executed again after wake-up
	stYield        // another goroutine was chosen: the instruction is executed again later
	stCall         // a frame was pushed, its result goes to the destination register
	stRetry        // execute the same instruction again at once
)

type deferred struct {
	call *callInfo
	fnv  Value
	args []Value
}

type Frame struct {
	cf       *cfn
	regs     []Value
	blk      *cblock
	pc       int
	dst      int32 // register of the caller receiving the result
	defers   []deferred
	isDefer  bool // called by RunDefers or by a panicking frame
	ret      Value
	inUnwind bool
	onRet    func(m *Machine, v Value) // native continuation
}

type panicState struct {
	val       Value // interface value
	msg       string
	recovered bool
	fatal     bool
	pos       string
}

type gstatus uint8

const (
	gRun gstatus = iota
	gBlocked
	gDone
)

type Gor struct {
	id      int
	fr      []*Frame
	st      gstatus
	passed  bool
	grp     *wgroup
	why     string
	pan     []*panicState
	blkMu   *muState
	name    string
	vc      []int32
	scratch any
}

type rtPanic struct {
	msg   string
	val   Value
	fatal bool
}

type pathEnd struct{ why string }

type undoRec struct {
	o   *Object
	off int
	v   Value
}

type Machine struct {
	w       *Worker
	b       *Builder
	prog    *Program
	h       *Harness
	globals map[*ssa.Global]*Object
	inited  map[*ssa.Package]int
	undo    []undoRec
	undoFn  []func()
	initing int

	// path state
	pc       []*Term
	pcSet    map[*Term]bool
	facts    *facts
	model    Model
	ev       *Evaluator
	nvars    int
	replay   []int32
	dpos     int
	dec      *Decision
	gors     []*Gor
	cur      *Gor
	steps    int64
	maxStep  int64
	nextObj  int32
	inputs   []InputVar
	obs      []Observation
	mus      map[muKey]*muState
	now      Value
	timers   []*timer
	quiets   []*quiet
	devs     int
	ticks    int
	side     map[string]any
	badRepo  string
	badInit  map[*ssa.Package]bool // packages whose variables are not all set up
	framep   []*Frame
	rtObjs   map[*RType]*Object
	nfresh   int
	reach    map[string]bool
	depth    int
	trace    []schedEv
	curInstr *cinstr
	soft     []string
	rs       *raceState
}

type schedEv struct {
	g   int
	at  string
	why string
}

func (m *Machine) newObj(n int, t *RType) *Object {
	if n < 1 {
		n = 1
	}
	m.nextObj++
	return &Object{s: make([]Value, n), init: m.initing > 0, id: m.nextObj, t: t}
}

func (m *Machine) store1(o *Object, off int, v Value) {
	if o.init && m.initing == 0 {
		m.undo = append(m.undo, undoRec{o, off, o.s[off]})
	}
	o.s[off] = v
}

func (m *Machine) load(p Value, t *RType) Value {
	o, ok := p.P.(*Object)
	if !ok {
		if p.P == nil {
			panic(rtPanic{msg: "runtime error: invalid memory address or nil pointer dereference"})
		}
		panic(unsupported("load through %T", p.P))
	}
	off := int(p.N)
	if t.agg() {
		f := make([]Value, t.size)
		copy(f, o.s[off:off+t.size])
		return Value{P: &Agg{f: f}}
	}
	return o.s[off]
}

func (m *Machine) store(p Value, t *RType, v Value) {
	o, ok := p.P.(*Object)
	if !ok {
		if p.P == nil {
			panic(rtPanic{msg: "runtime error: invalid memory address or nil pointer dereference"})
		}
		panic(unsupported("store through %T", p.P))
	}
	off := int(p.N)
	if t.agg() {
		if t.size == 0 {
			return
		}
		src := v.P.(*Agg).f
		if o.init && m.initing == 0 {
			for i := range src {
				m.undo = append(m.undo, undoRec{o, off + i, o.s[off+i]})
			}
		}
		copy(o.s[off:off+t.size], src)
		return
	}
	m.store1(o, off, v)
}

func (m *Machine) global(g *ssa.Global) Value {
	o := m.globals[g]
	if o == nil {
		m.initing++
		o = m.newObj(rtypeOf(deref(g.Type())).size, rtypeOf(deref(g.Type())))
		m.initing--
		m.globals[g] = o
	}
	if g.Pkg != nil && m.inited[g.Pkg] == 0 {
		m.initPkg(g.Pkg)
	}
	return Value{P: o}
}

// skipInit lists packages whose variables are only used by code the engine models natively.
var skipInit = map[string]bool{"runtime": true, "reflect": true, "os": true, "syscall": true, "time": true, "internal/godebug": true,
	"internal/poll": true, "errors": true, "net": true, "crypto/tls": true, "sync": true}

func (m *Machine) initPkg(p *ssa.Package) {
	m.inited[p] = 1
	if skipInit[p.Pkg.Path()] {
		return
	}
	fn := p.Func("init")
	if fn == nil || len(fn.Blocks) == 0 {
		return
	}
	m.initing++
	saveCur, saveG, saveSteps, saveNow := m.cur, m.gors, m.steps, m.now
	m.now = Value{} // packages are set up on first use: their variables must not see the time of the path
	func() {
		defer func() {
			if r := recover(); r != nil {
				if m.badInit == nil {
					m.badInit = map[*ssa.Package]bool{}
				}
				m.badInit[p] = true
				switch r := r.(type) {
				case unsupportedErr:
					m.w.note("init of " + p.Pkg.Path() + " incomplete: " + r.what)
				case rtPanic:
					m.w.note("init of " + p.Pkg.Path() + " panicked: " + r.msg)
				default:
					m.w.note("init of " + p.Pkg.Path() + " incomplete: " + fmt.Sprint(r))
					if os.Getenv("ENGINE_INIT") != "" {
						for _, f := range m.gors[0].fr {
							fmt.Fprintln(os.Stderr, "init", p.Pkg.Path(), f.cf.name)
						}
					}
				}
			}
		}()
		g := &Gor{id: -1}
		m.gors = []*Gor{g}
		m.cur = g
		m.pushFrame(g, getCfn(fn), nil, nil, math.MinInt32)
		for g.st == gRun && len(g.fr) > 0 {
			m.run(g)
			if len(g.pan) > 0 && len(g.fr) == 0 {
				break
			}
		}
		if g.st == gBlocked {
			panic(unsupported("package initialiser blocks"))
		}
		if len(g.pan) > 0 && len(g.fr) == 0 {
			panic(unsupported("panic"))
		}
	}()
	m.cur, m.gors, m.steps, m.now = saveCur, saveG, saveSteps, saveNow
	m.initing--
	if m.badInit[p] && strings.HasPrefix(p.Pkg.Path(), modPath) {
		m.badRepo = "variables of " + p.Pkg.Path() + " cannot be set up"
		panic(unsupported("%s", m.badRepo))
	}
}

func (m *Machine) get(f *Frame, o int32) Value {
	if o >= 0 {
		return f.regs[o]
	}
	v := f.cf.consts[-o-1]
	if gr, ok := v.P.(*globalRef); ok {
		return m.global(gr.g)
	}
	return v
}

func (m *Machine) pushFrame(g *Gor, cf *cfn, args []Value, bind []Value, dst int32) *Frame {
	if !cf.ready {
		cf.compile()
	}
	if cf.err != "" {
		panic(unsupported("%s", cf.err))
	}
	var f *Frame
	if n := len(m.framep); n > 0 {
		f = m.framep[n-1]
		m.framep = m.framep[:n-1]
		r := f.regs
		if cap(r) < cf.nregs {
			r = make([]Value, cf.nregs)
		} else {
			r = r[:cf.nregs]
			clear(r)
		}
		*f = Frame{regs: r}
	} else {
		f = &Frame{regs: make([]Value, cf.nregs)}
	}
	f.cf = cf
	copy(f.regs, args)
	copy(f.regs[cf.nparams:], bind)
	f.blk = cf.blocks[0]
	f.dst = dst
	g.fr = append(g.fr, f)
	if len(g.fr) > 400 {
		panic(unsupported("call depth above 400"))
	}
	if m.initing == 0 {
		m.w.fnSeen[cf]++
	}
	return f
}

func (m *Machine) popFrame(g *Gor) *Frame {
	n := len(g.fr)
	f := g.fr[n-1]
	g.fr = g.fr[:n-1]
	return f
}

// term lifts a scalar value to a term of width w.
func (m *Machine) term(v Value, w uint8) *Term {
	if v.P == nil {
		return m.b.Const(w, v.N)
	}
	return v.P.(*Term)
}

func (m *Machine) truth(v Value) bool {
	if v.P == nil {
		return v.N != 0
	}
	return m.branch(v.P.(*Term))
}

// run executes goroutine g until it blocks, yields or ends.
func (m *Machine) run(g *Gor) {
	for m.runSafe(g) {
	}
}

func (m *Machine) runSafe(g *Gor) (again bool) {
	defer func() {
		if r := recover(); r != nil {
			if p, ok := r.(rtPanic); ok {
				// the insides of the library rest on the runtime, which is not modelled, and a package whose variables
				// could not be set up does not work
				if n := len(g.fr); n > 0 && p.val.P == nil {
					if strings.HasPrefix(pkgPathOf(g.fr[n-1].cf.fn), "internal/") {
						panic(unsupported("%s", p.msg))
					}
					for _, f := range g.fr {
						if f.cf.fn.Pkg != nil && m.badInit[f.cf.fn.Pkg] {
							panic(unsupported("%s", p.msg))
						}
					}
				}
				m.raise(g, p)
				again = true
				return
			}
			panic(r)
		}
	}()
	m.loop(g)
	return false
}

func (m *Machine) raise(g *Gor, p rtPanic) {
	ps := &panicState{val: p.val, msg: p.msg, fatal: p.fatal, pos: m.where(g)}
	if p.fatal {
		m.crash(g, ps)
	}
	if ps.val.P == nil {
		ps.val = Value{P: &IfaceV{t: strRT, v: mkStr(p.msg)}}
	}
	g.pan = append(g.pan, ps)
	if len(g.fr) == 0 {
		m.crash(g, ps)
	}
	g.fr[len(g.fr)-1].inUnwind = true
	g.passed = false
}

// unwind runs deferred calls of the top frame of a panicking goroutine. It returns false if the goroutine blocked.
func (m *Machine) unwind(g *Gor) bool {
	for {
		if len(g.fr) == 0 {
			m.crash(g, g.pan[len(g.pan)-1])
			return false
		}
		f := g.fr[len(g.fr)-1]
		ps := g.pan[len(g.pan)-1]
		if ps.recovered {
			g.pan = g.pan[:len(g.pan)-1]
			// remaining defers run normally, then the recover block returns
			f.inUnwind = false
			if f.cf.recover != nil {
				// run the other defers first
				if len(f.defers) > 0 {
					f.blk = &cblock{instrs: []cinstr{{op: opRunDefers}, {op: opJump, succ: [2]*cblock{f.cf.recover}}}}
				} else {
					f.blk = f.cf.recover
				}
				f.pc = 0
				return true
			}
			ret := Value{}
			if f.cf.resT != nil {
				ret = zeroOf(f.cf.resT)
			}
			f.blk = &cblock{instrs: []cinstr{{op: opRunDefers}, {op: opReturn, args: nil, flag: true}}}
			f.ret = ret
			f.pc = 0
			return true
		}
		if len(f.defers) == 0 {
			m.popFrame(g)
			if f.isDefer && len(g.pan) >= 2 {
				// a deferred call panicked while unwinding: the new panic replaces the older one
				if len(g.fr) > 0 && g.fr[len(g.fr)-1].inUnwind {
					n := len(g.pan)
					g.pan = append(g.pan[:n-2], g.pan[n-1])
				}
			}
			if len(g.fr) > 0 {
				g.fr[len(g.fr)-1].inUnwind = true
			}
			continue
		}
		f.inUnwind = true
		d := f.defers[len(f.defers)-1]
		n := len(g.fr)
		_, st := m.doCall(g, f, d.call, d.fnv, d.args, math.MinInt32)
		switch st {
		case stDone:
			f.defers = f.defers[:len(f.defers)-1]
		case stCall:
			f.defers = f.defers[:len(f.defers)-1]
			g.fr[n].isDefer = true
			return true
		case stBlock, stYield:
			return false
		case stRetry:
		}
	}
}

func (m *Machine) where(g *Gor) string {
	for i := len(g.fr) - 1; i >= 0; i-- {
		f := g.fr[i]
		if f.blk == nil {
			continue
		}
		pc := f.pc
		if pc >= len(f.blk.instrs) {
			pc = len(f.blk.instrs) - 1
		}
		if pc < 0 {
			continue
		}
		in := f.blk.instrs[pc].src
		if in == nil {
			continue
		}
		p := m.prog.prog.Fset.Position(in.Pos())
		if p.IsValid() {
			return fmt.Sprintf("%s:%d (%s)", p.Filename, p.Line, f.cf.name)
		}
		return f.cf.name
	}
	return "?"
}

func (m *Machine) stack(g *Gor) []string {
	var r []string
	for i := len(g.fr) - 1; i >= 0 && len(r) < 30; i-- {
		f := g.fr[i]
		s := f.cf.name
		if f.blk != nil && f.pc < len(f.blk.instrs) && f.blk.instrs[f.pc].src != nil {
			p := m.prog.prog.Fset.Position(f.blk.instrs[f.pc].src.Pos())
			s += fmt.Sprintf(" %s:%d", p.Filename, p.Line)
		}
		r = append(r, s)
	}
	return r
}

func (m *Machine) setDst(f *Frame, dst int32, v Value) {
	if dst >= 0 {
		f.regs[dst] = v
	}
}

func (m *Machine) loop(g *Gor) {
	for {
		if g.st != gRun || len(g.fr) == 0 {
			return
		}
		f := g.fr[len(g.fr)-1]
		if f.inUnwind {
			if !m.unwind(g) {
				return
			}
			continue
		}
		if !m.exec(g, f) {
			return
		}
	}
}

func (m *Machine) moves(f *Frame, mv []move) {
	switch len(mv) {
	case 0:
	case 1:
		f.regs[mv[0].dst] = m.get(f, mv[0].src)
	default:
		var tmp [8]Value
		t := tmp[:0]
		for _, x := range mv {
			t = append(t, m.get(f, x.src))
		}
		for i, x := range mv {
			f.regs[x.dst] = t[i]
		}
	}
}

// exec runs instructions of frame f until the frame stack changes. It returns false if the goroutine must stop running.
func (m *Machine) exec(g *Gor, f *Frame) bool {
	for {
		ci := &f.blk.instrs[f.pc]
		m.steps++
		if m.steps > m.maxStep {
			m.stepLimit(g)
		}
		switch ci.op {
		case opNop:
		case opAlloc:
			f.regs[ci.dst] = Value{P: m.newObj(ci.t.size, ci.t)}
		case opBin:
			f.regs[ci.dst] = m.binop(ci.tok, ci.t, ci.t2, m.get(f, ci.a), m.get(f, ci.b))
		case opLoad:
			p := m.get(f, ci.a)
			if ci.racy || m.h.race {
				if m.access(g, ci, p, ci.t, false) {
					return false
				}
			}
			f.regs[ci.dst] = m.load(p, ci.t)
		case opStore:
			p := m.get(f, ci.a)
			if ci.racy || m.h.race {
				if m.access(g, ci, p, ci.t, true) {
					return false
				}
			}
			m.store(p, ci.t, m.get(f, ci.b))
		case opNot:
			v := m.get(f, ci.a)
			if v.P == nil {
				f.regs[ci.dst] = Value{N: v.N ^ 1}
			} else {
				f.regs[ci.dst] = termV(m.b.Not(v.P.(*Term)))
			}
		case opNeg:
			v := m.get(f, ci.a)
			if ci.t.kind == KFloat {
				f.regs[ci.dst] = termV(m.b.Bin(OBXor, ci.t.w, m.term(v, ci.t.w), m.b.Const(ci.t.w, uint64(1)<<(ci.t.w-1))))
			} else if v.P == nil {
				f.regs[ci.dst] = Value{N: (-v.N) & mask(ci.t.w)}
			} else {
				f.regs[ci.dst] = termV(m.b.Un(ONeg, ci.t.w, 0, v.P.(*Term)))
			}
		case opXor:
			v := m.get(f, ci.a)
			if v.P == nil {
				f.regs[ci.dst] = Value{N: ^v.N & mask(ci.t.w)}
			} else {
				f.regs[ci.dst] = termV(m.b.Un(OBNot, ci.t.w, 0, v.P.(*Term)))
			}
		case opCopy:
			f.regs[ci.dst] = m.get(f, ci.a)
		case opConvert:
			f.regs[ci.dst] = m.convert(m.get(f, ci.a), ci.t, ci.t2)
		case opExtract:
			f.regs[ci.dst] = m.get(f, ci.a).P.(*Agg).f[ci.n]
		case opField:
			f.regs[ci.dst] = aggSub(m.get(f, ci.a), ci.n, ci.t)
		case opFieldAddr:
			p := m.get(f, ci.a)
			if p.P == nil {
				panic(rtPanic{msg: "runtime error: invalid memory address or nil pointer dereference"})
			}
			f.regs[ci.dst] = Value{P: p.P, N: p.N + uint64(ci.n)}
		case opIndexAddr:
			f.regs[ci.dst] = m.indexAddr(f, ci)
		case opIndex:
			f.regs[ci.dst] = m.index(f, ci)
		case opIf:
			c := m.get(f, ci.a)
			i := 1
			if c.P == nil {
				if c.N != 0 {
					i = 0
				}
			} else if m.branch(c.P.(*Term)) {
				i = 0
			}
			m.moves(f, ci.mv[i])
			f.blk = ci.succ[i]
			f.pc = 0
			continue
		case opJump:
			m.moves(f, ci.mv[0])
			f.blk = ci.succ[0]
			f.pc = 0
			continue
		case opMakeIface:
			f.regs[ci.dst] = Value{P: &IfaceV{t: ci.t, v: m.get(f, ci.a)}}
		case opTypeAssert:
			f.regs[ci.dst] = m.typeAssert(m.get(f, ci.a), ci)
		case opMakeClosure:
			bind := make([]Value, len(ci.args))
			for i, a := range ci.args {
				bind[i] = m.get(f, a)
			}
			m.nextObj++
			f.regs[ci.dst] = Value{P: &Closure{fn: ci.call.static, cf: ci.call.cf, bind: bind, id: m.nextObj}}
		case opMakeMap:
			m.nextObj++
			f.regs[ci.dst] = Value{P: &MapObj{kt: ci.t.key, vt: ci.t.elem, init: m.initing > 0, id: m.nextObj}}
		case opMakeChan:
			n := m.concInt(m.get(f, ci.a), "channel capacity")
			m.nextObj++
			f.regs[ci.dst] = Value{P: &Chan{cap: n, et: ci.t.elem, init: m.initing > 0, id: m.nextObj}}
		case opMakeSlice:
			l := m.concInt(m.get(f, ci.a), "slice length")
			c := m.concInt(m.get(f, ci.b), "slice capacity")
			if l < 0 || l > c {
				panic(rtPanic{msg: "runtime error: makeslice: len out of range"})
			}
			if c > 1<<20 {
				panic(unsupported("slice of %d elements", c))
			}
			o := m.newObj(c*ci.t.elem.size, ci.t)
			f.regs[ci.dst] = Value{P: &SliceV{o: o, len: l, cap: c}}
		case opSlice:
			f.regs[ci.dst] = m.slice(f, ci)
		case opSliceToArr:
			v := m.get(f, ci.a)
			if v.P == nil {
				f.regs[ci.dst] = Value{}
			} else {
				s := v.P.(*SliceV)
				if s.len < ci.t.n {
					panic(rtPanic{msg: "runtime error: cannot convert slice to array: length too short"})
				}
				f.regs[ci.dst] = Value{P: s.o, N: uint64(s.off)}
			}
		case opLookup:
			f.regs[ci.dst] = m.lookup(f, ci)
		case opMapUpdate:
			m.mapSet(m.get(f, ci.a), m.get(f, ci.b), m.get(f, ci.c))
		case opRange:
			f.regs[ci.dst] = m.rangeStart(m.get(f, ci.a), ci.t)
		case opNext:
			f.regs[ci.dst] = m.next(m.get(f, ci.a), ci)
		case opCall:
			args := make([]Value, len(ci.args))
			for i, a := range ci.args {
				args[i] = m.get(f, a)
			}
			var fnv Value
			if ci.call.static == nil && ci.call.builtin == "" {
				fnv = m.get(f, ci.call.fnv)
			}
			v, st := m.doCall(g, f, ci.call, fnv, args, ci.dst)
			switch st {
			case stDone:
				m.setDst(f, ci.dst, v)
			case stCall:
				f.pc++
				return true
			case stRetry:
				continue
			default:
				return false
			}
		case opDefer:
			args := make([]Value, len(ci.args))
			for i, a := range ci.args {
				args[i] = m.get(f, a)
			}
			var fnv Value
			if ci.call.static == nil && ci.call.builtin == "" {
				fnv = m.get(f, ci.call.fnv)
			}
			if ci.call.invoke != nil && fnv.P == nil {
				panic(rtPanic{msg: "runtime error: invalid memory address or nil pointer dereference"})
			}
			f.defers = append(f.defers, deferred{ci.call, fnv, args})
		case opGo:
			args := make([]Value, len(ci.args))
			for i, a := range ci.args {
				args[i] = m.get(f, a)
			}
			var fnv Value
			if ci.call.static == nil && ci.call.builtin == "" {
				fnv = m.get(f, ci.call.fnv)
			}
			m.spawn(g, ci.call, fnv, args)
		case opRunDefers:
			if len(f.defers) > 0 {
				d := f.defers[len(f.defers)-1]
				n := len(g.fr)
				_, st := m.doCall(g, f, d.call, d.fnv, d.args, math.MinInt32)
				switch st {
				case stDone:
					f.defers = f.defers[:len(f.defers)-1]
					continue
				case stCall:
					f.defers = f.defers[:len(f.defers)-1]
					g.fr[n].isDefer = true
					return true
				case stRetry:
					continue
				default:
					return false
				}
			}
		case opReturn:
			var v Value
			if ci.flag {
				v = f.ret
			} else {
				switch len(ci.args) {
				case 0:
				case 1:
					v = m.get(f, ci.args[0])
				default:
					fs := make([]Value, len(ci.args))
					for i, a := range ci.args {
						fs[i] = m.get(f, a)
					}
					v = Value{P: &Agg{f: fs}}
				}
			}
			m.popFrame(g)
			dst := f.dst
			onRet := f.onRet
			if len(m.framep) < 64 {
				f.onRet = nil
				f.defers = nil
				m.framep = append(m.framep, f)
			}
			if onRet != nil {
				onRet(m, v)
			}
			if len(g.fr) == 0 {
				g.st = gDone
				return false
			}
			c := g.fr[len(g.fr)-1]
			if dst >= 0 {
				c.regs[dst] = v
			}
			return true
		case opPanic:
			v := m.get(f, ci.a)
			if v.P == nil {
				panic(rtPanic{msg: "panic called with nil argument"})
			}
			panic(rtPanic{msg: m.show(v, nil), val: v})
		case opSend:
			switch m.chanSend(g, m.get(f, ci.a), m.get(f, ci.b), ci) {
			case stDone:
			default:
				return false
			}
		case opRecv:
			v, ok, st := m.chanRecv(g, m.get(f, ci.a), ci.t, ci)
			if st != stDone {
				return false
			}
			if ci.commaOk {
				f.regs[ci.dst] = Value{P: &Agg{f: []Value{v, boolV(ok)}}}
			} else {
				f.regs[ci.dst] = v
			}
		case opSelect:
			v, st := m.doSelect(g, f, ci)
			if st != stDone {
				return false
			}
			f.regs[ci.dst] = v
		case opUnsupported:
			panic(unsupported("%s", ci.what))
		default:
			panic(unsupported("opcode %d", ci.op))
		}
		f.pc++
	}
}

func aggSub(v Value, off int, t *RType) Value {
	a := v.P.(*Agg)
	if t.agg() {
		return Value{P: &Agg{f: a.f[off : off+t.size : off+t.size]}}
	}
	return a.f[off]
}

func (m *Machine) concInt(v Value, what string) int {
	if v.P == nil {
		return int(int64(v.N))
	}
	return int(int64(m.concretize(v.P.(*Term))))
}

// concretize splits the path on the value of t.
func (m *Machine) concretize(t *Term) uint64 {
	if t.op == OConst {
		return t.c
	}
	for i := 0; i < 64; i++ {
		var k uint64
		if m.dpos < len(m.replay) {
			// the candidate is recorded so that replay does not depend on the model
			k = m.replayConst()
		} else {
			k = m.ev.Eval(t)
			m.recordConst(k)
		}
		if m.branch(m.b.Eq(t, m.b.Const(t.w, k))) {
			return k
		}
	}
	panic(unsupported("more than 64 values for a value that must be concrete"))
}

func (m *Machine) idx(v Value, t *RType, n int) int {
	if v.P == nil {
		i := sext(v.N, t.w)
		if t.kind == KUint {
			i = int64(v.N)
		}
		if i < 0 || i >= int64(n) {
			panic(rtPanic{msg: fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, n)})
		}
		return int(i)
	}
	x := v.P.(*Term)
	// in range?
	in := m.b.Bin(OUlt, 0, x, m.b.Const(t.w, uint64(n)))
	if t.w < 64 && uint64(n) > mask(t.w) {
		in = m.b.Bool(true)
	}
	if !m.branch(in) {
		panic(rtPanic{msg: fmt.Sprintf("runtime error: index out of range with length %d", n)})
	}
	return int(m.concretize(x))
}

func (m *Machine) indexAddr(f *Frame, ci *cinstr) Value {
	x := m.get(f, ci.a)
	iv := m.get(f, ci.b)
	if ci.flag {
		if x.P == nil {
			panic(rtPanic{msg: "runtime error: invalid memory address or nil pointer dereference"})
		}
		i := m.idx(iv, ci.t2, ci.t.n)
		return Value{P: x.P, N: x.N + uint64(i*ci.t.elem.size)}
	}
	if x.P == nil {
		m.idx(iv, ci.t2, 0)
	}
	s := x.P.(*SliceV)
	i := m.idx(iv, ci.t2, s.len)
	return Value{P: s.o, N: uint64(s.off + i*ci.t.elem.size)}
}

func (m *Machine) index(f *Frame, ci *cinstr) Value {
	x := m.get(f, ci.a)
	iv := m.get(f, ci.b)
	if ci.t.kind == KString {
		return m.strIndex(x, iv, ci.t2)
	}
	i := m.idx(iv, ci.t2, ci.t.n)
	return aggSub(x, i*ci.t.elem.size, ci.t.elem)
}

func (m *Machine) strIndex(x, iv Value, it *RType) Value {
	i := m.idx(iv, it, strLen(x))
	s := x.P.(*Str)
	if s.b != nil {
		return termV(s.b[i])
	}
	return Value{N: uint64(s.s[i])}
}

func (m *Machine) slice(f *Frame, ci *cinstr) Value {
	x := m.get(f, ci.a)
	opt := func(o int32, d int) int {
		if o == math.MinInt32 {
			return d
		}
		return m.concInt(m.get(f, o), "slice bound")
	}
	bad := func(lo, hi, max int) {
		panic(rtPanic{msg: fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with capacity %d", lo, hi, max)})
	}
	if ci.flag { // pointer to array
		if x.P == nil {
			panic(rtPanic{msg: "runtime error: invalid memory address or nil pointer dereference"})
		}
		n := ci.t.n
		lo, hi, mx := opt(ci.b, 0), opt(ci.c, n), opt(ci.d, n)
		if lo < 0 || lo > hi || hi > mx || mx > n {
			bad(lo, hi, n)
		}
		return Value{P: &SliceV{o: x.P.(*Object), off: int(x.N) + lo*ci.t.elem.size, len: hi - lo, cap: mx - lo}}
	}
	if ci.t.kind == KString {
		n := strLen(x)
		lo, hi := opt(ci.b, 0), opt(ci.c, n)
		if lo < 0 || lo > hi || hi > n {
			bad(lo, hi, n)
		}
		if lo == hi {
			return Value{}
		}
		s := x.P.(*Str)
		if s.b != nil {
			return m.b.strFromBytes(s.b[lo:hi])
		}
		return mkStr(s.s[lo:hi])
	}
	if x.P == nil {
		lo, hi, mx := opt(ci.b, 0), opt(ci.c, 0), opt(ci.d, 0)
		if lo != 0 || hi != 0 || mx != 0 {
			bad(lo, hi, 0)
		}
		return Value{}
	}
	s := x.P.(*SliceV)
	lo, hi, mx := opt(ci.b, 0), opt(ci.c, s.len), opt(ci.d, s.cap)
	if lo < 0 || lo > hi || hi > mx || mx > s.cap {
		bad(lo, hi, s.cap)
	}
	return Value{P: &SliceV{o: s.o, off: s.off + lo*ci.t.elem.size, len: hi - lo, cap: mx - lo}}
}

func (r *RType) implements(it *RType) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	if v, ok := r.impl[it]; ok {
		return v
	}
	v := types.Implements(r.t, it.t.Underlying().(*types.Interface))
	if r.impl == nil {
		r.impl = map[*RType]bool{}
	}
	r.impl[it] = v
	return v
}

func (m *Machine) typeAssert(v Value, ci *cinstr) Value {
	ok := false
	var out Value
	if v.P != nil {
		iv, isI := v.P.(*IfaceV)
		if !isI {
			panic(unsupported("type assertion on %T", v.P))
		}
		if ci.t.kind == KIface {
			if iv.t.implements(ci.t) {
				ok, out = true, v
			}
		} else if iv.t == ci.t {
			ok, out = true, iv.v
		}
	}
	if ci.commaOk {
		if !ok {
			out = zeroOf(ci.t)
		}
		return Value{P: &Agg{f: []Value{out, boolV(ok)}}}
	}
	if !ok {
		have := "nil"
		if v.P != nil {
			have = v.P.(*IfaceV).t.str
		}
		panic(rtPanic{msg: fmt.Sprintf("interface conversion: interface is %s, not %s", have, ci.t.str)})
	}
	return out
}

func (r *RType) method(prog *ssa.Program, name string, pkg *types.Package) *ssa.Function {
	r.mu.Lock()
	defer r.mu.Unlock()
	if f, ok := r.methods[name]; ok {
		return f
	}
	sel := prog.MethodSets.MethodSet(r.t).Lookup(pkg, name)
	var f *ssa.Function
	if sel != nil {
		f = prog.MethodValue(sel)
	}
	if r.methods == nil {
		r.methods = map[string]*ssa.Function{}
	}
	r.methods[name] = f
	return f
}

// doCall performs a call with evaluated arguments.
func (m *Machine) doCall(g *Gor, f *Frame, c *callInfo, fnv Value, args []Value, dst int32) (Value, status) {
	if c.builtin != "" {
		return m.builtin(g, f, c, args)
	}
	if c.static != nil {
		if c.intr != nil {
			return c.intr(m, g, &icall{cf: c.cf, c: c, f: f, dst: dst}, args)
		}
		m.pushFrame(g, c.cf, args, nil, dst)
		return Value{}, stCall
	}
	if c.invoke != nil {
		if fnv.P == nil {
			panic(rtPanic{msg: "runtime error: invalid memory address or nil pointer dereference (nil interface method " + c.mname + ")"})
		}
		iv := fnv.P.(*IfaceV)
		fn := iv.t.method(m.prog.prog, c.mname, c.invoke.Pkg())
		if fn == nil {
			panic(unsupported("method %s of %s", c.mname, iv.t.str))
		}
		cf := getCfn(fn)
		a2 := make([]Value, 0, len(args)+1)
		a2 = append(a2, iv.v)
		a2 = append(a2, args...)
		if cf.intr != nil {
			return cf.intr(m, g, &icall{cf: cf, c: c, f: f, dst: dst}, a2)
		}
		m.pushFrame(g, cf, a2, nil, dst)
		return Value{}, stCall
	}
	if fnv.P == nil {
		panic(rtPanic{msg: "runtime error: invalid memory address or nil pointer dereference (nil func)"})
	}
	cl := fnv.P.(*Closure)
	return m.callClosure(g, f, c, cl, args, dst)
}

func (m *Machine) callClosure(g *Gor, f *Frame, c *callInfo, cl *Closure, args []Value, dst int32) (Value, status) {
	if cl.native != nil {
		return cl.native(m, g, args)
	}
	if cl.cf.intr != nil {
		return cl.cf.intr(m, g, &icall{cf: cl.cf, c: c, f: f, dst: dst}, append(append([]Value(nil), args...), cl.bind...))
	}
	m.pushFrame(g, cl.cf, args, cl.bind, dst)
	return Value{}, stCall
}

// ---- operators ----

func (m *Machine) fNaN(x *Term) *Term {
	w := x.w
	inf := uint64(0x7f800000)
	if w == 64 {
		inf = 0x7ff0000000000000
	}
	abs := m.b.Bin(OBAnd, w, x, m.b.Const(w, mask(w)>>1))
	return m.b.Bin(OUlt, 0, m.b.Const(w, inf), abs)
}

func (m *Machine) fEq(x, y *Term) *Term {
	b := m.b
	w := x.w
	zero := b.Eq(b.Bin(OBAnd, w, b.Bin(OBOr, w, x, y), b.Const(w, mask(w)>>1)), b.Const(w, 0))
	return b.And(b.And(b.Not(m.fNaN(x)), b.Not(m.fNaN(y))), b.Or(b.Eq(x, y), zero))
}

func (m *Machine) fLt(x, y *Term) *Term {
	b := m.b
	w := x.w
	zero := b.Eq(b.Bin(OBAnd, w, b.Bin(OBOr, w, x, y), b.Const(w, mask(w)>>1)), b.Const(w, 0))
	sx := b.Bin(OSlt, 0, x, b.Const(w, 0))
	sy := b.Bin(OSlt, 0, y, b.Const(w, 0))
	lt := b.Or(b.And(sx, b.Not(sy)), b.Or(b.And(b.And(b.Not(sx), b.Not(sy)), b.Bin(OUlt, 0, x, y)), b.And(b.And(sx, sy), b.Bin(OUlt, 0, y, x))))
	return b.And(b.And(b.And(b.Not(m.fNaN(x)), b.Not(m.fNaN(y))), b.Not(zero)), lt)
}

func flOf(v uint64, w uint8) float64 { return fl(v, w) }

func (m *Machine) binop(tok token.Token, t, t2 *RType, a, b Value) Value {
	switch tok {
	case token.EQL:
		return m.eqV(t, t2, a, b)
	case token.NEQ:
		v := m.eqV(t, t2, a, b)
		if v.P == nil {
			return Value{N: v.N ^ 1}
		}
		return termV(m.b.Not(v.P.(*Term)))
	}
	switch t.kind {
	case KInt, KUint, KBool:
		if a.P == nil && b.P == nil {
			return m.intOp(tok, t, t2, a.N, b.N)
		}
		return m.intTerm(tok, t, t2, a, b)
	case KFloat:
		if a.P == nil && b.P == nil {
			x, y := fl(a.N, t.w), fl(b.N, t.w)
			switch tok {
			case token.ADD:
				return Value{N: flop(a.N, b.N, t.w, '+')}
			case token.SUB:
				return Value{N: flop(a.N, b.N, t.w, '-')}
			case token.MUL:
				return Value{N: flop(a.N, b.N, t.w, '*')}
			case token.QUO:
				return Value{N: flop(a.N, b.N, t.w, '/')}
			case token.LSS:
				return boolV(x < y)
			case token.LEQ:
				return boolV(x <= y)
			case token.GTR:
				return boolV(x > y)
			case token.GEQ:
				return boolV(x >= y)
			}
		}
		x, y := m.term(a, t.w), m.term(b, t.w)
		switch tok {
		case token.LSS:
			return termV(m.fLt(x, y))
		case token.GTR:
			return termV(m.fLt(y, x))
		case token.LEQ:
			return termV(m.b.Or(m.fLt(x, y), m.fEq(x, y)))
		case token.GEQ:
			return termV(m.b.Or(m.fLt(y, x), m.fEq(x, y)))
		}
		panic(unsupported("symbolic floating point arithmetic"))
	case KString:
		return m.strOp(tok, a, b)
	}
	panic(unsupported("binary operator %s on %s", tok, t.str))
}

func (m *Machine) intOp(tok token.Token, t, t2 *RType, x, y uint64) Value {
	w := t.w
	mk := func(v uint64) Value { return Value{N: v & mask(w)} }
	signed := t.kind == KInt
	switch tok {
	case token.ADD:
		return mk(x + y)
	case token.SUB:
		return mk(x - y)
	case token.MUL:
		return mk(x * y)
	case token.QUO, token.REM:
		if y == 0 {
			panic(rtPanic{msg: "runtime error: integer divide by zero"})
		}
		if signed {
			if tok == token.QUO {
				return mk(evalOp(OSDiv, w, 0, w, x, y, 0))
			}
			return mk(evalOp(OSRem, w, 0, w, x, y, 0))
		}
		if tok == token.QUO {
			return mk(x / y)
		}
		return mk(x % y)
	case token.AND:
		return mk(x & y)
	case token.OR:
		return mk(x | y)
	case token.XOR:
		return mk(x ^ y)
	case token.AND_NOT:
		return mk(x &^ y)
	case token.SHL, token.SHR:
		if t2.kind == KInt && sext(y, t2.w) < 0 {
			panic(rtPanic{msg: "runtime error: negative shift amount"})
		}
		if tok == token.SHL {
			return mk(evalOp(OShl, w, 0, w, x, y, 0))
		}
		if signed {
			return mk(evalOp(OAShr, w, 0, w, x, y, 0))
		}
		return mk(evalOp(OLShr, w, 0, w, x, y, 0))
	case token.LSS:
		if signed {
			return boolV(sext(x, w) < sext(y, w))
		}
		return boolV(x < y)
	case token.LEQ:
		if signed {
			return boolV(sext(x, w) <= sext(y, w))
		}
		return boolV(x <= y)
	case token.GTR:
		if signed {
			return boolV(sext(x, w) > sext(y, w))
		}
		return boolV(x > y)
	case token.GEQ:
		if signed {
			return boolV(sext(x, w) >= sext(y, w))
		}
		return boolV(x >= y)
	}
	panic(unsupported("integer operator %s", tok))
}

func (m *Machine) intTerm(tok token.Token, t, t2 *RType, a, b Value) Value {
	w := t.w
	B := m.b
	x := m.term(a, w)
	signed := t.kind == KInt
	if tok == token.SHL || tok == token.SHR {
		y := m.term(b, t2.w)
		if t2.kind == KInt {
			if m.branch(B.Bin(OSlt, 0, y, B.Const(t2.w, 0))) {
				panic(rtPanic{msg: "runtime error: negative shift amount"})
			}
		}
		if t2.w < w {
			y = B.Un(OZExt, w, 0, y)
		} else if t2.w > w {
			y = B.Ite(B.Bin(OUlt, 0, y, B.Const(t2.w, uint64(w))), B.Un(OExtract, w, 0, y), B.Const(w, uint64(w)))
		}
		op := OShl
		if tok == token.SHR {
			op = OLShr
			if signed {
				op = OAShr
			}
		}
		return termV(B.Bin(op, w, x, y))
	}
	y := m.term(b, w)
	var op Op
	rw := w
	switch tok {
	case token.ADD:
		op = OAdd
	case token.SUB:
		op = OSub
	case token.MUL:
		op = OMul
	case token.QUO, token.REM:
		if m.branch(B.Eq(y, B.Const(w, 0))) {
			panic(rtPanic{msg: "runtime error: integer divide by zero"})
		}
		switch {
		case tok == token.QUO && signed:
			op = OSDiv
		case tok == token.QUO:
			op = OUDiv
		case signed:
			op = OSRem
		default:
			op = OURem
		}
	case token.AND:
		op = OBAnd
		if w == 0 {
			op = OAnd
		}
	case token.OR:
		op = OBOr
		if w == 0 {
			op = OOr
		}
	case token.XOR:
		op = OBXor
	case token.AND_NOT:
		return termV(B.Bin(OBAnd, w, x, B.Un(OBNot, w, 0, y)))
	case token.LSS, token.GTR:
		if tok == token.GTR {
			x, y = y, x
		}
		op, rw = OUlt, 0
		if signed {
			op = OSlt
		}
	case token.LEQ, token.GEQ:
		if tok == token.GEQ {
			x, y = y, x
		}
		op, rw = OUle, 0
		if signed {
			op = OSle
		}
	default:
		panic(unsupported("integer operator %s", tok))
	}
	return termV(B.Bin(op, rw, x, y))
}

func (m *Machine) eqV(t, t2 *RType, a, b Value) Value {
	if t.kind == KIface && t2.kind != KIface {
		b = Value{P: &IfaceV{t: t2, v: b}}
	} else if t2.kind == KIface && t.kind != KIface {
		a = Value{P: &IfaceV{t: t, v: a}}
		t = t2
	}
	return m.eq(t, a, b)
}

func (m *Machine) eq(t *RType, a, b Value) Value {
	switch t.kind {
	case KBool, KInt, KUint:
		if a.P == nil && b.P == nil {
			return boolV(a.N == b.N)
		}
		return termV(m.b.Eq(m.term(a, t.w), m.term(b, t.w)))
	case KFloat:
		if a.P == nil && b.P == nil {
			return boolV(fl(a.N, t.w) == fl(b.N, t.w))
		}
		return termV(m.fEq(m.term(a, t.w), m.term(b, t.w)))
	case KString:
		return m.strEq(a, b)
	case KPtr, KMap, KChan, KFunc, KUnsafe, KSlice:
		return boolV(a.P == b.P && a.N == b.N)
	case KIface:
		if a.P == nil || b.P == nil {
			return boolV(a.P == nil && b.P == nil)
		}
		x, y := a.P.(*IfaceV), b.P.(*IfaceV)
		if x == y && x.t.kind != KFloat && !x.t.agg() {
			if x.t.kind == KSlice || x.t.kind == KMap || x.t.kind == KFunc {
				panic(rtPanic{msg: "runtime error: comparing uncomparable type " + x.t.str})
			}
			return boolV(true)
		}
		if x.t != y.t {
			return boolV(false)
		}
		if x.t.kind == KSlice || x.t.kind == KMap || x.t.kind == KFunc {
			panic(rtPanic{msg: "runtime error: comparing uncomparable type " + x.t.str})
		}
		return m.eq(x.t, x.v, y.v)
	case KStruct:
		r := m.b.Bool(true)
		x, y := a.P.(*Agg), b.P.(*Agg)
		for i, ft := range t.fields {
			st := t.t.Underlying().(*types.Struct)
			if st.Field(i).Name() == "_" {
				continue
			}
			v := m.eq(ft, aggSub(Value{P: x}, t.offs[i], ft), aggSub(Value{P: y}, t.offs[i], ft))
			r = m.b.And(r, m.term(v, 0))
			if r.isFalse() {
				break
			}
		}
		return termV(r)
	case KArray:
		r := m.b.Bool(true)
		for i := 0; i < t.n; i++ {
			v := m.eq(t.elem, aggSub(a, i*t.elem.size, t.elem), aggSub(b, i*t.elem.size, t.elem))
			r = m.b.And(r, m.term(v, 0))
			if r.isFalse() {
				break
			}
		}
		return termV(r)
	}
	panic(unsupported("comparison of %s", t.str))
}

func (m *Machine) convert(v Value, from, to *RType) Value {
	switch {
	case (from.kind == KInt || from.kind == KUint) && (to.kind == KInt || to.kind == KUint):
		if v.P == nil {
			if from.kind == KInt {
				return Value{N: uint64(sext(v.N, from.w)) & mask(to.w)}
			}
			return Value{N: v.N & mask(to.w)}
		}
		x := v.P.(*Term)
		if to.w < from.w {
			return termV(m.b.Un(OExtract, to.w, 0, x))
		}
		if to.w > from.w {
			if from.kind == KInt {
				return termV(m.b.Un(OSExt, to.w, 0, x))
			}
			return termV(m.b.Un(OZExt, to.w, 0, x))
		}
		return v
	case from.kind == KFloat && to.kind == KFloat:
		if from.w == to.w {
			return v
		}
		if v.P == nil {
			return Value{N: unfl(fl(v.N, from.w), to.w)}
		}
		if x := v.P.(*Term); from.w == 64 && to.w == 32 && x.op == OFToF {
			return termV(x.a[0])
		}
		if from.w == 32 && to.w == 64 {
			// exact: kept as an uninterpreted widening that only narrowing undoes
			return Value{P: m.b.mk(OFToF, 64, 0, v.P.(*Term), nil, nil)}
		}
		panic(unsupported("symbolic float conversion"))
	case (from.kind == KInt || from.kind == KUint) && to.kind == KFloat:
		if v.P != nil {
			panic(unsupported("symbolic integer to float conversion"))
		}
		if from.kind == KInt {
			return Value{N: unfl(float64(sext(v.N, from.w)), to.w)}
		}
		return Value{N: unfl(float64(v.N), to.w)}
	case from.kind == KFloat && (to.kind == KInt || to.kind == KUint):
		if v.P != nil {
			panic(unsupported("symbolic float to integer conversion"))
		}
		f := fl(v.N, from.w)
		if to.kind == KInt {
			return Value{N: uint64(int64(f)) & mask(to.w)}
		}
		return Value{N: uint64(f) & mask(to.w)}
	case to.kind == KString && (from.kind == KInt || from.kind == KUint):
		if v.P != nil {
			panic(unsupported("symbolic rune to string"))
		}
		return mkStr(string(rune(sext(v.N, from.w))))
	case to.kind == KString && from.kind == KSlice:
		if v.P == nil {
			return Value{}
		}
		s := v.P.(*SliceV)
		if from.elem.w == 8 {
			bs := make([]*Term, s.len)
			for i := range bs {
				if t, ok := s.o.s[s.off+i].P.(*tokByte); ok {
					return m.detok(s, t)
				}
				bs[i] = m.term(s.o.s[s.off+i], 8)
			}
			return m.b.strFromBytes(bs)
		}
		var rs []rune
		for i := 0; i < s.len; i++ {
			x := s.o.s[s.off+i]
			if x.P != nil {
				panic(unsupported("symbolic rune slice to string"))
			}
			rs = append(rs, rune(int32(x.N)))
		}
		return mkStr(string(rs))
	case from.kind == KString && to.kind == KSlice:
		if to.elem.w == 8 {
			if v.P != nil {
				if tk := v.P.(*Str).tok; tk != nil {
					o := m.newObj(1, to)
					o.s[0] = Value{P: &tokByte{v.P.(*Str)}}
					return Value{P: &SliceV{o: o, len: 1, cap: 1}}
				}
			}
			bs := m.b.strBytes(v)
			o := m.newObj(len(bs), to)
			for i, t := range bs {
				o.s[i] = termV(t)
			}
			return Value{P: &SliceV{o: o, len: len(bs), cap: len(bs)}}
		}
		s, ok := concStr(v)
		if !ok {
			panic(unsupported("symbolic string to rune slice"))
		}
		rs := []rune(s)
		o := m.newObj(len(rs), to)
		for i, r := range rs {
			o.s[i] = Value{N: uint64(uint32(r))}
		}
		return Value{P: &SliceV{o: o, len: len(rs), cap: len(rs)}}
	case to.kind == KString && from.kind == KString:
		return v
	}
	return v
}

// tokByte stands for the bytes of an opaque text inside a byte slice.
type tokByte struct{ s *Str }

func (m *Machine) detok(s *SliceV, t *tokByte) Value {
	if s.len != 1 {
		panic(unsupported("part of an opaque text"))
	}
	return Value{P: t.s}
}

// ---- strings ----

func (m *Machine) strEq(a, b Value) Value {
	if a.P == b.P {
		return boolV(true)
	}
	sa, oka := concStr(a)
	sb, okb := concStr(b)
	if oka && okb {
		return boolV(sa == sb)
	}
	ta, tb := tokOf(a), tokOf(b)
	if ta != nil || tb != nil {
		if ta != nil && tb != nil && ta.kind == tb.kind && ta.kind != 'o' {
			w := max(ta.w, tb.w)
			x, y := m.tokTerm(ta, w), m.tokTerm(tb, w)
			return termV(m.b.Eq(x, y))
		}
		if ta != nil && okb {
			return m.tokEqConc(ta, sb)
		}
		if tb != nil && oka {
			return m.tokEqConc(tb, sa)
		}
		panic(unsupported("comparison of opaque texts"))
	}
	if strLen(a) != strLen(b) {
		return boolV(false)
	}
	x, y := m.b.strBytes(a), m.b.strBytes(b)
	r := m.b.Bool(true)
	for i := range x {
		r = m.b.And(r, m.b.Eq(x[i], y[i]))
	}
	return termV(r)
}

func (m *Machine) strLt(x, y []*Term) *Term {
	B := m.b
	// from the end: lt(i) = x[i]<y[i] or (x[i]==y[i] and lt(i+1))
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	r := B.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = B.Or(B.Bin(OUlt, 0, x[i], y[i]), B.And(B.Eq(x[i], y[i]), r))
	}
	return r
}

func (m *Machine) strOp(tok token.Token, a, b Value) Value {
	sa, oka := concStr(a)
	sb, okb := concStr(b)
	if oka && okb {
		switch tok {
		case token.ADD:
			return mkStr(sa + sb)
		case token.LSS:
			return boolV(sa < sb)
		case token.LEQ:
			return boolV(sa <= sb)
		case token.GTR:
			return boolV(sa > sb)
		case token.GEQ:
			return boolV(sa >= sb)
		}
	}
	if tok == token.ADD {
		if a.P == nil {
			return b
		}
		if b.P == nil {
			return a
		}
		if tokOf(a) != nil || tokOf(b) != nil {
			return m.opaque()
		}
		x, y := m.b.strBytes(a), m.b.strBytes(b)
		return m.b.strFromBytes(append(append([]*Term(nil), x...), y...))
	}
	x, y := m.b.strBytes(a), m.b.strBytes(b)
	switch tok {
	case token.LSS:
		return termV(m.strLt(x, y))
	case token.GTR:
		return termV(m.strLt(y, x))
	case token.LEQ:
		return termV(m.b.Not(m.strLt(y, x)))
	case token.GEQ:
		return termV(m.b.Not(m.strLt(x, y)))
	}
	panic(unsupported("string operator %s", tok))
}

func (m *Machine) opaque() Value {
	m.nfresh++
	return Value{P: &Str{tok: &Tok{kind: 'o', id: m.nfresh}}}
}

func tokOf(v Value) *Tok {
	if v.P == nil {
		return nil
	}
	return v.P.(*Str).tok
}
