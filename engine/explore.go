package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Decision is a persistent list of path decisions. out >= 0: branch outcome / choice;
// the implied flag (bit 30) marks outcomes that follow from the path condition.
type Decision struct {
	parent *Decision
	depth  int
	out    int32
}

const implied = int32(1) << 30

type WorkItem struct {
	dec   *Decision
	model Model
}

type Harness struct {
	fn          *ssa.Function
	name        string
	race        bool
	mapOrder    string
	earlyTimers bool
	freeBlock   bool
	maxTicks    int
	maxStep     int64
	devs        int
	timeS       int
	quickSkip   bool
	thoroughMul int
	native      bool
	hangOK      bool
	expectHang  bool
	opts        map[string]string
	labels      []string // reachability labels
	noReplay    bool
}

func parseHarness(fn *ssa.Function, doc string, tier string) *Harness {
	h := &Harness{fn: fn, name: fn.Name(), maxTicks: 50, maxStep: 3_000_000, timeS: 150, mapOrder: "insertion", opts: map[string]string{}, native: true, race: true}
	for _, l := range strings.Split(doc, "\n") {
		l = strings.Replace(strings.TrimSpace(l), "// verif", "//verif", 1)
		pre := "//verif:"
		if strings.HasPrefix(l, "//verif-thorough:") && tier == "thorough" {
			pre = "//verif-thorough:"
		}
		if !strings.HasPrefix(l, pre) {
			continue
		}
		for _, kv := range strings.Fields(strings.TrimPrefix(l, pre)) {
			k, v, _ := strings.Cut(kv, "=")
			n, _ := strconv.Atoi(v)
			h.opts[k] = v
			switch k {
			case "race":
				h.race = v == "on"
			case "maporder":
				h.mapOrder = v
			case "timers":
				h.earlyTimers = v == "early"
			case "freeblock":
				h.freeBlock = true
			case "ticks":
				h.maxTicks = n
			case "steps":
				h.maxStep = int64(n)
			case "devs":
				h.devs = n
			case "time":
				h.timeS = n
			case "quickskip":
				h.quickSkip = true
			case "native":
				h.native = v != "off"
			case "replay":
				h.noReplay = v == "engine"
			}
		}
	}
	return h
}

type Violation struct {
	Harness string
	Label   string
	Kind    string
	Msg     string
	Inputs  []InputVal
	Trace   []string
	Stack   []string
	Dec     []int32
	Sched   bool
	Obs     []string
}

type InputVal struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  uint64 `json:"val"`
}

type Sample struct {
	Harness string
	Inputs  []InputVal
	Obs     []string
	PC      int
	Sched   bool
}

type Explorer struct {
	prog   *Program
	tier   string
	seed   int64
	mu     sync.Mutex
	cond   *sync.Cond
	work   []*WorkItem
	active int
	stop   bool
	dl     time.Time
	timeUp bool

	h *Harness
	// statistics for the current harness
	paths, infeas, inconclPaths, steps, decisions, asserts, discharged int64
	inconcl                                                            map[string]int
	reached                                                            map[string]int
	viol                                                               map[string][]*Violation
	samples                                                            []*Sample
	nsample                                                            int64
	bounds                                                             map[string]int64
	racy                                                               map[*cinstr]bool
	racyNew                                                            bool
	known                                                              map[string]bool
	workers                                                            []*Worker
	notes                                                              map[string]int
	schedPaths                                                         int64
	rng                                                                *rand.Rand
}

type Worker struct {
	ex     *Explorer
	m      *Machine
	sol    *Solver
	fnSeen map[*cfn]int64
	nTimer int
	id     int
}

func (w *Worker) note(s string) {
	w.ex.mu.Lock()
	w.ex.notes[s]++
	w.ex.mu.Unlock()
}

func (ex *Explorer) bound(h *Harness, name string, v int64) {
	ex.mu.Lock()
	ex.bounds[h.name+"."+name] = v
	ex.mu.Unlock()
}

func newMachine(w *Worker, p *Program) *Machine {
	m := &Machine{w: w, prog: p, b: NewBuilder(), globals: map[*ssa.Global]*Object{}, inited: map[*ssa.Package]int{}, rtObjs: map[*RType]*Object{}}
	return m
}

func (ex *Explorer) push(it *WorkItem) {
	ex.mu.Lock()
	ex.work = append(ex.work, it)
	ex.mu.Unlock()
	ex.cond.Signal()
}

func (ex *Explorer) pop() *WorkItem {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stop {
			return nil
		}
		if n := len(ex.work); n > 0 {
			if time.Now().After(ex.dl) {
				ex.timeUp = true
				ex.stop = true
				ex.cond.Broadcast()
				return nil
			}
			it := ex.work[n-1]
			ex.work[n-1] = nil
			ex.work = ex.work[:n-1]
			ex.active++
			return it
		}
		if ex.active == 0 {
			ex.cond.Broadcast()
			return nil
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) done() {
	ex.mu.Lock()
	ex.active--
	if ex.active == 0 && len(ex.work) == 0 {
		ex.cond.Broadcast()
	}
	ex.mu.Unlock()
}

// explore runs one harness to exhaustion or until its time is up.
func (ex *Explorer) explore(h *Harness, timeS int) {
	ex.h = h
	ex.work = []*WorkItem{{}}
	ex.stop, ex.timeUp, ex.active = false, false, 0
	ex.dl = time.Now().Add(time.Duration(timeS) * time.Second)
	var wg sync.WaitGroup
	for _, w := range ex.workers {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			for {
				it := ex.pop()
				if it == nil {
					return
				}
				w.runPath(it)
				ex.done()
			}
		}(w)
	}
	wg.Wait()
}

func (w *Worker) runPath(it *WorkItem) {
	ex := w.ex
	if w.m == nil {
		w.m = newMachine(w, ex.prog)
	}
	m := w.m
	if m.b.nextID > 3_000_000 {
		m.b = NewBuilder()
		w.sol.Close()
		w.sol.start()
	}
	h := ex.h
	m.h = h
	m.pc = m.pc[:0]
	m.pcSet = map[*Term]bool{}
	m.facts = newFacts()
	m.model = it.model
	m.ev = &Evaluator{m: m.model, memo: map[*Term]uint64{}}
	m.nvars = 0
	m.replay = flatten(it.dec)
	m.dpos = 0
	m.dec = nil
	m.steps = 0
	m.maxStep = h.maxStep
	m.inputs = nil
	m.obs = nil
	m.mus = map[muKey]*muState{}
	m.now = Value{}
	m.timers = nil
	m.quiets = nil
	m.devs = h.devs
	m.ticks = 0
	m.side = map[string]any{}
	m.reach = map[string]bool{}
	m.trace = nil
	m.soft = nil
	m.nextObj = 1 << 20
	m.nfresh = 0
	m.raceReset()
	g := &Gor{id: 0, name: "main"}
	m.gors = []*Gor{g}
	m.cur = g
	end := "done"
	func() {
		defer func() {
			r := recover()
			switch r := r.(type) {
			case nil:
			case pathEnd:
				end = r.why
			case unsupportedErr:
				end = "inconclusive"
				at := ""
				if m.cur != nil {
					at = " at " + m.where(m.cur)
				}
				ex.mu.Lock()
				ex.inconcl[r.what+at]++
				ex.mu.Unlock()
				if w.sol.dead {
					w.sol.cmd.Wait()
					w.sol.dead = false
					w.sol.start()
				}
			default:
				if os.Getenv("ENGINE_DEBUG") != "" {
					panic(fmt.Sprintf("engine: %v\nat %s\nstack %v", r, m.where(m.cur), m.stack(m.cur)))
				}
				end = "inconclusive"
				at := ""
				if m.cur != nil {
					at = " at " + m.where(m.cur)
				}
				ex.mu.Lock()
				ex.inconcl[fmt.Sprintf("engine: %v%s", r, at)]++
				ex.mu.Unlock()
			}
		}()
		if m.badRepo != "" {
			panic(unsupported("%s", m.badRepo))
		}
		m.pushFrame(g, getCfn(h.fn), nil, nil, math.MinInt32)
		m.schedule()
		m.consistent(m.model)
	}()
	// restore initialisation-time state
	for i := len(m.undo) - 1; i >= 0; i-- {
		u := m.undo[i]
		u.o.s[u.off] = u.v
	}
	m.undo = m.undo[:0]
	for i := len(m.undoFn) - 1; i >= 0; i-- {
		m.undoFn[i]()
	}
	m.undoFn = nil
	clear(m.framep)
	m.framep = m.framep[:0]
	clear(m.undo[:cap(m.undo)])
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.steps += m.steps
	switch end {
	case "done":
		ex.paths++
		sched := false
		for d := m.dec; d != nil; d = d.parent {
			_ = d
		}
		if len(m.gors) > 1 {
			sched = true
			ex.schedPaths++
		}
		ex.nsample++
		const keep = 12
		if len(ex.samples) < keep {
			ex.samples = append(ex.samples, m.sample(sched))
		} else if k := ex.rng.Int63n(ex.nsample); k < keep {
			ex.samples[k] = m.sample(sched)
		}
	case "infeasible":
		ex.infeas++
	case "inconclusive":
		ex.inconclPaths++
	case "violation":
		ex.paths++
	default:
		ex.paths++
	}
	for l := range m.reach {
		ex.reached[l]++
	}
}

func flatten(d *Decision) []int32 {
	if d == nil {
		return nil
	}
	r := make([]int32, d.depth)
	for x := d; x != nil; x = x.parent {
		r[x.depth-1] = x.out
	}
	return r
}

func (m *Machine) record(out int32) {
	depth := 1
	if m.dec != nil {
		depth = m.dec.depth + 1
	}
	m.dec = &Decision{parent: m.dec, depth: depth, out: out}
}

func (m *Machine) child(out int32) *Decision {
	depth := 1
	if m.dec != nil {
		depth = m.dec.depth + 1
	}
	return &Decision{parent: m.dec, depth: depth, out: out}
}

func (m *Machine) addPC(t *Term) {
	if t.op == OConst {
		return
	}
	m.know(t)
	m.pc = append(m.pc, t)
}

func (m *Machine) replayConst() uint64 {
	lo := uint64(uint32(m.replay[m.dpos]))
	hi := uint64(uint32(m.replay[m.dpos+1]))
	m.record(m.replay[m.dpos])
	m.record(m.replay[m.dpos+1])
	m.dpos += 2
	return lo | hi<<32
}

func (m *Machine) recordConst(k uint64) {
	m.record(int32(uint32(k)))
	m.record(int32(uint32(k >> 32)))
}

// branch decides a symbolic condition, exploring both sides when both are feasible.
func (m *Machine) branch(c *Term) bool {
	if c.op == OConst {
		return c.c == 1
	}
	if m.initing > 0 {
		panic(unsupported("symbolic branch during initialisation"))
	}
	c = m.simp(c)
	if c.op == OConst {
		return c.c == 1
	}
	if m.dpos < len(m.replay) {
		o := m.replay[m.dpos]
		m.dpos++
		m.record(o)
		out := o&1 == 1
		t := c
		if !out {
			t = m.b.Not(c)
		}
		if o&implied == 0 {
			m.addPC(t)
		} else {
			m.know(t)
		}
		return out
	}
	atomic.AddInt64(&m.w.ex.decisions, 1)
	out := m.ev.Eval(c) == 1
	side, other := c, m.b.Not(c)
	oi := int32(0)
	if out {
		oi = 1
	} else {
		side, other = other, side
	}
	r, mod := m.w.sol.Check(m.pc, other, m.model)
	switch r {
	case "sat":
		m.w.ex.push(&WorkItem{dec: m.child(oi ^ 1), model: mod})
		m.record(oi)
		m.addPC(side)
	case "unsat":
		m.record(oi | implied)
		m.know(side)
	default:
		m.w.note("solver answered unknown on a branch: one side not explored")
		m.record(oi)
		m.addPC(side)
	}
	return out
}

// choose introduces a fresh symbolic choice in [0,n) and splits on it.
func (m *Machine) choose(n int, why string, sched bool) int {
	if n <= 1 {
		return 0
	}
	if m.initing > 0 {
		return 0
	}
	if m.dpos < len(m.replay) {
		o := int(m.replay[m.dpos])
		m.dpos++
		m.record(int32(o))
		t := m.freshVar(32, uint64(o))
		m.addPC(m.b.Eq(t, m.b.Const(32, uint64(o))))
		return o
	}
	atomic.AddInt64(&m.w.ex.decisions, 1)
	vi := m.nvars
	t := m.freshVar(32, 0)
	for k := n - 1; k >= 1; k-- {
		mod := append(Model(nil), m.model...)
		for len(mod) <= vi {
			mod = append(mod, 0)
		}
		mod[vi] = uint64(k)
		m.w.ex.push(&WorkItem{dec: m.child(int32(k)), model: mod})
	}
	m.record(0)
	m.addPC(m.b.Eq(t, m.b.Const(32, 0)))
	return 0
}

// assumeFresh adds a constraint on a fresh variable whose default satisfies it.
func (m *Machine) assumeFresh(t *Term) { m.addPC(t) }

func (m *Machine) assume(v Value) {
	if v.P == nil {
		if v.N == 0 {
			panic(pathEnd{"infeasible"})
		}
		return
	}
	t := m.simp(v.P.(*Term))
	if t.op == OConst {
		if t.c == 0 {
			panic(pathEnd{"infeasible"})
		}
		return
	}
	if m.dpos < len(m.replay) {
		// a later decision of this path was reached, so the assumption is consistent with the model
		m.addPC(t)
		return
	}
	if m.ev.Eval(t) == 1 {
		m.addPC(t)
		return
	}
	r, mod := m.w.sol.Check(m.pc, t, m.model)
	switch r {
	case "sat":
		m.model = mod
		m.ev = &Evaluator{m: mod, memo: map[*Term]uint64{}}
		m.addPC(t)
	case "unsat":
		panic(pathEnd{"infeasible"})
	default:
		panic(unsupported("solver answered unknown on an assumption"))
	}
}

func (m *Machine) assertion(g *Gor, v Value, label string) {
	m.reach["assert:"+label] = true
	atomic.AddInt64(&m.w.ex.asserts, 1)
	if v.P == nil {
		if v.N == 0 {
			m.violation(g, "assert", label, "assertion failed", m.model)
			panic(pathEnd{"violation"})
		}
		atomic.AddInt64(&m.w.ex.discharged, 1)
		return
	}
	t := m.simp(v.P.(*Term))
	if t.op == OConst && t.c == 1 {
		atomic.AddInt64(&m.w.ex.discharged, 1)
		return
	}
	if t.op == OConst {
		m.violation(g, "assert", label, "assertion fails", m.model)
		panic(pathEnd{"violation"})
	}
	if m.dpos < len(m.replay) {
		// decided on the path that created this one
		o := m.replay[m.dpos]
		m.dpos++
		m.record(o)
		if o == 1 {
			atomic.AddInt64(&m.w.ex.discharged, 1)
			m.know(t)
		} else {
			m.addPC(t)
		}
		return
	}
	neg := m.b.Not(t)
	r, mod := "sat", m.model
	if m.ev.Eval(t) == 1 {
		r, mod = m.w.sol.Check(m.pc, neg, m.model)
	}
	switch r {
	case "unsat":
		atomic.AddInt64(&m.w.ex.discharged, 1)
		m.record(1)
		m.know(t)
	case "sat":
		m.violation(g, "assert", label, "assertion can fail", mod)
		m.record(0)
		m.assume(v)
	default:
		m.w.note("solver answered unknown on assertion " + label)
		m.record(0)
		m.assume(v)
	}
}

func (m *Machine) inputVals(mod Model) []InputVal {
	ev := &Evaluator{m: mod, memo: map[*Term]uint64{}}
	var r []InputVal
	for _, i := range m.inputs {
		v := i.n
		if i.t != nil {
			v = ev.Eval(i.t)
		}
		r = append(r, InputVal{i.Name, i.Kind, v})
	}
	return r
}

func (m *Machine) showObs(mod Model) []string {
	ev := &Evaluator{m: mod, memo: map[*Term]uint64{}}
	var r []string
	for _, o := range m.obs {
		s := o.Label
		for i, v := range o.vals {
			s += " " + m.evalShow(ev, v, o.types[i])
		}
		r = append(r, s)
	}
	return r
}

func (m *Machine) evalShow(ev *Evaluator, v Value, t *RType) string {
	if t == nil {
		return "<nil>"
	}
	if t.scalar() {
		n := v.N
		if tt, ok := v.P.(*Term); ok {
			n = ev.Eval(tt)
		}
		switch t.kind {
		case KBool:
			return fmt.Sprint(n != 0)
		case KInt:
			return fmt.Sprint(sext(n, t.w))
		case KUint:
			return fmt.Sprint(n)
		default:
			return fmt.Sprintf("f%x", n)
		}
	}
	if t.kind == KString {
		if v.P == nil {
			return "\"\""
		}
		s := v.P.(*Str)
		if s.tok != nil {
			switch s.tok.kind {
			case 'i':
				return strconv.Quote(strconv.FormatInt(sext(ev.Eval(s.tok.t), s.tok.w), 10))
			case 'u':
				return strconv.Quote(strconv.FormatUint(ev.Eval(s.tok.t), 10))
			}
			return "\"?\""
		}
		if s.b != nil {
			bs := make([]byte, len(s.b))
			for i, x := range s.b {
				bs[i] = byte(ev.Eval(x))
			}
			return strconv.Quote(string(bs))
		}
		return strconv.Quote(s.s)
	}
	if t.kind == KSlice && v.P != nil {
		s := v.P.(*SliceV)
		var parts []string
		for i := 0; i < s.len; i++ {
			parts = append(parts, m.evalShow(ev, m.load(Value{P: s.o, N: uint64(s.off + i*t.elem.size)}, t.elem), t.elem))
		}
		return "[" + strings.Join(parts, ",") + "]"
	}
	if t.kind == KSlice {
		return "[]"
	}
	if v.P == nil {
		return "<nil>"
	}
	return "<non-nil>"
}

func (m *Machine) sample(sched bool) *Sample {
	return &Sample{Harness: m.h.name, Inputs: m.inputVals(m.model), Obs: m.showObs(m.model), PC: len(m.pc), Sched: sched}
}

// consistent checks that the model satisfies the path condition: a path whose replay went another way than the path
// that created it is given up.
func (m *Machine) consistent(mod Model) {
	ev := &Evaluator{m: mod, memo: map[*Term]uint64{}}
	for _, t := range m.pc {
		if ev.Eval(t) != 1 {
			panic(unsupported("the path diverged from the one that created it"))
		}
	}
}

func (m *Machine) violation(g *Gor, kind, label, msg string, mod Model) {
	m.consistent(mod)
	ex := m.w.ex
	v := &Violation{Harness: m.h.name, Label: label, Kind: kind, Msg: msg, Inputs: m.inputVals(mod), Stack: m.stack(g), Sched: len(m.gors) > 1, Obs: m.showObs(mod)}
	for _, e := range m.trace {
		v.Trace = append(v.Trace, fmt.Sprintf("g%d %s %s", e.g, e.at, e.why))
	}
	v.Dec = flatten(m.dec)
	key := m.h.name + ":" + label
	ex.mu.Lock()
	defer ex.mu.Unlock()
	if len(ex.viol[key]) < 6 {
		ex.viol[key] = append(ex.viol[key], v)
	}
	if !ex.known[key] && len(ex.viol[key]) >= 3 {
		// enough counterexamples
		ex.stop = true
		ex.cond.Broadcast()
	}
}

func (m *Machine) crash(g *Gor, ps *panicState) {
	site := panicSite(ps.pos)
	m.violation(g, "panic", "panic:"+site, "uncaught panic: "+ps.msg+" at "+ps.pos, m.model)
	panic(pathEnd{"violation"})
}

func panicSite(pos string) string {
	// function name only: line numbers move
	if i := strings.LastIndex(pos, "("); i >= 0 {
		if j := strings.Index(pos, " ("); j >= 0 {
			return strings.TrimSuffix(pos[j+2:], ")")
		}
	}
	return pos
}

func (m *Machine) deadlock() {
	var desc []string
	for _, g := range m.gors {
		if g.st == gBlocked {
			desc = append(desc, fmt.Sprintf("g%d blocked in %s at %s", g.id, g.why, m.where(g)))
		}
	}
	main := m.gors[0]
	m.violation(main, "hang", "hang", "all goroutines are blocked: "+strings.Join(desc, "; "), m.model)
	panic(pathEnd{"violation"})
}

func (m *Machine) stepLimit(g *Gor) {
	m.violation(g, "hang", "hang", fmt.Sprintf("no end within %d steps, at %s", m.maxStep, m.where(g)), m.model)
	panic(pathEnd{"violation"})
}

func (m *Machine) hang(msg string) {
	var desc []string
	for _, g := range m.gors {
		if g.st == gBlocked {
			desc = append(desc, fmt.Sprintf("g%d blocked in %s at %s", g.id, g.why, m.where(g)))
		}
	}
	m.violation(m.gors[0], "hang", "hang", msg+": "+strings.Join(desc, "; "), m.model)
	panic(pathEnd{"violation"})
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
