package main

import (
	"fmt"
	"strings"
)

// Happens-before tracking (vector clocks). Accesses that race are not reported as such: the instructions become
// scheduling points, so that their interleavings are explored and the property decides. Races on maps are
// reported, because the runtime aborts the process on them.

type accInfo struct {
	wg    int
	wclk  int32
	win   *cinstr
	reads map[int]readInfo
}

type readInfo struct {
	clk int32
	in  *cinstr
}

type accKey struct {
	p   any
	off int
}

type raceState struct {
	acc  map[accKey]*accInfo
	sync map[any][]int32
}

func (m *Machine) raceReset() {
	m.rs = nil
	if m.h.race {
		m.rs = &raceState{acc: map[accKey]*accInfo{}, sync: map[any][]int32{}}
	}
}

func vcGet(v []int32, i int) int32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func vcJoin(a, b []int32) []int32 {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, x := range b {
		if x > a[i] {
			a[i] = x
		}
	}
	return a
}

func (m *Machine) tick(g *Gor) {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

func (m *Machine) raceFork(g, ng *Gor) {
	if m.rs == nil || g.id < 0 {
		return
	}
	m.tick(g)
	ng.vc = append([]int32(nil), g.vc...)
	m.tick(ng)
}

func (m *Machine) hbAcqK(g *Gor, k any) {
	if m.rs == nil || g.id < 0 {
		return
	}
	if v, ok := m.rs.sync[k]; ok {
		g.vc = vcJoin(g.vc, v)
	}
}

func (m *Machine) hbRelK(g *Gor, k any) {
	if m.rs == nil || g.id < 0 {
		return
	}
	m.tick(g)
	m.rs.sync[k] = vcJoin(m.rs.sync[k], g.vc)
	m.tick(g)
}

func (m *Machine) hbAcq(g *Gor, p Value) {
	if m.rs != nil {
		m.hbAcqK(g, muKey{p.P.(*Object), p.N})
	}
}

func (m *Machine) hbRel(g *Gor, p Value) {
	if m.rs != nil {
		m.hbRelK(g, muKey{p.P.(*Object), p.N})
	}
}

// readKey is the clock that read unlocks release and only a write lock acquires.
type readKey struct{ k muKey }

func (m *Machine) hbRelR(g *Gor, p Value) {
	if m.rs != nil {
		m.hbRelK(g, readKey{muKey{p.P.(*Object), p.N}})
	}
}

func (m *Machine) hbAcqW(g *Gor, p Value) {
	if m.rs != nil {
		k := muKey{p.P.(*Object), p.N}
		m.hbAcqK(g, k)
		m.hbAcqK(g, readKey{k})
	}
}

func (m *Machine) hbChan(g *Gor, c *Chan) {
	if m.rs != nil {
		m.hbAcqK(g, c)
		m.hbRelK(g, c)
	}
}

// hbSnap is what happened before g began to wait in a select; hbPeer gives it to whoever ends the wait.
func (m *Machine) hbSnap(g *Gor) []int32 {
	if m.rs == nil || g.id < 0 {
		return nil
	}
	m.tick(g)
	vc := append([]int32(nil), g.vc...)
	m.tick(g)
	return vc
}

func (m *Machine) hbPeer(w *waiter) {
	if m.rs != nil && w.vc != nil && m.cur != nil && m.cur.id >= 0 && m.cur.st == gRun {
		m.cur.vc = vcJoin(m.cur.vc, w.vc)
	}
}

// access records a memory access. It returns true when the goroutine must let another one run first.
func (m *Machine) access(g *Gor, ci *cinstr, p Value, t *RType, write bool) bool {
	if g.id < 0 || m.initing > 0 {
		return false
	}
	if ci.racy {
		if m.yield(g, "racy access") {
			return true
		}
	}
	if m.rs == nil || len(m.gors) == 1 {
		return false
	}
	o, ok := p.P.(*Object)
	if !ok || o.init {
		return false
	}
	n := t.size
	if n > 64 {
		n = 64
	}
	for i := 0; i < n; i++ {
		m.accessKey(g, ci, accKey{o, int(p.N) + i}, write)
	}
	return false
}

func (m *Machine) accessKey(g *Gor, ci *cinstr, k accKey, write bool) (other *cinstr) {
	a := m.rs.acc[k]
	if a == nil {
		a = &accInfo{wg: -1}
		m.rs.acc[k] = a
	}
	if len(g.vc) <= g.id {
		m.tick(g)
	}
	if a.wg >= 0 && a.wg != g.id && a.wclk > vcGet(g.vc, a.wg) {
		m.markRacy(ci, a.win)
		other = a.win
	}
	if write {
		for rg, ri := range a.reads {
			if rg != g.id && ri.clk > vcGet(g.vc, rg) {
				m.markRacy(ci, ri.in)
				other = ri.in
			}
		}
		a.wg, a.wclk, a.win = g.id, g.vc[g.id], ci
		a.reads = nil
	} else {
		if a.reads == nil {
			a.reads = map[int]readInfo{}
		}
		a.reads[g.id] = readInfo{g.vc[g.id], ci}
	}
	return other
}

func (m *Machine) markRacy(x, y *cinstr) {
	ex := m.w.ex
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for _, ci := range []*cinstr{x, y} {
		if ci != nil && !ex.racy[ci] && !inHarness(ci) {
			ex.racy[ci] = true
			ex.racyNew = true
			if ci.src != nil {
				ex.notes[fmt.Sprintf("unsynchronised access became a scheduling point: %s", m.prog.prog.Fset.Position(ci.src.Pos()))]++
			}
		}
	}
}

// inHarness tells whether the access belongs to a harness: its own bookkeeping is not the code under test.
func inHarness(ci *cinstr) bool {
	if ci.src == nil || ci.src.Parent() == nil {
		return false
	}
	f := ci.src.Parent()
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Pkg != nil && strings.Contains(f.Pkg.Pkg.Path(), "verif_harness")
}
