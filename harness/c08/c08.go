package c08

import (
	"github.com/DanLavine/willow/internal/datastructures/btree"
	"github.com/DanLavine/willow/internal/verif_harness/hx"
	sym "github.com/DanLavine/willow/internal/verif_sym"
	v1common "github.com/DanLavine/willow/pkg/models/api/common/v1"
	dt "github.com/DanLavine/willow/pkg/models/datatypes"
)

// Kinds of calls.
const (
	create = iota
	createOrFind
	remove
	destroy
	refuse // a removal whose callback says no
	find
	list  // everything
	above // keys above the key
	below // keys at most the key
	others
	nCalls
)

// result is what a call did.
type result struct {
	refused bool   // returned an error
	made    bool   // ran the create callback
	got     []pair // items given to the other callbacks, in order
	start   int
	end     int
}

type pair struct{ key, item int }

// model is the sequential store: key to item, 0 when absent.
type model []pair

func (m model) item(k int) int {
	for _, p := range m {
		if p.key == k {
			return p.item
		}
	}
	return 0
}

func (m model) without(k int) model {
	var n model
	for _, p := range m {
		if p.key != k {
			n = append(n, p)
		}
	}
	return n
}

// apply is one call on the sequential store.
func (m model) apply(call, k, item int) (model, result) {
	var r result
	old := m.item(k)
	hit := func() {
		if old != 0 {
			r.got = append(r.got, pair{k, old})
		}
	}
	switch call {
	case create:
		if old != 0 {
			r.refused = true
			return m, r
		}
		r.made = true
		return append(append(model{}, m...), pair{k, item}), r
	case createOrFind:
		if old != 0 {
			hit()
			return m, r
		}
		r.made = true
		return append(append(model{}, m...), pair{k, item}), r
	case remove, destroy:
		hit()
		return m.without(k), r
	case refuse, find:
		hit()
	case list, above, below, others:
		for _, p := range m {
			if call == list || call == above && p.key > k || call == below && p.key <= k || call == others && p.key != k {
				r.got = append(r.got, p)
			}
		}
	}
	return m, r
}

// same compares results; lookups of several keys may come in any order.
func same(a, b result) bool {
	return a.refused == b.refused && a.made == b.made && sameItems(a.got, b.got)
}

func sameItems(a, b []pair) bool {
	if len(a) != len(b) {
		return false
	}
	for _, x := range a {
		n := 0
		for _, y := range b {
			if x == y {
				n++
			}
		}
		if n != 1 {
			return false
		}
	}
	return true
}

var clock int

var ints = v1common.TypeRestrictions{MinDataType: dt.T_int, MaxDataType: dt.T_int}

// run makes the call on the real store.
func run(t btree.BTree, call, k, item int) result {
	var r result
	clock++
	r.start = clock
	key := dt.Int(k)
	hit := func(q dt.EncapsulatedValue, i any) { r.got = append(r.got, pair{q.Data.(int), i.(int)}) }
	var err error
	switch call {
	case create:
		err = t.Create(key, func() any { r.made = true; return item })
	case createOrFind:
		err = t.CreateOrFind(key, func() any { r.made = true; return item }, func(i any) { hit(key, i) })
	case remove:
		err = t.Delete(key, func(q dt.EncapsulatedValue, i any) bool { hit(q, i); return true })
	case destroy:
		err = t.Destroy(key, func(q dt.EncapsulatedValue, i any) bool { hit(q, i); return true })
	case refuse:
		err = t.Delete(key, func(q dt.EncapsulatedValue, i any) bool { hit(q, i); return false })
	default:
		take := func(q dt.EncapsulatedValue, i any) bool { hit(q, i); return true }
		switch call {
		case find:
			err = t.Find(key, ints, take) // with 'any' in the range the whole store stays locked meanwhile
		case list:
			err = t.Find(dt.Any(), hx.FullRange, take)
		case above:
			err = t.FindGreaterThan(key, ints, take)
		case below:
			err = t.FindLessThanOrEqual(key, ints, take)
		case others:
			err = t.FindNotEqual(key, hx.FullRange, take)
		}
	}
	r.refused = err != nil
	clock++
	r.end = clock
	return r
}

type op struct{ call, key int }

// explains tells whether some sequential order of the calls gives these results and this content.
func explains(m model, ops []op, rs []result, used int, final []pair) bool {
	if used == 1<<len(ops)-1 {
		return sameItems(m, final)
	}
	for i := range ops {
		if used>>i&1 == 1 {
			continue
		}
		late := false // another call that has yet to be placed ended before this one began
		for j := range ops {
			if used>>j&1 == 0 && rs[j].end < rs[i].start {
				late = true
			}
		}
		if late {
			continue
		}
		n, r := m.apply(ops[i].call, ops[i].key, 100+i)
		if same(r, rs[i]) && explains(n, ops, rs, used|1<<i, final) {
			return true
		}
	}
	return false
}

func check(n, order int, ops []op) {
	t, m := hx.NewTree(2), model{}
	for _, i := range hx.Order(n, order) {
		k := (i + 1) * 10
		m = append(m, pair{k, i + 1})
		if err := t.Create(dt.Int(k), func() any { return i + 1 }); err != nil {
			panic("fill")
		}
	}
	rs := make([]result, len(ops))
	done := make(chan bool, len(ops))
	for i, o := range ops {
		go func() {
			rs[i] = run(t, o.call, o.key, 100+i)
			done <- true
		}()
	}
	for range ops {
		<-done
	}
	var final []pair
	for _, g := range hx.All(t) {
		final = append(final, pair{g.Key.Data.(int), g.Item})
	}
	for _, o := range ops {
		if o.call == destroy {
			// a call on a key that is being destroyed is refused: the others may have been
			for i, r := range rs {
				if r.refused && ops[i].key == o.key && ops[i].call <= find && len(r.got) == 0 && !r.made {
					sym.Reach("refused")
					return
				}
			}
		}
	}
	sym.Assert(explains(m, ops, rs, 0, final), "the results are those of some sequential order of the calls")
	for _, p := range final {
		if err := t.Delete(dt.Int(p.key), nil); err != nil {
			panic("drain")
		}
	}
	sym.Assert(t.Empty(), "the store can be emptied afterwards")
	sym.Reach("concurrent")
}

// Two calls of any kind on trees of one to three levels: they split, merge and borrow.
func CheckTwo() {
	sym.Preemptions(sym.Bound("deviations", 1, 2))
	n := []int{2, 0, 5, 4, 3, 8}[sym.Choose("n", sym.Bound("sizes", 5, 6))]
	order := 0
	if n > 3 {
		order = sym.Choose("order", sym.Bound("orders", 1, 3))
	}
	keys := []int{10, n * 10, 15, n*10 + 5}
	if n == 0 {
		keys = []int{10, 15}
	}
	a, b := op{call: sym.Choose("call", destroy+1)}, op{call: sym.Choose("call", nCalls)}
	key := func(stored bool) int {
		if stored {
			return (sym.Choose("any key", n) + 1) * 10
		}
		return keys[sym.Choose("key", len(keys))]
	}
	// any key may be taken from an inner node, and any other may move to another node meanwhile
	moves := n > 2 && b.call == find
	a.key, b.key = key(moves && a.call >= remove), key(moves)
	if sym.Choose("first", 2) == 0 {
		check(n, order, []op{a, b})
	} else {
		check(n, order, []op{b, a})
	}
}

// Three calls on the same or neighbouring keys of a small tree.
func CheckThree() {
	sym.Preemptions(sym.Bound("deviations", 1, 2))
	n := []int{2, 3, 0}[sym.Choose("n", sym.Bound("sizes", 2, 3))]
	keys := []int{10, 15}
	var ops []op
	for i := 0; i < 3; i++ {
		c := []int{create, remove, createOrFind, find}[sym.Choose("call", sym.Bound("kinds", 4, 4))]
		ops = append(ops, op{c, keys[sym.Choose("key", 2)]})
	}
	check(n, 0, ops)
}

// A removal next to a call on another key, in trees where a node in the middle has siblings to borrow from, and
// where a key of the root is replaced from two levels below.
func CheckDeep() {
	sym.Preemptions(1)
	shape := sym.Choose("shape", sym.Bound("shapes", 3, 5))
	n, order := []int{9, 6, 6, 11, 10}[shape], []int{0, 1, 0, 0, 1}[shape]
	a := op{remove, (sym.Choose("removed", n) + 1) * 10}
	b := op{[]int{find, remove, create}[sym.Choose("call", sym.Bound("calls", 1, 3))], (sym.Choose("key", n) + 1) * 10}
	if sym.Choose("first", 2) == 0 {
		check(n, order, []op{a, b})
	} else {
		check(n, order, []op{b, a})
	}
}
