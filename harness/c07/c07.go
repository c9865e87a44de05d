package c07

import (
	"github.com/DanLavine/willow/internal/datastructures/btree"
	"github.com/DanLavine/willow/internal/verif_harness/hx"
	sym "github.com/DanLavine/willow/internal/verif_sym"
	v1 "github.com/DanLavine/willow/pkg/models/api/common/v1"
	dt "github.com/DanLavine/willow/pkg/models/datatypes"
)

// call makes one call of any kind with valid parameters, with any outcome.
func call(t btree.BTree, r *hx.Ref, q hx.V, tr v1.TypeRestrictions, size int) {
	refuse := func(dt.EncapsulatedValue, any) bool { return false }
	n := 0
	switch op := sym.Choose("call", hx.NLookups+7); op {
	case hx.NLookups:
		_ = t.Create(q.EV, func() any { return nil })
	case hx.NLookups + 1:
		_ = t.CreateOrFind(q.EV, func() any { return nil }, func(any) {})
	case hx.NLookups + 2:
		_ = t.Delete(q.EV, refuse)
	case hx.NLookups + 3:
		_ = t.Destroy(q.EV, refuse)
	case hx.NLookups + 4:
		stop := sym.Choose("stop", size)
		_ = t.DestroyAll(func(k dt.EncapsulatedValue, _ any) bool { n++; return n <= stop })
	case hx.NLookups + 5:
		had := r != nil && r.Has(q)
		err := t.Create(q.EV, func() any { return 1000 })
		sym.Assert(r == nil || (err == nil) == !had, "a create still works")
	case hx.NLookups + 6:
		_ = t.Destroy(q.EV, nil)
	default:
		hx.Look(t, op, q.EV, tr, sym.Choose("stop", size+1)-1)
	}
}

// after makes calls that need every lock of the store.
func after(t btree.BTree, keys []hx.V) {
	for _, k := range keys {
		err := t.Delete(k.EV, nil)
		sym.Assert(err == nil, "a later removal completes")
	}
	for i, k := range hx.IntKeys(len(keys), 0) {
		err := t.CreateOrFind(k.EV, func() any { return i }, func(any) {})
		sym.Assert(err == nil, "a later create completes")
	}
	err := t.DestroyAll(nil)
	sym.Assert(err == nil, "a later destroy completes")
	sym.Assert(t.Empty(), "a destroyed store is empty")
}

var kinds = []int{hx.KUint8, hx.KInt, hx.KString}

func typeRange(all int) v1.TypeRestrictions {
	ts := []dt.DataType{dt.T_int, dt.T_uint8, dt.T_string, dt.T_any, dt.T_float32}[:all]
	a, b := ts[sym.Choose("min type", len(ts))], ts[sym.Choose("max type", len(ts))]
	if a > b {
		a, b = b, a
	}
	return v1.TypeRestrictions{MinDataType: a, MaxDataType: b}
}

// One call of every kind on trees of several levels, then calls that need every lock.
func CheckOrdered() {
	t, r := hx.NewTree(2), &hx.Ref{}
	n := []int{9, 1, 3, 0, 14, 20}[sym.Choose("n", sym.Bound("sizes", 4, 6))]
	var keys []hx.V
	if n > 0 {
		keys = hx.MixedKeys(n, sym.Choose("order", sym.Bound("orders", 1, 4)), true)
	}
	hx.Fill(t, r, keys)
	call(t, r, hx.Of("key", kinds[sym.Choose("kind", 3)], 1), typeRange(4), n)
	after(t, keys)
	sym.Reach("released")
}

// Two calls in a row.
func CheckPairs() {
	t, r := hx.NewTree(2), &hx.Ref{}
	n := []int{3, 5, 9}[sym.Choose("n", sym.Bound("sizes", 1, 3))]
	keys := hx.IntKeys(n, 0)
	hx.Fill(t, r, keys)
	for i := 0; i < 2; i++ {
		call(t, nil, hx.IntKey(sym.Int("key")), typeRange(2), sym.Bound("stops", 1, 2))
	}
	after(t, keys)
	sym.Reach("pairs")
}
