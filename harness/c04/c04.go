package c04

import (
	"github.com/DanLavine/willow/internal/datastructures/btree"
	"github.com/DanLavine/willow/internal/verif_harness/hx"
	sym "github.com/DanLavine/willow/internal/verif_sym"
	dt "github.com/DanLavine/willow/pkg/models/datatypes"
)

const (
	opCreate = iota
	opDelete
	opCreateOrFind
	opFind
)

// step runs one operation against the store and the reference map.
func step(t btree.BTree, r *hx.Ref, op int, k hx.V, item int) {
	switch op {
	case opCreate:
		called := false
		had := r.Has(k)
		err := t.Create(k.EV, func() any { called = true; return item })
		sym.Assert((err == nil) == !had, "create succeeds exactly on an absent key")
		sym.Assert(called == !had, "the creator runs exactly for an absent key")
		sym.Assert(err == nil || err == btree.ErrorKeyAlreadyExists, "refused as already existing")
		r.Put(k, item)
	case opDelete:
		had, it := r.Has(k), r.Item(k)
		n, seen := 0, 0
		err := t.Delete(k.EV, func(_ dt.EncapsulatedValue, x any) bool { n++; seen = x.(int); return true })
		sym.Assert(err == nil, "delete never fails")
		sym.Assert(n == sym.IteInt(had, 1, 0), "the removal callback runs once exactly for a present key")
		sym.Assert(n == 0 || seen == it, "the removal callback sees the stored item")
		r.Del(k)
	case opCreateOrFind:
		had, it := r.Has(k), r.Item(k)
		created, found, seen := 0, 0, 0
		err := t.CreateOrFind(k.EV, func() any { created++; return item }, func(x any) { found++; seen = x.(int) })
		sym.Assert(err == nil, "create-or-find never fails")
		sym.Assert(created == sym.IteInt(had, 0, 1) && found == 1-created, "creates or finds, never both")
		sym.Assert(found == 0 || seen == it, "finds the stored item")
		r.Put(k, item)
	default:
		find(t, r, k)
	}
}

func find(t btree.BTree, r *hx.Ref, k hx.V) {
	tr := hx.FullRange
	tr.MinDataType, tr.MaxDataType = k.EV.Type, k.EV.Type
	got, err, _ := hx.Look(t, hx.LEq, k.EV, tr, -1)
	sym.Assert(err == nil, "find never fails")
	had := r.Has(k)
	sym.Assert((len(got) == 1) == had && (len(got) == 0) == !had, "find finds exactly the present key")
	if len(got) == 1 {
		sym.Assert(got[0].Item == r.Item(k) && hx.SameEV(got[0].Key, k), "find hands over the stored item")
	}
}

func verify(t btree.BTree, r *hx.Ref) {
	sym.Assert(r.Matches(hx.All(t), func(hx.V) bool { return true }), "holds exactly the keys created and not deleted")
	sym.Assert(t.Empty() == (r.Len() == 0), "empty exactly when no key is held")
}

// Every history of short length over one type: all relative orders of the keys.
func CheckHistory() {
	t, r := hx.NewTree(2), &hx.Ref{}
	n := sym.Bound("operations", 4, 5)
	for i := 0; i < n; i++ {
		op := sym.Choose("op", 4)
		step(t, r, op, hx.IntKey(sym.Int("key")), i+1)
	}
	verify(t, r)
	sym.Reach("history")
}

// Histories over keys of several types, 'any' included.
func CheckTypedHistory() {
	t, r := hx.NewTree(2), &hx.Ref{}
	kinds := []int{hx.KUint8, hx.KInt, hx.KString, hx.KAny}
	n := sym.Bound("operations", 3, 4)
	for i := 0; i < n; i++ {
		op := sym.Choose("op", 3)
		step(t, r, op, hx.Of("key", kinds[sym.Choose("kind", 4)], 1), i+1)
	}
	verify(t, r)
	sym.Reach("history")
}

// Creations of many keys in every relative order, then one removal.
func CheckManyCreates() {
	t, r := hx.NewTree(2), &hx.Ref{}
	n := sym.Bound("creations", 5, 6)
	for i := 0; i < n; i++ {
		k := hx.IntKey(sym.Int("key"))
		sym.Assume(!r.Has(k))
		step(t, r, opCreate, k, i+1)
	}
	step(t, r, opDelete, hx.IntKey(sym.Int("gone")), 0)
	verify(t, r)
	sym.Reach("history")
}

// Trees of several levels, then arbitrary operations at arbitrary positions.
func CheckDeep() {
	size := 2 + sym.Choose("node size", sym.Bound("node sizes", 2, 3))
	t, r := hx.NewTree(size), &hx.Ref{}
	ns := []int{7, 11, 15, 5, 9, 20}
	keys := hx.IntKeys(ns[sym.Choose("n", sym.Bound("prefix sizes", 3, 6))], sym.Choose("order", sym.Bound("orders", 2, 4)))
	hx.Fill(t, r, keys)
	for i, n := 0, sym.Bound("operations", 2, 2); i < n; i++ {
		op := sym.Choose("op", 2)
		k := hx.IntKey(sym.Int("key"))
		step(t, r, op, k, 100+i)
	}
	verify(t, r)
	for _, k := range keys {
		find(t, r, k)
	}
	sym.Reach("deep")
}

// Removing several keys from trees of several levels, at arbitrary positions.
func CheckDeepRemovals() {
	t, r := hx.NewTree(2), &hx.Ref{}
	keys := hx.IntKeys([]int{8, 13}[sym.Choose("n", 2)], sym.Choose("order", sym.Bound("orders", 2, 4)))
	hx.Fill(t, r, keys)
	for i, n := 0, sym.Bound("removals", 3, 4); i < n; i++ {
		k := hx.IntKey(sym.Int("key"))
		sym.Assume(r.Has(k))
		step(t, r, opDelete, k, 0)
	}
	verify(t, r)
	for _, k := range keys {
		find(t, r, k)
	}
	sym.Assert(hx.Drain(t, r), "drains to empty")
	sym.Reach("removed")
}

// Removing from a tree with keys of several types and 'any'.
func CheckDeepMixed() {
	t, r := hx.NewTree(2), &hx.Ref{}
	keys := hx.MixedKeys([]int{7, 10}[sym.Choose("n", 2)], sym.Choose("order", 4), true)
	hx.Fill(t, r, keys)
	kinds := []int{hx.KUint8, hx.KInt, hx.KString, hx.KAny}
	for i, n := 0, sym.Bound("operations", 2, 2); i < n; i++ {
		step(t, r, sym.Choose("op", 2), hx.Of("key", kinds[sym.Choose("kind", 4)], 1), 100+i)
	}
	verify(t, r)
	for _, k := range keys {
		find(t, r, k)
	}
	sym.Reach("mixed")
}
