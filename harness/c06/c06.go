package c06

import (
	"github.com/DanLavine/willow/internal/datastructures/btree"
	"github.com/DanLavine/willow/internal/verif_harness/hx"
	sym "github.com/DanLavine/willow/internal/verif_sym"
	dt "github.com/DanLavine/willow/pkg/models/datatypes"
)

func all(hx.V) bool { return true }

// refuse makes one refused call at key k and checks it.
func refuse(t btree.BTree, r *hx.Ref, k hx.V) {
	had, it := r.Has(k), r.Item(k)
	n, seen := 0, 0
	switch sym.Choose("refused call", 3) {
	case 0:
		err := t.Create(k.EV, func() any { n++; return nil })
		sym.Assert((err != nil) == had, "only a present key is reported")
		sym.Assert(n == sym.IteInt(had, 0, 1), "the creator is asked exactly for an absent key")
	case 1:
		err := t.CreateOrFind(k.EV, func() any { n++; return nil }, func(x any) { seen = x.(int) })
		sym.Assert(err == nil, "create-or-find does not fail")
		sym.Assert(n == sym.IteInt(had, 0, 1), "the creator is asked exactly for an absent key")
		sym.Assert(seen == it, "the present item is found")
	case 2:
		err := t.Delete(k.EV, func(_ dt.EncapsulatedValue, x any) bool { n++; seen = x.(int); return false })
		sym.Assert(err == nil, "a refused removal does not fail")
		sym.Assert(n == sym.IteInt(had, 1, 0), "the remover is asked exactly for a present key")
		sym.Assert(n == 0 || seen == it, "the remover sees the stored item")
	}
}

func verify(t btree.BTree, r *hx.Ref) {
	sym.Assert(r.Matches(hx.All(t), all), "holds exactly what it held before")
	sym.Assert(t.Empty() == (r.Len() == 0), "empty exactly when it holds nothing")
}

func find(t btree.BTree, r *hx.Ref, k hx.V) {
	tr := hx.FullRange
	tr.MinDataType, tr.MaxDataType = k.EV.Type, k.EV.Type
	got, _, _ := hx.Look(t, hx.LEq, k.EV, tr, -1)
	had := r.Has(k)
	sym.Assert((len(got) == 1) == had, "keys are found as before")
}

// later makes one accepted call.
func later(t btree.BTree, r *hx.Ref, k hx.V, item int) {
	had := r.Has(k)
	if sym.Choose("later call", 2) == 0 {
		err := t.Create(k.EV, func() any { return item })
		sym.Assert((err == nil) == !had, "a later create behaves as if nothing was refused")
		r.Put(k, item)
	} else {
		n := 0
		err := t.Delete(k.EV, func(dt.EncapsulatedValue, any) bool { n++; return true })
		sym.Assert(err == nil && n == sym.IteInt(had, 1, 0), "a later removal behaves as if nothing was refused")
		r.Del(k)
	}
}

// Stores of up to three keys in every arrangement: refused calls, then one more call.
func CheckSmall() {
	t, r := hx.NewTree(2), &hx.Ref{}
	n := sym.Choose("n", sym.Bound("sizes", 4, 5))
	for i := 0; i < n; i++ {
		k := hx.IntKey(sym.Int("stored"))
		sym.Assume(!r.Has(k))
		hx.Fill(t, r, []hx.V{k})
	}
	for i, m := 0, sym.Bound("refused calls", 1, 2); i < m; i++ {
		refuse(t, r, hx.IntKey(sym.Int("key")))
		verify(t, r)
	}
	later(t, r, hx.IntKey(sym.Int("later")), 50)
	verify(t, r)
	sym.Reach("small")
}

// Trees of several levels and types: a refused call anywhere, then another call anywhere.
func CheckDeep() {
	t, r := hx.NewTree(2), &hx.Ref{}
	n := []int{9, 6, 13, 20}[sym.Choose("n", sym.Bound("sizes", 2, 4))]
	var keys []hx.V
	kind := hx.KInt
	if sym.Choose("mixed", 2) == 1 {
		keys = hx.MixedKeys(n, sym.Choose("order", 4), true)
		kind = []int{hx.KUint8, hx.KInt, hx.KString, hx.KAny}[sym.Choose("kind", 4)]
	} else {
		keys = hx.IntKeys(n, sym.Choose("order", 4))
	}
	hx.Fill(t, r, keys)
	refuse(t, r, hx.Of("key", kind, 1))
	verify(t, r)
	later(t, r, hx.IntKey(sym.Int("later")), 50)
	verify(t, r)
	for _, k := range keys {
		find(t, r, k)
	}
	sym.Reach("deep")
}

// A store whose only creations were refused, or whose keys were all removed, behaves as an empty one.
func CheckEmptied() {
	t, r := hx.NewTree(2), &hx.Ref{}
	refuse(t, r, hx.IntKey(sym.Int("key")))
	verify(t, r)
	k := hx.IntKey(sym.Int("stored"))
	hx.Fill(t, r, []hx.V{k})
	if sym.Choose("remove", 2) == 1 {
		if err := t.Delete(k.EV, nil); err != nil {
			panic(err)
		}
		r.Del(k)
	}
	refuse(t, r, hx.IntKey(sym.Int("key")))
	verify(t, r)
	later(t, r, hx.IntKey(sym.Int("later")), 50)
	verify(t, r)
	sym.Reach("emptied")
}
