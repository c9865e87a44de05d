package c09

import (
	ba "github.com/DanLavine/willow/internal/datastructures/btree_associated"
	"github.com/DanLavine/willow/internal/verif_harness/hx"
	sym "github.com/DanLavine/willow/internal/verif_sym"
)

// step runs one create, create-or-find or removal on both sides.
func step(t ba.BTreeAssociated, r *hx.Recs, op int, k hx.KV, item int) {
	had, it := r.Has(k), r.Item(k)
	switch op {
	case 0:
		n := 0
		id, err := t.Create(k.Map(), func() any { n++; return item })
		sym.Assert((err == nil) == !had, "an existing set is refused, a new one accepted")
		sym.Assert(n == sym.IteInt(had, 0, 1), "the creator runs exactly for a new set")
		sym.Assert((id == "") == had, "an id is returned exactly for a created record")
		if id != "" {
			sym.Assert(!r.LiveID(id), "a new record has an id of its own")
		}
		r.Put(k, item, id, !had)
	case 1:
		created, found, seen := 0, 0, 0
		seenID := ""
		id, err := t.CreateOrFind(k.Map(), func() any { created++; return item }, func(a ba.AssociatedKeyValues) {
			found++
			seen, seenID = a.Value().(int), a.AssociatedID()
		})
		sym.Assert(err == nil, "create-or-find does not fail")
		sym.Assert(created == sym.IteInt(had, 0, 1) && found == 1-created, "creates a new set or finds the existing one")
		if found == 1 {
			sym.Assert(seen == it && seenID == id && r.HasID(k, id), "finds the same record under the same id")
		} else {
			sym.Assert(id != "" && !r.LiveID(id), "a new record has an id of its own")
		}
		r.Put(k, item, id, !had)
	default:
		n, seen := 0, 0
		err := t.Delete(k.Map(), func(a ba.AssociatedKeyValues) bool { n++; seen = a.Value().(int); return true })
		sym.Assert(err == nil, "removal does not fail")
		sym.Assert(n == sym.IteInt(had, 1, 0) && (n == 0 || seen == it), "removal is offered exactly the record of the set")
		r.Del(k)
	}
}

func all(*hx.Rec) bool { return true }

func verify(t ba.BTreeAssociated, r *hx.Recs) {
	sym.Assert(r.Matches(hx.AllRecs(t), all), "holds exactly one record per set, with its data and id")
}

// Every short history over subsets of two keys with number and wildcard values.
func CheckHistory() {
	t, r := ba.NewThreadSafe(), &hx.Recs{}
	n := sym.Bound("operations", 3, 4)
	for i := 0; i < n; i++ {
		k := hx.MakeKV("v", 1+sym.Choose("keys", 3), hx.KInt, hx.KAny)
		step(t, r, sym.Choose("op", 3), k, i+1)
	}
	verify(t, r)
	sym.Reach("history")
}

// Sets that differ only in the type of one value.
func CheckTypes() {
	t, r := ba.NewThreadSafe(), &hx.Recs{}
	n := sym.Bound("operations", 3, 4)
	for i := 0; i < n; i++ {
		step(t, r, sym.Choose("op", 3), hx.MakeKV("v", 1, hx.KInt, hx.KInt64, hx.KString, hx.KUint8, hx.KFloat64), i+1)
	}
	verify(t, r)
	sym.Reach("types")
}

// Many records that share keys and values, then any operation on any subset.
func CheckShared() {
	t, r := ba.NewThreadSafe(), &hx.Recs{}
	x, y := hx.IntKey(1), hx.IntKey(2)
	n := 0
	for mask := 1; mask < 8; mask++ {
		for _, v := range []hx.V{x, y} {
			k := hx.KV{Mask: mask}
			for i := 0; i < 3; i++ {
				k.Val[i] = v
			}
			r.Add(t, k)
			n++
		}
	}
	for i, m := 0, sym.Bound("operations", 1, 2); i < m; i++ {
		step(t, r, sym.Choose("op", 3), hx.MakeKV("v", 1+sym.Choose("keys", 7), hx.KInt, hx.KAny), 100+i)
	}
	verify(t, r)
	sym.Reach("shared")
}
