package c12

import (
	ba "github.com/DanLavine/willow/internal/datastructures/btree_associated"
	"github.com/DanLavine/willow/internal/verif_harness/hx"
	sym "github.com/DanLavine/willow/internal/verif_sym"
	v1 "github.com/DanLavine/willow/pkg/models/api/common/v1"
)

type index struct {
	t   ba.BTreeAssociated
	r   *hx.Recs
	ids []string
}

func newIndex() *index { return &index{t: ba.NewThreadSafe(), r: &hx.Recs{}} }

func (x *index) add(k hx.KV) {
	x.ids = append(x.ids, x.r.Add(x.t, k))
}

func all(*hx.Rec) bool { return true }

func full(int) v1.TypeRestrictions { return hx.FullRange }

// seenAs tells whether the callback got record k as the reference has it.
func (x *index) seenAs(a ba.AssociatedKeyValues, k hx.KV) bool {
	return sym.And(sym.And(a.Value().(int) == x.r.Item(k), x.r.HasID(k, a.AssociatedID())), k.IsKV(a.KeyValues()))
}

// byKeys removes the record with exactly these key-values, if there is one.
func (x *index) byKeys(k hx.KV) {
	had := x.r.Has(k)
	n, ok := 0, true
	err := x.t.Delete(k.Map(), func(a ba.AssociatedKeyValues) bool { n++; ok = sym.And(ok, x.seenAs(a, k)); return true })
	sym.Assert(err == nil, "removal does not fail")
	sym.Assert(n == sym.IteInt(had, 1, 0) && ok, "the removal callback sees exactly the record being removed")
	x.r.Del(k)
}

// byID removes the record with this id, if there is one.
func (x *index) byID(id string, destroy bool) {
	had := x.r.LiveID(id)
	n, ok := 0, true
	cb := func(a ba.AssociatedKeyValues) bool {
		n++
		for _, e := range x.r.R {
			if e.ID == id {
				ok = sym.And(ok, sym.And(a.Value().(int) == e.Item, e.KV.IsKV(a.KeyValues())))
			}
		}
		ok = sym.And(ok, a.AssociatedID() == id)
		return true
	}
	var err error
	if destroy {
		err = x.t.DestroyByAssociatedID(id, cb)
	} else {
		err = x.t.DeleteByAssociatedID(id, cb)
	}
	sym.Assert(err == nil, "removal does not fail")
	sym.Assert(n == sym.IteInt(had, 1, 0) && ok, "the removal callback sees exactly the record being removed")
	x.r.DelID(id)
}

func (x *index) listed() {
	sym.Assert(x.r.Matches(hx.AllRecs(x.t), all), "listing finds exactly the records left")
}

// everyLookup asks every kind of lookup for the records left.
func (x *index) everyLookup() {
	x.listed()
	for _, e := range x.r.R {
		k := e.KV
		sym.Assert(x.r.Matches(hx.FindKV(x.t, k), func(o *hx.Rec) bool { return hx.SameKV(o.KV, k) }), "the exact lookup finds exactly the record if it is left")
		q := &hx.Q{Sel: &hx.Sel{IDs: []string{e.ID}}}
		got, err := hx.Query(x.t, q.Model())
		sym.Assert(err == nil && x.r.Matches(got, func(o *hx.Rec) bool { return o.ID == e.ID }), "the lookup by id finds exactly the record if it is left")
	}
	for key := 0; key < 3; key++ {
		for _, op := range []v1.DataComparison{v1.NotEquals, v1.GreaterThanOrEqual} {
			q := &hx.Q{Sel: &hx.Sel{Cmps: []hx.Cmp{{Key: key, Op: op, V: hx.IntKey(1), TR: hx.FullRange}}}}
			got, err := hx.Query(x.t, q.Model())
			sym.Assert(err == nil && x.r.Matches(got, func(o *hx.Rec) bool { return q.Holds(o.KV, o.ID) }), "comparisons find exactly the records left that satisfy them")
		}
	}
	given := hx.KV{Mask: 7}
	given.Val[0], given.Val[1], given.Val[2] = hx.IntKey(1), hx.IntKey(1), hx.IntKey(2)
	got, err := hx.Match(x.t, hx.MatchQuery(given, full, nil, nil))
	sym.Assert(err == nil && x.r.Matches(got, func(o *hx.Rec) bool { return hx.Contained(o.KV, given, full, nil, nil) }), "matching finds exactly the contained records left")
}

// again creates the set anew.
func (x *index) again(k hx.KV) {
	had := x.r.Has(k)
	it := len(x.r.R) + 1
	id, err := x.t.Create(k.Map(), func() any { return it })
	sym.Assert((err == nil) == !had, "a removed set can be created again, one that is left cannot")
	if id != "" {
		sym.Assert(x.fresh(id), "the new record has a new id")
	}
	x.r.Put(k, it, id, !had)
}

func (x *index) fresh(id string) bool {
	for _, e := range x.r.R {
		if e.ID == id {
			return false
		}
	}
	return true
}

// shared fills the index with records over three keys that share keys and values.
func (x *index) shared() {
	one, two := hx.IntKey(1), hx.IntKey(2)
	wild := hx.Of("any", hx.KAny, 1)
	for mask := 1; mask < 8; mask++ {
		x.add(hx.KV{Mask: mask, Val: [4]hx.V{one, one, one}})
	}
	x.add(hx.KV{Mask: 3, Val: [4]hx.V{one, two}})
	x.add(hx.KV{Mask: 3, Val: [4]hx.V{two, one}})
	x.add(hx.KV{Mask: 3, Val: [4]hx.V{one, wild}})
	x.add(hx.KV{Mask: 1, Val: [4]hx.V{wild}})
	x.add(hx.KV{Mask: 7, Val: [4]hx.V{one, one, two}})
}

// Removal by any key-values from records that share keys and values; then every lookup.
func CheckByKeyValues() {
	x := newIndex()
	x.shared()
	for i, n := 0, sym.Bound("removals", 1, 2); i < n; i++ {
		x.byKeys(hx.MakeKV("removed", 1+sym.Choose("keys", 7), hx.KInt, hx.KAny))
	}
	x.everyLookup()
	sym.Reach("by key values")
}

// Removal of several records by id, in any order; then every lookup and creation again.
func CheckByID() {
	x := newIndex()
	x.shared()
	n := len(x.ids)
	ids := append([]string{"unknown"}, x.ids...)
	for i, m := 0, sym.Bound("removals", 2, 3); i < m; i++ {
		x.byID(ids[sym.Choose("id", n+1)], sym.Choose("destroy", 2) == 1)
	}
	x.everyLookup()
	x.again(x.r.R[sym.Choose("again", n)].KV)
	x.listed()
	sym.Reach("by id")
}

// Short histories of creations and removals of every kind over two keys.
func CheckHistory() {
	x := newIndex()
	x.add(hx.KV{Mask: 1, Val: [4]hx.V{hx.IntKey(1)}})
	x.add(hx.MakeKV("stored", 3, hx.KInt))
	for i, n := 0, sym.Bound("operations", 2, 3); i < n; i++ {
		switch sym.Choose("op", 4) {
		case 0:
			x.again(hx.MakeKV("v", 1+sym.Choose("keys", 3), hx.KInt))
		case 1:
			x.byKeys(hx.MakeKV("v", 1+sym.Choose("keys", 3), hx.KInt))
		case 2, 3:
			e := x.r.R[sym.Choose("of", len(x.r.R))]
			if e.ID == "" {
				return
			}
			x.byID(e.ID, sym.Choose("destroy", 2) == 1)
		}
		x.listed()
	}
	for _, e := range x.r.R {
		k := e.KV
		sym.Assert(x.r.Matches(hx.FindKV(x.t, k), func(o *hx.Rec) bool { return hx.SameKV(o.KV, k) }), "the exact lookup finds exactly the record if it is left")
	}
	sym.Reach("history")
}

// Removing records until none is left, in any order, by any means; then creating again.
func CheckUntilEmpty() {
	x := newIndex()
	for mask := 1; mask < 4; mask++ {
		x.add(hx.KV{Mask: mask, Val: [4]hx.V{hx.IntKey(1), hx.IntKey(1)}})
	}
	if sym.Bound("records", 3, 4) == 4 {
		x.add(hx.KV{Mask: 3, Val: [4]hx.V{hx.IntKey(1), hx.IntKey(2)}})
	}
	left := append([]*hx.Rec{}, x.r.R...)
	first := left
	for len(left) > 0 {
		i := sym.Choose("next", len(left))
		e := left[i]
		left = append(append([]*hx.Rec{}, left[:i]...), left[i+1:]...)
		switch sym.Choose("how", 3) {
		case 0:
			x.byKeys(e.KV)
		case 1:
			x.byID(e.ID, false)
		case 2:
			x.byID(e.ID, true)
		}
		x.listed()
	}
	for _, e := range first {
		x.again(e.KV)
	}
	x.everyLookup()
	sym.Reach("until empty")
}
