package c15

import (
	"github.com/DanLavine/willow/internal/datastructures/btree"
	ba "github.com/DanLavine/willow/internal/datastructures/btree_associated"
	"github.com/DanLavine/willow/internal/verif_harness/hx"
	sym "github.com/DanLavine/willow/internal/verif_sym"
	qa "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	dt "github.com/DanLavine/willow/pkg/models/datatypes"

	"github.com/DanLavine/willow/pkg/async"
)

// The destroy guard: operations and a destroy never overlap, one destroy at a time, everything works again afterwards.
func CheckGuard() {
	sym.Preemptions(sym.Bound("preemptions", 2, 3))
	ds := async.NewDestroySync()
	running, destroying, destroyed := 0, 0, 0
	n := sym.Bound("callers", 3, 4)
	done := make(chan bool, n)
	for i := 0; i < n; i++ {
		destroy := i == 0 || i == 2
		go func() {
			if destroy {
				if ds.WaitDestroy() {
					sym.Assert(running == 0, "a destroy waits for running operations")
					sym.Assert(destroying == 0, "one destroy runs at a time")
					destroying++
					sym.Assert(!ds.GuardOperation(), "operations are refused while a destroy runs")
					sym.Assert(running == 0 && destroying == 1, "nothing else runs during a destroy")
					destroying--
					destroyed++
					ds.ClearDestroy()
				}
			} else if ds.GuardOperation() {
				sym.Assert(destroying == 0, "no operation runs during a destroy")
				running++
				sym.Assert(destroying == 0, "no operation runs during a destroy")
				running--
				ds.ClearOperation()
			}
			done <- true
		}()
	}
	for i := 0; i < n; i++ {
		<-done
	}
	sym.Assert(destroyed >= 1, "one of several destroys runs")
	ok := ds.GuardOperation()
	sym.Assert(ok, "operations run again after a destroy")
	ds.ClearOperation()
	again := ds.WaitDestroy()
	sym.Assert(again, "a later destroy runs")
	ds.ClearDestroy()
	sym.Reach("guard")
}

// A destroy of an ordered store offers every item once, until its callback stops it; the rest stays usable.
func CheckOrdered() {
	t, r := hx.NewTree(2), &hx.Ref{}
	n := []int{0, 1, 2, 5, 9, 14, 20}[sym.Choose("n", sym.Bound("sizes", 6, 7))]
	var keys []hx.V
	if n > 0 {
		keys = hx.MixedKeys(n, sym.Choose("order", sym.Bound("orders", 2, 4)), true)
	}
	hx.Fill(t, r, keys)
	stop := sym.Choose("stop", n+1)
	seen := map[int]int{}
	var calls int
	refused := true
	err := t.DestroyAll(func(k dt.EncapsulatedValue, item any) bool {
		if calls == 0 {
			// every other call is refused meanwhile
			_, err, _ := hx.Look(t, sym.Choose("lookup", hx.NLookups), dt.Int(10), hx.FullRange, -1)
			refused = err == btree.ErrorTreeDestroying
			refused = refused && t.Create(dt.Int(11), func() any { return 1 }) == btree.ErrorTreeDestroying
			refused = refused && t.CreateOrFind(dt.Int(10), func() any { return 1 }, func(any) {}) == btree.ErrorTreeDestroying
			refused = refused && t.Delete(dt.Int(10), nil) == btree.ErrorTreeDestroying
			refused = refused && t.Destroy(dt.Int(10), nil) == btree.ErrorTreeDestroying
			refused = refused && t.DestroyAll(nil) == btree.ErrorTreeDestroying
		}
		calls++
		seen[item.(int)]++
		if calls > stop {
			return false
		}
		for i := range r.E {
			if r.E[i].Item == item.(int) {
				sym.Assert(hx.SameEV(k, r.E[i].Key), "the callback gets the key with its item")
				r.E[i].On = false
			}
		}
		return true
	})
	sym.Assert(err == nil, "a destroy of an idle store runs")
	sym.Assert(refused, "every other call is refused while the store is destroyed")
	for _, c := range seen {
		sym.Assert(c == 1, "an item is offered once")
	}
	want := stop + 1
	if n < want {
		want = n
	}
	sym.Assert(calls == want, "every item is offered until the callback stops")
	sym.Assert(r.Matches(hx.All(t), func(hx.V) bool { return true }), "the remaining items stay")
	q := hx.Of("key", hx.KInt, 1)
	had := r.Has(q)
	err = t.Create(q.EV, func() any { return 1000 })
	sym.Assert((err == nil) == !had, "the store is usable after a destroy")
	r.Put(q, 1000)
	sym.Assert(r.Matches(hx.All(t), func(hx.V) bool { return true }), "the store is usable after a destroy")
	sym.Assert(hx.Drain(t, r), "the remaining items can be removed")
	sym.Reach("ordered")
}

// op makes one call on the key and tells what it did: refused, and whether the key was created or removed.
func op(t btree.BTree, k hx.V, which int, during func()) (err error, created, removed, seen bool) {
	switch which {
	case 0:
		err = t.Create(k.EV, func() any { during(); created = true; return 500 })
	case 1:
		err = t.CreateOrFind(k.EV, func() any { during(); created = true; return 500 }, func(any) { during(); seen = true })
	case 2:
		err = t.Delete(k.EV, func(dt.EncapsulatedValue, any) bool { during(); removed = true; return true })
	case 3:
		err = t.Destroy(k.EV, func(dt.EncapsulatedValue, any) bool { during(); removed = true; return true })
	case 4:
		err = t.Find(k.EV, hx.FullRange, func(dt.EncapsulatedValue, any) bool { during(); seen = true; return true })
	case 5:
		err = t.DestroyAll(func(dt.EncapsulatedValue, any) bool { return true })
	}
	return
}

// A destroy of the whole store next to other calls on present and absent keys.
func CheckTogether() {
	sym.Preemptions(sym.Bound("preemptions", 2, 2))
	t, r := hx.NewTree(2), &hx.Ref{}
	n := []int{2, 0, 5}[sym.Choose("n", sym.Bound("sizes", 2, 3))]
	hx.Fill(t, r, hx.IntKeys(n, 0))
	calls := sym.Bound("calls", 2, 2)
	inDestroy := false
	offered := map[int]int{}
	var derr error
	done := make(chan bool, calls+1)
	var created, removed, others [2]bool
	var dest [2]bool
	same := sym.Choose("same key", 2) == 1
	for i := 0; i < calls; i++ {
		k := hx.IntKey(15)
		if i == 1 || same {
			k = hx.IntKey(10)
		}
		which := sym.Choose("call", 6)
		go func() {
			err, c, d, _ := op(t, k, which, func() { sym.Assert(!inDestroy, "nothing happens to the items during a destroy") })
			if which == 5 && err == nil {
				dest[i] = true
			}
			created[i], removed[i] = c, d
			others[i] = err == nil
			if err != nil {
				sym.Assert(err == btree.ErrorTreeDestroying || err == btree.ErrorKeyDestroying || err == btree.ErrorKeyAlreadyExists, "a call is refused with the destroying error")
			}
			done <- true
		}()
	}
	go func() {
		derr = t.DestroyAll(func(k dt.EncapsulatedValue, item any) bool {
			inDestroy = true
			offered[item.(int)]++
			hx.Point()
			inDestroy = false
			return true
		})
		done <- true
	}()
	for i := 0; i < calls+1; i++ {
		<-done
	}
	nd := 0
	for _, d := range dest {
		if d {
			nd++
		}
	}
	sym.Assert(derr == nil || derr == btree.ErrorTreeDestroying && nd > 0, "of several destroys one runs")
	if nd == 0 {
		for it := 1; it <= n; it++ {
			del := 0
			if it == 1 && (removed[1] || same && removed[0]) {
				del = 1
			}
			if it == 1 && del == 1 {
				continue
			}
			sym.Assert(offered[it] == 1, "a destroy offers every stored item once")
		}
	}
	// usable afterwards, with whatever was created late
	got := hx.All(t)
	for _, g := range got {
		sym.Assert(g.Item == 500, "a destroyed store holds only what was created later")
	}
	for _, k := range []int{10, 15, 20} {
		err := t.CreateOrFind(hx.IntKey(k).EV, func() any { return 7 }, func(any) {})
		sym.Assert(err == nil, "the store is usable after a destroy")
	}
	err := t.DestroyAll(nil)
	sym.Assert(err == nil && t.Empty(), "the store can be destroyed again")
	sym.Reach("together")
}

// A destroy of one key next to other calls on this key and on others.
func CheckKey() {
	sym.Preemptions(sym.Bound("preemptions", 1, 2))
	t, r := hx.NewTree(2), &hx.Ref{}
	n := []int{3, 1, 7}[sym.Choose("n", sym.Bound("sizes", 2, 3))]
	hx.Fill(t, r, hx.IntKeys(n, 0))
	keep := sym.Choose("keep", 2) == 1
	busy, calls := false, 0
	done := make(chan bool, 2)
	var derr error
	go func() {
		derr = t.Destroy(dt.Int(10), func(k dt.EncapsulatedValue, item any) bool {
			busy = true
			calls++
			sym.Assert(t.Create(dt.Int(10), func() any { return 1 }) == btree.ErrorKeyDestroying, "calls on a key being destroyed are refused")
			sym.Assert(t.Delete(dt.Int(10), nil) == btree.ErrorKeyDestroying, "calls on a key being destroyed are refused")
			sym.Assert(t.Destroy(dt.Int(10), nil) == btree.ErrorKeyDestroying, "calls on a key being destroyed are refused")
			err := t.CreateOrFind(dt.Int(10), func() any { return 1 }, func(any) {})
			sym.Assert(err == btree.ErrorKeyDestroying, "calls on a key being destroyed are refused")
			err = t.Find(dt.Int(10), hx.FullRange, func(dt.EncapsulatedValue, any) bool { return true })
			sym.Assert(err == btree.ErrorKeyDestroying, "calls on a key being destroyed are refused")
			busy = false
			return !keep
		})
		done <- true
	}()
	which := sym.Choose("call", 5)
	other := sym.Choose("other key", 2) == 1
	var err error
	var c, d bool
	go func() {
		k := hx.IntKey(10)
		if other {
			k = hx.IntKey(20)
		}
		err, c, d, _ = op(t, k, which, func() { sym.Assert(other || !busy, "nothing happens to a key while it is destroyed") })
		done <- true
	}()
	<-done
	<-done
	had := other && n >= 2
	if other {
		sym.Assert(err == nil || which == 0 && had && err == btree.ErrorKeyAlreadyExists, "calls on other keys are not refused")
		sym.Assert(derr == nil && calls == 1, "the key is destroyed once")
	} else {
		sym.Assert(err == nil || err == btree.ErrorKeyDestroying || which == 0 && err == btree.ErrorKeyAlreadyExists, "a call on a key being destroyed is refused or runs")
		sym.Assert(derr == nil || which == 3 && derr == btree.ErrorKeyDestroying, "a destroy is only refused while the key is being destroyed")
		m := calls
		if d {
			m++
		}
		if c {
			m--
		}
		gone := 1
		if keep && calls > 0 && !d {
			gone = 0
		}
		sym.Assert(m <= 1 || keep || c, "the item is removed once")
		var there bool
		e := t.Find(dt.Int(10), hx.FullRange, func(dt.EncapsulatedValue, any) bool { there = true; return true })
		sym.Assert(e == nil, "a key can be used after its destroy")
		if !c {
			sym.Assert(there == (gone == 0), "a key is gone exactly when its destroy removed it")
		}
	}
	e := t.CreateOrFind(dt.Int(10), func() any { return 9 }, func(any) {})
	sym.Assert(e == nil, "a key can be used after its destroy")
	sym.Reach("key")
}

// A destroy of a record index: every record is offered once until stopped; the others stay in every lookup.
func CheckRecords() {
	x, r := ba.NewThreadSafe(), &hx.Recs{}
	one, two := hx.IntKey(1), hx.IntKey(2)
	n := sym.Choose("n", sym.Bound("records", 5, 7))
	for i := 0; i < n; i++ {
		v := one
		if i >= 3 {
			v = two
		}
		r.Add(x, hx.KV{Mask: 1 + i%3, Val: [4]hx.V{v, one, one}})
	}
	stop := sym.Choose("stop", n+1)
	calls, refused := 0, true
	err := x.DestroyTree(func(a ba.AssociatedKeyValues) bool {
		if calls == 0 {
			_, e := x.Create(dt.KeyValues{"z": dt.Int(1)}, func() any { return 1 })
			refused = e == ba.ErrorTreeDestroying
			_, e = x.CreateOrFind(dt.KeyValues{"z": dt.Int(1)}, func() any { return 1 }, func(ba.AssociatedKeyValues) {})
			refused = refused && e == ba.ErrorTreeDestroying
			_, e = hx.Query(x, &qa.AssociatedActionQuery{})
			refused = refused && e == ba.ErrorTreeDestroying
			refused = refused && x.Delete(dt.KeyValues{"a": dt.Int(1)}, nil) == ba.ErrorTreeDestroying
			refused = refused && x.DeleteByAssociatedID(a.AssociatedID(), nil) == ba.ErrorTreeDestroying
			refused = refused && x.DestroyByAssociatedID(a.AssociatedID(), nil) == ba.ErrorTreeDestroying
			refused = refused && x.DestroyTree(nil) == ba.ErrorTreeDestroying
		}
		calls++
		live := r.LiveID(a.AssociatedID())
		sym.Assert(live, "a destroy offers each record once")
		if calls > stop {
			return false
		}
		r.DelID(a.AssociatedID())
		return true
	})
	sym.Assert(err == nil && refused, "every other call is refused while the index is destroyed")
	want := stop + 1
	if n < want {
		want = n
	}
	sym.Assert(calls == want, "every record is offered until the callback stops")
	sym.Assert(r.Matches(hx.AllRecs(x), func(*hx.Rec) bool { return true }), "the remaining records stay")
	for _, e := range r.R {
		k := e.KV
		sym.Assert(r.Matches(hx.FindKV(x, k), func(o *hx.Rec) bool { return hx.SameKV(o.KV, k) }), "the remaining records are found, the others not")
	}
	k := hx.MakeKV("again", 1+sym.Choose("keys", 3), hx.KInt)
	had := r.Has(k)
	id, err := x.Create(k.Map(), func() any { return 1000 })
	sym.Assert((err == nil) == !had, "the index is usable after a destroy")
	r.Put(k, 1000, id, !had)
	sym.Assert(r.Matches(hx.AllRecs(x), func(*hx.Rec) bool { return true }), "the index is usable after a destroy")
	sym.Reach("records")
}

// A destroy of a record index next to another call.
func CheckRecordsTogether() {
	sym.Preemptions(sym.Bound("preemptions", 1, 2))
	x, r := ba.NewThreadSafe(), &hx.Recs{}
	one := hx.IntKey(1)
	a := hx.KV{Mask: 1, Val: [4]hx.V{one}}
	ab := hx.KV{Mask: 3, Val: [4]hx.V{one, one}}
	r.Add(x, a)
	if sym.Choose("two", 2) == 1 {
		r.Add(x, ab)
	}
	offered := map[int]int{}
	busy := false
	done := make(chan bool, 2)
	var derr, err error
	go func() {
		derr = x.DestroyTree(func(k ba.AssociatedKeyValues) bool {
			busy = true
			offered[k.Value().(int)]++
			hx.Point()
			busy = false
			return true
		})
		done <- true
	}()
	created, removed := 0, 0
	which := sym.Choose("call", 7)
	k := []hx.KV{a, ab, {Mask: 2, Val: [4]hx.V{one, one}}}[sym.Choose("of", 3)]
	go func() {
		act := func() { sym.Assert(!busy, "nothing else happens while the index is destroyed") }
		switch which {
		case 0:
			_, err = x.Create(k.Map(), func() any { act(); created++; return 500 })
		case 1:
			_, err = x.CreateOrFind(k.Map(), func() any { act(); created++; return 500 }, func(ba.AssociatedKeyValues) { act() })
		case 2:
			err = x.Delete(k.Map(), func(ba.AssociatedKeyValues) bool { act(); removed++; return true })
		case 3:
			err = x.DeleteByAssociatedID(r.R[0].ID, func(ba.AssociatedKeyValues) bool { act(); removed++; return true })
		case 4:
			err = x.DestroyByAssociatedID(r.R[0].ID, func(ba.AssociatedKeyValues) bool { act(); removed++; return true })
		case 5:
			err = x.QueryAction(&qa.AssociatedActionQuery{}, func(ba.AssociatedKeyValues) bool { act(); return true })
		case 6:
			err = x.DestroyTree(func(k ba.AssociatedKeyValues) bool { offered[k.Value().(int)]++; return true })
		}
		done <- true
	}()
	<-done
	<-done
	sym.Assert(err == nil || err == ba.ErrorTreeDestroying || which == 0 && err == ba.ErrorKeyValuesAlreadyExists, "a call is refused with the destroying error or runs")
	sym.Assert(derr == nil || which == 6 && derr == ba.ErrorTreeDestroying && err == nil, "of several destroys one runs")
	total := removed
	for i := range r.R {
		c := offered[i+1]
		sym.Assert(c <= 1, "a destroy offers each record once")
		total += c
	}
	sym.Assert(total == len(r.R), "every record is removed once")
	got := hx.AllRecs(x)
	sym.Assert(len(got) == created-offered[500], "a destroyed index holds only what was created later")
	for _, g := range got {
		sym.Assert(g.Item == 500 && k.IsKV(g.KV), "a destroyed index holds only what was created later")
	}
	for _, k := range []hx.KV{a, ab} {
		_, e := x.CreateOrFind(k.Map(), func() any { return 7 }, func(ba.AssociatedKeyValues) {})
		sym.Assert(e == nil, "the index is usable after a destroy")
		sym.Assert(len(hx.FindKV(x, k)) == 1, "the index is usable after a destroy")
	}
	sym.Reach("records together")
}
