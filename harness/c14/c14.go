package c14

import (
	otm "github.com/DanLavine/willow/internal/datastructures/btree_one_to_many"
	"github.com/DanLavine/willow/internal/verif_harness/hx"
	sym "github.com/DanLavine/willow/internal/verif_sym"
	v1 "github.com/DanLavine/willow/pkg/models/api/common/v1"
	qa "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	dt "github.com/DanLavine/willow/pkg/models/datatypes"
)

type otmItem = otm.OneToManyItem

func full(int) v1.TypeRestrictions { return hx.FullRange }

func shared(names ...string) *hx.Owners {
	o := hx.NewOwners(names...)
	one := hx.IntKey(1)
	for w := range names {
		for mask := 1; mask < 4; mask++ {
			create(o, w, hx.KV{Mask: mask, Val: [4]hx.V{one, one}})
		}
	}
	return o
}

func create(o *hx.Owners, w int, k hx.KV) {
	sym.Assert(o.Make(w, k), "a set of an owner is created once, and found with its own item and id afterwards")
}

// remove makes one removal of any kind under an owner.
func remove(o *hx.Owners, w int) {
	r := o.R[w]
	s := o.See(w)
	refuse := sym.Choose("refuse", 2) == 1
	switch sym.Choose("removal", 3) {
	case 0:
		k := hx.MakeKV("removed", 1+sym.Choose("keys", 3), hx.KInt)
		had := r.Has(k)
		if refuse {
			s.Stop = 0
		}
		err := o.T.DeleteOneOfManyByKeyValues(o.Names[w], k.Map(), s.Take)
		sym.Assert(err == nil, "a removal does not fail")
		sym.Assert(sym.And(s.OK, r.Matches(s.Got, func(e *hx.Rec) bool { return sym.And(had, hx.SameKV(e.KV, k)) })), "the removal is asked about exactly the record of this owner")
		if !refuse {
			r.Del(k)
		}
	case 1:
		// any id that was ever given out, of this or the other owner
		var ids []string
		for _, x := range o.R {
			for _, e := range x.R {
				ids = append(ids, e.ID)
			}
		}
		id := ids[sym.Choose("id", len(ids))]
		if refuse {
			s.Stop = 0
		}
		err := o.T.DestroyOneOfManyByID(o.Names[w], id, s.Take)
		sym.Assert(err == nil, "a removal does not fail")
		sym.Assert(sym.And(s.OK, r.Matches(s.Got, func(e *hx.Rec) bool { return e.ID == id })), "the removal is asked about exactly the record of this owner")
		if !refuse {
			r.DelID(id)
		}
	case 2:
		if refuse {
			s.Stop = 1 + sym.Choose("stop", 2)
		}
		n := r.Len()
		err := o.T.DestroyOne(o.Names[w], s.Take)
		sym.Assert(err == nil, "a removal does not fail")
		want := n
		if s.Stop >= 0 {
			want = sym.IteInt(n < s.Stop, n, s.Stop)
		}
		sym.Assert(sym.And(s.OK, len(s.Got) == want), "removing an owner asks about each of its records once, until stopped")
		for i, g := range s.Got {
			for _, e := range r.R {
				if e.Item == g.Item {
					sym.Assert(sym.And(e.On, sym.And(e.ID == g.ID, e.KV.IsKV(g.KV))), "removing an owner asks about its own records")
					if s.Stop < 0 || i < s.Stop-1 {
						e.On = false
					}
				}
			}
		}
	}
}

// Histories of creations and removals of every kind over two owners with arbitrary sets.
func CheckHistory() {
	o := shared("x", "y")
	for i, n := 0, sym.Bound("operations", 2, 3); i < n; i++ {
		w := sym.Choose("owner", 2)
		if sym.Choose("op", 2) == 0 {
			create(o, w, hx.MakeKV("made", 1+sym.Choose("keys", 3), hx.KInt))
		} else {
			remove(o, w)
		}
		sym.Assert(o.Listed(), "every owner has exactly its own records")
	}
	sym.Reach("history")
}

// Queries and matches of one owner when both own the same sets.
func CheckLookups() {
	o := shared("x", "y")
	w := sym.Choose("owner", 2)
	create(o, w, hx.MakeKV("made", 1+sym.Choose("keys", 3), hx.KInt))
	r, s := o.R[w], o.See(w)
	var err error
	switch sym.Choose("lookup", 4) {
	case 0:
		q := &hx.Q{Sel: &hx.Sel{Cmps: []hx.Cmp{hx.MakeCmp(sym.Choose("key", 2), 1, hx.KInt)}}}
		err = o.T.QueryAction(o.Names[w], q.Model(), s.Take)
		sym.Assert(r.Matches(s.Got, func(e *hx.Rec) bool { return q.Holds(e.KV, e.ID) }), "a query finds exactly the owner's records it asks for")
	case 1:
		id := o.R[sym.Choose("of", 2)].R[sym.Choose("id", 3)].ID
		q := &hx.Q{Sel: &hx.Sel{IDs: []string{id}}}
		err = o.T.QueryAction(o.Names[w], q.Model(), s.Take)
		sym.Assert(r.Matches(s.Got, func(e *hx.Rec) bool { return e.ID == id }), "an id of another owner finds nothing")
	case 2:
		k := hx.MakeKV("exact", 1+sym.Choose("keys", 3), hx.KInt)
		err = o.T.QueryAction(o.Names[w], qa.KeyValuesToExactAssociatedActionQuery(k.Map()), s.Take)
		sym.Assert(r.Matches(s.Got, func(e *hx.Rec) bool { return hx.SameKV(e.KV, k) }), "the exact lookup finds exactly the owner's record")
	case 3:
		k := hx.MakeKV("given", 1+sym.Choose("keys", 3), hx.KInt)
		err = o.T.MatchAction(o.Names[w], hx.MatchQuery(k, full, nil, nil), s.Take)
		sym.Assert(r.Matches(s.Got, func(e *hx.Rec) bool { return hx.Contained(e.KV, k, full, nil, nil) }), "matching finds exactly the owner's contained records")
	}
	sym.Assert(err == nil && s.OK, "a lookup only sees records of its owner")
	sym.Reach("lookups")
}

// Any owner names: different names are different owners, and an unknown owner has nothing.
func CheckNames() {
	a, b := sym.String("owner", 2), sym.String("other", 2)
	sym.Assume(a != "" && b != "" && a != b)
	o := hx.NewOwners(a, b)
	k := hx.KV{Mask: 1, Val: [4]hx.V{hx.IntKey(1)}}
	create(o, 0, k)
	sym.Assert(o.Listed(), "an owner without records has none")
	if sym.Choose("both", 2) == 1 {
		create(o, 1, k)
	}
	s := o.See(0)
	switch sym.Choose("removal", 3) {
	case 0:
		_ = o.T.DestroyOne(a, s.Take)
	case 1:
		_ = o.T.DeleteOneOfManyByKeyValues(a, k.Map(), s.Take)
	case 2:
		_ = o.T.DestroyOneOfManyByID(a, o.R[0].R[0].ID, s.Take)
	}
	sym.Assert(s.OK && len(s.Got) == 1, "the record is removed")
	o.R[0].Del(k)
	sym.Assert(o.Listed(), "removing an owner's last record leaves the other owner alone")
	create(o, 0, k)
	create(o, 1, k)
	sym.Assert(o.Listed(), "an owner can be used again")
	sym.Reach("names")
}

// Refused calls: empty owner, invalid or reserved key-values, missing callbacks, impossible bounds; nothing changes.
func CheckRefused() {
	o := shared("x", "y")
	s := o.See(0)
	k := hx.KV{Mask: 1, Val: [4]hx.V{hx.IntKey(9)}}
	made := 0
	on := func() any { made++; return 77 }
	var err error
	switch sym.Choose("refused", 12) {
	case 0:
		_, err = o.T.CreateOrFind("", k.Map(), on, nil)
	case 1:
		_, err = o.T.CreateOrFind("x", dt.KeyValues{}, on, nil)
	case 2:
		_, err = o.T.CreateOrFind("x", dt.KeyValues{"_associated_id": dt.Int(1)}, on, nil)
	case 3:
		_, err = o.T.CreateOrFind("x", k.Map(), nil, nil)
	case 4:
		_, err = o.T.CreateOrFind("x", k.Map(), on, nil)
	case 5:
		err = o.T.QueryAction("", &qa.AssociatedActionQuery{}, s.Take)
	case 6:
		err = o.T.QueryAction("x", &qa.AssociatedActionQuery{}, nil)
	case 7:
		min, max := sym.Int("min"), sym.Int("max")
		var pmin, pmax *int
		if sym.Choose("bounded below", 2) == 1 {
			pmin = &min
		} else {
			min = 0
		}
		pmax = &max
		sym.Assume(sym.Or(max < 0, max < min))
		err = o.T.MatchAction("x", hx.MatchQuery(k, full, pmin, pmax), s.Take)
	case 8:
		err = o.T.DestroyOne("", s.Take)
	case 9:
		err = o.T.DestroyOneOfManyByID("x", "", s.Take)
	case 10:
		err = o.T.DeleteOneOfManyByKeyValues("", k.Map(), s.Take)
	case 11:
		err = o.T.DeleteOneOfManyByKeyValues("x", dt.KeyValues{}, s.Take)
	}
	sym.Assert(err != nil, "an impossible call is refused")
	sym.Assert(made == 0 && len(s.Got) == 0, "a refused call runs no callback")
	sym.Assert(o.Listed(), "a refused call changes nothing")
	sym.Reach("refused")
}

// Two calls at the same time under the same owner: whoever sees a record sees it complete.
func CheckTogether() {
	sym.Preemptions(sym.Bound("preemptions", 1, 2))
	o := shared("x", "y")
	k := hx.KV{Mask: 1, Val: [4]hx.V{hx.IntKey(5)}}
	done := make(chan bool, 2)
	var id1 string
	go func() {
		id1, _ = o.T.CreateOrFind("x", k.Map(), func() any { return 50 }, func(otmItem) {})
		done <- true
	}()
	s := o.See(0)
	what := sym.Choose("what", 5)
	var err error
	var id2 string
	made2 := 0
	go func() {
		switch what {
		case 0:
			err = o.T.QueryAction("x", qa.KeyValuesToExactAssociatedActionQuery(k.Map()), s.Take)
		case 1:
			err = o.T.MatchAction("x", hx.MatchQuery(k, full, nil, nil), s.Take)
		case 2:
			err = o.T.DeleteOneOfManyByKeyValues("x", k.Map(), s.Take)
		case 3:
			err = o.T.DestroyOne("x", s.Take)
		case 4:
			id2, err = o.T.CreateOrFind("x", k.Map(), func() any { made2++; return 51 }, func(i otmItem) { s.Take(i) })
		}
		done <- true
	}()
	<-done
	<-done
	sym.Assert(err == nil, "a call that may run with others succeeds")
	for _, g := range s.Got {
		if g.Item == 50 {
			sym.Assert(g.ID == id1 && k.IsKV(g.KV), "a record that is found is complete")
		}
	}
	if what == 4 {
		sym.Assert(id1 == id2 && made2+len(s.Got) == 1, "a set of an owner is created once")
	}
	after := o.All(0)
	n := 0
	for _, g := range after.Got {
		if k.IsKV(g.KV) {
			n++
		}
	}
	gone := 0
	for _, g := range s.Got {
		if g.Item == 50 && (what == 2 || what == 3) {
			gone = 1
		}
	}
	sym.Assert(n == 1-gone, "a created record stays until it is removed")
	o.R[0] = &hx.Recs{}
	other := o.All(1)
	sym.Assert(other.OK && o.R[1].Matches(other.Got, func(*hx.Rec) bool { return true }), "the other owner keeps its records")
	sym.Reach("together")
}
