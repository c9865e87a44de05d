package hx

import (
	sym "github.com/DanLavine/willow/internal/verif_sym"

	otm "github.com/DanLavine/willow/internal/datastructures/btree_one_to_many"
	qa "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
)

// Owners is a grouped record store with its reference: one reference index per owner.
type Owners struct {
	T     otm.BTreeOneToMany
	Names []string
	R     []*Recs
	Items int
}

// NewOwners builds an empty grouped store.
func NewOwners(names ...string) *Owners {
	o := &Owners{T: otm.NewThreadSafe(), Names: names}
	for range names {
		o.R = append(o.R, &Recs{})
	}
	return o
}

// Sees collects the callbacks of one call on one owner.
type Sees struct {
	Owner string
	Got   []GotRec
	OK    bool
	Stop  int // returns false from this callback on; negative: never
}

// Take is the callback: true until Stop callbacks were made.
func (s *Sees) Take(i otm.OneToManyItem) bool {
	s.Got = append(s.Got, GotRec{i.ManyKeyValues(), i.Value().(int), i.ManyID()})
	s.OK = sym.And(s.OK, i.OneID() == s.Owner)
	return s.Stop < 0 || len(s.Got) < s.Stop
}

// See starts collecting for an owner.
func (o *Owners) See(w int) *Sees { return &Sees{Owner: o.Names[w], OK: true, Stop: -1} }

// All lists an owner's records.
func (o *Owners) All(w int) *Sees {
	s := o.See(w)
	if err := o.T.QueryAction(o.Names[w], &qa.AssociatedActionQuery{}, s.Take); err != nil {
		s.OK = false
	}
	return s
}

// Listed tells whether every owner has exactly the records of its reference.
func (o *Owners) Listed() bool {
	ok := true
	for w := range o.Names {
		s := o.All(w)
		ok = sym.And(ok, sym.And(s.OK, o.R[w].Matches(s.Got, func(*Rec) bool { return true })))
	}
	return ok
}

// Make runs create-or-find for an owner and tells whether it did what the reference says.
func (o *Owners) Make(w int, k KV) bool {
	r := o.R[w]
	had := r.Has(k)
	o.Items++
	it := o.Items
	made := 0
	s := o.See(w)
	id, err := o.T.CreateOrFind(o.Names[w], k.Map(), func() any { made++; return it }, func(i otm.OneToManyItem) { s.Take(i) })
	ok := sym.And(err == nil && id != "", s.OK)
	if made == 1 {
		fresh := true
		for _, x := range o.R {
			for _, e := range x.R {
				fresh = fresh && e.ID != id
			}
		}
		ok = sym.And(ok && len(s.Got) == 0 && fresh, !had)
		r.Put(k, it, id, true)
		return ok
	}
	ok = sym.And(ok && made == 0 && len(s.Got) == 1, had)
	if len(s.Got) == 1 {
		ok = sym.And(ok, sym.And(s.Got[0].Item == r.Item(k), sym.And(r.HasID(k, id), k.IsKV(s.Got[0].KV))))
		ok = sym.And(ok, s.Got[0].ID == id)
	}
	return ok
}
