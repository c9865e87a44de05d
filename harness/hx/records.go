package hx

import (
	sym "github.com/DanLavine/willow/internal/verif_sym"

	ba "github.com/DanLavine/willow/internal/datastructures/btree_associated"
	v1 "github.com/DanLavine/willow/pkg/models/api/common/v1"
	qa "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	qm "github.com/DanLavine/willow/pkg/models/api/common/v1/query_match_action"
	dt "github.com/DanLavine/willow/pkg/models/datatypes"
)

// KeyNames are the keys records are made of.
var KeyNames = []string{"a", "b", "c", "d"}

// KV is an exact key-value set: Val[i] belongs to KeyNames[i] when bit i of Mask is set.
type KV struct {
	Mask int
	Val  [4]V
}

// Has tells whether the set has key i.
func (k KV) Has(i int) bool { return k.Mask>>i&1 == 1 }

// Len counts the keys.
func (k KV) Len() int {
	n := 0
	for i := range KeyNames {
		if k.Has(i) {
			n++
		}
	}
	return n
}

// Map is the set as the repository's type.
func (k KV) Map() dt.KeyValues {
	m := dt.KeyValues{}
	for i, n := range KeyNames {
		if k.Has(i) {
			m[n] = k.Val[i].EV
		}
	}
	return m
}

// SameKV is equality of exact key-value sets.
func SameKV(a, b KV) bool {
	if a.Mask != b.Mask {
		return false
	}
	ok := true
	for i := range KeyNames {
		if a.Has(i) {
			ok = sym.And(ok, Same(a.Val[i], b.Val[i]))
		}
	}
	return ok
}

// IsKV tells whether the repository's key-values are this set.
func (k KV) IsKV(m dt.KeyValues) bool {
	if len(m) != k.Len() {
		return false
	}
	ok := true
	for i, n := range KeyNames {
		if k.Has(i) {
			v, has := m[n]
			if !has {
				return false
			}
			ok = sym.And(ok, SameEV(v, k.Val[i]))
		}
	}
	return ok
}

// MakeKV builds a set over the keys of mask with values of the given kinds: a kind is chosen per key.
func MakeKV(name string, mask int, kinds ...int) KV {
	k := KV{Mask: mask}
	for i := range KeyNames {
		if k.Has(i) {
			kind := kinds[0]
			if len(kinds) > 1 {
				kind = kinds[sym.Choose(name+" kind", len(kinds))]
			}
			k.Val[i] = Of(name, kind, 1)
		}
	}
	return k
}

// Rec is one record of the reference index, switched on and off by symbolic conditions.
type Rec struct {
	KV   KV
	Item int
	ID   string
	On   bool
}

// Recs is the reference index.
type Recs struct{ R []*Rec }

func (r *Recs) Has(k KV) bool {
	h := false
	for _, e := range r.R {
		h = sym.Or(h, sym.And(e.On, SameKV(e.KV, k)))
	}
	return h
}

// Item is the item stored under exactly k (0 when absent).
func (r *Recs) Item(k KV) int {
	n := 0
	for _, e := range r.R {
		n = sym.IteInt(sym.And(e.On, SameKV(e.KV, k)), e.Item, n)
	}
	return n
}

// HasID tells whether the record stored under exactly k has this id.
func (r *Recs) HasID(k KV, id string) bool {
	ok := false
	for _, e := range r.R {
		ok = sym.Or(ok, sym.And(sym.And(e.On, SameKV(e.KV, k)), e.ID == id))
	}
	return ok
}

// LiveID tells whether some live record has this id.
func (r *Recs) LiveID(id string) bool {
	ok := false
	for _, e := range r.R {
		if e.ID == id {
			ok = sym.Or(ok, e.On)
		}
	}
	return ok
}

// Put adds a record when on.
func (r *Recs) Put(k KV, item int, id string, on bool) {
	r.R = append(r.R, &Rec{k, item, id, on})
}

func (r *Recs) Del(k KV) {
	for _, e := range r.R {
		e.On = sym.And(e.On, !SameKV(e.KV, k))
	}
}

func (r *Recs) DelID(id string) {
	for _, e := range r.R {
		if e.ID == id {
			e.On = false
		}
	}
}

func (r *Recs) Len() int {
	n := 0
	for _, e := range r.R {
		n += sym.IteInt(e.On, 1, 0)
	}
	return n
}

// GotRec is one callback of a lookup on the record index.
type GotRec struct {
	KV   dt.KeyValues
	Item int
	ID   string
}

// Matches tells whether the callbacks are exactly the live records selected by want, each once, with their data.
func (r *Recs) Matches(got []GotRec, want func(e *Rec) bool) bool {
	ok := true
	used := 0
	for _, e := range r.R {
		w := sym.And(e.On, want(e))
		n := 0
		for _, g := range got {
			if g.Item == e.Item {
				n++
				ok = sym.And(ok, sym.And(g.ID == e.ID, e.KV.IsKV(g.KV)))
			}
		}
		if n > 1 {
			return false
		}
		used += n
		ok = sym.And(ok, w == (n == 1))
	}
	return sym.And(ok, used == len(got))
}

// Query runs a query and collects the callbacks.
func Query(t ba.BTreeAssociated, q *qa.AssociatedActionQuery) ([]GotRec, error) {
	var got []GotRec
	err := t.QueryAction(q, func(a ba.AssociatedKeyValues) bool {
		got = append(got, GotRec{a.KeyValues(), a.Value().(int), a.AssociatedID()})
		return true
	})
	return got, err
}

// Match runs a match lookup and collects the callbacks.
func Match(t ba.BTreeAssociated, q *qm.MatchActionQuery) ([]GotRec, error) {
	var got []GotRec
	err := t.MatchAction(q, func(a ba.AssociatedKeyValues) bool {
		got = append(got, GotRec{a.KeyValues(), a.Value().(int), a.AssociatedID()})
		return true
	})
	return got, err
}

// AllRecs lists every record.
func AllRecs(t ba.BTreeAssociated) []GotRec {
	got, err := Query(t, &qa.AssociatedActionQuery{})
	if err != nil {
		panic("listing failed")
	}
	return got
}

// FindKV looks a record up by its exact key-values.
func FindKV(t ba.BTreeAssociated, k KV) []GotRec {
	got, err := Query(t, qa.KeyValuesToExactAssociatedActionQuery(k.Map()))
	if err != nil {
		panic("exact lookup failed")
	}
	return got
}

// Add creates a record that is not there yet, in the index and in the reference.
func (r *Recs) Add(t ba.BTreeAssociated, k KV) string {
	it := len(r.R) + 1
	id, err := t.Create(k.Map(), func() any { return it })
	if err != nil || id == "" {
		panic("record not created")
	}
	r.Put(k, it, id, true)
	return id
}

// Cmp is one key comparison of a selection.
type Cmp struct {
	Key int
	Op  v1.DataComparison
	V   V
	TR  v1.TypeRestrictions
}

// Sel is a selection of a query; a negative bound is absent.
type Sel struct {
	IDs      []string
	Cmps     []Cmp
	Min, Max *int
}

// Model is the selection as the repository's type.
func (s *Sel) Model() *qa.Selection {
	m := &qa.Selection{IDs: s.IDs, MinNumberOfKeyValues: s.Min, MaxNumberOfKeyValues: s.Max}
	for _, c := range s.Cmps {
		if m.KeyValues == nil {
			m.KeyValues = qa.SelectionKeyValues{}
		}
		m.KeyValues[KeyNames[c.Key]] = qa.ValueQuery{Value: c.V.EV, Comparison: c.Op, TypeRestrictions: c.TR}
	}
	return m
}

// equal tells whether a stored value counts as the asked value: equal, or a wildcard on either side.
func equal(stored, asked V, tr v1.TypeRestrictions) bool {
	in := InRange(stored, tr)
	if stored.K == KAny || asked.K == KAny {
		return in
	}
	return sym.And(in, Same(stored, asked))
}

// Holds is the reference meaning of a selection for a record.
func (s *Sel) Holds(k KV, id string) bool {
	ok := true
	if len(s.IDs) > 0 {
		in := false
		for _, i := range s.IDs {
			in = in || i == id
		}
		if !in {
			return false
		}
	}
	if s.Min != nil {
		ok = sym.And(ok, k.Len() >= *s.Min)
	}
	if s.Max != nil {
		ok = sym.And(ok, k.Len() <= *s.Max)
	}
	nots, excluded := 0, true
	for _, c := range s.Cmps {
		if c.Op == v1.NotEquals {
			nots++
			excluded = sym.And(excluded, k.Has(c.Key) && equal(k.Val[c.Key], c.V, c.TR))
			continue
		}
		if !k.Has(c.Key) {
			return false
		}
		v := k.Val[c.Key]
		h := false
		switch c.Op {
		case v1.Equals:
			h = equal(v, c.V, c.TR)
		case v1.LessThan:
			h = sym.And(InRange(v, c.TR), Want(LLt, c.V, v))
		case v1.LessThanOrEqual:
			h = sym.And(InRange(v, c.TR), Want(LLe, c.V, v))
		case v1.GreaterThan:
			h = sym.And(InRange(v, c.TR), Want(LGt, c.V, v))
		case v1.GreaterThanOrEqual:
			h = sym.And(InRange(v, c.TR), Want(LGe, c.V, v))
		}
		ok = sym.And(ok, h)
	}
	if nots > 0 {
		ok = sym.And(ok, !excluded)
	}
	return ok
}

// Q is a query.
type Q struct {
	Sel     *Sel
	And, Or []*Q
}

// Model is the query as the repository's type.
func (q *Q) Model() *qa.AssociatedActionQuery {
	m := &qa.AssociatedActionQuery{}
	if q.Sel != nil {
		m.Selection = q.Sel.Model()
	}
	for _, a := range q.And {
		m.And = append(m.And, a.Model())
	}
	for _, o := range q.Or {
		m.Or = append(m.Or, o.Model())
	}
	return m
}

// Holds is the reference meaning of a query for a record.
func (q *Q) Holds(k KV, id string) bool {
	if q.Sel == nil && len(q.And) == 0 && len(q.Or) == 0 {
		return true
	}
	base := q.Sel != nil || len(q.And) > 0
	if q.Sel != nil {
		base = sym.And(base, q.Sel.Holds(k, id))
	}
	for _, a := range q.And {
		base = sym.And(base, a.Holds(k, id))
	}
	for _, o := range q.Or {
		base = sym.Or(base, o.Holds(k, id))
	}
	return base
}

// Ops lists the comparisons.
var Ops = []v1.DataComparison{v1.Equals, v1.NotEquals, v1.LessThan, v1.LessThanOrEqual, v1.GreaterThan, v1.GreaterThanOrEqual}

// Ranges lists type ranges: everything, int only, int and up, 'any' only, below int.
var Ranges = []v1.TypeRestrictions{
	{MinDataType: dt.T_uint8, MaxDataType: dt.T_any},
	{MinDataType: dt.T_int, MaxDataType: dt.T_int},
	{MinDataType: dt.T_int, MaxDataType: dt.T_any},
	{MinDataType: dt.T_any, MaxDataType: dt.T_any},
	{MinDataType: dt.T_uint8, MaxDataType: dt.T_int8},
}

// MakeCmp builds a comparison on a key with a chosen operator and one of the first n type ranges.
func MakeCmp(key int, ranges int, kinds ...int) Cmp {
	c := Cmp{Key: key, Op: Ops[sym.Choose("comparison", len(Ops))], TR: Ranges[sym.Choose("type range", ranges)]}
	kind := kinds[0]
	if c.Op == v1.Equals || c.Op == v1.NotEquals {
		kind = append(append([]int{}, kinds...), KAny)[sym.Choose("asked kind", len(kinds)+1)]
	} else if len(kinds) > 1 {
		kind = kinds[sym.Choose("asked kind", len(kinds))]
	}
	c.V = Of("asked", kind, 1)
	return c
}

// MatchQuery builds a match query for the set: wildcard tells for each key whether stored 'any' values match.
func MatchQuery(k KV, tr func(i int) v1.TypeRestrictions, min, max *int) *qm.MatchActionQuery {
	q := &qm.MatchActionQuery{KeyValues: qm.MatchKeyValues{}, MinNumberOfPermutationKeyValues: min, MaxNumberOfPermutationKeyValues: max}
	for i, n := range KeyNames {
		if k.Has(i) {
			q.KeyValues[n] = qm.MatchValue{Value: k.Val[i].EV, TypeRestrictions: tr(i)}
		}
	}
	return q
}

// Contained is the reference meaning of a match: every key of the record is in the given set with a matching value.
func Contained(rec, given KV, tr func(i int) v1.TypeRestrictions, min, max *int) bool {
	ok := true
	for i := range KeyNames {
		if rec.Has(i) {
			if !given.Has(i) {
				return false
			}
			ok = sym.And(ok, equal(rec.Val[i], given.Val[i], tr(i)))
		}
	}
	if min != nil {
		ok = sym.And(ok, rec.Len() >= *min)
	}
	if max != nil {
		ok = sym.And(ok, rec.Len() <= *max)
	}
	return ok
}
