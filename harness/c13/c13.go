package c13

import (
	ba "github.com/DanLavine/willow/internal/datastructures/btree_associated"
	"github.com/DanLavine/willow/internal/verif_harness/hx"
	sym "github.com/DanLavine/willow/internal/verif_sym"
)

// agree asks the index that holds just this record, and asks whether the tags match.
func agree(q *hx.Q, k hx.KV) {
	m := q.Model()
	sym.Assert(m.Validate() == nil, "the query is valid")
	got := m.MatchTags(k.Map())
	t, r := ba.NewThreadSafe(), &hx.Recs{}
	r.Add(t, k)
	found, err := hx.Query(t, m)
	sym.Assert(err == nil && got == (len(found) == 1), "tags match exactly when the query finds the record")
	sym.Assert(sym.Iff(got, q.Holds(k, "")), "tags match exactly when the query holds for them")
}

func tags(kinds ...int) hx.KV {
	return hx.MakeKV("tag", 1+sym.Choose("keys", 7), kinds...)
}

func bound(name string) *int {
	if sym.Choose(name+" given", 2) == 0 {
		return nil
	}
	n := sym.IntRange(name, -1, 4)
	return &n
}

// One comparison, every operator, type range and kind of value.
func CheckOneComparison() {
	k := hx.MakeKV("tag", 1+sym.Choose("keys", 3), hx.KUint8, hx.KInt, hx.KString, hx.KAny)
	agree(&hx.Q{Sel: &hx.Sel{Cmps: []hx.Cmp{hx.MakeCmp(0, len(hx.Ranges), hx.KUint8, hx.KInt, hx.KString)}}}, k)
	sym.Reach("one")
}

// Values of every type against comparisons of every type.
func CheckEveryType() {
	all := []int{hx.KUint8, hx.KUint16, hx.KUint32, hx.KUint64, hx.KUint, hx.KInt8, hx.KInt16, hx.KInt32, hx.KInt64, hx.KInt, hx.KFloat32, hx.KFloat64, hx.KString, hx.KAny}
	k := hx.MakeKV("tag", 1, all...)
	agree(&hx.Q{Sel: &hx.Sel{Cmps: []hx.Cmp{hx.MakeCmp(0, 1, all[:13]...)}}}, k)
	sym.Reach("every type")
}

// Several comparisons with key-count bounds.
func CheckSeveralComparisons() {
	k := tags(hx.KInt)
	s := &hx.Sel{}
	for i, n := 0, 2+sym.Choose("more", sym.Bound("comparisons", 1, 2)); i < n; i++ {
		s.Cmps = append(s.Cmps, hx.MakeCmp(i, 2, hx.KInt))
	}
	agree(&hx.Q{Sel: s}, k)
	sym.Reach("several")
}

// Key-count bounds with and without a comparison.
func CheckBounds() {
	s := &hx.Sel{Min: bound("min"), Max: bound("max")}
	if s.Min != nil && s.Max != nil {
		sym.Assume(*s.Min <= *s.Max)
	}
	for i, n := 0, sym.Choose("comparisons", 3); i < n; i++ {
		s.Cmps = append(s.Cmps, hx.Cmp{Key: i, Op: hx.Ops[sym.Choose("comparison", 3)], V: hx.IntKey(sym.Int("asked")), TR: hx.FullRange})
	}
	if len(s.Cmps) == 0 && s.Min == nil && s.Max == nil {
		return
	}
	agree(&hx.Q{Sel: s}, tags(hx.KInt))
	sym.Reach("bounds")
}

func part(depth int) *hx.Q {
	q := &hx.Q{}
	switch c := sym.Choose("selection", 5); c {
	case 0:
	case 1, 2, 3:
		q.Sel = &hx.Sel{Cmps: []hx.Cmp{{Key: 0, Op: hx.Ops[c-1], V: hx.IntKey(sym.Int("asked")), TR: hx.FullRange}}}
	case 4:
		n := 2
		q.Sel = &hx.Sel{Min: &n}
	}
	if depth > 0 {
		for i, n := 0, sym.Choose("ands", sym.Bound("ands", 2, 3)); i < n; i++ {
			q.And = append(q.And, part(depth-1))
		}
		for i, n := 0, sym.Choose("ors", sym.Bound("ors", 3, 3)); i < n; i++ {
			q.Or = append(q.Or, part(depth-1))
		}
	}
	return q
}

// Every mix of a selection with up to two And and two Or parts, empty parts included.
func CheckJoins() {
	agree(part(1), hx.MakeKV("tag", 1+sym.Choose("keys", 3), hx.KInt))
	sym.Reach("joins")
}

// Parts nested two deep, one part each.
func CheckNested() {
	k := hx.MakeKV("tag", 1+sym.Choose("keys", 3), hx.KInt)
	q := part(0)
	for _, p := range []*hx.Q{q} {
		in := part(0)
		if sym.Choose("inner", 2) == 0 {
			in.And = []*hx.Q{part(0)}
		} else {
			in.Or = []*hx.Q{part(0)}
		}
		if sym.Choose("outer", 2) == 0 {
			p.And = []*hx.Q{in}
		} else {
			p.Or = []*hx.Q{in}
		}
	}
	agree(q, k)
	sym.Reach("nested")
}
