package c10

import (
	ba "github.com/DanLavine/willow/internal/datastructures/btree_associated"
	"github.com/DanLavine/willow/internal/verif_harness/hx"
	sym "github.com/DanLavine/willow/internal/verif_sym"
)

// store fills an index with records over up to three keys: plain numbers, wildcards and a second type.
func store(n int, kinds ...int) (ba.BTreeAssociated, *hx.Recs, []string) {
	t, r := ba.NewThreadSafe(), &hx.Recs{}
	masks := []int{1, 3, 2, 1, 7, 3, 4}
	ids := []string{"unknown"}
	for i := 0; i < n; i++ {
		k := hx.MakeKV("stored", masks[i], kinds...)
		sym.Assume(!r.Has(k))
		ids = append(ids, r.Add(t, k))
	}
	return t, r, ids
}

// fixed fills an index with records of known numbers: a=5, a=15 b=5, b=15, a=any, a=5 b=15 c=5, ...
func fixed(n int) (ba.BTreeAssociated, *hx.Recs, []string) {
	t, r := ba.NewThreadSafe(), &hx.Recs{}
	vals := [][]int{{5}, {15, 5}, {0, 15}, {-1}, {5, 15, 5}, {10, 10}}
	ids := []string{"unknown"}
	for i := 0; i < n; i++ {
		k := hx.KV{}
		for j, v := range vals[i] {
			if v == 0 {
				continue
			}
			k.Mask |= 1 << j
			if k.Val[j] = hx.IntKey(v); v < 0 {
				k.Val[j] = hx.Of("any", hx.KAny, 1)
			}
		}
		ids = append(ids, r.Add(t, k))
	}
	return t, r, ids
}

func check(t ba.BTreeAssociated, r *hx.Recs, q *hx.Q) {
	m := q.Model()
	sym.Assert(m.Validate() == nil, "the query is valid")
	got, err := hx.Query(t, m)
	sym.Assert(err == nil, "a valid query does not fail")
	sym.Assert(r.Matches(got, func(e *hx.Rec) bool { return q.Holds(e.KV, e.ID) }), "calls back once for exactly the records that satisfy the query")
}

func bound(name string) *int {
	if sym.Choose(name+" given", 2) == 0 {
		return nil
	}
	n := sym.IntRange(name, -1, 4)
	return &n
}

// One comparison on any key, every operator, type range and bound.
func CheckOneComparison() {
	t, r, _ := store(sym.Bound("records", 3, 4), hx.KInt, hx.KAny)
	q := &hx.Q{Sel: &hx.Sel{Cmps: []hx.Cmp{hx.MakeCmp(sym.Choose("key", 2), len(hx.Ranges), hx.KInt)}}}
	check(t, r, q)
	sym.Reach("queried")
}

// Comparisons against values of another type than the stored ones.
func CheckTypes() {
	t, r := ba.NewThreadSafe(), &hx.Recs{}
	for i, n := 0, sym.Bound("records", 2, 3); i < n; i++ {
		k := hx.MakeKV("stored", 1, hx.KUint8, hx.KInt, hx.KString, hx.KAny)
		sym.Assume(!r.Has(k))
		r.Add(t, k)
	}
	check(t, r, &hx.Q{Sel: &hx.Sel{Cmps: []hx.Cmp{hx.MakeCmp(0, len(hx.Ranges), hx.KUint8, hx.KInt, hx.KString)}}})
	sym.Reach("types")
}

// Comparisons on several keys at once.
func CheckSeveralComparisons() {
	t, r, _ := store(sym.Bound("records", 3, 5), hx.KInt)
	n := 2 + sym.Choose("more", sym.Bound("third comparison", 1, 2))
	s := &hx.Sel{}
	for i := 0; i < n; i++ {
		s.Cmps = append(s.Cmps, hx.MakeCmp(i, 2, hx.KInt))
	}
	check(t, r, &hx.Q{Sel: s})
	sym.Reach("several")
}

// Key-count bounds, with and without a comparison, with and without listed ids.
func CheckBoundsAndIDs() {
	t, r, ids := fixed(6)
	s := &hx.Sel{Min: bound("min"), Max: bound("max")}
	if s.Min != nil && s.Max != nil {
		sym.Assume(*s.Min <= *s.Max)
	}
	switch sym.Choose("ids", 4) {
	case 1:
		s.IDs = []string{ids[sym.Choose("id", 3)]}
	case 2:
		s.IDs = []string{ids[2], ids[4], ids[2]}
	case 3:
		s.IDs = []string{ids[0], ids[1], ids[5]}
	}
	if sym.Choose("compare", 2) == 1 {
		s.Cmps = []hx.Cmp{hx.MakeCmp(sym.Choose("key", 2), sym.Bound("ranges", 1, 5), hx.KInt)}
	}
	if len(s.IDs) == 0 && len(s.Cmps) == 0 && s.Min == nil && s.Max == nil {
		return
	}
	check(t, r, &hx.Q{Sel: s})
	sym.Reach("bounds and ids")
}

// part builds a small query.
func part(ids []string, depth int) *hx.Q {
	q := &hx.Q{}
	switch c := sym.Choose("selection", 5); c {
	case 0:
	case 1:
		q.Sel = &hx.Sel{Cmps: []hx.Cmp{{Key: 0, Op: hx.Ops[sym.Choose("comparison", 2)], V: hx.IntKey(sym.Int("asked")), TR: hx.FullRange}}}
	case 2:
		q.Sel = &hx.Sel{Cmps: []hx.Cmp{{Key: 1, Op: hx.Ops[2], V: hx.IntKey(sym.Int("asked")), TR: hx.FullRange}}}
	case 3:
		n := 2
		q.Sel = &hx.Sel{Min: &n}
	case 4:
		q.Sel = &hx.Sel{IDs: []string{ids[2]}}
	}
	if depth > 0 {
		switch sym.Choose("parts", 4) {
		case 1:
			q.And = []*hx.Q{part(ids, depth-1)}
		case 2:
			q.Or = []*hx.Q{part(ids, depth-1)}
		case 3:
			q.And = []*hx.Q{part(ids, 0)}
			q.Or = []*hx.Q{part(ids, 0)}
		}
	}
	return q
}

// Queries nested with And and Or, empty parts included.
func CheckNested() {
	t, r, ids := fixed(5)
	check(t, r, part(ids, sym.Bound("nesting", 1, 2)))
	sym.Reach("nested")
}

// Two And parts and two Or parts.
func CheckJoins() {
	t, r, ids := fixed(5)
	q := part(ids, 0)
	for i, n := 0, sym.Choose("ands", 3); i < n; i++ {
		q.And = append(q.And, part(ids, 0))
	}
	for i, n := 0, sym.Choose("ors", 2); i < n; i++ {
		q.Or = append(q.Or, part(ids, 0))
	}
	check(t, r, q)
	sym.Reach("joins")
}

// A callback that stops gets no further calls.
func CheckStop() {
	t, r, _ := store(4, hx.KInt)
	c := []hx.Cmp{{Key: 0, Op: hx.Ops[4], V: hx.IntKey(sym.Int("asked")), TR: hx.FullRange}}
	q := &hx.Q{}
	if sym.Choose("selection", 2) == 1 {
		q.Sel = &hx.Sel{Cmps: c}
	}
	stop := 1 + sym.Choose("stop", 3)
	n := 0
	err := t.QueryAction(q.Model(), func(ba.AssociatedKeyValues) bool { n++; return n < stop })
	sym.Assert(err == nil && n <= stop, "no calls after asking to stop")
	want := 0
	for _, e := range r.R {
		want += sym.IteInt(q.Holds(e.KV, e.ID), 1, 0)
	}
	sym.Assert(n == stop || n == want, "otherwise every match is called back")
	sym.Reach("stop")
}

// Many And or Or parts, each of which names some of the records.
func CheckManyParts() {
	t, r, ids := fixed(4)
	n := 2 + sym.Choose("parts", sym.Bound("parts", 3, 4))
	some := func() *hx.Q {
		l := [][]string{{ids[1], ids[2]}, {ids[2], ids[3], ids[4]}, {ids[1], ids[3]}, {ids[2]}}[sym.Choose("names", 4)]
		return &hx.Q{Sel: &hx.Sel{IDs: l}}
	}
	q := &hx.Q{}
	if sym.Choose("selection", 2) == 1 {
		q = some()
	}
	and := sym.Choose("and", 2) == 1
	for i := 0; i < n; i++ {
		if and {
			q.And = append(q.And, some())
		} else {
			q.Or = append(q.Or, some())
		}
	}
	check(t, r, q)
	sym.Reach("many parts")
}
