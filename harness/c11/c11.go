package c11

import (
	ba "github.com/DanLavine/willow/internal/datastructures/btree_associated"
	"github.com/DanLavine/willow/internal/verif_harness/hx"
	sym "github.com/DanLavine/willow/internal/verif_sym"
	v1 "github.com/DanLavine/willow/pkg/models/api/common/v1"
	qm "github.com/DanLavine/willow/pkg/models/api/common/v1/query_match_action"
)

// store fills an index with records over up to three keys.
func store(masks []int, kinds ...int) (ba.BTreeAssociated, *hx.Recs) {
	t, r := ba.NewThreadSafe(), &hx.Recs{}
	for _, m := range masks {
		k := hx.MakeKV("stored", m, kinds...)
		sym.Assume(!r.Has(k))
		r.Add(t, k)
	}
	return t, r
}

func check(t ba.BTreeAssociated, r *hx.Recs, k hx.KV, tr func(int) v1.TypeRestrictions, min, max *int) {
	q := hx.MatchQuery(k, tr, min, max)
	got, err := hx.Match(t, q)
	if (max != nil && *max < 0) || (min != nil && max != nil && *min > *max) {
		sym.Assert(len(got) == 0, "contradictory bounds match nothing")
		return
	}
	sym.Assert(err == nil, "a valid match does not fail")
	sym.Assert(r.Matches(got, func(e *hx.Rec) bool { return hx.Contained(e.KV, k, tr, min, max) }), "calls back once for exactly the contained records")
}

func full(int) v1.TypeRestrictions { return hx.FullRange }

// Records over two keys, wildcards and numbers, any type range.
func CheckTwoKeys() {
	t, r := store([]int{1, 3, 2, 1}[:sym.Bound("records", 3, 4)], hx.KInt, hx.KAny)
	k := hx.MakeKV("given", 1+sym.Choose("given keys", 3), hx.KInt, hx.KAny)
	trs := [2]v1.TypeRestrictions{hx.Ranges[sym.Choose("type range", 4)], hx.Ranges[2*sym.Choose("type range", 2)]}
	check(t, r, k, func(i int) v1.TypeRestrictions { return trs[i] }, nil, nil)
	sym.Reach("two keys")
}

// Records over three keys sharing numbers.
func CheckThreeKeys() {
	t, r := store([]int{7, 3, 7, 5}[:sym.Bound("records", 2, 4)], hx.KInt)
	check(t, r, hx.MakeKV("given", []int{7, 3, 6, 15}[sym.Choose("given keys", 4)], hx.KInt), full, nil, nil)
	sym.Reach("three keys")
}

// Every mix of numbers and wildcards over three keys, against fixed records.
func CheckWildcards() {
	t, r := ba.NewThreadSafe(), &hx.Recs{}
	for m := 1; m < 8; m++ {
		k := hx.KV{Mask: m}
		for i := range k.Val {
			if k.Has(i) {
				k.Val[i] = hx.IntKey(i)
			}
		}
		r.Add(t, k)
	}
	for i, n := 0, sym.Bound("wild records", 1, 2); i < n; i++ {
		k := hx.KV{Mask: 1 + sym.Choose("wild keys", 7)}
		for j := range k.Val {
			if k.Has(j) {
				if k.Val[j] = hx.IntKey(j); sym.Choose("wild", 2) == 1 {
					k.Val[j] = hx.Of("any", hx.KAny, 1)
				}
			}
		}
		sym.Assume(!r.Has(k))
		r.Add(t, k)
	}
	given := hx.MakeKV("given", 1+sym.Choose("given keys", 7), hx.KInt)
	wild := sym.Choose("allow wildcards", 2) == 1
	check(t, r, given, func(i int) v1.TypeRestrictions {
		if wild {
			return hx.Ranges[2]
		}
		return hx.Ranges[1]
	}, nil, nil)
	sym.Reach("wildcards")
}

// Values of several types under the same key.
func CheckTypes() {
	t, r := store([]int{1, 1, 1}[:sym.Bound("records", 2, 3)], hx.KUint8, hx.KInt, hx.KString, hx.KAny)
	k := hx.MakeKV("given", 1, hx.KUint8, hx.KInt, hx.KString, hx.KAny)
	tr := hx.Ranges[sym.Choose("type range", len(hx.Ranges))]
	check(t, r, k, func(int) v1.TypeRestrictions { return tr }, nil, nil)
	sym.Reach("types")
}

// The query built from plain key-values allows the exact value or a wildcard.
func CheckFromKeyValues() {
	t, r := store([]int{1, 2, 3}, hx.KInt, hx.KAny)
	k := hx.MakeKV("given", 1+sym.Choose("given keys", 3), hx.KInt)
	got, err := hx.Match(t, qm.KeyValuesToAnyMatchActionQuery(k.Map()))
	sym.Assert(err == nil, "a valid match does not fail")
	sym.Assert(r.Matches(got, func(e *hx.Rec) bool { return hx.Contained(e.KV, k, full, nil, nil) }), "calls back once for exactly the contained records")
	sym.Reach("from key values")
}

func bound(name string) *int {
	if sym.Choose(name+" given", 2) == 0 {
		return nil
	}
	n := sym.IntRange(name, -3, 5)
	return &n
}

// Bounds on the number of keys.
func CheckBounds() {
	t, r := ba.NewThreadSafe(), &hx.Recs{}
	for m := 1; m < 8; m++ {
		k := hx.KV{Mask: m}
		for i := range k.Val {
			if k.Has(i) {
				k.Val[i] = hx.IntKey(i)
			}
		}
		r.Add(t, k)
	}
	// wildcard records make two values of a key match
	k := hx.KV{Mask: 3}
	k.Val[0], k.Val[1] = hx.Of("any", hx.KAny, 1), hx.IntKey(1)
	r.Add(t, k)
	given := hx.KV{Mask: 1 + sym.Choose("given keys", 15)}
	for i := range given.Val {
		if given.Has(i) {
			given.Val[i] = hx.IntKey(i)
		}
	}
	check(t, r, given, full, bound("min"), bound("max"))
	sym.Reach("bounds")
}

// A callback that stops gets no further calls.
func CheckStop() {
	t, r := store([]int{1, 2, 3}, hx.KInt)
	k := hx.MakeKV("given", 3, hx.KInt)
	stop := 1 + sym.Choose("stop", 3)
	n := 0
	err := t.MatchAction(hx.MatchQuery(k, full, nil, nil), func(ba.AssociatedKeyValues) bool { n++; return n < stop })
	want := 0
	for _, e := range r.R {
		want += sym.IteInt(hx.Contained(e.KV, k, full, nil, nil), 1, 0)
	}
	sym.Assert(err == nil && (n == stop || (n < stop && n == want)), "no calls after asking to stop, every match before")
	sym.Reach("stop")
}
