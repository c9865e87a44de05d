package c05

import (
	"github.com/DanLavine/willow/internal/datastructures/btree"
	"github.com/DanLavine/willow/internal/verif_harness/hx"
	sym "github.com/DanLavine/willow/internal/verif_sym"
	v1 "github.com/DanLavine/willow/pkg/models/api/common/v1"
	dt "github.com/DanLavine/willow/pkg/models/datatypes"
)

var kinds = []int{hx.KUint8, hx.KInt, hx.KString, hx.KAny}

// typeRange picks a type range over types that occur, that lie between them, and 'any'.
func typeRange() v1.TypeRestrictions {
	ts := []dt.DataType{dt.T_uint8, dt.T_uint64, dt.T_int, dt.T_float32, dt.T_string, dt.T_any}
	lo := sym.Choose("min type", len(ts))
	hi := lo + sym.Choose("max type", len(ts)-lo)
	return v1.TypeRestrictions{MinDataType: ts[lo], MaxDataType: ts[hi]}
}

// check runs one lookup without stopping and one that stops.
func check(t btree.BTree, r *hx.Ref, op int, q hx.V, tr v1.TypeRestrictions, stop int) {
	want := func(k hx.V) bool { return sym.And(hx.InRange(k, tr), hx.Want(op, q, k)) }
	got, err, _ := hx.Look(t, op, q.EV, tr, stop)
	sym.Assert(err == nil, "a valid lookup does not fail")
	if stop < 0 {
		sym.Assert(r.Matches(got, want), "calls back once for exactly the keys that match")
		return
	}
	_, _, quiet := hx.Look(t, op, q.EV, tr, stop)
	sym.Assert(quiet, "no calls after asking to stop")
	// the calls made are matching keys, each once, as many as asked for or all there are
	ok := true
	matches := 0
	for i := range r.E {
		w := sym.And(r.E[i].On, want(r.E[i].Key))
		matches += sym.IteInt(w, 1, 0)
		n := 0
		for _, g := range got {
			if g.Item == r.E[i].Item {
				n++
				ok = sym.And(ok, sym.And(w, hx.SameEV(g.Key, r.E[i].Key)))
			}
		}
		if n > 1 {
			ok = false
		}
	}
	sym.Assert(ok, "a stopped lookup calls back only for matching keys, each once")
	sym.Assert(len(got) <= stop, "stops when asked")
	if len(got) < stop {
		sym.Assert(matches == len(got), "a lookup that was not stopped is complete")
	}
}

func lookupKey(op int) hx.V {
	if op == hx.LAny {
		return hx.V{K: hx.KAny, EV: dt.Any()}
	}
	return hx.Of("lookup", kinds[sym.Choose("lookup kind", 3)], 1)
}

// Any three stored keys of the kinds, any lookup, any type range.
func CheckSmall() {
	t, r := hx.NewTree(2), &hx.Ref{}
	n := sym.Bound("keys", 2, 3)
	for i := 0; i < n; i++ {
		k := hx.Of("stored", kinds[sym.Choose("kind", 4)], 1)
		sym.Assume(!r.Has(k))
		hx.Fill(t, r, []hx.V{k})
	}
	op := sym.Choose("lookup", hx.NLookups)
	check(t, r, op, lookupKey(op), typeRange(), -1)
	sym.Reach("small")
}

// Trees of several levels with keys of several types: any lookup key, any type range.
func CheckDeep() {
	t, r := hx.NewTree(2), &hx.Ref{}
	n := []int{9, 6, 12, 15, 20}[sym.Choose("n", sym.Bound("sizes", 2, 5))]
	keys := hx.MixedKeys(n, sym.Choose("order", sym.Bound("orders", 2, 4)), sym.Choose("any", 2) == 1)
	hx.Fill(t, r, keys)
	op := sym.Choose("lookup", hx.NLookups)
	check(t, r, op, lookupKey(op), typeRange(), -1)
	sym.Reach("deep")
}

// Stopping after any number of calls.
func CheckStop() {
	t, r := hx.NewTree(2), &hx.Ref{}
	n := []int{9, 14, 20}[sym.Choose("n", sym.Bound("sizes", 1, 3))]
	keys := hx.MixedKeys(n, sym.Choose("order", sym.Bound("orders", 1, 4)), true)
	hx.Fill(t, r, keys)
	op := sym.Choose("lookup", hx.NLookups)
	tr := hx.FullRange
	if sym.Choose("restricted", 2) == 1 {
		tr = v1.TypeRestrictions{MinDataType: dt.T_int, MaxDataType: dt.T_int}
	}
	check(t, r, op, lookupKey(op), tr, 1+sym.Choose("stop", n))
	sym.Reach("stop")
}

// Lookups after removals, which leave nodes of every shape.
func CheckAfterRemovals() {
	t, r := hx.NewTree(2), &hx.Ref{}
	keys := hx.IntKeys([]int{8, 13}[sym.Choose("n", sym.Bound("sizes", 1, 2))], sym.Choose("order", sym.Bound("orders", 2, 4)))
	hx.Fill(t, r, keys)
	for i, m := 0, sym.Bound("removals", 1, 2); i < m; i++ {
		k := hx.IntKey(sym.Int("gone"))
		sym.Assume(r.Has(k))
		if err := t.Delete(k.EV, nil); err != nil {
			panic(err)
		}
		r.Del(k)
	}
	op := sym.Choose("lookup", hx.NLookups)
	q := hx.V{K: hx.KAny, EV: dt.Any()}
	if op != hx.LAny {
		q = hx.IntKey(sym.Int("lookup"))
	}
	tr := hx.FullRange
	if sym.Choose("restricted", 2) == 1 {
		tr = v1.TypeRestrictions{MinDataType: dt.T_int, MaxDataType: dt.T_int}
	}
	check(t, r, op, q, tr, -1)
	sym.Reach("after removals")
}
