package c11

import (
	ba "github.com/DanLavine/willow/internal/datastructures/btree_associated"
	"github.com/DanLavine/willow/internal/verif_harness/hx"
	sym "github.com/DanLavine/willow/internal/verif_sym"
)

// While one record is removed or destroyed at the same time, a match still finds all the others.
func CheckWhileRemoving() {
	sym.Preemptions(sym.Bound("preemptions", 1, 2))
	t, r := ba.NewThreadSafe(), &hx.Recs{}
	var ids []string
	for mask := 1; mask < 4; mask++ {
		k := hx.KV{Mask: mask}
		k.Val[0], k.Val[1] = hx.IntKey(1), hx.IntKey(1)
		ids = append(ids, r.Add(t, k))
	}
	gone := sym.Choose("removed", 3)
	how := sym.Choose("how", 2)
	done := make(chan bool)
	go func() {
		keep := how == 2
		switch {
		case how == 0:
			_ = t.DestroyByAssociatedID(ids[gone], func(ba.AssociatedKeyValues) bool { return !keep })
		default:
			_ = t.DeleteByAssociatedID(ids[gone], nil)
		}
		done <- true
	}()
	given := hx.KV{Mask: 3}
	given.Val[0], given.Val[1] = hx.IntKey(1), hx.IntKey(1)
	got, err := hx.Match(t, hx.MatchQuery(given, full, nil, nil))
	<-done
	sym.Assert(err == nil, "a valid match does not fail")
	n := make([]int, 3)
	for _, g := range got {
		n[g.Item-1]++
	}
	for i := range n {
		sym.Assert(n[i] == 1 || (i == gone && n[i] == 0), "every record that stays is called back once")
	}
	sym.Reach("while removing")
}
