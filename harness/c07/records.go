package c07

import (
	ba "github.com/DanLavine/willow/internal/datastructures/btree_associated"
	"github.com/DanLavine/willow/internal/verif_harness/hx"
	sym "github.com/DanLavine/willow/internal/verif_sym"
	v1 "github.com/DanLavine/willow/pkg/models/api/common/v1"
)

func yes(ba.AssociatedKeyValues) bool { return true }

func rec(vals ...int) hx.KV {
	k := hx.KV{}
	for i, v := range vals {
		if v != 0 {
			k.Mask |= 1 << i
			k.Val[i] = hx.IntKey(v)
		}
	}
	return k
}

func fullTR(int) v1.TypeRestrictions { return hx.FullRange }

// recordCall makes one call of any kind on a record index that holds a=1 (ids[0]) and a=1,b=1 (ids[1]).
func recordCall(t ba.BTreeAssociated, ids []string) {
	k := []hx.KV{rec(1), rec(1, 1), rec(0, 1)}[sym.Choose("set", 3)]
	switch sym.Choose("call", 9) {
	case 0:
		_, _ = t.Create(k.Map(), func() any { return 1 })
	case 1:
		_, _ = t.CreateOrFind(k.Map(), func() any { return 1 }, func(ba.AssociatedKeyValues) {})
	case 2:
		_ = t.Delete(k.Map(), yes)
	case 3:
		_ = t.DeleteByAssociatedID(ids[sym.Choose("id", len(ids))], yes)
	case 4:
		_ = t.DestroyByAssociatedID(ids[sym.Choose("id", len(ids))], yes)
	case 5:
		_, _ = hx.Query(t, (&hx.Q{Sel: &hx.Sel{Cmps: []hx.Cmp{{Key: 0, Op: v1.Equals, V: hx.IntKey(1), TR: hx.FullRange}}}}).Model())
	case 6:
		_, _ = hx.Match(t, hx.MatchQuery(k, fullTR, nil, nil))
	case 7:
		_ = t.DestroyTree(yes)
	case 8:
		_, _ = t.Create(k.Map(), func() any { return nil })
	}
}

// Two calls of any kind at the same time on a record index: both return, and so do later calls.
func CheckRecordsTogether() {
	sym.Preemptions(1)
	t := ba.NewThreadSafe()
	var ids []string
	for _, k := range []hx.KV{rec(1), rec(1, 1)} {
		id, err := t.Create(k.Map(), func() any { return 1 })
		if err != nil {
			panic(err)
		}
		ids = append(ids, id)
	}
	done := make(chan bool, 2)
	for i := 0; i < 2; i++ {
		go func() {
			recordCall(t, ids)
			done <- true
		}()
	}
	<-done
	<-done
	for _, k := range []hx.KV{rec(1), rec(1, 1), rec(0, 1)} {
		_ = t.Delete(k.Map(), yes)
		_, err := t.Create(k.Map(), func() any { return 1 })
		sym.Assert(err == nil, "a later create completes")
	}
	sym.Reach("records together")
}
