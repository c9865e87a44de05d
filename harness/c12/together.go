package c12

import (
	ba "github.com/DanLavine/willow/internal/datastructures/btree_associated"
	"github.com/DanLavine/willow/internal/verif_harness/hx"
	sym "github.com/DanLavine/willow/internal/verif_sym"
)

// A removal by id at the same time as the record is removed and its set created again: only the record with that id goes.
func CheckRecreated() {
	sym.Preemptions(sym.Bound("preemptions", 1, 2))
	x := newIndex()
	one := hx.IntKey(1)
	x.add(hx.KV{Mask: 3, Val: [4]hx.V{one, one}})
	x.add(hx.KV{Mask: 1, Val: [4]hx.V{one}})
	old := x.r.R[0]
	destroy := sym.Choose("destroy", 2) == 1
	n, wrong := 0, 0
	done := make(chan bool)
	go func() {
		cb := func(a ba.AssociatedKeyValues) bool {
			n++
			if a.AssociatedID() != old.ID || a.Value().(int) != old.Item {
				wrong++
			}
			return true
		}
		if destroy {
			_ = x.t.DestroyByAssociatedID(old.ID, cb)
		} else {
			_ = x.t.DeleteByAssociatedID(old.ID, cb)
		}
		done <- true
	}()
	m := 0
	_ = x.t.Delete(old.KV.Map(), func(a ba.AssociatedKeyValues) bool { m++; return true })
	id, err := x.t.Create(old.KV.Map(), func() any { return 9 })
	<-done
	sym.Assert(wrong == 0, "the removal callback sees exactly the record being removed")
	sym.Assert(n+m >= 1 && n <= 1 && m <= 1, "the record is removed once")
	if n+m == 1 && err == nil {
		x.r.DelID(old.ID)
		x.r.Put(old.KV, 9, id, true)
		x.listed()
	}
	sym.Reach("recreated")
}

// Two removals of the same record by any means: exactly one removes it, the other records stay.
func CheckTwice() {
	sym.Preemptions(sym.Bound("preemptions", 1, 2))
	x := newIndex()
	one := hx.IntKey(1)
	x.add(hx.KV{Mask: 3, Val: [4]hx.V{one, one}})
	x.add(hx.KV{Mask: 1, Val: [4]hx.V{one}})
	old := x.r.R[0]
	n := 0
	errs := 0
	done := make(chan bool, 2)
	for i := 0; i < 2; i++ {
		go func() {
			cb := func(a ba.AssociatedKeyValues) bool { n++; return true }
			var err error
			switch sym.Choose("how", 3) {
			case 0:
				err = x.t.Delete(old.KV.Map(), cb)
			case 1:
				err = x.t.DeleteByAssociatedID(old.ID, cb)
			case 2:
				err = x.t.DestroyByAssociatedID(old.ID, cb)
			}
			if err != nil {
				errs++
				sym.Assert(err == ba.ErrorTreeItemDestroying, "a removal that finds the record being destroyed says so")
			}
			done <- true
		}()
	}
	<-done
	<-done
	sym.Assert(n == 1 && errs <= 1, "the record is removed once")
	x.r.DelID(old.ID)
	x.everyLookup()
	x.again(old.KV)
	x.listed()
	sym.Reach("twice")
}
