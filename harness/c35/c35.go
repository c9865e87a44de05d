package c35

import (
	"context"

	"github.com/DanLavine/willow/internal/verif_harness/hx"
	"github.com/DanLavine/willow/internal/verif_harness/hxl"
	sym "github.com/DanLavine/willow/internal/verif_sym"
	dt "github.com/DanLavine/willow/pkg/models/datatypes"
)

func set(mask int, vals ...int) hx.KV {
	kv := hx.KV{Mask: mask}
	for i, v := range vals {
		kv.Val[i] = hx.IntKey(v)
	}
	return kv
}

// together runs one increment per key-value set at once and checks the limit of the first rule (on one key) afterwards.
func together(l *hxl.Limiter, kvs ...hx.KV) {
	s := hxl.NewService(kvs...)
	done := make(chan bool, len(kvs))
	before := l.Total(kvs[0], l.R[0].KV.Mask)
	for _, kv := range kvs {
		kv := kv
		go func() { done <- l.Inc(s, kv, 1) == nil }()
	}
	n := 0
	for range kvs {
		if <-done {
			n++
		}
	}
	sym.Assert(s.Free(), "every lock is released")
	key := hx.KeyNames[l.R[0].KV.Mask/2]
	total, first := 0, kvs[0].Map()[key]
	for _, c := range l.Stored() {
		if v, ok := c.Spec.DBDefinition.KeyValues[key]; ok && v == first {
			total += int(*c.Spec.Properties.Counters)
		}
	}
	lim := l.R[0].Limit
	sym.Assert(total == before+n, "the accepted increments are counted")
	sym.Assert(sym.Or(lim == -1, sym.Or(total <= lim, n == 0)), "the accepted increments together do not exceed the limit")
	sym.Assert(sym.Or(n == len(kvs), sym.And(lim != -1, total >= lim)), "no increment is refused while there is room")
}

// The same key-values twice.
func CheckSame() {
	l := hxl.New()
	l.AddRule(hx.KV{Mask: 1, Val: [4]hx.V{hx.MakeKV("", 1, hx.KAny).Val[0]}}, sym.IntRange("limit", -1, 4))
	kv := set(1, 1)
	l.Set(kv, sym.IntRange("from", 0, 3))
	sym.Preemptions(sym.Bound("deviations", 2, 3))
	together(l, kv, kv)
	sym.Reach("same")
}

// Overlapping key-values: both name the rule's key with the same value, and one or two further keys.
func CheckOverlap() {
	l := hxl.New()
	l.AddRule(hx.KV{Mask: 1, Val: [4]hx.V{hx.MakeKV("", 1, hx.KAny).Val[0]}}, sym.IntRange("limit", 0, 2))
	sym.Preemptions(sym.Bound("deviations", 2, 3))
	together(l, set(1, 1), set(3, 1, 2))
	sym.Reach("overlap")
}

// The caller of one increment goes away while it waits for a lock: it returns, and the other is unaffected.
func CheckCancelled() {
	l := hxl.New()
	l.AddRule(hx.KV{Mask: 1, Val: [4]hx.V{hx.MakeKV("", 1, hx.KAny).Val[0]}}, 2)
	kv := set(1+2*sym.Choose("keys", 2), 1, 2)
	s := hxl.NewService(kv)
	ctx, cancel := context.WithCancel(l.Ctx)
	// someone else holds one of the locks
	other, _ := s.ObtainLock(l.Ctx, hxl.LockOf(set(1, 1)), nil)
	done := make(chan bool, 1)
	go func() { done <- l.Counters.IncrementCounters(ctx, s, hxl.CounterModel(kv, 1)) == nil }()
	sym.Quiesce()
	cancel()
	ok := <-done
	sym.Assert(!ok && len(l.Stored()) == 0, "the cancelled increment is refused and changes nothing")
	other.Release(l.Ctx)
	sym.Assert(s.Free(), "every lock is released")
	sym.Assert(l.Inc(s, kv, 1) == nil, "a later increment is accepted")
	sym.Reach("cancelled")
}

// Two increments that share two keys given in opposite order, with rules on either key: neither waits forever for the
// other.
func CheckCross() {
	l := hxl.New()
	any := hx.MakeKV("", 3, hx.KAny)
	l.AddRule(hx.KV{Mask: 1, Val: any.Val}, sym.IntRange("limit", 0, 2))
	l.AddRule(hx.KV{Mask: 2, Val: any.Val}, 5)
	sym.Preemptions(sym.Bound("deviations", 1, 2))
	kvs := []hx.KV{set(3, 1, 2), set(7, 1, 2, 3)}
	s := hxl.NewService(kvs...)
	done := make(chan bool, 2)
	for i, kv := range kvs {
		c := hxl.CounterModel(kv, 1)
		if i == 1 {
			back := dt.KeyValues{}
			for k := 2; k >= 0; k-- {
				back[hx.KeyNames[k]] = kv.Val[k].EV
			}
			c.Spec.DBDefinition.KeyValues = dt.TypedKeyValues(back)
		}
		go func() { done <- l.Counters.IncrementCounters(l.Ctx, s, c) == nil }()
	}
	n := 0
	for range kvs {
		if <-done {
			n++
		}
	}
	lim := l.R[0].Limit
	sym.Assert(s.Free(), "every lock is released")
	sym.Assert(n == lim && len(l.Stored()) == n, "exactly as many increments are accepted as there is room for")
	sym.Reach("cross")
}

// A limit on an override of the rule.
func CheckOverride() {
	l := hxl.New()
	r := l.AddRule(hx.KV{Mask: 1, Val: [4]hx.V{hx.MakeKV("", 1, hx.KAny).Val[0]}}, 1)
	r.Limit = sym.IntRange("limit", 0, 2) // of the override, which replaces the rule's
	l.AddOverride(r, set(1, 1), r.Limit)
	sym.Preemptions(sym.Bound("deviations", 2, 3))
	together(l, set(3, 1, 2), set(3, 1, 3))
	sym.Reach("override")
}

// Three increments of the same key-values.
func CheckThree() {
	l := hxl.New()
	l.AddRule(hx.KV{Mask: 1, Val: [4]hx.V{hx.MakeKV("", 1, hx.KAny).Val[0]}}, sym.IntRange("limit", 1, 3))
	sym.Preemptions(sym.Bound("deviations", 1, 2))
	together(l, set(1, 1), set(1, 1), set(3, 1, 2))
	sym.Reach("three")
}

// A rule on a key that does not come first.
func CheckSecondKey() {
	l := hxl.New()
	any := hx.MakeKV("", 2, hx.KAny)
	l.AddRule(any, sym.IntRange("limit", 0, 2))
	sym.Preemptions(sym.Bound("deviations", 1, 2))
	together(l, set(3, 1, 2), set(3, 3, 2))
	sym.Reach("second key")
}

// CheckLockFails: an increment that cannot obtain its locks, or loses one while it obtains the others, is refused,
// counts nothing and keeps no lock.
func CheckLockFails() {
	l := hxl.New()
	l.AddRule(hx.KV{Mask: 1, Val: [4]hx.V{hx.MakeKV("", 1, hx.KAny).Val[0]}}, 3)
	kv := set(7, 1, 2, 3)
	l.Set(kv, sym.IntRange("from", 0, 4))
	before := l.Total(kv, 1)
	s := &hxl.Failing{}
	err := l.Inc(s, kv, 1)
	after := before
	if err == nil {
		after++
	}
	sym.Assert(err != nil || !s.Failed, "an increment without all of its locks is refused")
	sym.Assert(sym.Or(err == nil, sym.Or(s.Failed, before >= 3)), "no increment is refused while there is room")
	total := 0
	for _, c := range l.Stored() {
		total += int(*c.Spec.Properties.Counters)
	}
	sym.Assert(total == after, "the accepted increments are counted")
	sym.Assert(s.Released == s.Granted, "every lock is released")
	sym.Reach("lock fails")
}
