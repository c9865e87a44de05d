package c19

import (
	"github.com/DanLavine/willow/internal/verif_harness/hx"
	"github.com/DanLavine/willow/internal/verif_harness/hxl"
	sym "github.com/DanLavine/willow/internal/verif_sym"
)

// step is any one operation on kv; increments are accepted unless a rule refuses.
func step(l *hxl.Limiter, kv hx.KV) {
	switch sym.Choose("operation", 3) {
	case 0:
		l.IncOK(&hxl.Granting{}, kv, sym.IntRange("by", 1, 5))
	case 1:
		l.Dec(kv, sym.IntRange("by", 0, 5))
	case 2:
		l.Set(kv, sym.IntRange("to", -2, 5))
	}
	sym.Assert(l.Exact(), "every stored counter is the sum of its accepted changes, and no other counter changed")
}

// Any operations on any key-value sets over two keys.
func CheckHistory() {
	l := hxl.New()
	for i, n := 0, sym.Bound("operations", 3, 4); i < n; i++ {
		kv := hx.KV{Mask: 1 + 2*sym.Choose("keys", 2)}
		kv.Val[0] = hx.Of("a", hx.KInt, 1)
		kv.Val[1] = hx.IntKey(7)
		step(l, kv)
	}
	sym.Reach("history")
}

// Operations on existing counters whose key-values overlap, with a rule that may refuse.
func CheckOverlap() {
	l := hxl.New()
	l.AddRule(hx.MakeKV("rule", 1, hx.KAny), sym.IntRange("limit", -1, 6))
	sets := make([]hx.KV, 4)
	for i, m := range []int{1, 3, 1, 2} {
		sets[i].Mask = m
		sets[i].Val[0], sets[i].Val[1] = hx.IntKey(i/2), hx.IntKey(i/2)
	}
	for _, s := range sets[:3] {
		l.Set(s, sym.IntRange("from", 1, 4))
	}
	for i, n := 0, sym.Bound("operations", 2, 3); i < n; i++ {
		step(l, sets[sym.Choose("set", len(sets))])
	}
	sym.Reach("overlap")
}

// Counters under values of different types are different counters.
func CheckTypes() {
	l := hxl.New()
	a, b := hx.MakeKV("a", 1, hx.KInt, hx.KString, hx.KInt64, hx.KFloat64), hx.MakeKV("b", 1, hx.KInt, hx.KString, hx.KInt64, hx.KFloat64)
	l.Set(a, 3)
	step(l, b)
	sym.Reach("types")
}

// A counter does not follow what its caller does with the request afterwards.
func CheckOwnCopy() {
	l := hxl.New()
	kv := hx.MakeKV("k", 1, hx.KInt)
	r := hxl.CounterModel(kv, sym.IntRange("first", 1, 5))
	want := int(*r.Spec.Properties.Counters)
	ok := false
	switch sym.Choose("how", 3) {
	case 0:
		ok = l.Counters.IncrementCounters(l.Ctx, &hxl.Granting{}, r) == nil
	case 1:
		ok = l.Counters.SetCounter(l.Ctx, r) == nil
	case 2:
		l.Set(kv, 7)
		ok = l.Counters.SetCounter(l.Ctx, r) == nil
	}
	sym.Assert(ok, "accepted without rules")
	*r.Spec.Properties.Counters = 40
	got := l.Stored()
	sym.Assert(len(got) == 1 && int(*got[0].Spec.Properties.Counters) == want, "the stored counter is the accepted value")
	*got[0].Spec.Properties.Counters = 50
	got = l.Stored()
	sym.Assert(len(got) == 1 && int(*got[0].Spec.Properties.Counters) == want, "the stored counter is not changed through an answer")
	sym.Reach("own copy")
}

// Two callers at once, no rules: the outcome is that of one order of the two.
//
//verif:devs=2
func CheckTogether() {
	l := hxl.New()
	k, o := hx.KV{Mask: 1}, hx.KV{Mask: 3}
	k.Val[0], o.Val[0], o.Val[1] = hx.IntKey(1), hx.IntKey(1), hx.IntKey(2)
	from := sym.IntRange("from", 0, 3)
	if sym.Choose("present", 2) == 1 {
		l.Set(k, from)
	}
	other := sym.IntRange("other", 1, 3)
	l.Set(o, other)
	type op struct{ what, n int }
	ops := []op{{sym.Choose("first", 3), 0}, {sym.Choose("second", 3), 0}}
	sym.Assume(ops[0].what <= ops[1].what)
	for i := range ops {
		ops[i].n = sym.IntRange("by", 1, 3)
	}
	start := l.Value(k)
	done := make(chan bool, 2)
	for i := range ops {
		x := ops[i]
		go func() {
			ok := true
			switch x.what {
			case 0:
				ok = l.Inc(&hxl.Granting{}, k, x.n) == nil
			case 1:
				ok = l.Counters.DecrementCounters(l.Ctx, hxl.CounterModel(k, -x.n)) == nil
			case 2:
				ok = l.Counters.SetCounter(l.Ctx, hxl.CounterModel(k, x.n)) == nil
			}
			done <- ok
		}()
	}
	sym.Assert(<-done, "the first call succeeds")
	sym.Assert(<-done, "the second call succeeds")
	run := func(v int, x op) int {
		switch x.what {
		case 0:
			return v + x.n
		case 1:
			return sym.IteInt(v-x.n > 0, v-x.n, 0)
		}
		return x.n
	}
	got, gotO, n := 0, 0, 0
	for _, c := range l.Stored() {
		if len(c.Spec.DBDefinition.KeyValues) == 2 {
			gotO = int(*c.Spec.Properties.Counters)
		} else {
			got = int(*c.Spec.Properties.Counters)
			sym.Assert(got > 0, "no counter is kept at zero")
		}
		n++
	}
	sym.Assert(gotO == other, "the other counter is unchanged")
	sym.Assert(n <= 2, "no counter is listed twice")
	sym.Assert(sym.Or(got == run(run(start, ops[0]), ops[1]), got == run(run(start, ops[1]), ops[0])), "the counter is that of one order of the calls")
	sym.Reach("together")
}
