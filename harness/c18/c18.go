package c18

import (
	"github.com/DanLavine/willow/internal/verif_harness/hx"
	"github.com/DanLavine/willow/internal/verif_harness/hxl"
	sym "github.com/DanLavine/willow/internal/verif_sym"
)

// try increments once and compares the answer with the reference.
func try(l *hxl.Limiter, kv hx.KV) {
	room := l.Room(kv)
	err := l.Inc(&hxl.Granting{}, kv, 1)
	if err == nil {
		sym.Assert(room, "an increment is accepted only when every limit has room")
	} else {
		sym.Assert(!room, "an increment that violates no limit is accepted")
	}
}

func limit(name string) int { return sym.IntRange(name, -1, 3) }

// One rule over any keys, stored counters with overlapping keys.
func CheckRule() {
	l := hxl.New()
	l.AddRule(hx.MakeKV("rule", 1+sym.Choose("rule keys", 3), hx.KInt, hx.KAny), limit("limit"))
	kv := hx.MakeKV("increment", 1+sym.Choose("increment keys", 3), hx.KInt)
	if sym.Bound("any increment", 0, 1) == 0 {
		sym.Assume(l.R[0].Applies(kv))
	}
	for i, n := 0, 2; i < n; i++ {
		l.Set(hx.MakeKV("counter", 1+sym.Choose("counter keys", 3), hx.KInt), sym.IntRange("count", 0, 3))
	}
	try(l, kv)
	sym.Reach("one rule")
}

// Two rules with overlapping keys.
func CheckTwoRules() {
	l := hxl.New()
	l.AddRule(hx.MakeKV("rule", 1, hx.KInt, hx.KAny), limit("limit"))
	kv := hx.MakeKV("rule", 1+sym.Choose("rule keys", 3), hx.KInt, hx.KAny)
	sym.Assume(!hx.SameKV(l.R[0].KV, kv))
	l.AddRule(kv, limit("limit"))
	l.Set(hx.MakeKV("counter", 1+2*sym.Choose("counter keys", 2), hx.KInt), sym.IntRange("count", 0, 3))
	try(l, hx.MakeKV("increment", 1+2*sym.Choose("increment keys", 2), hx.KInt))
	sym.Reach("two rules")
}

// A rule with overrides.
func CheckOverrides() {
	l := hxl.New()
	r := l.AddRule(hx.MakeKV("rule", 1, hx.KAny), limit("limit"))
	kv := hx.MakeKV("increment", 3, hx.KInt)
	for i, n := 0, sym.Bound("overrides", 2, 3); i < n; i++ {
		o := hx.MakeKV("override", 1+2*sym.Choose("override keys", 2), hx.KInt, hx.KAny)
		for _, p := range r.Over {
			sym.Assume(!hx.SameKV(o, p.KV))
		}
		l.AddOverride(r, o, limit("limit"))
	}
	c := hx.MakeKV("counter", 1+2*sym.Choose("counter keys", 2), hx.KInt)
	sym.Assume(hx.Same(c.Val[0], kv.Val[0]))
	l.Set(c, sym.IntRange("count", 0, 3))
	try(l, kv)
	sym.Reach("overrides")
}

// Two rules, each with an override, limits of any sign, no stored counters: a limit of 0 refuses and -1 never does.
func CheckZero() {
	l := hxl.New()
	kv := hx.KV{Mask: 3}
	kv.Val[0], kv.Val[1] = hx.IntKey(1), hx.IntKey(2)
	for i := 0; i < 2; i++ {
		m := hx.KV{Mask: i + 1, Val: kv.Val}
		r := l.AddRule(m, limit("limit"))
		for j, n := 0, sym.Bound("overrides each", 1, 2); j < n; j++ {
			o := hx.KV{Mask: 3, Val: kv.Val}
			if j == 1 {
				o = m
			}
			l.AddOverride(r, o, limit("limit"))
		}
	}
	try(l, kv)
	sym.Reach("zero limits")
}

// Values of different types are different values, however they are written.
func CheckTypes() {
	l := hxl.New()
	l.AddRule(hx.MakeKV("rule", 1, hx.KInt, hx.KString, hx.KUint8, hx.KAny), limit("limit"))
	l.Set(hx.MakeKV("counter", 1, hx.KInt, hx.KString, hx.KUint8), sym.IntRange("count", 0, 3))
	l.Set(hx.MakeKV("counter", 3, hx.KInt, hx.KString, hx.KUint8), sym.IntRange("count", 0, 3))
	try(l, hx.MakeKV("increment", 1, hx.KInt, hx.KString, hx.KUint8))
	sym.Reach("types")
}

// Accepted and refused increments one after the other.
func CheckHistory() {
	l := hxl.New()
	l.AddRule(hx.MakeKV("rule", 1, hx.KAny), limit("limit"))
	l.AddRule(hx.MakeKV("rule", 2, hx.KAny), limit("limit"))
	for i, n := 0, sym.Bound("increments", 3, 4); i < n; i++ {
		kv := hx.KV{Mask: 1 + sym.Choose("keys", 3)}
		kv.Val[0], kv.Val[1] = hx.IntKey(sym.Choose("a", 2)), hx.IntKey(7)
		room := l.Room(kv)
		sym.Assert(l.IncOK(&hxl.Granting{}, kv, 1) == room, "each increment is accepted exactly when no limit refuses it")
	}
	sym.Reach("history")
}
