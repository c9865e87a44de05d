package c20

import (
	"github.com/DanLavine/willow/internal/verif_harness/hx"
	"github.com/DanLavine/willow/internal/verif_harness/hxl"
	sym "github.com/DanLavine/willow/internal/verif_sym"
	v1 "github.com/DanLavine/willow/pkg/models/api/common/v1"
	lim "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
)

func limit() int { return sym.IntRange("limit", -1, 2) }

func fresh(name string, gs []*hxl.Group, mask int, kinds ...int) hx.KV {
	kv := hx.MakeKV(name, mask, kinds...)
	for _, g := range gs {
		sym.Assume(!hx.SameKV(g.KV, kv))
	}
	return kv
}

// Rules over two keys with wildcards.
func CheckRules() {
	l := hxl.New()
	for i, n := 0, sym.Bound("rules", 3, 4); i < n; i++ {
		l.AddRule(fresh("rule", l.R, []int{1, 3, 2, 3}[i], hx.KInt, hx.KAny), limit())
	}
	l.Limits(hx.MakeKV("looked up", 1+sym.Choose("keys", 3), hx.KInt))
	sym.Reach("rules")
}

// Overrides of a rule, with wildcards and further keys.
func CheckOverrides() {
	l := hxl.New()
	r := l.AddRule(hx.MakeKV("rule", 1, hx.KAny), limit())
	q := l.AddRule(hx.MakeKV("rule", 2, hx.KAny), limit())
	for i, n := 0, sym.Bound("overrides", 2, 3); i < n; i++ {
		l.AddOverride(r, fresh("override", r.Over, 1+2*sym.Choose("override keys", 2), hx.KInt, hx.KAny), limit())
	}
	kv := hx.MakeKV("looked up", 3, hx.KInt)
	if sym.Bound("every value", 0, 1) == 0 {
		kv.Val[1] = hx.IntKey(4)
	}
	l.AddOverride(q, hx.KV{Mask: 3, Val: kv.Val}, limit())
	l.Limits(kv)
	sym.Reach("overrides")
}

// Values of every type.
func CheckTypes() {
	l := hxl.New()
	kinds := []int{hx.KInt, hx.KString, hx.KUint8, hx.KFloat64, hx.KAny}
	r := l.AddRule(hx.MakeKV("rule", 1, kinds...), limit())
	l.AddOverride(r, hx.MakeKV("override", 1, kinds...), limit())
	l.Limits(hx.MakeKV("looked up", 1, kinds[:4]...))
	sym.Reach("types")
}

// Updates and deletions show in the next lookup.
func CheckChanges() {
	l := hxl.New()
	for i := 0; i < 2; i++ {
		r := l.AddRule(hx.MakeKV("rule", i+1, hx.KAny), limit())
		for j := 0; j < 2; j++ {
			kv := hx.KV{Mask: i + 1 + 4*j}
			kv.Val[0], kv.Val[1], kv.Val[2] = hx.IntKey(1), hx.IntKey(2), hx.IntKey(3)
			l.AddOverride(r, kv, limit())
		}
	}
	kv := hx.KV{Mask: 7}
	kv.Val[0], kv.Val[1], kv.Val[2] = hx.IntKey(1), hx.IntKey(2), hx.IntKey(3)
	for i, n := 0, sym.Bound("changes", 2, 3); i < n; i++ {
		r := l.R[sym.Choose("rule", 2)]
		if !r.On {
			continue
		}
		o := r.Over[sym.Choose("override", 2)]
		switch sym.Choose("change", 4) {
		case 0:
			r.Limit = limit()
			sym.Assert(l.Rules.UpdateRule(l.Ctx, r.ID, hxl.Limit(r.Limit)) == nil, "an existing rule is updated")
		case 1:
			sym.Assert(l.Rules.DeleteRule(l.Ctx, r.ID) == nil, "an existing rule is deleted")
			r.On = false
		case 2:
			if o.On {
				o.Limit = limit()
				sym.Assert(l.Rules.UpdateOverride(l.Ctx, r.ID, o.ID, hxl.OverLimit(o.Limit)) == nil, "an existing override is updated")
			}
		case 3:
			if o.On {
				sym.Assert(l.Rules.DeleteOverride(l.Ctx, r.ID, o.ID) == nil, "an existing override is deleted")
				o.On = false
			}
		}
		l.Limits(kv)
	}
	sym.Reach("changes")
}

func full(int) v1.TypeRestrictions { return hx.FullRange }

// Listing the rules and overrides contained in key-values, whatever their limits.
func CheckMatch() {
	l := hxl.New()
	for i := 0; i < 2; i++ {
		l.AddRule(fresh("rule", l.R, []int{1, 3}[i], hx.KInt, hx.KAny), limit())
	}
	r := l.R[0]
	l.AddOverride(r, fresh("override", r.Over, 1, hx.KInt, hx.KAny), limit())
	l.AddOverride(r, fresh("override", r.Over, 3, hx.KInt), limit())
	kv := hx.MakeKV("looked up", 1+2*sym.Choose("keys", 2), hx.KInt)
	q := hx.MatchQuery(kv, full, nil, nil)
	want := func(g *hxl.Group) bool { return g.Applies(kv) }
	rules, err := l.Rules.MatchRules(l.Ctx, q)
	sym.Assert(err == nil, "matching rules does not fail")
	sym.Assert(l.SameRules(rules, want, func(a *lim.Rule, g *hxl.Group) bool { return len(a.State.Overrides) == 0 }, true), "exactly the contained rules are listed")
	over, err := l.Rules.MatchOverrides(l.Ctx, r.ID, q)
	sym.Assert(err == nil, "matching overrides does not fail")
	sym.Assert(hxl.SameOvers(over, r.Over, want), "exactly the rule's contained overrides are listed")
	sym.Reach("match")
}
