package c21

import (
	"net/http"

	"github.com/DanLavine/willow/internal/verif_harness/hx"
	"github.com/DanLavine/willow/internal/verif_harness/hxl"
	sym "github.com/DanLavine/willow/internal/verif_sym"
	"github.com/DanLavine/willow/pkg/models/api/common/errors"
	qa "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	lim "github.com/DanLavine/willow/pkg/models/api/limiter/v1"
)

func limit() int { return sym.IntRange("limit", -1, 50) }

func any(*hxl.Group) bool { return true }

func refused(e *errors.ServerError, code int) bool { return e != nil && e.StatusCode == code }

// intact reads everything back.
func intact(l *hxl.Limiter) {
	all := &qa.AssociatedActionQuery{}
	got, err := l.Rules.QueryRules(l.Ctx, all)
	sym.Assert(err == nil, "listing rules does not fail")
	sym.Assert(l.SameRules(got, any, func(a *lim.Rule, g *hxl.Group) bool { return len(a.State.Overrides) == 0 }, true), "the stored rules are those created and not deleted, with their limits")
	for _, r := range l.R {
		a, err := l.Rules.GetRule(l.Ctx, r.ID)
		if r.On {
			sym.Assert(err == nil && l.SameRules(lim.Rules{a}, func(g *hxl.Group) bool { return g == r }, func(*lim.Rule, *hxl.Group) bool { return true }, true), "a rule reads back")
		} else {
			sym.Assert(refused(err, http.StatusNotFound), "a deleted rule is not found")
		}
		o, err := l.Rules.QueryOverrides(l.Ctx, r.ID, all)
		if r.On {
			sym.Assert(err == nil && hxl.SameOvers(o, r.Over, any), "the rule's overrides are those created and not deleted, with their limits")
		} else {
			sym.Assert(refused(err, http.StatusNotFound), "the overrides of a deleted rule are not found")
		}
		for _, v := range r.Over {
			b, err := l.Rules.GetOverride(l.Ctx, r.ID, v.ID)
			if r.On && v.On {
				sym.Assert(err == nil && hxl.SameOvers(lim.Overrides{b}, []*hxl.Group{v}, any), "an override reads back")
			} else {
				sym.Assert(refused(err, http.StatusNotFound), "a deleted override is not found")
			}
		}
	}
}

// createRule creates a rule unless one with these key-values exists.
func createRule(l *hxl.Limiter, kv hx.KV, n int) {
	dup := false
	for _, r := range l.R {
		dup = sym.Or(dup, sym.And(r.On, hx.SameKV(r.KV, kv)))
	}
	id, err := l.Rules.CreateRule(l.Ctx, hxl.RuleModel(kv, n))
	if err == nil {
		sym.Assert(!dup, "a duplicate rule is refused")
		for _, r := range l.R {
			sym.Assert(r.ID != id, "every rule has its own name")
		}
		l.R = append(l.R, &hxl.Group{KV: kv, Limit: n, ID: id, On: true})
	} else {
		sym.Assert(sym.And(dup, err.StatusCode == http.StatusConflict), "only a duplicate rule is refused, with a conflict")
	}
}

// createOverride creates an override unless it is a duplicate or misses a key of the rule.
func createOverride(l *hxl.Limiter, r *hxl.Group, kv hx.KV, n int) {
	dup := false
	for _, o := range r.Over {
		dup = sym.Or(dup, sym.And(o.On, hx.SameKV(o.KV, kv)))
	}
	id, err := l.Rules.CreateOverride(l.Ctx, r.ID, hxl.OverrideModel(kv, n))
	switch {
	case !r.On:
		sym.Assert(refused(err, http.StatusNotFound), "an override of an unknown rule is refused as not found")
	case r.KV.Mask&^kv.Mask != 0:
		sym.Assert(refused(err, http.StatusBadRequest), "an override must name all the keys of its rule")
	case err == nil:
		sym.Assert(!dup, "a duplicate override is refused")
		for _, o := range r.Over {
			sym.Assert(o.ID != id, "every override of a rule has its own name")
		}
		r.Over = append(r.Over, &hxl.Group{KV: kv, Limit: n, ID: id, On: true})
	default:
		sym.Assert(sym.And(dup, err.StatusCode == http.StatusConflict), "only a duplicate override is refused, with a conflict")
	}
}

// Creating rules over any keys: duplicates, wildcards.
func CheckRules() {
	l := hxl.New()
	for i, n := 0, sym.Bound("rules", 3, 4); i < n; i++ {
		createRule(l, hx.MakeKV("rule", 1+2*sym.Choose("keys", 2), hx.KInt, hx.KAny), limit())
	}
	intact(l)
	sym.Reach("rules")
}

// Creating overrides over any keys.
func CheckOverrides() {
	l := hxl.New()
	kv := hx.KV{Mask: 1 + 2*sym.Choose("rule keys", 2)}
	kv.Val[0], kv.Val[1] = hx.IntKey(1), hx.Of("any", hx.KAny, 1)
	r := l.AddRule(kv, limit())
	for i, n := 0, sym.Bound("overrides", 2, 3); i < n; i++ {
		createOverride(l, r, hx.MakeKV("override", 1+sym.Choose("keys", 7), hx.KInt), limit())
	}
	intact(l)
	sym.Reach("overrides")
}

// Any operations on two rules and their overrides, existing, deleted or never created.
func CheckHistory() {
	l := hxl.New()
	set := func(mask, n int) hx.KV {
		kv := hx.KV{Mask: mask}
		for i := range kv.Val {
			kv.Val[i] = hx.IntKey(n)
		}
		return kv
	}
	for i := 0; i < 2; i++ {
		r := l.AddRule(set(1, i), limit())
		for j := 0; j < 2; j++ {
			l.AddOverride(r, set(1+2*j, i), limit())
		}
	}
	other := &hxl.Group{ID: "never created", KV: set(1, 9)}
	none := &hxl.Group{ID: "never created"}
	for i, n := 0, sym.Bound("operations", 2, 3); i < n; i++ {
		r := other
		if x := sym.Choose("rule", 3); x < 2 {
			r = l.R[x]
		}
		o := none
		if x := sym.Choose("override", 4); r != other && x < len(r.Over) {
			o = r.Over[x]
		} else if x == 3 {
			o = l.R[1].Over[0] // an override of another rule
		}
		mine := o != none && (r != other) && has(r, o)
		n := limit()
		switch sym.Choose("operation", 6) {
		case 0:
			createRule(l, set(1, sym.Choose("set", 3)), n)
		case 1:
			err := l.Rules.UpdateRule(l.Ctx, r.ID, hxl.Limit(n))
			sym.Assert(r.On == (err == nil) && (r.On || refused(err, http.StatusNotFound)), "an update succeeds exactly for an existing rule, and is not found otherwise")
			r.Limit = n
		case 2:
			err := l.Rules.DeleteRule(l.Ctx, r.ID)
			sym.Assert(r.On == (err == nil) && (r.On || refused(err, http.StatusNotFound)), "a deletion succeeds exactly for an existing rule, and is not found otherwise")
			r.On = false
		case 3:
			createOverride(l, r, set(1+2*sym.Choose("keys", 3), 0), n)
		case 4:
			err := l.Rules.UpdateOverride(l.Ctx, r.ID, o.ID, hxl.OverLimit(n))
			ok := r.On && o.On && mine
			sym.Assert(ok == (err == nil) && (ok || refused(err, http.StatusNotFound)), "an update succeeds exactly for an existing override of the rule, and is not found otherwise")
			if ok {
				o.Limit = n
			}
		case 5:
			err := l.Rules.DeleteOverride(l.Ctx, r.ID, o.ID)
			ok := r.On && o.On && mine
			// deleting an override that is not there is a no-op, as the repository's tests say
			sym.Assert(r.On == (err == nil) && (r.On || refused(err, http.StatusNotFound)), "a deletion of an override is not found exactly when the rule is unknown")
			if ok {
				o.On = false
			}
		}
		intact(l)
	}
	sym.Reach("history")
}

func has(r, o *hxl.Group) bool {
	for _, x := range r.Over {
		if x == o {
			return true
		}
	}
	return false
}

// Two callers at once: of two creations of the same rule one is refused, and a rule being deleted takes its overrides along.
//
//verif:devs=2
func CheckTogether() {
	l := hxl.New()
	kv := hx.KV{Mask: 1}
	kv.Val[0] = hx.IntKey(1)
	ov := hx.KV{Mask: 3, Val: kv.Val}
	ov.Val[1] = hx.IntKey(2)
	r := l.AddRule(kv, 1)
	what := sym.Choose("what", 4)
	done := make(chan *errors.ServerError, 2)
	run := func(w int) {
		go func() {
			var err *errors.ServerError
			switch w {
			case 0:
				_, err = l.Rules.CreateRule(l.Ctx, hxl.RuleModel(ov, 5))
			case 1:
				_, err = l.Rules.CreateOverride(l.Ctx, r.ID, hxl.OverrideModel(ov, 5))
			case 2:
				err = l.Rules.UpdateRule(l.Ctx, r.ID, hxl.Limit(5))
			case 3:
				err = l.Rules.DeleteRule(l.Ctx, r.ID)
			}
			done <- err
		}()
	}
	second := what
	if what == 2 {
		second = 3
	} else if what == 3 {
		second = 1
	}
	run(what)
	run(second)
	a, b := <-done, <-done
	n := 0
	for _, e := range []*errors.ServerError{a, b} {
		if e == nil {
			n++
		} else {
			sym.Assert(e.StatusCode == http.StatusConflict || e.StatusCode == http.StatusNotFound, "a refusal is a conflict or not found")
		}
	}
	g, err := l.Rules.GetRule(l.Ctx, r.ID)
	switch what {
	case 0, 1:
		sym.Assert(n == 1, "one of two equal creations is refused")
		sym.Assert(err == nil && *g.Spec.Properties.Limit == 1, "the rule is unchanged")
	default:
		sym.Assert(n >= 1 && refused(err, http.StatusNotFound), "the rule is deleted")
		_, err := l.Rules.QueryOverrides(l.Ctx, r.ID, &qa.AssociatedActionQuery{})
		sym.Assert(refused(err, http.StatusNotFound), "its overrides are gone")
	}
	sym.Reach("together")
}
