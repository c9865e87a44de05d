package c01

import (
	"github.com/DanLavine/willow/internal/verif_harness/hx"
	sym "github.com/DanLavine/willow/internal/verif_sym"
)

// Every pair of values: the strict order agrees with the reference order, and equality is exactly "unordered".
func CheckPairs() {
	n := sym.Bound("string bytes", 3, 5)
	a := hx.Of("a", sym.Choose("ka", hx.NKinds), n)
	b := hx.Of("b", sym.Choose("kb", hx.NKinds), n)
	lab, lba := a.EV.LessMatchType(b.EV), b.EV.LessMatchType(a.EV)
	sym.Assert(!(lab && lba), "asymmetric")
	sym.Assert((!lab && !lba) == hx.Same(a, b), "unordered exactly when equal")
	sym.Assert(!a.EV.LessMatchType(a.EV), "irreflexive")
	if a.K == hx.KAny {
		sym.Assert(!lab, "any is greatest")
	}
	if a.K == hx.KAny || b.K == hx.KAny {
		sym.Assert(!a.EV.Less(b.EV) && !b.EV.Less(a.EV), "any is never ordered by the general comparison")
		sym.Reach("any")
	} else {
		sym.Assert(a.EV.Less(b.EV) == lab, "comparisons agree")
		sym.Reach("typed")
	}
	sym.Observe("order", lab, lba, a.EV.Less(b.EV))
}

// Every triple of values: the strict order is transitive.
func CheckTransitive() {
	n := sym.Bound("string bytes", 2, 3)
	a := hx.Of("a", sym.Choose("ka", hx.NKinds), n)
	b := hx.Of("b", sym.Choose("kb", hx.NKinds), n)
	sym.Assume(a.EV.LessMatchType(b.EV))
	c := hx.Of("c", sym.Choose("kc", hx.NKinds), n)
	sym.Assume(b.EV.LessMatchType(c.EV))
	sym.Assert(a.EV.LessMatchType(c.EV), "transitive")
	sym.Reach("triple")
}
