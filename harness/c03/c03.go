package c03

import (
	"github.com/DanLavine/willow/internal/verif_harness/hx"
	sym "github.com/DanLavine/willow/internal/verif_sym"
	v1 "github.com/DanLavine/willow/pkg/models/api/common/v1"
	qa "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	qm "github.com/DanLavine/willow/pkg/models/api/common/v1/query_match_action"
	dt "github.com/DanLavine/willow/pkg/models/datatypes"
)

// data returns data of the chosen kind (floats may be NaN, and kind 14 is a Go type that no data type uses) and
// whether it is legal data of its kind.
func data(name string, k int) (any, bool) {
	switch k {
	case hx.KFloat32:
		x := sym.Float32(name)
		return x, x == x
	case hx.KFloat64:
		x := sym.Float64(name)
		return x, x == x
	case hx.NKinds:
		return []byte("x"), false
	case hx.NKinds + 1:
		return true, false
	}
	return hx.Of(name, k, 1).EV.Data, true
}

// valid is the reference predicate for one value.
func valid(t dt.DataType, k int, ok bool, min, max dt.DataType) bool {
	r := false
	if k < hx.NKinds {
		r = sym.And(ok, t == hx.Types[k])
	}
	return sym.And(r, sym.And(t >= min, t <= max))
}

// One value: every declared type, data kind and allowed range.
func CheckValue() {
	k := sym.Choose("kind", hx.NKinds+2)
	d, ok := data("v", k)
	t, min, max := dt.DataType(sym.Int("type")), dt.DataType(sym.Int("min")), dt.DataType(sym.Int("max"))
	err := (dt.EncapsulatedValue{Type: t, Data: d}).Validate(min, max)
	sym.Assert((err == nil) == valid(t, k, ok, min, max), "value accepted exactly when well typed")
	if err == nil {
		sym.Reach("accepted")
	} else {
		sym.Reach("refused")
	}
}

// A key-value set of up to two entries.
func CheckKeyValues() {
	n := sym.Choose("n", 3)
	kvs := dt.KeyValues{}
	min, max := dt.DataType(sym.Int("min")), dt.DataType(sym.Int("max"))
	want := n > 0
	kinds := []int{hx.KUint8, hx.KInt, hx.KFloat64, hx.KString, hx.KAny}
	for i := 0; i < n; i++ {
		k := kinds[sym.Choose("kind", len(kinds))]
		d, ok := data("v", k)
		t := dt.DataType(sym.Int("type"))
		kvs[[]string{"a", "b"}[i]] = dt.EncapsulatedValue{Type: t, Data: d}
		want = sym.And(want, valid(t, k, ok, min, max))
	}
	err := kvs.Validate(min, max)
	sym.Assert((err == nil) == want, "set accepted exactly when every value is")
	if n == 2 && err == nil {
		sym.Reach("accepted")
	}
}

func knownType(t dt.DataType) bool {
	r := false
	for _, x := range hx.Types {
		r = sym.Or(r, t == x)
	}
	return r
}

func restrictions(pre string) (v1.TypeRestrictions, bool) {
	a, b := dt.DataType(sym.Int(pre+"min")), dt.DataType(sym.Int(pre+"max"))
	return v1.TypeRestrictions{MinDataType: a, MaxDataType: b}, sym.And(sym.And(knownType(a), knownType(b)), a <= b)
}

var comparisons = []v1.DataComparison{v1.Equals, v1.NotEquals, v1.LessThan, v1.LessThanOrEqual, v1.GreaterThan, v1.GreaterThanOrEqual, "", "==", "~"}

func valueQuery(pre string, kinds []int) (qa.ValueQuery, bool) {
	c := comparisons[sym.Choose(pre+"cmp", len(comparisons))]
	k := kinds[sym.Choose(pre+"kind", len(kinds))]
	d, ok := data(pre+"v", k)
	t := dt.DataType(sym.Int(pre + "type"))
	tr, trOK := restrictions(pre)
	max := dt.T_any
	want := true
	switch c {
	case v1.Equals, v1.NotEquals:
	case v1.LessThan, v1.LessThanOrEqual, v1.GreaterThan, v1.GreaterThanOrEqual:
		max = dt.T_string
	default:
		want = false
	}
	want = sym.And(want, sym.And(valid(t, k, ok, dt.T_uint8, max), trOK))
	return qa.ValueQuery{Value: dt.EncapsulatedValue{Type: t, Data: d}, Comparison: c, TypeRestrictions: tr}, want
}

// One comparison of a query: every comparison, value, type and restriction.
func CheckComparison() {
	kinds := make([]int, hx.NKinds+2)
	for i := range kinds {
		kinds[i] = i
	}
	q, want := valueQuery("", kinds)
	err := q.Validate()
	sym.Assert((err == nil) == want, "comparison accepted exactly when well formed")
	if err == nil {
		sym.Reach("accepted")
	}
}

func selection(pre string, deep bool) (*qa.Selection, bool) {
	s := &qa.Selection{}
	ids, nkv := sym.Choose(pre+"ids", 2), 0
	want := true
	some := ids > 0
	if ids > 0 {
		s.IDs = []string{"x"}
	}
	nkv = sym.Choose(pre+"nkv", 3)
	if !deep && nkv == 2 {
		nkv = 1
	}
	if nkv > 0 {
		s.KeyValues = qa.SelectionKeyValues{}
	}
	for i := 0; i < nkv; i++ {
		some = true
		p := pre + []string{"a.", "b."}[i]
		tr, trOK := restrictions(p)
		x := sym.Int(p + "v")
		t := dt.DataType(sym.Int(p + "type"))
		s.KeyValues[[]string{"a", "b"}[i]] = qa.ValueQuery{Value: dt.EncapsulatedValue{Type: t, Data: x}, Comparison: v1.Equals, TypeRestrictions: tr}
		want = sym.And(want, sym.And(t == dt.T_int, trOK))
	}
	b := sym.Choose(pre+"bounds", 4)
	lo, hi := 0, 0
	if b&1 != 0 {
		lo = sym.Int(pre + "lo")
		s.MinNumberOfKeyValues = &lo
		some = true
	}
	if b&2 != 0 {
		hi = sym.Int(pre + "hi")
		s.MaxNumberOfKeyValues = &hi
		some = true
	}
	if b == 3 {
		want = sym.And(want, lo <= hi)
	}
	return s, sym.And(want, some)
}

// A selection: ids, up to two keys and key-count bounds.
func CheckSelection() {
	s, want := selection("", true)
	err := s.Validate()
	sym.Assert((err == nil) == want, "selection accepted exactly when well formed")
	if err == nil {
		sym.Reach("accepted")
	}
}

func query(pre string, depth int) (*qa.AssociatedActionQuery, bool) {
	switch sym.Choose(pre+"q", 2) {
	case 0:
		if depth == 0 {
			return nil, false // a nil child is malformed
		}
		return &qa.AssociatedActionQuery{}, true
	}
	q := &qa.AssociatedActionQuery{}
	want := true
	if sym.Choose(pre+"sel", 2) == 1 {
		hi, lo := sym.Int(pre+"hi"), sym.Int(pre+"lo")
		q.Selection = &qa.Selection{MinNumberOfKeyValues: &lo, MaxNumberOfKeyValues: &hi}
		want = lo <= hi
	}
	if depth > 0 {
		for i, n := 0, sym.Choose(pre+"and", 3); i < n; i++ {
			c, ok := query(pre+"&", depth-1)
			q.And = append(q.And, c)
			want = sym.And(want, ok)
		}
		for i, n := 0, sym.Choose(pre+"or", 3); i < n; i++ {
			c, ok := query(pre+"|", depth-1)
			q.Or = append(q.Or, c)
			want = sym.And(want, ok)
		}
	}
	return q, want
}

// Nested queries are valid exactly when every part is.
func CheckNesting() {
	q, want := query("", sym.Bound("nesting", 1, 1))
	err := q.Validate()
	sym.Assert((err == nil) == want, "query accepted exactly when every part is")
	if err == nil && len(q.And)+len(q.Or) > 2 {
		sym.Reach("accepted nested")
	}
}

// Three levels along one spine.
func CheckDeepNesting() {
	leafLo, leafHi := sym.Int("lo"), sym.Int("hi")
	leaf := &qa.AssociatedActionQuery{Selection: &qa.Selection{MinNumberOfKeyValues: &leafLo, MaxNumberOfKeyValues: &leafHi}}
	want := leafLo <= leafHi
	q := leaf
	for i := 0; i < 3; i++ {
		p := &qa.AssociatedActionQuery{}
		fine := &qa.AssociatedActionQuery{}
		list := []*qa.AssociatedActionQuery{q}
		switch sym.Choose("pos", 3) {
		case 1:
			list = []*qa.AssociatedActionQuery{fine, q}
		case 2:
			list = []*qa.AssociatedActionQuery{q, fine}
		}
		if sym.Choose("join", 2) == 0 {
			p.And = list
		} else {
			p.Or = list
		}
		q = p
	}
	err := q.Validate()
	sym.Assert((err == nil) == want, "deep query accepted exactly when every part is")
	if err == nil {
		sym.Reach("accepted")
	}
}

// Match queries: at least one key, every value and restriction well formed.
func CheckMatch() {
	n := sym.Choose("n", 3)
	q := &qm.MatchActionQuery{}
	want := n > 0
	kinds := []int{hx.KUint16, hx.KFloat32, hx.KString, hx.KAny, hx.NKinds}
	if n > 0 {
		q.KeyValues = qm.MatchKeyValues{}
	}
	for i := 0; i < n; i++ {
		p := []string{"a", "b"}[i]
		k := kinds[sym.Choose(p+"kind", len(kinds))]
		d, ok := data(p+"v", k)
		t := dt.DataType(sym.Int(p + "type"))
		tr, trOK := restrictions(p)
		q.KeyValues[p] = qm.MatchValue{Value: dt.EncapsulatedValue{Type: t, Data: d}, TypeRestrictions: tr}
		want = sym.And(want, sym.And(valid(t, k, ok, dt.T_uint8, dt.T_any), trOK))
	}
	err := q.Validate()
	sym.Assert((err == nil) == want, "match query accepted exactly when well formed")
	if err == nil && n == 2 {
		sym.Reach("accepted")
	}
}
