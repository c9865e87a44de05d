package hx

import (
	sym "github.com/DanLavine/willow/internal/verif_sym"

	"github.com/DanLavine/willow/internal/datastructures/btree"
	v1 "github.com/DanLavine/willow/pkg/models/api/common/v1"
	dt "github.com/DanLavine/willow/pkg/models/datatypes"
)

// NewTree builds an empty ordered store.
func NewTree(nodeSize int) btree.BTree {
	t, err := btree.NewThreadSafe(nodeSize)
	if err != nil {
		panic(err)
	}
	return t
}

// IntKey is an int value as a typed key.
func IntKey(x int) V { return V{K: KInt, I: int64(x), EV: dt.Int(x)} }

// Entry is one operation's trace in the reference map.
type Entry struct {
	Key  V
	Item int
	On   bool
}

// Ref is the reference map: entries are switched on and off by symbolic conditions, without splitting.
type Ref struct{ E []Entry }

func (r *Ref) Has(k V) bool {
	h := false
	for i := range r.E {
		h = sym.Or(h, sym.And(r.E[i].On, Same(r.E[i].Key, k)))
	}
	return h
}

// Item returns the item stored under k (0 when absent).
func (r *Ref) Item(k V) int {
	n := 0
	for i := range r.E {
		n = sym.IteInt(sym.And(r.E[i].On, Same(r.E[i].Key, k)), r.E[i].Item, n)
	}
	return n
}

// Put adds the key when it is absent.
func (r *Ref) Put(k V, item int) {
	r.E = append(r.E, Entry{Key: k, Item: item, On: !r.Has(k)})
}

func (r *Ref) Del(k V) {
	for i := range r.E {
		r.E[i].On = sym.And(r.E[i].On, !Same(r.E[i].Key, k))
	}
}

func (r *Ref) Len() int {
	n := 0
	for i := range r.E {
		n += sym.IteInt(r.E[i].On, 1, 0)
	}
	return n
}

// Got is one callback of a lookup.
type Got struct {
	Key  dt.EncapsulatedValue
	Item int
}

// Matches tells whether a lookup's callbacks are exactly the entries selected by want, each once.
func (r *Ref) Matches(got []Got, want func(k V) bool) bool {
	ok := true
	used := 0
	for i := range r.E {
		w := sym.And(r.E[i].On, want(r.E[i].Key))
		n := 0
		for _, g := range got {
			if g.Item == r.E[i].Item {
				n++
				ok = sym.And(ok, SameEV(g.Key, r.E[i].Key))
			}
		}
		if n > 1 {
			return false
		}
		used += n
		ok = sym.And(ok, w == (n == 1))
	}
	return sym.And(ok, used == len(got))
}

// SameEV compares a typed value with a reference value.
func SameEV(a dt.EncapsulatedValue, b V) bool {
	if a.Type != Types[b.K] {
		return false
	}
	switch x := a.Data.(type) {
	case nil:
		return b.K == KAny
	case uint8:
		return sym.And(b.K == KUint8, uint64(x) == b.U)
	case uint16:
		return sym.And(b.K == KUint16, uint64(x) == b.U)
	case uint32:
		return sym.And(b.K == KUint32, uint64(x) == b.U)
	case uint64:
		return sym.And(b.K == KUint64, x == b.U)
	case uint:
		return sym.And(b.K == KUint, uint64(x) == b.U)
	case int8:
		return sym.And(b.K == KInt8, int64(x) == b.I)
	case int16:
		return sym.And(b.K == KInt16, int64(x) == b.I)
	case int32:
		return sym.And(b.K == KInt32, int64(x) == b.I)
	case int64:
		return sym.And(b.K == KInt64, x == b.I)
	case int:
		return sym.And(b.K == KInt, int64(x) == b.I)
	case float32:
		return sym.And(b.K == KFloat32, x == b.F)
	case float64:
		return sym.And(b.K == KFloat64, x == b.D)
	case string:
		return sym.And(b.K == KString, x == b.S)
	}
	return false
}

// FullRange admits every type.
var FullRange = v1.TypeRestrictions{MinDataType: dt.T_uint8, MaxDataType: dt.T_any}

// Lookup kinds.
const (
	LEq = iota
	LNe
	LLt
	LLe
	LGt
	LGe
	LAny
	NLookups
)

// Look runs one lookup, stopping after stop callbacks (never when stop < 0). The third result is false when the
// callback was called again after asking to stop.
func Look(t btree.BTree, op int, key dt.EncapsulatedValue, tr v1.TypeRestrictions, stop int) ([]Got, error, bool) {
	var got []Got
	ok, stopped := true, false
	cb := func(k dt.EncapsulatedValue, item any) bool {
		if stopped {
			ok = false
		}
		got = append(got, Got{k, item.(int)})
		if stop >= 0 && len(got) >= stop {
			stopped = true
			return false
		}
		return true
	}
	var err error
	switch op {
	case LEq:
		err = t.Find(key, tr, cb)
	case LNe:
		err = t.FindNotEqual(key, tr, cb)
	case LLt:
		err = t.FindLessThan(key, tr, cb)
	case LLe:
		err = t.FindLessThanOrEqual(key, tr, cb)
	case LGt:
		err = t.FindGreaterThan(key, tr, cb)
	case LGe:
		err = t.FindGreaterThanOrEqual(key, tr, cb)
	default:
		err = t.Find(dt.Any(), tr, cb)
	}
	return got, err, ok
}

// All lists the store through the lookup that visits everything.
func All(t btree.BTree) []Got {
	got, err, _ := Look(t, LAny, dt.Any(), FullRange, -1)
	if err != nil {
		panic("listing failed")
	}
	return got
}

// Want is the reference meaning of a lookup: key k against lookup key q. 'any' keys match every comparison.
func Want(op int, q V, k V) bool {
	if k.K == KAny {
		return true
	}
	switch op {
	case LEq:
		return Same(k, q)
	case LNe:
		return !Same(k, q)
	case LLt:
		return Below(k, q)
	case LLe:
		return sym.Or(Below(k, q), Same(k, q))
	case LGt:
		return Below(q, k)
	case LGe:
		return sym.Or(Below(q, k), Same(k, q))
	}
	return true
}

// InRange tells whether the key's type lies in the range.
func InRange(k V, tr v1.TypeRestrictions) bool {
	return sym.And(tr.MinDataType <= Types[k.K], Types[k.K] <= tr.MaxDataType)
}

// Fill creates the given int keys (item = position + 1) and mirrors them in the reference.
func Fill(t btree.BTree, r *Ref, keys []V) {
	for i, k := range keys {
		it := len(r.E) + 1
		if err := t.Create(k.EV, func() any { return it }); err != nil {
			panic("fill")
		}
		_ = i
		r.Put(k, it)
	}
}

// Order lists 0..n-1 in one of several insertion orders, which give differently shaped trees.
func Order(n, how int) []int {
	var o []int
	switch how {
	case 0: // ascending
		for i := 0; i < n; i++ {
			o = append(o, i)
		}
	case 1: // descending
		for i := n - 1; i >= 0; i-- {
			o = append(o, i)
		}
	case 2: // outside in
		for i, j := 0, n-1; i <= j; i, j = i+1, j-1 {
			o = append(o, i)
			if i != j {
				o = append(o, j)
			}
		}
	default: // strided
		for s := 0; s < 3; s++ {
			for i := s; i < n; i += 3 {
				o = append(o, i)
			}
		}
	}
	return o
}

// IntKeys spaces n int keys 10 apart, in an insertion order.
func IntKeys(n, how int) []V {
	var ks []V
	for _, i := range Order(n, how) {
		ks = append(ks, IntKey((i+1)*10))
	}
	return ks
}

// MixedKeys spreads n keys over several types in their global order; the last is 'any' when withAny.
func MixedKeys(n, how int, withAny bool) []V {
	var sorted []V
	m := n
	if withAny {
		m--
	}
	for i := 0; i < m; i++ {
		x := (i + 1) * 10
		switch i * 3 / m {
		case 0:
			sorted = append(sorted, V{K: KUint8, U: uint64(x), EV: dt.Uint8(uint8(x))})
		case 1:
			sorted = append(sorted, IntKey(x))
		default:
			s := string([]byte{'a' + byte(i)})
			sorted = append(sorted, V{K: KString, S: s, EV: dt.String(s)})
		}
	}
	if withAny {
		sorted = append(sorted, V{K: KAny, EV: dt.Any()})
	}
	var ks []V
	for _, i := range Order(n, how) {
		ks = append(ks, sorted[i])
	}
	return ks
}

// Drain deletes every reference key and checks that the store ends empty: it needs every lock of the store.
func Drain(t btree.BTree, r *Ref) bool {
	for i := range r.E {
		if err := t.Delete(r.E[i].Key.EV, nil); err != nil {
			return false
		}
	}
	return t.Empty()
}
