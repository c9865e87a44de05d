package c17

import (
	"github.com/DanLavine/willow/internal/datastructures/set"
	sym "github.com/DanLavine/willow/internal/verif_sym"
)

// ref is the reference set: entries are switched on and off by symbolic conditions.
type ref[T set.SetType] struct {
	v  []T
	on []bool
}

func (r *ref[T]) has(x T) bool {
	h := false
	for i := range r.v {
		h = sym.Or(h, sym.And(r.on[i], r.v[i] == x))
	}
	return h
}
func (r *ref[T]) add(x T) {
	on := !r.has(x)
	r.v, r.on = append(r.v, x), append(r.on, on)
}
func (r *ref[T]) remove(x T) {
	for i := range r.v {
		r.on[i] = sym.And(r.on[i], r.v[i] != x)
	}
}
func (r *ref[T]) keep(xs []T) {
	for i := range r.v {
		k := false
		for _, x := range xs {
			k = sym.Or(k, r.v[i] == x)
		}
		r.on[i] = sym.And(r.on[i], k)
	}
}
func (r *ref[T]) size() int {
	n := 0
	for i := range r.v {
		n += sym.IteInt(r.on[i], 1, 0)
	}
	return n
}

// matches tells whether the listing is exactly the reference set.
func (r *ref[T]) matches(vals []T) bool {
	ok := sym.And(len(vals) == r.size(), true)
	for i, v := range vals {
		ok = sym.And(ok, r.has(v))
		for _, w := range vals[:i] {
			ok = sym.And(ok, v != w)
		}
	}
	return ok
}

type full[T set.SetType] interface {
	set.Set[T]
	SortedValues() []T
}

func run[T set.SetType](mk func() T, init int, ops int) {
	r := &ref[T]{}
	var first []T
	for i := 0; i < init; i++ {
		x := mk()
		first = append(first, x)
		r.add(x)
	}
	var s full[T] = set.New[T](first...)
	for i := 0; i < ops; i++ {
		switch sym.Choose("op", 6) {
		case 0:
			x := mk()
			s.Add(x)
			r.add(x)
		case 1:
			x := mk()
			s.Remove(x)
			r.remove(x)
		case 2:
			xs := []T{mk(), mk()}
			s.AddBulk(xs)
			r.add(xs[0])
			r.add(xs[1])
		case 3:
			xs := []T{mk(), mk()}
			s.Intersection(xs)
			r.keep(xs)
		case 4:
			var xs []T
			if sym.Choose("values", 2) == 1 {
				xs = append(xs, mk())
			}
			s.Intersection(xs)
			r.keep(xs)
		case 5:
			s.Clear()
			r.keep(nil)
		}
	}
	sym.Assert(s.Size() == r.size(), "the size is the number of distinct elements")
	sym.Assert(r.matches(s.Values()), "the listing is exactly the elements")
	l := s.SortedValues()
	sym.Assert(r.matches(l), "the sorted listing is exactly the elements")
	for i := 1; i < len(l); i++ {
		sym.Assert(l[i-1] < l[i], "the sorted listing is sorted")
	}
	vals := s.Values()
	for i := range vals {
		vals[i] = mk()
	}
	sym.Assert(r.matches(s.Values()), "the listing is a copy")
	sym.Reach("set")
}

// Histories over unsigned numbers (record ids are of this kind).
func CheckNumbers() {
	run(func() uint64 { return sym.Uint64("x") }, sym.Choose("initial", sym.Bound("initial sizes", 1, 3)), 3)
}

// A set built from several values, then operations, over strings.
func CheckStrings() {
	run(func() string { return sym.String("x", 1) }, sym.Choose("initial", 3), sym.Bound("operations", 1, 2))
}
