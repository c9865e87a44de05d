package c16

import (
	sym "github.com/DanLavine/willow/internal/verif_sym"
	"github.com/DanLavine/willow/pkg/datamanipulation"
)

// has tells whether the combination contains the string.
func has(c []string, s string) bool {
	h := false
	for _, x := range c {
		h = sym.Or(h, x == s)
	}
	return h
}

func sorted(c []string) []string {
	o := append([]string{}, c...)
	for i := 1; i < len(o); i++ {
		for j := i; j > 0 && o[j] < o[j-1]; j-- {
			o[j], o[j-1] = o[j-1], o[j]
		}
	}
	return o
}

func check(in []string, min, max int) {
	orig := append([]string{}, in...)
	got, err := datamanipulation.GenerateStringPermutations(in, min, max)
	sym.Assert((err != nil) == (min > max && max != -1), "contradictory bounds are refused, others are not")
	if err != nil {
		return
	}
	for i := range orig {
		sym.Assert(in[i] == orig[i], "the input is not modified")
	}
	want := 0
	for mask := 1; mask < 1<<len(orig); mask++ {
		size := 0
		for i := range orig {
			if mask>>i&1 == 1 {
				size++
			}
		}
		in := size >= min && (size <= max || max == -1)
		if in {
			want++
		}
		n := 0
		for _, c := range got {
			if len(c) != size {
				continue
			}
			all := true
			for i := range orig {
				if mask>>i&1 == 1 {
					all = sym.And(all, has(c, orig[i]))
				}
			}
			n = sym.IteInt(all, n+1, n)
		}
		if in {
			sym.Assert(n == 1, "every subset of an allowed size is returned once")
		} else {
			sym.Assert(n == 0, "no subset of another size is returned")
		}
	}
	sym.Assert(len(got) == want, "nothing else is returned")
	for i := 1; i < len(got); i++ {
		a, b := got[i-1], got[i]
		sym.Assert(len(a) <= len(b), "ordered by size")
		if len(a) != len(b) {
			continue
		}
		a, b = sorted(a), sorted(b)
		below, same := false, true
		for k := range a {
			below = sym.Or(below, sym.And(same, a[k] < b[k]))
			same = sym.And(same, a[k] == b[k])
		}
		sym.Assert(below, "then by content")
	}
	// overwriting one result leaves the others as they are
	for i := range got {
		keep := append([]string{}, got[i]...)
		for j := range got {
			if j != i {
				for k := range got[j] {
					got[j][k] = "!"
				}
				got[j] = append(got[j], "!")
			}
		}
		for k := range keep {
			sym.Assert(got[i][k] == keep[k], "results share no memory")
		}
		break
	}
}

func bounds(n int) (int, int) {
	return sym.IntRange("min", -1, n+1), sym.IntRange("max", -2, n+1)
}

// Distinct strings in any relative order, any size bounds.
func CheckAnyStrings() {
	n := sym.Choose("n", sym.Bound("strings", 5, 6))
	var in []string
	for i := 0; i < n; i++ {
		s := sym.String("s", 2)
		for _, o := range in {
			sym.Assume(s != o)
		}
		in = append(in, s)
	}
	min, max := bounds(n)
	check(in, min, max)
	sym.Reach("generated")
}

// More strings in a few orders, any size bounds.
func CheckMoreStrings() {
	orders := [][]string{{"a", "b", "c", "d", "e", "f"}, {"f", "e", "d", "c", "b", "a"}, {"c", "a", "e", "b", "f", "d"}}
	o := orders[sym.Choose("order", 3)]
	n := 4 + sym.Choose("n", sym.Bound("lengths", 2, 3))
	min, max := bounds(n)
	check(append([]string{}, o[:n]...), min, max)
	sym.Reach("generated")
}
