package main

import (
	"fmt"
	"math"
	gosort "sort"

	"github.com/phil-mansfield/gotetra/math/sort"
)

func init() {
	register("C18", "All sequences of up to 6 small numbers and all permutations of up to 8; lengths 0-5000, concentrated at 0-40, in random, sorted, reversed, sawtooth, organ-pipe, constant, few-valued, nearly sorted, median-of-three-killer and extreme-valued patterns, inside larger arrays; every n of short slices; fractions at, next to and between multiples of 1/n. Non-trivial: one slice sorted or one order statistic compared.",
		Group{"small", 8, 8, 4, c18Small},
		Group{"sort", 2500, 120000, 2, rep(8, c18Sort)},
		Group{"order", 1500, 100000, 2, rep(4, c18Order)},
		Group{"refused", 60, 600, 1, c18Refused})
}

// pattern draws a slice of n numbers.
func (t *T) pattern(n int) (xs []float64, kind string) {
	r := t.R
	xs = make([]float64, n)
	k := r.Intn(11)
	for i := range xs {
		switch k {
		case 0, 1:
			xs[i] = r.NormFloat64()
		case 2:
			xs[i] = float64(i)
		case 3:
			xs[i] = float64(n - i)
		case 4:
			xs[i] = float64(i % (1 + n/4))
		case 5:
			xs[i] = math.Min(float64(i), float64(n-i))
		case 6:
			xs[i] = 3
		case 7:
			xs[i] = float64(r.Intn(1 + r.Intn(4)))
		case 8:
			xs[i] = float64(i)
			if r.Intn(10) == 0 {
				xs[i] = float64(r.Intn(n))
			}
		case 9:
			xs[i] = []float64{math.Inf(1), math.Inf(-1), 0, math.Copysign(0, -1), math.MaxFloat64, -math.MaxFloat64, 5e-324, 1, 1 + 2e-16}[r.Intn(9)]
		case 10:
			// Interleaved halves defeat median-of-three pivots.
			if i%2 == 0 {
				xs[i] = float64(i / 2)
			} else {
				xs[i] = float64(n - i/2)
			}
		}
	}
	return xs, fmt.Sprint(k)
}

func (t *T) length() int {
	r := t.R
	if r.Intn(200) == 0 {
		return 5000 + r.Intn(130000)
	}
	switch r.Intn(6) {
	case 0:
		return r.Intn(6)
	case 1:
		return 20 + r.Intn(12)
	case 2:
		return r.Intn(5000)
	case 3:
		return r.Intn(300)
	}
	return r.Intn(40)
}

func brief(xs []float64) string {
	if len(xs) > 40 {
		return fmt.Sprintf("%v... (%d numbers)", xs[:40], len(xs))
	}
	return fmt.Sprint(xs)
}

// sorted runs a sort on a slice in the middle of a larger array.
func (t *T) sorted(name string, f func([]float64) []float64, xs []float64) bool {
	n := len(xs)
	arr := make([]float64, n+6)
	for i := range arr {
		arr[i] = []float64{-1e300, 1e300}[i%2]
	}
	copy(arr[3:], xs)
	in := arr[3 : 3+n]
	var out []float64
	t.Eval(1)
	if !t.NoPanic(name+"/panic", func() { out = f(in) }) {
		return false
	}
	if len(out) != n || n > 0 && &out[0] != &in[0] {
		t.Failf(name+"/slice", "%s returns a slice other than its argument", name)
		return false
	}
	for i := range arr {
		if (i < 3 || i >= 3+n) && arr[i] != []float64{-1e300, 1e300}[i%2] {
			t.Failf(name+"/outside", "%s of %s writes outside its slice", name, brief(xs))
			return false
		}
	}
	want := append([]float64{}, xs...)
	if name == "Reverse" {
		for i := range want {
			want[i] = xs[n-1-i]
		}
	} else {
		gosort.Float64s(want)
	}
	for i := range want {
		if in[i] != want[i] {
			t.Failf(name, "%s of %s gives %s", name, brief(xs), brief(in))
			return false
		}
	}
	return true
}

var c18Sorts = map[string]func([]float64) []float64{"Quick": sort.Quick, "Shell": sort.Shell, "Reverse": sort.Reverse}

// orderStats compares the order statistics of xs with a sorted copy.
func (t *T) orderStats(xs []float64, ns []int, ps []float64) bool {
	s := append([]float64{}, xs...)
	gosort.Float64s(s)
	n := len(xs)
	in := append([]float64{}, xs...)
	buf := make([]float64, n)
	call := func(site, what string, f func(b ...[]float64) float64, ok func(x float64) bool) bool {
		for k := 0; k < 2; k++ {
			var x float64
			var b [][]float64
			if k == 1 {
				for j := range buf {
					buf[j] = float64(j*7%5) * 1e9
				}
				b = append(b, buf)
			}
			t.Eval(1)
			if !t.NoPanic(site+"/panic", func() { x = f(b...) }) {
				return false
			}
			if !ok(x) {
				t.Failf(site, "%s of %s is %v", what, brief(xs), x)
				return false
			}
			for j := range in {
				if in[j] != xs[j] || math.Signbit(in[j]) != math.Signbit(xs[j]) {
					t.Failf(site+"/input", "%s changes its input %s to %s (buffer given: %v)", what, brief(xs), brief(in), k == 1)
					return false
				}
			}
		}
		return true
	}
	for _, k := range ns {
		k := k
		if !call("NthLargest", fmt.Sprintf("NthLargest %d", k), func(b ...[]float64) float64 { return sort.NthLargest(in, k, b...) },
			func(x float64) bool { return x == s[n-k] }) {
			return false
		}
	}
	if !call("Median", "Median", func(b ...[]float64) float64 { return sort.Median(in, b...) },
		func(x float64) bool { return x == s[n/2] }) {
		return false
	}
	for _, p := range ps {
		p := p
		f := p * float64(n)
		if !call("Percentile", fmt.Sprintf("Percentile %v", p), func(b ...[]float64) float64 { return sort.Percentile(in, p, b...) },
			func(x float64) bool {
				for _, g := range []float64{f - 1e-12*f, f + 1e-12*f} {
					k := int(math.Floor(g))
					if k > n-1 {
						k = n - 1
					}
					if x == s[k] {
						return true
					}
				}
				return false
			}) {
			return false
		}
	}
	return true
}

func c18Small(t *T, i int) {
	if i > 7 {
		return
	}
	n := i
	all := func(xs []float64) bool {
		for name, f := range c18Sorts {
			if !t.sorted(name, f, xs) {
				return false
			}
		}
		if n == 0 {
			return true
		}
		ns := []int{}
		for k := 1; k <= n; k++ {
			ns = append(ns, k)
		}
		ps := []float64{0, 0.5, 1}
		return t.orderStats(xs, ns, ps)
	}
	cases := 0
	if n <= 6 {
		total := 1
		for k := 0; k < n; k++ {
			total *= n
		}
		for c := 0; c < total; c++ {
			xs := make([]float64, n)
			for k, d := 0, c; k < n; k, d = k+1, d/n {
				xs[k] = float64(d % n)
			}
			if !all(xs) {
				return
			}
			cases++
		}
	} else {
		n = 8
		p := []float64{0, 1, 2, 3, 4, 5, 6, 7}
		var rec func(k int) bool
		rec = func(k int) bool {
			if k == n {
				cases++
				return all(append([]float64{}, p...))
			}
			for j := k; j < n; j++ {
				p[k], p[j] = p[j], p[k]
				if !rec(k + 1) {
					return false
				}
				p[k], p[j] = p[j], p[k]
			}
			return true
		}
		if !rec(0) {
			return
		}
	}
	t.Count("exhaustive_sequences", cases)
	t.Nontrivial("%d", i)
}

func c18Sort(t *T, i int) {
	xs, kind := t.pattern(t.length())
	for name, f := range c18Sorts {
		if !t.sorted(name, f, xs) {
			return
		}
	}
	t.Count("sorted", 3)
	t.Nontrivial("%s %d %d", kind, len(xs), i)
}

func c18Order(t *T, i int) {
	r := t.R
	n := 1 + t.length()
	xs, kind := t.pattern(n)
	var ns []int
	if n <= 30 {
		for k := 1; k <= n; k++ {
			ns = append(ns, k)
		}
	} else {
		ns = []int{1, 2, n - 1, n, n / 2, (n + 1) / 2, 1 + r.Intn(n), 1 + r.Intn(n)}
	}
	ps := []float64{0, 1, 0.5, 0.25, 0.75, 5e-324, math.Nextafter(1, 0), r.Float64(), r.Float64()}
	k := float64(r.Intn(n))
	ps = append(ps, k/float64(n), math.Nextafter(k/float64(n), 1), (k+0.5)/float64(n), (k+0.99)/float64(n))
	if !t.orderStats(xs, ns, ps) {
		return
	}
	gosort.Float64s(ps)
	last := math.Inf(-1)
	for _, p := range ps {
		x := sort.Percentile(xs, p)
		t.Eval(1)
		if x < last {
			t.Failf("Percentile/monotonic", "Percentile %v of %s is %v, less than at a smaller fraction (%v)", p, brief(xs), x, last)
			return
		}
		last = x
	}
	t.Count("order_statistics", 2*(len(ns)+len(ps)+1))
	t.Nontrivial("%s %d %d", kind, n, i)
}

func c18Refused(t *T, i int) {
	r := t.R
	n := 1 + r.Intn(40)
	if i < 24 {
		n = 1 + i/4
	}
	xs, _ := t.pattern(n)
	no := []float64{}
	try := func(site, what string, f func()) {
		t.Refuses(site, what, func() error { f(); return nil })
	}
	try("refused/empty", "Median of an empty slice", func() { sort.Median(no) })
	try("refused/empty", "Percentile of an empty slice", func() { sort.Percentile(no, 0.5) })
	try("refused/empty", "NthLargest of an empty slice", func() { sort.NthLargest(nil, 1) })
	for _, k := range []int{0, -1, -n, n + 1, n + 2, 2*n + 5, -100, math.MaxInt32} {
		k := k
		try("refused/n", fmt.Sprintf("NthLargest %d of %d numbers", k, n), func() { sort.NthLargest(xs, k) })
		try("refused/n", fmt.Sprintf("NthLargest %d of %d numbers, with a buffer", k, n), func() { sort.NthLargest(xs, k, make([]float64, n)) })
	}
	for _, p := range []float64{-0.01, 1.01, 2, -1, math.Inf(1), 50, math.Nextafter(1, 2), math.NaN()} {
		p := p
		try("refused/p", fmt.Sprintf("Percentile %v", p), func() { sort.Percentile(xs, p) })
	}
	for _, m := range []int{0, n - 1, n + 1, 2 * n} {
		m := m
		try("refused/buffer", fmt.Sprintf("a buffer of %d for %d numbers", m, n), func() { sort.NthLargest(xs, 1, make([]float64, m)) })
		try("refused/buffer", fmt.Sprintf("a buffer of %d for %d numbers", m, n), func() { sort.Median(xs, make([]float64, m)) })
		try("refused/buffer", fmt.Sprintf("a buffer of %d for %d numbers", m, n), func() { sort.Percentile(xs, 0.3, make([]float64, m)) })
	}
	t.Nontrivial("%d", i)
}
