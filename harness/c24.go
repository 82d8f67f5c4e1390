package main

import (
	"fmt"
	"math"

	"github.com/phil-mansfield/gotetra/math/calc"
)

func init() {
	register("C24", "Uniform tables of order+1 to 60 points (a few up to 3000), increasing and decreasing, with steps over 12 decades and offsets up to 1000 table lengths, of polynomials up to the order; smooth monotone non-uniform tables of smooth functions at two resolutions; output slices given or allocated. Non-trivial: a distinct order, length, degree, direction and offset class.",
		Group{"exact", 3000, 200000, 1, rep(10, c24Exact)},
		Group{"converge", 600, 20000, 1, rep(3, c24Converge)},
		Group{"refused", 200, 4000, 1, c24Refused})
}

// deriv calls Deriv with and without an output slice and checks what it does to its arguments.
func (t *T) deriv(site, what string, xs, ys []float64, order int) (out []float64, ok bool) {
	x0, y0 := clone(xs), clone(ys)
	given := rubbish(len(xs))
	var r []float64
	if !t.NoPanic(site, func() {
		out = calc.Deriv(xs, ys, order)
		r = calc.Deriv(xs, ys, order, calc.Out(given))
	}) {
		return nil, false
	}
	switch {
	case !equalF(xs, x0) || !equalF(ys, y0):
		t.Failf(site, "%s: the table was modified", what)
	case len(out) != len(xs):
		t.Failf(site, "%s: %d derivatives of %d points", what, len(out), len(xs))
	case !equalF(r, out) || !equalF(given, out):
		t.Failf(site, "%s: %v allocated, %v in the slice given with Out, %v returned with it", what, brief(out), brief(given), brief(r))
	default:
		return out, true
	}
	return nil, false
}

func c24Exact(t *T, i int) {
	r := t.R
	order := 2 + 2*r.Intn(2)
	n := order + 1 + r.Intn(6)
	if r.Intn(4) == 0 {
		n = order + 1 + r.Intn(56)
		if r.Intn(10) == 0 {
			n = order + 1 + r.Intn(3000)
		}
	}
	h := math.Exp(r.NormFloat64() * 4)
	dir := "increasing"
	if r.Intn(2) == 0 {
		h, dir = -h, "decreasing"
	}
	off, cls := 0.0, "no"
	switch r.Intn(3) {
	case 0:
		off, cls = (r.Float64()*2-1)*math.Abs(h)*float64(n), "small"
	case 1:
		off, cls = r.NormFloat64()*300*math.Abs(h)*math.Min(float64(n), 60), "large"
	}
	deg := r.Intn(order + 1)
	if r.Intn(2) == 0 {
		deg = order
	}
	co := make([]float64, deg+1)
	for j := range co {
		co[j] = r.NormFloat64()
	}
	xs, ys, want := make([]float64, n), make([]float64, n), make([]float64, n)
	mid := off + h*float64(n-1)*r.Float64()
	l := math.Abs(h) * float64(n)
	ymax, dmax, xmax := 0.0, 0.0, 0.0
	for j := range xs {
		xs[j] = off + h*float64(j)
		u := (xs[j] - mid) / l
		y, d := 0.0, 0.0
		for k := deg; k >= 0; k-- {
			d = d*u + y
			y = y*u + co[k]
		}
		ys[j], want[j] = y, d/l
		ymax = math.Max(ymax, math.Abs(y))
		dmax = math.Max(dmax, math.Abs(want[j]))
		xmax = math.Max(xmax, math.Abs(xs[j]))
	}
	for _, c := range co { // the derivative varies between points, too
		dmax = math.Max(dmax, math.Abs(c)/l)
	}
	site := fmt.Sprintf("order %d", order)
	what := fmt.Sprintf("order %d on %d points from %g by %g of a polynomial of degree %d", order, n, off, h, deg)
	out, ok := t.deriv(site, what, xs, ys, order)
	if !ok {
		return
	}
	eps := math.Pow(2, -52)
	tol := 64 * eps * (ymax/math.Abs(h) + dmax*(xmax/math.Abs(h)+1))
	for j := range out {
		e := math.Abs(out[j] - want[j])
		t.Max("error / allowed", e/tol)
		if !(e <= tol) {
			t.Failf(site, "%s: derivative at point %d is %g, exactly %g (allowed %g)", what, j, out[j], want[j], tol)
			return
		}
	}
	t.Eval(n)
	t.Nontrivial("%d/%d/%d/%s/%s", order, n, deg, dir, cls)
}

func c24Converge(t *T, i int) {
	r := t.R
	order := 2 + 2*r.Intn(2)
	// x(u) = x0 + s*(u + a*sin(w*u+p)/w) is monotone for |a| < 1.
	a, w, p := (r.Float64()*2-1)*0.7, 0.5+2.5*r.Float64(), r.Float64()*6
	x0, s := r.NormFloat64()*3, math.Exp(r.NormFloat64())
	if r.Intn(2) == 0 {
		s = -s
	}
	x := func(u float64) float64 { return x0 + s*(u+a*math.Sin(w*u+p)/w) }
	k, q := (0.5+3*r.Float64())/math.Abs(s), r.Float64()*6
	fn := r.Intn(3)
	f := func(x float64) (y, d float64) {
		switch fn {
		case 0:
			return math.Sin(k*x + q), k * math.Cos(k*x+q)
		case 1:
			e := math.Exp(k * (x - x0) / 2)
			return e, k / 2 * e
		}
		z := 1 / (1 + k*k*(x-x0)*(x-x0)/4)
		return z, -k * k / 2 * (x - x0) * z * z
	}
	site := fmt.Sprintf("order %d, non-uniform", order)
	var errs [2]float64
	big := 0.0
	ns := []int{200 + r.Intn(200), 1500 + r.Intn(1500)}
	for l, n := range ns {
		xs, ys, want := make([]float64, n), make([]float64, n), make([]float64, n)
		for j := range xs {
			xs[j] = x(float64(j) / float64(n-1))
			ys[j], want[j] = f(xs[j])
			big = math.Max(big, math.Abs(want[j]))
		}
		out, ok := t.deriv(site, fmt.Sprintf("%d points", n), xs, ys, order)
		if !ok {
			return
		}
		for j := range out {
			errs[l] = math.Max(errs[l], math.Abs(out[j]-want[j]))
		}
	}
	// The ends are of first order, the slowest convergence allowed; the constant depends on how
	// unequal the spacing is.
	c := w * math.Abs(a) / (1 - math.Abs(a))
	for l, n := range ns {
		scaled := errs[l] * float64(n-1) / big
		t.Max("error * points / largest derivative", scaled/(c+1))
		if !(scaled <= 3*(c+1)) {
			t.Failf(site, "the largest errors at %d points are %g (derivatives up to %g)", ns, errs, big)
			break
		}
	}
	t.Eval(2)
	t.Nontrivial("%d/%d/%.1f/%.1f/%v", order, fn, a, w, s < 0)
}

func c24Refused(t *T, i int) {
	r := t.R
	ref := func(what string, f func()) {
		t.Refuses("refused", what, func() error { f(); return nil })
	}
	n := 5 + r.Intn(10)
	m := n + 1 + r.Intn(4)
	if r.Intn(2) == 0 {
		m = n - 1 - r.Intn(4)
	}
	o := 2 + 2*r.Intn(2)
	table := func(n int) []float64 {
		x := make([]float64, n)
		for j := range x {
			x[j] = float64(j)
		}
		return x
	}
	ref(fmt.Sprintf("%d abscissae with %d values", n, m), func() { calc.Deriv(table(n), table(m), o) })
	ref(fmt.Sprintf("%d abscissae with %d values", m, n), func() { calc.Deriv(table(m), table(n), o) })
	ref(fmt.Sprintf("an output of %d values for %d points", m, n), func() { calc.Deriv(table(n), table(n), o, calc.Out(table(m))) })
	ref(fmt.Sprintf("an empty output for %d points", n), func() { calc.Deriv(table(n), table(n), o, calc.Out([]float64{})) })
	bad := []int{-4, -2, -1, 0, 1, 3, 5, 6, 8, 40}[r.Intn(10)]
	ref(fmt.Sprintf("order %d", bad), func() { calc.Deriv(table(n), table(n), bad) })
	s := r.Intn(o + 1)
	ref(fmt.Sprintf("%d points at order %d", s, o), func() { calc.Deriv(table(s), table(s), o) })
	t.Eval(6)
	t.Nontrivial("%d.%d.%d.%d", n, m, o, bad)
}
