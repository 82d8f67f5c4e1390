package main

import (
	"fmt"
	"math"

	"github.com/phil-mansfield/gotetra/math/interpolate"
)

func init() {
	register("C19", "Tables of 2-12 points per axis (2-60 in one dimension), each axis with its own size, spacing (uniform, random, nearly repeated, geometric), direction and offset; evaluation at every knot, on edges, corners and faces, next to knots and at random; functions that are multilinear or random; points beyond every edge by one ulp or more; single and bulk evaluation in random order. Non-trivial: one interpolator compared with its definition.",
		Group{"linear", 1500, 100000, 2, rep(8, func(t *T, i int) { c19Check(t, 1) })},
		Group{"bilinear", 1500, 100000, 2, rep(4, func(t *T, i int) { c19Check(t, 2) })},
		Group{"trilinear", 1500, 100000, 2, rep(2, func(t *T, i int) { c19Check(t, 3) })},
		Group{"refused", 400, 20000, 1, c19Refused})
}

// axis is a table of abscissae; uniform ones are exactly x0 + i*dx.
type axis struct {
	xs     []float64
	x0, dx float64
	unif   bool
}

func (t *T) axis(n int) axis {
	r := t.R
	a := axis{}
	a.x0 = r.NormFloat64() * math.Exp(2*r.NormFloat64())
	if r.Intn(3) == 0 {
		a.x0 = float64(r.Intn(5) - 2)
	}
	a.dx = math.Exp(2 * r.NormFloat64())
	if r.Intn(3) == 0 {
		a.dx = []float64{1, 0.1, 0.5, 3, 1. / 3}[r.Intn(5)]
	}
	// Keep the rounding of abscissae small beside their spacing.
	if math.Abs(a.x0) > 1e3*a.dx {
		a.x0 = 1e3 * a.dx * (2*r.Float64() - 1)
	}
	if r.Intn(2) == 0 {
		a.dx = -a.dx
	}
	a.xs = make([]float64, n)
	kind := r.Intn(5)
	x := a.x0
	for i := range a.xs {
		switch kind {
		case 0, 1:
			a.unif = true
			a.xs[i] = float64(i)*a.dx + a.x0
			continue
		case 2:
			a.xs[i] = x
			x += a.dx * (0.05 + r.ExpFloat64())
		case 3:
			a.xs[i] = x
			if r.Intn(2) == 0 {
				x += a.dx * 0.01
			} else {
				x += a.dx
			}
		case 4:
			a.xs[i] = x
			x += a.dx * math.Pow(1.3, float64(i%50))
		}
	}
	return a
}

// cell finds the table interval holding x by looking at all of them.
func (a *axis) cell(x float64) (int, float64) {
	for i := 0; i+1 < len(a.xs); i++ {
		lo, hi := a.xs[i], a.xs[i+1]
		if lo <= x && x <= hi || hi <= x && x <= lo {
			return i, (x - lo) / (hi - lo)
		}
	}
	return -1, 0
}

// point draws an evaluation point within the table.
func (t *T) point(a axis) float64 {
	r := t.R
	n := len(a.xs)
	first, last := a.xs[0], a.xs[n-1]
	lo, hi := math.Min(first, last), math.Max(first, last)
	x := 0.0
	switch r.Intn(6) {
	case 0:
		x = a.xs[r.Intn(n)]
	case 1:
		x = a.xs[[]int{0, n - 1}[r.Intn(2)]]
	case 2:
		x = math.Nextafter(a.xs[r.Intn(n)], []float64{lo, hi}[r.Intn(2)])
	case 3:
		k := r.Intn(n - 1)
		x = a.xs[k] + r.Float64()*(a.xs[k+1]-a.xs[k])
	default:
		x = lo + r.Float64()*(hi-lo)
	}
	return math.Max(lo, math.Min(hi, x))
}

type interpN struct {
	eval func(p []float64) float64
	all  func(ps [][]float64, out ...[]float64) []float64
}

func cols(ps [][]float64, d int) [3][]float64 {
	var c [3][]float64
	for _, p := range ps {
		for j := 0; j < d; j++ {
			c[j] = append(c[j], p[j])
		}
	}
	return c
}

func wrap1(f interpolate.Interpolator) interpN {
	return interpN{func(p []float64) float64 { return f.Eval(p[0]) },
		func(ps [][]float64, out ...[]float64) []float64 { return f.EvalAll(cols(ps, 1)[0], out...) }}
}
func wrap2(f interpolate.BiInterpolator) interpN {
	return interpN{func(p []float64) float64 { return f.Eval(p[0], p[1]) },
		func(ps [][]float64, out ...[]float64) []float64 {
			c := cols(ps, 2)
			return f.EvalAll(c[0], c[1], out...)
		}}
}
func wrap3(f interpolate.TriInterpolator) interpN {
	return interpN{func(p []float64) float64 { return f.Eval(p[0], p[1], p[2]) },
		func(ps [][]float64, out ...[]float64) []float64 {
			c := cols(ps, 3)
			return f.EvalAll(c[0], c[1], c[2], out...)
		}}
}

// viaInterface chooses between the constructors of each interpolator: the type's and the interface's.
func viaInterface(vals []float64) bool {
	h := uint64(len(vals))
	for _, v := range vals {
		h = h*31 + math.Float64bits(v)>>7
	}
	return h%3 == 0
}

func linearInterp(ax []axis, vals []float64, unif bool) interpN {
	a := func(j int) []float64 { return ax[j].xs }
	if viaInterface(vals) {
		switch {
		case len(ax) == 1 && unif:
			return wrap1(interpolate.NewUniformLinearInterpolator(ax[0].x0, ax[0].dx, vals))
		case len(ax) == 1:
			return wrap1(interpolate.NewLinearInterpolator(a(0), vals))
		case len(ax) == 2 && unif:
			return wrap2(interpolate.NewUniformBiLinearInterpolator(ax[0].x0, ax[0].dx, len(a(0)), ax[1].x0, ax[1].dx, len(a(1)), vals))
		case len(ax) == 2:
			return wrap2(interpolate.NewBiLinearInterpolator(a(0), a(1), vals))
		case unif:
			return wrap3(interpolate.NewUniformTriLinearInterpolator(ax[0].x0, ax[0].dx, len(a(0)), ax[1].x0, ax[1].dx, len(a(1)), ax[2].x0, ax[2].dx, len(a(2)), vals))
		}
		return wrap3(interpolate.NewTriLinearInterpolator(a(0), a(1), a(2), vals))
	}
	switch {
	case len(ax) == 1 && unif:
		return wrap1(interpolate.NewUniformLinear(ax[0].x0, ax[0].dx, vals))
	case len(ax) == 1:
		return wrap1(interpolate.NewLinear(a(0), vals))
	case len(ax) == 2 && unif:
		return wrap2(interpolate.NewUniformBiLinear(ax[0].x0, ax[0].dx, len(a(0)), ax[1].x0, ax[1].dx, len(a(1)), vals))
	case len(ax) == 2:
		return wrap2(interpolate.NewBiLinear(a(0), a(1), vals))
	case unif:
		return wrap3(interpolate.NewUniformTriLinear(ax[0].x0, ax[0].dx, len(a(0)), ax[1].x0, ax[1].dx, len(a(1)), ax[2].x0, ax[2].dx, len(a(2)), vals))
	}
	return wrap3(interpolate.NewTriLinear(a(0), a(1), a(2), vals))
}

// axes draws d axes, and whether all are uniform.
func (t *T) axes(d, most int) (ax []axis, size int, unif bool) {
	r := t.R
	size, unif = 1, true
	for j := 0; j < d; j++ {
		n := 2 + r.Intn(most-1)
		if r.Intn(4) == 0 {
			n = 2 + r.Intn(2)
		}
		a := t.axis(n)
		ax = append(ax, a)
		size *= n
		unif = unif && a.unif
	}
	if !unif && r.Intn(2) == 0 {
		for j := range ax {
			if !ax[j].unif {
				ax[j].unif = true
				for i := range ax[j].xs {
					ax[j].xs[i] = float64(i)*ax[j].dx + ax[j].x0
				}
			}
		}
		unif = true
	}
	return ax, size, unif
}

func describe(ax []axis) string {
	s := ""
	for _, a := range ax {
		s += fmt.Sprintf(" %.6g", a.xs)
	}
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

func c19Check(t *T, d int) {
	r := t.R
	most := []int{0, 60, 12, 8}[d]
	if r.Intn(60) == 0 {
		most = []int{0, 2000, 120, 30}[d]
	}
	ax, size, unif := t.axes(d, most)
	vals := make([]float64, size)
	scale := math.Exp(2 * r.NormFloat64())
	multi := r.Intn(2) == 0
	// A multilinear function in scaled coordinates.
	co := make([]float64, 1<<uint(d))
	for j := range co {
		co[j] = scale * r.NormFloat64()
	}
	fn := func(p []float64) float64 {
		s := 0.0
		for m, c := range co {
			for j := 0; j < d; j++ {
				if m>>uint(j)&1 == 1 {
					xs := ax[j].xs
					c *= (p[j] - xs[0]) / (xs[len(xs)-1] - xs[0])
				}
			}
			s += c
		}
		return s
	}
	at := func(k int) ([]float64, []int) {
		p, ix := make([]float64, d), make([]int, d)
		for j := 0; j < d; j++ {
			ix[j] = k % len(ax[j].xs)
			p[j] = ax[j].xs[ix[j]]
			k /= len(ax[j].xs)
		}
		return p, ix
	}
	big := 0.0
	for k := range vals {
		p, _ := at(k)
		if multi {
			vals[k] = fn(p)
		} else {
			vals[k] = scale * r.NormFloat64()
		}
		big = math.Max(big, math.Abs(vals[k]))
	}
	for _, c := range co {
		big = math.Max(big, math.Abs(c))
	}
	tol := 1e-9 * big
	vals0 := append([]float64{}, vals...)
	name := []string{"", "Linear", "BiLinear", "TriLinear"}[d]
	in := linearInterp(ax, vals, false)
	forms := []interpN{in}
	if unif {
		forms = append(forms, linearInterp(ax, vals, true))
	}
	ref := func(p []float64) (v, lo, hi float64) {
		ix, w := make([]int, d), make([]float64, d)
		for j := range ix {
			ix[j], w[j] = ax[j].cell(p[j])
		}
		lo, hi = math.Inf(1), math.Inf(-1)
		for m := 0; m < 1<<uint(d); m++ {
			f, k, stride := 1.0, 0, 1
			for j := 0; j < d; j++ {
				if m>>uint(j)&1 == 1 {
					f *= w[j]
					k += (ix[j] + 1) * stride
				} else {
					f *= 1 - w[j]
					k += ix[j] * stride
				}
				stride *= len(ax[j].xs)
			}
			v += f * vals0[k]
			lo, hi = math.Min(lo, vals0[k]), math.Max(hi, vals0[k])
		}
		return
	}
	var ps [][]float64
	for f, in := range forms {
		site := name
		if f == 1 {
			site += "/uniform"
		}
		if !t.NoPanic(site+"/panic", func() {
			for k := range vals {
				p, _ := at(k)
				t.Eval(1)
				if v := in.eval(p); !(math.Abs(v-vals0[k]) <= tol) {
					t.Failf(site+"/knot", "%s over%s at grid point %v is %v, tabulated %v", name, describe(ax), p, v, vals0[k])
					return
				}
			}
			ps = nil
			for k := 0; k < 25; k++ {
				p := make([]float64, d)
				for j := range p {
					p[j] = t.point(ax[j])
				}
				ps = append(ps, p)
				v := in.eval(p)
				w, lo, hi := ref(p)
				t.Eval(1)
				if !(v >= lo-tol && v <= hi+tol) {
					t.Failf(site+"/between", "%s over%s at %v is %v, outside its neighbours' range [%v, %v]", name, describe(ax), p, v, lo, hi)
					return
				}
				if !(math.Abs(v-w) <= tol) {
					t.Failf(site+"/value", "%s over%s at %v is %v, want %v", name, describe(ax), p, v, w)
					return
				}
				if g := fn(p); multi && !(math.Abs(v-g) <= tol) {
					t.Failf(site+"/multilinear", "%s of a multilinear function over%s at %v is %v, want %v", name, describe(ax), p, v, g)
					return
				}
			}
			t.evalAll(site, in, ps)
		}) {
			return
		}
	}
	for k := range vals {
		if vals[k] != vals0[k] {
			t.Failf(name+"/input", "evaluation changes the table")
			return
		}
	}
	t.Count("interpolators", len(forms))
	if unif {
		t.Count("uniform", 1)
	}
	t.Nontrivial("%s", describe(ax))
}

// evalAll compares bulk with single evaluation.
func (t *T) evalAll(site string, in interpN, ps [][]float64) {
	want := make([]float64, len(ps))
	for k, p := range ps {
		want[k] = in.eval(p)
	}
	got := in.all(ps)
	out, spare := make([]float64, len(ps)), []float64{5}
	ret := in.all(ps, out)
	out2 := make([]float64, len(ps))
	in.all(ps, out2, spare)
	t.Eval(3 * len(ps))
	if len(got) != len(ps) || len(ret) != len(ps) || len(ps) > 0 && &ret[0] != &out[0] {
		t.Failf(site+"/evalall", "EvalAll does not return its output slice")
		return
	}
	for k := range want {
		if got[k] != want[k] || out[k] != want[k] || out2[k] != want[k] {
			t.Failf(site+"/evalall", "EvalAll gives %v, %v (into a slice) at %v, Eval %v", got[k], out[k], ps[k], want[k])
			return
		}
	}
	if spare[0] != 5 {
		t.Failf(site+"/evalall", "EvalAll writes to the second output")
	}
}

// outside draws a point past one end of an axis.
func (t *T) outside(a axis) float64 {
	r := t.R
	n := len(a.xs)
	d := a.xs[n-1] - a.xs[0]
	x, dir := a.xs[0], -d
	if r.Intn(2) == 0 {
		x, dir = a.xs[n-1], d
	}
	switch r.Intn(4) {
	case 0:
		if a.unif && x == 0 {
			return x + dir
		}
		return math.Nextafter(x, x+dir)
	case 1:
		return math.Inf(1) * math.Copysign(1, dir)
	case 2:
		return x + 1e-6*dir
	}
	return x + dir*r.ExpFloat64()
}

func c19Refused(t *T, i int) {
	r := t.R
	d := 1 + i%3
	ax, size, unif := t.axes(d, 6)
	vals := make([]float64, size)
	in := linearInterp(ax, vals, unif && r.Intn(2) == 0)
	for k := 0; k < 10; k++ {
		p := make([]float64, d)
		for j := range p {
			p[j] = t.point(ax[j])
		}
		j := r.Intn(d)
		p[j] = t.outside(ax[j])
		t.Refuses("refused/outside", fmt.Sprintf("evaluation at %v outside%s", p, describe(ax)), func() error { in.eval(p); return nil })
	}
	for _, m := range []int{size - 1, size + 1, 2 * size, 0} {
		v := make([]float64, m)
		t.Refuses("refused/size", fmt.Sprintf("%d values for%s", m, describe(ax)), func() error { linearInterp(ax, v, false); return nil })
		if unif && d > 1 {
			t.Refuses("refused/size", fmt.Sprintf("%d values for uniform%s", m, describe(ax)), func() error { linearInterp(ax, v, true); return nil })
		}
	}
	t.Nontrivial("%d", i)
}
