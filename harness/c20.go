package main

import (
	"fmt"
	"math"

	"github.com/phil-mansfield/gotetra/math/interpolate"
)

func init() {
	register("C20", "Tables of 2-40 points (2-9 per axis in 2-D and 3-D) with every spacing, direction and offset of C19; data that are linear, smooth, random or mostly flat; values and derivatives of orders 0-4 at knots, ends and random points, integrals over every kind of sub-range, repeated Init with new tables; nested splines evaluated in random orders with repeated, returning and refused coordinates. Non-trivial: one spline, nested spline or tridiagonal system compared.",
		Group{"spline", 1500, 100000, 3, rep(6, c20Spline)},
		Group{"nested", 600, 40000, 3, c20Nested},
		Group{"tridiag", 500, 20000, 1, rep(5, c20Tri)},
		Group{"refused", 300, 10000, 1, c20Refused})
}

// natural is a natural cubic spline held as values and slopes at its knots, increasing in x.
type natural struct{ x, y, m []float64 }

func newNatural(xs, ys []float64) *natural {
	n := len(xs)
	s := &natural{x: append([]float64{}, xs...), y: append([]float64{}, ys...)}
	if xs[0] > xs[1] {
		for i := range xs {
			s.x[i], s.y[i] = xs[n-1-i], ys[n-1-i]
		}
	}
	// Continuity of second derivatives in terms of slopes, solved by elimination with pivoting.
	a := make([][]float64, n)
	h := func(i int) float64 { return s.x[i+1] - s.x[i] }
	d := func(i int) float64 { return (s.y[i+1] - s.y[i]) / h(i) }
	for i := range a {
		a[i] = make([]float64, n+1)
		switch i {
		case 0:
			a[i][0], a[i][1], a[i][n] = 2, 1, 3*d(0)
		case n - 1:
			a[i][n-2], a[i][n-1], a[i][n] = 1, 2, 3*d(n-2)
		default:
			// Divided by the sum of 1/h to keep rows comparable.
			w := 1/h(i-1) + 1/h(i)
			a[i][i-1] = 1 / h(i-1) / w
			a[i][i] = 2
			a[i][i+1] = 1 / h(i) / w
			a[i][n] = 3 * (d(i-1)/h(i-1) + d(i)/h(i)) / w
		}
	}
	s.m = gaussSolve(a)
	return s
}

// gaussSolve solves the augmented system a by elimination with partial pivoting; nil if singular.
func gaussSolve(a [][]float64) []float64 {
	n := len(a)
	for c := 0; c < n; c++ {
		p := c
		for i := c; i < n; i++ {
			if math.Abs(a[i][c]) > math.Abs(a[p][c]) {
				p = i
			}
		}
		if a[p][c] == 0 {
			return nil
		}
		a[c], a[p] = a[p], a[c]
		for i := c + 1; i < n; i++ {
			if f := a[i][c] / a[c][c]; f != 0 {
				for j := c; j <= n; j++ {
					a[i][j] -= f * a[c][j]
				}
			}
		}
	}
	x := make([]float64, n)
	for i := n - 1; i >= 0; i-- {
		x[i] = a[i][n]
		for j := i + 1; j < n; j++ {
			x[i] -= a[i][j] * x[j]
		}
		x[i] /= a[i][i]
	}
	return x
}

func (s *natural) at(x float64) (i int) {
	for i = 0; i < len(s.x)-2 && x > s.x[i+1]; i++ {
	}
	return i
}

// deriv evaluates a derivative through the Hermite form.
func (s *natural) deriv(x float64, order int) float64 {
	i := s.at(x)
	h := s.x[i+1] - s.x[i]
	u := (x - s.x[i]) / h
	y0, y1, m0, m1 := s.y[i], s.y[i+1], s.m[i]*h, s.m[i+1]*h
	c2 := 3*(y1-y0) - 2*m0 - m1
	c3 := 2*(y0-y1) + m0 + m1
	switch order {
	case 0:
		return y0 + u*(m0+u*(c2+u*c3))
	case 1:
		return (m0 + u*(2*c2+3*u*c3)) / h
	case 2:
		return (2*c2 + 6*u*c3) / h / h
	case 3:
		return 6 * c3 / h / h / h
	}
	return 0
}

// integral sums Simpson's rule, exact for cubics, over the pieces of [lo, hi].
func (s *natural) integral(lo, hi float64) float64 {
	if lo > hi {
		return -s.integral(hi, lo)
	}
	sum := 0.0
	for i := 0; i+1 < len(s.x); i++ {
		a, b := math.Max(lo, s.x[i]), math.Min(hi, s.x[i+1])
		if b > a {
			sum += (b - a) / 6 * (s.deriv(a, 0) + 4*s.deriv((a+b)/2, 0) + s.deriv(b, 0))
		}
	}
	return sum
}

// size bounds the magnitude of a spline's values and terms.
func (s *natural) size() float64 {
	y, m, h := 0.0, 0.0, 0.0
	for i := range s.x {
		y, m = math.Max(y, math.Abs(s.y[i])), math.Max(m, math.Abs(s.m[i]))
		if i > 0 {
			h = math.Max(h, s.x[i]-s.x[i-1])
		}
	}
	return y + m*h
}

func (t *T) splineData(a axis) []float64 {
	r := t.R
	n := len(a.xs)
	ys := make([]float64, n)
	scale := math.Exp(2 * r.NormFloat64())
	k := r.Intn(4)
	f := r.Float64() * 6
	for i, x := range a.xs {
		u := (x - a.xs[0]) / (a.xs[n-1] - a.xs[0])
		switch k {
		case 0:
			ys[i] = r.NormFloat64()
		case 1:
			ys[i] = math.Sin(f*u) + u
		case 2:
			ys[i] = float64(r.Intn(8) / 7)
		case 3:
			ys[i] = 2*u - f
		}
		ys[i] *= scale
	}
	return ys
}

func c20Spline(t *T, i int) {
	r := t.R
	n := 2 + r.Intn(39)
	if r.Intn(4) == 0 {
		n = 2 + r.Intn(3)
	}
	if r.Intn(200) == 0 {
		n = 41 + r.Intn(400)
	}
	var sp *interpolate.Spline
	for k := 0; k < 3; k++ {
		a := t.axis(n)
		ys := t.splineData(a)
		xs0, ys0 := append([]float64{}, a.xs...), append([]float64{}, ys...)
		what := fmt.Sprintf("spline through x =%s, y = %s (table %d of this spline)", describe([]axis{a}), brief(ys), k)
		if k == 0 {
			if !t.NoPanic("spline/new", func() { sp = interpolate.NewSpline(a.xs, ys) }) {
				t.Failf("spline/new", "%s", what)
				return
			}
		} else if !t.NoPanic("spline/init", func() { sp.Init(a.xs, ys) }) {
			return
		}
		ref := newNatural(a.xs, ys)
		S := ref.size()
		lo, hi := ref.x[0], ref.x[n-1]
		ok := true
		bad := func(site, format string, args ...interface{}) {
			t.Failf(site, "%s: %s", what, fmt.Sprintf(format, args...))
			ok = false
		}
		if !t.NoPanic("spline/eval-panic", func() {
			for j := range ys {
				t.Eval(1)
				if v := sp.Eval(xs0[j]); !(math.Abs(v-ys0[j]) <= 1e-9*S) {
					bad("spline/knot", "value %v at knot %d, want %v", v, j, ys0[j])
					return
				}
			}
			for _, x := range []float64{lo, hi} {
				t.Eval(1)
				i := ref.at(x)
				h := ref.x[i+1] - ref.x[i]
				if v := sp.Deriv(x, 2); !(math.Abs(v) <= 1e-9*S/h/h) {
					bad("spline/natural", "second derivative %v at the end %v", v, x)
					return
				}
			}
			for q := 0; q < 20; q++ {
				x := t.point(a)
				i := ref.at(x)
				h := ref.x[i+1] - ref.x[i]
				// A point on a knot belongs to either piece.
				if i+2 < n && ref.x[i+1]-x < 1e-9*h {
					h = math.Min(h, ref.x[i+2]-ref.x[i+1])
				}
				knot := math.Min(math.Abs(x-ref.x[i]), math.Abs(x-ref.x[i+1])) < 1e-9*h
				t.Eval(5)
				if v, w := sp.Eval(x), ref.deriv(x, 0); !(math.Abs(v-w) <= 1e-9*S) {
					bad("spline/eval", "value %v at %v, want %v", v, x, w)
					return
				}
				for o := 0; o <= 4; o++ {
					if o == 3 && knot {
						continue
					}
					v, w := sp.Deriv(x, o), ref.deriv(x, o)
					if !(math.Abs(v-w) <= 1e-9*S/math.Pow(h, float64(o))) {
						bad(fmt.Sprintf("spline/deriv%d", o), "derivative of order %d is %v at %v, want %v", o, v, x, w)
						return
					}
				}
			}
		}) || !ok {
			return
		}
		if !t.NoPanic("spline/integrate-panic", func() {
			tol := 1e-9 * S * (hi - lo)
			for q := 0; q < 12; q++ {
				x, y, z := t.point(a), t.point(a), t.point(a)
				switch q {
				case 0:
					x, y = lo, hi
				case 1:
					x, y = hi, lo
				case 2:
					x, y = ref.x[r.Intn(n)], ref.x[r.Intn(n)]
				case 3:
					y = x
				}
				t.Eval(3)
				v := sp.Integrate(x, y)
				if w := ref.integral(x, y); !(math.Abs(v-w) <= tol) {
					bad("spline/integrate", "integral from %v to %v is %v, want %v", x, y, v, w)
					return
				}
				if w := sp.Integrate(y, x); !(math.Abs(v+w) <= tol) {
					bad("spline/integrate-sign", "integrals from %v to %v and back are %v and %v", x, y, v, w)
					return
				}
				if p, q := sp.Integrate(x, z), sp.Integrate(z, y); !(math.Abs(v-p-q) <= tol) {
					bad("spline/integrate-sum", "integrals %v to %v to %v are %v and %v, but %v in one", x, z, y, p, q, v)
					return
				}
			}
		}) || !ok {
			return
		}
		var ps [][]float64
		for q := 0; q < 10; q++ {
			ps = append(ps, []float64{t.point(a)})
		}
		if !t.NoPanic("spline/evalall-panic", func() { t.evalAll("spline", wrap1(sp), ps) }) {
			return
		}
		fresh := interpolate.NewSpline(a.xs, ys)
		for _, p := range ps {
			if v, w := sp.Eval(p[0]), fresh.Eval(p[0]); v != w {
				bad("spline/reinit", "%v at %v, a new spline %v", v, p[0], w)
				return
			}
		}
		for j := range ys {
			if ys[j] != ys0[j] || a.xs[j] != xs0[j] {
				bad("spline/input", "the table was changed")
				return
			}
		}
		t.Count("splines", 1)
		t.Nontrivial("%v", xs0)
	}
}

func cubicInterp(ax []axis, vals []float64, unif bool) interpN {
	a := func(j int) []float64 { return ax[j].xs }
	if viaInterface(vals) {
		switch {
		case len(ax) == 2 && unif:
			return wrap2(interpolate.NewUniformBiCubicInterpolator(ax[0].x0, ax[0].dx, len(a(0)), ax[1].x0, ax[1].dx, len(a(1)), vals))
		case len(ax) == 2:
			return wrap2(interpolate.NewBiCubicInterpolator(a(0), a(1), vals))
		case unif:
			return wrap3(interpolate.NewUniformTriCubicInterpolator(ax[0].x0, ax[0].dx, len(a(0)), ax[1].x0, ax[1].dx, len(a(1)), ax[2].x0, ax[2].dx, len(a(2)), vals))
		}
		return wrap3(interpolate.NewTriCubicInterpolator(a(0), a(1), a(2), vals))
	}
	switch {
	case len(ax) == 2 && unif:
		return wrap2(interpolate.NewUniformBiCubic(ax[0].x0, ax[0].dx, len(a(0)), ax[1].x0, ax[1].dx, len(a(1)), vals))
	case len(ax) == 2:
		return wrap2(interpolate.NewBiCubic(a(0), a(1), vals))
	case unif:
		return wrap3(interpolate.NewUniformTriCubic(ax[0].x0, ax[0].dx, len(a(0)), ax[1].x0, ax[1].dx, len(a(1)), ax[2].x0, ax[2].dx, len(a(2)), vals))
	}
	return wrap3(interpolate.NewTriCubic(a(0), a(1), a(2), vals))
}

// nestedRef evaluates nested natural splines, the first axis innermost.
func nestedRef(ax []axis, vals []float64, p []float64) (v, size float64) {
	for j := range ax {
		n := len(ax[j].xs)
		next := make([]float64, len(vals)/n)
		for k := range next {
			s := newNatural(ax[j].xs, vals[k*n:(k+1)*n])
			next[k] = s.deriv(p[j], 0)
			size = math.Max(size, s.size())
		}
		vals = next
	}
	return vals[0], size
}

func c20Nested(t *T, i int) {
	r := t.R
	d := 2 + i%2
	ax, n, unif := t.axes(d, []int{0, 0, 9, 6}[d])
	vals := make([]float64, n)
	scale := math.Exp(2 * r.NormFloat64())
	for k := range vals {
		vals[k] = scale * r.NormFloat64()
	}
	vals0 := append([]float64{}, vals...)
	name := []string{"", "", "BiCubic", "TriCubic"}[d]
	var forms []interpN
	if !t.NoPanic(name+"/new", func() {
		forms = append(forms, cubicInterp(ax, vals, false))
		if unif {
			forms = append(forms, cubicInterp(ax, vals, true))
		}
	}) {
		return
	}
	// A few coordinates per axis, visited again and again in random order.
	var pool [3][]float64
	for j := range ax {
		pool[j] = append(pool[j], ax[j].xs[0])
		for k := 0; k < 3; k++ {
			pool[j] = append(pool[j], t.point(ax[j]))
		}
	}
	refused := 0
	var ps [][]float64
	out := map[int]float64{}
	p := make([]float64, d)
	for j := range p {
		p[j] = pool[j][r.Intn(4)]
	}
	for k := 0; k < 40; k++ {
		// Change some coordinates, often only one.
		p = append([]float64{}, p...)
		for j := range p {
			if r.Intn(2) == 0 {
				p[j] = pool[j][r.Intn(4)]
			}
		}
		for f, in := range forms {
			if r.Intn(4) == 0 {
				q := append([]float64{}, p...)
				j := r.Intn(d)
				if x, seen := out[j]; seen && r.Intn(2) == 0 {
					q[j] = x
				} else {
					q[j] = t.outside(ax[j])
					out[j] = q[j]
				}
				t.Refuses(name+"/outside", fmt.Sprintf("evaluation at %v outside%s, after %d other refusals", q, describe(ax), refused), func() error { in.eval(q); return nil })
				refused++
				if r.Intn(2) == 0 {
					// The same point is still outside, whatever else is changed.
					for m := range q {
						if m != j && r.Intn(3) == 0 {
							q[m] = pool[m][r.Intn(4)]
						}
					}
					t.Refuses(name+"/outside-again", fmt.Sprintf("evaluation at %v outside%s, just after refusing it,", q, describe(ax)), func() error { in.eval(q); return nil })
					refused++
				}
			}
			var v float64
			if !t.NoPanic(name+"/panic", func() { v = in.eval(p) }) {
				return
			}
			w, s := nestedRef(ax, vals0, p)
			t.Eval(1)
			if !(math.Abs(v-w) <= 1e-9*s) {
				t.Failf(name+"/value", "%s over%s (uniform %v) is %v at %v, want %v (evaluation %d)", name, describe(ax), f == 1, v, p, w, k)
				return
			}
		}
		if k < 8 {
			ps = append(ps, p)
		}
	}
	for f, in := range forms {
		t.evalAll(name, in, ps)
		// Every grid point.
		for k := range vals0 {
			q, m := make([]float64, d), k
			for j := range q {
				q[j] = ax[j].xs[m%len(ax[j].xs)]
				m /= len(ax[j].xs)
			}
			_, s := nestedRef(ax, vals0, q)
			t.Eval(1)
			if v := in.eval(q); !(math.Abs(v-vals0[k]) <= 1e-9*s) {
				t.Failf(name+"/knot", "%s over%s (uniform %v) is %v at grid point %v, tabulated %v", name, describe(ax), f == 1, v, q, vals0[k])
				return
			}
			if k > 60 {
				break
			}
		}
	}
	for k := range vals {
		if vals[k] != vals0[k] {
			t.Failf(name+"/input", "evaluation changes the table")
			return
		}
	}
	t.Count("refused_between", refused)
	t.Count("nested", len(forms))
	t.Nontrivial("%s", describe(ax))
}

func c20Tri(t *T, i int) {
	r := t.R
	n := 1 + r.Intn(40)
	as, bs, cs, rs := make([]float64, n), make([]float64, n), make([]float64, n), make([]float64, n)
	for k := range as {
		as[k], cs[k], rs[k] = r.NormFloat64(), r.NormFloat64(), 10*r.NormFloat64()
		if r.Intn(4) == 0 {
			as[k] = 0
		}
		bs[k] = (math.Abs(as[k]) + math.Abs(cs[k]) + 0.1 + r.Float64()) * float64(1-2*r.Intn(2))
		if i%3 == 2 {
			// Small whole numbers, such as the rows of an identity.
			as[k], cs[k], rs[k] = float64(r.Intn(3)-1), float64(r.Intn(3)-1), float64(r.Intn(5)-2)
			bs[k] = (math.Abs(as[k]) + math.Abs(cs[k]) + 1) * float64(1-2*r.Intn(2))
		}
	}
	in := fmt.Sprint(as, bs, cs, rs)
	var us []float64
	if !t.NoPanic("tridiag/panic", func() { us = interpolate.TriDiag(as, bs, cs, rs) }) {
		return
	}
	out := make([]float64, n)
	for k := range out {
		out[k] = 1e9
	}
	interpolate.TriDiagAt(as, bs, cs, rs, out)
	if fmt.Sprint(as, bs, cs, rs) != in {
		t.Failf("tridiag/input", "TriDiag changes its input")
	}
	for k := range us {
		t.Eval(1)
		s := bs[k] * us[k]
		big := math.Abs(s) + math.Abs(rs[k])
		if k > 0 {
			s += as[k] * us[k-1]
			big += math.Abs(as[k] * us[k-1])
		}
		if k < n-1 {
			s += cs[k] * us[k+1]
			big += math.Abs(cs[k] * us[k+1])
		}
		if !(math.Abs(s-rs[k]) <= 1e-10*(big+10)) {
			t.Failf("tridiag/solve", "row %d of a system of %d gives %v, want %v", k, n, s, rs[k])
			return
		}
		if out[k] != us[k] {
			t.Failf("tridiag/at", "TriDiagAt gives %v and TriDiag %v", out[k], us[k])
			return
		}
	}
	t.Nontrivial("%d", i)
}

func c20Refused(t *T, i int) {
	r := t.R
	n := 2 + r.Intn(12)
	a := t.axis(n)
	ys := t.splineData(a)
	var sp *interpolate.Spline
	if !t.NoPanic("refused/new", func() { sp = interpolate.NewSpline(a.xs, ys) }) {
		return
	}
	for k := 0; k < 10; k++ {
		x, y := t.outside(a), t.point(a)
		w := describe([]axis{a})
		t.Refuses("refused/eval", fmt.Sprintf("Eval(%v) outside%s", x, w), func() error { sp.Eval(x); return nil })
		t.Refuses("refused/deriv", fmt.Sprintf("Deriv(%v) outside%s", x, w), func() error { sp.Deriv(x, r.Intn(3)); return nil })
		t.Refuses("refused/integrate", fmt.Sprintf("Integrate(%v, %v) outside%s", x, y, w), func() error { sp.Integrate(x, y); return nil })
		t.Refuses("refused/integrate", fmt.Sprintf("Integrate(%v, %v) outside%s", y, x, w), func() error { sp.Integrate(y, x); return nil })
	}
	t.Refuses("refused/length", "tables of different lengths", func() error { interpolate.NewSpline(a.xs, ys[1:]); return nil })
	t.Refuses("refused/length", "tables of different lengths", func() error { interpolate.NewSpline(a.xs[1:], ys); return nil })
	t.Refuses("refused/length", "Init with another length", func() error { sp.Init(append(a.xs, 1e9), append(ys, 1)); return nil })
	t.Refuses("refused/length", "Init with more values than abscissae", func() error { sp.Init(a.xs, append(clone(ys), 1)); return nil })
	t.Refuses("refused/length", "Init with fewer values than abscissae", func() error { sp.Init(a.xs, ys[1:]); return nil })
	t.Refuses("refused/length", "Init with more abscissae than values", func() error { sp.Init(append(clone(a.xs), a.xs[n-1]+(a.xs[n-1]-a.xs[0])), ys); return nil })
	t.Refuses("refused/length", "an empty table", func() error { interpolate.NewSpline(nil, nil); return nil })
	t.Refuses("refused/length", "a table of one point", func() error { interpolate.NewSpline(a.xs[:1], ys[:1]); return nil })
	if n > 2 {
		for k := 0; k < 4; k++ {
			// Swap two neighbours, or one point and another.
			xs := append([]float64{}, a.xs...)
			p, q := r.Intn(n), r.Intn(n)
			if k%2 == 0 {
				p = r.Intn(n - 1)
				q = p + 1
			}
			if p == q || p+q == n-1 && n == 3 {
				continue
			}
			xs[p], xs[q] = xs[q], xs[p]
			t.Refuses("refused/unsorted", fmt.Sprintf("unsorted abscissae %v", xs), func() error { interpolate.NewSpline(xs, ys); return nil })
			t.Refuses("refused/unsorted", fmt.Sprintf("unsorted abscissae %v in Init", xs), func() error { interpolate.NewSpline(a.xs, ys).Init(xs, ys); return nil })
		}
	}
	m := 1 + r.Intn(9)
	v := make([]float64, m)
	for k := range v {
		v[k] = 1
	}
	short := make([]float64, m-1)
	t.Refuses("refused/tridiag", "tridiagonal rows of different lengths", func() error { interpolate.TriDiag(v, v, short, v); return nil })
	t.Refuses("refused/tridiag", "tridiagonal rows of different lengths", func() error { interpolate.TriDiag(v, v, v, short); return nil })
	t.Refuses("refused/tridiag", "tridiagonal rows of different lengths", func() error { interpolate.TriDiag(v, short, v, v); return nil })
	t.Refuses("refused/tridiag", "a tridiagonal output of another length", func() error { interpolate.TriDiagAt(v, v, v, v, short); return nil })
	t.Nontrivial("%d", i)
}
