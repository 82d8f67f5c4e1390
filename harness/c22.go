package main

import (
	"fmt"
	"math"
	"math/big"

	"github.com/phil-mansfield/gotetra/math/mat"
)

func init() {
	register("C22", "Square systems of 1-24 unknowns: row-permuted dominant, signed permutation, random, unimodular integer, sparse, triangular, row-scaled and orthogonal matrices (condition below 1e5, or 100 for float32), with fresh and reused LUFactors and separate and equal arguments; products and transposes of rectangular shapes from 1x1 to 40x40, and two beyond the block size of Transpose; singular matrices for the determinant. Non-trivial: a distinct shape, kind and row order of a checked system or product.",
		Group{"solve", 2500, 200000, 2, rep(4, c22Solve)},
		Group{"product", 1500, 60000, 1, rep(4, c22Product)},
		Group{"singular", 200, 10000, 1, rep(4, c22Singular)},
		Group{"refused", 200, 4000, 1, c22Refused},
		Group{"large", 2, 8, 9, c22Large})
}

// linAlg drives one precision of math/mat; its values are float64 so that both precisions share their checks.
type linAlg struct {
	name string
	eps  float64
	lu   func(n int) factors
	mult func(a []float64, ah, aw int, b []float64, bh, bw int) (r []float64, h, w int)
	// multAt writes into an output of shape oh, ow holding rubbish.
	multAt func(a []float64, ah, aw int, b []float64, bh, bw, oh, ow int) []float64
	// one-step forms
	solveV func(a, b []float64) []float64
	solveM func(a, b []float64, n int) []float64
	invert func(a []float64, n int) []float64
	det    func(a []float64, n int) float64
	init   func(n, w, h int)
	luOf   func(w, h int)
}

// factors drives LUFactors. touched reports whether an input was modified.
type factors interface {
	factor(a []float64) (touched bool)
	solveV(b []float64, alias int) (x []float64, touched bool)
	solveM(b []float64, alias bool) (x []float64, touched bool)
	solveShape(bw, bh, xw, xh int)
	solveLens(b, x int)
	invert(w, h int) []float64
	det() float64
}

func to32(x []float64) []float32 {
	y := make([]float32, len(x))
	for i := range x {
		y[i] = float32(x[i])
	}
	return y
}
func to64(x []float32) []float64 {
	y := make([]float64, len(x))
	for i := range x {
		y[i] = float64(x[i])
	}
	return y
}
func clone(x []float64) []float64 { return append([]float64{}, x...) }

func rubbish(n int) []float64 {
	x := make([]float64, n)
	for i := range x {
		x[i] = 1e6 + float64(i)
		if i%2 == n%2 {
			x[i] = -x[i]
		}
	}
	return x
}

func equalF(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] && !(a[i] != a[i] && b[i] != b[i]) {
			return false
		}
	}
	return true
}

type fac64 struct {
	n  int
	lu *mat.LUFactors
}

func (f *fac64) factor(a []float64) bool {
	c := clone(a)
	mat.NewMatrix(c, f.n, f.n).LUFactorsAt(f.lu)
	touched := !equalF(a, c)
	for i := range c { // later use must not depend on the caller's matrix
		c[i] = math.NaN()
	}
	return touched
}

func (f *fac64) solveV(b []float64, alias int) ([]float64, bool) {
	c := clone(b)
	if alias == 1 {
		return f.lu.SolveVector(c, c), false
	}
	x := rubbish(len(b))
	r := f.lu.SolveVector(c, x)
	return r, !equalF(b, c) || !equalF(r, x)
}

func (f *fac64) solveM(b []float64, alias bool) ([]float64, bool) {
	c := mat.NewMatrix(clone(b), f.n, f.n)
	if alias {
		return f.lu.SolveMatrix(c, c).Vals, false
	}
	x := mat.NewMatrix(rubbish(len(b)), f.n, f.n)
	r := f.lu.SolveMatrix(c, x)
	return r.Vals, !equalF(b, c.Vals) || !equalF(r.Vals, x.Vals)
}
func (f *fac64) invert(w, h int) []float64 {
	x := mat.NewMatrix(rubbish(w*h), w, h)
	return f.lu.InvertAt(x).Vals
}
func (f *fac64) det() float64 { return f.lu.Determinant() }
func (f *fac64) solveShape(bw, bh, xw, xh int) {
	f.lu.SolveMatrix(mat.NewMatrix(rubbish(bw*bh), bw, bh), mat.NewMatrix(rubbish(xw*xh), xw, xh))
}
func (f *fac64) solveLens(b, x int) { f.lu.SolveVector(rubbish(b), rubbish(x)) }

type fac32 struct {
	n  int
	lu *mat.LUFactors32
}

func (f *fac32) factor(a []float64) bool {
	c := to32(a)
	mat.NewMatrix32(c, f.n, f.n).LUFactorsAt(f.lu)
	touched := !equalF(a, to64(c))
	for i := range c {
		c[i] = float32(math.NaN())
	}
	return touched
}

func (f *fac32) solveV(b []float64, alias int) ([]float64, bool) {
	c := to32(b)
	if alias == 1 {
		return to64(f.lu.SolveVector(c, c)), false
	}
	x := to32(rubbish(len(b)))
	r := to64(f.lu.SolveVector(c, x))
	return r, !equalF(b, to64(c)) || !equalF(r, to64(x))
}

func (f *fac32) solveM(b []float64, alias bool) ([]float64, bool) {
	c := mat.NewMatrix32(to32(b), f.n, f.n)
	if alias {
		return to64(f.lu.SolveMatrix(c, c).Vals), false
	}
	x := mat.NewMatrix32(to32(rubbish(len(b))), f.n, f.n)
	r := to64(f.lu.SolveMatrix(c, x).Vals)
	return r, !equalF(b, to64(c.Vals)) || !equalF(r, to64(x.Vals))
}
func (f *fac32) invert(w, h int) []float64 {
	x := mat.NewMatrix32(to32(rubbish(w*h)), w, h)
	return to64(f.lu.InvertAt(x).Vals)
}
func (f *fac32) det() float64 { return float64(f.lu.Determinant()) }
func (f *fac32) solveShape(bw, bh, xw, xh int) {
	f.lu.SolveMatrix(mat.NewMatrix32(to32(rubbish(bw*bh)), bw, bh), mat.NewMatrix32(to32(rubbish(xw*xh)), xw, xh))
}
func (f *fac32) solveLens(b, x int) { f.lu.SolveVector(to32(rubbish(b)), to32(rubbish(x))) }

var la64 = &linAlg{
	name: "float64", eps: math.Pow(2, -52),
	lu: func(n int) factors { return &fac64{n, mat.NewLUFactors(n)} },
	mult: func(a []float64, ah, aw int, b []float64, bh, bw int) ([]float64, int, int) {
		r := mat.NewMatrix(a, aw, ah).Mult(mat.NewMatrix(b, bw, bh))
		return r.Vals, r.Height, r.Width
	},
	multAt: func(a []float64, ah, aw int, b []float64, bh, bw, oh, ow int) []float64 {
		out := mat.NewMatrix(rubbish(oh*ow), ow, oh)
		if r := mat.NewMatrix(a, aw, ah).MultAt(mat.NewMatrix(b, bw, bh), out); r != out {
			return nil
		}
		return out.Vals
	},
	solveV: func(a, b []float64) []float64 { return mat.NewMatrix(a, len(b), len(b)).SolveVector(b) },
	solveM: func(a, b []float64, n int) []float64 {
		return mat.NewMatrix(a, n, n).SolveMatrix(mat.NewMatrix(b, n, n)).Vals
	},
	invert: func(a []float64, n int) []float64 { return mat.NewMatrix(a, n, n).Invert().Vals },
	det:    func(a []float64, n int) float64 { return mat.NewMatrix(a, n, n).Determinant() },
	init:   func(n, w, h int) { mat.NewMatrix(rubbish(n), w, h) },
	luOf:   func(w, h int) { mat.NewMatrix(rubbish(w*h), w, h).LU() },
}

var la32 = &linAlg{
	name: "float32", eps: math.Pow(2, -23),
	lu: func(n int) factors { return &fac32{n, mat.NewLUFactors32(n)} },
	mult: func(a []float64, ah, aw int, b []float64, bh, bw int) ([]float64, int, int) {
		r := mat.NewMatrix32(to32(a), aw, ah).Mult(mat.NewMatrix32(to32(b), bw, bh))
		return to64(r.Vals), r.Height, r.Width
	},
	multAt: func(a []float64, ah, aw int, b []float64, bh, bw, oh, ow int) []float64 {
		out := mat.NewMatrix32(to32(rubbish(oh*ow)), ow, oh)
		if r := mat.NewMatrix32(to32(a), aw, ah).MultAt(mat.NewMatrix32(to32(b), bw, bh), out); r != out {
			return nil
		}
		return to64(out.Vals)
	},
	solveV: func(a, b []float64) []float64 {
		return to64(mat.NewMatrix32(to32(a), len(b), len(b)).SolveVector(to32(b)))
	},
	solveM: func(a, b []float64, n int) []float64 {
		return to64(mat.NewMatrix32(to32(a), n, n).SolveMatrix(mat.NewMatrix32(to32(b), n, n)).Vals)
	},
	invert: func(a []float64, n int) []float64 { return to64(mat.NewMatrix32(to32(a), n, n).Invert().Vals) },
	det:    func(a []float64, n int) float64 { return float64(mat.NewMatrix32(to32(a), n, n).Determinant()) },
	init:   func(n, w, h int) { mat.NewMatrix32(to32(rubbish(n)), w, h) },
	luOf:   func(w, h int) { mat.NewMatrix32(to32(rubbish(w*h)), w, h).LU() },
}

// refSolve returns the inverse of a by elimination with pivoting, or nil.
func refInverse(a []float64, n int) []float64 {
	inv := make([]float64, n*n)
	w := make([][]float64, n)
	for i := range w {
		w[i] = make([]float64, 2*n)
		copy(w[i], a[i*n:(i+1)*n])
		w[i][n+i] = 1
	}
	for c := 0; c < n; c++ {
		p := c
		for i := c; i < n; i++ {
			if math.Abs(w[i][c]) > math.Abs(w[p][c]) {
				p = i
			}
		}
		if w[p][c] == 0 {
			return nil
		}
		w[c], w[p] = w[p], w[c]
		d := w[c][c]
		for j := range w[c] {
			w[c][j] /= d
		}
		for i := range w {
			if f := w[i][c]; i != c && f != 0 {
				for j := range w[i] {
					w[i][j] -= f * w[c][j]
				}
			}
		}
	}
	for i := range w {
		copy(inv[i*n:(i+1)*n], w[i][n:])
	}
	return inv
}

func normInf(a []float64, n int) float64 {
	m := 0.0
	for i := 0; i < n; i++ {
		s := 0.0
		for j := 0; j < n; j++ {
			s += math.Abs(a[i*n+j])
		}
		m = math.Max(m, s)
	}
	return m
}

// ratDet is the exact determinant.
func ratDet(a []float64, n int) *big.Rat {
	m := make([][]*big.Rat, n)
	for i := range m {
		m[i] = make([]*big.Rat, n)
		for j := range m[i] {
			m[i][j] = new(big.Rat).SetFloat64(a[i*n+j])
		}
	}
	det := big.NewRat(1, 1)
	for c := 0; c < n; c++ {
		p := c
		for p < n && m[p][c].Sign() == 0 {
			p++
		}
		if p == n {
			return new(big.Rat)
		}
		if p != c {
			m[c], m[p] = m[p], m[c]
			det.Neg(det)
		}
		det.Mul(det, m[c][c])
		inv := new(big.Rat).Inv(m[c][c])
		for i := c + 1; i < n; i++ {
			if m[i][c].Sign() == 0 {
				continue
			}
			f := new(big.Rat).Mul(m[i][c], inv)
			for j := c + 1; j < n; j++ {
				m[i][j].Sub(m[i][j], new(big.Rat).Mul(f, m[c][j]))
			}
		}
	}
	return det
}

// square makes an n x n matrix of float32 values.
func (t *T) square(n int) (a []float64, kind string) {
	r := t.R
	a = make([]float64, n*n)
	v := func() float64 { return math.Round((r.Float64()*2-1)*1024) / 1024 }
	perm := r.Perm(n)
	if r.Intn(6) == 0 { // one cycle
		k := 1 + r.Intn(n)
		for i := range perm {
			perm[i] = (i + k) % n
		}
	}
	switch r.Intn(9) {
	case 0:
		kind = "signed permutation"
		for i := range perm {
			a[i*n+perm[i]] = math.Ldexp(float64(1-2*r.Intn(2)), r.Intn(5)-2)
		}
	case 1, 2:
		kind = "permuted dominant"
		for i := range perm {
			for j := 0; j < n; j++ {
				a[i*n+j] = v()
			}
			a[i*n+perm[i]] = float64(1-2*r.Intn(2)) * (float64(n)*0.6 + 1)
		}
	case 3:
		kind = "unimodular"
		for i := 0; i < n; i++ {
			a[i*n+perm[i]] = float64(1 - 2*r.Intn(2))
		}
		for k := 0; k < n && n > 1; k++ {
			i, j := r.Intn(n), r.Intn(n)
			if i != j {
				s := float64(1 - 2*r.Intn(2))
				for c := 0; c < n; c++ {
					a[i*n+c] += s * a[j*n+c]
				}
			}
		}
	case 4:
		kind = "sparse"
		for i := range perm {
			a[i*n+perm[i]] = v() + math.Copysign(1, r.Float64()-0.5)
			for k := r.Intn(3); k > 0; k-- {
				a[i*n+r.Intn(n)] = v()
			}
		}
	case 5:
		kind = "triangular"
		up := r.Intn(2) == 0
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				switch {
				case i == j:
					a[perm[i]*n+j] = math.Copysign(1+r.Float64(), r.Float64()-0.5)
				case (j > i) == up:
					a[perm[i]*n+j] = v() * 0.5
				}
				a[perm[i]*n+j] = float64(float32(a[perm[i]*n+j]))
			}
		}
	case 6:
		kind = "reflection"
		u, s := make([]float64, n), 0.0
		for i := range u {
			u[i] = r.NormFloat64()
			s += u[i] * u[i]
		}
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				x := -2 * u[i] * u[j] / s
				if i == j {
					x++
				}
				a[perm[i]*n+j] = float64(float32(x))
			}
		}
	default:
		kind = "random"
		for i := range a {
			a[i] = v()
		}
	}
	if r.Intn(4) == 0 {
		kind += ", scaled rows"
		for i := 0; i < n; i++ {
			s := math.Ldexp(1, r.Intn(21)-10)
			for j := 0; j < n; j++ {
				a[i*n+j] *= s
			}
		}
	}
	for i := range a { // exact in both precisions
		a[i] = float64(float32(a[i]))
	}
	return a, kind
}

func c22Solve(t *T, i int) {
	r := t.R
	la := la64
	if r.Intn(3) == 0 {
		la = la32
	}
	n := 1 + r.Intn(8)
	if r.Intn(4) == 0 {
		n = 1 + r.Intn(24)
	}
	f := la.lu(n)
	// Several systems through the same factors.
	for k := 1 + r.Intn(3); k > 0; k-- {
		c22System(t, la, f, n)
	}
}

func c22System(t *T, la *linAlg, f factors, n int) {
	r := t.R
	a, kind := t.square(n)
	// Conditioning of the system with its rows brought to the same scale.
	eq := clone(a)
	for i := 0; i < n; i++ {
		m := 0.0
		for j := 0; j < n; j++ {
			m = math.Max(m, math.Abs(a[i*n+j]))
		}
		if m == 0 {
			return
		}
		for j := 0; j < n; j++ {
			eq[i*n+j] /= m
		}
	}
	inv := refInverse(a, n)
	einv := refInverse(eq, n)
	if inv == nil || einv == nil {
		return
	}
	kap := normInf(eq, n) * normInf(einv, n)
	limit := 1e5
	if la == la32 {
		limit = 100
	}
	if !(kap < limit) {
		t.Count("ill-conditioned, skipped", 1)
		return
	}
	site := "solve " + la.name
	desc := func() string { return fmt.Sprintf("%s %s matrix, rows of %d: %v", la.name, kind, n, a) }
	tol := 32 * float64(n+1) * la.eps
	if f.factor(a) {
		t.Failf(site, "LUFactorsAt modified its matrix: %s", desc())
		return
	}
	// x against b by residuals relative to each row.
	resid := func(what string, x, b []float64) bool {
		if len(x) != n {
			t.Failf(site, "%s: %d values for %d unknowns", what, len(x), n)
			return false
		}
		mx := 0.0
		for _, v := range x {
			mx = math.Max(mx, math.Abs(v))
		}
		for i := 0; i < n; i++ {
			s, w := -b[i], math.Abs(b[i])
			for j := 0; j < n; j++ {
				s += a[i*n+j] * x[j]
				w += math.Abs(a[i*n+j]) * mx
			}
			e := math.Abs(s)
			if w > 0 {
				t.Max(la.name+" residual / (n eps)", e/w/(float64(n+1)*la.eps))
			}
			if !(e <= tol*w) {
				t.Failf(site, "%s: row %d of m*x misses b = %v by %g (allowed %g), x = %v; %s", what, i, b, e, tol*w, x, desc())
				return false
			}
		}
		return true
	}
	vec := func() []float64 {
		b := make([]float64, n)
		switch r.Intn(4) {
		case 0:
			b[r.Intn(n)] = 1
		case 1:
			for i := range b {
				b[i] = float64(i + 1)
			}
		default:
			for i := range b {
				b[i] = float64(float32(r.NormFloat64()))
			}
		}
		return b
	}
	for alias := 0; alias < 2; alias++ {
		b := vec()
		x, touched := f.solveV(b, alias)
		what := []string{"SolveVector", "SolveVector in place"}[alias]
		if touched {
			t.Failf(site, "%s modified b or returned another slice than x: %s", what, desc())
			return
		}
		if !resid(what, x, b) {
			return
		}
	}
	b := vec()
	if !resid("Matrix.SolveVector", la.solveV(a, b), b) {
		return
	}
	col := func(m []float64, j int) []float64 {
		c := make([]float64, n)
		for i := range c {
			c[i] = m[i*n+j]
		}
		return c
	}
	bm := make([]float64, n*n)
	for j := 0; j < n; j++ {
		for i, v := range vec() {
			bm[i*n+j] = v
		}
	}
	for k := 0; k < 3; k++ {
		var x []float64
		touched := false
		what := "SolveMatrix"
		switch k {
		case 0:
			x, touched = f.solveM(bm, false)
		case 1:
			what = "SolveMatrix in place"
			x, touched = f.solveM(bm, true)
		case 2:
			what = "Matrix.SolveMatrix"
			x = la.solveM(a, bm, n)
		}
		if touched || len(x) != n*n {
			t.Failf(site, "%s modified b or returned another matrix than x: %s", what, desc())
			return
		}
		for j := 0; j < n; j++ {
			if !resid(what, col(x, j), col(bm, j)) {
				return
			}
		}
	}
	for k := 0; k < 2; k++ {
		what := "InvertAt"
		x := f.invert(n, n)
		if k == 1 {
			what, x = "Invert", la.invert(a, n)
		}
		for j := 0; j < n; j++ {
			e := make([]float64, n)
			e[j] = 1
			if !resid(what, col(x, j), e) {
				return
			}
		}
		// The inverse from the left: each element of x*m against its scale.
		xn := normInf(x, n)
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				s, w := 0.0, 0.0
				for c := 0; c < n; c++ {
					s += x[i*n+c] * a[c*n+j]
					w += math.Abs(x[i*n+c] * a[c*n+j])
				}
				if i == j {
					s--
				}
				if e := math.Abs(s); !(e <= tol*(w+1)*kap*float64(n)) {
					t.Failf(site, "%s: element %d,%d of inverse*m is off by %g (condition %g, norm %g): %s", what, i, j, e, kap, xn, desc())
					return
				}
			}
		}
	}
	ds := []float64{f.det(), la.det(a, n)}
	t.Eval(9)
	if n <= 10 {
		want, _ := ratDet(a, n).Float64()
		for _, d := range ds {
			if !(math.Abs(d-want) <= tol*kap*math.Abs(want)) {
				t.Failf(site, "Determinant = %g, exactly %g: %s", d, want, desc())
				return
			}
		}
		t.Eval(2)
	} else if ds[0] != ds[1] {
		t.Failf(site, "Determinant of reused factors %g and of new ones %g: %s", ds[0], ds[1], desc())
	}
	t.Count("systems of "+la.name, 1)
	big := make([]int, n) // row holding the largest element of each column
	for j := range big {
		for i := 0; i < n; i++ {
			if math.Abs(eq[i*n+j]) > math.Abs(eq[big[j]*n+j]) {
				big[j] = i
			}
		}
	}
	t.Nontrivial("%s/%s/%v", la.name, kind, big)
}

func c22Product(t *T, i int) {
	r := t.R
	la := la64
	if r.Intn(3) == 0 {
		la = la32
	}
	dim := func() int {
		if r.Intn(4) == 0 {
			return 1 + r.Intn(40)
		}
		return 1 + r.Intn(6)
	}
	if r.Intn(300) == 0 { // beyond any block size
		wide := []int{64, 65, 100, 128, 129, 200, 257}
		dim = func() int {
			if r.Intn(3) == 0 {
				return 1 + r.Intn(20)
			}
			return wide[r.Intn(len(wide))] + r.Intn(3) - 1
		}
	}
	h, m, w := dim(), dim(), dim()
	fill := func(n int) []float64 {
		x := make([]float64, n)
		for i := range x {
			x[i] = float64(float32(r.NormFloat64()))
			if r.Intn(5) == 0 {
				x[i] = float64(r.Intn(3) - 1)
			}
		}
		return x
	}
	a, b := fill(h*m), fill(m*w)
	a0, b0 := clone(a), clone(b)
	site := "product " + la.name
	check := func(what string, x, a []float64, h, m int, b []float64, w int) bool {
		if len(x) != h*w {
			t.Failf(site, "%s: %d values for a %dx%d product", what, len(x), h, w)
			return false
		}
		for i := 0; i < h; i++ {
			for j := 0; j < w; j++ {
				s, v := 0.0, 0.0
				for k := 0; k < m; k++ {
					p := a[i*m+k] * b[k*w+j]
					s += p
					v += math.Abs(p)
				}
				if e := math.Abs(s - x[i*w+j]); !(e <= 2*float64(m+1)*la.eps*v) {
					t.Failf(site, "%s: row %d, column %d of (%d x %d)*(%d x %d) is %g, want %g", what, i, j, h, m, m, w, x[i*w+j], s)
					return false
				}
			}
		}
		t.Eval(1)
		return true
	}
	x, xh, xw := la.mult(a, h, m, b, m, w)
	if xh != h || xw != w {
		t.Failf(site, "Mult of %dx%d and %dx%d is %dx%d", h, m, m, w, xh, xw)
		return
	}
	if !check("Mult", x, a, h, m, b, w) || !check("MultAt", la.multAt(a, h, m, b, m, w, h, w), a, h, m, b, w) {
		return
	}
	if la == la64 {
		out := rubbish(h)
		v := fill(m)
		v0 := clone(v)
		ma := mat.NewMatrix(a, m, h)
		mat.MultVec(ma, v, out)
		if !check("MultVec", out, a, h, m, v, 1) {
			return
		}
		u := fill(h)
		u0 := clone(u)
		out = rubbish(m)
		mat.VecMult(u, ma, out)
		if !check("VecMult", out, u, 1, h, a, m) {
			return
		}
		tr := ma.Transpose()
		to := mat.NewMatrix(rubbish(h*m), h, m)
		ma.TransposeAt(to)
		if tr.Width != h || tr.Height != m || !equalF(tr.Vals, to.Vals) {
			t.Failf(site, "Transpose of a %dx%d matrix is %dx%d or differs from TransposeAt", h, m, tr.Height, tr.Width)
			return
		}
		for i := 0; i < h; i++ {
			for j := 0; j < m; j++ {
				if tr.Vals[j*h+i] != a[i*m+j] {
					t.Failf(site, "row %d, column %d of the transpose of a %dx%d matrix is %g, want %g", j, i, h, m, tr.Vals[j*h+i], a[i*m+j])
					return
				}
			}
		}
		if !equalF(u, u0) || !equalF(v, v0) {
			t.Failf(site, "MultVec or VecMult modified its vector")
		}
		t.Eval(2)
	}
	if !equalF(a, a0) || !equalF(b, b0) {
		t.Failf(site, "a product or transpose modified its operands")
	}
	t.Nontrivial("%s/%d.%d.%d", la.name, h, m, w)
}

// c22Singular makes singular integer matrices with no zero row.
func c22Singular(t *T, i int) {
	r := t.R
	n := 2 + r.Intn(5)
	a := make([]float64, n*n)
	for i := range a {
		a[i] = float64(r.Intn(5) - 2)
	}
	switch r.Intn(4) {
	case 0: // a zero column
		c := r.Intn(n)
		for i := 0; i < n; i++ {
			a[i*n+c] = 0
		}
	case 1: // equal columns
		p := r.Perm(n)
		for i := 0; i < n; i++ {
			a[i*n+p[0]] = a[i*n+p[1]]
		}
	case 2: // opposite rows
		p := r.Perm(n)
		for i := 0; i < n; i++ {
			a[p[0]*n+i] = -a[p[1]*n+i]
		}
	case 3: // rank one
		for i := 1; i < n; i++ {
			s := float64(1 + r.Intn(3))
			for j := 0; j < n; j++ {
				a[i*n+j] = s * a[j]
			}
		}
	}
	for i := 0; i < n; i++ {
		z := true
		for j := 0; j < n; j++ {
			z = z && a[i*n+j] == 0
		}
		if z {
			a[i*n] = 1 // may become regular; the exact determinant decides
		}
	}
	if ratDet(a, n).Sign() != 0 {
		return
	}
	scale := 1.0
	for i := 0; i < n; i++ {
		s := 0.0
		for j := 0; j < n; j++ {
			s += math.Abs(a[i*n+j])
		}
		scale *= s
	}
	for _, la := range []*linAlg{la64, la32} {
		if d := la.det(a, n); !(math.Abs(d) <= 16*float64(n)*la.eps*scale) {
			t.Failf("singular "+la.name, "Determinant of the singular %d x %d %s matrix %v is %g", n, n, la.name, a, d)
		}
		t.Eval(1)
	}
	t.Nontrivial("%v", a)
}

func c22Refused(t *T, i int) {
	r := t.R
	d := func() int { return 1 + r.Intn(5) }
	for _, la := range []*linAlg{la64, la32} {
		la := la
		ref := func(what string, f func()) {
			t.Refuses("refused "+la.name, la.name+" "+what, func() error { f(); return nil })
		}
		w, h := r.Intn(6)-1, r.Intn(6)-1
		n := w * h
		if n > 0 && w > 0 || n < 0 || r.Intn(2) == 0 {
			n = r.Intn(20)
		}
		if w <= 0 || h <= 0 || n != w*h {
			ref(fmt.Sprintf("NewMatrix of %d values as %d x %d", n, w, h), func() { la.init(n, w, h) })
		}
		ah, aw, bh, bw := d(), d(), d(), d()
		if aw != bh {
			ref(fmt.Sprintf("Mult of %dx%d and %dx%d", ah, aw, bh, bw), func() { la.mult(rubbish(ah*aw), ah, aw, rubbish(bh*bw), bh, bw) })
		}
		if oh, ow := d(), d(); oh != ah || ow != bw {
			ref(fmt.Sprintf("MultAt of %dx%d and %dx%d into %dx%d", ah, aw, aw, bw, oh, ow), func() { la.multAt(rubbish(ah*aw), ah, aw, rubbish(aw*bw), aw, bw, oh, ow) })
		}
		if aw != ah {
			ref(fmt.Sprintf("LU of %dx%d", ah, aw), func() { la.luOf(aw, ah) })
		}
		k, a := d(), d()
		f := la.lu(k)
		id := make([]float64, k*k)
		for i := 0; i < k; i++ {
			id[i*k+i] = 1
		}
		f.factor(id)
		if b, x := d(), d(); b != k || x != k {
			ref(fmt.Sprintf("SolveVector of %d and %d values with %d unknowns", b, x, k), func() { f.solveLens(b, x) })
		}
		if xw, xh := d(), a; xw != k || xh != k {
			ref(fmt.Sprintf("InvertAt of %d unknowns into %dx%d", k, xh, xw), func() { f.invert(xw, xh) })
		}
		if bw, bh, xw, xh := d(), d(), d(), d(); bw != k || bh != k || xw != k || xh != k {
			if r.Intn(2) == 0 && !(xw == k && xh == k) {
				bw, bh = k, k
			} else if !(bw == k && bh == k) {
				xw, xh = k, k
			}
			ref(fmt.Sprintf("SolveMatrix of b %dx%d and x %dx%d with %d unknowns", bh, bw, xh, xw, k), func() { f.solveShape(bw, bh, xw, xh) })
		}
		if k != a {
			id := make([]float64, a*a)
			for i := 0; i < a; i++ {
				id[i*a+i] = 1
			}
			ref(fmt.Sprintf("LUFactorsAt of %d unknowns into factors of %d", a, k), func() {
				switch g := f.(type) {
				case *fac64:
					mat.NewMatrix(id, a, a).LUFactorsAt(g.lu)
				case *fac32:
					mat.NewMatrix32(to32(id), a, a).LUFactorsAt(g.lu)
				}
			})
		}
	}
	// float64 only
	ref := func(what string, f func()) {
		t.Refuses("refused float64", what, func() error { f(); return nil })
	}
	h, w, v, o := d(), d(), d(), d()
	m := mat.NewMatrix(rubbish(h*w), w, h)
	if v != w || o != h {
		ref(fmt.Sprintf("MultVec of %dx%d with %d into %d values", h, w, v, o), func() { mat.MultVec(m, rubbish(v), rubbish(o)) })
	}
	if v != h || o != w {
		ref(fmt.Sprintf("VecMult of %d with %dx%d into %d values", v, h, w, o), func() { mat.VecMult(rubbish(v), m, rubbish(o)) })
	}
	if v != h || o != w {
		ref(fmt.Sprintf("TransposeAt of %dx%d into %dx%d", h, w, o, v), func() { m.TransposeAt(mat.NewMatrix(rubbish(v*o), v, o)) })
	}
	t.Eval(8)
	t.Nontrivial("%d%d%d%d", h, w, v, o)
}

// c22Large transposes matrices longer than the blocks of Transpose in either direction.
func c22Large(t *T, i int) {
	long, short := 16000000+1+t.R.Intn(1000), 1
	if i >= 2 {
		short = 1 + t.R.Intn(3)
	}
	w, h := long, short
	if i%2 == 1 {
		w, h = short, long
	}
	a := make([]float64, w*h)
	for k := range a {
		a[k] = float64(k)
	}
	m := mat.NewMatrix(a, w, h)
	t.NoPanic("large", func() {
		tr := m.Transpose()
		if tr.Width != h || tr.Height != w || len(tr.Vals) != len(a) {
			t.Failf("large", "the transpose of %dx%d is %dx%d", h, w, tr.Height, tr.Width)
			return
		}
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				if a[y*w+x] != float64(y*w+x) || tr.Vals[x*h+y] != a[y*w+x] {
					t.Failf("large", "element %d,%d of a %dx%d matrix differs in its transpose", y, x, h, w)
					return
				}
			}
		}
	})
	t.Eval(1)
	t.Nontrivial("%dx%d", h, w)
}
