package main

import (
	"fmt"
	"math"
	"math/big"

	"github.com/phil-mansfield/gotetra/math/interpolate"
)

func init() {
	register("C21", "Gaussian, top-hat, Savitzky-Golay (orders 0-10) and derivative (orders 0-10) kernels of widths 1-61, applied to unit impulses, polynomials and random data from the kernel's width to 5 widths long under all four boundary conditions; data lookups beyond both ends; even widths and invalid orders. Non-trivial: a distinct kernel with its data length and boundary condition.",
		Group{"kernel", 1500, 80000, 2, rep(3, c21Kernel)},
		Group{"get", 300, 10000, 1, rep(10, c21Get)},
		Group{"refused", 200, 4000, 1, c21Refused})
}

var boundNames = map[interpolate.BoundaryCondition]string{
	interpolate.Periodic: "Periodic", interpolate.Reflection: "Reflection",
	interpolate.ZeroPad: "ZeroPad", interpolate.Extension: "Extension",
}
var bounds4 = []interpolate.BoundaryCondition{interpolate.Periodic, interpolate.Reflection, interpolate.ZeroPad, interpolate.Extension}

// extended is x continued by a boundary condition; i reaches at most one length beyond either end.
func extended(x []float64, i int, b interpolate.BoundaryCondition) float64 {
	n := len(x)
	if i >= 0 && i < n {
		return x[i]
	}
	switch b {
	case interpolate.Periodic:
		return x[((i%n)+n)%n]
	case interpolate.Reflection:
		if i < 0 {
			return x[-i]
		}
		return x[n-1-(i-(n-1))]
	case interpolate.Extension:
		if i < 0 {
			return x[0]
		}
		return x[n-1]
	}
	return 0
}

// savgolExact returns the least-squares weights for the d-th Taylor coefficient (times d!) with unit spacing.
func savgolExact(p, d, width int) []float64 {
	h := width / 2
	a := make([][]*big.Rat, p+1)
	pow := func(x, k int) *big.Rat {
		return new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(int64(x)), big.NewInt(int64(k)), nil))
	}
	for i := range a {
		a[i] = make([]*big.Rat, p+2)
		for j := 0; j <= p; j++ {
			s := new(big.Rat)
			for x := -h; x <= h; x++ {
				s.Add(s, pow(x, i+j))
			}
			a[i][j] = s
		}
		a[i][p+1] = new(big.Rat)
	}
	a[d][p+1].SetInt64(1)
	for c := 0; c <= p; c++ {
		q := c
		for a[q][c].Sign() == 0 {
			q++
		}
		a[c], a[q] = a[q], a[c]
		inv := new(big.Rat).Inv(a[c][c])
		for j := c; j <= p+1; j++ {
			a[c][j].Mul(a[c][j], inv)
		}
		for i := range a {
			if i == c || a[i][c].Sign() == 0 {
				continue
			}
			f := new(big.Rat).Set(a[i][c])
			for j := c; j <= p+1; j++ {
				a[i][j].Sub(a[i][j], new(big.Rat).Mul(f, a[c][j]))
			}
		}
	}
	fact := big.NewRat(1, 1)
	for i := 2; i <= d; i++ {
		fact.Mul(fact, big.NewRat(int64(i), 1))
	}
	cs := make([]float64, width)
	for x := -h; x <= h; x++ {
		s := new(big.Rat)
		for i := 0; i <= p; i++ {
			s.Add(s, new(big.Rat).Mul(a[i][p+1], pow(x, i)))
		}
		cs[x+h], _ = s.Mul(s, fact).Float64()
	}
	return cs
}

func c21Kernel(t *T, i int) {
	r := t.R
	width := 2*r.Intn(9) + 1
	if r.Intn(4) == 0 {
		width = 2*r.Intn(31) + 1
	}
	var k *interpolate.Kernel
	var want []float64
	name, site, tol, norm := "", "", 1e-13, 1.0
	p, d, dx := -1, 0, 1.0
	h := width / 2
	ok := true
	switch r.Intn(5) {
	case 0:
		dx = math.Exp(r.NormFloat64() * 2)
		sigma := dx * math.Exp(r.NormFloat64()) * float64(h+1) / 2
		name, site = fmt.Sprintf("Gaussian kernel of width %d, sigma %g, dx %g", width, sigma, dx), "gaussian"
		ok = t.NoPanic(site, func() { k = interpolate.NewGaussianKernel(width, sigma, dx) })
		s := 0.0
		for x := -h; x <= h; x++ {
			u := float64(x) * dx / sigma
			want = append(want, math.Exp(-u*u/2))
			s += want[x+h]
		}
		for j := range want {
			want[j] /= s
		}
	case 1:
		name, site = fmt.Sprintf("top-hat kernel of width %d", width), "tophat"
		ok = t.NoPanic(site, func() { k = interpolate.NewTophatKernel(width) })
		for j := 0; j < width; j++ {
			want = append(want, 1/float64(width))
		}
	default:
		p = r.Intn(7)
		if r.Intn(3) == 0 {
			p = r.Intn(11)
		}
		if p >= width {
			p = r.Intn(width)
		}
		if r.Intn(2) == 0 {
			name, site = fmt.Sprintf("Savitzky-Golay kernel of order %d, width %d", p, width), "savgol"
			ok = t.NoPanic(site, func() { k = interpolate.NewSavGolKernel(p, width) })
		} else {
			d = r.Intn(5)
			if r.Intn(4) == 0 {
				d = r.Intn(p + 1)
			}
			if d > p {
				d = r.Intn(p + 1)
			}
			dx = math.Exp(r.NormFloat64() * 2)
			if r.Intn(3) == 0 { // a table in decreasing order
				dx = -dx
			}
			name, site = fmt.Sprintf("derivative kernel of orders %d, %d, width %d, dx %g", d, p, width, dx), "savgol derivative"
			ok = t.NoPanic(site, func() { k = interpolate.NewSavGolDerivKernel(dx, d, p, width) })
			norm = math.Pow(dx, -float64(d))
		}
		want = savgolExact(p, d, width)
		for j := range want {
			want[j] *= norm
		}
		tol = 1e-10
		if p > 6 { // the solution itself loses digits: up to 4e-10 was measured
			tol = 1e-8
		}
	}
	if !ok {
		return
	}
	scale := 0.0
	for _, c := range want {
		scale += math.Abs(c)
	}
	// The weights are what an impulse far from the ends turns into, reversed.
	n := width * (2 + r.Intn(2))
	imp := make([]float64, n)
	at := h + r.Intn(n-2*h)
	imp[at] = 1
	var out []float64
	if !t.NoPanic(site, func() { out = k.Convolve(imp, interpolate.ZeroPad) }) {
		return
	}
	if len(out) != n {
		t.Failf(site, "%s: %d values from %d", name, len(out), n)
		return
	}
	cs := make([]float64, width)
	for j := range out {
		if w := at - j + h; w >= 0 && w < width {
			cs[w] = out[j]
		} else if out[j] != 0 {
			t.Failf(site, "%s: an impulse at %d of %d reaches point %d (%g)", name, at, n, j, out[j])
			return
		}
	}
	sum := 0.0
	for j, c := range cs {
		sum += c
		e := math.Abs(c-want[j]) / scale
		t.Max(site+" weight error", e)
		if !(e <= tol) {
			t.Failf(site, "%s: weight %d is %g, want %g (all: %v)", name, j, c, want[j], cs)
			return
		}
		sym := cs[width-1-j]
		if d%2 == 1 {
			sym = -sym
		}
		if !(math.Abs(c-sym) <= tol*scale) {
			t.Failf(site, "%s: weights %g and %g are not symmetric", name, c, cs[width-1-j])
			return
		}
	}
	wantSum := 0.0
	if d == 0 {
		wantSum = 1
	}
	if !(math.Abs(sum-wantSum) <= tol*scale) {
		t.Failf(site, "%s: weights sum to %g", name, sum)
		return
	}
	t.Sample("%s: weights %v", name, brief(cs))
	t.Eval(2)
	// Definition at every point, under every boundary condition.
	for _, b := range bounds4 {
		n := width + r.Intn(3)
		switch r.Intn(3) {
		case 0:
			n = width + r.Intn(2*width)
		case 1:
			n = width + r.Intn(4*width+1)
		}
		if r.Intn(400) == 0 {
			n += r.Intn(10000)
		}
		xs := make([]float64, n)
		mag := 0.0
		for j := range xs {
			xs[j] = r.NormFloat64()
			if r.Intn(3) == 0 {
				xs[j] = float64(j + 1)
			}
			mag = math.Max(mag, math.Abs(xs[j]))
		}
		xs0 := clone(xs)
		at := rubbish(n)
		what := fmt.Sprintf("%s on %d points, %s", name, n, boundNames[b])
		csite := "convolve " + boundNames[b]
		if !t.NoPanic(csite, func() {
			out = k.Convolve(xs, b)
			k.ConvolveAt(xs, b, at)
		}) {
			return
		}
		if !equalF(xs, xs0) {
			t.Failf(csite, "%s modified its data", what)
			return
		}
		if !equalF(out, at) {
			t.Failf(csite, "%s: Convolve %v differs from ConvolveAt %v", what, brief(out), brief(at))
			return
		}
		for j := 0; j < n; j++ {
			s := 0.0
			for m, c := range cs {
				s += c * extended(xs, j+m-h, b)
			}
			if !(math.Abs(s-out[j]) <= 1e-12*mag*scale) {
				t.Failf(csite, "%s: point %d is %g, the defining sum %g", what, j, out[j], s)
				return
			}
		}
		t.Eval(2)
		t.Nontrivial("%s/%d/%d/%d/%d/%d", site, width, p, d, n, b)
	}
	// Polynomials of the kernel's order are reproduced away from the ends.
	if p >= 0 {
		n := width + r.Intn(2*width)
		co := make([]float64, p+1)
		for j := range co {
			co[j] = r.NormFloat64()
		}
		off := r.Float64() * float64(n)
		poly := func(u float64, d int) float64 { // d-th derivative in u
			s := 0.0
			for j := p; j >= d; j-- {
				c := co[j]
				for m := 0; m < d; m++ {
					c *= float64(j - m)
				}
				s = s*u + c
			}
			return s
		}
		l := float64(n)
		xs := make([]float64, n)
		mag := 0.0
		for j := range xs {
			xs[j] = poly((float64(j)-off)/l, 0)
			mag = math.Max(mag, math.Abs(xs[j]))
		}
		out := k.Convolve(xs, interpolate.Extension)
		for j := h; j < n-h; j++ {
			want := poly((float64(j)-off)/l, d) * math.Pow(1/(l*dx), float64(d))
			e := math.Abs(out[j]-want) / (mag * scale)
			t.Max("polynomial error", e)
			if !(e <= 1e-10) {
				t.Failf(site, "%s: a polynomial of order %d becomes %g at point %d of %d, want %g", name, p, out[j], j, n, want)
				return
			}
		}
		t.Eval(1)
	}
}

func c21Get(t *T, i int) {
	r := t.R
	n := 1 + r.Intn(8)
	xs := make([]float64, n)
	for j := range xs {
		xs[j] = r.NormFloat64()
	}
	xs0 := clone(xs)
	for _, b := range bounds4 {
		lo, hi := -n, 2*n-1
		switch b {
		case interpolate.Reflection:
			lo, hi = -(n - 1), 2*n-2
		case interpolate.ZeroPad, interpolate.Extension:
			lo, hi = -3*n, 4*n
		}
		for j := lo; j <= hi; j++ {
			var got float64
			if !t.NoPanic("get", func() { got = b.Get(xs, j) }) {
				return
			}
			if want := extended(xs, j, b); got != want {
				t.Failf("get", "%s.Get(%v, %d) = %g, want %g", boundNames[b], xs, j, got, want)
				return
			}
		}
		t.Eval(hi - lo + 1)
	}
	if !equalF(xs, xs0) {
		t.Failf("get", "Get modified its data")
	}
	t.Nontrivial("get%d", n)
}

func c21Refused(t *T, i int) {
	r := t.R
	ref := func(what string, f func()) {
		t.Refuses("refused", what, func() error { f(); return nil })
	}
	even := 2 * r.Intn(20)
	odd := even + 1
	dx := r.Float64() + 0.5
	p := r.Intn(7)
	ref(fmt.Sprintf("a Gaussian kernel of width %d", even), func() { interpolate.NewGaussianKernel(even, 1, dx) })
	ref(fmt.Sprintf("a top-hat kernel of width %d", even), func() { interpolate.NewTophatKernel(even) })
	ref(fmt.Sprintf("a Savitzky-Golay kernel of width %d", even), func() { interpolate.NewSavGolKernel(p, even) })
	ref(fmt.Sprintf("a derivative kernel of width %d", even), func() { interpolate.NewSavGolDerivKernel(dx, 0, p, even) })
	big := odd + r.Intn(3)
	ref(fmt.Sprintf("a Savitzky-Golay kernel of order %d, width %d", big, odd), func() { interpolate.NewSavGolKernel(big, odd) })
	ref(fmt.Sprintf("a derivative kernel of order %d, width %d", big, odd), func() { interpolate.NewSavGolDerivKernel(dx, r.Intn(2), big, odd) })
	w := 9 + 2*r.Intn(5)
	d := p + 1 + r.Intn(2)
	ref(fmt.Sprintf("a derivative kernel of orders %d, %d", d, p), func() { interpolate.NewSavGolDerivKernel(dx, d, p, w) })
	ref("a Savitzky-Golay kernel of negative order", func() { interpolate.NewSavGolKernel(-1-r.Intn(3), w) })
	ref("a derivative kernel of negative derivative order", func() { interpolate.NewSavGolDerivKernel(dx, -1-r.Intn(3), p, w) })
	neg := -odd
	if r.Intn(2) == 0 {
		neg = -even
	}
	ref(fmt.Sprintf("a top-hat kernel of width %d", neg), func() { interpolate.NewTophatKernel(neg) })
	t.Eval(10)
	t.Nontrivial("%d.%d.%d", even, p, d)
}
