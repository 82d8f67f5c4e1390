package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/phil-mansfield/gotetra/render/geom"
)

func init() {
	register("C14", "Grids of random widths (from Order+1 up, other axes from 1), origins, cell widths; fields are polynomials along one axis with random coefficients on every line, or random numbers on periodic grids; every combination of order, axis, operation and periodicity. Combined operators on random periodic fields and polynomials. Invalid axes, orders and widths run in processes of their own. Non-trivial: one derivative field was compared or one refusal observed.",
		Group{"poly", 3000, 60000, 2, c14Poly},
		Group{"periodic", 1500, 30000, 2, c14Periodic},
		Group{"combined", 1500, 30000, 2, c14Combined},
		Group{"refused", 40, 120, 4, c14Refused})
	ops["deriv"] = opDeriv
}

func derivGrid(t *T, order, axis int) (*geom.GridLocation, [3]int) {
	r := t.R
	var w, o [3]int
	for j := range w {
		w[j] = 1 + r.Intn(7)
		o[j] = r.Intn(41) - 20
	}
	w[axis] = order + 1 + r.Intn(6)
	if r.Intn(3) == 0 {
		w[axis] = order + 1
	} else if r.Intn(8) == 0 {
		w[axis] = 30 + r.Intn(300)
	}
	cells := w[axis]
	if r.Intn(3) > 0 {
		cells += 1 + r.Intn(100)
	}
	for j := range w {
		if w[j] > cells {
			w[j] = cells
		}
	}
	L := math.Exp(4 * r.NormFloat64())
	return geom.NewGridLocation(o, w, L, cells), w
}

func opName(o geom.DerivOp) string {
	return map[geom.DerivOp]string{geom.None: "None", geom.Add: "Add", geom.Subtract: "Subtract"}[o]
}

// apply runs Deriv on copies, checking that inputs and options survive, and returns the derivative
// it wrote, added or subtracted.
func (t *T) applyDeriv(site string, g *geom.GridLocation, vals []float32, axis int, opt *geom.DerivOptions) []float64 {
	r := t.R
	in := append([]float32{}, vals...)
	out := make([]float32, len(vals))
	base := make([]float32, len(vals))
	op := geom.None
	if opt != nil {
		op = opt.Op
	}
	scale := float32(0)
	for _, v := range vals {
		if a := float32(math.Abs(float64(v))); a > scale {
			scale = a
		}
	}
	dx := float32(g.BoxWidth / float64(g.Cells))
	for k := range out {
		out[k] = float32(r.NormFloat64()) * scale / dx
		if op == geom.None && k%3 == 0 {
			out[k] = float32(math.NaN())
		}
		base[k] = out[k]
	}
	var before geom.DerivOptions
	def := *geom.DerivOptionsDefault
	if opt != nil {
		before = *opt
	}
	gb := *g
	if !t.NoPanic(site+"/panic", func() { g.Deriv(in, out, axis, opt) }) {
		return nil
	}
	if opt != nil && *opt != before || *geom.DerivOptionsDefault != def || *g != gb {
		t.Failf(site+"/options", "Deriv changes its options or grid: %+v became %+v, default %+v", before, opt, *geom.DerivOptionsDefault)
	}
	for k := range in {
		if in[k] != vals[k] {
			t.Failf(site+"/input", "Deriv changes its input")
			return nil
		}
	}
	d := make([]float64, len(out))
	for k := range out {
		switch op {
		case geom.None:
			d[k] = float64(out[k])
		case geom.Add:
			d[k] = float64(out[k]) - float64(base[k])
		case geom.Subtract:
			d[k] = float64(base[k]) - float64(out[k])
		}
	}
	return d
}

func (t *T) sameField(site, what string, got, want []float64, tol float64, w [3]int) bool {
	for k := range want {
		t.Eval(1)
		if !(math.Abs(got[k]-want[k]) <= tol) {
			t.Failf(site, "%s: %g at %v of a grid of %v, want %g (tolerance %.3g)", what, got[k], [3]int{k % w[0], k / w[0] % w[1], k / w[0] / w[1]}, w, want[k], tol)
			return false
		}
	}
	return true
}

func maxAbs(x []float32) float64 {
	m := 0.0
	for _, v := range x {
		m = math.Max(m, math.Abs(float64(v)))
	}
	return m
}

func derivOpts(t *T, i int) (*geom.DerivOptions, int) {
	order := []int{2, 4}[i%2]
	opt := &geom.DerivOptions{Periodic: t.R.Intn(2) == 0, Op: []geom.DerivOp{geom.None, geom.Add, geom.Subtract}[i/6%3], Order: order}
	return opt, order
}

func c14Poly(t *T, i int) {
	r := t.R
	opt, order := derivOpts(t, i)
	axis := i / 2 % 3
	g, w := derivGrid(t, order, axis)
	if g.Cells == w[axis] {
		opt.Periodic = false
	}
	if i%20 == 1 {
		opt = nil
	}
	n := w[0] * w[1] * w[2]
	step := []int{1, w[0], w[0] * w[1]}[axis]
	dx := g.BoxWidth / float64(g.Cells)
	vals, want := make([]float32, n), make([]float64, n)
	coef := map[int][]float64{}
	deg := r.Intn(order + 1)
	if r.Intn(2) == 0 {
		deg = order
	}
	for k := 0; k < n; k++ {
		x := k / step % w[axis]
		line := k - x*step
		c := coef[line]
		if c == nil {
			c = make([]float64, deg+1)
			for m := range c {
				c[m] = r.NormFloat64()
			}
			coef[line] = c
		}
		u := 2*float64(x)/float64(w[axis]-1) - 1
		p := 1.0
		v := 0.0
		for m := 0; m <= deg; m++ {
			v += c[m] * p
			if m < deg {
				want[k] += c[m+1] * float64(m+1) * p * 2 / float64(w[axis]-1) / dx
			}
			p *= u
		}
		vals[k] = float32(v)
	}
	got := t.applyDeriv("poly", g, vals, axis, opt)
	if got == nil {
		return
	}
	// float32 data and arithmetic: 128/12 is the largest sum of coefficients.
	tol := 3e-6 * maxAbs(vals) * 128 / 12 / dx
	oname := "default"
	if opt != nil {
		oname = fmt.Sprintf("%+v", *opt)
	}
	if t.sameField("poly", fmt.Sprintf("derivative along axis %d of polynomials of degree %d, options %s", axis, deg, oname), got, want, tol, w) {
		t.Nontrivial("poly %v %d %s %d", w, axis, oname, deg)
	}
}

func c14Periodic(t *T, i int) {
	r := t.R
	opt, order := derivOpts(t, i)
	opt.Periodic = true
	axis := i / 2 % 3
	g, w := derivGrid(t, order, axis)
	g = geom.NewGridLocation(g.Origin, w, g.BoxWidth, w[axis])
	n := w[0] * w[1] * w[2]
	dx := g.BoxWidth / float64(g.Cells)
	vals := make([]float32, n)
	want := make([]float64, n)
	for k := range vals {
		vals[k] = float32(r.NormFloat64())
	}
	step := []int{1, w[0], w[0] * w[1]}[axis]
	for k := range vals {
		x := k / step % w[axis]
		at := func(d int) float64 { return float64(vals[k+(pmod(x+d, w[axis])-x)*step]) }
		if order == 2 {
			want[k] = (at(1) - at(-1)) / (2 * dx)
		} else {
			want[k] = (-at(2) + 8*at(1) - 8*at(-1) + at(-2)) / (12 * dx)
		}
	}
	got := t.applyDeriv("periodic", g, vals, axis, opt)
	if got == nil {
		return
	}
	if t.sameField("periodic", fmt.Sprintf("derivative along periodic axis %d, options %+v", axis, *opt), got, want, 3e-6*maxAbs(vals)*3/dx, w) {
		t.Nontrivial("periodic %v %d %+v", w, axis, *opt)
	}
}

func c14Combined(t *T, i int) {
	r := t.R
	order := []int{2, 4}[i%2]
	var w, o [3]int
	for j := range w {
		w[j] = order + 1 + r.Intn(5)
		o[j] = r.Intn(20) - 10
	}
	cells := w[0]
	kind := i / 2 % 3
	switch kind {
	case 0: // periodic on all axes
		w = [3]int{w[0], w[0], w[0]}
	case 1:
		w[1] = w[0] // periodic on some axes
		if w[2] > cells {
			w[2] = cells
		}
	default:
		cells = w[0] + w[1] + w[2]
	}
	L := math.Exp(3 * r.NormFloat64())
	g := geom.NewGridLocation(o, w, L, cells)
	n := w[0] * w[1] * w[2]
	opt := &geom.DerivOptions{Periodic: r.Intn(4) > 0, Op: geom.None, Order: order}
	var pass *geom.DerivOptions = opt
	if i%10 == 1 {
		pass = nil
		opt = &geom.DerivOptions{Periodic: false, Op: geom.None, Order: 4}
	}
	def := *geom.DerivOptionsDefault
	dx := L / float64(cells)
	newVec := func() (v [3][]float32) {
		for j := range v {
			v[j] = make([]float32, n)
			for k := range v[j] {
				v[j][k] = float32(r.NormFloat64())
			}
		}
		return
	}
	f, out, curl, vec := newVec(), newVec(), newVec(), newVec()
	div := make([]float32, n)
	for k := range div {
		div[k] = float32(math.NaN())
		for j := 0; j < 3; j++ {
			out[j][k], curl[j][k] = float32(math.NaN()), float32(math.NaN())
		}
	}
	cp := [3][]float32{}
	for j := range vec {
		cp[j] = append([]float32{}, vec[j]...)
	}
	s0 := append([]float32{}, f[0]...)
	if !t.NoPanic("combined/panic", func() {
		g.Gradient(f[0], out, pass)
		g.Curl(vec, curl, pass)
		g.Divergence(vec, div, pass)
	}) {
		return
	}
	if *opt != (geom.DerivOptions{Periodic: opt.Periodic, Op: geom.None, Order: opt.Order}) || *geom.DerivOptionsDefault != def {
		t.Failf("combined/options", "options after Gradient, Curl and Divergence: %+v, default %+v (was %+v)", *opt, *geom.DerivOptionsDefault, def)
		*geom.DerivOptionsDefault = def
		return
	}
	for k := range s0 {
		if s0[k] != f[0][k] || cp[0][k] != vec[0][k] || cp[1][k] != vec[1][k] || cp[2][k] != vec[2][k] {
			t.Failf("combined/input", "an input was changed")
			return
		}
	}
	// The combinations of single derivatives.
	d := func(v []float32, axis int) []float64 {
		o := make([]float32, n)
		x := *opt
		g.Deriv(v, o, axis, &x)
		out := make([]float64, n)
		for k := range o {
			out[k] = float64(o[k])
		}
		return out
	}
	f64 := func(v []float32) []float64 {
		o := make([]float64, n)
		for k := range v {
			o[k] = float64(v[k])
		}
		return o
	}
	tol := 3e-6 * 4 * 128 / 12 / dx * 3
	for a := 0; a < 3; a++ {
		if !t.sameField("combined/gradient", fmt.Sprintf("component %d of the gradient, options %+v", a, *opt), f64(out[a]), d(f[0], a), tol, w) {
			return
		}
		b, c := (a+1)%3, (a+2)%3
		want := d(vec[c], b)
		for k, v := range d(vec[b], c) {
			want[k] -= v
		}
		if !t.sameField("combined/curl", fmt.Sprintf("component %d of the curl, options %+v", a, *opt), f64(curl[a]), want, tol, w) {
			return
		}
	}
	want := d(vec[0], 0)
	for a := 1; a < 3; a++ {
		for k, v := range d(vec[a], a) {
			want[k] += v
		}
	}
	if !t.sameField("combined/divergence", fmt.Sprintf("divergence, options %+v", *opt), f64(div), want, tol, w) {
		return
	}
	// Identities.
	cg, dc := newVec(), make([]float32, n)
	g.Curl(out, cg, pass)
	g.Divergence(curl, dc, pass)
	zero := make([]float64, n)
	big := 0.0
	for a := 0; a < 3; a++ {
		big = math.Max(big, math.Max(maxAbs(out[a]), maxAbs(curl[a])))
	}
	ztol := 3e-6 * big * 128 / 12 / dx * 3
	for a := 0; a < 3; a++ {
		if !t.sameField("combined/curl-of-gradient", "curl of a gradient", f64(cg[a]), zero, ztol, w) {
			return
		}
	}
	if !t.sameField("combined/divergence-of-curl", "divergence of a curl", f64(dc), zero, ztol, w) {
		return
	}
	// A rigid rotation about z has curl (0, 0, 2).
	if kind == 2 {
		rot := newVec()
		for k := 0; k < n; k++ {
			x, y := float64(k%w[0])*dx, float64(k/w[0]%w[1])*dx
			rot[0][k], rot[1][k], rot[2][k] = float32(-y), float32(x), 0
		}
		rc := newVec()
		g.Curl(rot, rc, pass)
		for k := 0; k < n; k++ {
			t.Eval(1)
			if math.Abs(float64(rc[2][k])-2) > 1e-3 || math.Abs(float64(rc[0][k])) > 1e-3 || math.Abs(float64(rc[1][k])) > 1e-3 {
				t.Failf("combined/rotation", "curl of a rotation about z: (%g, %g, %g)", rc[0][k], rc[1][k], rc[2][k])
				return
			}
		}
	}
	// Add and Subtract accumulate a whole combination.
	for _, op := range []geom.DerivOp{geom.Add, geom.Subtract} {
		ao := &geom.DerivOptions{Periodic: opt.Periodic, Op: op, Order: opt.Order}
		before := *ao
		sign, name := 1.0, "added to"
		if op == geom.Subtract {
			sign, name = -1, "subtracted from"
		}
		acc, accC, accD := newVec(), newVec(), newVec()[0]
		for j := range acc {
			for k := range acc[j] {
				acc[j][k] /= float32(dx)
				accC[j][k] /= float32(dx)
				if j == 0 {
					accD[k] /= float32(dx)
				}
			}
		}
		plus := func(base, x []float32) []float64 {
			o := make([]float64, n)
			for k := range o {
				o[k] = float64(base[k]) + sign*float64(x[k])
			}
			return o
		}
		var wantG, wantC [3][]float64
		for j := range acc {
			wantG[j], wantC[j] = plus(acc[j], out[j]), plus(accC[j], curl[j])
		}
		wantD := plus(accD, div)
		if !t.NoPanic("combined/panic", func() {
			g.Gradient(f[0], acc, ao)
			g.Curl(vec, accC, ao)
			g.Divergence(vec, accD, ao)
		}) {
			return
		}
		if *ao != before {
			t.Failf("combined/options", "options %+v became %+v", before, *ao)
			return
		}
		for j := range acc {
			if !t.sameField("combined/accumulate", fmt.Sprintf("component %d of a field with a gradient %s it, options %+v", j, name, *ao), f64(acc[j]), wantG[j], 2*tol, w) ||
				!t.sameField("combined/accumulate", fmt.Sprintf("component %d of a field with a curl %s it, options %+v", j, name, *ao), f64(accC[j]), wantC[j], 2*tol, w) {
				return
			}
		}
		if !t.sameField("combined/accumulate", fmt.Sprintf("a field with a divergence %s it, options %+v", name, *ao), f64(accD), wantD, 2*tol, w) {
			return
		}
	}
	if *geom.DerivOptionsDefault != def {
		t.Failf("combined/options", "default options changed from %+v to %+v", def, *geom.DerivOptionsDefault)
		*geom.DerivOptionsDefault = def
	}
	t.Nontrivial("combined %v %d %+v", w, cells, *opt)
}

// opDeriv: what axis order periodic wx wy wz cells
func opDeriv(a []string) {
	x := make([]int, 7)
	for i := range x {
		x[i], _ = strconv.Atoi(a[i+1])
	}
	w := [3]int{x[3], x[4], x[5]}
	g := geom.NewGridLocation([3]int{}, w, 10, x[6])
	n := w[0] * w[1] * w[2]
	mk := func() []float32 { return make([]float32, n) }
	opt := &geom.DerivOptions{Periodic: x[2] == 1, Op: geom.None, Order: x[1]}
	switch a[0] {
	case "deriv":
		g.Deriv(mk(), mk(), x[0], opt)
	case "gradient":
		g.Gradient(mk(), [3][]float32{mk(), mk(), mk()}, opt)
	case "divergence":
		g.Divergence([3][]float32{mk(), mk(), mk()}, mk(), opt)
	case "curl":
		g.Curl([3][]float32{mk(), mk(), mk()}, [3][]float32{mk(), mk(), mk()}, opt)
	}
}

func c14Refused(t *T, i int) {
	r := t.R
	per := r.Intn(2)
	w := [3]int{6, 7, 8}
	what, axis, order := "deriv", r.Intn(3), pick(r, 2, 4)
	switch {
	case i < 6:
		axis = []int{-1, 3, 4, -2, 100, 6}[i]
	case i < 18:
		order = []int{0, 1, 3, 5, 6, -2, -4, 8, 24, 42, 7, 100}[i-6]
	case i < 30:
		if i%2 == 0 {
			order, w[axis] = 2, 1+r.Intn(2)
		} else {
			order, w[axis] = 4, 1+i/2%4
			per = i / 8 % 2
		}
	default:
		what = []string{"gradient", "divergence", "curl"}[i%3]
		ax := r.Intn(3)
		if i%2 == 0 {
			order, w[ax] = 4, 1+r.Intn(4)
		} else {
			order = pick(r, 1, 3, 5, 0)
		}
	}
	cells := 20
	if per == 1 && axis >= 0 && axis < 3 {
		cells = w[axis]
	}
	args := []string{"deriv", what}
	for _, x := range []int{axis, order, per, w[0], w[1], w[2], cells} {
		args = append(args, fmt.Sprint(x))
	}
	res, ok := t.op(args...)
	t.Eval(1)
	if ok {
		t.Failf("refused", "%s of order %d along axis %d of a grid of %v (periodic %d, %d cells) was not refused", what, order, axis, w, per, cells)
		return
	}
	if strings.TrimSpace(res.Err) == "" {
		t.Failf("refused/message", "no message")
	}
	t.Nontrivial("refused %v", args)
}
