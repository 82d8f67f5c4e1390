package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"

	"github.com/phil-mansfield/gotetra/math/rand"
	"github.com/phil-mansfield/gotetra/render/geom"
)

func init() {
	register("C15", "Every anchor class of lattices of 2-24 sites per side and every skip (all six directions, plus all eight centred directions at every face, edge and corner); tetrahedra of random shape, size, offset, orientation, corner order, reused after other tetrahedra; 20,000 points per sampling case from every generator and from the harness's own numbers. Non-trivial: a cube was tiled, a centred site decided, a tetrahedron's geometry compared or a sample tested.",
		Group{"kuhn", 800, 30000, 2, rep(10, c15Kuhn)},
		Group{"centred", 400, 12000, 1, rep(10, c15Centred)},
		Group{"geometry", 3000, 100000, 2, rep(20, c15Geometry)},
		Group{"sampling", 800, 40000, 6, c15Sampling},
		Group{"refused", 24, 60, 2, c15Refused})
	ops["tetraidx"] = opTetraIdx
}

// det6 is six times the signed volume of a tetrahedron.
func det6(p [4][3]float64) float64 {
	var a [3][3]float64
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			a[i][j] = p[i+1][j] - p[0][j]
		}
	}
	return a[0][0]*(a[1][1]*a[2][2]-a[1][2]*a[2][1]) -
		a[0][1]*(a[1][0]*a[2][2]-a[1][2]*a[2][0]) +
		a[0][2]*(a[1][0]*a[2][1]-a[1][1]*a[2][0])
}

// bary4 gives the barycentric coordinates of x.
func bary4(p [4][3]float64, x [3]float64) [4]float64 {
	d := det6(p)
	var b [4]float64
	for i := range b {
		q := p
		q[i] = x
		b[i] = det6(q) / d
	}
	return b
}

func latticeXYZ(idx, n int64) [3]int64 { return [3]int64{idx % n, idx / n % n, idx / n / n} }

func c15Kuhn(t *T, i int) {
	r := t.R
	n := int64(2 + r.Intn(23))
	skip := int64(1 + r.Intn(int(n-1)))
	if r.Intn(3) == 0 {
		skip = 1
	}
	var a [3]int64
	for j := range a {
		a[j] = int64(r.Intn(int(n - skip)))
		switch r.Intn(4) {
		case 0:
			a[j] = 0
		case 1:
			a[j] = n - skip - 1
		}
	}
	idx := a[0] + n*a[1] + n*n*a[2]
	var tets [][4][3]float64
	ti := &geom.TetraIdxs{}
	for dir := 0; dir < geom.TetraDirCount; dir++ {
		var got *geom.TetraIdxs
		if r.Intn(2) == 0 {
			got = geom.NewTetraIdxs(idx, n, skip, dir)
		} else {
			got = ti.Init(idx, n, skip, dir)
		}
		if skip == 1 {
			c := (&geom.TetraIdxs{}).InitCartesian(a[0], a[1], a[2], n, dir)
			x, y := append([]int64{}, got[:]...), append([]int64{}, c[:]...)
			sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
			sort.Slice(y, func(i, j int) bool { return y[i] < y[j] })
			if fmt.Sprint(x) != fmt.Sprint(y) {
				t.Failf("kuhn/cartesian", "InitCartesian(%v) gives corners %v and Init(%d) gives %v, direction %d", a, *c, idx, *got, dir)
			}
		}
		var tet [4][3]float64
		lo, hi := false, false
		for i, k := range got {
			t.Eval(1)
			if k < 0 || k >= n*n*n {
				t.Failf("kuhn/range", "corner %d of direction %d at %v (lattice %d, skip %d) is index %d", i, dir, a, n, skip, k)
				return
			}
			q := latticeXYZ(k, n)
			zero, full := 0, 0
			for j := range q {
				d := q[j] - a[j]
				if d != 0 && d != skip {
					t.Failf("kuhn/cube", "corner %d of direction %d at %v is %v, not a corner of the cube of side %d", i, dir, a, q, skip)
					return
				}
				if d == 0 {
					zero++
				} else {
					full++
				}
				tet[i][j] = float64(d)
			}
			lo, hi = lo || zero == 3, hi || full == 3
		}
		if !lo || !hi {
			t.Failf("kuhn/diagonal", "direction %d at %v (lattice %d, skip %d) does not contain the main diagonal: corners %v", dir, a, n, skip, *got)
		}
		if v := math.Abs(det6(tet)); v != float64(skip*skip*skip) {
			t.Failf("kuhn/volume", "direction %d with skip %d has 6 x volume %g, want %d", dir, skip, v, skip*skip*skip)
			return
		}
		tets = append(tets, tet)
	}
	for k := 0; k < 40; k++ {
		x := [3]float64{r.Float64() * float64(skip), r.Float64() * float64(skip), r.Float64() * float64(skip)}
		in, edge := 0, false
		for _, p := range tets {
			b := bary4(p, x)
			m := math.Min(math.Min(b[0], b[1]), math.Min(b[2], b[3]))
			if math.Abs(m) < 1e-9 {
				edge = true
			}
			if m > 0 {
				in++
			}
		}
		t.Eval(1)
		if in != 1 && !edge {
			t.Failf("kuhn/tiling", "point %v of the cube of side %d lies in %d of its six tetrahedra", x, skip, in)
			return
		}
	}
	t.Count("cubes", 1)
	t.Nontrivial("n=%d skip=%d a=%v", n, skip, a)
}

func c15Centred(t *T, i int) {
	r := t.R
	n := int64(1 + r.Intn(16))
	skip := int64(1 + r.Intn(int(n)+1))
	if r.Intn(2) == 0 {
		skip = 1
	}
	for k := 0; k < 30; k++ {
		var a [3]int64
		for j := range a {
			a[j] = int64(r.Intn(int(n)))
			switch r.Intn(3) {
			case 0:
				a[j] = 0
			case 1:
				a[j] = n - 1
			}
		}
		idx := a[0] + n*a[1] + n*n*a[2]
		// The eight directions are the eight octants, in any order.
		var want, got []string
		for o := 0; o < 8; o++ {
			ok := true
			s := []int64{idx}
			for j, m := 0, int64(1); j < 3; j, m = j+1, m*n {
				d := skip
				if o>>j&1 == 1 {
					d = -skip
				}
				ok = ok && a[j]+d >= 0 && a[j]+d < n
				s = append(s, idx+d*m)
			}
			if ok {
				sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
				want = append(want, fmt.Sprint(s))
			}
		}
		for dir := 0; dir < geom.TetraCenteredCount; dir++ {
			t.Eval(1)
			ti, ok := (&geom.TetraIdxs{}).InitCentered(idx, n, skip, dir)
			if ok {
				s := append([]int64{}, ti[:]...)
				sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
				got = append(got, fmt.Sprint(s))
			}
		}
		sort.Strings(want)
		sort.Strings(got)
		if fmt.Sprint(want) != fmt.Sprint(got) {
			t.Failf("centred/sites", "site %v of a lattice of %d, skip %d: accepted centred tetrahedra %v, want %v", a, n, skip, got, want)
			return
		}
		t.Count("centred_accepted", len(got))
		t.Count("centred_refused", 8-len(got))
	}
	t.Nontrivial("n=%d skip=%d", n, skip)
}

// c15Tet draws a tetrahedron that is not too flat, and the offset-to-size ratio that bounds its
// rounding.
func c15Tet(t *T) (c [4]geom.Vec, p [4][3]float64, size, cond float64) {
	return c15TetNear(t, nil)
}

// c15TetNear does the same for a tetrahedron which shares some corners with another one.
func c15TetNear(t *T, old *[4]geom.Vec) (c [4]geom.Vec, p [4][3]float64, size, cond float64) {
	r := t.R
	for try := 0; ; try++ {
		size = math.Exp(3 * r.NormFloat64())
		if old != nil && try < 50 {
			size = 0
			for i := range old {
				for j := range old[i] {
					size = math.Max(size, math.Abs(float64(old[i][j]-old[0][j])))
				}
			}
		}
		off := size * []float64{0, 1, 10, 100}[r.Intn(4)]
		var o [3]float64
		for j := range o {
			o[j] = off * (2*r.Float64() - 1)
		}
		flat := [3]float64{1, 1, 1}
		if r.Intn(3) == 0 {
			flat[r.Intn(3)] = 0.1
		}
		for i := range c {
			for j := range c[i] {
				v := o[j] + size*flat[j]*(2*r.Float64()-1)
				if r.Intn(8) == 0 {
					v = o[j]
				}
				c[i][j] = float32(v)
			}
		}
		if r.Intn(10) == 0 {
			i := r.Intn(4)
			c[i] = geom.Vec{}
		}
		if old != nil && try < 50 {
			n := r.Intn(4)
			for _, i := range r.Perm(4)[n:] {
				// One to four corners remain; when all do, two may have been exchanged.
				c[i] = old[i]
			}
			for _, i := range r.Perm(4)[:n] {
				for j := range c[i] {
					c[i][j] = old[i][j] + float32(size*r.NormFloat64())
					if r.Intn(3) == 0 {
						c[i][j] = old[i][j]
					}
				}
			}
			if r.Intn(3) == 0 {
				a, b := r.Intn(4), r.Intn(4)
				c[a], c[b] = c[b], c[a]
			}
		}
		leg, far := 0.0, 0.0
		for i := range c {
			for j := range c[i] {
				p[i][j] = float64(c[i][j])
				far = math.Max(far, math.Abs(p[i][j]))
				leg = math.Max(leg, math.Abs(p[i][j]-p[0][j]))
			}
		}
		v := math.Abs(det6(p))
		if leg == 0 || v < 0.01*leg*leg*leg || far > 300*leg {
			continue
		}
		// Relative error of a barycentric coordinate or volume when legs carry rounding errors of
		// the coordinates.
		return c, p, leg, (1 + far/leg) * leg * leg * leg / v
	}
}

func c15Geometry(t *T, i int) {
	r := t.R
	tet := &geom.Tetra{}
	var last *[4]geom.Vec
	for k := 0; k < 4; k++ {
		c, p, size, cond := c15TetNear(t, last)
		if k == 3 || r.Intn(4) == 0 {
			last = nil
		} else {
			last = &c
		}
		if cond > 2e3 {
			continue
		}
		if k == 0 && r.Intn(2) == 0 {
			tet = geom.NewTetra(&c[0], &c[1], &c[2], &c[3])
		} else if got := tet.Init(&c[0], &c[1], &c[2], &c[3]); got != tet {
			t.Failf("geometry/init", "Init returns another tetrahedron")
		}
		vol := math.Abs(det6(p)) / 6
		steps := r.Perm(4)
		if r.Intn(2) == 0 {
			steps = append(steps, r.Perm(4)...)
		}
		for _, step := range steps {
			t.Eval(1)
			switch step {
			case 0:
				if v := tet.Volume(); !(math.Abs(v-vol) <= 2e-6*cond*vol) {
					t.Failf("geometry/volume", "tetrahedron %v has volume %g, want %g (calculation %d of this value)", c, v, vol, k)
					return
				}
				t.Max("volume_rel_err_over_cond", math.Abs(tet.Volume()-vol)/vol/cond)
			case 1:
				b := tet.Barycenter()
				for j := range b {
					want := (p[0][j] + p[1][j] + p[2][j] + p[3][j]) / 4
					if !(math.Abs(float64(b[j])-want) <= 1e-6*(size+math.Abs(want))) {
						t.Failf("geometry/barycenter", "tetrahedron %v has barycentre %v, want component %d = %g", c, *b, j, want)
						return
					}
				}
			case 2:
				for q := 0; q < 12; q++ {
					var x [3]float64
					// Random barycentric coordinates: inside, or outside past one or more faces, or far away.
					w := [4]float64{}
					sum := 0.0
					for i := range w {
						w[i] = r.ExpFloat64()
						if q%2 == 1 && r.Intn(2) == 0 {
							w[i] = -w[i] * math.Exp(r.NormFloat64()-1)
						}
						sum += w[i]
					}
					if math.Abs(sum) < 0.1 {
						continue
					}
					for j := range x {
						for i := range w {
							x[j] += w[i] / sum * p[i][j]
						}
					}
					v := geom.Vec{float32(x[0]), float32(x[1]), float32(x[2])}
					b := bary4(p, [3]float64{float64(v[0]), float64(v[1]), float64(v[2])})
					in, clear, most := true, true, 1.0
					for i := range b {
						most = math.Max(most, math.Abs(b[i]))
					}
					for i := range b {
						in = in && b[i] > 0
						clear = clear && math.Abs(b[i]) > 1e-3+2e-6*cond*most
					}
					if !clear || 2e-6*cond > 2e-5 && in {
						continue
					}
					t.Eval(1)
					if got := tet.Contains(&v); got != in {
						t.Failf("geometry/contains", "Contains(%v) is %v for tetrahedron %v; barycentric coordinates %.4g", v, got, c, b)
						return
					}
					if in {
						t.Count("points_inside", 1)
					} else {
						t.Count("points_outside", 1)
					}
				}
			case 3:
				cw := size * math.Exp(1.5*r.NormFloat64()-1)
				if r.Intn(3) == 0 {
					cw = math.Exp2(math.Round(math.Log2(cw)))
				}
				if x := math.Abs(p[r.Intn(4)][r.Intn(3)]); x > 0 && r.Intn(2) == 0 {
					// A corner on a cell edge.
					cw = x / math.Ceil(x/cw)
				}
				cb := tet.CellBounds(cw)
				for j := 0; j < 3; j++ {
					lo, hi := math.Inf(1), math.Inf(-1)
					for i := range p {
						lo, hi = math.Min(lo, p[i][j]/cw), math.Max(hi, p[i][j]/cw)
					}
					a, z := float64(cb.Origin[j]), float64(cb.Origin[j]+cb.Width[j]-1)
					if !cellOf(a, lo) || !cellOf(z, hi) {
						t.Failf("geometry/cellbounds", "tetrahedron %v spans %v to %v cells on axis %d, CellBounds(%g) gives cells %v to %v", c, lo, hi, j, cw, a, z)
						return
					}
				}
				at := geom.CellBounds{Origin: [3]int{r.Intn(99), 5, 5}, Width: [3]int{7, r.Intn(99), 7}}
				tet.CellBoundsAt(cw, &at)
				if at != *cb {
					t.Failf("geometry/cellbounds-at", "CellBoundsAt gives %+v and CellBounds %+v", at, *cb)
				}
			}
		}
		for i := range c {
			if tet.Corners[i] != c[i] {
				t.Failf("geometry/corners", "corner %d changed from %v to %v", i, c[i], tet.Corners[i])
			}
		}
		t.Count("tetrahedra", 1)
		t.Nontrivial("%v", c)
	}
}

// cellOf tells whether cell may hold x, allowing for one rounding of x when it lies on a cell edge.
func cellOf(cell, x float64) bool {
	f := math.Floor(x)
	if cell == f {
		return true
	}
	e := 1e-12 * math.Abs(x)
	return x-f <= e && cell == f-1 && x != f || f+1-x <= e && cell == f+1
}

var c15Gens = []rand.GeneratorType{rand.Xorshift, rand.Golang, rand.Tausworthe}

// uniformBary tests that barycentric coordinates are spread evenly over a tetrahedron.
func (t *T) uniformBary(site string, bs [][4]float64) {
	n := float64(len(bs))
	check := func(what string, sum, mean, sd float64) {
		t.Eval(1)
		z := (sum/n - mean) / sd * math.Sqrt(n)
		t.Max("largest_z", math.Abs(z))
		if math.Abs(z) > 6.5 {
			t.Failf(site+"/uniform", "%s of %d points is %.5f, want %.5f (%.1f standard deviations)", what, len(bs), sum/n, mean, z)
		}
	}
	// Moments of the Dirichlet(1,1,1,1) distribution.
	for i := 0; i < 4; i++ {
		s1, s2 := 0.0, 0.0
		for _, b := range bs {
			s1 += b[i]
			s2 += b[i] * b[i]
		}
		check(fmt.Sprintf("mean coordinate %d", i), s1, 0.25, math.Sqrt(3./80))
		check(fmt.Sprintf("mean squared coordinate %d", i), s2, 0.1, math.Sqrt(1./35-0.01))
		for j := 0; j < i; j++ {
			s := 0.0
			for _, b := range bs {
				s += b[i] * b[j]
			}
			check(fmt.Sprintf("mean product of coordinates %d and %d", i, j), s, 0.05, math.Sqrt(4./840-0.0025))
		}
	}
	// The tetrahedron is symmetric under exchange of corners: all 24 orderings are equally likely, and
	// the smallest coordinate exceeds a with probability (1-4a)^3.
	order := map[[4]int]float64{}
	var small [8]float64
	for _, b := range bs {
		o := [4]int{0, 1, 2, 3}
		sort.Slice(o[:], func(i, j int) bool { return b[o[i]] < b[o[j]] })
		order[o]++
		m := math.Max(0, math.Min(0.25, b[o[0]]))
		u := math.Pow(1-4*m, 3)
		small[int(math.Min(7, 8*u))]++
	}
	for o, k := range order {
		check(fmt.Sprintf("fraction with coordinates ordered %v", o), k, 1./24, math.Sqrt(23)/24)
	}
	if len(order) != 24 {
		t.Failf(site+"/uniform", "only %d of 24 orderings of barycentric coordinates occur in %d points", len(order), len(bs))
	}
	for i, k := range small {
		check(fmt.Sprintf("fraction in shell %d", i), k, 1./8, math.Sqrt(7)/8)
	}
}

func c15Sampling(t *T, i int) {
	r := t.R
	var c [4]geom.Vec
	var p [4][3]float64
	var size, cond float64
	for cond == 0 || cond > 500 {
		c, p, size, cond = c15Tet(t)
	}
	if r.Intn(2) == 0 {
		i, j := r.Intn(4), r.Intn(4)
		c[i], c[j] = c[j], c[i]
		p[i], p[j] = p[j], p[i]
	}
	tet := geom.NewTetra(&geom.Vec{9, 1, 1}, &geom.Vec{1, 9, 1}, &geom.Vec{1, 1, 9}, &geom.Vec{0, 0, 0})
	if r.Intn(2) == 0 {
		tet.Barycenter()
		tet.Volume()
	}
	tet.Init(&c[0], &c[1], &c[2], &c[3])
	n := 20000
	pts := make([]geom.Vec, n)
	how := []string{"RandomSample", "Distribute", "DistributeTetra", "DistributeTetra64", "small"}[i%5]
	var unit []geom.Vec
	switch how {
	case "RandomSample":
		gt := c15Gens[r.Intn(3)]
		gen := rand.New(gt, r.Uint64())
		tet.RandomSample(gen, make([]float64, 3*n), pts)
		how += fmt.Sprintf(" (generator %d)", gt)
	case "small":
		// Repeated small batches, as rendering does, with a shared buffer.
		gen := rand.New(c15Gens[r.Intn(3)], r.Uint64())
		m := 1 + r.Intn(20)
		buf := make([]float64, 3*m)
		n -= n % m
		pts = pts[:n]
		for i := 0; i < n; i += m {
			tet.RandomSample(gen, buf, pts[i:i+m])
		}
	case "Distribute":
		xs, ys, zs := make([]float64, n), make([]float64, n), make([]float64, n)
		for i := range xs {
			xs[i], ys[i], zs[i] = r.Float64(), r.Float64(), r.Float64()
		}
		x0 := append([]float64{}, xs...)
		tet.Distribute(xs, ys, zs, pts)
		if fmt.Sprint(x0[:50]) != fmt.Sprint(xs[:50]) {
			t.Failf("sampling/input", "Distribute changes its input")
		}
	default:
		unit = make([]geom.Vec, n)
		for i := range unit {
			for j := range unit[i] {
				unit[i][j] = r.Float32()
			}
		}
		geom.DistributeUnit(unit)
		var ub [][4]float64
		for i, u := range unit {
			b := [4]float64{float64(u[0]), float64(u[1]), float64(u[2])}
			b[3] = 1 - b[0] - b[1] - b[2]
			ub = append(ub, b)
			for _, x := range b {
				if x < -1e-6 || x > 1+1e-6 {
					t.Failf("sampling/unit", "DistributeUnit maps a point to %v, outside the unit tetrahedron", unit[i])
					return
				}
			}
		}
		t.uniformBary("sampling/DistributeUnit", ub)
		// Quantities carried by the corners follow an affine map of the position.
		var A [3][4]float64
		for i := range A {
			for j := range A[i] {
				A[i][j] = r.NormFloat64()
			}
			A[i][3] *= size
		}
		var vc [4]geom.Vec
		var vp [4][3]float64
		vmax := 0.0
		for i := range vc {
			for j := range A {
				v := A[j][3]
				for k := 0; k < 3; k++ {
					v += A[j][k] * p[i][k]
				}
				vc[i][j] = float32(v)
				vp[i][j] = float64(vc[i][j])
				vmax = math.Max(vmax, math.Abs(v))
			}
		}
		vt := geom.NewTetra(&vc[0], &vc[1], &vc[2], &vc[3])
		out, out64 := make([]geom.Vec, n), make([][3]float64, n)
		vt.DistributeTetra(unit, out)
		vt.DistributeTetra64(unit, out64)
		p64 := make([][3]float64, n)
		if how == "DistributeTetra" {
			tet.DistributeTetra(unit, pts)
		} else {
			tet.DistributeTetra64(unit, p64)
			for i := range p64 {
				for j := range pts[i] {
					pts[i][j] = float32(p64[i][j])
				}
			}
		}
		far := 0.0
		for i := range p {
			for j := range p[i] {
				far = math.Max(far, math.Abs(p[i][j]))
			}
		}
		for i := range out {
			for j := range A {
				want := A[j][3]
				for k := 0; k < 3; k++ {
					want += A[j][k] * float64(pts[i][k])
				}
				tol := 3e-6 * (vmax + 5*far)
				t.Eval(2)
				if !(math.Abs(float64(out[i][j])-want) <= tol) || !(math.Abs(out64[i][j]-want) <= tol) {
					t.Failf("sampling/velocity", "the vector carried to position %v is %v (%v as float64), want component %d = %g: not the same barycentric position", pts[i], out[i], out64[i], j, want)
					return
				}
			}
		}
	}
	bs := make([][4]float64, 0, n)
	for i := range pts {
		b := bary4(p, [3]float64{float64(pts[i][0]), float64(pts[i][1]), float64(pts[i][2])})
		t.Eval(1)
		for _, x := range b {
			if !(x >= -2e-6*cond && x <= 1+2e-6*cond) {
				t.Failf("sampling/inside", "%s: point %v has barycentric coordinates %v in tetrahedron %v", how, pts[i], b, c)
				return
			}
		}
		bs = append(bs, b)
	}
	t.uniformBary("sampling/"+how, bs)
	t.Count("points", n)
	t.Nontrivial("%s %v", how, c)
}

func opTetraIdx(a []string) {
	n, _ := strconv.Atoi(a[1])
	k, _ := strconv.Atoi(a[2])
	if a[0] == "init" {
		(&geom.TetraIdxs{}).Init(0, int64(n), 1, k)
	} else {
		(&geom.TetraIdxs{}).InitCentered(int64(n*n+n+1), int64(n), 1, k)
	}
}

func c15Refused(t *T, i int) {
	r := t.R
	switch i % 3 {
	case 0:
		k := []int{-1, 6, 7, 100}[r.Intn(4)]
		t.opRefused("refused/dir", fmt.Sprintf("direction %d", k), "tetraidx", "init", "4", fmt.Sprint(k))
	case 1:
		k := []int{-1, 8, 9, 100}[r.Intn(4)]
		t.opRefused("refused/centred-dir", fmt.Sprintf("centred direction %d", k), "tetraidx", "centred", "4", fmt.Sprint(k))
	case 2:
		n := 1 + r.Intn(20)
		m := []int{0, n, 2 * n, 3*n - 1, 3*n + 1, 4 * n}[r.Intn(6)]
		tet := geom.NewTetra(&geom.Vec{1, 0, 0}, &geom.Vec{0, 1, 0}, &geom.Vec{0, 0, 1}, &geom.Vec{})
		gen := rand.New(rand.Xorshift, 1)
		t.Refuses("refused/buffer", fmt.Sprintf("a buffer of %d for %d points", m, n), func() error {
			tet.RandomSample(gen, make([]float64, m), make([]geom.Vec, n))
			return nil
		})
	}
	t.Nontrivial("refused %d", i)
}
