package main

import (
	"fmt"
	"math"
	"math/rand"
	"path/filepath"

	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/geom"
)

func init() {
	register("C13", "Sheets with uniform, linear, smooth and noisy velocity fields rendered as Velocity (3D and projected), VelocityDivergence, VelocityCurl and DensityGradient grids over boxes inside the simulation, across its faces and spanning it; values compared with the velocity moments of exactly clipped tetrahedra and finite differences of the expected fields; buffers filled with random fields finalised directly. Non-trivial: at least one pixel with a tight prediction was compared.",
		Group{"linear", 40, 500, 8, c13Linear},
		Group{"fields", 96, 500, 9, c13Fields},
		Group{"derivs", 18, 300, 9, c13Derivs},
		Group{"sizes", 20, 300, 6, c13Sizes},
		Group{"buffers", 300, 6000, 2, c13Buffers})
}

// vov is the part of a tetrahedron in one payload pixel with barycentric first and second moments.
type vov struct {
	p float64
	m [4]float64
	q [4][4]float64
}

// velExp holds the expectations of one payload pixel of a velocity grid.
type velExp struct {
	p       float64 // mass
	mean    [3]float64
	sd      [3]float64 // bound on the Monte Carlo deviation of the mean for one sample per tetrahedron
	jump    [3]float64
	lo, hi  [3]float64 // velocities of the tetrahedra reaching the pixel
	n       int
	reached bool
	crosses bool // reached by a tetrahedron crossing the periodic faces
}

func (s *Sim) velocityExp(skip, cells int, g region) []velExp {
	n := g.size()
	out := make([]velExp, n)
	type item struct {
		v  vov
		ti int
	}
	items := make([][]item, n)
	var sites [][4]int
	sc := float64(cells) / s.L
	for z := 0; z < s.N; z += skip {
		for y := 0; y < s.N; y += skip {
			for x := 0; x < s.N; x += skip {
				for d := 0; d < 6; d++ {
					var site [4]int
					var p tpiece
					cross := false
					for i := 0; i < 4; i++ {
						k := kuhn[d][i]
						site[i] = s.site(x+skip*k[0], y+skip*k[1], z+skip*k[2])
						p[i].b[i] = 1
						for j := 0; j < 3; j++ {
							v := float64(s.Xs[site[i]][j])
							if i > 0 {
								v0 := float64(s.Xs[site[0]][j])
								sh := s.L * math.Round((v-v0)/s.L)
								cross = cross || sh != 0
								v = v0 + (v - v0) - sh
							}
							p[i].x[j] = v * sc
						}
					}
					ti := len(sites)
					sites = append(sites, site)
					// reach
					var lo, hi [3]int
					for j := 0; j < 3; j++ {
						a, b := p[0].x[j], p[0].x[j]
						for i := 1; i < 4; i++ {
							a, b = math.Min(a, p[i].x[j]), math.Max(b, p[i].x[j])
						}
						lo[j], hi[j] = int(math.Floor(a-1e-3)), int(math.Floor(b+1e-3))
						if hi[j]-lo[j] >= g.cells {
							hi[j] = lo[j] + g.cells - 1
						}
					}
					for cz := lo[2]; cz <= hi[2]; cz++ {
						for cy := lo[1]; cy <= hi[1]; cy++ {
							for cx := lo[0]; cx <= hi[0]; cx++ {
								k := g.key([3]int{cx, cy, cz})
								if k < 0 {
									continue
								}
								e := &out[k]
								for i := 0; i < 4; i++ {
									for j := 0; j < 3; j++ {
										v := float64(s.Vs[site[i]][j])
										if !e.reached && i == 0 {
											e.lo[j], e.hi[j] = v, v
										}
										e.lo[j], e.hi[j] = math.Min(e.lo[j], v), math.Max(e.hi[j], v)
									}
								}
								e.reached = true
								e.crosses = e.crosses || cross
							}
						}
					}
					local := map[int]*vov{}
					clipAxis([]tpiece{p}, 0, [3]int{}, func(c [3]int, ps []tpiece) {
						k := g.key(c)
						if k < 0 {
							return
						}
						o := local[k]
						if o == nil {
							o = &vov{}
							local[k] = o
						}
						for i := range ps {
							f := ps[i].frac()
							o.p += f
							var S [4]float64
							for a := 0; a < 4; a++ {
								for k := 0; k < 4; k++ {
									S[k] += ps[i][a].b[k]
								}
							}
							for k := 0; k < 4; k++ {
								o.m[k] += f * S[k] / 4
								for l := 0; l < 4; l++ {
									q := S[k] * S[l]
									for a := 0; a < 4; a++ {
										q += ps[i][a].b[k] * ps[i][a].b[l]
									}
									o.q[k][l] += f * q / 20
								}
							}
						}
					})
					for k, o := range local {
						items[k] = append(items[k], item{*o, ti})
					}
				}
			}
		}
	}
	for k := range out {
		e := &out[k]
		e.n = len(items[k])
		if e.n == 0 {
			continue
		}
		for _, it := range items[k] {
			e.p += it.v.p
			for i := 0; i < 4; i++ {
				for j := 0; j < 3; j++ {
					e.mean[j] += it.v.m[i] * float64(s.Vs[sites[it.ti][i]][j])
				}
			}
		}
		for j := 0; j < 3; j++ {
			e.mean[j] /= e.p
			s1, s2 := 0.0, 0.0
			for _, it := range items[k] {
				var dv [4]float64
				for i := range dv {
					dv[i] = float64(s.Vs[sites[it.ti][i]][j]) - e.mean[j]
					e.jump[j] = math.Max(e.jump[j], math.Abs(dv[i]))
				}
				v := 0.0
				for a := range dv {
					for b := range dv {
						v += dv[a] * dv[b] * it.v.q[a][b]
					}
				}
				v = math.Max(v, 0)
				s1 += v
				s2 += math.Sqrt(v)
			}
			e.sd[j] = math.Sqrt(s1+s2*s2/64) / e.p
		}
	}
	return out
}

// tol bounds the deviation of the mean velocity with P samples per tetrahedron.
func (e *velExp) tol(j, P int) float64 {
	nb := math.Min(float64(e.n), float64(e.n)/64+3*math.Sqrt(float64(e.n)/64)+3)
	return 8*e.sd[j]/math.Sqrt(float64(P)) + 20*nb*e.jump[j]/(float64(P)*e.p) + 1e-5*(math.Abs(e.mean[j])+e.jump[j]) + 1e-12
}

func (t *T) checkVelocity(site string, s *Sim, g *Gtet, rg region, es []velExp, P int) bool {
	tight, chi, nchi := 0, 0.0, 0
	for k := range es {
		e := &es[k]
		for j := 0; j < 3; j++ {
			t.Eval(1)
			v := float64(g.Vals[j][k])
			if math.IsNaN(v) || math.IsInf(v, 0) {
				t.Failf(site+"/finite", "pixel %s has velocity %g", rg.name(k), v)
				return false
			}
			if !e.reached {
				if v != 0 {
					t.Failf(site+"/untouched", "pixel %s, which no tetrahedron reaches, has velocity %g", rg.name(k), v)
					return false
				}
				continue
			}
			slack := 1e-5 * (math.Abs(e.lo[j]) + math.Abs(e.hi[j]))
			if v != 0 && (v < e.lo[j]-slack || v > e.hi[j]+slack) {
				t.Failf(site+"/range", "pixel %s has velocity component %d = %g, the tetrahedra reaching it have velocities in [%g, %g]", rg.name(k), j, v, e.lo[j], e.hi[j])
				return false
			}
			if e.p*float64(P) < 200 {
				continue
			}
			tol := e.tol(j, P)
			if d := math.Abs(v - e.mean[j]); d > tol {
				t.Failf(site+"/mean", "pixel %s has velocity component %d = %g, tetrahedra give %g (tolerance %.3g, %d tetrahedra, P=%d)", rg.name(k), j, v, e.mean[j], tol, e.n, P)
				return false
			} else {
				t.Max("largest_deviation_over_tolerance", d/tol)
			}
			if sd := e.sd[j] / math.Sqrt(float64(P)); sd > 1e-4*math.Abs(e.mean[j]) {
				chi += (v - e.mean[j]) * (v - e.mean[j]) / sd / sd
				nchi++
			}
			tight++
		}
	}
	if nchi >= 60 {
		t.Max("mean_square_deviation_over_variance_bound", chi/float64(nchi))
		if chi/float64(nchi) > 4 {
			t.Failf(site+"/chi", "mean square deviation of %d velocities is %.3g variances", nchi, chi/float64(nchi))
			return false
		}
	}
	t.Count("pixel_means_compared", tight)
	return tight > 0
}

// box13 picks a box; inside keeps it away from the periodic faces.
func box13(r *rand.Rand, tp int, inside bool, min int) (o, w [3]int) {
	for j := range o {
		w[j] = min + r.Intn(tp-min+1)
		o[j] = r.Intn(tp)
		if r.Intn(3) == 0 {
			w[j] = tp
		}
		if inside && tp >= min+4 {
			w[j] = min
			if tp-4 > min {
				w[j] += r.Intn(tp - 3 - min)
			}
			o[j] = 2 + r.Intn(tp-3-w[j])
		}
	}
	return o, w
}

// c13Linear: velocity A x + b, so the mean velocity of a pixel's samples is the velocity of a point
// within the pixel.
func c13Linear(t *T, i int) {
	r := t.R
	kind := simKinds[i%len(simKinds)]
	s := newSim(r, 8, boxL(r), kind, 0.02+0.06*r.Float64())
	var A [3][3]float64
	var b [3]float64
	switch r.Intn(3) {
	case 0:
		A = [3][3]float64{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}
	default:
		for j := range A {
			for k := range A[j] {
				A[j][k] = r.NormFloat64()
			}
			b[j] = s.L * r.NormFloat64()
		}
	}
	for k := range s.Xs {
		for j := 0; j < 3; j++ {
			v := b[j]
			for l := 0; l < 3; l++ {
				v += A[j][l] * float64(s.Xs[k][l])
			}
			s.Vs[k][j] = float32(v)
		}
	}
	dir := filepath.Join(t.Dir, "sheets")
	writeSheets(dir, s.segments(pick(r, 4, 8)), scramble(r))
	tp := pick(r, 7, 8, 10, 12, 16)
	o, w := box13(r, tp, r.Intn(3) > 0, 1)
	bx := pixBox(r, "b", o, w, s.L, tp, randAxis(r, 0.35))
	c := RCfg{Quantity: "Velocity", Input: dir, Threads: maxThreads(t), TotalPixels: tp, Particles: pick(r, 1, 5, 50, 500), Subsample: 1}
	gs, ok := t.render("linear", c, []BBox{bx})
	if !ok {
		return
	}
	rg, _ := pixels(bx.O, bx.W, s.L, tp, axisOf(bx.Axis))
	g := gs["b"]
	if !t.checkRegion("linear", g, rg) {
		return
	}
	es := s.velocityExp(1, tp, rg)
	cw := s.L / float64(tp)
	sp := rg.span()
	n := 0
	for k := range es {
		if es[k].crosses || !es[k].reached {
			continue
		}
		zero := g.Vals[0][k] == 0 && g.Vals[1][k] == 0 && g.Vals[2][k] == 0
		if zero {
			if es[k].p*float64(c.Particles) > 100 {
				t.Failf("linear/zero", "pixel %s holds no velocity although %g samples are expected in it", rg.name(k), es[k].p*float64(c.Particles))
				return
			}
			continue
		}
		x := [3]int{k % sp[0], k / sp[0] % sp[1], k / (sp[0] * sp[1])}
		for j := 0; j < 3; j++ {
			lo, hi := b[j], b[j]
			mag := math.Abs(b[j])
			for l := 0; l < 3; l++ {
				a0 := float64(pmod(rg.o[l]+x[l], tp)) * cw
				a1 := a0 + cw
				if l == rg.proj {
					a1 = a0 + float64(rg.w[l])*cw
					if rg.o[l]+rg.w[l] > tp {
						a0, a1 = 0, s.L
					}
				}
				lo += math.Min(A[j][l]*a0, A[j][l]*a1)
				hi += math.Max(A[j][l]*a0, A[j][l]*a1)
				mag += math.Abs(A[j][l]) * s.L
			}
			v := float64(g.Vals[j][k])
			t.Eval(1)
			if slack := 1e-5 * mag; v < lo-slack || v > hi+slack {
				t.Failf("linear/place", "pixel %s has velocity component %d = %g; velocities within the pixel are in [%g, %g] (A=%v, b=%v, P=%d)", rg.name(k), j, v, lo, hi, A, b, c.Particles)
				return
			}
		}
		n++
	}
	t.Count("linear_pixels", n)
	if c.Particles >= 50 {
		t.checkVelocity("linear", s, g, rg, es, c.Particles)
	}
	if n > 0 {
		t.Nontrivial("%s %+v %+v", kind, rg, c)
	}
	t.Sample("%s P=%d region %+v: %d pixels hold the velocity of a point inside them", kind, c.Particles, rg, n)
}

// smoothV gives a simulation a periodic velocity field that is smooth in position.
func smoothV(r *rand.Rand, s *Sim, noise float64) {
	var ph [3][3]float64
	var am [3][3]float64
	for j := range ph {
		for k := range ph[j] {
			ph[j][k] = 2 * math.Pi * r.Float64()
			am[j][k] = 200 * r.NormFloat64()
		}
	}
	for k := range s.Xs {
		for j := 0; j < 3; j++ {
			v := noise * r.NormFloat64()
			for l := 0; l < 3; l++ {
				v += am[j][l] * math.Sin(2*math.Pi*float64(s.Xs[k][l])/s.L+ph[j][l])
			}
			s.Vs[k][j] = float32(v)
		}
	}
}

func c13Fields(t *T, i int) {
	r := t.R
	kind := simKinds[i%len(simKinds)]
	s := newSim(r, 8, 50, kind, 0.02+0.06*r.Float64())
	switch (i + i/6) % 4 {
	case 0:
		smoothV(r, s, 0)
	case 1:
		smoothV(r, s, 100)
	case 2:
		// Some layers of the lattice are exactly at rest.
		j, lo, n := r.Intn(3), r.Intn(s.N), 2+r.Intn(s.N-3)
		one, moving := r.Intn(3), r.Intn(2) == 0
		for k := range s.Vs {
			q := [3]int{k % s.N, k / s.N % s.N, k / (s.N * s.N)}
			if pmod(q[j]-lo, s.N) < n {
				s.Vs[k] = V3{}
			} else if moving {
				s.Vs[k] = V3{}
				s.Vs[k][one] = 100
			}
		}
	}
	cells := pick(r, 2, 4, 4)
	dir := filepath.Join(t.Dir, "sheets")
	writeSheets(dir, s.segments(cells), scramble(r))
	tp := pick(r, 5, 7, 8, 10, 12)
	o, w := randRegion(t, tp)
	bx := pixBox(r, "b", o, w, s.L, tp, randAxis(r, 0.4))
	c := RCfg{Quantity: "Velocity", Input: dir, Threads: maxThreads(t), TotalPixels: tp, Particles: pick(r, 1000, 3000), Subsample: pick(r, 1, 1, 2)}
	gs, ok := t.render("fields", c, []BBox{bx})
	if !ok {
		return
	}
	rg, _ := pixels(bx.O, bx.W, s.L, tp, axisOf(bx.Axis))
	g := gs["b"]
	if !t.checkRegion("fields", g, rg) {
		return
	}
	es := s.velocityExp(c.Subsample, tp, rg)
	if t.checkVelocity("fields", s, g, rg, es, c.Particles) {
		t.Nontrivial("%s %+v %+v", kind, rg, c)
	}
	t.Sample("%s P=%d stride %d region %+v", kind, c.Particles, c.Subsample, rg)
}

// fd are the fourth-order finite differences of a field on a grid along one axis, and the sum of
// the absolute coefficients times tol.
func fd(f, tol []float64, sp [3]int, axis int, periodic bool, dx float64) (d, dt []float64) {
	d, dt = make([]float64, len(f)), make([]float64, len(f))
	step := []int{1, sp[0], sp[0] * sp[1]}[axis]
	n := sp[axis]
	type st struct {
		off int
		c   float64
	}
	mid := []st{{-2, 1}, {-1, -8}, {1, 8}, {2, -1}}
	// exact for polynomials of degree four through the five outermost points
	e0 := []st{{0, -25}, {1, 48}, {2, -36}, {3, 16}, {4, -3}}
	e1 := []st{{-1, -3}, {0, -10}, {1, 18}, {2, -6}, {3, 1}}
	for k := range f {
		x := k / step % n
		s, sign := mid, 1
		if !periodic {
			switch {
			case x == 0:
				s = e0
			case x == 1:
				s = e1
			case x == n-2:
				s, sign = e1, -1
			case x == n-1:
				s, sign = e0, -1
			}
		}
		for _, q := range s {
			y := x + sign*q.off
			y = pmod(y, n)
			c := float64(sign) * q.c / (12 * dx)
			d[k] += c * f[k+(y-x)*step]
			dt[k] += math.Abs(c) * tol[k+(y-x)*step]
		}
	}
	return d, dt
}

// expectedDerivs combines finite differences into the components of a derived quantity.
func expectedDerivs(q string, f, tol [3][]float64, sp [3]int, periodic [3]bool, dx float64) (out, ot [3][]float64, n int) {
	type term struct {
		comp, axis int
		sign       float64
	}
	var terms [][]term
	switch q {
	case "DensityGradient":
		terms = [][]term{{{0, 0, 1}}, {{0, 1, 1}}, {{0, 2, 1}}}
	case "VelocityDivergence":
		terms = [][]term{{{0, 0, 1}, {1, 1, 1}, {2, 2, 1}}}
	case "VelocityCurl":
		terms = [][]term{{{2, 1, 1}, {1, 2, -1}}, {{0, 2, 1}, {2, 0, -1}}, {{1, 0, 1}, {0, 1, -1}}}
	}
	for c := range terms {
		out[c], ot[c] = make([]float64, len(f[0])), make([]float64, len(f[0]))
		for _, tm := range terms[c] {
			d, dt := fd(f[tm.comp], tol[tm.comp], sp, tm.axis, periodic[tm.axis], dx)
			for k := range d {
				out[c][k] += tm.sign * d[k]
				ot[c][k] += dt[k]
			}
		}
	}
	return out, ot, len(terms)
}

func c13Derivs(t *T, i int) {
	r := t.R
	q := []string{"VelocityDivergence", "VelocityCurl", "DensityGradient"}[i%3]
	kind := []string{"waves", "shift", "lattice", "shear", "random"}[i/3%5]
	s := newSim(r, 8, boxL(r), kind, 0.02+0.04*r.Float64())
	smoothV(r, s, 0)
	dir := filepath.Join(t.Dir, "sheets")
	writeSheets(dir, s.segments(4), scramble(r))
	tp := pick(r, 8, 10, 12)
	o, w := box13(r, tp, r.Intn(3) == 0, 5)
	bx := pixBox(r, "b", o, w, s.L, tp, randAxis(r, 0.3))
	c := RCfg{Quantity: q, Input: dir, Threads: maxThreads(t), TotalPixels: tp, Particles: 3000, Subsample: 1}
	gs, ok := t.render("derivs", c, []BBox{bx})
	if !ok {
		return
	}
	rg, _ := pixels(bx.O, bx.W, s.L, tp, -1)
	g := gs["b"]
	if !t.checkRegion("derivs", g, rg) {
		return
	}
	var f, tol [3][]float64
	n := rg.size()
	if q == "DensityGradient" {
		e := expectations(s.tets(1, tp), rg, false)
		wt := math.Pow(float64(tp)/float64(s.N), 3) / 6
		f[0], tol[0] = make([]float64, n), make([]float64, n)
		for k := range f[0] {
			f[0][k], tol[0][k] = wt*e.st[k].p, e.st[k].tol(wt, c.Particles)
		}
	} else {
		es := s.velocityExp(1, tp, rg)
		for j := 0; j < 3; j++ {
			f[j], tol[j] = make([]float64, n), make([]float64, n)
			for k := range es {
				if es[k].p*float64(c.Particles) < 100 {
					// too few samples for a prediction
					tol[j][k] = math.Inf(1)
					continue
				}
				f[j][k], tol[j][k] = es[k].mean[j], es[k].tol(j, c.Particles)
			}
		}
	}
	var per [3]bool
	for j := range per {
		per[j] = rg.w[j] == tp
	}
	want, wt, nc := expectedDerivs(q, f, tol, rg.span(), per, s.L/float64(tp))
	if g.N != nc {
		t.Failf("derivs/components", "%s grid has %d components", q, g.N)
		return
	}
	big, nn := 0, 0
	for cc := 0; cc < nc; cc++ {
		scale := 0.0
		for k := range want[cc] {
			scale = math.Max(scale, math.Abs(want[cc][k]))
		}
		for k := range want[cc] {
			if math.IsInf(wt[cc][k], 0) || math.IsNaN(wt[cc][k]) {
				continue
			}
			t.Eval(1)
			v := float64(g.Vals[cc][k])
			nn++
			if d := math.Abs(v - want[cc][k]); !(d <= wt[cc][k]+1e-4*scale) {
				t.Failf("derivs/"+q, "component %d of pixel %s is %g, want %g (tolerance %.3g, typical values %.3g); %+v", cc, rg.name(k), v, want[cc][k], wt[cc][k], scale, rg)
				return
			}
			if wt[cc][k] < math.Abs(want[cc][k])/2 {
				big++
			}
		}
	}
	t.Count("derivatives_compared", nn)
	t.Count("derivatives_above_twice_their_tolerance", big)
	if big > 0 {
		t.Nontrivial("%s %s %+v", q, kind, rg)
	}
	t.Sample("%s %s region %+v: %d values compared, %d of them more than twice their tolerance", q, kind, rg, nn, big)
}

// c13Sizes renders every quantity to boxes of all small sizes.
func c13Sizes(t *T, i int) {
	r := t.R
	q := quantities[i%len(quantities)]
	s := newSim(r, 8, 50, simKinds[r.Intn(len(simKinds))], 0.06)
	dir := filepath.Join(t.Dir, "sheets")
	writeSheets(dir, s.segments(4), scramble(r))
	tp := pick(r, 5, 6, 7, 8, 11, 16)
	nb := 4
	var bs []BBox
	for k := 0; k < nb; k++ {
		var o, w [3]int
		for j := range o {
			w[j] = 5 + r.Intn(3)
			if w[j] > tp || r.Intn(4) == 0 {
				w[j] = tp
			}
			o[j] = r.Intn(tp)
		}
		bs = append(bs, pixBox(r, fmt.Sprint("b", k), o, w, s.L, tp, randAxis(r, 0.5)))
	}
	c := RCfg{Quantity: q, Input: dir, Threads: maxThreads(t), TotalPixels: tp, Particles: pick(r, 1, 2, 10), Subsample: pick(r, 1, 2)}
	gs, ok := t.render("sizes", c, bs)
	if !ok {
		return
	}
	for k := range bs {
		ax := axisOf(bs[k].Axis)
		if q != "Density" && q != "Velocity" {
			ax = -1
		}
		rg, _ := pixels(bs[k].O, bs[k].W, s.L, tp, ax)
		g := gs[bs[k].Name]
		if !t.checkRegion("sizes/"+q, g, rg) {
			return
		}
		wantN := 1
		if q == "Velocity" || q == "VelocityCurl" || q == "DensityGradient" {
			wantN = 3
		}
		if g.N != wantN {
			t.Failf("sizes/components", "%s grid has %d components", q, g.N)
			return
		}
		for cc := 0; cc < g.N; cc++ {
			if len(g.Vals[cc]) != rg.size() {
				t.Failf("sizes/length", "%s grid has %d values, want %d", q, len(g.Vals[cc]), rg.size())
				return
			}
			for _, v := range g.Vals[cc] {
				t.Eval(1)
				if math.IsNaN(float64(v)) || math.IsInf(float64(v), 0) {
					t.Failf("sizes/finite", "%s grid holds %g", q, v)
					return
				}
			}
		}
		t.Nontrivial("%s %+v", q, rg)
	}
}

// c13Buffers fills buffers with random fields and finalises them.
func c13Buffers(t *T, i int) {
	r := t.R
	cells := 5 + r.Intn(8)
	long := -1
	if i%4 == 1 { // one long axis
		cells, long = 16+r.Intn(200), r.Intn(3)
	}
	var o, w [3]int
	for j := range w {
		w[j] = 5 + r.Intn(cells-4)
		if r.Intn(3) == 0 {
			w[j] = cells
		}
		if long >= 0 && j != long {
			w[j] = 5 + r.Intn(4)
		} else if long >= 0 && r.Intn(2) == 0 {
			w[j] = cells - r.Intn(cells-4)/8
		}
		o[j] = r.Intn(2*cells) - cells/2
	}
	L := []float64{1, 62.5, 250, 1e-3}[r.Intn(4)]
	n := w[0] * w[1] * w[2]
	g := geom.NewGridLocation(o, w, L, cells)
	q := density.Quantity(i % int(density.EndQuantity))
	name := q.String()
	buf := density.NewBuffer(q, n, 1+r.Intn(100), g)
	if buf.Length() != n || buf.Quantity() != q {
		t.Failf("buffers/length", "%s buffer of %d values reports %d, quantity %v", name, n, buf.Length(), buf.Quantity())
		return
	}
	if r.Intn(2) == 0 {
		buf.SetGridLocation(g)
	}
	fill := func() (f, tol [3][]float64) {
		if vs, ok := buf.ScalarBuffer(); ok {
			f[0], tol[0] = make([]float64, n), make([]float64, n)
			for k := range vs {
				vs[k] = r.ExpFloat64()
				if r.Intn(10) == 0 {
					vs[k] = 0
				}
				f[0][k] = float64(float32(vs[k]))
			}
		} else if vs, ok := buf.VectorBuffer(); ok {
			num, ok := buf.CountBuffer()
			if !ok || len(num) != n {
				t.Failf("buffers/counts", "%s buffer has no counts", name)
			}
			for j := range f {
				f[j], tol[j] = make([]float64, n), make([]float64, n)
			}
			for k := range vs {
				num[k] = r.Intn(6)
				for j := 0; j < 3; j++ {
					if num[k] == 0 {
						vs[k][j] = 0
						continue
					}
					vs[k][j] = r.NormFloat64() * 300 * float64(num[k])
					f[j][k] = vs[k][j] / float64(num[k])
				}
			}
		}
		return f, tol
	}
	if r.Intn(2) == 0 {
		fill()
		buf.Clear()
		if vs, ok := buf.ScalarBuffer(); ok {
			for k := range vs {
				if vs[k] != 0 {
					t.Failf("buffers/clear", "Clear leaves %g", vs[k])
					return
				}
			}
		}
		if vs, ok := buf.VectorBuffer(); ok {
			num, _ := buf.CountBuffer()
			for k := range vs {
				if vs[k] != [3]float64{} || num[k] != 0 {
					t.Failf("buffers/clear", "Clear leaves %v, %d", vs[k], num[k])
					return
				}
			}
		}
	}
	f, tol := fill()
	var per [3]bool
	for j := range per {
		per[j] = w[j] == cells
	}
	var want [3][]float64
	nc := 0
	switch name {
	case "Density":
		want[0], nc = f[0], 1
	case "Velocity":
		want, nc = f, 3
	default:
		want, _, nc = expectedDerivs(name, f, tol, w, per, L/float64(cells))
	}
	// Finalising twice gives the same values.
	for rep := 0; rep < 2; rep++ {
		var got [3][]float32
		if nc == 1 {
			v, ok := buf.FinalizedScalarBuffer()
			if !ok {
				t.Failf("buffers/scalar", "%s is not final as a scalar", name)
				return
			}
			got[0] = v
		} else {
			x, y, z, ok := buf.FinalizedVectorBuffer()
			if !ok {
				t.Failf("buffers/vector", "%s is not final as a vector", name)
				return
			}
			got = [3][]float32{x, y, z}
		}
		for c := 0; c < nc; c++ {
			scale := 0.0
			for k := range want[c] {
				scale = math.Max(scale, math.Abs(want[c][k]))
			}
			if len(got[c]) != n {
				t.Failf("buffers/size", "%s: %d values, want %d", name, len(got[c]), n)
				return
			}
			for k := range want[c] {
				t.Eval(1)
				if !(math.Abs(float64(got[c][k])-want[c][k]) <= 2e-5*scale) {
					x := [3]int{k % w[0], k / w[0] % w[1], k / (w[0] * w[1])}
					t.Failf("buffers/"+name, "component %d at %v of a grid of %v (%d cells, finalised %d times) is %g, want %g", c, x, w, cells, rep+1, got[c][k], want[c][k])
					return
				}
			}
		}
	}
	t.Nontrivial("%s %v %d", name, w, cells)
}
