package main

import "math"

// Exact overlap of tetrahedra with the cells of a regular grid, by clipping in float64. Masses are
// tracked in barycentric coordinates, so that flat and collapsed tetrahedra are handled too.

type tvert struct {
	x [3]float64
	b [4]float64
}

type tpiece [4]tvert

func det4(m *[4][4]float64) float64 {
	d3 := func(a, b, c int, r *[4][4]float64) float64 {
		return r[1][a]*(r[2][b]*r[3][c]-r[2][c]*r[3][b]) -
			r[1][b]*(r[2][a]*r[3][c]-r[2][c]*r[3][a]) +
			r[1][c]*(r[2][a]*r[3][b]-r[2][b]*r[3][a])
	}
	return m[0][0]*d3(1, 2, 3, m) - m[0][1]*d3(0, 2, 3, m) + m[0][2]*d3(0, 1, 3, m) - m[0][3]*d3(0, 1, 2, m)
}

func (p *tpiece) frac() float64 {
	m := [4][4]float64{p[0].b, p[1].b, p[2].b, p[3].b}
	return math.Abs(det4(&m))
}

func lerpV(a, b *tvert, axis int, c float64) tvert {
	t := (c - a.x[axis]) / (b.x[axis] - a.x[axis])
	var o tvert
	for k := 0; k < 3; k++ {
		o.x[k] = a.x[k] + t*(b.x[k]-a.x[k])
	}
	for k := 0; k < 4; k++ {
		o.b[k] = a.b[k] + t*(b.b[k]-a.b[k])
	}
	o.x[axis] = c
	return o
}

// split cuts a piece at coordinate c of an axis into the part below and the part at or above it.
func split(p *tpiece, axis int, c float64, below, above []tpiece) ([]tpiece, []tpiece) {
	var lo, hi []int
	for i := 0; i < 4; i++ {
		if p[i].x[axis] < c {
			lo = append(lo, i)
		} else {
			hi = append(hi, i)
		}
	}
	prism := func(t, u [3]tvert) []tpiece {
		return []tpiece{{t[0], u[0], u[1], u[2]}, {t[0], t[1], u[1], u[2]}, {t[0], t[1], t[2], u[2]}}
	}
	switch len(lo) {
	case 0:
		return below, append(above, *p)
	case 4:
		return append(below, *p), above
	case 1, 3:
		one, three := lo, hi
		if len(lo) == 3 {
			one, three = hi, lo
		}
		a := p[one[0]]
		var q, r [3]tvert
		for i, k := range three {
			r[i] = p[k]
			q[i] = lerpV(&a, &r[i], axis, c)
		}
		small := tpiece{a, q[0], q[1], q[2]}
		if len(lo) == 1 {
			return append(below, small), append(above, prism(q, r)...)
		}
		return append(below, prism(q, r)...), append(above, small)
	}
	a, b, cc, d := p[lo[0]], p[lo[1]], p[hi[0]], p[hi[1]]
	ac, ad, bc, bd := lerpV(&a, &cc, axis, c), lerpV(&a, &d, axis, c), lerpV(&b, &cc, axis, c), lerpV(&b, &d, axis, c)
	return append(below, prism([3]tvert{a, ac, ad}, [3]tvert{b, bc, bd})...),
		append(above, prism([3]tvert{cc, ac, bc}, [3]tvert{d, ad, bd})...)
}

// ov is the part of a tetrahedron in one cell: mass fraction and barycentric first moments.
type ov struct {
	c [3]int // cell, not wrapped
	p float64
	m [4]float64
}

func clipAxis(ps []tpiece, axis int, cell [3]int, emit func(cell [3]int, ps []tpiece)) {
	lo, hi := math.Inf(1), math.Inf(-1)
	for i := range ps {
		for j := 0; j < 4; j++ {
			lo, hi = math.Min(lo, ps[i][j].x[axis]), math.Max(hi, ps[i][j].x[axis])
		}
	}
	a, b := int(math.Floor(lo)), int(math.Floor(hi))
	rest := ps
	for c := a; c <= b && len(rest) > 0; c++ {
		var below, above []tpiece
		if c == b {
			below = rest
		} else {
			for i := range rest {
				below, above = split(&rest[i], axis, float64(c+1), below, above)
			}
		}
		keep := below[:0:0]
		for i := range below {
			if below[i].frac() > 1e-13 {
				keep = append(keep, below[i])
			}
		}
		cell[axis] = c
		if len(keep) > 0 {
			if axis == 2 {
				emit(cell, keep)
			} else {
				clipAxis(keep, axis+1, cell, emit)
			}
		}
		rest = above
	}
}

// tetCells returns the cells a tetrahedron with corners in cell units overlaps.
func tetCells(x *[4][3]float64) []ov {
	var p tpiece
	for i := 0; i < 4; i++ {
		p[i].x = x[i]
		p[i].b[i] = 1
	}
	out := []ov{}
	clipAxis([]tpiece{p}, 0, [3]int{}, func(c [3]int, ps []tpiece) {
		o := ov{c: c}
		for i := range ps {
			f := ps[i].frac()
			o.p += f
			for k := 0; k < 4; k++ {
				o.m[k] += f * (ps[i][0].b[k] + ps[i][1].b[k] + ps[i][2].b[k] + ps[i][3].b[k]) / 4
			}
		}
		out = append(out, o)
	})
	return out
}

// kuhn are the six paths from corner (0,0,0) to corner (1,1,1) of a cube along its edges: the
// tetrahedra of the decomposition of the cube.
var kuhn = [6][4][3]int{
	{{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {1, 1, 1}},
	{{0, 0, 0}, {1, 0, 0}, {1, 0, 1}, {1, 1, 1}},
	{{0, 0, 0}, {0, 1, 0}, {1, 1, 0}, {1, 1, 1}},
	{{0, 0, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}},
	{{0, 0, 0}, {0, 1, 0}, {0, 1, 1}, {1, 1, 1}},
	{{0, 0, 0}, {0, 0, 1}, {0, 1, 1}, {1, 1, 1}},
}

// Tet is a tetrahedron of the sheet with its overlap with the simulation's pixels.
type Tet struct {
	site [4]int        // particles
	x    [4][3]float64 // corners in pixels, unwrapped around corner 0
	ovs  []ov
}

// tets lists every tetrahedron of the simulation for the given lattice stride and pixels per side.
func (s *Sim) tets(skip, cells int) []Tet {
	out := []Tet{}
	sc := float64(cells) / s.L
	for z := 0; z < s.N; z += skip {
		for y := 0; y < s.N; y += skip {
			for x := 0; x < s.N; x += skip {
				for d := 0; d < 6; d++ {
					var t Tet
					for i := 0; i < 4; i++ {
						k := kuhn[d][i]
						t.site[i] = s.site(x+skip*k[0], y+skip*k[1], z+skip*k[2])
						for j := 0; j < 3; j++ {
							v := float64(s.Xs[t.site[i]][j])
							if i > 0 {
								v0 := float64(s.Xs[t.site[0]][j])
								v = v0 + (v - v0) - s.L*math.Round((v-v0)/s.L)
							}
							t.x[i][j] = v * sc
						}
					}
					t.ovs = tetCells(&t.x)
					out = append(out, t)
				}
			}
		}
	}
	return out
}

// mcStat accumulates what is expected of a Monte Carlo count in one region.
type mcStat struct {
	p, s1, s2 float64 // sums of p, p(1-p), sqrt(p(1-p))
	n         int
}

func (m *mcStat) add(p float64) {
	m.p += p
	v := math.Max(0, p*(1-p))
	m.s1 += v
	m.s2 += math.Sqrt(v)
	m.n++
}

// tol is the largest believable deviation of w/P*count from w*p with P samples per tetrahedron
// drawn from 64 shared sets of points: eight standard deviations and twenty jumps.
func (m *mcStat) tol(w float64, P int) float64 {
	nb := float64(m.n)/64 + 3*math.Sqrt(float64(m.n)/64) + 3
	nb = math.Min(nb, float64(m.n))
	j := w * math.Max(nb, 1) / float64(P)
	v := w * w / float64(P) * (m.s1 + m.s2*m.s2/64)
	return 8*math.Sqrt(v) + 20*j + 1e-5*(w*m.p)
}

func pmod(x, n int) int {
	x %= n
	if x < 0 {
		x += n
	}
	return x
}

// region is a rendered box in pixels: origin within [0, cells), span at most cells; proj is the
// projected axis or -1.
type region struct {
	o, w  [3]int
	cells int
	proj  int
}

func (g *region) span() [3]int {
	s := g.w
	if g.proj >= 0 {
		s[g.proj] = 1
	}
	return s
}

func (g *region) size() int { s := g.span(); return s[0] * s[1] * s[2] }

// key gives the payload index of a global cell, or -1.
func (g *region) key(c [3]int) int {
	var d [3]int
	for j := 0; j < 3; j++ {
		d[j] = pmod(c[j]-g.o[j], g.cells)
		if d[j] >= g.w[j] {
			return -1
		}
		if j == g.proj {
			d[j] = 0
		}
	}
	s := g.span()
	return d[0] + s[0]*(d[1]+s[1]*d[2])
}

// expect holds, per payload pixel, the Monte Carlo expectations.
type expect struct {
	g     region
	st    []mcStat
	touch []bool // some tetrahedron's bounding box comes near the pixel
	slab  [3][]mcStat
	total mcStat
	// velocities
	vsum   [][3]float64
	vlo    [][3]float64
	vhi    [][3]float64
	tetIdx [][]int32
}

func expectations(tets []Tet, g region, keepTets bool) *expect {
	n := g.size()
	e := &expect{g: g, st: make([]mcStat, n), touch: make([]bool, n)}
	sp := g.span()
	for j := 0; j < 3; j++ {
		e.slab[j] = make([]mcStat, sp[j])
	}
	if keepTets {
		e.tetIdx = make([][]int32, n)
	}
	acc := map[int]float64{}
	var sl [3]map[int]float64
	for ti := range tets {
		t := &tets[ti]
		for k := range acc {
			delete(acc, k)
		}
		for _, o := range t.ovs {
			if k := g.key(o.c); k >= 0 {
				acc[k] += o.p
			}
		}
		// pixels near the bounding box
		var lo, hi [3]int
		for j := 0; j < 3; j++ {
			a, b := t.x[0][j], t.x[0][j]
			for i := 1; i < 4; i++ {
				a, b = math.Min(a, t.x[i][j]), math.Max(b, t.x[i][j])
			}
			lo[j], hi[j] = int(math.Floor(a-1e-3)), int(math.Floor(b+1e-3))
			if hi[j]-lo[j] >= g.cells {
				hi[j] = lo[j] + g.cells - 1
			}
		}
		for z := lo[2]; z <= hi[2]; z++ {
			for y := lo[1]; y <= hi[1]; y++ {
				for x := lo[0]; x <= hi[0]; x++ {
					if k := g.key([3]int{x, y, z}); k >= 0 {
						e.touch[k] = true
					}
				}
			}
		}
		if len(acc) == 0 {
			continue
		}
		tot := 0.0
		for j := 0; j < 3; j++ {
			sl[j] = map[int]float64{}
		}
		for k, p := range acc {
			e.st[k].add(math.Min(p, 1))
			tot += p
			sl[0][k%sp[0]] += p
			sl[1][k/sp[0]%sp[1]] += p
			sl[2][k/(sp[0]*sp[1])] += p
			if keepTets {
				e.tetIdx[k] = append(e.tetIdx[k], int32(ti))
			}
		}
		e.total.add(math.Min(tot, 1))
		for j := 0; j < 3; j++ {
			for k, p := range sl[j] {
				e.slab[j][k].add(math.Min(p, 1))
			}
		}
	}
	return e
}

// checkDensity compares a density payload with the expectations; returns false on failure.
func (t *T) checkDensity(site string, vals []float32, e *expect, w float64, P int) bool {
	g := e.g
	sp := g.span()
	depth := 1.0
	if g.proj >= 0 {
		depth = float64(g.w[g.proj])
	}
	if len(vals) != g.size() {
		t.Failf(site, "grid has %d values, expected %v = %d", len(vals), sp, g.size())
		return false
	}
	total := 0.0
	var slab [3][]float64
	for j := 0; j < 3; j++ {
		slab[j] = make([]float64, sp[j])
	}
	chi, worst := 0.0, 0.0
	nchi := 0
	for k, v32 := range vals {
		v := float64(v32) * depth
		t.Eval(1)
		if math.IsNaN(v) || math.IsInf(v, 0) || v < 0 {
			t.Failf(site, "pixel %d (%s) is %g", k, g.name(k), v32)
			return false
		}
		total += v
		slab[0][k%sp[0]] += v
		slab[1][k/sp[0]%sp[1]] += v
		slab[2][k/(sp[0]*sp[1])] += v
		st := &e.st[k]
		if !e.touch[k] && v != 0 {
			t.Failf(site+"/untouched", "pixel %s is reached by no tetrahedron but holds %g (w=%g, P=%d)", g.name(k), v32, w, P)
			return false
		}
		tol := st.tol(w, P)
		d := math.Abs(v - w*st.p)
		if d > tol {
			t.Failf(site+"/pixel", "pixel %s holds %g, tetrahedra put %g there (tolerance %.3g, P=%d, %d tetrahedra)",
				g.name(k), v32, w*st.p/depth, tol/depth, P, st.n)
			return false
		}
		worst = math.Max(worst, d/tol)
		// pixels filled by whole tetrahedra vary by rounding only
		if sd2 := w * w / float64(P) * (st.s1 + st.s2*st.s2/64); st.p*float64(P) > 200 && sd2 > w*w/float64(P*P)+1e-8*w*w*st.p*st.p {
			chi += d * d / sd2
			nchi++
		}
	}
	for j := 0; j < 3; j++ {
		for i, v := range slab[j] {
			st := &e.slab[j][i]
			t.Eval(1)
			if d, tol := math.Abs(v-w*st.p), st.tol(w, P); d > tol {
				t.Failf(site+"/slab", "slab %d of axis %d holds %g, tetrahedra put %g there (tolerance %.3g)", i, j, v, w*st.p, tol)
				return false
			}
		}
	}
	t.Eval(1)
	if d, tol := math.Abs(total-w*e.total.p), e.total.tol(w, P); d > tol {
		t.Failf(site+"/total", "box holds %g, tetrahedra put %g there (tolerance %.3g)", total, w*e.total.p, tol)
		return false
	}
	t.Max("largest_deviation_over_tolerance", worst)
	if nchi > 50 {
		// The bound used as variance over-estimates it, so a mean square above a few is impossible.
		t.Max("mean_square_deviation_over_variance_bound", chi/float64(nchi))
		if chi/float64(nchi) > 4 {
			t.Failf(site+"/chi", "mean square deviation of %d pixels is %.3g variances", nchi, chi/float64(nchi))
			return false
		}
	}
	return true
}

func (g *region) name(k int) string {
	sp := g.span()
	return fmtInts(k%sp[0], k/sp[0]%sp[1], k/(sp[0]*sp[1]))
}
