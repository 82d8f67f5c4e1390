package main

import (
	"fmt"
	"math"

	"github.com/phil-mansfield/gotetra/render/geom"
	gio "github.com/phil-mansfield/gotetra/render/io"
)

func init() {
	register("C16", "Vectors of every magnitude including exact cell and box edges, tiny negative numbers and neighbours of the period; boxes with origins of either sign, any width from 1 cell to the period, equal widths and touching faces, compared cell by cell; grids of 1-9 cells per axis with any origin; segments anywhere in periodic boxes of awkward widths, up to most of the box. Non-trivial: one operation, pair of boxes, grid or segment compared with its definition.",
		Group{"vec", 3000, 200000, 2, rep(60, c16Vec)},
		Group{"mod", 3000, 200000, 1, rep(60, c16Mod)},
		Group{"boxes", 4000, 300000, 2, rep(100, c16Boxes)},
		Group{"grid", 1500, 60000, 2, rep(8, c16Grid)},
		Group{"segments", 3000, 200000, 4, rep(20, c16Segments)})
}

func fv(v geom.Vec) [3]float64 { return [3]float64{float64(v[0]), float64(v[1]), float64(v[2])} }

func c16Num(t *T, scale float64) float32 {
	r := t.R
	switch r.Intn(6) {
	case 0:
		return float32(scale * float64(r.Intn(7)-3))
	case 1:
		return float32(scale * r.NormFloat64() * math.Exp(-20*r.Float64()))
	}
	return float32(scale * r.NormFloat64())
}

func size(v geom.Vec) float64 {
	m := 0.0
	for _, x := range v {
		m = math.Max(m, math.Abs(float64(x)))
	}
	return m
}

func within(a, b geom.Vec, tol float64) bool {
	for k := range a {
		if !(a[k] == b[k] || math.Abs(float64(a[k])-float64(b[k])) <= tol) {
			return false
		}
	}
	return true
}

// forms runs the plain, Self and At forms of an operation, the latter also with the output aliasing
// either input, and checks that they agree and leave the other arguments alone.
func (t *T) forms(site string, a, b geom.Vec, plain func(x, y *geom.Vec) *geom.Vec, self func(x, y *geom.Vec) *geom.Vec, at func(x, y, out *geom.Vec) *geom.Vec) geom.Vec {
	x, y := a, b
	want := *plain(&x, &y)
	// Equal up to the rounding of the operation.
	tol := 1e-6 * math.Max(size(want), math.Max(size(a), size(b)))
	if site == "vec/cross" {
		tol = 1e-6 * size(a) * size(b)
	}
	same := func(how string, got geom.Vec, ptr, expect *geom.Vec) {
		t.Eval(1)
		if !within(got, want, tol) {
			t.Failf(site+"/forms", "%s of %v and %v gives %v, the plain form %v", how, a, b, got, want)
		}
		if ptr != expect {
			t.Failf(site+"/forms", "%s returns a pointer to something other than its output", how)
		}
	}
	if x != a || y != b {
		t.Failf(site+"/input", "%s changes its arguments %v, %v to %v, %v", site, a, b, x, y)
	}
	x, y = a, b
	p := self(&x, &y)
	same("Self", x, p, &x)
	if y != b {
		t.Failf(site+"/input", "the Self form of %s changes its argument", site)
	}
	x, y = a, b
	o := geom.Vec{7, 7, 7}
	p = at(&x, &y, &o)
	same("At", o, p, &o)
	if x != a || y != b {
		t.Failf(site+"/input", "the At form of %s changes its arguments", site)
	}
	x, y = a, b
	p = at(&x, &y, &x)
	same("At into the first argument", x, p, &x)
	if y != b {
		t.Failf(site+"/input", "the At form of %s changes its second argument", site)
	}
	x, y = a, b
	p = at(&x, &y, &y)
	same("At into the second argument", y, p, &y)
	if x != a {
		t.Failf(site+"/input", "the At form of %s changes its first argument", site)
	}
	if a == b {
		x = a
		p = at(&x, &x, &x)
		same("At with all arguments equal", x, p, &x)
	}
	return want
}

func c16Vec(t *T, i int) {
	r := t.R
	s := math.Exp(4 * r.NormFloat64())
	var a, b geom.Vec
	for j := range a {
		a[j], b[j] = c16Num(t, s), c16Num(t, s)
	}
	if r.Intn(10) == 0 {
		b = a
	}
	x, y := fv(a), fv(b)
	k := r.NormFloat64() * math.Exp(2*r.NormFloat64())
	sum := t.forms("vec/add", a, b, func(x, y *geom.Vec) *geom.Vec { return x.Add(y) },
		func(x, y *geom.Vec) *geom.Vec { return x.AddSelf(y) },
		func(x, y, o *geom.Vec) *geom.Vec { return x.AddAt(y, o) })
	sc := t.forms("vec/scale", a, b, func(x, y *geom.Vec) *geom.Vec { return x.Scale(k) },
		func(x, y *geom.Vec) *geom.Vec { return x.ScaleSelf(k) },
		func(x, y, o *geom.Vec) *geom.Vec { z := *x; *o = z; return o.ScaleAt(k, o) })
	cr := t.forms("vec/cross", a, b, func(x, y *geom.Vec) *geom.Vec { return x.Cross(y) },
		func(x, y *geom.Vec) *geom.Vec { return x.CrossSelf(y) },
		func(x, y, o *geom.Vec) *geom.Vec { return x.CrossAt(y, o) })
	var dot, adot float64
	for j := 0; j < 3; j++ {
		dot += x[j] * y[j]
		adot += math.Abs(x[j] * y[j])
		if want := x[j] + y[j]; !(math.Abs(float64(sum[j])-want) <= 1e-6*(math.Abs(x[j])+math.Abs(y[j]))) {
			t.Failf("vec/add", "%v + %v is %v", a, b, sum)
		}
		if want := k * x[j]; !(math.Abs(float64(sc[j])-want) <= 1e-6*math.Abs(want)+1e-44) {
			t.Failf("vec/scale", "%g times %v is %v", k, a, sc)
		}
		m, n := (j+1)%3, (j+2)%3
		if want := x[m]*y[n] - x[n]*y[m]; !(math.Abs(float64(cr[j])-want) <= 1e-6*(math.Abs(x[m]*y[n])+math.Abs(x[n]*y[m]))+1e-44) {
			t.Failf("vec/cross", "%v x %v is %v, want component %d = %g", a, b, cr, j, want)
		}
		t.Eval(3)
	}
	p, q := a, b
	if got := p.Dot(&q); !(math.Abs(got-dot) <= 1e-6*adot+1e-44) {
		t.Failf("vec/dot", "%v . %v is %g, want %g", a, b, got, dot)
	}
	n := math.Sqrt(x[0]*x[0] + x[1]*x[1] + x[2]*x[2])
	if got := p.Norm(); !(math.Abs(got-n) <= 1e-6*n+1e-22) {
		t.Failf("vec/norm", "|%v| is %g, want %g", a, got, n)
	}
	if p != a || q != b {
		t.Failf("vec/input", "Dot or Norm changes its arguments")
	}
	t.Nontrivial("%v %v", a, b)
}

// c16Edge draws a coordinate between lo and hi periods, often exactly at or next to an edge.
func c16Edge(t *T, w float32, lo, hi float64) float32 {
	r := t.R
	var x float32
	switch r.Intn(5) {
	case 0:
		x = w * float32(math.Round(2*(lo+(hi-lo)*r.Float64()))/2)
		for k := r.Intn(3); k > 0; k-- {
			x = math.Nextafter32(x, float32(r.NormFloat64()*1e30))
		}
	case 1:
		x = float32(r.NormFloat64() * float64(w) * math.Exp(-40*r.Float64()))
	default:
		x = float32(float64(w) * (lo + (hi-lo)*r.Float64()))
	}
	if a, b := float32(lo)*w, float32(hi)*w; x < a || x >= b {
		return 0
	}
	return x
}

func c16Mod(t *T, i int) {
	r := t.R
	L := math.Exp(3 * r.NormFloat64())
	if r.Intn(2) == 0 {
		L = float64(1 + r.Intn(1000))
	}
	w := float32(L)
	wf := float64(w)
	var a, b geom.Vec
	for j := range a {
		a[j], b[j] = c16Edge(t, w, -1, 2), c16Edge(t, w, -1, 2)
	}
	m := t.forms("mod/mod", a, b, func(x, y *geom.Vec) *geom.Vec { return x.Mod(L) },
		func(x, y *geom.Vec) *geom.Vec { return x.ModSelf(L) },
		func(x, y, o *geom.Vec) *geom.Vec { z := *x; *o = z; return o.ModAt(L, o) })
	o := geom.Vec{3, 3, 3}
	p := a
	if got := p.ModAt(L, &o); got != &o || o != m || p != a {
		t.Failf("mod/forms", "ModAt of %v gives %v, Mod %v", a, o, m)
	}
	congruent := func(got float32, x float64) bool {
		d := math.Abs(math.Remainder(float64(got)-x, wf))
		return d <= 3e-7*wf
	}
	for j := range a {
		t.Eval(1)
		if !(m[j] >= 0 && m[j] < w) {
			t.Failf("mod/range", "%.9g modulo %.9g is %.9g, outside [0, width)", a[j], w, m[j])
		} else if !congruent(m[j], float64(a[j])) {
			t.Failf("mod/value", "%.9g modulo %.9g is %.9g", a[j], w, m[j])
		} else if a[j] >= 0 && a[j] < w && m[j] != a[j] {
			t.Failf("mod/value", "%.9g, already inside the box, modulo %.9g is %.9g", a[j], w, m[j])
		}
	}
	for j := range a {
		if r.Intn(2) == 0 {
			a[j], b[j] = c16Edge(t, w, -0.5, 1.5), c16Edge(t, w, -0.5, 1.5)
		} else {
			a[j], b[j] = c16Edge(t, w, 0, 1), c16Edge(t, w, 0, 1)
		}
	}
	d := t.forms("mod/sub", a, b, func(x, y *geom.Vec) *geom.Vec { return x.Sub(y, L) },
		func(x, y *geom.Vec) *geom.Vec { return x.SubSelf(y, L) },
		func(x, y, o *geom.Vec) *geom.Vec { return x.SubAt(y, L, o) })
	for j := range a {
		t.Eval(1)
		if !(math.Abs(float64(d[j])) <= wf/2*(1+3e-7)) {
			t.Failf("mod/shortest", "%.9g - %.9g in a box of %.9g is %.9g, longer than half the box", a[j], b[j], w, d[j])
		} else if !congruent(d[j], float64(a[j])-float64(b[j])) {
			t.Failf("mod/sub", "%.9g - %.9g in a box of %.9g is %.9g", a[j], b[j], w, d[j])
		}
	}
	t.Nontrivial("%v %v %v", L, a, b)
}

func c16Boxes(t *T, i int) {
	r := t.R
	P := 1 + r.Intn(14)
	if r.Intn(8) == 0 {
		P = 1 << uint(r.Intn(7))
	}
	var a, b geom.CellBounds
	for j := 0; j < 3; j++ {
		a.Width[j], b.Width[j] = 1+r.Intn(P), 1+r.Intn(P)
		switch r.Intn(5) {
		case 0:
			b.Width[j] = a.Width[j]
		case 1:
			a.Width[j], b.Width[j] = 1, P
		case 2:
			a.Width[j], b.Width[j] = 1+r.Intn((P+2)/3), 1+r.Intn((P+2)/3)
		}
		a.Origin[j] = r.Intn(P)
		b.Origin[j] = r.Intn(P)
		if r.Intn(3) == 0 {
			// Touching or just overlapping.
			b.Origin[j] = a.Origin[j] + a.Width[j] - r.Intn(3) + 1
		} else if r.Intn(3) == 0 {
			// Any pair of origins less than a period apart.
			a.Origin[j] = r.Intn(4*P+1) - 2*P
			b.Origin[j] = a.Origin[j] + r.Intn(2*P-1) - P + 1
		}
		if d := b.Origin[j] - a.Origin[j]; d >= P || d <= -P {
			b.Origin[j] = a.Origin[j]
		}
		if r.Intn(2) == 0 {
			a.Origin[j], b.Origin[j] = b.Origin[j], a.Origin[j]
			a.Width[j], b.Width[j] = b.Width[j], a.Width[j]
		}
	}
	per, free := true, true
	for j := 0; j < 3; j++ {
		onP, onF := false, false
		for x := 0; x < a.Width[j]; x++ {
			for y := 0; y < b.Width[j]; y++ {
				d := a.Origin[j] + x - b.Origin[j] - y
				onF = onF || d == 0
				onP = onP || d%P == 0
			}
		}
		per, free = per && onP, free && onF
	}
	c, d := a, b
	for k := 0; k < 2; k++ {
		t.Eval(2)
		if got := a.Intersect(&b, P); got != per {
			t.Failf("boxes/periodic", "%+v and %+v with a period of %d cells: Intersect is %v", a, b, P, got)
		}
		if got := a.IntersectUnbounded(&b); got != free {
			t.Failf("boxes/unbounded", "%+v and %+v: IntersectUnbounded is %v", a, b, got)
		}
		a, b = b, a
	}
	if a != c || b != d {
		t.Failf("boxes/input", "Intersect changes a box")
	}
	if per {
		t.Count("boxes_meet", 1)
	} else {
		t.Count("boxes_apart", 1)
	}
	t.Nontrivial("%v %v %v", a, b, P)
}

func c16Grid(t *T, i int) {
	r := t.R
	var o, w [3]int
	for j := range o {
		w[j] = 1 + r.Intn(9)
		o[j] = r.Intn(41) - 20
		if r.Intn(3) == 0 {
			o[j] = 0
		}
	}
	g := geom.NewGrid(o, w)
	if r.Intn(2) == 0 {
		g = geom.NewGrid([3]int{1, 2, 3}, [3]int{9, 8, 7})
		g.Init(o, w)
	}
	if r.Intn(4) == 0 {
		g = &geom.NewGridLocation(o, w, 10, 20).Grid
	}
	if g.Volume != w[0]*w[1]*w[2] {
		t.Failf("grid/volume", "grid of %v has volume %d", w, g.Volume)
	}
	seen := make([]bool, w[0]*w[1]*w[2])
	for z := -2; z < w[2]+2; z++ {
		for y := -2; y < w[1]+2; y++ {
			for x := -2; x < w[0]+2; x++ {
				p := [3]int{x + o[0], y + o[1], z + o[2]}
				in := x >= 0 && y >= 0 && z >= 0 && x < w[0] && y < w[1] && z < w[2]
				t.Eval(1)
				if got := g.BoundsCheck(p[0], p[1], p[2]); got != in {
					t.Failf("grid/bounds", "BoundsCheck%v is %v for the grid at %v of width %v", p, got, o, w)
					return
				}
				idx, ok := g.IdxCheck(p[0], p[1], p[2])
				if ok != in {
					t.Failf("grid/idxcheck", "IdxCheck%v is (%d, %v) for the grid at %v of width %v", p, idx, ok, o, w)
					return
				}
				if !in {
					continue
				}
				if k := g.Idx(p[0], p[1], p[2]); k != idx || k < 0 || k >= len(seen) || seen[k] {
					t.Failf("grid/idx", "Idx%v is %d (IdxCheck %d) for the grid at %v of width %v: out of range or repeated", p, k, idx, o, w)
					return
				}
				if idx != x+w[0]*(y+w[1]*z) {
					t.Failf("grid/order", "Idx%v is %d for the grid at %v of width %v; x is not the fastest axis", p, idx, o, w)
				}
				seen[idx] = true
				if a, b, c := g.Coords(idx); [3]int{a, b, c} != p {
					t.Failf("grid/coords", "Coords(%d) is (%d, %d, %d) and Idx%v is %d, for the grid at %v of width %v", idx, a, b, c, p, idx, o, w)
					return
				}
			}
		}
	}
	t.Nontrivial("%v %v", o, w)
}

func c16Segments(t *T, i int) {
	r := t.R
	L := []float64{1, 10, 62.5, 100, 125, 250, 0.1, 70.3, 1000. / 3}[r.Intn(9)]
	if r.Intn(2) == 0 {
		L = math.Exp(2 * r.NormFloat64())
	}
	cells := 1 << uint(r.Intn(12))
	if r.Intn(3) == 0 {
		cells = 1 + r.Intn(700)
	}
	cw := L / float64(cells)
	w32 := float32(L)
	hd := &gio.SheetHeader{TotalWidth: L}
	n := 1 + r.Intn(30)
	lo, hi := [3]float64{}, [3]float64{}
	for j := range lo {
		size := 0.45 * L * math.Pow(r.Float64(), 3)
		if r.Intn(5) == 0 {
			size = 0.9 * L * r.Float64()
		}
		lo[j] = L * r.Float64()
		if r.Intn(3) == 0 {
			lo[j] = cw * math.Floor(lo[j]/cw)
		}
		hi[j] = lo[j] + size
		if r.Intn(3) == 0 {
			hi[j] = cw * math.Ceil(hi[j]/cw)
		}
	}
	vs := make([]geom.Vec, n)
	var rel [][3]float64 // displacements from the first particle
	for k := range vs {
		var q [3]float64
		for j := range lo {
			x := lo[j] + (hi[j]-lo[j])*r.Float64()
			switch r.Intn(6) {
			case 0:
				x = lo[j]
			case 1:
				x = hi[j]
			case 2:
				x = math.Min(hi[j], math.Max(lo[j], cw*math.Round(x/cw)))
			}
			q[j] = x - lo[j]
			v := float32(wrap(x, L))
			if v >= w32 || v < 0 {
				v = 0
			}
			vs[k][j] = v
		}
		rel = append(rel, q)
	}
	// The header holds the smallest corner and the extent of the particles, as the converter writes them.
	for j := range lo {
		mn, mx := math.Inf(1), math.Inf(-1)
		for k := range rel {
			mn, mx = math.Min(mn, rel[k][j]), math.Max(mx, rel[k][j])
		}
		hd.Origin[j] = float32(lo[j] + mn)
		if hd.Origin[j] >= w32 {
			hd.Origin[j] -= w32
		}
		hd.Width[j] = float32(mx - mn)
	}
	cb := hd.CellBounds(cells)
	for j := 0; j < 3; j++ {
		// Particles are stored, and corners added, in float32.
		e := 4e-7 * (L + math.Abs(hi[j])) / cw
		a, b := float64(hd.Origin[j])/cw, (float64(hd.Origin[j])+float64(hd.Width[j]))/cw
		oa, ob := float64(cb.Origin[j]), float64(cb.Origin[j]+cb.Width[j])
		t.Eval(2)
		if !(oa <= a && a < oa+1+e) || !(ob-1 <= b+e && b < ob+e) {
			t.Failf("segments/cellbounds", "a sheet from %g to %g cells on axis %d has CellBounds %v to %v (%d cells in a box of %g)", a, b, j, oa, ob, cells, L)
			return
		}
	}
	for j := 0; j < 3; j++ {
		if cb.Width[j] > cells {
			t.Count("segments_wider_than_box", 1)
			return
		}
	}
	tol := 4e-7 * float64(cells+2) * 3
	seg := append([]geom.Vec{}, vs...)
	cb.ScaleVecsSegment(seg, cells, L)
	for k := range seg {
		for j := 0; j < 3; j++ {
			t.Eval(1)
			y := float64(seg[k][j])
			want := float64(vs[k][j])/cw - float64(cb.Origin[j])
			if !(y >= 0 && y < float64(cb.Width[j])) {
				t.Failf("segments/inside", "particle at %.9g on axis %d is scaled to %.9g, outside its segment's %d cells from %d (%d cells in a box of %g; header %v, %v)", vs[k][j], j, y, cb.Width[j], cb.Origin[j], cells, L, hd.Origin, hd.Width)
				return
			}
			if d := math.Abs(math.Remainder(y-want, float64(cells))); !(d <= tol+1e-6*float64(cb.Width[j])) {
				t.Failf("segments/value", "particle at %.9g on axis %d is scaled to %.9g with origin cell %d of %d in a box of %g, want %g", vs[k][j], j, y, cb.Origin[j], cells, L, want)
				return
			}
		}
	}
	var dom geom.CellBounds
	for j := 0; j < 3; j++ {
		dom.Origin[j], dom.Width[j] = r.Intn(cells), 1+r.Intn(cells)
	}
	if r.Intn(4) == 0 {
		dom.Origin = cb.Origin
	}
	d0 := dom
	dv := append([]geom.Vec{}, vs...)
	c0 := *cb
	cb.ScaleVecsDomain(&dom, dv, cells, L)
	if dom != d0 || *cb != c0 {
		t.Failf("segments/input", "ScaleVecsDomain changes a box")
	}
	for j := 0; j < 3; j++ {
		shift := float64(cb.Origin[j] - dom.Origin[j])
		off := math.Inf(1)
		for k := range dv {
			t.Eval(1)
			y := float64(dv[k][j])
			want := float64(vs[k][j])/cw - float64(dom.Origin[j])
			if d := math.Abs(math.Remainder(y-want, float64(cells))); !(d <= tol+1e-6*float64(cb.Width[j])) {
				t.Failf("segments/domain", "particle at %.9g on axis %d is scaled to %.9g relative to cell %d of %d, want %g", vs[k][j], j, y, dom.Origin[j], cells, want)
				return
			}
			// Every particle uses the same image of the segment.
			o := math.Round((y - float64(seg[k][j]) - shift) / float64(cells))
			if off == math.Inf(1) {
				off = o
			}
			if o != off {
				t.Failf("segments/image", "particles of one segment are scaled into different periodic images on axis %d", j)
				return
			}
		}
		if at := shift + off*float64(cells); math.Abs(at) > float64(cells)/2 {
			t.Failf("segments/image", "the segment is placed %g cells from the domain on axis %d, more than half of %d", at, j, cells)
			return
		}
	}
	t.Count("particles", n)
	t.Nontrivial("%s", fmt.Sprint(hd.Origin, hd.Width, cells))
}
