package main

import (
	"fmt"
	"math"
	"path/filepath"
	"strconv"
)

func init() {
	register("C12", "a case is one TetraHist run on generated sheets and a generated grid file; distinct by (sheet, grid, boxes, bins, samples, stride, threads)",
		Group{"bins", 40, 700, 5, c12Bins},
		Group{"total", 40, 700, 3, c12Total},
		Group{"rendered", 4, 60, 4, c12Rendered},
		Group{"lattice", 12, 150, 4, c12Bins},
		Group{"faces", 9, 150, 4, c12Bins},
	)
	assumptions["C12"] = []string{"Monte Carlo deviations stay within eight standard deviations plus twenty single-sample jumps"}
}

// aligned makes a box from fine cell coordinates.
func aligned(name string, o, w [3]int, L float64, fine int) BBox {
	b := BBox{Name: name}
	for j := range o {
		b.O[j] = float64(o[j]) * L / float64(fine)
		b.W[j] = float64(w[j]) * L / float64(fine)
	}
	return b
}

func c12Sim(t *T) (*Sim, string, int) {
	r := t.R
	n, cells := 8, 4
	switch r.Intn(5) {
	case 0:
		n, cells = 16, 4
	case 1:
		n, cells = 5, 5
	case 2:
		n, cells = 8, 8
	}
	kind := simKinds[r.Intn(len(simKinds))]
	if t.Group == "lattice" {
		kind = "lattice"
		n, cells = pick(r, 8, 12, 6), 0
		cells = n / 2
	}
	if t.Group == "total" && r.Intn(10) == 0 {
		n, cells = 60, 3 // wide segments
	}
	s := newSim(r, n, []float64{1, 24, 62.5, 100, 8e4, 0.04}[r.Intn(6)], kind, randAmp(r, cells))
	if t.Group == "faces" { // everything lies around the face of one axis
		for k := range s.Xs {
			s.Xs[k][t.Idx%3] = wrap32(s.L*0.11*(2*r.Float64()-1), s.L)
		}
	}
	dir := filepath.Join(t.Dir, "sheets")
	writeSheets(dir, s.segments(cells), scramble(r))
	return s, dir, cells
}

// binOf gives the bin of a value, ok if it is in range and not at a bin's edge.
func (h *HCfg) binOf(v float64) (bin int, in, edge bool) {
	x, a, b := v, h.Min, h.Max
	if h.Scale == "Log" {
		if v <= 0 {
			return 0, false, false
		}
		x, a, b = math.Log10(v), math.Log10(a), math.Log10(b)
	}
	f := (x - a) / (b - a) * float64(h.Bins)
	edge = math.Abs(f-math.Round(f)) < 1e-6
	if f < 0 || f >= float64(h.Bins) {
		return 0, false, edge
	}
	return int(f), true, edge
}

func (t *T) checkCenters(site string, h *HCfg, o *HistOut) bool {
	for i, c := range o.Centers {
		x := h.Min + (h.Max-h.Min)*(float64(i)+0.5)/float64(h.Bins)
		if h.Scale == "Log" {
			a, b := math.Log10(h.Min), math.Log10(h.Max)
			x = math.Pow(10, a+(b-a)*(float64(i)+0.5)/float64(h.Bins))
		}
		got, err := strconv.ParseFloat(c, 64)
		t.Eval(1)
		if err != nil || math.Abs(got-x) > 6e-4*math.Abs(x)+1e-9*(math.Abs(h.Max)+math.Abs(h.Min)) {
			t.Failf(site+"/centers", "centre of bin %d of %d in [%g, %g) %s is %s, want %g", i, h.Bins, h.Min, h.Max, h.Scale, c, x)
			return false
		}
	}
	return true
}

func c12Bins(t *T, i int) {
	r := t.R
	s, dir, cells := c12Sim(t)
	const fine = 24
	gc := pick(r, 1, 2, 3, 4, 6, 8, 12, 24)
	if t.Group == "lattice" {
		gc = pick(r, 2, 4, 8)
	}
	g := &OwnGrid{L: s.L, R: region{cells: gc, proj: -1, w: [3]int{gc, gc, gc}}}
	if r.Intn(3) == 0 { // a grid of part of the simulation
		for j := range g.R.w {
			g.R.w[j] = 1 + r.Intn(gc)
			g.R.o[j] = r.Intn(gc)
		}
	}
	h := HCfg{Input: dir, GridFile: filepath.Join(t.Dir, "grid.gtet"), Bins: pick(r, 1, 2, 3, 7, 20), Threads: maxThreads(t),
		Subsample: strideFor(t, s, cells), Particles: pick(r, 300, 1000)}
	if s.N == 16 && h.Subsample == 1 {
		h.Particles = 100
	}
	if r.Intn(2) == 0 {
		h.Scale, h.Min = "Log", math.Pow(10, -2+2*r.Float64())
		h.Max = h.Min * math.Pow(10, 0.5+3*r.Float64())
	} else {
		h.Scale, h.Min = "Linear", -3+5*r.Float64()
		h.Max = h.Min + 0.5 + 10*r.Float64()
	}
	for k := 0; k < g.R.size(); k++ {
		for {
			v := h.Min + (h.Max-h.Min)*(1.6*r.Float64()-0.3)
			if h.Scale == "Log" && r.Intn(2) == 0 {
				v = h.Min * math.Pow(h.Max/h.Min, 1.6*r.Float64()-0.3)
			}
			if r.Intn(12) == 0 {
				v = 0
			}
			if _, _, edge := h.binOf(float64(float32(v))); !edge || v == 0 && h.Scale == "Log" {
				g.Vals = append(g.Vals, float32(v))
				break
			}
		}
	}
	g.write(h.GridFile)
	nb := 1 + r.Intn(3)
	if i%6 == 5 { // many boxes, so that their order shows
		nb = 5 + r.Intn(8)
	}
	boxes, regs := []BBox{}, []region{}
	for k := 0; k < nb; k++ {
		o, w := randRegion(t, fine)
		if nb > 3 {
			for j := range w {
				w[j] = 1 + w[j]/2
			}
		}
		if t.Group == "faces" {
			o, w = [3]int{r.Intn(fine), r.Intn(fine), r.Intn(fine)}, [3]int{fine, fine, fine}
			j := i % 3
			w[j] = 1 + r.Intn(12)
			o[j] = 23 - w[j]
			if k%2 == 1 {
				o[j] = 1 + r.Intn(2)
			}
		}
		if t.Group == "lattice" && r.Intn(2) == 0 {
			for j := range o {
				o[j], w[j] = 3*(o[j]/3), 3*((w[j]+2)/3)
			}
		}
		b := aligned(fmt.Sprintf("b%d", k), o, w, s.L, fine)
		if r.Intn(6) == 0 && w[0]%2 == 0 { // a ball's enclosing cube
			for j := range w {
				w[j] = w[0]
				b.O[j] = float64(pmod(o[j]+w[0]/2, fine)) * s.L / fine
			}
			b.Radius, b.Mult = float64(w[0])/2*s.L/fine, 0
			if r.Intn(2) == 0 {
				b.Radius, b.Mult = b.Radius/2, 2
			}
		}
		boxes = append(boxes, b)
		regs = append(regs, region{o: o, w: w, cells: fine, proj: -1})
	}
	out, ok := t.hist("C12", h, splitFiles(r, boxes, 1+r.Intn(2))...)
	if !ok {
		return
	}
	tets := s.tets(h.Subsample, fine)
	per := fine / gc
	for bi, b := range boxes {
		o := out[b.Name]
		if !t.checkCenters("C12", &h, o) {
			return
		}
		st := make([]mcStat, h.Bins+1) // the last is the total in range
		near := make([]bool, h.Bins)
		acc := make([]float64, h.Bins+1)
		for ti := range tets {
			for k := range acc {
				acc[k] = 0
			}
			for _, v := range tets[ti].ovs {
				if regs[bi].key(v.c) < 0 {
					continue
				}
				var c [3]int
				for j := range c {
					c[j] = pmod(v.c[j], fine) / per
				}
				val, ok := g.at(c)
				if !ok {
					continue
				}
				if k, in, _ := h.binOf(float64(val)); in {
					acc[k] += v.p
					acc[h.Bins] += v.p
					near[k] = true
				}
			}
			for k, p := range acc {
				if p > 0 {
					st[k].add(math.Min(p, 1))
				}
			}
		}
		tot := 0
		for k := 0; k <= h.Bins; k++ {
			n := tot
			if k < h.Bins {
				n = o.Counts[k]
				tot += n
			}
			P := float64(h.Particles)
			want := P * st[k].p
			tol := st[k].tol(P, h.Particles)
			t.Eval(1)
			// Samples within rounding of a face may fall to the other side.
			tol += 1e-4*float64(len(tets))*P/1000 + 3
			if math.Abs(float64(n)-want) > tol {
				what := fmt.Sprintf("bin %d", k)
				if k == h.Bins {
					what = "all bins"
				}
				t.Failf("C12/count", "%s of box %v (cells of L/%d) hold %d samples, want %.1f (tolerance %.1f) of %d; %s N=%d %+v grid %+v", what,
					regs[bi], fine, n, want, tol, 6*h.Particles*len(tets)/6, s.Kind, s.N, h, g.R)
				return
			}
			if k < h.Bins && !near[k] && n > 0 && t.Group != "lattice" && st[k].n == 0 && n > 3+int(1e-5*P*float64(len(tets))) {
				t.Failf("C12/empty", "bin %d holds %d samples but no pixel near the tetrahedra has such a value", k, n)
				return
			}
			t.Max("deviation_over_tolerance", math.Abs(float64(n)-want)/tol)
		}
		t.Count("samples_counted", tot)
	}
	t.Nontrivial("%s %d %+v %v %v", s.Kind, s.N, h, regs, g.R)
	t.Sample("%s N=%d grid %d^3: %d boxes, %d %s bins, P=%d threads=%d", s.Kind, s.N, gc, nb, h.Bins, h.Scale, h.Particles, h.Threads)
}

// c12Total: with a range covering all values the whole simulation counts every sample once, and
// boxes tiling it share the samples between them.
func c12Total(t *T, i int) {
	r := t.R
	s, dir, cells := c12Sim(t)
	g := randGrid(r, s.L, pick(r, 1, 2, 5, 7, 10, 13))
	gf := filepath.Join(t.Dir, "grid.gtet")
	g.write(gf)
	h := HCfg{Input: dir, GridFile: gf, Bins: pick(r, 1, 4, 11), Threads: maxThreads(t), Subsample: strideFor(t, s, cells),
		Particles: pick(r, 1, 2, 3, 5, 9), Min: 1e-3, Max: 1e3, Scale: []string{"Log", "Linear"}[r.Intn(2)]}
	if s.N > 16 {
		h.Particles = 1 + r.Intn(2)
		if s.N == 60 && r.Intn(2) == 0 { // more samples than 24 bits in one bin
			h.Particles, h.Bins, h.Subsample = 14, 1, 1
		}
	}
	boxes := []BBox{}
	b := BBox{Name: "all", W: [3]float64{s.L, s.L, s.L}}
	for j := range b.O {
		if r.Intn(3) != 0 {
			b.O[j] = r.Float64() * s.L
		}
	}
	boxes = append(boxes, b)
	// a tiling along one axis with exactly representable cuts, so that no sample is in two tiles
	ax := r.Intn(3)
	cut := s.L * float64(1+r.Intn(15)) / 16
	t1, t2 := BBox{Name: "t1", W: b.W}, BBox{Name: "t2", W: b.W}
	t1.W[ax], t2.O[ax], t2.W[ax] = cut, cut, s.L-cut
	boxes = append(boxes, t1, t2)
	out, ok := t.hist("C12", h, boxes)
	if !ok {
		return
	}
	sum := func(n string) int {
		k := 0
		for _, c := range out[n].Counts {
			k += c
		}
		return k
	}
	sub := s.N / h.Subsample
	want := 6 * h.Particles * sub * sub * sub
	t.Eval(2)
	if got := sum("all"); got != want {
		t.Failf("C12/total", "the whole simulation from %v counts %d samples, want %d: %s N=%d Cells=%d %+v", b.O, got, want, s.Kind, s.N, cells, h)
		return
	}
	// every box draws its own samples: the tiles agree in expectation only
	got := sum("t1") + sum("t2")
	tol := 20*float64(want)/64 + 8*math.Sqrt(float64(want)*float64(h.Particles)) + 50
	if math.Abs(float64(got-want)) > tol {
		t.Failf("C12/tiles", "two boxes tiling the simulation count %d samples together, want about %d", got, want)
		return
	}
	t.checkCenters("C12", &h, out["all"])
	t.Nontrivial("%s %d %d %+v %v", s.Kind, s.N, cells, h, b.O)
	t.Sample("%s N=%d Cells=%d stride=%d P=%d threads=%d: total %d exact", s.Kind, s.N, cells, h.Subsample, h.Particles, h.Threads, want)
}

// c12Rendered: the grid file comes from gotetra's own rendering; mass-weighted densities.
func c12Rendered(t *T, i int) {
	r := t.R
	s, dir := t.renderSim(8, 4, simKinds[i%len(simKinds)])
	tp := pick(r, 6, 8)
	c := RCfg{Quantity: "Density", Input: dir, Threads: 4, TotalPixels: tp, Particles: 300}
	b := BBox{Name: "all", W: [3]float64{s.L, s.L, s.L}}
	gs, ok := t.render("C12/rendered", c, []BBox{b})
	if !ok {
		return
	}
	gf := t.write("grid.gtet", string(gs["all"].Raw))
	h := HCfg{Input: dir, GridFile: gf, Bins: 40, Threads: 4, Particles: 300, Min: 1e-4, Max: 1e4, Scale: "Log"}
	out, ok := t.hist("C12/rendered", h, []BBox{b})
	if !ok {
		return
	}
	tot := 0
	want := make([]float64, h.Bins)
	for k, n := range out["all"].Counts {
		tot += n
		_ = k
	}
	scale := float64(6*h.Particles*s.N*s.N*s.N) / float64(tp*tp*tp)
	for _, v := range gs["all"].Vals[0] {
		if k, in, _ := h.binOf(float64(v)); in {
			want[k] += float64(v) * scale
		}
	}
	if tot > 6*h.Particles*s.N*s.N*s.N {
		t.Failf("C12/rendered", "%d samples counted of %d", tot, 6*h.Particles*s.N*s.N*s.N)
	}
	for k, n := range out["all"].Counts {
		t.Eval(1)
		tol := 0.05*want[k] + 0.01*float64(6*h.Particles*s.N*s.N*s.N)
		if math.Abs(float64(n)-want[k]) > tol {
			t.Failf("C12/rendered", "bin %d holds %d samples; the rendered grid has mass for %.0f", k, n, want[k])
			return
		}
	}
	t.Nontrivial("%s %d", s.Kind, tp)
	t.Sample("%s: mass-weighted histogram of the rendered grid matches its mass", s.Kind)
}
