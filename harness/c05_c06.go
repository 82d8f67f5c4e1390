package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
)

func init() {
	register("C05", "a case is one render of a generated sheet set; non-trivial if the grid holds mass; distinct by (displacement kind, particles, cells, pixels, samples, threads, stride, projection, placement)",
		Group{"whole", 40, 600, 3, c05Whole},
		Group{"projected", 16, 240, 3, c05Whole},
		Group{"tiles", 16, 200, 5, c05Tiles},
		Group{"degenerate", 8, 60, 2, c05Degenerate},
		Group{"chain", 4, 30, 4, c05Chain},
	)
	register("C06", "a case is one box compared pixel by pixel with exactly clipped tetrahedra; distinct by (displacement kind, lattice, pixels, samples, box placement and shape, projection)",
		Group{"box3d", 36, 700, 5, c06Box},
		Group{"box2d", 24, 500, 5, c06Box},
		Group{"chain", 4, 40, 8, c06Chain},
		Group{"one-segment", 1, 4, 2, c06OneSegment},
		Group{"lattice", 8, 80, 5, c06Lattice},
	)
	assumptions["C06"] = []string{"Monte Carlo deviations stay within eight standard deviations plus twenty single-sample jumps"}
}

func maxThreads(t *T) int { return pick(t.R, 1, 2, 3, 4, 5, 7, 8, 16, 33) }

// simFor picks a simulation layout.
func (t *T) simFor() (*Sim, string, int) {
	kind := simKinds[t.R.Intn(len(simKinds))]
	n, cells := 8, 4
	switch t.R.Intn(8) {
	case 0:
		n, cells = 16, 4
	case 1:
		n, cells = 8, 8
	case 2:
		n, cells = 12, 6
	case 3:
		n, cells = 5, 5
	case 4:
		n, cells = 8, 2
	case 5:
		n, cells = 6, 3
	}
	s, dir := t.renderSim(n, cells, kind)
	return s, dir, cells
}

func strideFor(t *T, s *Sim, cells int) int {
	w := s.N / cells
	opts := []int{1}
	for k := 2; k <= w && w%k == 0 && 4*k <= s.N; k *= 2 { // half of the simulation would be ambiguous
		opts = append(opts, k)
	}
	return opts[t.R.Intn(len(opts))]
}

func c05Whole(t *T, i int) {
	r := t.R
	s, dir, cells := (*Sim)(nil), "", 0
	if i%12 == 5 { // wide segments
		cells = 3
		s, dir = t.renderSim(60, cells, simKinds[r.Intn(len(simKinds))])
	} else {
		s, dir, cells = t.simFor()
	}
	c := RCfg{Quantity: "Density", Input: dir, Threads: maxThreads(t), Subsample: strideFor(t, s, cells)}
	tp := pick(r, 1, 2, 3, 5, 8, 12, 16, 21, 32)
	c.Particles = pick(r, 1, 2, 3, 7, 16, 25)
	if s.N > 16 {
		c.Particles = pick(r, 1, 2, 3)
	}
	switch {
	case i%10 == 7: // many pixels
		tp = pick(r, 48, 65, 100, 130)
		if t.Group == "projected" {
			tp = pick(r, 65, 129, 257, 400)
		}
		c.Threads = 1 + r.Intn(8)
	case i%10 == 3 && s.N <= 8: // many samples
		c.Particles = pick(r, 257, 1025, 4097)
	}
	b := BBox{Name: "all"}
	for j := 0; j < 3; j++ {
		b.W[j] = s.L
		switch r.Intn(3) {
		case 0:
			b.O[j] = r.Float64() * s.L * 0.999
		case 1:
			b.O[j] = float64(r.Intn(tp)) * (s.L / float64(tp))
		}
	}
	if t.Group == "projected" {
		b.Axis = []string{"X", "Y", "Z"}[r.Intn(3)]
	}
	if r.Intn(3) == 0 {
		c.ImagePixels = tp
	} else {
		c.TotalPixels = tp
	}
	switch r.Intn(6) {
	case 0:
		c.Particles = 0
		c.Auto = true
		c.ImagePixels, c.TotalPixels = 0, pick(r, 16, 32, 64)
		tp = c.TotalPixels
	case 1:
		c.Depth = pick(r, 1, 2, 5)
	}
	gs, ok := t.render("C05", c, []BBox{b})
	if !ok {
		return
	}
	g := gs["all"]
	sum, n := 0.0, 0
	for _, v := range g.Vals[0] {
		if math.IsNaN(float64(v)) || math.IsInf(float64(v), 0) || v < 0 {
			t.Failf("C05/value", "a density is %g", v)
			return
		}
		sum += float64(v)
		n++
	}
	wantN := tp * tp * tp
	if b.Axis != "" {
		wantN = tp * tp
	}
	t.Eval(n)
	if n != wantN {
		t.Failf("C05/size", "whole box at %d pixels has %d values, want %d", tp, n, wantN)
		return
	}
	mean := sum / float64(n)
	t.Max("whole_box_mean_error", math.Abs(mean-1))
	if !(math.Abs(mean-1) <= 5e-6) {
		t.Failf("C05/mean", "mean density of the whole box is %.9g (%s N=%d Cells=%d %+v box %+v)", mean, s.Kind, s.N, cells, c, b)
	}
	t.Nontrivial("%s %d %d %+v %v", s.Kind, s.N, cells, c, b.O)
	t.Sample("%s N=%d Cells=%d pixels=%d P=%d threads=%d stride=%d axis=%q mean=%.9f", s.Kind, s.N, cells, tp, c.Particles, c.Threads, c.Subsample, b.Axis, mean)
}

// c05Degenerate: every tetrahedron collapsed onto pixel corners, edges or faces, where a wrong
// rounding direction moves all of the mass.
func c05Degenerate(t *T, i int) {
	r := t.R
	n, cells := 8, 4
	L := []float64{8, 64, 100, 1 << 17}[r.Intn(4)]
	s := newSim(r, n, L, "lattice", 0)
	tp := 8
	cw := L / float64(tp)
	axes := 1 + i%3
	site := [3]float64{}
	for j := range site {
		site[j] = float64(r.Intn(tp)) * cw
	}
	for k := range s.Xs {
		q := [3]int{k % n, k / n % n, k / n / n}
		for j := 0; j < axes; j++ {
			// planes of a segment collapse onto one pixel boundary
			s.Xs[k][j] = wrap32(float64(q[j]/4)*4*cw, L)
		}
	}
	dir := filepath.Join(t.Dir, "sheets")
	writeSheets(dir, s.segments(cells), stdSheetName)
	b := BBox{Name: "all", W: [3]float64{L, L, L}}
	for j := range b.O {
		b.O[j] = float64(r.Intn(tp))*cw + 0.3*cw
	}
	if i%2 == 1 {
		b.Axis = []string{"X", "Y", "Z"}[r.Intn(3)]
	}
	c := RCfg{Quantity: "Density", Input: dir, Threads: maxThreads(t), TotalPixels: tp, Particles: 5}
	gs, ok := t.render("C05", c, []BBox{b})
	if !ok {
		return
	}
	sum := 0.0
	for _, v := range gs["all"].Vals[0] {
		sum += float64(v)
	}
	t.Eval(1)
	mean := sum / float64(len(gs["all"].Vals[0]))
	if !(math.Abs(mean-1) <= 5e-6) {
		t.Failf("C05/collapsed", "mean density of the whole box is %.9g with %d axes collapsed onto pixel boundaries", mean, axes)
	}
	t.Nontrivial("%d %v %v", axes, b.O, c)
	t.Sample("collapsed axes=%d mean=%.9f", axes, mean)
}

// c05Tiles: boxes that tile the pixels hold the whole mass.
func c05Tiles(t *T, i int) {
	r := t.R
	s, dir, cells := t.simFor()
	tp := pick(r, 6, 8, 12, 16, 24)
	c := RCfg{Quantity: "Density", Input: dir, Threads: maxThreads(t), Subsample: strideFor(t, s, cells), TotalPixels: tp}
	c.Particles = pick(r, 50, 200, 800)
	cuts := [3][]int{}
	for j := 0; j < 3; j++ {
		o := r.Intn(tp)
		cuts[j] = []int{o}
		nc := 1 + r.Intn(3)
		if tp < 8 && nc > 2 {
			nc = 2
		}
		for len(cuts[j]) < nc {
			x := o + 1 + r.Intn(tp-1)
			dup := false
			for _, y := range cuts[j] {
				dup = dup || y == x
			}
			if !dup {
				cuts[j] = append(cuts[j], x)
			}
		}
		sortInts(cuts[j])
		cuts[j] = append(cuts[j], cuts[j][0]+tp)
	}
	boxes := []BBox{}
	regs := []region{}
	axis := randAxis(r, 0.4)
	for a := 0; a+1 < len(cuts[0]); a++ {
		for b := 0; b+1 < len(cuts[1]); b++ {
			for d := 0; d+1 < len(cuts[2]); d++ {
				o := [3]int{cuts[0][a], cuts[1][b], cuts[2][d]}
				w := [3]int{cuts[0][a+1] - o[0], cuts[1][b+1] - o[1], cuts[2][d+1] - o[2]}
				bb := pixBox(r, fmt.Sprintf("t%d", len(boxes)), o, w, s.L, tp, axis)
				boxes = append(boxes, bb)
				g, _ := pixels(bb.O, bb.W, s.L, tp, axisOf(axis))
				regs = append(regs, g)
			}
		}
	}
	r.Shuffle(len(boxes), func(i, j int) { boxes[i], boxes[j] = boxes[j], boxes[i]; regs[i], regs[j] = regs[j], regs[i] })
	gs, ok := t.render("C05", c, boxes)
	if !ok {
		return
	}
	tets := s.tets(c.Subsample, tp)
	w := math.Pow(float64(tp*c.Subsample)/float64(s.N), 3) / 6
	total, tol, cells3 := 0.0, 0.0, 0
	for k, b := range boxes {
		g := gs[b.Name]
		if !t.checkRegion("C05", g, regs[k]) {
			return
		}
		depth := 1.0
		if regs[k].proj >= 0 {
			depth = float64(regs[k].w[regs[k].proj])
		}
		cells3 += regs[k].w[0] * regs[k].w[1] * regs[k].w[2]
		sum := 0.0
		for _, v := range g.Vals[0] {
			sum += float64(v) * depth
		}
		e := expectations(tets, regs[k], false)
		tl := e.total.tol(w, c.Particles)
		tol += tl * tl
		t.Eval(1)
		if d := math.Abs(sum - w*e.total.p); d > tl {
			t.Failf("C05/tile", "box %v of %d tiles holds %.6g, the tetrahedra put %.6g there (tolerance %.3g) %s %+v", regs[k], len(boxes), sum, w*e.total.p, tl, s.Kind, c)
			return
		}
		total += sum
	}
	if cells3 != tp*tp*tp {
		panic("tiles do not tile")
	}
	t.Eval(1)
	d := math.Abs(total - float64(tp*tp*tp))
	if d > math.Sqrt(tol) {
		t.Failf("C05/tiles", "%d tiles hold %.8g pixels' worth of mass, want %d (tolerance %.3g)", len(boxes), total, tp*tp*tp, math.Sqrt(tol))
	}
	t.Max("tiled_mass_relative_error", d/float64(tp*tp*tp))
	t.Nontrivial("%s %d %v %v", s.Kind, s.N, c, cuts)
	t.Sample("%s N=%d %d tiles of %d^3 pixels, axis %q: relative mass error %.2g", s.Kind, s.N, len(boxes), tp, axis, d/float64(tp*tp*tp))
}

// convertSim runs the converter on a snapshot of the simulation.
func (t *T) convertSim(s *Sim, cells int) (string, bool) {
	in := filepath.Join(t.Dir, "snap")
	s.writeSnap(t.R, in, gadgetOpts{Files: 1 + t.R.Intn(4), IDSize: 64})
	out := t.mkdir("converted")
	cfg := t.write("convert.cfg", fmt.Sprintf("[ConvertSnapshot]\nInput = %s\nOutput = %s\nInputFormat = LGadget-2\nCells = %d\n", in, out, cells))
	if r := t.cli("-ConvertSnapshot", cfg); r.Code != 0 {
		t.Failf("chain/convert", "conversion failed: %s", r.Tail())
		return "", false
	}
	os.RemoveAll(in)
	return out, true
}

func c05Chain(t *T, i int) {
	r := t.R
	n, cells := 8, 4
	if i%2 == 1 {
		n, cells = 11, 11
	}
	s := newSim(r, n, 100, simKinds[i%len(simKinds)], 0.05)
	dir, ok := t.convertSim(s, cells)
	if !ok {
		return
	}
	b := BBox{Name: "all", W: [3]float64{s.L, s.L, s.L}}
	c := RCfg{Quantity: "Density", Input: dir, Threads: maxThreads(t), TotalPixels: pick(r, 7, 8, 16), Particles: 3}
	gs, ok := t.render("C05", c, []BBox{b})
	if !ok {
		return
	}
	sum := 0.0
	for _, v := range gs["all"].Vals[0] {
		sum += float64(v)
	}
	mean := sum / float64(len(gs["all"].Vals[0]))
	t.Eval(1)
	if !(math.Abs(mean-1) <= 5e-6) {
		t.Failf("C05/chain", "mean density of a converted and rendered snapshot is %.9g", mean)
	}
	t.Nontrivial("chain %d %s", n, s.Kind)
	t.Sample("converted %s N=%d Cells=%d: mean %.9f", s.Kind, n, cells, mean)
}

// C06

// randRegion picks a box in pixels, biased to periodic faces, thin and thick shapes.
func randRegion(t *T, tp int) (o, w [3]int) {
	r := t.R
	for j := 0; j < 3; j++ {
		switch r.Intn(6) {
		case 0:
			w[j] = 1
		case 1:
			w[j] = tp
		case 2:
			w[j] = 1 + r.Intn(tp)
		default:
			w[j] = 1 + r.Intn((tp+1)/2)
		}
		o[j] = r.Intn(tp)
		if r.Intn(3) == 0 && w[j] > 1 {
			o[j] = tp - 1 - r.Intn(w[j]-1) // straddles the face
		} else if r.Intn(2) == 0 { // close to a face on the inside
			if o[j] = r.Intn(3); r.Intn(2) == 0 {
				o[j] = tp - w[j] - r.Intn(3)
			}
		}
		o[j] = pmod(o[j], tp)
	}
	return o, w
}

func (t *T) checkBox(site string, s *Sim, dir string, c RCfg, b BBox, tp int) {
	gs, ok := t.render(site, c, []BBox{b})
	if !ok {
		return
	}
	g := gs[b.Name]
	reg, edge := pixels(b.O, b.W, s.L, tp, axisOf(b.Axis))
	if edge {
		panic("box edge on a pixel boundary")
	}
	if !t.checkRegion(site, g, reg) {
		return
	}
	tets := s.tets(c.Subsample, tp)
	e := expectations(tets, reg, false)
	w := math.Pow(float64(tp*c.Subsample)/float64(s.N), 3) / 6
	ok = t.checkDensity(site, g.Vals[0], e, w, c.Particles)
	hold, empty := 0, 0
	for k := range e.st {
		if e.st[k].n > 0 {
			hold++
		}
		if !e.touch[k] {
			empty++
		}
	}
	t.Count("pixels_with_mass", hold)
	t.Count("pixels_without_tetrahedra", empty)
	if hold > 0 {
		t.Nontrivial("%s %d %+v %+v", s.Kind, s.N, reg, c)
	}
	t.Sample("%s N=%d pixels=%d P=%d stride=%d region %+v: %d pixels with mass, %d empty", s.Kind, s.N, tp, c.Particles, c.Subsample, reg, hold, empty)
}

func c06Box(t *T, i int) {
	r := t.R
	s, dir, cells := t.simFor()
	tp := pick(r, 4, 7, 8, 12, 16, 20)
	o, w := randRegion(t, tp)
	axis := ""
	if t.Group == "box2d" {
		axis = []string{"X", "Y", "Z"}[i%3]
	}
	b := pixBox(r, "b", o, w, s.L, tp, axis)
	c := RCfg{Quantity: "Density", Input: dir, Threads: maxThreads(t), TotalPixels: tp, Particles: pick(r, 1000, 4000), Subsample: strideFor(t, s, cells)}
	if s.N == 16 && c.Subsample == 1 {
		c.Particles = 500
	}
	t.checkBox("C06", s, dir, c, b, tp)
}

func c06Chain(t *T, i int) {
	r := t.R
	s := newSim(r, 8, 62.5, simKinds[i%len(simKinds)], 0.07)
	dir, ok := t.convertSim(s, pick(r, 4, 2, 8))
	if !ok {
		return
	}
	tp := 12
	o, w := randRegion(t, tp)
	b := pixBox(r, "b", o, w, s.L, tp, randAxis(r, 0.5))
	c := RCfg{Quantity: "Density", Input: dir, Threads: 4, TotalPixels: tp, Particles: 2000, Subsample: 1}
	t.checkBox("C06/chain", s, dir, c, b, tp)
}

// c06OneSegment: a snapshot converted into a single segment, which spans the whole periodic box.
func c06OneSegment(t *T, i int) {
	r := t.R
	s := newSim(r, 6, 50, simKinds[i%len(simKinds)], 0.07)
	dir, ok := t.convertSim(s, 1)
	if !ok {
		return
	}
	tp := 8
	b := pixBox(r, "b", [3]int{}, [3]int{tp, tp, tp}, s.L, tp, "")
	c := RCfg{Quantity: "Density", Input: dir, Threads: 4, TotalPixels: tp, Particles: 2000, Subsample: 1}
	t.checkBox("C06/one-segment", s, dir, c, b, tp)
}

// c06Lattice: particles exactly on pixel boundaries, where rounding must not move whole tetrahedra.
func c06Lattice(t *T, i int) {
	r := t.R
	L := []float64{8, 100, 100.1, 62.5, 0.7, 31.7, 1e4}[r.Intn(7)]
	n, cells := 8, 4
	if i%3 == 0 {
		n, cells = 10, 5
	}
	s := &Sim{N: n, L: L, Z: 0, Om: 0.3, Ol: 0.7, H100: 0.7, Mass: 1, Kind: "exact-lattice"}
	sh := r.Intn(3)
	for k := 0; k < n*n*n; k++ {
		q := [3]int{k % n, k / n % n, k / n / n}
		var x V3
		for j := range x {
			x[j] = wrap32(float64(q[j]+sh)*L/float64(n), L)
			switch r.Intn(4) {
			case 0: // one unit in the last place to either side
				x[j] = wrap32(float64(math.Nextafter32(x[j], float32(L*2))), L)
			case 1:
				y := math.Nextafter32(x[j], -1)
				if y < 0 {
					y = math.Nextafter32(float32(L), 0)
				}
				x[j] = wrap32(float64(y), L)
			}
		}
		s.Xs = append(s.Xs, x)
		s.Vs = append(s.Vs, V3{})
	}
	dir := filepath.Join(t.Dir, "sheets")
	writeSheets(dir, s.segments(cells), stdSheetName)
	tp := n * (1 + r.Intn(2))
	o, w := randRegion(t, tp)
	b := pixBox(r, "b", o, w, s.L, tp, randAxis(r, 0.4))
	c := RCfg{Quantity: "Density", Input: dir, Threads: 4, TotalPixels: tp, Particles: 1000, Subsample: 1}
	t.checkBox("C06/lattice", s, dir, c, b, tp)
}
