package main

import (
	"fmt"
	"math"
	"math/rand"
	"path/filepath"
)

func init() {
	register("C07", "a case is one run with several boxes, each compared with the exact overlap of the tetrahedra; distinct by (sheet, list of boxes, split over bounds files, sheet file names, pixel rule)",
		Group{"multi", 28, 500, 5, c07Multi},
		Group{"image", 14, 250, 5, c07Image},
		Group{"auto", 12, 200, 5, c07Auto},
		Group{"velocity", 10, 160, 3, c07Velocity},
		Group{"many", 4, 40, 4, c07Many},
	)
	register("C08", "a case is one parallel run under the race detector; distinct by (mode, quantity, threads, sheets, boxes)",
		Group{"race-render", 40, 500, 5, c08Render},
		Group{"race-hist", 14, 200, 4, c08Hist},
		Group{"threads", 18, 250, 4, c08Threads},
		Group{"repeat", 6, 60, 3, c08Repeat},
	)
	assumptions["C08"] = []string{"the race detector reports every unsynchronised access that occurs in the explored schedules"}
}

// oddNames lists box names that are usable as file names.
var oddNames = []string{"halo_1", "a", "A", "z slice", "box.1", "-x", "Box", "gtet", "0", "n=3", "b2", "halo_10", "pre_", "_app", "Ω"}

// scramble gives the sheets names whose order is unrelated to their indices.
func scramble(r *rand.Rand) func(i int) string {
	p := r.Perm(4096)
	pre := []string{"", "s", "x.", "segment-"}[r.Intn(4)]
	return func(i int) string { return fmt.Sprintf("%s%04d", pre, p[i]) }
}

// splitFiles distributes boxes over bounds files.
func splitFiles(r *rand.Rand, bs []BBox, n int) [][]BBox {
	out := make([][]BBox, n)
	for i := range bs {
		k := r.Intn(n)
		out[k] = append(out[k], bs[i])
	}
	return out
}

func namesFor(r *rand.Rand, n int) []string {
	p := r.Perm(len(oddNames))
	out := []string{}
	for i := 0; i < n; i++ {
		if i < len(p) {
			out = append(out, oddNames[p[i]])
		} else {
			out = append(out, fmt.Sprint("entry", i))
		}
	}
	return out
}

func c07Multi(t *T, i int) {
	r := t.R
	kind := simKinds[r.Intn(len(simKinds))]
	n, cells := 8, 4
	if i%4 == 3 {
		n, cells = 5, 5
	}
	s := newSim(r, n, boxL(r), kind, 0.02+0.06*r.Float64())
	dir := filepath.Join(t.Dir, "sheets")
	writeSheets(dir, s.segments(cells), scramble(r))
	tp := pick(r, 5, 8, 12, 16)
	nb := 2 + r.Intn(5)
	names := namesFor(r, nb)
	boxes, regs := []BBox{}, map[string]region{}
	for k := 0; k < nb; k++ {
		o, w := randRegion(t, tp)
		if k > 0 && r.Intn(4) == 0 { // a copy of an earlier box, or one sharing pixels with it
			g := regs[boxes[0].Name]
			o, w = g.o, g.w
			if r.Intn(2) == 0 {
				o[r.Intn(3)]++
			}
		}
		b := pixBox(r, names[k], o, w, s.L, tp, randAxis(r, 0.35))
		boxes = append(boxes, b)
		g, _ := pixels(b.O, b.W, s.L, tp, axisOf(b.Axis))
		regs[b.Name] = g
	}
	c := RCfg{Quantity: "Density", Input: dir, Threads: maxThreads(t), TotalPixels: tp, Particles: pick(r, 300, 1000), Subsample: strideFor(t, s, cells)}
	files := splitFiles(r, boxes, 1+r.Intn(3))
	gs, ok := t.render("C07", c, files...)
	if !ok {
		return
	}
	tets := s.tets(c.Subsample, tp)
	w := math.Pow(float64(tp*c.Subsample)/float64(s.N), 3) / 6
	for _, b := range boxes {
		g := gs[b.Name]
		if !t.checkRegion("C07", g, regs[b.Name]) {
			return
		}
		e := expectations(tets, regs[b.Name], false)
		if !t.checkDensity("C07/box", g.Vals[0], e, w, c.Particles) {
			t.Failf("C07/box", "in box %q %+v of %d boxes %+v", b.Name, regs[b.Name], nb, regs)
			return
		}
		t.Count("boxes_compared", 1)
	}
	t.Nontrivial("%s %d %+v %v %d", kind, n, c, regs, len(files))
	t.Sample("%s N=%d: %d boxes in %d bounds files at %d pixels, P=%d", kind, n, nb, len(files), tp, c.Particles)
}

// c07Image: ImagePixels gives every box its own scale.
func c07Image(t *T, i int) {
	r := t.R
	kind := simKinds[r.Intn(len(simKinds))]
	s := newSim(r, 8, []float64{1, 64, 100, 1.25e5}[r.Intn(4)], kind, 0.02+0.06*r.Float64())
	dir := filepath.Join(t.Dir, "sheets")
	writeSheets(dir, s.segments(4), scramble(r))
	ip := pick(r, 2, 3, 4, 6, 8)
	nb := 2 + r.Intn(3)
	names := namesFor(r, nb)
	boxes := []BBox{}
	tps := map[string]int{}
	regs := map[string]region{}
	for k := 0; k < nb; k++ {
		tp := ip * (1 + r.Intn(3))
		long := s.L * float64(ip) / float64(tp)
		b := BBox{Name: names[k], Axis: randAxis(r, 0.35)}
		cw := s.L / float64(tp)
		la := r.Intn(3)
		for j := 0; j < 3; j++ {
			b.O[j] = (float64(r.Intn(tp)) + 0.05 + 0.3*r.Float64()) * cw
			b.W[j] = (float64(r.Intn(ip)) + 0.1 + 0.5*r.Float64()) * cw
			if j == la {
				b.W[j] = long
			}
		}
		if r.Intn(4) == 0 {
			// a longest side that gives a fractional number of pixels
			b.W[la] = long * 0.97
			if f := s.L / b.W[la] * float64(ip); math.Abs(f-math.Floor(f)-0.5) > 0.01 {
				tp = int(math.Floor(f + 0.5))
			} else {
				b.W[la] = long
			}
		}
		g, edge := pixels(b.O, b.W, s.L, tp, axisOf(b.Axis))
		if edge {
			k--
			continue
		}
		boxes, tps[b.Name], regs[b.Name] = append(boxes, b), tp, g
	}
	c := RCfg{Quantity: "Density", Input: dir, Threads: maxThreads(t), ImagePixels: ip, Particles: 600, Subsample: 1}
	if r.Intn(2) == 0 {
		c.TotalPixels = 50 // ImagePixels has priority
	}
	gs, ok := t.render("C07", c, splitFiles(r, boxes, 1+r.Intn(3))...)
	if !ok {
		return
	}
	for _, b := range boxes {
		g, tp := gs[b.Name], tps[b.Name]
		t.Eval(1)
		if int(g.Hd.TotalPixels) != tp {
			t.Failf("C07/image", "box %q of widths %v with ImagePixels %d in a simulation of %g has %d pixels per side, want %d", b.Name, b.W, ip, s.L, g.Hd.TotalPixels, tp)
			return
		}
		if !t.checkRegion("C07/image", g, regs[b.Name]) {
			return
		}
		e := expectations(s.tets(1, tp), regs[b.Name], false)
		if !t.checkDensity("C07/image", g.Vals[0], e, math.Pow(float64(tp)/float64(s.N), 3)/6, c.Particles) {
			t.Failf("C07/image", "in box %q %+v of %+v", b.Name, regs[b.Name], regs)
			return
		}
		t.Count("boxes_compared", 1)
	}
	t.Nontrivial("%s %+v %v", kind, c, regs)
	t.Sample("%s: %d boxes with ImagePixels=%d at scales %v", kind, nb, ip, tps)
}

// c07Auto: with AutoParticles or ProjectionDepth boxes get different numbers of samples.
func c07Auto(t *T, i int) {
	r := t.R
	kind := simKinds[r.Intn(len(simKinds))]
	s := newSim(r, 16, boxL(r), kind, 0.02+0.06*r.Float64())
	dir := filepath.Join(t.Dir, "sheets")
	writeSheets(dir, s.segments(4), scramble(r))
	const coarse = 8
	fine := pick(r, 8, 16)
	tp := coarse * fine // 64 or 128
	skip := pick(r, 2, 4)
	quantity := "Density"
	if i%4 == 3 {
		quantity = "Velocity"
		for k := range s.Vs {
			s.Vs[k] = V3{3, -4.5, 1000}
		}
		writeSheets(dir, s.segments(4), scramble(rand.New(rand.NewSource(int64(i)))))
		dir2 := filepath.Join(t.Dir, "sheets2")
		writeSheets(dir2, s.segments(4), scramble(r))
		dir = dir2
	}
	nb := 2 + r.Intn(3)
	names := namesFor(r, nb)
	boxes := []BBox{}
	regs := map[string]region{} // in coarse cells
	for k := 0; k < nb; k++ {
		o, w := randRegion(t, coarse)
		b := BBox{Name: names[k], Axis: randAxis(r, 0.7)}
		cw := s.L / float64(tp)
		if b.Axis == "" {
			for j := range w {
				if w[j] > 3 {
					w[j] = 3
				}
			}
		}
		for j := range o {
			b.O[j] = (float64(o[j]*fine) + 0.3) * cw
			b.W[j] = (float64(w[j]*fine) - 0.6) * cw
		}
		g := region{o: o, w: w, cells: coarse, proj: axisOf(b.Axis)}
		boxes, regs[b.Name] = append(boxes, b), g
	}
	c := RCfg{Quantity: quantity, Input: dir, Threads: maxThreads(t), TotalPixels: tp, Auto: true, Subsample: skip}
	if i%3 == 1 {
		c.Auto, c.Depth = false, pick(r, 1, 2, 8)
	}
	gs, ok := t.render("C07/auto", c, splitFiles(r, boxes, 1+r.Intn(3))...)
	if !ok {
		return
	}
	tets := s.tets(skip, coarse)
	w := math.Pow(float64(coarse*skip)/float64(s.N), 3) / 6
	pts := map[string]int64{}
	for _, b := range boxes {
		g, rg := gs[b.Name], regs[b.Name]
		P := int(g.Hd.Particles)
		pts[b.Name] = g.Hd.Particles
		// The samples an image needs are set by its own pixel scale and depth alone.
		depth := 1.0
		if c.Depth > 0 {
			depth = float64(c.Depth)
		} else if b.Axis != "" {
			depth = math.Ceil(b.W[axisOf(b.Axis)] / (s.L / float64(tp)))
		}
		want := int(math.Ceil(5 * math.Pow(float64(tp)/500, 3) * math.Pow(float64(skip), 3) / depth))
		t.Eval(1)
		if P != want {
			t.Failf("C07/auto/particles", "box %q of depth %g uses %d samples per tetrahedron, alone it uses %d (boxes %+v)", b.Name, depth, P, want, regs)
			return
		}
		if quantity == "Velocity" {
			for k := range g.Vals[0] {
				v := [3]float32{g.Vals[0][k], g.Vals[1][k], g.Vals[2][k]}
				if v == [3]float32{} {
					continue
				}
				t.Eval(1)
				for j, u := range []float32{3, -4.5, 1000} {
					if math.Abs(float64(v[j]-u)) > 1e-4*math.Abs(float64(u)) {
						t.Failf("C07/auto/velocity", "pixel %d of box %q has velocity %v, the sheet moves with (3 -4.5 1000)", k, b.Name, v)
						return
					}
				}
			}
			continue
		}
		e := expectations(tets, rg, false)
		// add up the fine pixels of each coarse cell
		sp, csp := g.Span, rg.span()
		cvals := make([]float32, rg.size())
		sums := make([]float64, rg.size())
		d := 1.0
		if rg.proj >= 0 {
			d = float64(rg.w[rg.proj] * fine)
		}
		for k, v := range g.Vals[0] {
			x := [3]int{k % sp[0], k / sp[0] % sp[1], k / (sp[0] * sp[1])}
			for j := range x {
				if j != rg.proj {
					x[j] /= fine
				}
			}
			sums[x[0]+csp[0]*(x[1]+csp[1]*x[2])] += float64(v) * d
		}
		dd := 1.0
		if rg.proj >= 0 {
			dd = float64(rg.w[rg.proj])
		}
		for k := range sums {
			cvals[k] = float32(sums[k] / float64(fine*fine*fine) / dd)
		}
		if !t.checkDensity("C07/auto", cvals, e, w, P) {
			t.Failf("C07/auto", "in box %q %+v of %+v (coarse cells), P=%v", b.Name, rg, regs, pts)
			return
		}
		t.Count("boxes_compared", 1)
	}
	distinct := map[int64]bool{}
	for _, p := range pts {
		distinct[p] = true
	}
	t.Count("distinct_sample_counts", len(distinct))
	t.Nontrivial("%s %+v %v", kind, c, regs)
	t.Sample("%s %s: %d boxes at %d pixels with samples per tetrahedron %v", quantity, kind, nb, tp, pts)
}

// c07Velocity: several boxes of a vector quantity.
func c07Velocity(t *T, i int) {
	r := t.R
	kind := simKinds[r.Intn(len(simKinds))]
	s := newSim(r, 8, 50, kind, 0.02+0.06*r.Float64())
	u := V3{float32(100 * r.NormFloat64()), float32(r.NormFloat64()), -float32(500 * r.Float64())}
	for k := range s.Vs {
		s.Vs[k] = u
	}
	dir := filepath.Join(t.Dir, "sheets")
	writeSheets(dir, s.segments(4), scramble(r))
	q := []string{"Velocity", "VelocityDivergence", "VelocityCurl"}[i%3]
	tp := pick(r, 10, 12)
	nb := 2 + r.Intn(3)
	names := namesFor(r, nb)
	boxes, regs := []BBox{}, map[string]region{}
	for k := 0; k < nb; k++ {
		o, w := randRegion(t, tp)
		for j := range w {
			if q != "Velocity" && w[j] < 5 {
				w[j] = 5 + r.Intn(tp-4)
			}
		}
		axis := ""
		if q == "Velocity" {
			axis = randAxis(r, 0.4)
		}
		b := pixBox(r, names[k], o, w, s.L, tp, axis)
		boxes = append(boxes, b)
		regs[b.Name], _ = pixels(b.O, b.W, s.L, tp, axisOf(axis))
	}
	c := RCfg{Quantity: q, Input: dir, Threads: maxThreads(t), TotalPixels: tp, Particles: 400, Subsample: 1}
	gs, ok := t.render("C07", c, splitFiles(r, boxes, 1+r.Intn(3))...)
	if !ok {
		return
	}
	tets := s.tets(1, tp)
	for _, b := range boxes {
		g, rg := gs[b.Name], regs[b.Name]
		if !t.checkRegion("C07/velocity", g, rg) {
			return
		}
		e := expectations(tets, rg, false)
		for k := range g.Vals[0] {
			t.Eval(1)
			full := e.st[k].p*float64(c.Particles) > 60
			for j := 0; j < g.N; j++ {
				v, want := float64(g.Vals[j][k]), float64(u[j])
				tol := 1e-4 * math.Abs(want)
				if q != "Velocity" {
					continue
				}
				if v == 0 && !full {
					continue
				}
				if !e.touch[k] || math.Abs(v-want) > tol {
					t.Failf("C07/velocity", "pixel %s of box %q (of %v) has velocity component %d = %g, the sheet moves with %g; touched %v", rg.name(k), b.Name, regs, j, v, want, e.touch[k])
					return
				}
			}
		}
		if q != "Velocity" {
			// all pixels within reach of the stencil sampled: derivatives vanish
			if !t.zeroDerivs("C07/velocity", g, rg, e, c.Particles, u, s.L/float64(tp)) {
				return
			}
		}
		t.Count("boxes_compared", 1)
	}
	t.Nontrivial("%s %+v %v", kind, c, regs)
	t.Sample("%s of uniformly moving %s: %d boxes", q, kind, nb)
}

// zeroDerivs checks that derivatives of a constant velocity vanish wherever the whole stencil holds
// samples for certain.
func (t *T) zeroDerivs(site string, g *Gtet, rg region, e *expect, P int, u V3, cw float64) bool {
	sp := rg.span()
	scale := 1e-4 * (math.Abs(float64(u[0])) + math.Abs(float64(u[1])) + math.Abs(float64(u[2]))) / cw
	n := 0
	for k := range g.Vals[0] {
		x := [3]int{k % sp[0], k / sp[0] % sp[1], k / (sp[0] * sp[1])}
		ok := true
		for j := 0; j < 3 && ok; j++ {
			for d := -4; d <= 4 && ok; d++ {
				y := x
				y[j] += d
				if rg.w[j] == rg.cells {
					y[j] = pmod(y[j], sp[j])
				}
				if y[j] < 0 || y[j] >= sp[j] {
					continue
				}
				ok = e.st[y[0]+sp[0]*(y[1]+sp[1]*y[2])].p*float64(P) > 60
			}
		}
		if !ok {
			continue
		}
		n++
		for c := 0; c < g.N; c++ {
			t.Eval(1)
			if v := float64(g.Vals[c][k]); !(math.Abs(v) <= scale) {
				t.Failf(site+"/derivative", "derivative component %d of a uniform velocity is %g at %v of %+v", c, v, x, rg)
				return false
			}
		}
	}
	t.Count("derivative_pixels", n)
	return true
}

// c07Many: many boxes in many files; each box exactly one file.
func c07Many(t *T, i int) {
	r := t.R
	s, dir := t.renderSim(8, 4, "waves")
	tp := 16
	files := [][]BBox{}
	regs := map[string]region{}
	k := 0
	for f := 0; f < 6; f++ {
		bs := []BBox{}
		for j := 0; j < 1+r.Intn(8); j++ {
			o, w := randRegion(t, tp)
			b := pixBox(r, fmt.Sprintf("b%d", k), o, w, s.L, tp, randAxis(r, 0.5))
			if r.Intn(3) == 0 {
				b.Radius, b.Mult = s.L*(0.02+0.2*r.Float64()), pick01(r)
				b.Axis = ""
			}
			k++
			bs = append(bs, b)
			if b.Radius == 0 {
				regs[b.Name], _ = pixels(b.O, b.W, s.L, tp, axisOf(b.Axis))
			}
		}
		files = append(files, bs)
	}
	pre, app := []string{"", "pre_"}[r.Intn(2)], []string{"", "_x"}[r.Intn(2)]
	c := RCfg{Quantity: "Density", Input: dir, Threads: maxThreads(t), TotalPixels: tp, Particles: 60, Subsample: 1, Prepend: pre, Append: app}
	gs, ok := t.render("C07/many", c, files...)
	if !ok {
		return
	}
	tets := s.tets(1, tp)
	w := math.Pow(float64(tp)/float64(s.N), 3) / 6
	for name, rg := range regs {
		if !t.checkRegion("C07/many", gs[name], rg) {
			return
		}
		if !t.checkDensity("C07/many", gs[name].Vals[0], expectations(tets, rg, false), w, c.Particles) {
			return
		}
	}
	t.Nontrivial("%v", files)
	t.Sample("%d boxes in %d files", k, len(files))
}

func pick01(r *rand.Rand) float64 { return []float64{0, 0.5, 1, 1.5}[r.Intn(4)] }

// C08

func (t *T) threadsFor() int {
	return pick(t.R, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 31, 64, 100)
}

var quantities = []string{"Density", "DensityGradient", "Velocity", "VelocityDivergence", "VelocityCurl"}

func c08Render(t *T, i int) {
	r := t.R
	kind := simKinds[r.Intn(len(simKinds))]
	n, cells := 8, pick(r, 1, 2, 4)
	switch i % 5 {
	case 3:
		n, cells = 4, 4 // one cube per segment, fewer than threads
	case 4:
		n, cells = 12, 4
	}
	s := newSim(r, n, boxL(r), kind, 0.02+0.07*r.Float64())
	dir := filepath.Join(t.Dir, "sheets")
	writeSheets(dir, s.segments(cells), scramble(r))
	q := quantities[i%len(quantities)]
	tp := pick(r, 6, 9, 12)
	c := RCfg{Quantity: q, Input: dir, Threads: t.threadsFor(), TotalPixels: tp, Particles: pick(r, 1, 3, 10), Subsample: 1, Race: true}
	nb := 1 + r.Intn(3)
	boxes := []BBox{}
	regs := map[string]region{}
	for k := 0; k < nb; k++ {
		o, w := randRegion(t, tp)
		for j := range w {
			if w[j] < 5 {
				w[j] = 5 + r.Intn(tp-4)
			}
		}
		b := pixBox(r, fmt.Sprintf("b%d", k), o, w, s.L, tp, randAxis(r, 0.4))
		boxes = append(boxes, b)
		ax := axisOf(b.Axis)
		if q != "Density" && q != "Velocity" {
			ax = -1
		}
		regs[b.Name], _ = pixels(b.O, b.W, s.L, tp, ax)
	}
	gs, ok := t.render("C08/race", c, boxes)
	if !ok {
		return
	}
	for name, rg := range regs {
		if !t.checkRegion("C08/race", gs[name], rg) {
			return
		}
		for cc := 0; cc < gs[name].N; cc++ {
			for _, v := range gs[name].Vals[cc] {
				t.Eval(1)
				if math.IsNaN(float64(v)) || math.IsInf(float64(v), 0) {
					t.Failf("C08/race/value", "%s grid holds %g", q, v)
					return
				}
			}
		}
	}
	t.Nontrivial("%s %s %d %d %v", q, kind, n, c.Threads, regs)
	t.Sample("%s with %d threads, %d^3 particles, %d boxes: no race reported", q, c.Threads, n, nb)
}

func c08Hist(t *T, i int) {
	r := t.R
	n, cells := 8, pick(r, 1, 2, 4)
	if i%3 == 2 {
		n, cells = 4, 4
	}
	s := newSim(r, n, 40, simKinds[r.Intn(len(simKinds))], 0.02+0.07*r.Float64())
	dir := filepath.Join(t.Dir, "sheets")
	writeSheets(dir, s.segments(cells), scramble(r))
	g := randGrid(r, s.L, 4+r.Intn(6))
	gf := filepath.Join(t.Dir, "grid.gtet")
	g.write(gf)
	P := pick(r, 1, 4, 9)
	h := HCfg{Input: dir, GridFile: gf, Particles: P, Bins: 1 + r.Intn(20), Min: 0.01, Max: 100, Scale: []string{"Linear", "Log"}[i%2],
		Threads: t.threadsFor(), Subsample: strideFor(t, s, cells), Race: true}
	boxes := []BBox{{Name: "all", O: [3]float64{r.Float64() * 40, 0, r.Float64() * 40}, W: [3]float64{40, 40, 40}}}
	b := pixBox(r, "part", [3]int{r.Intn(8), r.Intn(8), r.Intn(8)}, [3]int{1 + r.Intn(8), 1 + r.Intn(8), 1 + r.Intn(8)}, s.L, 8, "")
	boxes = append(boxes, b)
	out, ok := t.hist("C08/hist", h, boxes)
	if !ok {
		return
	}
	tot := 0
	for _, c := range out["all"].Counts {
		tot += c
	}
	sub := n / h.Subsample
	want := 6 * P * sub * sub * sub
	t.Eval(1)
	if tot != want {
		t.Failf("C08/hist/total", "histogram of the whole simulation counts %d samples with %d threads, want %d", tot, h.Threads, want)
	}
	t.Nontrivial("hist %d %+v", n, h)
	t.Sample("TetraHist with %d threads: total %d", h.Threads, tot)
}

// c08Threads: grids that do not depend on the random points are the same for every thread count.
func c08Threads(t *T, i int) {
	r := t.R
	kind := simKinds[r.Intn(len(simKinds))]
	n, cells := 8, pick(r, 4, 8)
	if i%5 == 4 {
		n, cells = 4, 4
	}
	s := newSim(r, n, 64, kind, 0.02+0.07*r.Float64())
	u := V3{120, -7.25, 0.5}
	for k := range s.Vs {
		s.Vs[k] = u
	}
	dir := filepath.Join(t.Dir, "sheets")
	writeSheets(dir, s.segments(cells), scramble(r))
	tp := pick(r, 4, 6, 10)
	ths := []int{1, 2, 3, 8, 25, 70, 200}
	r.Shuffle(len(ths), func(a, b int) { ths[a], ths[b] = ths[b], ths[a] })
	ths = ths[:4]
	axis := randAxis(r, 0.4)
	b := BBox{Name: "all", Axis: axis, W: [3]float64{s.L, s.L, s.L}}
	g, _ := pixels(b.O, b.W, s.L, tp, axisOf(axis))
	P := 100
	e := expectations(s.tets(1, tp), g, false)
	for _, th := range ths {
		for _, q := range []string{"Density", "Velocity"} {
			c := RCfg{Quantity: q, Input: dir, Threads: th, TotalPixels: tp, Particles: P}
			gs, ok := t.render("C08/threads", c, []BBox{b})
			if !ok {
				return
			}
			a := gs["all"]
			if !t.checkRegion("C08/threads", a, g) {
				return
			}
			sum := 0.0
			for k := range a.Vals[0] {
				t.Eval(1)
				set := a.Vals[0][k] != 0
				if set && !e.touch[k] || !set && e.st[k].p*float64(P) > 60 {
					t.Failf("C08/threads/support", "%s pixel %s is %g with %d threads; tetrahedra put %g samples there", q, g.name(k), a.Vals[0][k], th, e.st[k].p*float64(P))
					return
				}
				sum += float64(a.Vals[0][k])
				if q == "Velocity" && set {
					for j := range u {
						if math.Abs(float64(a.Vals[j][k]-u[j])) > 1e-4*math.Abs(float64(u[j])) {
							t.Failf("C08/threads/velocity", "velocity %g of pixel %s with %d threads, the sheet moves with %v", a.Vals[j][k], g.name(k), th, u)
							return
						}
					}
				}
			}
			if mean := sum / float64(len(a.Vals[0])); q == "Density" && math.Abs(mean-1) > 5e-6 {
				t.Failf("C08/threads/mean", "mean density %.8g with %d threads", mean, th)
				return
			}
		}
	}
	t.Nontrivial("%s %d %d %v %q", kind, n, tp, ths, axis)
	t.Sample("%s N=%d: threads %v agree on totals, support and uniform velocity", kind, n, ths)
}

// c08Repeat: many short parallel runs, looking for hangs and crashes.
func c08Repeat(t *T, i int) {
	r := t.R
	s, dir := t.renderSim(8, 4, "collapse")
	b := BBox{Name: "all", W: [3]float64{s.L, s.L, s.L}}
	for k := 0; k < 15; k++ {
		c := RCfg{Quantity: "Density", Input: dir, Threads: 1 + r.Intn(130), TotalPixels: 4, Particles: 1}
		gs, ok := t.render("C08/repeat", c, []BBox{b})
		if !ok {
			return
		}
		sum := 0.0
		for _, v := range gs["all"].Vals[0] {
			sum += float64(v) / 64
		}
		t.Eval(1)
		if math.Abs(sum-1) > 5e-6 {
			t.Failf("C08/repeat/mean", "mean density %.8g with %d threads", sum, c.Threads)
			return
		}
		t.Nontrivial("%d %d", i, c.Threads)
	}
	t.Sample("15 runs with random thread counts up to 130")
}
