package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"
	"time"
)

// convCase is a snapshot with the sheets the converter must make of it.
type convCase struct {
	s            *Sim
	xs, vs       [][3]float64 // values stored in the Gadget files
	L, mass      float64      // as stored
	xu, vu, mu   float64
	cells        int
	wantX, wantV [][3]float64 // expected output values
	outL         float64
}

func newConv(t *T, n, cells int, kind string, amp float64, units bool) *convCase {
	c := &convCase{cells: cells, xu: 1, vu: 1, mu: 1}
	r := t.R
	if units {
		c.xu = []float64{1e-3, 0.5, 10, 0.7, 1e3, 1}[r.Intn(6)]
		c.vu = []float64{1, 0.25, 3, 1e-2}[r.Intn(4)]
		c.mu = []float64{1e10, 1, 2.5}[r.Intn(3)]
	}
	L := boxL(r)
	c.s = newSim(r, n, L, kind, amp)
	if r.Intn(5) == 0 {
		c.s.A *= 0.5 + r.Float64() // a time of its own
	}
	if vs := []float64{1, 1, 1, 1e-3, 1e3, 0}[r.Intn(6)]; vs != 1 {
		for i := range c.s.Vs {
			for k := range c.s.Vs[i] {
				c.s.Vs[i][k] *= float32(vs)
			}
		}
	}
	c.L, c.mass = L, c.s.Mass
	c.outL = L * c.xu
	ra := math.Sqrt(c.s.A)
	for i := range c.s.Xs {
		var x, v, wx, wv [3]float64
		for k := 0; k < 3; k++ {
			x[k] = float64(c.s.Xs[i][k])
			wx[k] = x[k] * c.xu
			// stored one period away: the reader must wrap it
			switch r.Intn(12) {
			case 0:
				if y := float64(float32(x[k] - L)); y < 0 && y >= -L {
					x[k] = y
					wx[k] = (y + L) * c.xu
				}
			case 1:
				if y := float64(float32(x[k] + L)); y >= L && y < 2*L {
					x[k] = y
					wx[k] = (y - L) * c.xu
				}
			}
			v[k] = float64(c.s.Vs[i][k])
			wv[k] = v[k] * ra * c.vu
		}
		c.xs, c.vs = append(c.xs, x), append(c.vs, v)
		c.wantX, c.wantV = append(c.wantX, wx), append(c.wantV, wv)
	}
	return c
}

func (c *convCase) config(input, output string, idSize int, extra string) string {
	return fmt.Sprintf("[ConvertSnapshot]\nInput = %s\nOutput = %s\nInputFormat = %s\nCells = %d\nGadget2IDSize = %d\nXUnits = %g\nVUnits = %g\nMUnits = %g\n%s\n",
		input, output, "LGadget-2", c.cells, idSize, c.xu, c.vu, c.mu, extra)
}

// readSheetDir reads every file of a directory and indexes the sheets by Idx.
func readSheetDir(t *T, site, dir string, cells int) map[int]*Sheet {
	ents, err := os.ReadDir(dir)
	if err != nil {
		t.Failf(site+"/no-output", "%v", err)
		return nil
	}
	if len(ents) != cells*cells*cells {
		t.Failf(site+"/file-count", "%d files written, want %d", len(ents), cells*cells*cells)
		return nil
	}
	out := map[int]*Sheet{}
	for _, e := range ents {
		s, err := readSheetFile(filepath.Join(dir, e.Name()))
		if err != nil {
			t.Failf(site+"/malformed", "%s: %v", e.Name(), err)
			return nil
		}
		if _, dup := out[int(s.Hd.Idx)]; dup || s.Hd.Idx < 0 || int(s.Hd.Idx) >= len(ents) {
			t.Failf(site+"/index", "%s: index %d repeated or out of range", e.Name(), s.Hd.Idx)
			return nil
		}
		out[int(s.Hd.Idx)] = s
	}
	return out
}

func closeMod(a, b, tol, L float64) bool {
	d := math.Abs(a - b)
	if d > L/2 {
		d = math.Abs(d - L)
	}
	return d <= tol
}

// checkPayload checks C01: every particle at its site, neighbour layers, values.
func checkPayload(t *T, site string, c *convCase, sheets map[int]*Sheet) bool {
	n, cells := c.s.N, c.cells
	sw := n / cells
	gw := sw + 1
	first := make([]V3, n*n*n)
	firstV := make([]V3, n*n*n)
	seen := make([]bool, n*n*n)
	owned := make([]int, n*n*n)
	for idx := 0; idx < cells*cells*cells; idx++ {
		sh := sheets[idx]
		if len(sh.Xs) != gw*gw*gw {
			t.Failf(site+"/payload-size", "segment %d holds %d particles, want %d^3", idx, len(sh.Xs), gw)
			return false
		}
		cx, cy, cz := idx%cells, idx/cells%cells, idx/(cells*cells)
		for k := range sh.Xs {
			x, y, z := k%gw, k/gw%gw, k/(gw*gw)
			p := c.s.site(cx*sw+x, cy*sw+y, cz*sw+z)
			if x < sw && y < sw && z < sw {
				owned[p]++
			}
			for j := 0; j < 3; j++ {
				got := float64(sh.Xs[k][j])
				if !closeMod(got, c.wantX[p][j], 4e-7*c.outL, c.outL) {
					t.Failf(site+"/position", "segment %d site (%d,%d,%d) must hold particle ID %d at %v; holds %v", idx, x, y, z, p+1, c.wantX[p], sh.Xs[k])
					return false
				}
				// multiplying by the units may round up to the face itself
				if got < 0 || got > c.outL*(1+1e-7) {
					t.Failf(site+"/position-range", "segment %d particle %d at %v outside [0, %g)", idx, p+1, sh.Xs[k], c.outL)
					return false
				}
				if v := float64(sh.Vs[k][j]); math.Abs(v-c.wantV[p][j]) > 1e-6*math.Abs(c.wantV[p][j]) {
					t.Failf(site+"/velocity", "segment %d site (%d,%d,%d) particle ID %d must have velocity %v; has %v", idx, x, y, z, p+1, c.wantV[p], sh.Vs[k])
					return false
				}
			}
			if seen[p] {
				if !bytes.Equal(encodeV3(sh.Xs[k:k+1], binary.LittleEndian), encodeV3(first[p:p+1], binary.LittleEndian)) ||
					!bytes.Equal(encodeV3(sh.Vs[k:k+1], binary.LittleEndian), encodeV3(firstV[p:p+1], binary.LittleEndian)) {
					t.Failf(site+"/shared", "particle %d differs between segments", p+1)
					return false
				}
				t.Count("shared_sites", 1)
			}
			seen[p], first[p], firstV[p] = true, sh.Xs[k], sh.Vs[k]
		}
		t.Count("sites", len(sh.Xs))
	}
	for p := range owned {
		if owned[p] != 1 {
			t.Failf(site+"/exactly-once", "particle %d is in the own block of %d segments", p+1, owned[p])
			return false
		}
	}
	t.Eval(cells * cells * cells)
	return true
}

type nc struct{ n, c int }

var convShapes = []nc{{4, 2}, {8, 4}, {6, 3}, {4, 4}, {5, 5}, {12, 4}, {3, 1}, {8, 2}, {7, 7}, {10, 5}, {8, 8}, {6, 2}, {12, 6}, {9, 3}}

func randGadgetOpts(t *T) gadgetOpts {
	r := t.R
	return gadgetOpts{Files: []int{1, 2, 3, 7, 27}[r.Intn(5)], X64: r.Intn(2) == 0, V64: r.Intn(2) == 0, IDSize: 32 + 32*r.Intn(2),
		Sorted: r.Intn(4) == 0, Empty: r.Intn(3) == 0}
}

func runConv(t *T, site string, c *convCase, o gadgetOpts, tag string) (string, bool) {
	in, out := filepath.Join(t.Dir, "in"+tag), filepath.Join(t.Dir, "out"+tag)
	c.s.writeGadget(t.R, in, o, c.xs, c.vs, c.L, c.mass)
	cfg := t.write("conv"+tag+".cfg", c.config(in, out, o.IDSize, ""))
	r := t.cli("-ConvertSnapshot", cfg)
	if r.Code != 0 {
		t.Failf(site+"/run", "converter failed: %s", r.Tail())
		return out, false
	}
	return out, true
}

func c01Convert(t *T, i int) {
	sh := convShapes[i%len(convShapes)]
	if t.Thorough && i%20 == 7 {
		sh = nc{24, 4}
	}
	kind := simKinds[t.R.Intn(len(simKinds))]
	c := newConv(t, sh.n, sh.c, kind, 0.1*t.R.Float64(), i%3 != 0)
	var firstOut map[string][]byte
	variants := 3
	for v := 0; v < variants; v++ {
		o := randGadgetOpts(t)
		if v == 0 {
			o.X64, o.V64, o.IDSize = false, false, 64
		}
		out, ok := runConv(t, "convert", c, o, fmt.Sprint(v))
		if !ok {
			return
		}
		sheets := readSheetDir(t, "convert", out, sh.c)
		if sheets == nil || !checkPayload(t, "convert", c, sheets) {
			return
		}
		files := map[string][]byte{}
		ents, _ := os.ReadDir(out)
		for _, e := range ents {
			files[e.Name()], _ = os.ReadFile(filepath.Join(out, e.Name()))
		}
		if firstOut == nil {
			firstOut = files
		} else {
			for name, b := range files {
				if !bytes.Equal(b, firstOut[name]) {
					t.Failf("convert/split-dependent", "%s differs between two ways (%+v) of storing the same snapshot", name, o)
					return
				}
			}
			t.Count("files_compared_across_splits", len(files))
		}
		t.Nontrivial("%v %s %+v %g %g", sh, kind, o, c.xu, c.vu)
		t.Sample("N=%d cells=%d %s xunits=%g vunits=%g L=%g z=%g stored as %+v", sh.n, sh.c, kind, c.xu, c.vu, c.L, c.s.Z, o)
	}
}

func c01Many(t *T, i int) {
	n := []int{11, 12, 13}[i%3]
	c := newConv(t, n, n, "waves", 0.05, i%2 == 0)
	o := randGadgetOpts(t)
	out, ok := runConv(t, "many", c, o, "")
	if !ok {
		return
	}
	if sheets := readSheetDir(t, "many", out, n); sheets != nil {
		checkPayload(t, "many", c, sheets)
	}
	t.Nontrivial("many %d", n)
	t.Sample("N=cells=%d", n)
}

// c01Large converts snapshots whose files hold more particles than the converter's buffers.
func c01Large(t *T, i int) {
	sh := []nc{{24, 4}, {16, 4}, {32, 2}, {20, 1}, {40, 4}}[i%5]
	c := newConv(t, sh.n, sh.c, "waves", 0.05, i%2 == 0)
	o := randGadgetOpts(t)
	o.Files = []int{1, 2, 5}[(i/5+i)%3]
	out, ok := runConv(t, "large", c, o, "")
	if !ok {
		return
	}
	if sheets := readSheetDir(t, "large", out, sh.c); sheets != nil {
		checkPayload(t, "large", c, sheets)
	}
	t.Nontrivial("large %v %d", sh, o.Files)
	t.Sample("N=%d cells=%d stored as %+v", sh.n, sh.c, o)
}

// c01Iter converts a range of snapshots.
func c01Iter(t *T, i int) {
	start := []int{0, 1, 3, 0, 9, 2, 98, 0, 998}[i%9]
	num := 1 + t.R.Intn(4)
	cells := 2
	cs := []*convCase{}
	idSize := pick(t.R, 32, 64)
	xu := 0.5
	for k := 0; k < num; k++ {
		c := newConv(t, 4, cells, simKinds[t.R.Intn(len(simKinds))], 0.05, false)
		c.xu = xu
		c.outL = c.L * xu
		for p := range c.wantX {
			for j := 0; j < 3; j++ {
				c.wantX[p][j] *= xu
			}
		}
		o := randGadgetOpts(t)
		o.IDSize = idSize
		c.s.writeGadget(t.R, filepath.Join(t.Dir, fmt.Sprintf("snapdir_%03d", start+k)), o, c.xs, c.vs, c.L, c.mass)
		cs = append(cs, c)
	}
	open := t.R.Intn(3) == 0 // IterationEnd not set: until an invalid folder is found
	last := start + num - 1
	extra := fmt.Sprintf("IteratedInput = %s/snapdir_%%03d\nIteratedOutput = %s/out_%%03d\nIterationStart = %d\n", t.Dir, t.Dir, start)
	if start == 0 && t.R.Intn(2) == 0 {
		extra = fmt.Sprintf("IteratedInput = %s/snapdir_%%03d\nIteratedOutput = %s/out_%%03d\n", t.Dir, t.Dir)
	}
	if !open {
		extra += fmt.Sprintf("IterationEnd = %d\n", last)
	}
	// the documentation has the user make the output directories; others rely on them being made
	if i%4 == 0 {
		for k := 0; k < num; k++ {
			t.mkdir(fmt.Sprintf("out_%03d", start+k))
		}
	}
	cfg := t.write("conv.cfg", fmt.Sprintf("[ConvertSnapshot]\nInputFormat = LGadget-2\nCells = %d\nGadget2IDSize = %d\nXUnits = %g\n%s", cells, idSize, xu, extra))
	if i%5 == 4 { // Input and Output given too
		cfg = t.write("conv.cfg", cs[0].config(filepath.Join(t.Dir, fmt.Sprintf("snapdir_%03d", start)), t.Dir+"/out", idSize, extra))
	}
	r := t.cli("-ConvertSnapshot", cfg)
	site := "iterate"
	if open {
		site = "iterate-open"
	}
	if r.Code != 0 {
		t.Failf(site+"/run", "converter failed: %s", r.Tail())
		return
	}
	for k, c := range cs {
		out := filepath.Join(t.Dir, fmt.Sprintf("out_%03d", start+k))
		sheets := readSheetDir(t, site, out, cells)
		if sheets == nil || !checkPayload(t, site, c, sheets) {
			return
		}
		t.Count("snapshots_iterated", 1)
	}
	if ents, _ := filepath.Glob(filepath.Join(t.Dir, "out_*")); len(ents) != num {
		t.Failf(site+"/extra", "outputs %v for %d snapshots", ents, num)
	}
	if !open && num > 1 { // a requested snapshot that is not there
		gone := start + t.R.Intn(num)
		os.RemoveAll(filepath.Join(t.Dir, fmt.Sprintf("snapdir_%03d", gone)))
		outs, _ := filepath.Glob(filepath.Join(t.Dir, "out_*"))
		for _, o := range outs {
			os.RemoveAll(o)
		}
		if r := t.cli("-ConvertSnapshot", cfg); r.Code == 0 {
			t.Failf("iterate/missing", "snapshot %d of %d to %d is missing, but the conversion exits 0: %s", gone, start, last, r.Tail())
			return
		}
		t.Count("missing_snapshots_refused", 1)
	}
	t.Nontrivial("iter %d %d %v", start, num, open)
	t.Sample("snapshots %d..%d, IterationEnd set: %v", start, last, !open)
}

////////////////////////////////////////////////////////////////////////////////

func checkHeaders(t *T, site string, c *convCase, sheets map[int]*Sheet, boxes bool) {
	n, cells := c.s.N, c.cells
	sw := n / cells
	W := c.outL
	for idx := 0; idx < cells*cells*cells; idx++ {
		sh := sheets[idx]
		h := &sh.Hd
		t.Eval(1)
		bad := func(what string, got, want interface{}) {
			t.Failf(site+"/"+what, "segment %d of %d^3 (N=%d): header says %s = %v, want %v", idx, cells, n, what, got, want)
		}
		if h.Z != c.s.Z {
			bad("redshift", h.Z, c.s.Z)
		}
		if h.OmegaM != c.s.Om {
			bad("OmegaM", h.OmegaM, c.s.Om)
		}
		if h.OmegaL != c.s.Ol {
			bad("OmegaL", h.OmegaL, c.s.Ol)
		}
		if h.H100 != c.s.H100 {
			bad("h", h.H100, c.s.H100)
		}
		if !relClose(h.Mass, c.mass*c.mu, 1e-12) {
			bad("mass", h.Mass, c.mass*c.mu)
		}
		if !relClose(h.TotalWidth, W, 1e-7) {
			bad("width", h.TotalWidth, W)
		}
		if h.CountWidth != int64(n) {
			bad("CountWidth", h.CountWidth, n)
		}
		if h.Cells != int64(cells) {
			bad("Cells", h.Cells, cells)
		}
		if h.SegmentWidth != int64(sw) || h.GridWidth != int64(sw+1) || h.GridCount != int64((sw+1)*(sw+1)*(sw+1)) {
			bad("widths", []int64{h.SegmentWidth, h.GridWidth, h.GridCount}, sw)
		}
		if t.Failed() {
			return
		}
		// the velocity box
		for j := 0; j < 3; j++ {
			lo, hi := sh.Vs[0][j], sh.Vs[0][j]
			for _, v := range sh.Vs {
				if v[j] < lo {
					lo = v[j]
				}
				if v[j] > hi {
					hi = v[j]
				}
			}
			tol := 2.5e-7 * (math.Abs(float64(lo)) + math.Abs(float64(hi)))
			if math.Abs(float64(h.VOrigin[j])-float64(lo)) > tol || math.Abs(float64(h.VOrigin[j])+float64(h.VWidth[j])-float64(hi)) > tol {
				bad("velocity-box", fmt.Sprint(h.VOrigin, h.VWidth), fmt.Sprintf("axis %d from %g to %g", j, lo, hi))
				return
			}
		}
		if !boxes {
			continue
		}
		b := boundsOf(sh.Xs, W)
		straddles := 0
		for j := 0; j < 3; j++ {
			o, w := float64(h.Origin[j]), float64(h.Width[j])
			if !(o >= 0 && o < W*(1+1e-9)) {
				bad("box-origin", h.Origin, fmt.Sprintf("in [0, %g)", W))
				return
			}
			lo := wrap(b.lo[j], W)
			if lo+(b.hi[j]-b.lo[j]) > W {
				straddles++
			}
			d := o - lo
			d -= W * math.Round(d/W)
			e := o + w - (lo + b.hi[j] - b.lo[j])
			e -= W * math.Round(e/W)
			t.Max("box_edge_error_over_width", math.Max(math.Abs(d), math.Abs(e))/W)
			tol := 2e-6 * W
			if math.Abs(d) > tol || math.Abs(e) > tol || w < 0 || w > W {
				bad("position-box", fmt.Sprint(h.Origin, h.Width), fmt.Sprintf("axis %d from %g to %g (mod %g), off by %g, %g", j, lo, lo+b.hi[j]-b.lo[j], W, d, e))
				return
			}
		}
		t.Count(fmt.Sprintf("segments_straddling_%d_faces", straddles), 1)
	}
}

func c02Headers(t *T, i int) {
	shapes := []nc{{8, 4}, {12, 4}, {5, 5}, {4, 4}, {10, 5}, {12, 6}, {16, 4}, {7, 7}, {8, 8}}
	sh := shapes[i%len(shapes)]
	kind := simKinds[i/2%len(simKinds)]
	// a segment spans 1/cells + one lattice... (its grid reaches the next layer) plus twice the displacement
	amp := (0.5 - 1/float64(sh.c)) / 2 * 0.95 * t.R.Float64()
	c := newConv(t, sh.n, sh.c, kind, amp, i%3 != 0)
	switch i % 4 {
	case 1: // velocities whose range excludes the first particle's
		for p := range c.vs {
			for k := 0; k < 3; k++ {
				if p > 0 {
					c.vs[p][k] = float64(float32(1000 + c.vs[p][k]))
				} else {
					c.vs[p][k] = -5000
				}
				c.wantV[p][k] = c.vs[p][k] * math.Sqrt(c.s.A) * c.vu
			}
		}
	case 2: // all velocities equal
		for p := range c.vs {
			c.vs[p] = [3]float64{-30, 0, 77}
			for k := 0; k < 3; k++ {
				c.wantV[p][k] = c.vs[p][k] * math.Sqrt(c.s.A) * c.vu
			}
		}
	}
	out, ok := runConv(t, "headers", c, randGadgetOpts(t), "")
	if !ok {
		return
	}
	sheets := readSheetDir(t, "headers", out, sh.c)
	if sheets == nil || !checkPayload(t, "headers", c, sheets) {
		return
	}
	checkHeaders(t, "headers", c, sheets, true)
	t.Nontrivial("%v %s %g %g %g", sh, kind, c.xu, c.mu, amp)
	t.Sample("N=%d cells=%d %s amp=%.3f xunits=%g munits=%g", sh.n, sh.c, kind, amp, c.xu, c.mu)
	if i%6 == 0 {
		c02Python(t, out, sheets, sh.c)
	}
}

// c02Python reads some files with python/gtet.py.
func c02Python(t *T, dir string, sheets map[int]*Sheet, cells int) {
	ents, _ := os.ReadDir(dir)
	script := `
import sys, json
sys.path.insert(0, sys.argv[1])
sys.dont_write_bytecode = True
import gtet, numpy as np
out = []
for f in sys.argv[2:]:
    g = gtet.File(f)
    out.append(dict(z=g.z, om=g.omega_m, h=g.h100, count=g.count, cw=g.count_width, xw=g.x_width, xnw=g.xn_width,
        idx=g.file_idx, cells=g.file_cells, xo=[float(x) for x in g.x_origin], xs=[float(x) for x in g.x_span],
        vo=[float(x) for x in g.v_origin], vs=[float(x) for x in g.v_span],
        bw=g.box_width, shape=list(g.xn.shape), shape2=list(g.x.shape),
        sx=float(np.sum(g.xn.astype(np.float64))), sv=float(np.sum(g.vn.astype(np.float64)))))
print(json.dumps(out))
`
	sp := t.write("rd.py", script)
	args := []string{sp, filepath.Join(os.Getenv("VH_REPO"), "python")}
	for k := 0; k < 3 && k < len(ents); k++ {
		args = append(args, filepath.Join(dir, ents[t.R.Intn(len(ents))].Name()))
	}
	r := runProc(100*time.Second, t.Dir, []string{"PYTHONDONTWRITEBYTECODE=1"}, "python3-vt", args...)
	if r.Code != 0 {
		t.Failf("python/run", "gtet.py failed: %s", r.Err[max(0, len(r.Err)-600):])
		return
	}
	var got []struct {
		Z, Om, H           float64
		Count, Cw, Xw, Xnw int64
		Idx, Cells         int64
		Xo, Xs, Vo, Vs     [3]float64
		Bw                 float64
		Shape, Shape2      [4]int64
		Sx, Sv             float64
	}
	if err := json.Unmarshal([]byte(strings.TrimSpace(r.Out)), &got); err != nil {
		t.Failf("python/out", "%v: %s", err, r.Out)
		return
	}
	for _, g := range got {
		sh := sheets[int(g.Idx)]
		if sh == nil {
			t.Failf("python/idx", "gtet.py reads index %d", g.Idx)
			return
		}
		h := &sh.Hd
		t.Eval(1)
		if g.Z != h.Z || g.Om != h.OmegaM || g.H != h.H100 {
			t.Failf("python/cosmo", "gtet.py reads z=%g omega_m=%g h100=%g; file has %g %g %g", g.Z, g.Om, g.H, h.Z, h.OmegaM, h.H100)
		}
		if g.Cw != h.CountWidth || g.Count != h.CountWidth*h.CountWidth*h.CountWidth || g.Xw != h.SegmentWidth || g.Xnw != h.GridWidth || g.Cells != h.Cells || g.Bw != h.TotalWidth {
			t.Failf("python/index", "gtet.py reads %+v; file has %+v", g, *h)
		}
		gw := h.GridWidth
		if g.Shape != [4]int64{gw, gw, gw, 3} || g.Shape2 != [4]int64{gw - 1, gw - 1, gw - 1, 3} {
			t.Failf("python/shape", "shapes %v %v", g.Shape, g.Shape2)
		}
		var sx, sv, ax, av float64
		for k := range sh.Xs {
			for j := 0; j < 3; j++ {
				sx += float64(sh.Xs[k][j])
				sv += float64(sh.Vs[k][j])
				ax += math.Abs(float64(sh.Xs[k][j]))
				av += math.Abs(float64(sh.Vs[k][j]))
			}
		}
		if math.Abs(sx-g.Sx) > 1e-9*ax || math.Abs(sv-g.Sv) > 1e-9*av {
			t.Failf("python/data", "gtet.py's arrays sum to %g, %g; file's to %g, %g", g.Sx, g.Sv, sx, sv)
		}
		for j := 0; j < 3; j++ {
			if g.Xo[j] != float64(h.Origin[j]) || g.Xs[j] != float64(h.Width[j]) || g.Vo[j] != float64(h.VOrigin[j]) || g.Vs[j] != float64(h.VWidth[j]) {
				t.Failf("python/boxes", "gtet.py reads boxes %v %v %v %v; file has %v %v %v %v", g.Xo, g.Xs, g.Vo, g.Vs, h.Origin, h.Width, h.VOrigin, h.VWidth)
			}
		}
		t.Count("files_read_by_gtet.py", 1)
	}
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func init() {
	register("C01", "Simulations (displacement fields of six kinds, N 3-24, Cells 1-13 dividing N) are stored as Gadget files by an independent encoder, three ways per case (number of files, particle order, precision, ID size, empty files), converted by the CLI and parsed by an independent reader; every site of every segment is compared with the particle of that ID, and the outputs of the three ways byte for byte. Distinct = shape, kind, storage options and units.",
		Group{"convert", 42, 400, 1, c01Convert}, Group{"many", 3, 6, 5, c01Many}, Group{"large", 4, 45, 5, c01Large}, Group{"iterate", 12, 60, 1, c01Iter})
	register("C02", "As C01 with Cells >= 4 and displacements up to the largest for which a segment spans less than half the box, any units, velocities whose range excludes particle 1's; every header field and both bounding boxes of every segment are compared with values recomputed from the payload and the snapshot. Distinct = shape, kind, units, amplitude.",
		Group{"headers", 54, 500, 1, c02Headers})
}
