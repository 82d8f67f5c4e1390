package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	rio "github.com/phil-mansfield/gotetra/render/io"
)

func init() {
	register("C09", "a case is one rendered file audited field by field and read with the Go and Python readers; distinct by (quantity, render options, box, simulation header)",
		Group{"header", 50, 800, 5, c09Header},
		Group{"truncate", 6, 60, 4, c09Truncate},
		Group{"python", 10, 120, 5, c09Python},
		Group{"full", 5, 20, 3, c09Full},
		Group{"own", 6, 80, 3, c09Own},
	)
}

// own cosmology: critical density in (Msun/h) / (Mpc/h)^3.
func ownRhoCrit(om, ol, z float64) float64 { return 2.7754e11 * (om*math.Pow(1+z, 3) + ol) }

func near(a, b, rel float64) bool { return math.Abs(a-b) <= rel*math.Max(math.Abs(a), math.Abs(b)) }

type c09Case struct {
	s     *Sim
	dir   string
	c     RCfg
	boxes []BBox
	regs  map[string]region
	pts   map[string]int
	q     int
	u     V3
}

// c09Make makes a simulation, a configuration and boxes, with the truth about the output files.
func c09Make(t *T, i int) *c09Case {
	r := t.R
	cs := &c09Case{regs: map[string]region{}, pts: map[string]int{}, q: i % 5}
	s, dir := t.renderSim(8, 4, simKinds[r.Intn(len(simKinds))])
	cs.u = V3{1.5, -300, 7000}
	if r.Intn(2) == 0 {
		s.Ol = 1 - s.Om - 0.1*r.Float64()
	}
	if r.Intn(6) == 0 {
		s.Z = -0.6 * r.Float64() // snapshots of the future
	}
	for k := range s.Vs {
		s.Vs[k] = cs.u
	}
	writeSheets(dir, s.segments(4), stdSheetName)
	cs.s, cs.dir = s, dir
	c := RCfg{Quantity: quantities[cs.q], Input: dir, Threads: pick(r, 0, 1, 4), Particles: pick(r, 1, 6, 30)}
	switch r.Intn(3) {
	case 0:
		c.Subsample = 1
	case 1:
		c.Subsample = 2
	}
	sub := c.Subsample
	if sub == 0 {
		sub = 1
	}
	if r.Intn(2) == 0 {
		c.Prepend = []string{"pre_", "z0.5-"}[r.Intn(2)]
	}
	if r.Intn(2) == 0 {
		c.Append = []string{"_app", ".v2"}[r.Intn(2)]
	}
	tp := pick(r, 6, 9, 12, 16)
	ip := 0
	huge := i%7 == 3 // numbers of pixels and samples beyond 16 bits, a long thin box
	if huge {
		tp = pick(r, 70000, 90001)
		c.TotalPixels, c.Subsample = tp, 2
		c.Particles = pick(r, 1, 3, 66000)
	} else if r.Intn(3) == 0 {
		ip = pick(r, 5, 6, 7)
		c.ImagePixels = ip
	} else {
		c.TotalPixels = tp
	}
	switch r.Intn(5) {
	case 0:
		if !huge {
			c.Auto = true
			if r.Intn(2) == 0 {
				c.Particles = 0
			}
		}
	case 1:
		if !huge {
			c.Depth = 1 + r.Intn(3)
		}
	}
	names := namesFor(r, 3)
	for k := 0; k < 1+r.Intn(3); k++ {
		bt := tp
		if ip != 0 {
			bt = ip * (1 + r.Intn(3))
		}
		cw := s.L / float64(bt)
		b := BBox{Name: names[k], Axis: randAxis(r, 0.5)}
		long := r.Intn(3)
		for j := 0; j < 3; j++ {
			w := 5 + r.Intn(bt-4)
			if huge {
				w = 5 + r.Intn(3)
				if j == long {
					w = 32768 + r.Intn(2000)
				}
			} else if ip != 0 {
				w = 5
				if ip > 5 {
					w += r.Intn(ip - 4)
				}
			}
			b.O[j] = (float64(r.Intn(bt)) + 0.2 + 0.2*r.Float64()) * cw
			b.W[j] = (float64(w-1) + 0.2 + 0.3*r.Float64()) * cw
			if ip != 0 && j == long {
				b.W[j] = math.Min(float64(ip)*cw, s.L)
			}
		}
		ax := axisOf(b.Axis)
		if cs.q != 0 && cs.q != 2 {
			ax = -1
		}
		g, edge := pixels(b.O, b.W, s.L, bt, ax)
		if edge {
			panic("edge")
		}
		cs.regs[b.Name] = g
		P := c.Particles
		depth := float64(c.Depth)
		if c.Auto {
			depth = 1
			if b.Axis != "" {
				depth = math.Ceil(b.W[axisOf(b.Axis)] / cw)
			}
		}
		if depth > 0 {
			P = int(math.Ceil(5 * math.Pow(float64(bt)/500, 3) * math.Pow(float64(sub), 3) / depth))
		}
		cs.pts[b.Name] = P
		cs.boxes = append(cs.boxes, b)
	}
	cs.c = c
	return cs
}

func c09Header(t *T, i int) {
	cs := c09Make(t, i)
	s, c := cs.s, cs.c
	gs, ok := t.render("C09", c, cs.boxes)
	if !ok {
		return
	}
	for _, b := range cs.boxes {
		g, rg := gs[b.Name], cs.regs[b.Name]
		h := &g.Hd
		bad := func(what string, got, want interface{}) {
			t.Failf("C09/header", "%s is %v, want %v (quantity %s, config %+v, box %+v)", what, got, want, c.Quantity, c, b)
		}
		i64 := func(what string, got, want int64) {
			t.Eval(1)
			if got != want {
				bad(what, got, want)
			}
		}
		f64 := func(what string, got, want, rel float64) {
			t.Eval(1)
			if !near(got, want, rel) {
				bad(what, got, want)
			}
		}
		t.Eval(1)
		if h.EndVersion != ^uint64(1|1<<63) {
			bad("byte order and version", fmt.Sprintf("%x", h.EndVersion), fmt.Sprintf("%x", ^uint64(1|1<<63)))
		}
		i64("header size", h.HeaderSize, gtetHdSize)
		i64("grid type", h.GridType, int64(cs.q))
		vec := int64(0)
		if cs.q == 1 || cs.q == 2 || cs.q == 4 {
			vec = 1
		}
		i64("vector flag", h.IsVectorGrid, vec)
		f64("redshift", h.Redshift, s.Z, 1e-12)
		f64("scale factor", h.ScaleFactor, 1/(1+s.Z), 1e-12)
		f64("OmegaM", h.OmegaM, s.Om, 1e-12)
		f64("OmegaL", h.OmegaL, s.Ol, 1e-12)
		f64("H0", h.H0, 100*s.H100, 1e-12)
		f64("mean density", h.RhoMean, ownRhoCrit(s.Om, s.Ol, 0)/(s.Om+s.Ol)*s.Om*math.Pow(1+s.Z, 3)*(s.Om+s.Ol), 1e-3)
		f64("critical density", h.RhoCritical, ownRhoCrit(s.Om, s.Ol, s.Z), 1e-3)
		f64("box width", h.BoxWidth, s.L, 1e-12)
		i64("particles", h.Particles, int64(cs.pts[b.Name]))
		i64("total pixels", h.TotalPixels, int64(rg.cells))
		sub := c.Subsample
		if sub == 0 {
			sub = 1
		}
		i64("subsample length", h.Subsample, int64(sub))
		// suggested layers: 20000 samples per tetrahedron for 5000 pixels
		dep := 20000 / float64(cs.pts[b.Name]) * math.Pow(float64(rg.cells)/5000/float64(sub), 3)
		if math.Abs(dep-math.Round(dep)) > 1e-9*dep {
			i64("minimum projection depth", h.MinProjDepth, int64(math.Ceil(dep)))
		}
		i64("projection axis", h.ProjAxis, int64(rg.proj))
		cw := s.L / float64(rg.cells)
		f64("pixel width", h.Loc.PixelWidth, cw, 1e-12)
		for j := 0; j < 3; j++ {
			i64("pixel origin", h.Loc.PixelOrigin[j], int64(rg.o[j]))
			i64("pixel span", h.Loc.PixelSpan[j], int64(rg.w[j]))
			f64("origin", h.Loc.Origin[j], float64(rg.o[j])*cw, 1e-12)
			f64("span", h.Loc.Span[j], float64(rg.w[j])*cw, 1e-12)
		}
		if cs.q == 2 { // component blocks
			for k := range g.Vals[0] {
				for j := 0; j < 3; j++ {
					t.Eval(1)
					v := g.Vals[j][k]
					if (g.Vals[0][k] != 0 || v != 0) && !near(float64(v), float64(cs.u[j]), 1e-4) {
						bad("velocity component", v, cs.u[j])
						return
					}
				}
			}
		}
		if t.Failed() {
			return
		}
		t.goReaders("C09/go", t.write("x.gtet", string(g.Raw)), g)
		t.Nontrivial("%+v %+v %+v", c, b, s.Om)
	}
	t.Sample("%s %+v: %d files", c.Quantity, cs.regs, len(cs.boxes))
}

// goReaders checks gotetra's own readers on a file.
func (t *T) goReaders(site, fname string, g *Gtet) {
	t.NoPanic(site, func() {
		hd, err := rio.ReadGridHeader(fname)
		t.Eval(1)
		if err != nil {
			t.Failf(site, "ReadGridHeader: %v", err)
			return
		}
		h := &g.Hd
		a := fmt.Sprint(hd.EndiannessVersion, hd.Type, hd.Cosmo, hd.Render, hd.Loc, hd.Vel)
		b := fmt.Sprint(h.EndVersion, []int64{h.HeaderSize, h.GridType, h.IsVectorGrid},
			[]float64{h.Redshift, h.ScaleFactor, h.OmegaM, h.OmegaL, h.H0, h.RhoMean, h.RhoCritical, h.BoxWidth},
			[]int64{h.Particles, h.TotalPixels, h.Subsample, h.MinProjDepth, h.ProjAxis}, h.Loc, h.Vel)
		strip := func(s string) string {
			o := ""
			for _, c := range s {
				switch c {
				case '{', '[':
					o += "("
				case '}', ']':
					o += ")"
				default:
					o += string(c)
				}
			}
			return o
		}
		if strip(a) != strip(b) {
			t.Failf(site, "ReadGridHeader returns %s, the file holds %s", a, b)
			return
		}
		xs, err := rio.ReadGrid(fname)
		t.Eval(1)
		if g.N == 3 {
			if err == nil {
				t.Failf(site, "ReadGrid accepted a vector grid")
			}
			return
		}
		if err != nil {
			t.Failf(site, "ReadGrid: %v", err)
			return
		}
		if len(xs) != len(g.Vals[0]) {
			t.Failf(site, "ReadGrid returned %d values of %d (span %v axis %d)", len(xs), len(g.Vals[0]), h.Loc.PixelSpan, h.ProjAxis)
			return
		}
		for k := range xs {
			t.Eval(1)
			if float32(xs[k]) != g.Vals[0][k] {
				t.Failf(site, "value %d is %g, the file holds %g", k, xs[k], g.Vals[0][k])
				return
			}
		}
	})
}

const pyDriver = `
import sys, json
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
import numpy as np
import gotetra
def dump(f):
    h = gotetra.read_header(f)
    g = gotetra.read_grid(f)
    g = np.asarray(g)
    return {"hd": [h.version, h.type.endianness_flag, h.type.header_size, h.type.grid_type, int(h.type.is_vector_grid)],
            "cosmo": [h.cosmo.redshift, h.cosmo.scale_factor, h.cosmo.omega_m, h.cosmo.omega_l, h.cosmo.h0, h.cosmo.rho_mean, h.cosmo.rho_critical, h.cosmo.box_width],
            "render": [h.render.particles, h.render.total_pixels, h.render.subsample_length, h.render.min_projection_depth, h.render.projection_axis],
            "loc": [float(x) for x in list(h.loc.origin)+list(h.loc.span)+list(h.loc.pixel_origin)+list(h.loc.pixel_span)+[h.loc.pixel_width]],
            "top": [int(x) for x in h.dim] + [h.axis], "pw": h.pw,
            "shape": list(g.shape), "vals": [repr(float(x)) for x in g.ravel()], "text": len(str(h))}
out = []
for f in sys.argv[2:]:
    if f.startswith("trunc:"):
        # every prefix must be refused
        f = f[6:]
        b = open(f, "rb").read()
        ok = []
        step = 1 if len(b) < 1500 else max(1, len(b)//700)
        for n in sorted(set(list(range(0, 360)) + list(range(0, len(b), step)) + [len(b)-1, len(b)-4])):
            if n >= len(b): continue
            open(f + ".t", "wb").write(b[:n])
            try:
                gotetra.read_grid(f + ".t")
                ok.append(n)
            except (Exception, SystemExit):
                pass
        out.append({"accepted": ok})
    else:
        try:
            out.append(dump(f))
        except Exception as e:
            out.append({"error": repr(e)})
json.dump(out, sys.stdout)
`

type pyOut struct {
	Hd       []int64   `json:"hd"`
	Cosmo    []float64 `json:"cosmo"`
	Render   []int64   `json:"render"`
	Loc      []float64 `json:"loc"`
	Top      []int64   `json:"top"`
	PW       float64   `json:"pw"`
	Shape    []int     `json:"shape"`
	Vals     []string  `json:"vals"`
	Error    string    `json:"error"`
	Accepted []int     `json:"accepted"`
}

func (t *T) python(site string, args ...string) ([]pyOut, bool) {
	py := "/opt/veriftools/pyvenv/bin/python3"
	if _, err := os.Stat(py); err != nil {
		py = "python3-vt"
	}
	drv := t.write("drv.py", pyDriver)
	r := runProc(90*time.Second, t.Dir, []string{"PYTHONDONTWRITEBYTECODE=1", "OPENBLAS_NUM_THREADS=1"}, py,
		append([]string{drv, filepath.Join(os.Getenv("VH_REPO"), "python")}, args...)...)
	t.Count("python_runs", 1)
	i := 0
	for i < len(r.Out) && r.Out[i] != '[' {
		i++
	}
	var out []pyOut
	if r.Code != 0 || json.Unmarshal([]byte(r.Out[i:]), &out) != nil {
		t.Failf(site, "gotetra.py: %s %s", r.Tail(), r.Out)
		return nil, false
	}
	return out, true
}

func (t *T) checkPy(site string, p *pyOut, g *Gtet) {
	h := &g.Hd
	t.Eval(1)
	if p.Error != "" {
		t.Failf(site, "gotetra.py raised %s (grid type %d, axis %d)", p.Error, h.GridType, h.ProjAxis)
		return
	}
	vec := int64(0)
	if g.N == 3 {
		vec = 1
	}
	a := fmt.Sprint(p.Hd, p.Cosmo, p.Render, p.Top, p.PW)
	b := fmt.Sprint([]int64{2, -1, gtetHdSize, h.GridType, vec},
		[]float64{h.Redshift, h.ScaleFactor, h.OmegaM, h.OmegaL, h.H0, h.RhoMean, h.RhoCritical, h.BoxWidth},
		[]int64{h.Particles, h.TotalPixels, h.Subsample, h.MinProjDepth, h.ProjAxis},
		[]int64{h.Loc.PixelSpan[0], h.Loc.PixelSpan[1], h.Loc.PixelSpan[2], h.ProjAxis}, h.Loc.PixelWidth)
	t.Eval(1)
	if a != b {
		t.Failf(site, "gotetra.py's header is %s, the file holds %s", a, b)
		return
	}
	loc := append(append([]float64{}, h.Loc.Origin[:]...), h.Loc.Span[:]...)
	for j := 0; j < 3; j++ {
		loc = append(loc, float64(h.Loc.PixelOrigin[j]))
	}
	for j := 0; j < 3; j++ {
		loc = append(loc, float64(h.Loc.PixelSpan[j]))
	}
	loc = append(loc, h.Loc.PixelWidth)
	if fmt.Sprint(loc) != fmt.Sprint(p.Loc) {
		t.Failf(site, "gotetra.py's location is %v, the file holds %v", p.Loc, loc)
		return
	}
	shape := []int{}
	if g.N == 3 {
		shape = append(shape, 3)
	}
	for j := 2; j >= 0; j-- {
		if int(h.ProjAxis) != j {
			shape = append(shape, int(h.Loc.PixelSpan[j]))
		}
	}
	if fmt.Sprint(shape) != fmt.Sprint(p.Shape) {
		t.Failf(site, "gotetra.py's array has shape %v, want %v", p.Shape, shape)
		return
	}
	k := 0
	for c := 0; c < g.N; c++ {
		for _, v := range g.Vals[c] {
			var x float64
			fmt.Sscan(p.Vals[k], &x)
			t.Eval(1)
			if float32(x) != v {
				t.Failf(site, "gotetra.py's value %d is %s, the file holds %g", k, p.Vals[k], v)
				return
			}
			k++
		}
	}
}

// checkPyText compares what gotetra.py prints about a file with the file.
func (t *T) checkPyText(site, file string, g *Gtet) {
	py := "/opt/veriftools/pyvenv/bin/python3"
	if _, err := os.Stat(py); err != nil {
		py = "python3-vt"
	}
	r := runProc(90*time.Second, t.Dir, []string{"PYTHONDONTWRITEBYTECODE=1", "OPENBLAS_NUM_THREADS=1"}, py,
		filepath.Join(os.Getenv("VH_REPO"), "python", "gotetra.py"), file)
	if r.Code != 0 {
		t.Failf(site, "python gotetra.py FILE: %s", r.Tail())
		return
	}
	got := map[string]string{}
	for _, l := range strings.Split(r.Out, "\n") {
		if kv := strings.SplitN(l, "=", 2); len(kv) == 2 {
			got[strings.TrimSpace(kv[0])] = strings.TrimSpace(kv[1])
		}
	}
	h := &g.Hd
	text := func(name, want string) {
		t.Eval(1)
		if got[name] != want {
			t.Failf(site, "gotetra.py prints %s = %q, the file holds %s", name, got[name], want)
		}
	}
	nums := func(name string, want ...float64) {
		t.Eval(1)
		fs := strings.FieldsFunc(got[name], func(c rune) bool { return strings.ContainsRune("[], ", c) })
		ok := len(fs) == len(want)
		for k := 0; ok && k < len(want); k++ {
			x, err := strconv.ParseFloat(fs[k], 64)
			ok = err == nil && math.Abs(x-want[k]) <= 6e-4*math.Abs(want[k])
		}
		if !ok {
			t.Failf(site, "gotetra.py prints %s = %q, the file holds %v", name, got[name], want)
		}
	}
	vec := "False"
	if g.N == 3 {
		vec = "True"
	}
	text("endianness_flag", "Little Endian")
	text("is_vector_grid", vec)
	text("grid_type", []string{"Density", "Density Gradient", "Velocity", "Velocity Divergence", "Velocity Curl"}[h.GridType])
	text("projection_axis", []string{"None", "X", "Y", "Z"}[h.ProjAxis+1])
	nums("header_size", gtetHdSize)
	nums("redshift", h.Redshift)
	nums("scale_factor", h.ScaleFactor)
	nums("omega_m", h.OmegaM)
	nums("omega_l", h.OmegaL)
	nums("h0", h.H0)
	nums("rho_mean", h.RhoMean)
	nums("rho_critical", h.RhoCritical)
	nums("box_width", h.BoxWidth)
	nums("particles", float64(h.Particles))
	nums("total_pixels", float64(h.TotalPixels))
	nums("subsample_length", float64(h.Subsample))
	nums("min_projection_depth", float64(h.MinProjDepth))
	nums("origin", h.Loc.Origin[:]...)
	nums("span", h.Loc.Span[:]...)
	o, s := h.Loc.PixelOrigin, h.Loc.PixelSpan
	nums("pixel_origin", float64(o[0]), float64(o[1]), float64(o[2]))
	nums("pixel_span", float64(s[0]), float64(s[1]), float64(s[2]))
	nums("pixel_width", h.Loc.PixelWidth)
	t.Count("headers_printed", 1)
}

func c09Python(t *T, i int) {
	cs := c09Make(t, i)
	gs, ok := t.render("C09", cs.c, cs.boxes)
	if !ok {
		return
	}
	files := []string{}
	for k, b := range cs.boxes {
		files = append(files, t.write(fmt.Sprintf("p%d.gtet", k), string(gs[b.Name].Raw)))
	}
	out, ok := t.python("C09/python", files...)
	if !ok {
		return
	}
	for k, b := range cs.boxes {
		t.checkPy("C09/python", &out[k], gs[b.Name])
		t.Nontrivial("py %+v %+v", cs.c, b)
	}
	k := t.R.Intn(len(files))
	t.checkPyText("C09/python-text", files[k], gs[cs.boxes[k].Name])
	t.Sample("gotetra.py agrees on %d %s files %+v", len(files), cs.c.Quantity, cs.regs)
}

// c09Truncate: every cut of a file is refused by the readers.
func c09Truncate(t *T, i int) {
	r := t.R
	s, dir := t.renderSim(8, 4, "waves")
	q := quantities[i%5]
	b := pixBox(r, "b", [3]int{r.Intn(8), r.Intn(8), r.Intn(8)}, [3]int{5, 6, 5}, s.L, 8, randAxis(r, 0.5))
	c := RCfg{Quantity: q, Input: dir, TotalPixels: 8, Particles: 5}
	gs, ok := t.render("C09", c, []BBox{b})
	if !ok {
		return
	}
	g := gs["b"]
	n := 0
	for cut := 0; cut < len(g.Raw); cut++ {
		if cut > 360 && cut%5 != i%5 && cut < len(g.Raw)-8 {
			continue
		}
		f := t.write("cut.gtet", string(g.Raw[:cut]))
		n++
		if cut < gtetHdSize {
			t.Refuses("C09/truncate", fmt.Sprintf("ReadGridHeader of %d of %d bytes", cut, len(g.Raw)), func() error {
				_, err := rio.ReadGridHeader(f)
				return err
			})
		}
		t.Refuses("C09/truncate", fmt.Sprintf("ReadGrid of %d of %d bytes", cut, len(g.Raw)), func() error {
			_, err := rio.ReadGrid(f)
			return err
		})
		if t.Failed() {
			return
		}
	}
	out, ok := t.python("C09/truncate", "trunc:"+t.write("whole.gtet", string(g.Raw)))
	if !ok {
		return
	}
	if len(out[0].Accepted) > 0 {
		t.Failf("C09/truncate", "gotetra.py read files cut to %v of %d bytes", out[0].Accepted, len(g.Raw))
	}
	t.Refuses("C09/truncate", "a file that does not exist", func() error {
		_, err := rio.ReadGrid(filepath.Join(t.Dir, "none"))
		return err
	})
	t.Refuses("C09/truncate", "a header of a file that does not exist", func() error {
		_, err := rio.ReadGridHeader(filepath.Join(t.Dir, "none"))
		return err
	})
	t.Count("truncation_points", n)
	t.Nontrivial("cut %d %s %v", i, q, b)
	t.Sample("%d truncation points of a %s file of %d bytes refused", n, q, len(g.Raw))
}

// c09Full: a file that cannot be written is reported.
func c09Full(t *T, i int) {
	s, dir := t.renderSim(8, 4, "waves")
	out := t.mkdir("full")
	if err := os.Symlink("/dev/full", filepath.Join(out, "b.gtet")); err != nil {
		panic(err)
	}
	c := RCfg{Quantity: quantities[i%5], Input: dir, TotalPixels: 8, Particles: 2}
	b := BBox{Name: "b", W: [3]float64{s.L * 0.9, s.L * 0.9, s.L * 0.9}}
	if t.R.Intn(2) == 0 {
		b.Axis = "Z"
	}
	cfg := t.write("r.cfg", c.text(out))
	bf := t.write("b.txt", b.text())
	r := t.cli("-Render", cfg, bf)
	t.Eval(1)
	if r.Code == 0 || r.Hung {
		t.Failf("C09/full", "writing a %s grid to a full device ended with status %d", c.Quantity, r.Code)
	}
	t.Nontrivial("full %d", i)
	t.Sample("%s to a full device: exit %d", c.Quantity, r.Code)
}

// c09Own: the readers on files made by the harness, with arbitrary values.
func c09Own(t *T, i int) {
	r := t.R
	files := []string{}
	gs := []*Gtet{}
	for k := 0; k < 6; k++ {
		g := &OwnGrid{L: 1 + 1000*r.Float64(), R: region{cells: 1 + r.Intn(40), proj: -1}}
		if r.Intn(2) == 0 {
			g.R.proj = r.Intn(3)
		}
		for j := range g.R.w {
			g.R.w[j] = 1 + r.Intn(min(7, g.R.cells))
			g.R.o[j] = r.Intn(g.R.cells)
		}
		for n := 0; n < g.R.size(); n++ {
			v := float32(r.NormFloat64() * math.Pow(10, float64(r.Intn(60)-30)))
			g.Vals = append(g.Vals, v)
		}
		f := filepath.Join(t.Dir, fmt.Sprintf("o%d.gtet", k))
		g.write(f)
		gt, err := readGtet(f)
		if err != nil {
			panic(err)
		}
		t.goReaders("C09/own", f, gt)
		files = append(files, f)
		gs = append(gs, gt)
		t.Nontrivial("own %+v %v", g.R, g.L)
	}
	out, ok := t.python("C09/own", files...)
	if !ok {
		return
	}
	for k := range gs {
		t.checkPy("C09/own", &out[k], gs[k])
	}
	t.Sample("6 synthetic grids")
}
