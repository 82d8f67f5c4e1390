package main

import (
	"fmt"
	"io/ioutil"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func fmtInts(x ...int) string { return strings.Trim(fmt.Sprint(x), "[]") }

// BBox is one entry of a bounds file.
type BBox struct {
	Name string
	O, W [3]float64
	Axis string
	// If Radius is non-zero the entry is a Ball centred on O.
	Radius, Mult float64
}

func (b *BBox) text() string {
	s := ""
	if b.Radius != 0 {
		s = fmt.Sprintf("[Ball %q]\nX = %s\nY = %s\nZ = %s\nRadius = %s\n", b.Name, ff(b.O[0]), ff(b.O[1]), ff(b.O[2]), ff(b.Radius))
		if b.Mult != 0 {
			s += fmt.Sprintf("RadiusMultiplier = %s\n", ff(b.Mult))
		}
	} else {
		s = fmt.Sprintf("[Box %q]\nX = %s\nY = %s\nZ = %s\nXWidth = %s\nYWidth = %s\nZWidth = %s\n", b.Name,
			ff(b.O[0]), ff(b.O[1]), ff(b.O[2]), ff(b.W[0]), ff(b.W[1]), ff(b.W[2]))
	}
	if b.Axis != "" {
		s += "ProjectionAxis = " + b.Axis + "\n"
	}
	return s
}

func ff(x float64) string { return fmt.Sprintf("%.17g", x) }

func axisOf(s string) int {
	return map[string]int{"": -1, "X": 0, "Y": 1, "Z": 2}[s]
}

// RCfg is a Render configuration.
type RCfg struct {
	Quantity                 string
	TotalPixels, ImagePixels int
	Particles                int
	Subsample                int
	Auto                     bool
	Depth                    int
	Prepend, Append          string
	Threads                  int
	Input                    string
	Extra                    string
	Race                     bool
	Run                      func(args ...string) *RunResult
}

func (c *RCfg) text(out string) string {
	s := "[Render]\n"
	add := func(k string, v interface{}) { s += fmt.Sprintf("%s = %v\n", k, v) }
	add("Quantity", c.Quantity)
	add("Input", c.Input)
	add("Output", out)
	if c.TotalPixels != 0 {
		add("TotalPixels", c.TotalPixels)
	}
	if c.ImagePixels != 0 {
		add("ImagePixels", c.ImagePixels)
	}
	if c.Particles != 0 {
		add("Particles", c.Particles)
	}
	if c.Subsample != 0 {
		add("SubsampleLength", c.Subsample)
	}
	if c.Auto {
		add("AutoParticles", "true")
	}
	if c.Depth != 0 {
		add("ProjectionDepth", c.Depth)
	}
	if c.Prepend != "" {
		add("PrependName", c.Prepend)
	}
	if c.Append != "" {
		add("AppendName", c.Append)
	}
	return s + c.Extra
}

// render runs gotetra on bounds files made of the given boxes and reads every grid in the output
// directory, keyed by box name.
func (t *T) render(site string, c RCfg, files ...[]BBox) (map[string]*Gtet, bool) {
	k := t.counts["renders"]
	t.Count("renders", 1)
	out := t.mkdir(fmt.Sprintf("out%d", k))
	cfg := t.write(fmt.Sprintf("render%d.cfg", k), c.text(out))
	args := []string{}
	if c.Threads != 0 {
		args = append(args, "-Threads", fmt.Sprint(c.Threads))
	}
	args = append(args, "-Render", cfg)
	want := map[string]string{}
	for i, bs := range files {
		s := ""
		for j := range bs {
			s += bs[j].text() + "\n"
			want[c.Prepend+bs[j].Name+c.Append+".gtet"] = bs[j].Name
		}
		args = append(args, t.write(fmt.Sprintf("bounds%d_%d.txt", k, i), s))
	}
	run := t.cli
	if c.Race {
		run = t.cliRace
	}
	if c.Run != nil {
		run = c.Run
	}
	r := run(args...)
	if r.Code != 0 || r.Hung {
		t.Failf(site+"/run", "render failed: %s\nconfig:\n%s", r.Tail(), c.text(out))
		return nil, false
	}
	grids := map[string]*Gtet{}
	infos, _ := ioutil.ReadDir(out)
	for _, f := range infos {
		name, ok := want[f.Name()]
		if !ok {
			t.Failf(site+"/files", "unexpected output file %s", f.Name())
			return nil, false
		}
		g, err := readGtet(filepath.Join(out, f.Name()))
		if err != nil {
			t.Failf(site+"/format", "%v", err)
			return nil, false
		}
		grids[name] = g
		t.Count("grids", 1)
	}
	if len(grids) != len(want) {
		got := []string{}
		for n := range grids {
			got = append(got, n)
		}
		sort.Strings(got)
		t.Failf(site+"/files", "%d boxes were requested, grids were written for %v", len(want), got)
		return nil, false
	}
	os.RemoveAll(out)
	return grids, true
}

// pixels gives the pixel region a box must select, and whether an edge is so close to a pixel
// boundary that rounding decides.
func pixels(o, w [3]float64, L float64, cells, proj int) (g region, edge bool) {
	g.cells, g.proj = cells, proj
	cw := L / float64(cells)
	for j := 0; j < 3; j++ {
		a, b := o[j]/cw, (o[j]+w[j])/cw
		for _, x := range []float64{a, b} {
			if d := math.Abs(x - math.Round(x)); d != 0 && d < 1e-9 {
				edge = true
			}
		}
		g.o[j] = int(math.Floor(a))
		g.w[j] = int(math.Floor(b)) - g.o[j] + 1
		if g.w[j] > cells {
			g.w[j] = cells
		}
		g.o[j] = pmod(g.o[j], cells)
	}
	return g, edge
}

// checkRegion verifies that a grid covers exactly the pixels the box selects.
func (t *T) checkRegion(site string, g *Gtet, want region) bool {
	t.Eval(1)
	h := &g.Hd
	got := region{cells: int(h.TotalPixels), proj: int(h.ProjAxis)}
	for j := 0; j < 3; j++ {
		got.o[j], got.w[j] = pmod(int(h.Loc.PixelOrigin[j]), want.cells), int(h.Loc.PixelSpan[j])
	}
	if got != want {
		t.Failf(site+"/region", "grid covers %+v, the box selects %+v", got, want)
		return false
	}
	return true
}

// randBox makes a box selecting nw pixels per axis at pixel o, with edges strictly inside pixels.
func pixBox(r *rand.Rand, name string, o, nw [3]int, L float64, cells int, axis string) BBox {
	b := BBox{Name: name, Axis: axis}
	cw := L / float64(cells)
	for j := 0; j < 3; j++ {
		fa, fb := 0.1+0.8*r.Float64(), 0.1+0.8*r.Float64()
		if nw[j] == 1 && fb < fa {
			fa, fb = fb, fa
			if fb-fa < 0.01 {
				fb = fa + 0.01
			}
		}
		b.O[j] = (float64(pmod(o[j], cells)) + fa) * cw
		b.W[j] = (float64(nw[j]-1) + fb - fa) * cw
	}
	return b
}

func randAxis(r *rand.Rand, p float64) string {
	if r.Float64() < p {
		return []string{"X", "Y", "Z"}[r.Intn(3)]
	}
	return ""
}

// renderSim makes a simulation fit for rendering (its segments span less than half the box), writes
// its sheets and returns it with the directory.
func (t *T) renderSim(n, cells int, kind string) (*Sim, string) {
	r := t.R
	L := boxL(r)
	s := newSim(r, n, L, kind, randAmp(r, cells))
	dir := filepath.Join(t.Dir, "sheets")
	writeSheets(dir, s.segments(cells), stdSheetName)
	return s, dir
}

// randAmp draws a displacement amplitude that keeps segments under half the box, sometimes up to that limit.
func randAmp(r *rand.Rand, cells int) float64 {
	if r.Intn(3) == 0 && cells > 3 {
		return (0.5 - 1/float64(cells)) / 2 * 0.95 * (0.5 + 0.5*r.Float64())
	}
	return 0.02 + 0.07*r.Float64()
}

func pick(r *rand.Rand, xs ...int) int { return xs[r.Intn(len(xs))] }
