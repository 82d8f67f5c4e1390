package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/phil-mansfield/gotetra/render"
	"github.com/phil-mansfield/gotetra/render/density"
	rio "github.com/phil-mansfield/gotetra/render/io"
)

func init() {
	register("C10", "Random bounds files with Boxes and Balls (interior, across and exactly on the periodic faces, thinner than a pixel, as wide as and wider than the simulation, balls with and without multiplier, projected and not); each is read and turned into pixel boxes. Faults: every kind of invalid value on every axis, alone in a file and hidden among valid entries, and unparsable files. Non-trivial: at least one entry was compared or one fault applied.",
		Group{"parse", 3000, 40000, 3, c10Parse},
		Group{"faults", 220, 2000, 3, c10Faults},
		Group{"examples", 10, 20, 9, c10Examples},
		Group{"render", 24, 150, 8, c10Render})
}

// bound makes one random bounds entry. dyadic ones have only values for which all arithmetic is exact.
func randBound(r *rand.Rand, name string, L float64, dyadic bool) BBox {
	b := BBox{Name: name}
	val := func(lo, hi float64) float64 {
		x := lo + (hi-lo)*r.Float64()
		if dyadic {
			x = math.Floor(x*64/L) * L / 64
			if x < lo {
				x += L / 64
			}
		}
		return x
	}
	for j := range b.O {
		switch r.Intn(6) {
		case 0:
			b.O[j] = 0
		case 1:
			b.O[j] = val(0.9*L, L)
		case 2:
			b.O[j] = val(0, 0.05*L)
		default:
			b.O[j] = val(0, L)
		}
	}
	if r.Intn(4) == 0 && !dyadic {
		b.O[r.Intn(3)] = math.Nextafter(L, 0)
	}
	if r.Intn(2) == 0 {
		b.Radius = val(1e-3*L, 0.45*L)
		if r.Intn(8) == 0 {
			b.Radius = val(0.45*L, 1.3*L)
		}
		if r.Intn(2) == 0 {
			b.Mult = []float64{0.5, 2, 1, 3, 0.25}[r.Intn(5)]
			if !dyadic && r.Intn(2) == 0 {
				b.Mult = 0.1 + 3*r.Float64()
			}
		}
	} else {
		for j := range b.W {
			switch r.Intn(6) {
			case 0:
				b.W[j] = L
			case 1:
				b.W[j] = val(1e-4*L, 0.02*L)
			case 2:
				b.W[j] = val(L, 2.5*L)
			default:
				b.W[j] = val(0.01*L, L)
			}
		}
	}
	b.Axis = randAxis(r, 0.4)
	return b
}

func (b *BBox) halfWidth() float64 {
	m := b.Mult
	if m == 0 {
		m = 1
	}
	return b.Radius * m
}

func (t *T) boundsText(bs []BBox, lower bool) string {
	s := ""
	for i := range bs {
		x := bs[i].text()
		if lower {
			v := "projectionaxis =  " + strings.ToLower(bs[i].Axis) + " "
			if i%2 == 1 {
				v = "projectionaxis = \" " + strings.ToLower(bs[i].Axis) + "  \""
			}
			x = strings.Replace(x, "ProjectionAxis = "+bs[i].Axis, v, 1)
		}
		s += x + "\n"
	}
	return s
}

func c10Parse(t *T, i int) {
	r := t.R
	dyadic := i%2 == 0
	L := []float64{1, 64, 128, 2, 0.5, 1 << 17}[r.Intn(6)]
	if !dyadic {
		L = []float64{62.5, 100.1, 1000, 250, 0.7, 3e5}[r.Intn(6)]
	}
	n := 1 + r.Intn(6)
	if i%40 == 7 {
		n = 20 + r.Intn(120)
	}
	names := namesFor(r, n)
	bs := make([]BBox, n)
	for k := range bs {
		bs[k] = randBound(r, names[k], L, dyadic)
		if k > 0 && i%3 == 1 && (bs[k].Radius != 0) != (bs[k-1].Radius != 0) && (k == 1 || bs[k-2].Name != bs[k-1].Name) {
			bs[k].Name = bs[k-1].Name // a Box and a Ball may share a name
			t.Count("shared names", 1)
		}
	}
	text := t.boundsText(bs, i%5 == 0)
	f := t.write("bounds.txt", text)
	got, err := rio.ReadBoundsConfig(f, L)
	t.Eval(1)
	if err != nil {
		t.Failf("parse/refused", "a valid bounds file was refused (width %g): %v\n%s", L, err, text)
		return
	}
	if len(got) != n {
		t.Failf("parse/count", "%d entries were given, %d were returned:\n%s", n, len(got), text)
		return
	}
	for k := range bs {
		b := &bs[k]
		var g *rio.BoxConfig
		for q := range got {
			if got[q].Name != b.Name {
				continue
			}
			w := [3]float64{2 * b.halfWidth(), 2 * b.halfWidth(), 2 * b.halfWidth()}
			if b.Radius == 0 {
				w = b.W
			}
			if g == nil || near(got[q].XWidth, w[0], 1e-13) && near(got[q].YWidth, w[1], 1e-13) && near(got[q].ZWidth, w[2], 1e-13) {
				g = &got[q]
			}
		}
		t.Eval(1)
		if g == nil {
			t.Failf("parse/name", "entry %q was not returned:\n%s", b.Name, text)
			return
		}
		if g.ProjectionAxis != b.Axis || g.IsProjection() != (b.Axis != "") {
			t.Failf("parse/axis", "entry %q has axis %q, want %q", b.Name, g.ProjectionAxis, b.Axis)
		}
		o, w := [3]float64{g.X, g.Y, g.Z}, [3]float64{g.XWidth, g.YWidth, g.ZWidth}
		wantO, wantW := b.O, b.W
		if b.Radius != 0 {
			for j := range wantO {
				wantO[j] = b.O[j] - b.halfWidth()
				wantW[j] = 2 * b.halfWidth()
			}
			t.Count("balls", 1)
		} else {
			t.Count("boxes", 1)
		}
		for j := range o {
			if !(o[j] >= 0 && o[j] < L) {
				t.Failf("parse/origin-range", "entry %q: origin %g on axis %d is outside [0, %g)\n%s", b.Name, o[j], j, L, b.text())
			}
			d := (o[j] - wantO[j]) / L
			if math.Abs(d-math.Round(d)) > 1e-12*(1+math.Abs(wantO[j])/L) {
				t.Failf("parse/origin", "entry %q: origin %.17g on axis %d, want %.17g modulo %g\n%s", b.Name, o[j], j, wantO[j], L, b.text())
			}
			if !near(w[j], wantW[j], 1e-13) {
				t.Failf("parse/width", "entry %q: width %.17g on axis %d, want %.17g\n%s", b.Name, w[j], j, wantW[j], b.text())
			}
		}
		// Pixels.
		cells := pick(r, 1, 2, 3, 5, 16, 32, 64, 100, 127, 500)
		if dyadic {
			cells = pick(r, 1, 2, 4, 8, 16, 32, 64)
		}
		vol := 1.0
		for j := range wantW {
			vol *= math.Min(wantW[j]/L*float64(cells)+1, float64(cells))
		}
		if vol > 1e6 {
			continue
		}
		want, edge := pixels(wantO, wantW, L, cells, axisOf(b.Axis))
		exact := dyadic
		if !exact {
			cw := L / float64(cells)
			for j := range wantO {
				for _, x := range []float64{wantO[j] / cw, (wantO[j] + wantW[j]) / cw} {
					if wantO[j] != 0 && math.Abs(x-math.Round(x)) < 1e-9 || wantO[j] == 0 && x != 0 && math.Abs(x-math.Round(x)) < 1e-9 {
						edge = true
					}
				}
			}
		}
		if edge && !exact {
			t.Count("ambiguous_edges", 1)
			continue
		}
		q := density.Quantity(r.Intn(int(density.EndQuantity)))
		want.proj = axisOf(b.Axis)
		canProj := q.String() == "Density" || q.String() == "Velocity"
		if !canProj {
			want.proj = -1
		}
		bad := t.NoPanic("pixels/panic", func() {
			box := render.NewBox(L, 1+r.Intn(50), cells, q, g)
			ax, ok := box.ProjectionAxis()
			if ok != (want.proj >= 0) || ok && ax != want.proj {
				t.Failf("pixels/axis", "quantity %s, ProjectionAxis %q: box reports axis %d, %v", q, b.Axis, ax, ok)
			}
			co, cs := box.CellOrigin(), box.CellSpan()
			for j := range co {
				if pmod(co[j], cells) != want.o[j] || cs[j] != want.w[j] {
					t.Failf("pixels/region", "width %g, %d pixels, axis %d: pixels from %d, %d of them; want from %d, %d\n%s",
						L, cells, j, co[j], cs[j], want.o[j], want.w[j], b.text())
				}
			}
			if box.Cells() != cells || !near(box.CellWidth(), L/float64(cells), 1e-14) {
				t.Failf("pixels/cells", "box reports %d cells of width %g", box.Cells(), box.CellWidth())
			}
		})
		_ = bad
		t.Eval(1)
		t.Nontrivial(fmt.Sprint("parse", L, cells, want))
		if k == 0 && i < 3 {
			t.Sample("width %g, %d pixels per side, entry %q selects origin %v span %v", L, cells, b.Name, want.o, want.w)
		}
	}
}

// c10Faults applies one fault to a valid entry.
func c10Faults(t *T, i int) {
	r := t.R
	L := boxL(r)
	ax := []string{"X", "Y", "Z"}
	type fault struct {
		what string
		ball bool
		mod  func(s string) string
	}
	set := func(key, val string) func(s string) string {
		re := regexp.MustCompile(`(?m)^` + key + ` = .*$`)
		return func(s string) string {
			if !re.MatchString(s) {
				return s + key + " = " + val + "\n"
			}
			return re.ReplaceAllString(s, key+" = "+val)
		}
	}
	del := func(key string) func(s string) string {
		re := regexp.MustCompile(`(?m)^` + key + ` = .*\n`)
		return func(s string) string { return re.ReplaceAllString(s, "") }
	}
	var fs []fault
	for _, ball := range []bool{false, true} {
		for _, a := range ax {
			for _, v := range []string{"-1e-9", "-" + ff(L/2), ff(L), ff(L * 1.5), ff(1e9 * L), "NaN", "+Inf", "-Inf", "abc"} {
				fs = append(fs, fault{a + " = " + v, ball, set(a, v)})
			}
		}
		fs = append(fs, fault{"axis W", ball, set("ProjectionAxis", "W")}, fault{"axis XY", ball, set("ProjectionAxis", "XY")},
			fault{"axis 0", ball, set("ProjectionAxis", "0")}, fault{"axis x y", ball, set("ProjectionAxis", "x y")},
			fault{"unknown key", ball, set("Depth", "3")}, fault{"unknown section", ball, func(s string) string { return s + "\n[Sphere \"a\"]\nX = 1\n" }},
			fault{"broken section", ball, func(s string) string { return strings.Replace(s, "]", "", 1) }},
			fault{"no value", ball, func(s string) string { return s + "X = \n" }},
			fault{"text", ball, func(s string) string { return s + "\nthis is not a config file\n" }})
	}
	for _, a := range ax {
		for _, v := range []string{"0", "-1", "-1e-12", "NaN", "xyz", "-Inf"} {
			fs = append(fs, fault{a + "Width = " + v, false, set(a+"Width", v)})
		}
		fs = append(fs, fault{a + "Width missing", false, del(a + "Width")})
		fs = append(fs, fault{a + "Width on a ball", true, set(a+"Width", "0.5")})
	}
	for _, v := range []string{"0", "-1", "-1e-12", "NaN", "xyz", "-Inf"} {
		fs = append(fs, fault{"Radius = " + v, true, set("Radius", v)})
	}
	fs = append(fs, fault{"Radius missing", true, del("Radius")})
	for _, v := range []string{"-1", "-0.001", "NaN", "xyz", "-Inf"} {
		fs = append(fs, fault{"RadiusMultiplier = " + v, true, set("RadiusMultiplier", v)})
	}
	fs = append(fs, fault{"Radius on a box", false, set("Radius", "0.5")}, fault{"RadiusMultiplier on a box", false, set("RadiusMultiplier", "2")})

	f := fs[i%len(fs)]
	entry := func(name string, ball bool) BBox {
		for {
			b := randBound(r, name, L, false)
			if (b.Radius != 0) == ball {
				return b
			}
		}
	}
	b := entry("target", f.ball)
	if i >= len(fs) && f.what[0] != 'a' {
		b.Axis = randAxis(r, 0.5)
	}
	good, bad := b.text(), f.mod(b.text())
	// The valid entry must be accepted, the faulty one refused, alone and among valid ones.
	if _, err := rio.ReadBoundsConfig(t.write("good.txt", good), L); err != nil {
		t.Failf("faults/valid", "valid entry refused: %v\n%s", err, good)
		return
	}
	others := []BBox{entry("one", true), entry("two", false), entry("three", r.Intn(2) == 0)}
	texts := []string{bad, bad + "\n" + t.boundsText(others, false), t.boundsText(others, false) + "\n" + bad}
	if f.what == "text" || f.what == "unknown section" {
		texts = texts[:1]
	}
	for k, s := range texts {
		t.Refuses("faults/"+strings.Fields(f.what)[0], fmt.Sprintf("width %g, bounds file with the fault %q (variant %d):\n%s", L, f.what, k, s), func() error {
			_, err := rio.ReadBoundsConfig(t.write("bad.txt", s), L)
			return err
		})
	}
	t.Refuses("faults/missing", "a bounds file which does not exist", func() error {
		_, err := rio.ReadBoundsConfig(filepath.Join(t.Dir, "nothing.txt"), L)
		return err
	})
	t.Nontrivial("fault" + f.what + fmt.Sprint(f.ball))
	t.Count("fault_kinds_applied", 1)
}

var optionRE = regexp.MustCompile(`(?m)^# (\w+)(\s*)=`)

// c10Examples runs the example configurations printed by the program.
func c10Examples(t *T, i int) {
	r := t.R
	example := func(kind string) (string, bool) {
		res := t.cli("-ExampleConfig", kind)
		t.Eval(1)
		if res.Code != 0 {
			t.Failf("examples/print", "-ExampleConfig %s: %s", kind, res.Tail())
			return "", false
		}
		return res.Out, true
	}
	setKey := func(s, key, val string) string {
		re := regexp.MustCompile(`(?m)^` + key + `(\s*)=.*$`)
		return re.ReplaceAllString(s, key+" = "+val)
	}
	enable := func(s string) string { return optionRE.ReplaceAllString(s, "$1 =") }
	full := i%2 == 1
	mode := []string{"Box", "Ball", "Render", "TetraHist", "ConvertSnapshot"}[(i/2)%5]
	text, ok := example(mode)
	if !ok {
		return
	}
	if full {
		text = enable(text)
	}
	t.Nontrivial("example" + mode + fmt.Sprint(full))
	const L = 250
	switch mode {
	case "Box", "Ball":
		got, err := rio.ReadBoundsConfig(t.write("example.txt", text), L)
		if err != nil || len(got) != 1 {
			t.Failf("examples/"+mode, "the example %s file is not accepted: %v (%d entries)\n%s", mode, err, len(got), text)
			return
		}
		keys := map[string]float64{}
		for _, m := range regexp.MustCompile(`(?m)^(\w+)\s*=\s*([0-9.e+-]+)\s*$`).FindAllStringSubmatch(text, -1) {
			var x float64
			fmt.Sscan(m[2], &x)
			keys[m[1]] = x
		}
		axis := ""
		if m := regexp.MustCompile(`(?m)^ProjectionAxis\s*=\s*(\w+)`).FindStringSubmatch(text); m != nil {
			axis = m[1]
		}
		if full && axis == "" {
			t.Failf("examples/option", "the example %s file does not document ProjectionAxis:\n%s", mode, text)
		}
		g := got[0]
		o, w := [3]float64{g.X, g.Y, g.Z}, [3]float64{g.XWidth, g.YWidth, g.ZWidth}
		for j, a := range []string{"X", "Y", "Z"} {
			wo, ww := keys[a], keys[a+"Width"]
			if mode == "Ball" {
				m := 1.0
				if full {
					m = keys["RadiusMultiplier"]
				}
				ww = 2 * keys["Radius"] * m
				wo = wrap(wo-keys["Radius"]*m, L)
			}
			if !near(o[j], wo, 1e-9) || !near(w[j], ww, 1e-9) {
				t.Failf("examples/values", "the example %s file gives %g + %g on axis %s, want %g + %g", mode, o[j], w[j], a, wo, ww)
			}
		}
		if g.ProjectionAxis != axis {
			t.Failf("examples/axis", "axis %q, want %q", g.ProjectionAxis, axis)
		}
	case "Render", "TetraHist":
		s := newSim(r, 8, L, "waves", 0.05)
		dir := filepath.Join(t.Dir, "sheets")
		writeSheets(dir, s.segments(2), stdSheetName)
		out := t.mkdir("out")
		text = setKey(setKey(text, "Input", dir), "Output", out)
		name := "my_box"
		if mode == "TetraHist" {
			g := randGrid(r, L, 16)
			gf := filepath.Join(t.Dir, "grid.gtet")
			g.write(gf)
			text = setKey(text, "GridFile", gf)
		}
		b := BBox{Name: name, O: [3]float64{107.9, 79, 78.5}, W: [3]float64{42.14, 42.14, 4.21}, Axis: randAxis(r, 0.5)}
		res := t.cli("-"+mode, t.write("example.cfg", text), t.write("bounds.txt", b.text()))
		if res.Code != 0 {
			t.Failf("examples/"+mode, "the example %s file (options enabled: %v) fails: %s\n%s", mode, full, res.Tail(), text)
			return
		}
		want := name
		if full {
			want = "pre_" + name + "_app"
		}
		ext := map[string]string{"Render": ".gtet", "TetraHist": ".txt"}[mode]
		if _, err := os.Stat(filepath.Join(out, want+ext)); err != nil {
			t.Failf("examples/output", "the example %s file does not write %s", mode, want+ext)
		}
		if full {
			for _, f := range []string{"prof.out", "log.out"} {
				if st, err := os.Stat(filepath.Join(t.Dir, f)); err != nil || f == "log.out" && st.Size() == 0 {
					t.Failf("examples/files", "the example %s file with its options does not write %s", mode, f)
				}
			}
		}
	case "ConvertSnapshot":
		s := newSim(r, 8, L*1000, "waves", 0.05)
		o := gadgetOpts{Files: 2, IDSize: 64}
		for k := 0; k < 2; k++ {
			s.writeSnap(r, filepath.Join(t.Dir, fmt.Sprintf("in%d", k)), o)
		}
		text = setKey(setKey(text, "Input", filepath.Join(t.Dir, "in0")), "Output", filepath.Join(t.Dir, "out0"))
		text = setKey(setKey(text, "IteratedInput", filepath.Join(t.Dir, "in%d")), "IteratedOutput", filepath.Join(t.Dir, "out%d"))
		text = setKey(text, "IterationEnd", "1")
		res := t.cli("-ConvertSnapshot", t.write("example.cfg", text))
		if res.Code != 0 {
			t.Failf("examples/ConvertSnapshot", "the example ConvertSnapshot file (options enabled: %v) fails: %s\n%s", full, res.Tail(), text)
			return
		}
		n := 1
		if full {
			n = 2
		}
		for k := 0; k < n; k++ {
			fs, _ := filepath.Glob(filepath.Join(t.Dir, fmt.Sprintf("out%d", k), "*.dat"))
			if len(fs) != 512 {
				t.Failf("examples/sheets", "the example ConvertSnapshot file writes %d sheets, want 512", len(fs))
				return
			}
			sh, err := readSheetFile(fs[0])
			if err != nil {
				t.Failf("examples/sheet", "%v", err)
				return
			}
			wantL := 250e3
			if full {
				wantL = 250
			}
			if !near(sh.Hd.TotalWidth, wantL, 1e-9) {
				t.Failf("examples/units", "width %g, want %g", sh.Hd.TotalWidth, wantL)
			}
		}
	}
}

// c10Render renders random entries through the program and compares their regions.
func c10Render(t *T, i int) {
	r := t.R
	s, dir := t.renderSim(8, 2, "waves")
	tp := pick(r, 8, 16, 20)
	n := 2 + r.Intn(4)
	names := namesFor(r, n)
	var bs []BBox
	for len(bs) < n {
		b := randBound(r, names[len(bs)], s.L, false)
		bs = append(bs, b)
	}
	gs, ok := t.render("render", RCfg{Quantity: "Density", TotalPixels: tp, Particles: 2, Input: dir}, bs)
	if !ok {
		return
	}
	for k := range bs {
		b := &bs[k]
		o, w := b.O, b.W
		if b.Radius != 0 {
			for j := range o {
				o[j] -= b.halfWidth()
				w[j] = 2 * b.halfWidth()
			}
		}
		want, edge := pixels(o, w, s.L, tp, axisOf(b.Axis))
		cw := s.L / float64(tp)
		for j := range o {
			for _, x := range []float64{o[j] / cw, (o[j] + w[j]) / cw} {
				edge = edge || x != 0 && math.Abs(x-math.Round(x)) < 1e-9
			}
		}
		if edge {
			continue
		}
		t.checkRegion("render", gs[b.Name], want)
		t.Nontrivial(fmt.Sprint("render", want))
	}
}
