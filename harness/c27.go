package main

import (
	"encoding/binary"
	"fmt"
	"io"
	"log"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"github.com/phil-mansfield/gotetra/render"
	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/halo"
	gio "github.com/phil-mansfield/gotetra/render/io"
)

func init() {
	register("C27", "a case is one run of the program over many boxes, bounds files, sheet segments, snapshot files or iterations with at most 20 to 32 open files allowed to it (RLIMIT_NOFILE), its outputs checked; or a history of library calls (readers, writers, converters, managers; on good and on damaged files) after which open files and goroutines of the process are counted, with the garbage collector off. Non-trivial: more files were written or read than may be open at once, or at least 20 calls were made.",
		Group{"render", 10, 150, 5, c27Render},
		Group{"hist", 8, 120, 5, c27Hist},
		Group{"convert", 8, 120, 5, c27Convert},
		Group{"calls", 24, 400, 2, c27Calls},
		Group{"managers", 16, 250, 3, c27Managers})
}

// withFiles runs the program allowed n open files.
func (t *T) withFiles(n int) func(args ...string) *RunResult {
	return func(args ...string) *RunResult {
		t.Count("limited_runs", 1)
		a := append([]string{fmt.Sprintf("--nofile=%d:%d", n, n), os.Getenv("VH_CLI")}, args...)
		return runProc(cliLimit, t.Dir, nil, "prlimit", a...)
	}
}

// manyBoxes makes boxes over several bounds files, one of them the whole simulation.
func manyBoxes(t *T, s *Sim, tp, num int) ([][]BBox, map[string]region) {
	r := t.R
	files := make([][]BBox, 1+r.Intn(num))
	regs := map[string]region{}
	for k := 0; k < num; k++ {
		o, w := randRegion(t, tp)
		for j := range w {
			w[j] = min(w[j], 3)
		}
		b := pixBox(r, fmt.Sprintf("b%d", k), o, w, s.L, tp, randAxis(r, 0.3))
		if k == 0 {
			b = BBox{Name: "whole", W: [3]float64{s.L, s.L, s.L}}
		}
		regs[b.Name], _ = pixels(b.O, b.W, s.L, tp, axisOf(b.Axis))
		f := r.Intn(len(files))
		if k < len(files) {
			f = k
		}
		files[f] = append(files[f], b)
	}
	return files, regs
}

func c27Render(t *T, i int) {
	r := t.R
	cells := pick(r, 2, 4, 4, 8)
	s, dir := t.renderSim(8, cells, "waves")
	lim := 20 + r.Intn(13)
	num := 2*lim + r.Intn(60)
	if i%3 == 1 {
		num = 1 + r.Intn(3)
	}
	files, regs := manyBoxes(t, s, 8, num)
	c := RCfg{Quantity: []string{"Density", "Velocity"}[r.Intn(2)], Input: dir, Threads: 1 + r.Intn(8), TotalPixels: 8, Particles: 4, Run: t.withFiles(lim)}
	gs, ok := t.render("C27/render", c, files...)
	if !ok {
		return
	}
	for name, rg := range regs {
		if !t.checkRegion("C27/render", gs[name], rg) {
			return
		}
	}
	if g := gs["whole"]; g.N == 1 {
		sum := 0.0
		for _, v := range g.Vals[0] {
			sum += float64(v)
		}
		t.Eval(1)
		if m := sum / float64(len(g.Vals[0])); math.Abs(m-1) > 1e-4 {
			t.Failf("C27/render/mean", "%d boxes, %d segments, at most %d open files: the whole simulation's mean is %g", num, cells*cells*cells, lim, m)
		}
	}
	t.Count("boxes_rendered", num)
	t.Count("segments_read", cells*cells*cells)
	t.Max("outputs_per_open_file", float64(num)/float64(lim))
	if num > lim || cells*cells*cells > lim {
		t.Nontrivial("render %d %d %d %d", num, len(files), cells, lim)
	}
	t.Sample("%d boxes of %d bounds files from %d segments with at most %d open files", num, len(files), cells*cells*cells, lim)
}

func c27Hist(t *T, i int) {
	r := t.R
	cells := pick(r, 2, 4, 4, 8)
	s, dir := t.renderSim(8, cells, "waves")
	lim := 20 + r.Intn(13)
	num := 2*lim + r.Intn(60)
	if i%3 == 1 {
		num = 1 + r.Intn(3)
	}
	files, _ := manyBoxes(t, s, 8, num)
	grid := filepath.Join(t.Dir, "grid.gtet")
	randGrid(r, s.L, 4).write(grid)
	h := HCfg{Input: dir, GridFile: grid, Particles: 2, Bins: 4, Min: 1e-3, Max: 1e4, Scale: "Log", Threads: 1 + r.Intn(8), Run: t.withFiles(lim)}
	hs, ok := t.hist("C27/hist", h, files...)
	if !ok {
		return
	}
	sum := 0
	for _, c := range hs["whole"].Counts {
		sum += c
	}
	t.Eval(1)
	if sum != 2*6*512 {
		t.Failf("C27/hist/total", "%d boxes, %d segments, at most %d open files: the whole simulation has %d samples of %d", num, cells*cells*cells, lim, sum, 2*6*512)
	}
	t.Count("boxes_counted", num)
	t.Count("segments_read", cells*cells*cells)
	if num > lim || cells*cells*cells > lim {
		t.Nontrivial("hist %d %d %d %d", num, len(files), cells, lim)
	}
	t.Sample("%d boxes of %d bounds files from %d segments with at most %d open files", num, len(files), cells*cells*cells, lim)
}

func c27Convert(t *T, i int) {
	r := t.R
	lim := 20 + r.Intn(13)
	n, cells := 8, pick(r, 4, 8)
	num, files := 1, 2*lim+r.Intn(60)
	if i%2 == 1 { // many snapshots
		n, cells, num, files = 4, pick(r, 2, 4), lim+r.Intn(20), 1+r.Intn(4)
	}
	var cs []*convCase
	for k := 0; k < num; k++ {
		c := newConv(t, n, cells, "waves", 0.05, false)
		c.s.writeGadget(t.R, filepath.Join(t.Dir, fmt.Sprintf("in_%03d", k)), gadgetOpts{Files: files, IDSize: 64, X64: r.Intn(2) == 0}, c.xs, c.vs, c.L, c.mass)
		cs = append(cs, c)
	}
	cfg := t.write("conv.cfg", fmt.Sprintf("[ConvertSnapshot]\nInputFormat = LGadget-2\nCells = %d\nIteratedInput = %s/in_%%03d\nIteratedOutput = %s/out_%%03d\nIterationEnd = %d\n",
		cells, t.Dir, t.Dir, num-1))
	res := t.withFiles(lim)("-ConvertSnapshot", cfg)
	if res.Code != 0 {
		t.Failf("C27/convert/run", "%d snapshots of %d files into %d segments with at most %d open files: %s", num, files, cells*cells*cells, lim, res.Tail())
		return
	}
	for k, c := range cs {
		sheets := readSheetDir(t, "C27/convert", filepath.Join(t.Dir, fmt.Sprintf("out_%03d", k)), cells)
		if sheets == nil || !checkPayload(t, "C27/convert", c, sheets) {
			return
		}
	}
	t.Count("snapshot_files_read", num*files)
	t.Count("segments_written", num*cells*cells*cells)
	t.Nontrivial("convert %d %d %d %d", num, files, cells, lim)
	t.Sample("%d snapshots of %d files into %d segments with at most %d open files", num, files, cells*cells*cells, lim)
}

// leaks runs f with the garbage collector off and tells how many files and goroutines it leaves.
func (t *T) leaks(f func()) (files, gors int) {
	runtime.GC()
	time.Sleep(2 * time.Millisecond)
	old := debug.SetGCPercent(-1)
	defer debug.SetGCPercent(old)
	w := log.Writer()
	log.SetOutput(io.Discard)
	defer log.SetOutput(w)
	mp := runtime.GOMAXPROCS(0)
	defer runtime.GOMAXPROCS(mp)
	a, g := openFiles(), runtime.NumGoroutine()
	f()
	for k := 0; k < 200 && runtime.NumGoroutine() > g; k++ {
		time.Sleep(5 * time.Millisecond) // those that have answered may still be returning
	}
	return openFiles() - a, runtime.NumGoroutine() - g
}

func openFiles() int {
	ents, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	return len(ents)
}

// c27Calls: histories of reader and writer calls.
func c27Calls(t *T, i int) {
	r := t.R
	s := newSim(r, 4, 100, "waves", 0.05)
	sh := s.segments(2)[r.Intn(8)]
	good, cut, odd := filepath.Join(t.Dir, "good.dat"), filepath.Join(t.Dir, "cut.dat"), filepath.Join(t.Dir, "odd.dat")
	b := encodeSheet(sh, binary.LittleEndian)
	os.WriteFile(good, b, 0644)
	os.WriteFile(cut, b[:8+r.Intn(len(b)-8)], 0644)
	b[4]++ // header size
	os.WriteFile(odd, b, 0644)
	gad := filepath.Join(t.Dir, "gadget")
	gg := randGadget(r, 20, false, false, 64)
	gb, _ := encodeGadget(gg, binary.LittleEndian)
	os.WriteFile(gad, gb, 0644)
	grid, gcut := filepath.Join(t.Dir, "grid.gtet"), filepath.Join(t.Dir, "cut.gtet")
	randGrid(r, 100, 4).write(grid)
	xb, _ := os.ReadFile(grid)
	os.WriteFile(gcut, xb[:r.Intn(len(xb))], 0644)
	bounds, bad := t.write("bounds", (&BBox{Name: "x", W: [3]float64{1, 1, 1}}).text()), t.write("bad", "[Box \"x\"]\nX = a\n")
	row := ""
	for c := 0; c < 62; c++ {
		row += fmt.Sprintf("%d ", 1+r.Intn(1000))
	}
	ascii := t.write("halos.txt", row+"\n"+row+"\n")
	bin, bcut := filepath.Join(t.Dir, "halos.bin"), filepath.Join(t.Dir, "cut.bin")
	if err := halo.RockstarConvert(ascii, bin); err != nil {
		panic(err)
	}
	bb, _ := os.ReadFile(bin)
	os.WriteFile(bcut, bb[:r.Intn(len(bb))], 0644)
	gw := len(sh.Xs)
	xs, vs := toGeom(sh.Xs), toGeom(sh.Vs)
	cosm := &gio.CosmologyHeader{OmegaM: 0.3, OmegaL: 0.7, H100: 0.7}
	type call struct {
		name string
		f    func()
	}
	calls := []call{
		{"ReadSheetHeaderAt", func() { gio.ReadSheetHeaderAt(good, &gio.SheetHeader{}) }},
		{"ReadSheetPositionsAt", func() { gio.ReadSheetPositionsAt(good, make([]geom.Vec, gw)) }},
		{"ReadSheetVelocitiesAt", func() { gio.ReadSheetVelocitiesAt(good, make([]geom.Vec, gw)) }},
		{"WriteSheet", func() { gio.WriteSheet(filepath.Join(t.Dir, "w.dat"), toSheetHeader(&sh.Hd), xs, vs) }},
		{"ReadGadgetHeader", func() { gio.ReadGadgetHeader(gad, binary.LittleEndian, "LGadget-2") }},
		{"ReadGadget", func() { gio.ReadGadget(gad, binary.LittleEndian, 64, "LGadget-2") }},
		{"ReadGrid", func() { gio.ReadGrid(grid) }},
		{"ReadGridHeader", func() { gio.ReadGridHeader(grid) }},
		{"ReadBoundsConfig", func() { gio.ReadBoundsConfig(bounds, 100) }},
		{"ReadRockstar", func() { halo.ReadRockstar(ascii, halo.R200m, cosm) }},
		{"ReadRockstarVals", func() { halo.ReadRockstarVals(ascii, cosm, halo.MVir) }},
		{"RockstarConvert", func() { halo.RockstarConvert(ascii, bin) }},
		{"RockstarConvertTopN", func() { halo.RockstarConvertTopN(ascii, bin, 1) }},
		{"ReadBinaryRockstarVals", func() { halo.ReadBinaryRockstarVals(bin, cosm, halo.MVir, halo.Rs) }},
		{"ReadSheetHeaderAt of a cut file", func() { gio.ReadSheetHeaderAt(cut, &gio.SheetHeader{}) }},
		{"ReadSheetPositionsAt of a cut file", func() { gio.ReadSheetPositionsAt(cut, make([]geom.Vec, gw)) }},
		{"ReadSheetVelocitiesAt of a cut file", func() { gio.ReadSheetVelocitiesAt(cut, make([]geom.Vec, gw)) }},
		{"ReadSheetHeaderAt of an odd header", func() { gio.ReadSheetHeaderAt(odd, &gio.SheetHeader{}) }},
		{"ReadSheetPositionsAt into a wrong length", func() { gio.ReadSheetPositionsAt(good, make([]geom.Vec, gw+1)) }},
		{"ReadSheetVelocitiesAt into a wrong length", func() { gio.ReadSheetVelocitiesAt(good, make([]geom.Vec, gw-1)) }},
		{"ReadGrid of a cut file", func() { gio.ReadGrid(gcut) }},
		{"ReadGridHeader of a cut file", func() { gio.ReadGridHeader(gcut) }},
		{"ReadBoundsConfig of an invalid file", func() { gio.ReadBoundsConfig(bad, 100) }},
		{"ReadBinaryRockstarVals of a cut file", func() { halo.ReadBinaryRockstarVals(bcut, cosm, halo.MVir, halo.Rs) }},
	}
	// One kind of call per case; every case also mixes them.
	for pass := 0; pass < 2; pass++ {
		var seq []call
		for k := 0; k < 25; k++ {
			c := calls[i%len(calls)]
			if pass == 1 {
				c = calls[r.Intn(len(calls))]
				if pass == 1 && strings.HasPrefix(c.name, "RockstarConvert") {
					c = calls[0] // keeps bin as it is
				}
			}
			seq = append(seq, c)
		}
		files, gors := t.leaks(func() {
			for _, c := range seq {
				Panics(c.f)
			}
		})
		t.Eval(1)
		t.Count("library_calls", len(seq))
		if files > 2 || gors > 0 { // the runtime may open its poller's descriptors once
			names := map[string]int{}
			for _, c := range seq {
				names[c.name]++
			}
			t.Failf("C27/calls", "%d files and %d goroutines are left by the calls %v", files, gors, names)
			return
		}
	}
	t.Nontrivial("calls %s %d", calls[i%len(calls)].name, i)
	t.Sample("25 calls of %s and 25 mixed calls", calls[i%len(calls)].name)
}

// c27Managers: histories of renderings by the library.
func c27Managers(t *T, i int) {
	r := t.R
	cells := pick(r, 1, 2, 4)
	s, dir := t.renderSim(8, cells, "waves")
	files, _ := filepath.Glob(filepath.Join(dir, "*"))
	grid := filepath.Join(t.Dir, "grid.gtet")
	randGrid(r, s.L, 4).write(grid)
	oldCores := render.NumCores
	defer func() { render.NumCores = oldCores }()
	num := 3 + r.Intn(4)
	hists := 0
	var seq []string
	nf, ng := t.leaks(func() {
		for k := 0; k < num && !t.Failed(); k++ {
			render.NumCores = 1 + r.Intn(8)
			if r.Intn(2) == 0 {
				seq = append(seq, fmt.Sprintf("render with %d threads", render.NumCores))
				c27Manager(t, r, s, files)
			} else {
				seq = append(seq, fmt.Sprintf("histograms with %d threads", render.NumCores))
				hists++
				c27HistManager(t, r, s, files, grid)
			}
		}
	})
	t.Eval(1)
	t.Count("managers_run", num)
	if !t.Failed() && (nf > 2 || ng > 0) {
		t.Failf("C27/managers", "%d files and %d goroutines are left after %v of %d segments", nf, ng, seq, len(files))
	}
	t.Nontrivial("managers %v %d", seq, len(files))
	t.Sample("%v of %d segments", seq, len(files))
}

func c27Manager(t *T, r *rand.Rand, s *Sim, files []string) {
	q := []density.Quantity{density.Density, density.Velocity}[r.Intn(2)]
	var boxes []render.Box
	for k := 1 + r.Intn(3); k > 0; k-- {
		con := &gio.BoxConfig{XWidth: s.L, YWidth: s.L, ZWidth: s.L}
		con.CheckInit("b", s.L)
		boxes = append(boxes, render.NewBox(s.L, 3, 8, q, con))
	}
	man, err := render.NewManager(files, boxes, r.Intn(2) == 0, q)
	if err != nil {
		t.Failf("C27/managers/new", "NewManager: %v", err)
		return
	}
	man.Subsample(1)
	if err := man.RenderDensity(); err != nil {
		t.Failf("C27/managers/render", "RenderDensity: %v", err)
		return
	}
	for k, b := range boxes {
		vals, ok := b.Vals().FinalizedScalarBuffer()
		if !ok {
			continue
		}
		sum := 0.0
		for _, v := range vals {
			sum += float64(v)
		}
		t.Eval(1)
		if m := sum / float64(len(vals)); math.Abs(m-1) > 1e-4 {
			t.Failf("C27/managers/mean", "box %d of %d has mean %g", k, len(boxes), m)
		}
	}
}

func c27HistManager(t *T, r *rand.Rand, s *Sim, files []string, grid string) {
	var boxes []render.HistBox
	bins := 1 + r.Intn(5)
	for k := 1 + r.Intn(3); k > 0; k-- {
		con := &gio.BoxConfig{XWidth: s.L, YWidth: s.L, ZWidth: s.L}
		con.CheckInit("b", s.L)
		boxes = append(boxes, render.NewHistBox(con, bins))
	}
	man, err := render.NewHistManager(files, boxes, 2, "Density", grid)
	if err != nil {
		t.Failf("C27/managers/newhist", "NewHistManager: %v", err)
		return
	}
	// The same manager may be asked again.
	for rep := 1 + r.Intn(3); rep > 0; rep-- {
		man.Subsample(1)
		if err := man.Hist(&render.HistInfo{Min: 1e-3, Max: 1e4, Bins: bins, Scale: "Log"}); err != nil {
			t.Failf("C27/managers/hist", "Hist: %v", err)
			return
		}
		for k := range boxes {
			sum := 0
			for _, c := range boxes[k].Counts {
				sum += c
			}
			t.Eval(1)
			if sum != 2*6*s.N*s.N*s.N {
				t.Failf("C27/managers/count", "box %d of %d has %d samples of %d", k, len(boxes), sum, 12*s.N*s.N*s.N)
				return
			}
		}
	}
}
