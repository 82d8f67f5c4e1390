package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io/ioutil"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
)

// OwnGrid is a three dimensional scalar grid of the harness' own making.
type OwnGrid struct {
	L    float64
	R    region // cells and extent
	Vals []float32
}

func (g *OwnGrid) at(c [3]int) (float32, bool) {
	k := g.R.key(c)
	if k < 0 {
		return 0, false
	}
	return g.Vals[k], true
}

func randGrid(r *rand.Rand, L float64, cells int) *OwnGrid {
	g := &OwnGrid{L: L, R: region{cells: cells, proj: -1, w: [3]int{cells, cells, cells}}}
	for i := 0; i < g.R.size(); i++ {
		g.Vals = append(g.Vals, float32(math.Pow(10, -1.5+3*r.Float64())))
	}
	return g
}

func (g *OwnGrid) header() GtetHd {
	var h GtetHd
	h.EndVersion = ^uint64(1 | 1<<63)
	h.HeaderSize = gtetHdSize
	h.ScaleFactor, h.OmegaM, h.OmegaL, h.H0 = 1, 0.3, 0.7, 70
	h.BoxWidth = g.L
	h.Particles, h.TotalPixels, h.Subsample, h.ProjAxis = 10, int64(g.R.cells), 1, int64(g.R.proj)
	cw := g.L / float64(g.R.cells)
	for j := 0; j < 3; j++ {
		h.Loc.PixelOrigin[j], h.Loc.PixelSpan[j] = int64(g.R.o[j]), int64(g.R.w[j])
		h.Loc.Origin[j], h.Loc.Span[j] = float64(g.R.o[j])*cw, float64(g.R.w[j])*cw
	}
	h.Loc.PixelWidth = cw
	return h
}

func (g *OwnGrid) write(name string) {
	var b bytes.Buffer
	h := g.header()
	binary.Write(&b, binary.LittleEndian, &h)
	binary.Write(&b, binary.LittleEndian, g.Vals)
	if err := os.WriteFile(name, b.Bytes(), 0644); err != nil {
		panic(err)
	}
}

// HCfg is a TetraHist configuration.
type HCfg struct {
	Input, GridFile string
	Particles, Bins int
	Min, Max        float64
	Scale           string
	Threads         int
	Subsample       int
	Prepend, Append string
	Race            bool
	Run             func(args ...string) *RunResult
}

func (h *HCfg) text(out string) string {
	s := fmt.Sprintf("[TetraHist]\nQuantity = Density\nInput = %s\nOutput = %s\nGridFile = %s\nParticles = %d\nHistMin = %s\nHistMax = %s\nHistBins = %d\nHistScale = %s\n",
		h.Input, out, h.GridFile, h.Particles, ff(h.Min), ff(h.Max), h.Bins, h.Scale)
	if h.Subsample != 0 {
		s += fmt.Sprintf("SubsampleLength = %d\n", h.Subsample)
	}
	if h.Prepend != "" {
		s += "PrependName = " + h.Prepend + "\n"
	}
	if h.Append != "" {
		s += "AppendName = " + h.Append + "\n"
	}
	return s
}

type HistOut struct {
	Centers []string
	Counts  []int
}

// hist runs the TetraHist mode and parses every output file.
func (t *T) hist(site string, h HCfg, files ...[]BBox) (map[string]*HistOut, bool) {
	k := t.counts["hist_runs"]
	t.Count("hist_runs", 1)
	out := t.mkdir(fmt.Sprintf("hout%d", k))
	args := []string{}
	if h.Threads != 0 {
		args = append(args, "-Threads", fmt.Sprint(h.Threads))
	}
	args = append(args, "-TetraHist", t.write(fmt.Sprintf("hist%d.cfg", k), h.text(out)))
	want := map[string]string{}
	for i, bs := range files {
		s := ""
		for j := range bs {
			s += bs[j].text() + "\n"
			want[h.Prepend+bs[j].Name+h.Append+".txt"] = bs[j].Name
		}
		args = append(args, t.write(fmt.Sprintf("hbounds%d_%d.txt", k, i), s))
	}
	run := t.cli
	if h.Race {
		run = t.cliRace
	}
	if h.Run != nil {
		run = h.Run
	}
	r := run(args...)
	if r.Code != 0 || r.Hung {
		t.Failf(site+"/run", "TetraHist failed: %s\nconfig:\n%s", r.Tail(), h.text(out))
		return nil, false
	}
	res := map[string]*HistOut{}
	infos, _ := ioutil.ReadDir(out)
	for _, f := range infos {
		name, ok := want[f.Name()]
		if !ok {
			t.Failf(site+"/files", "unexpected output file %s", f.Name())
			return nil, false
		}
		b, _ := os.ReadFile(filepath.Join(out, f.Name()))
		ho := &HistOut{}
		for _, l := range strings.Split(string(b), "\n") {
			if l == "" || l[0] == '#' {
				continue
			}
			fs := strings.Fields(l)
			var n int
			if len(fs) != 2 {
				t.Failf(site+"/format", "line %q in %s", l, f.Name())
				return nil, false
			}
			if _, err := fmt.Sscan(fs[1], &n); err != nil || n < 0 {
				t.Failf(site+"/format", "line %q in %s", l, f.Name())
				return nil, false
			}
			ho.Centers = append(ho.Centers, fs[0])
			ho.Counts = append(ho.Counts, n)
		}
		if len(ho.Counts) != h.Bins {
			t.Failf(site+"/bins", "%d bins were requested, %s has %d lines", h.Bins, f.Name(), len(ho.Counts))
			return nil, false
		}
		res[name] = ho
	}
	if len(res) != len(want) {
		t.Failf(site+"/files", "%d boxes were requested, %d histograms were written", len(want), len(res))
		return nil, false
	}
	os.RemoveAll(out)
	return res, true
}
