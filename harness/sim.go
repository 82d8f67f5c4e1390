package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
)

// Sim is a snapshot of a periodic simulation: particle at lattice site (x, y, z) has index
// x + N*(y + N*z).
type Sim struct {
	N               int
	L               float64
	Xs, Vs          []V3 // positions in [0, L), velocities as stored in the sheet
	Z, Om, Ol, H100 float64
	Mass            float64
	A               float64 // the Gadget header's Time
	Amp             float64 // displacement amplitude in units of L
	Kind            string
}

func wrap(x, L float64) float64 {
	x = math.Mod(x, L)
	if x < 0 {
		x += L
	}
	return x
}

// boxL draws the width of a simulation box, in whatever units its owner likes.
func boxL(r *rand.Rand) float64 {
	return []float64{1, 10, 62.5, 100, 125, 100.1, 250, 1000, 25, 7e4, 1.25e5, 0.02}[r.Intn(12)]
}

// wrap32 returns x wrapped into [0, L) as a float32.
func wrap32(x, L float64) float32 {
	y := float32(wrap(x, L))
	if float64(y) >= L || y < 0 {
		y = 0
	}
	return y
}

var simKinds = []string{"waves", "random", "lattice", "shift", "collapse", "shear", "clump"}

// newSim makes a simulation. kind selects the displacement field, amp its amplitude in units of the
// box. Velocities are smooth plus noise and distinct for every particle.
func newSim(r *rand.Rand, n int, L float64, kind string, amp float64) *Sim {
	s := &Sim{N: n, L: L, Kind: kind, Amp: amp}
	s.Xs, s.Vs = make([]V3, n*n*n), make([]V3, n*n*n)
	s.Z = []float64{0, 0.5, 1, 3, 9.3, 0, 1e-3, 127}[r.Intn(8)]
	s.Om = 0.2 + 0.3*r.Float64()
	s.Ol = 1 - s.Om
	switch r.Intn(6) {
	case 0:
		s.Om, s.Ol = 1, 0
	case 1:
		s.Ol = []float64{0, 0.6, 0.8}[r.Intn(3)]
	}
	s.H100 = []float64{0.6 + 0.2*r.Float64(), 0.6774, 0.70345, 1, 0.5}[r.Intn(5)]
	s.Mass = []float64{1e9, 1e9, 0.05, 1e-4, 1e13}[r.Intn(5)] * (1 + r.Float64())
	s.A = 1 / (1 + s.Z)
	var k, ph [3][3]float64
	for i := range k {
		for j := range k[i] {
			k[i][j] = float64(r.Intn(3))
			ph[i][j] = 2 * math.Pi * r.Float64()
		}
	}
	bulk := [3]float64{}
	if kind != "lattice" {
		for j := range bulk {
			bulk[j] = r.Float64() * L
		}
	}
	var centre [3]float64
	for j := range centre {
		centre[j] = r.Float64()
	}
	// clump: the particles gather in a thin layer, rod or knot, often on the faces
	gather := [3]bool{r.Intn(3) > 0, r.Intn(3) > 0, r.Intn(3) > 0}
	gather[r.Intn(3)] = true
	var knot [3]float64
	for j := range knot {
		if r.Intn(3) == 0 {
			knot[j] = r.Float64()
		}
	}
	off := 0.0
	if kind == "lattice" && r.Intn(2) == 0 {
		off = 0.5 // particles at cell centres
	}
	for iz := 0; iz < n; iz++ {
		for iy := 0; iy < n; iy++ {
			for ix := 0; ix < n; ix++ {
				i := ix + n*(iy+n*iz)
				q := [3]float64{(float64(ix) + off) / float64(n), (float64(iy) + off) / float64(n), (float64(iz) + off) / float64(n)}
				var d [3]float64
				switch kind {
				case "waves":
					for j := 0; j < 3; j++ {
						a := ph[j][0]
						for m := 0; m < 3; m++ {
							a += 2 * math.Pi * k[j][m] * q[m]
						}
						d[j] = amp * math.Sin(a) * (0.9 + 0.1*r.Float64())
					}
				case "random":
					for j := 0; j < 3; j++ {
						d[j] = amp * (2*r.Float64() - 1)
					}
				case "collapse":
					for j := 0; j < 3; j++ {
						dx := q[j] - centre[j]
						dx -= math.Round(dx)
						d[j] = -amp*math.Sin(2*math.Pi*dx) + amp*0.02*r.NormFloat64()
						d[j] = math.Max(-amp, math.Min(amp, d[j]))
					}
				case "clump":
					for j := 0; j < 3; j++ {
						d[j] = amp * (2*r.Float64() - 1)
						if gather[j] {
							d[j] += knot[j] - q[j]
						}
					}
				case "shear":
					d[0] = amp * math.Sin(2*math.Pi*q[1]+ph[0][0])
					d[1] = amp * math.Sin(2*math.Pi*q[2]+ph[0][1])
					d[2] = amp * math.Sin(2*math.Pi*q[0]+ph[0][2])
				}
				for j := 0; j < 3; j++ {
					s.Xs[i][j] = wrap32((q[j]+d[j])*L+bulk[j], L)
					s.Vs[i][j] = float32(300*math.Sin(2*math.Pi*q[(j+1)%3]+ph[1][j]) + 20*r.NormFloat64())
				}
			}
		}
	}
	return s
}

// segments cuts the simulation into cells^3 sheets, as the converter is specified to.
func (s *Sim) segments(cells int) []*Sheet {
	sw := s.N / cells
	gw := sw + 1
	out := []*Sheet{}
	for idx := 0; idx < cells*cells*cells; idx++ {
		cx, cy, cz := idx%cells, idx/cells%cells, idx/(cells*cells)
		sh := &Sheet{}
		h := &sh.Hd
		h.Z, h.OmegaM, h.OmegaL, h.H100, h.Mass, h.TotalWidth = s.Z, s.Om, s.Ol, s.H100, s.Mass, s.L
		h.Count, h.CountWidth = int64(s.N*s.N*s.N), int64(s.N)
		h.SegmentWidth, h.GridWidth, h.GridCount = int64(sw), int64(gw), int64(gw*gw*gw)
		h.Idx, h.Cells = int64(idx), int64(cells)
		for z := 0; z < gw; z++ {
			for y := 0; y < gw; y++ {
				for x := 0; x < gw; x++ {
					i := s.site(cx*sw+x, cy*sw+y, cz*sw+z)
					sh.Xs = append(sh.Xs, s.Xs[i])
					sh.Vs = append(sh.Vs, s.Vs[i])
				}
			}
		}
		b := boundsOf(sh.Xs, s.L)
		for j := 0; j < 3; j++ {
			o := float32(wrap(b.lo[j], s.L))
			if float64(o) >= s.L {
				o = 0
			}
			h.Origin[j] = o
			h.Width[j] = float32(b.hi[j] - b.lo[j])
			lo, hi := sh.Vs[0][j], sh.Vs[0][j]
			for _, v := range sh.Vs {
				if v[j] < lo {
					lo = v[j]
				}
				if v[j] > hi {
					hi = v[j]
				}
			}
			h.VOrigin[j], h.VWidth[j] = lo, hi-lo
		}
		out = append(out, sh)
	}
	return out
}

func (s *Sim) site(x, y, z int) int {
	n := s.N
	return x%n + n*(y%n+n*(z%n))
}

type bnds struct{ lo, hi [3]float64 }

// boundsOf gives the bounding box of the points of a sheet, which is followed from each point to the
// next one of the lattice through the periodic faces; lo may lie outside [0, L).
func boundsOf(xs []V3, L float64) bnds {
	n := int(math.Round(math.Cbrt(float64(len(xs)))))
	u := make([][3]float64, len(xs))
	var b bnds
	for i := range xs {
		prev := -1
		switch {
		case i%n > 0:
			prev = i - 1
		case i/n%n > 0:
			prev = i - n
		case i > 0:
			prev = i - n*n
		}
		for j := 0; j < 3; j++ {
			x := float64(xs[i][j])
			if prev >= 0 {
				d := x - float64(xs[prev][j])
				d -= L * math.Round(d/L)
				// The wraps are whole multiples of L, so no rounding is accumulated.
				x += L * math.Round((u[prev][j]+d-x)/L)
			}
			u[i][j] = x
			if i == 0 {
				b.lo[j], b.hi[j] = x, x
			}
			b.lo[j], b.hi[j] = math.Min(b.lo[j], x), math.Max(b.hi[j], x)
		}
	}
	return b
}

// writeSheets writes the segments to dir/<name>; order of bytes is little endian unless be.
func writeSheets(dir string, segs []*Sheet, names func(i int) string) {
	if err := os.MkdirAll(dir, 0755); err != nil {
		panic(err)
	}
	for i, s := range segs {
		if err := os.WriteFile(filepath.Join(dir, names(i)), encodeSheet(s, binary.LittleEndian), 0644); err != nil {
			panic(err)
		}
	}
}

func stdSheetName(i int) string { return fmt.Sprintf("sheet%03d.dat", i) }

// gadgetOpts describes one way of storing a simulation as a Gadget snapshot.
type gadgetOpts struct {
	Files    int
	X64, V64 bool
	IDSize   int
	Sorted   bool
	Empty    bool    // include a file without particles
	XU, VU   float64 // stored value = value / unit
	MU       float64
}

// writeGadget stores the simulation; s.Xs are taken to be in file units already when XU==1.
func (s *Sim) writeGadget(r *rand.Rand, dir string, o gadgetOpts, xs, vs [][3]float64, L float64, mass float64) {
	if err := os.MkdirAll(dir, 0755); err != nil {
		panic(err)
	}
	n := len(xs)
	perm := r.Perm(n)
	if o.Sorted {
		for i := range perm {
			perm[i] = i
		}
	}
	cuts := []int{0}
	for i := 1; i < o.Files; i++ {
		cuts = append(cuts, r.Intn(n+1))
	}
	cuts = append(cuts, n)
	sortInts(cuts)
	if o.Empty && o.Files > 1 {
		cuts[1] = cuts[0]
	}
	names := r.Perm(len(cuts))
	for f := 0; f+1 < len(cuts); f++ {
		g := &Gadget{X64: o.X64, V64: o.V64, IDSize: o.IDSize}
		h := &g.Hd
		h.NPart[1], h.NPartTotal[1] = uint32(cuts[f+1]-cuts[f]), uint32(n)
		h.Mass[1] = mass
		h.Time, h.Redshift = s.A, s.Z
		h.NumFiles = int32(o.Files)
		h.BoxSize, h.Omega0, h.OmegaLambda, h.HubbleParam = L, s.Om, s.Ol, s.H100
		for _, p := range perm[cuts[f]:cuts[f+1]] {
			g.Xs = append(g.Xs, xs[p])
			g.Vs = append(g.Vs, vs[p])
			g.IDs = append(g.IDs, int64(p+1))
		}
		b, _ := encodeGadget(g, binary.LittleEndian)
		if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("snap.%d", names[f])), b, 0644); err != nil {
			panic(err)
		}
	}
}

// writeSnap stores the simulation as it is.
func (s *Sim) writeSnap(r *rand.Rand, dir string, o gadgetOpts) {
	xs, vs := [][3]float64{}, [][3]float64{}
	for k := range s.Xs {
		var x, v [3]float64
		for j := range x {
			x[j], v[j] = float64(s.Xs[k][j]), float64(s.Vs[k][j])
		}
		xs, vs = append(xs, x), append(vs, v)
	}
	s.writeGadget(r, dir, o, xs, vs, s.L, s.Mass)
}

func sortInts(x []int) {
	for i := 1; i < len(x); i++ {
		for j := i; j > 0 && x[j] < x[j-1]; j-- {
			x[j], x[j-1] = x[j-1], x[j]
		}
	}
}
