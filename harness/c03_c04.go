package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"

	"github.com/phil-mansfield/gotetra/render/geom"
	gio "github.com/phil-mansfield/gotetra/render/io"
)

func randBits32(r *rand.Rand) float32 {
	switch r.Intn(8) {
	case 0:
		return math.Float32frombits([]uint32{0, 0x80000000, 0x7f800000, 0xff800000, 0x7fc00001, 0xffc12345, 1, 0x80000001, 0x7f7fffff, 0x3f800000}[r.Intn(10)])
	case 1, 2:
		return float32(r.NormFloat64())
	default:
		b := r.Uint32()
		// A signalling NaN may be quieted by a mere copy through a float register on some machines.
		if b&0x7f800000 == 0x7f800000 && b&0x7fffff != 0 {
			b |= 0x400000
		}
		return math.Float32frombits(b)
	}
}

func randSheet(r *rand.Rand, gw int, bits bool) *Sheet {
	s := &Sheet{}
	f := func() float64 {
		if bits && r.Intn(3) == 0 {
			x := math.Float64frombits(r.Uint64())
			if math.IsNaN(x) {
				return math.Copysign(0, -1)
			}
			return x
		}
		return r.ExpFloat64() * 100
	}
	v := func() V3 {
		if bits {
			return V3{randBits32(r), randBits32(r), randBits32(r)}
		}
		return V3{float32(r.NormFloat64()), float32(r.NormFloat64() * 100), float32(r.Float64())}
	}
	h := &s.Hd
	h.Z, h.OmegaM, h.OmegaL, h.H100, h.Mass, h.TotalWidth = f(), f(), f(), f(), f(), f()
	h.CountWidth = int64(1 + r.Intn(2000))
	h.Count = h.CountWidth * h.CountWidth * h.CountWidth
	h.GridWidth, h.SegmentWidth = int64(gw), int64(gw-1)
	h.GridCount = int64(gw * gw * gw)
	h.Idx, h.Cells = int64(r.Intn(1<<20)), int64(1+r.Intn(100))
	h.Origin, h.Width, h.VOrigin, h.VWidth = v(), v(), v(), v()
	n := gw * gw * gw
	s.Xs, s.Vs = make([]V3, n), make([]V3, n)
	for i := range s.Xs {
		s.Xs[i], s.Vs[i] = v(), v()
	}
	return s
}

func toGeom(xs []V3) []geom.Vec {
	out := make([]geom.Vec, len(xs))
	for i := range xs {
		out[i] = geom.Vec(xs[i])
	}
	return out
}

func toSheetHeader(h *SheetHd) *gio.SheetHeader {
	o := &gio.SheetHeader{}
	o.Cosmo = gio.CosmologyHeader{Z: h.Z, OmegaM: h.OmegaM, OmegaL: h.OmegaL, H100: h.H100}
	o.Count, o.CountWidth, o.SegmentWidth, o.GridWidth, o.GridCount = h.Count, h.CountWidth, h.SegmentWidth, h.GridWidth, h.GridCount
	o.Idx, o.Cells, o.Mass, o.TotalWidth = h.Idx, h.Cells, h.Mass, h.TotalWidth
	o.Origin, o.Width = geom.Vec(h.Origin), geom.Vec(h.Width)
	o.VelocityOrigin, o.VelocityWidth = geom.Vec(h.VOrigin), geom.Vec(h.VWidth)
	return o
}

func fromSheetHeader(o *gio.SheetHeader) *SheetHd {
	h := &SheetHd{}
	h.Z, h.OmegaM, h.OmegaL, h.H100 = o.Cosmo.Z, o.Cosmo.OmegaM, o.Cosmo.OmegaL, o.Cosmo.H100
	h.Count, h.CountWidth, h.SegmentWidth, h.GridWidth, h.GridCount = o.Count, o.CountWidth, o.SegmentWidth, o.GridWidth, o.GridCount
	h.Idx, h.Cells, h.Mass, h.TotalWidth = o.Idx, o.Cells, o.Mass, o.TotalWidth
	h.Origin, h.Width = V3(o.Origin), V3(o.Width)
	h.VOrigin, h.VWidth = V3(o.VelocityOrigin), V3(o.VelocityWidth)
	return h
}

func hdBytes(h *SheetHd) []byte {
	var b bytes.Buffer
	binary.Write(&b, binary.LittleEndian, h)
	return b.Bytes()
}

func fromGeom(xs []geom.Vec) []V3 {
	out := make([]V3, len(xs))
	for i := range xs {
		out[i] = V3(xs[i])
	}
	return out
}

const canary = float32(-1.2345e30)

// guarded returns a buffer of n vectors inside a larger slice of canaries.
func guarded(n int) (all, buf []geom.Vec) {
	all = make([]geom.Vec, n+8)
	for i := range all {
		all[i] = geom.Vec{canary, canary, canary}
	}
	return all, all[4 : 4+n]
}

func guardOK(all []geom.Vec) bool {
	n := len(all)
	for i := 0; i < 4; i++ {
		for k := 0; k < 3; k++ {
			if all[i][k] != canary || all[n-1-i][k] != canary {
				return false
			}
		}
	}
	return true
}

// checkSheetRead reads a good file with gotetra and compares with s.
func checkSheetRead(t *T, tag, file string, s *Sheet) {
	hd := &gio.SheetHeader{}
	var err error
	if !t.NoPanic(tag+"/read-panic", func() { err = gio.ReadSheetHeaderAt(file, hd) }) {
		return
	}
	t.Eval(3)
	if err != nil {
		t.Failf(tag+"/header-error", "reading a good header: %v", err)
		return
	}
	if !bytes.Equal(hdBytes(fromSheetHeader(hd)), hdBytes(&s.Hd)) {
		t.Failf(tag+"/header", "header read %+v, want %+v", *hd, s.Hd)
	}
	for k, want := range [][]V3{s.Xs, s.Vs} {
		all, buf := guarded(len(want))
		name := []string{"positions", "velocities"}[k]
		if !t.NoPanic(tag+"/read-panic", func() {
			if k == 0 {
				err = gio.ReadSheetPositionsAt(file, buf)
			} else {
				err = gio.ReadSheetVelocitiesAt(file, buf)
			}
		}) {
			return
		}
		if err != nil {
			t.Failf(tag+"/"+name+"-error", "reading good %s: %v", name, err)
			continue
		}
		if !bytes.Equal(encodeV3(fromGeom(buf), binary.LittleEndian), encodeV3(want, binary.LittleEndian)) {
			t.Failf(tag+"/"+name, "%s differ from those written (grid width %d)", name, s.Hd.GridWidth)
		}
		if !guardOK(all) {
			t.Failf(tag+"/guard", "reading %s wrote outside the supplied buffer", name)
		}
		t.Count("vectors_compared", len(want))
	}
}

func c03Round(t *T, i int) {
	gws := []int{1, 2, 3, 4, 5, 8, 9, 17}
	gw := gws[i%len(gws)]
	if t.Thorough && i%50 == 49 {
		gw = 65
	}
	if i%12 == 11 {
		gw = []int{33, 65, 71, 90}[i/12%4]
	}
	s := randSheet(t.R, gw, i%3 != 0)
	file := filepath.Join(t.Dir, "s.dat")
	hd := toSheetHeader(&s.Hd)
	xs, vs := toGeom(s.Xs), toGeom(s.Vs)
	hd0 := *hd
	t.NoPanic("round/write-panic", func() { gio.WriteSheet(file, hd, xs, vs) })
	t.Eval(1)
	if !bytes.Equal(hdBytes(fromSheetHeader(&hd0)), hdBytes(fromSheetHeader(hd))) {
		t.Failf("round/header-changed", "WriteSheet changed the caller's header")
	}
	if !bytes.Equal(encodeV3(fromGeom(xs), binary.LittleEndian), encodeV3(s.Xs, binary.LittleEndian)) ||
		!bytes.Equal(encodeV3(fromGeom(vs), binary.LittleEndian), encodeV3(s.Vs, binary.LittleEndian)) {
		t.Failf("round/data-changed", "WriteSheet changed the caller's vectors")
	}
	b, err := os.ReadFile(file)
	if err != nil {
		t.Failf("round/no-file", "WriteSheet wrote no file: %v", err)
		return
	}
	if d, err := decodeSheet(b); err != nil {
		t.Failf("round/format", "file written is malformed: %v", err)
	} else if !bytes.Equal(encodeSheet(d, binary.LittleEndian), encodeSheet(s, binary.LittleEndian)) {
		t.Failf("round/bytes", "bytes on disk do not hold the header and vectors given")
	}
	checkSheetRead(t, "round", file, s)
	// rewriting over a longer file leaves no trace of it
	s2 := randSheet(t.R, 1+t.R.Intn(gw), true)
	t.NoPanic("round/write-panic", func() { gio.WriteSheet(file, toSheetHeader(&s2.Hd), toGeom(s2.Xs), toGeom(s2.Vs)) })
	checkSheetRead(t, "rewrite", file, s2)
	if fi, err := os.Stat(file); err == nil && fi.Size() != int64(8+sheetHdSize+24*len(s2.Xs)) {
		t.Failf("rewrite/size", "rewritten file has %d bytes", fi.Size())
	}
	// files of either order made by an independent writer
	for k, o := range []binary.ByteOrder{binary.LittleEndian, binary.BigEndian} {
		f := filepath.Join(t.Dir, fmt.Sprintf("o%d.dat", k))
		os.WriteFile(f, encodeSheet(s, o), 0644)
		checkSheetRead(t, []string{"le", "be"}[k], f, s)
	}
	t.Nontrivial("round %d %x", gw, encodeV3(s.Xs[:1], binary.LittleEndian))
	t.Sample("grid width %d, header %+v, first vector %v", gw, s.Hd, s.Xs[0])
}

func c03Trunc(t *T, i int) {
	gw := []int{1, 2, 3, 5, 9}[i%5]
	order := []binary.ByteOrder{binary.LittleEndian, binary.BigEndian}[(i/5)%2]
	s := randSheet(t.R, gw, false)
	b := encodeSheet(s, order)
	file := filepath.Join(t.Dir, "s.dat")
	hdEnd := 8 + sheetHdSize
	xEnd := hdEnd + 12*len(s.Xs)
	points := map[int]bool{}
	if len(b) <= 2000 {
		for n := 0; n <= len(b); n++ {
			points[n] = true
		}
	} else {
		for _, c := range []int{0, 4, 8, hdEnd, xEnd, len(b)} {
			for d := -13; d <= 13; d++ {
				if n := c + d; n >= 0 && n <= len(b) {
					points[n] = true
				}
			}
		}
		for k := 0; k < 200; k++ {
			points[t.R.Intn(len(b)+1)] = true
		}
	}
	for n := 0; n <= len(b); n++ {
		if !points[n] {
			continue
		}
		if err := os.WriteFile(file, b[:n], 0644); err != nil {
			panic(err)
		}
		for k, end := range []int{hdEnd, xEnd, len(b)} {
			hd := &gio.SheetHeader{}
			buf := make([]geom.Vec, len(s.Xs))
			var err error
			p, _ := Panics(func() {
				switch k {
				case 0:
					err = gio.ReadSheetHeaderAt(file, hd)
				case 1:
					err = gio.ReadSheetPositionsAt(file, buf)
				case 2:
					err = gio.ReadSheetVelocitiesAt(file, buf)
				}
			})
			t.Eval(1)
			what := []string{"header", "positions", "velocities"}[k]
			if n < end && !p && err == nil {
				t.Failf("trunc/"+what, "file cut at byte %d of %d (block ends at %d): reading %s reported success", n, len(b), end, what)
			}
			if n >= end {
				if p || err != nil {
					t.Failf("trunc/"+what+"-refused", "file cut at byte %d: %s end at %d but were refused (%v)", n, what, end, err)
				} else if k == 1 && !bytes.Equal(encodeV3(fromGeom(buf), order), encodeV3(s.Xs, order)) ||
					k == 2 && !bytes.Equal(encodeV3(fromGeom(buf), order), encodeV3(s.Vs, order)) {
					t.Failf("trunc/"+what+"-values", "file cut at %d: %s wrong", n, what)
				}
			}
		}
	}
	t.Count("truncation_points", len(points))
	t.Nontrivial("trunc %d %v", gw, order)
	t.Sample("%d truncation points of a %d byte file, %v", len(points), len(b), order)
}

func c03Bad(t *T, i int) {
	gw := 2 + t.R.Intn(4)
	s := randSheet(t.R, gw, false)
	order := []binary.ByteOrder{binary.LittleEndian, binary.BigEndian}[i%2]
	b := encodeSheet(s, order)
	file := filepath.Join(t.Dir, "s.dat")
	n := len(s.Xs)
	try := func(site, what, f string, n int, header bool) {
		if header {
			t.Refuses(site, "header of "+what, func() error { return gio.ReadSheetHeaderAt(f, &gio.SheetHeader{}) })
		}
		t.Refuses(site, "positions of "+what, func() error { return gio.ReadSheetPositionsAt(f, make([]geom.Vec, n)) })
		t.Refuses(site, "velocities of "+what, func() error { return gio.ReadSheetVelocitiesAt(f, make([]geom.Vec, n)) })
		t.Nontrivial("%s %s", site, what)
	}
	try("bad/missing", "a missing file", filepath.Join(t.Dir, "nope.dat"), n, true)
	try("bad/dir", "a directory", t.Dir, n, true)
	for k := 0; k < 40; k++ {
		flag := []int32{1, 2, -2, 256, 1 << 24, math.MaxInt32, math.MinInt32, 255, -256}[k%9]
		if k >= 9 {
			flag = int32(t.R.Uint32())
		}
		if flag == 0 || flag == -1 {
			continue
		}
		c := append([]byte{}, b...)
		binary.LittleEndian.PutUint32(c, uint32(flag))
		os.WriteFile(file, c, 0644)
		try("bad/flag", fmt.Sprintf("a file with byte-order flag %d", flag), file, n, true)
	}
	for k := 0; k < 40; k++ {
		sz := []int32{0, 151, 153, -152, -1744830464, 144, 160, 1}[k%8]
		if k >= 8 {
			sz = int32(t.R.Uint32())
		}
		if sz == 152 {
			continue
		}
		c := append([]byte{}, b...)
		order.PutUint32(c[4:], uint32(sz))
		os.WriteFile(file, c, 0644)
		try("bad/size", fmt.Sprintf("a file with header size %d", sz), file, n, true)
	}
	// right flag and size in the wrong byte order
	c := append([]byte{}, b...)
	binary.BigEndian.PutUint32(c[4:], 152)
	binary.LittleEndian.PutUint32(c, 0)
	os.WriteFile(file, c, 0644)
	try("bad/size-order", "a little-endian file with a big-endian header size", file, n, true)
	os.WriteFile(file, b, 0644)
	for _, m := range []int{0, 1, n - 1, n + 1, 2 * n, n / 2} {
		if m != n {
			try("bad/length", fmt.Sprintf("a file of %d vectors into a buffer of %d", n, m), file, m, false)
		}
	}
	// ... also when there are bytes after the blocks
	os.WriteFile(file, append(append([]byte{}, b...), make([]byte, 50*n)...), 0644)
	for _, m := range []int{0, n - 1, n + 1, n + 4, 2 * n} {
		try("bad/length-padded", fmt.Sprintf("a file of %d vectors followed by other bytes into a buffer of %d", n, m), file, m, false)
	}
	t.Sample("bad flags, sizes, lengths on a %d-vector file (%v)", n, order)
}

////////////////////////////////////////////////////////////////////////////////

func randGadget(r *rand.Rand, n int, x64, v64 bool, idSize int) *Gadget {
	g := &Gadget{X64: x64, V64: v64, IDSize: idSize}
	h := &g.Hd
	h.NPart[1] = uint32(n)
	h.NPartTotal[1] = uint32(n * (1 + r.Intn(4)))
	for i := range h.Mass {
		h.Mass[i] = r.Float64() * 10
	}
	h.Time = 0.01 + r.Float64()
	h.Redshift = 1/h.Time - 1
	if r.Intn(3) == 0 {
		h.Redshift = []float64{0, 1, 30, r.Float64() * 10}[r.Intn(4)] // not tied to the time
	}
	h.BoxSize = []float64{100, 62.5, 1, 125, 1000, 33.3, 1e5, 2.5e5, 3e6, 0.01}[r.Intn(10)]
	h.Omega0, h.OmegaLambda, h.HubbleParam = r.Float64(), r.Float64(), r.Float64()
	if r.Intn(4) == 0 {
		h.Omega0, h.OmegaLambda, h.HubbleParam = float64(r.Intn(2)), float64(r.Intn(2)), 1
	}
	if r.Intn(4) == 0 {
		h.NPartTotal[1] = []uint32{1 << 31, 1<<32 - 1, 1500 * 1500 * 1500 % (1 << 32), 1290 * 1290 * 1290, 1 << 30}[r.Intn(5)]
		h.Mass[1] = []float64{0, 1e-6, 1e12}[r.Intn(3)]
	}
	h.FlagSfr, h.NumFiles = 3, 7
	g.Xs, g.Vs, g.IDs = make([][3]float64, n), make([][3]float64, n), make([]int64, n)
	L := h.BoxSize
	for i := range g.Xs {
		for k := 0; k < 3; k++ {
			switch r.Intn(10) {
			case 0:
				g.Xs[i][k] = []float64{0, L, math.Nextafter(L, 0), math.Copysign(0, -1), -1e-12 * L, -L / 2, 1.5 * L, 1e-30, -1e-30,
					float64(math.Nextafter32(float32(L), 0)), float64(math.Nextafter32(float32(L), 1e9)), -1e-7 * L}[r.Intn(12)]
			case 1:
				g.Xs[i][k] = (r.Float64()*2 - 0.5) * L
			default:
				g.Xs[i][k] = r.Float64() * L
			}
			g.Vs[i][k] = r.NormFloat64() * 500
			if r.Intn(20) == 0 {
				g.Vs[i][k] = 0
			}
		}
		if idSize == 64 {
			g.IDs[i] = r.Int63()
			if r.Intn(4) == 0 {
				g.IDs[i] = int64(1 + i)
			}
		} else {
			g.IDs[i] = int64(r.Int31())
		}
	}
	return g
}

func orderOf(i int) binary.ByteOrder {
	if i%2 == 0 {
		return binary.LittleEndian
	}
	return binary.BigEndian
}

func relClose(a, b, tol float64) bool {
	return math.Abs(a-b) <= tol*math.Max(math.Abs(a), math.Abs(b)) || a == b
}

func checkCatalogHeader(t *T, tag string, hd *gio.CatalogHeader, h *GadgetHd) {
	t.Eval(1)
	if hd.Count != int64(h.NPart[1]) || hd.TotalCount != int64(h.NPartTotal[1]) {
		t.Failf(tag+"/counts", "counts %d, %d; file says %d, %d", hd.Count, hd.TotalCount, h.NPart[1], h.NPartTotal[1])
	}
	if hd.Mass != h.Mass[1] || hd.TotalWidth != h.BoxSize {
		t.Failf(tag+"/mass-width", "mass %g, width %g; file says %g, %g", hd.Mass, hd.TotalWidth, h.Mass[1], h.BoxSize)
	}
	c := hd.Cosmo
	if c.Z != h.Redshift || c.OmegaM != h.Omega0 || c.OmegaL != h.OmegaLambda || c.H100 != h.HubbleParam {
		t.Failf(tag+"/cosmo", "cosmology %+v; file says z=%g %g %g %g", c, h.Redshift, h.Omega0, h.OmegaLambda, h.HubbleParam)
	}
}

func checkGadgetParticles(t *T, tag string, g *Gadget, xs, vs []geom.Vec, ids []int64) {
	if len(xs) != len(g.Xs) || len(vs) != len(g.Xs) || len(ids) != len(g.Xs) {
		t.Failf(tag+"/length", "returned %d %d %d particles of %d", len(xs), len(vs), len(ids), len(g.Xs))
		return
	}
	L := g.Hd.BoxSize
	ra := math.Sqrt(g.Hd.Time)
	t.Eval(len(xs))
	t.Count("particles_compared", len(xs))
	for i := range xs {
		if ids[i] != g.IDs[i] {
			t.Failf(tag+"/id", "particle %d has ID %d, file says %d", i, ids[i], g.IDs[i])
			return
		}
		for k := 0; k < 3; k++ {
			x := g.Xs[i][k]
			if !g.X64 {
				x = float64(float32(x))
			}
			want := x
			if x < 0 {
				want += L
			} else if x >= L {
				want -= L
			}
			got := float64(xs[i][k])
			d := math.Abs(got - want)
			if d > L/2 {
				d = math.Abs(d - L) // rounding across the face
			}
			if d > 2.5e-7*L {
				t.Failf(tag+"/position", "particle %d axis %d: %.9g in file (box %g), read as %.9g, want %.9g", i, k, x, L, got, want)
				return
			}
			if !(got >= 0 && got < L) {
				t.Failf(tag+"/position-range", "particle %d axis %d: %.17g in file read as %.17g, outside [0, %g)", i, k, x, got, L)
				return
			}
			v := g.Vs[i][k] * ra
			if math.Abs(float64(vs[i][k])-v) > 4e-7*math.Abs(v) {
				t.Failf(tag+"/velocity", "particle %d axis %d: velocity %.9g * sqrt(%g) read as %.9g", i, k, g.Vs[i][k], g.Hd.Time, vs[i][k])
				return
			}
		}
	}
}

func c04Read(t *T, i int) {
	x64, v64, idSize, order := i&1 != 0, i&2 != 0, 32+32*(i>>2&1), orderOf(i>>3)
	n := []int{0, 1, 2, 7, 100, 1000}[(i>>4)%6]
	if i >= 96 {
		n = t.R.Intn(3000)
	}
	if i >= 96 && i%9 == 0 {
		n = []int{4096, 4097, 5003, 10007, 32768, 40000, 65537, 100003}[i/9%8]
	}
	g := randGadget(t.R, n, x64, v64, idSize)
	b, _ := encodeGadget(g, order)
	file := filepath.Join(t.Dir, "g.0")
	os.WriteFile(file, b, 0644)
	variant := []string{"LGadget-2", "Arepo-type-2"}[i%2]
	tag := fmt.Sprintf("read-%s", map[bool]string{true: "be", false: "le"}[order == binary.BigEndian])
	t.NoPanic(tag+"/panic", func() {
		hd := gio.ReadGadgetHeader(file, order, variant)
		checkCatalogHeader(t, tag, hd, &g.Hd)
		hd2, xs, vs, ids := gio.ReadGadget(file, order, idSize, variant)
		checkCatalogHeader(t, tag, hd2, &g.Hd)
		checkGadgetParticles(t, tag, g, xs, vs, ids)
		// a second read into used, guarded buffers
		ax, bx := guarded(n)
		av, bv := guarded(n)
		ai := make([]int64, n+8)
		for k := range ai {
			ai[k] = -77
		}
		gio.ReadGadgetParticlesAt(file, order, bx, bv, ai[4:4+n], idSize, variant)
		checkGadgetParticles(t, tag, g, bx, bv, ai[4:4+n])
		if !guardOK(ax) || !guardOK(av) || ai[3] != -77 || ai[4+n] != -77 || ai[0] != -77 || ai[n+7] != -77 {
			t.Failf(tag+"/guard", "wrote outside the buffers")
		}
	})
	t.Nontrivial("%v %v %d %v %d", x64, v64, idSize, order, n)
	t.Sample("n=%d x64=%v v64=%v ids=%d %v box=%g time=%g", n, x64, v64, idSize, order, g.Hd.BoxSize, g.Hd.Time)
}

func gadgetRefused(t *T, site, what, file string, order binary.ByteOrder, n, idSize int) {
	t.Refuses(site, what, func() error {
		gio.ReadGadgetParticlesAt(file, order, make([]geom.Vec, n), make([]geom.Vec, n), make([]int64, n), idSize, "LGadget-2")
		return nil
	})
}

func c04Trunc(t *T, i int) {
	x64, v64, idSize, order := i&1 != 0, i&2 != 0, 32+32*(i>>2&1), orderOf(i>>3)
	n := 1 + i%4
	if i >= 16 {
		n = 50 + t.R.Intn(200)
	}
	g := randGadget(t.R, n, x64, v64, idSize)
	b, lay := encodeGadget(g, order)
	file := filepath.Join(t.Dir, "g.0")
	pts := 0
	for m := 0; m < len(b); m++ {
		near := false
		for _, c := range []int{4, lay.hdEnd, lay.xEnd, lay.vEnd, lay.idEnd} {
			if m > c-12 && m < c+12 {
				near = true
			}
		}
		if n > 10 && !near && t.R.Intn(len(b)) > 150 {
			continue
		}
		pts++
		os.WriteFile(file, b[:m], 0644)
		if m < lay.hdEnd {
			t.Refuses("trunc/header", fmt.Sprintf("header cut at byte %d", m), func() error {
				gio.ReadGadgetHeader(file, order, "LGadget-2")
				return nil
			})
		}
		if m < lay.idEnd {
			gadgetRefused(t, "trunc/particles", fmt.Sprintf("a file cut at byte %d of %d (header ends %d, positions %d, velocities %d, ids %d)",
				m, len(b), lay.hdEnd, lay.xEnd, lay.vEnd, lay.idEnd), file, order, n, idSize)
			t.Refuses("trunc/readgadget", fmt.Sprintf("ReadGadget of a file cut at byte %d of %d", m, len(b)), func() error {
				gio.ReadGadget(file, order, idSize, "LGadget-2")
				return nil
			})
		}
	}
	t.Count("truncation_points", pts)
	t.Nontrivial("trunc %d %d", i, n)
	t.Sample("%d truncation points of %d bytes: n=%d x64=%v v64=%v id=%d %v", pts, len(b), n, x64, v64, idSize, order)
}

func c04Bad(t *T, i int) {
	x64, v64, idSize, order := i&1 != 0, i&2 != 0, 32+32*(i>>2&1), orderOf(i>>3)
	n := 2 + t.R.Intn(30)
	g := randGadget(t.R, n, x64, v64, idSize)
	b, lay := encodeGadget(g, order)
	file := filepath.Join(t.Dir, "g.0")
	gadgetRefused(t, "bad/missing", "a missing file", filepath.Join(t.Dir, "nope"), order, n, idSize)
	t.Refuses("bad/missing", "header of a missing file", func() error {
		gio.ReadGadgetHeader(filepath.Join(t.Dir, "nope"), order, "LGadget-2")
		return nil
	})
	for k := 0; k < 30; k++ {
		sz := []int32{0, 1, int32(12*n - 1), int32(12*n + 1), int32(24*n + 12), int32(36 * n), -1, int32(6 * n), int32(12 * (n - 1)), int32(12 * (n + 1))}[k%10]
		if k >= 10 {
			sz = int32(t.R.Intn(100 * n))
		}
		if sz == int32(12*n) || sz == int32(24*n) {
			continue
		}
		for blk, off := range []int{264, lay.xEnd + 4} {
			c := append([]byte{}, b...)
			order.PutUint32(c[off:], uint32(sz))
			os.WriteFile(file, c, 0644)
			gadgetRefused(t, "bad/block-size-"+[]string{"x", "v"}[blk], fmt.Sprintf("a block marker of %d for %d particles", sz, n), file, order, n, idSize)
		}
	}
	os.WriteFile(file, b, 0644)
	for _, id := range []int{0, 16, 8, 63, 65, 128, -32, 1} {
		gadgetRefused(t, "bad/id-size", fmt.Sprintf("ID size %d", id), file, order, n, id)
		t.Nontrivial("id %d", id)
	}
	for k := 0; k < 3; k++ {
		for _, d := range []int{-1, 1, n, -n} {
			l := []int{n, n, n}
			l[k] += d
			t.Refuses("bad/buffer", fmt.Sprintf("buffers of lengths %v for %d particles", l, n), func() error {
				gio.ReadGadgetParticlesAt(file, order, make([]geom.Vec, l[0]), make([]geom.Vec, l[1]), make([]int64, l[2]), idSize, "LGadget-2")
				return nil
			})
			t.Nontrivial("buf %d %d", k, d)
		}
	}
	t.Sample("bad markers, ID sizes, buffers on %d particles %v", n, order)
}

func init() {
	register("C03", "Sheets of grid width 1-90 with random float bit patterns are written by gotetra and by an independent encoder in both byte orders, read back and compared bit for bit (buffers sit between canaries); small files are cut at every byte and large ones at every block edge and random bytes; flags, header sizes and buffer lengths are corrupted. Distinct = different grid width and content, or different damage.",
		Group{"round", 48, 600, 1, c03Round}, Group{"trunc", 10, 30, 2, c03Trunc}, Group{"bad", 8, 60, 1, c03Bad}, Group{"mismatch", 12, 100, 1, c03Mismatch})
	ops["sheetwrite"] = opSheetWrite
	register("C04", "Gadget files made by an independent encoder over every combination of position/velocity precision, ID size and byte order, 0-100003 particles, positions on and just outside the faces; every truncation byte of small files; corrupted block markers, ID sizes and buffer lengths. Distinct = combination and count, or kind of damage.",
		Group{"read", 200, 1500, 1, c04Read}, Group{"trunc", 20, 80, 2, c04Trunc}, Group{"bad", 16, 100, 1, c04Bad})
	levels["C03"], levels["C04"] = "fault_enumeration", "fault_enumeration"
}

// opSheetWrite writes a sheet whose header asks for a grid of other sizes than the payload has.
func opSheetWrite(a []string) {
	n := make([]int64, 4)
	for i := range n {
		fmt.Sscan(a[i+1], &n[i])
	}
	gio.WriteSheet(a[0], &gio.SheetHeader{GridWidth: n[0], GridCount: n[1], SegmentWidth: n[0] - 1, CountWidth: 8, Cells: 4, TotalWidth: 1},
		make([]geom.Vec, n[2]), make([]geom.Vec, n[3]))
}

func c03Mismatch(t *T, i int) {
	gw := 1 + t.R.Intn(9)
	n := gw * gw * gw
	other := func() int {
		for {
			k := []int{0, 1, n - 1, n + 1, 2 * n, (gw + 1) * (gw + 1) * (gw + 1), gw * gw}[t.R.Intn(7)]
			if k != n {
				return k
			}
		}
	}
	v := []int{gw, n, n, n}
	switch i % 4 {
	case 0:
		v[1] = other()
		v[2], v[3] = v[1], v[1]
	case 1:
		v[2] = other()
	case 2:
		v[3] = other()
	case 3:
		v[1] = other()
	}
	what := fmt.Sprintf("a sheet of grid width %d, count %d with %d positions and %d velocities", v[0], v[1], v[2], v[3])
	f := filepath.Join(t.Dir, "m.dat")
	t.opRefused("mismatch", what, "sheetwrite", f, fmt.Sprint(v[0]), fmt.Sprint(v[1]), fmt.Sprint(v[2]), fmt.Sprint(v[3]))
	if _, err := os.Stat(f); err == nil {
		t.Failf("mismatch/file", "%s was refused, but a file was written", what)
	}
	t.Nontrivial("%v", v)
}
