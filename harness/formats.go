package main

// Independent readers and writers of the byte formats: sheet segments, Gadget-2 snapshots, .gtet
// grids. Nothing here uses gotetra code.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"path/filepath"
)

type V3 [3]float32

type SheetHd struct {
	Z, OmegaM, OmegaL, H100                                           float64
	Count, CountWidth, SegmentWidth, GridWidth, GridCount, Idx, Cells int64
	Mass, TotalWidth                                                  float64
	Origin, Width, VOrigin, VWidth                                    V3
}

const sheetHdSize = 152

type Sheet struct {
	Hd     SheetHd
	Xs, Vs []V3
	Order  binary.ByteOrder
}

func encodeSheet(s *Sheet, order binary.ByteOrder) []byte {
	var b bytes.Buffer
	flag := int32(0)
	if order == binary.BigEndian {
		flag = -1
	}
	binary.Write(&b, order, flag)
	binary.Write(&b, order, int32(sheetHdSize))
	binary.Write(&b, order, &s.Hd)
	b.Write(encodeV3(s.Xs, order))
	b.Write(encodeV3(s.Vs, order))
	return b.Bytes()
}

func encodeV3(xs []V3, order binary.ByteOrder) []byte {
	out := make([]byte, 12*len(xs))
	for i := range xs {
		for k := 0; k < 3; k++ {
			order.PutUint32(out[12*i+4*k:], math.Float32bits(xs[i][k]))
		}
	}
	return out
}

func decodeV3(b []byte, n int, order binary.ByteOrder) []V3 {
	xs := make([]V3, n)
	for i := range xs {
		for k := 0; k < 3; k++ {
			xs[i][k] = math.Float32frombits(order.Uint32(b[12*i+4*k:]))
		}
	}
	return xs
}

func decodeSheet(b []byte) (*Sheet, error) {
	if len(b) < 8+sheetHdSize {
		return nil, fmt.Errorf("sheet file of %d bytes", len(b))
	}
	var order binary.ByteOrder = binary.LittleEndian
	switch int32(binary.LittleEndian.Uint32(b)) {
	case 0:
	case -1:
		order = binary.BigEndian
	default:
		return nil, fmt.Errorf("byte order flag %x", b[:4])
	}
	if n := int32(order.Uint32(b[4:])); n != sheetHdSize {
		return nil, fmt.Errorf("header size %d", n)
	}
	s := &Sheet{Order: order}
	if err := binary.Read(bytes.NewReader(b[8:]), order, &s.Hd); err != nil {
		return nil, err
	}
	n := int(s.Hd.GridCount)
	if n < 0 || len(b) != 8+sheetHdSize+24*n {
		return nil, fmt.Errorf("file has %d bytes, header's GridCount %d implies %d", len(b), n, 8+sheetHdSize+24*n)
	}
	s.Xs = decodeV3(b[8+sheetHdSize:], n, order)
	s.Vs = decodeV3(b[8+sheetHdSize+12*n:], n, order)
	return s, nil
}

func readSheetFile(name string) (*Sheet, error) {
	b, err := os.ReadFile(name)
	if err != nil {
		return nil, err
	}
	return decodeSheet(b)
}

// Gadget-2

type GadgetHd struct {
	NPart                                     [6]uint32
	Mass                                      [6]float64
	Time, Redshift                            float64
	FlagSfr, FlagFeedback                     int32
	NPartTotal                                [6]uint32
	FlagCooling, NumFiles                     int32
	BoxSize, Omega0, OmegaLambda, HubbleParam float64
	FlagStellarAge, HashTabSize               int32
	Padding                                   [88]byte
}

type Gadget struct {
	Hd       GadgetHd
	Xs, Vs   [][3]float64
	IDs      []int64
	X64, V64 bool // precision of the position and velocity blocks
	IDSize   int
}

// gadgetLayout gives the offsets of the ends of the parts of an encoded file.
type gadgetLayout struct{ hdEnd, xEnd, vEnd, idEnd, total int }

func encodeGadget(g *Gadget, order binary.ByteOrder) ([]byte, gadgetLayout) {
	var b bytes.Buffer
	var lay gadgetLayout
	i32 := func(n int) { binary.Write(&b, order, int32(n)) }
	i32(256)
	binary.Write(&b, order, &g.Hd)
	lay.hdEnd = b.Len()
	i32(256)
	block := func(xs [][3]float64, wide bool) int {
		sz := 12 * len(xs)
		if wide {
			sz *= 2
		}
		i32(sz)
		for _, x := range xs {
			for k := 0; k < 3; k++ {
				if wide {
					binary.Write(&b, order, x[k])
				} else {
					binary.Write(&b, order, float32(x[k]))
				}
			}
		}
		end := b.Len()
		i32(sz)
		return end
	}
	lay.xEnd = block(g.Xs, g.X64)
	lay.vEnd = block(g.Vs, g.V64)
	i32(len(g.IDs) * g.IDSize / 8)
	for _, id := range g.IDs {
		if g.IDSize == 64 {
			binary.Write(&b, order, id)
		} else {
			binary.Write(&b, order, int32(id))
		}
	}
	lay.idEnd = b.Len()
	i32(len(g.IDs) * g.IDSize / 8)
	lay.total = b.Len()
	return b.Bytes(), lay
}

// .gtet

type GtetLoc struct {
	Origin, Span           [3]float64
	PixelOrigin, PixelSpan [3]int64
	PixelWidth             float64
}

type GtetHd struct {
	EndVersion                                uint64
	HeaderSize, GridType, IsVectorGrid        int64
	Redshift, ScaleFactor, OmegaM, OmegaL, H0 float64
	RhoMean, RhoCritical, BoxWidth            float64
	Particles, TotalPixels, Subsample         int64
	MinProjDepth, ProjAxis                    int64
	Loc, Vel                                  GtetLoc
}

const gtetHdSize = 344

type Gtet struct {
	Hd   GtetHd
	Vals [3][]float32 // one or three components
	N    int          // number of components
	Span [3]int       // payload's dimensions; 1 along the projected axis
	Raw  []byte
}

func (g *Gtet) Idx(x, y, z int) int { return x + g.Span[0]*(y+g.Span[1]*z) }

// decodeGtet parses a .gtet file without trusting it: the number of components comes from the
// quantity, the dimensions from the pixel span and projection axis.
func decodeGtet(b []byte) (*Gtet, error) {
	if len(b) < gtetHdSize {
		return nil, fmt.Errorf("grid file of %d bytes", len(b))
	}
	g := &Gtet{Raw: b}
	if err := binary.Read(bytes.NewReader(b), binary.LittleEndian, &g.Hd); err != nil {
		return nil, err
	}
	h := &g.Hd
	g.N = 1
	switch h.GridType {
	case 0, 3: // Density, VelocityDivergence
	case 1, 2, 4: // DensityGradient, Velocity, VelocityCurl
		g.N = 3
	default:
		return nil, fmt.Errorf("grid type %d", h.GridType)
	}
	n := 1
	for k := 0; k < 3; k++ {
		g.Span[k] = int(h.Loc.PixelSpan[k])
		if int(h.ProjAxis) == k {
			g.Span[k] = 1
		}
		if g.Span[k] < 1 || g.Span[k] > 1<<20 {
			return nil, fmt.Errorf("pixel span %v", h.Loc.PixelSpan)
		}
		n *= g.Span[k]
	}
	if len(b) != gtetHdSize+4*n*g.N {
		return nil, fmt.Errorf("payload of %d bytes; quantity %d, span %v, axis %d imply %d", len(b)-gtetHdSize,
			h.GridType, h.Loc.PixelSpan, h.ProjAxis, 4*n*g.N)
	}
	for c := 0; c < g.N; c++ {
		g.Vals[c] = make([]float32, n)
		for i := range g.Vals[c] {
			g.Vals[c][i] = math.Float32frombits(binary.LittleEndian.Uint32(b[gtetHdSize+4*(c*n+i):]))
		}
	}
	return g, nil
}

func readGtet(name string) (*Gtet, error) {
	b, err := os.ReadFile(name)
	if err != nil {
		return nil, err
	}
	g, err := decodeGtet(b)
	if err != nil {
		return nil, fmt.Errorf("%s: %v", filepath.Base(name), err)
	}
	return g, nil
}
