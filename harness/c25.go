package main

import (
	"fmt"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"

	"github.com/phil-mansfield/gotetra/cosmo"
	"github.com/phil-mansfield/gotetra/render/halo"
	rio "github.com/phil-mansfield/gotetra/render/io"
)

func init() {
	register("C25", "0-200 halos in grids of 1-9 cells a side and boxes of arbitrary width, at random positions, in clumps, on cell and box faces and up to one box outside; power-law and equal radii up to a quarter of the box, multipliers 0.1-3, repeated searches; spheres of any size in any box; catalogs of 0-60 halos with 62 or more columns, comments, every column and radius definition. Non-trivial: a distinct configuration with at least one overlapping pair (finder), or a distinct grid, sphere or catalog request.",
		Group{"grid", 4000, 100000, 1, rep(3, c25Grid)},
		Group{"finder", 5000, 150000, 2, rep(2, c25Finder)},
		Group{"bounds", 5000, 150000, 1, rep(10, c25Bounds)},
		Group{"catalog", 1500, 40000, 2, c25Catalog})
}

// boxPoint draws a coordinate; face reports whether it was put on a cell or box face.
func (t *T) boxPoint(cells int, w float64) float64 {
	r := t.R
	switch r.Intn(12) {
	case 0:
		return 0
	case 1:
		return w
	case 2:
		return math.Nextafter(w, 0)
	case 3:
		return -w * math.Pow(2, -float64(r.Intn(60)))
	case 4, 5:
		return w * float64(r.Intn(cells+1)) / float64(cells)
	case 6:
		return w * (1 + r.Float64())
	case 7:
		return -w * r.Float64()
	}
	return w * r.Float64()
}

func (t *T) boxWidth() float64 {
	switch t.R.Intn(4) {
	case 0:
		return 1
	case 1:
		return float64(1 + t.R.Intn(1000))
	}
	return math.Exp(t.R.NormFloat64() * 3)
}

func periodic(x, w float64) float64 {
	x = math.Mod(x, w)
	if x < 0 {
		x += w
	}
	return x
}

func c25Grid(t *T, i int) {
	r := t.R
	cells := 1 + r.Intn(9)
	w := t.boxWidth()
	n := r.Intn(60)
	if r.Intn(5) == 0 {
		n = r.Intn(200)
	}
	if r.Intn(100) == 0 {
		cells, n = 10+r.Intn(60), 1000+r.Intn(6000)
	}
	var p [3][]float64
	for d := range p {
		for j := 0; j < n; j++ {
			p[d] = append(p[d], t.boxPoint(cells, w))
		}
	}
	p0 := [3][]float64{clone(p[0]), clone(p[1]), clone(p[2])}
	var g *halo.Grid
	if !t.NoPanic("grid", func() { g = halo.NewGrid(cells, w, n); g.Insert(p[0], p[1], p[2]) }) {
		return
	}
	for d := range p {
		if !equalF(p[d], p0[d]) {
			t.Failf("grid", "Insert modified the positions")
			return
		}
	}
	if g.TotalCells() != cells*cells*cells {
		t.Failf("grid", "%d cells in a grid of %d a side", g.TotalCells(), cells)
		return
	}
	seen := make([]int, n)
	most, sum := 0, 0
	buf := make([]int, 0, n)
	cw := w / float64(cells)
	bad := !t.NoPanic("grid", func() {
		for c := 0; c < g.TotalCells(); c++ {
			buf = g.ReadIndexes(c, buf)
			if g.Length(c) != len(buf) {
				t.Failf("grid", "Length is %d for the list %v", g.Length(c), buf)
				return
			}
			sum += len(buf)
			if len(buf) > most {
				most = len(buf)
			}
			at := [3]int{c % cells, c / cells % cells, c / cells / cells}
			for _, j := range buf {
				if j < 0 || j >= n {
					t.Failf("grid", "cell %v lists object %d of %d", at, j, n)
					return
				}
				seen[j]++
				for d := range p {
					// The upper face of the box is its lower face.
					if x := p[d][j]; (x == w || x == 0) && at[d] != 0 {
						t.Failf("grid", "object %d at %g along axis %d of a box of %g is in cell %d of %d", j, x, d, w, at[d], cells)
						return
					}
					off := math.Abs(periodic(p[d][j]-(float64(at[d])+0.5)*cw+w/2, w) - w/2)
					if !(off <= cw/2+1e-12*w) {
						t.Failf("grid", "object %d at %g along axis %d of a box of %g is in cell %d of %d", j, p[d][j], d, w, at[d], cells)
						return
					}
				}
			}
		}
		for j, k := range seen {
			if k != 1 {
				t.Failf("grid", "object %d at (%g, %g, %g) is listed %d times", j, p[0][j], p[1][j], p[2][j], k)
				return
			}
		}
		if g.MaxLength() != most || g.AverageLength() != n/g.TotalCells() || sum != n {
			t.Failf("grid", "%d objects: MaxLength %d (longest list %d), AverageLength %d in %d cells", n, g.MaxLength(), most, g.AverageLength(), g.TotalCells())
		}
	})
	if bad || t.Failed() {
		return
	}
	t.Eval(n + 1)
	t.Nontrivial("grid/%d/%d/%d", cells, n, most)
}

func c25Finder(t *T, i int) {
	r := t.R
	cells := 1 + r.Intn(9)
	w := t.boxWidth()
	n := r.Intn(25)
	if r.Intn(4) == 0 {
		n = r.Intn(120)
	}
	if r.Intn(30) == 0 {
		n = 0
	}
	if r.Intn(200) == 0 {
		cells, n = 5+r.Intn(30), 300+r.Intn(1200)
	}
	mult := []float64{1, 1, 2, 0.5, 0.1 + 2.9*r.Float64()}[r.Intn(5)]
	calls := 1
	if r.Intn(3) == 0 {
		calls = 2 + r.Intn(2)
	}
	// Radii up to a quarter of the box once multiplied by the largest multiplier used.
	mults := []float64{mult}
	for len(mults) < calls {
		mults = append(mults, mult*(0.2+0.8*r.Float64()))
	}
	top := w / 4 / mult * 0.999
	rs := make([]float64, n)
	kind := []string{"power law", "equal", "uniform", "one large"}[r.Intn(4)]
	sz := math.Pow(10, -2*r.Float64())
	for j := range rs {
		switch kind {
		case "power law":
			rs[j] = top * sz * math.Min(1, 0.05/(r.Float64()+1e-3))
		case "equal":
			rs[j] = top * sz
		case "uniform":
			rs[j] = top * sz * r.Float64()
		case "one large":
			rs[j] = top * 0.05 * r.Float64()
			if j == 0 {
				rs[j] = top
			}
		}
	}
	if r.Intn(3) > 0 {
		sort.Sort(sort.Reverse(sort.Float64Slice(rs)))
	}
	clump := r.Intn(2) == 0
	var p [3][]float64
	var centre [3]float64
	for d := range p {
		centre[d] = t.boxPoint(cells, w)
		for j := 0; j < n; j++ {
			x := t.boxPoint(cells, w)
			if clump && r.Intn(3) > 0 { // around the clump, often across a face
				x = periodic(centre[d]+r.NormFloat64()*top*mult, w)
			} else {
				x = periodic(x, w)
			}
			if r.Intn(40) == 0 && x == 0 {
				x = w
			}
			p[d] = append(p[d], x)
		}
	}
	p0 := [3][]float64{clone(p[0]), clone(p[1]), clone(p[2])}
	r0 := clone(rs)
	var sf *halo.SubhaloFinder
	if !t.NoPanic("finder", func() {
		g := halo.NewGrid(cells, w, n)
		g.Insert(p[0], p[1], p[2])
		sf = halo.NewSubhaloFinder(g)
	}) {
		return
	}
	for c, mult := range mults {
		if !t.NoPanic("finder", func() { sf.FindSubhalos(p[0], p[1], p[2], rs, mult) }) {
			return
		}
		for j := range rs {
			if rs[j] != r0[j] {
				t.Failf("finder", "the radius %g became %g", r0[j], rs[j])
				return
			}
		}
		for d := range p {
			if !equalF(p[d], p0[d]) {
				t.Failf("finder", "FindSubhalos modified the positions")
				return
			}
		}
		pairs := 0
		desc := fmt.Sprintf("%d halos, %d cells, box %g, multiplier %g, call %d", n, cells, w, mult, c+1)
		ok := t.NoPanic("finder", func() {
			has := make([]map[int]bool, n)
			for j := 0; j < n; j++ {
				has[j] = map[int]bool{}
				is := sf.Intersects(j)
				if sf.IntersectCount(j) != len(is) || sf.HostCount(j) != len(sf.Hosts(j)) ||
					sf.SubhaloCount(j) != len(sf.Subhalos(j)) || len(sf.Hosts(j))+len(sf.Subhalos(j)) != len(is) {
					t.Failf("finder", "%s: halo %d has counts %d, %d, %d for intersections %v, hosts %v and subhalos %v", desc, j,
						sf.IntersectCount(j), sf.HostCount(j), sf.SubhaloCount(j), is, sf.Hosts(j), sf.Subhalos(j))
					return
				}
				for _, k := range is {
					if k < 0 || k >= n || k == j || has[j][k] {
						t.Failf("finder", "%s: halo %d intersects %v", desc, j, is)
						return
					}
					has[j][k] = true
				}
				for _, k := range sf.Hosts(j) {
					if k > j || !has[j][k] {
						t.Failf("finder", "%s: halo %d has the hosts %v among %v", desc, j, sf.Hosts(j), is)
						return
					}
				}
				for _, k := range sf.Subhalos(j) {
					if k < j || !has[j][k] {
						t.Failf("finder", "%s: halo %d has the subhalos %v among %v", desc, j, sf.Subhalos(j), is)
						return
					}
				}
			}
			for j := 0; j < n; j++ {
				for k := 0; k < n; k++ {
					if j == k {
						continue
					}
					d2 := 0.0
					for d := range p {
						x := math.Abs(p[d][j] - p[d][k])
						x = math.Min(x, w-x)
						d2 += x * x
					}
					gap := math.Sqrt(d2) - (r0[j]+r0[k])*mult
					if math.Abs(gap) < 1e-10*w {
						t.Count("touching pairs, skipped", 1)
						continue
					}
					if (gap < 0) != has[j][k] {
						t.Failf("finder", "%s: halos %d at (%g, %g, %g), radius %g, and %d at (%g, %g, %g), radius %g: distance %g, reported as intersecting: %v", desc,
							j, p[0][j], p[1][j], p[2][j], r0[j], k, p[0][k], p[1][k], p[2][k], r0[k], math.Sqrt(d2), has[j][k])
						return
					}
					if gap < 0 {
						pairs++
					}
				}
			}
		})
		if !ok || t.Failed() {
			return
		}
		t.Eval(n*n + 1)
		t.Count("overlapping pairs", pairs/2)
		if pairs > 0 {
			t.Nontrivial("finder/%d/%d/%s/%d/%d", cells, n, kind, c, pairs)
		}
	}
}

func c25Bounds(t *T, i int) {
	r := t.R
	cells := 1 + r.Intn(12)
	if r.Intn(50) == 0 {
		cells = 13 + r.Intn(60)
	}
	w := t.boxWidth()
	cw := w / float64(cells)
	var pos [3]float64
	for d := range pos {
		pos[d] = t.boxPoint(cells, w)
	}
	rad := w * math.Pow(10, -2.5*r.Float64())
	switch r.Intn(5) {
	case 0:
		rad *= 0.5
	case 1:
		rad = cw * float64(r.Intn(cells+1)) / 2
	default:
		rad *= 0.3
	}
	b := &halo.Bounds{}
	if !t.NoPanic("bounds", func() { b.SphereBounds(pos, rad, cw, w) }) {
		return
	}
	desc := fmt.Sprintf("a sphere of radius %g at %v among %d cells of a box of %g: origin %v, span %v", rad, pos, cells, w, b.Origin, b.Span)
	eps := 1e-11 * w
	for d := range pos {
		if b.Origin[d] < 0 || b.Origin[d] > cells || b.Span[d] < 1 || b.Span[d] > cells {
			t.Failf("bounds", "%s", desc)
			return
		}
		in := make([]bool, cells)
		for k := 0; k < b.Span[d]; k++ {
			in[(b.Origin[d]+k)%cells] = true
		}
		for c := range in {
			// Distance of the sphere's centre from the cell's middle decides whether they touch.
			off := math.Abs(periodic(pos[d]-(float64(c)+0.5)*cw+w/2, w) - w/2)
			gap := off - cw/2 - rad
			if gap < -eps && !in[c] || gap > eps && in[c] {
				t.Failf("bounds", "%s; cell %d along axis %d is %g away from it", desc, c, d, gap)
				return
			}
			if b.Inside(c, cells, d) != in[c] {
				t.Failf("bounds", "%s; Inside(%d, %d, %d) = %v", desc, c, cells, d, !in[c])
				return
			}
		}
	}
	// Offsets into the bounds of every cell listed, wrapped or not.
	for k := 0; k < 6; k++ {
		var off, raw, wrapped [3]int
		for d := range off {
			off[d] = r.Intn(b.Span[d])
			raw[d] = b.Origin[d] + off[d]
			wrapped[d] = raw[d] % cells
			if !b.Inside(raw[d], cells, d) {
				t.Failf("bounds", "%s; Inside(%d, %d, %d) = false", desc, raw[d], cells, d)
				return
			}
		}
		for _, v := range [][3]int{raw, wrapped} {
			x, y, z := b.ConvertIndices(v[0], v[1], v[2], cells)
			if got := [3]int{x, y, z}; got != off {
				t.Failf("bounds", "%s; ConvertIndices%v = %v, want %v", desc, v, got, off)
				return
			}
		}
	}
	// Cells beyond the upper face, as listed by the bounds of another sphere.
	for d := range pos {
		v := cells + r.Intn(cells)
		if b.Inside(v, cells, d) != b.Inside(v-cells, cells, d) {
			t.Failf("bounds", "%s; Inside(%d, %d, %d) = %v but %v for cell %d", desc, v, cells, d, b.Inside(v, cells, d), b.Inside(v-cells, cells, d), v-cells)
			return
		}
		if b.Inside(v, cells, d) {
			a := [3]int{b.Origin[0], b.Origin[1], b.Origin[2]}
			a[d] = v
			x, y, z := b.ConvertIndices(a[0], a[1], a[2], cells)
			got := [3]int{x, y, z}
			want := (v - b.Origin[d] + cells) % cells
			if got[d] != want {
				t.Failf("bounds", "%s; ConvertIndices%v = %v, want %d along axis %d", desc, a, got, want, d)
				return
			}
		}
	}
	t.Eval(3*cells + 12)
	t.Nontrivial("bounds/%d/%v/%v", cells, b.Origin, b.Span)
}

const rockstarCols = 62

var radVals = []struct {
	v   halo.Val
	col int
	o   int // index into overdensities
}{{halo.RadVir, 10, 0}, {halo.Rad200b, 36, 4}, {halo.Rad200c, 37, 1}, {halo.Rad500c, 38, 2}, {halo.Rad2500c, 39, 3}}

func c25Catalog(t *T, i int) {
	r := t.R
	n := 1 + r.Intn(12)
	if r.Intn(4) == 0 {
		n = 1 + r.Intn(60)
	}
	if i%150 == 7 {
		n = 1000 + r.Intn(2000)
	}
	ties := r.Intn(3) == 0 // masses are multiples of a particle mass, so many are equal
	width := rockstarCols + r.Intn(4)
	cols := make([][]float64, width)
	perm := r.Perm(n)
	for c := range cols {
		cols[c] = make([]float64, n)
		for j := range cols[c] {
			switch {
			case c == 1 || c == 3 || c == 30:
				cols[c][j] = float64(perm[j]*7 + c + 1000000*r.Intn(2))
			case c == 11 || c == 12 || c == 34:
				cols[c][j] = 10 + 2000*r.Float64()
				if ties {
					cols[c][j] = float64(10 * (1 + r.Intn(5)))
				}
			case c == 9 || c == 10 || c >= 35 && c <= 39:
				cols[c][j] = math.Pow(10, 9+6*r.Float64())
				if ties {
					cols[c][j] = 1e10 * float64(1+r.Intn(5))
				}
			default:
				cols[c][j] = 100 * r.NormFloat64()
			}
		}
	}
	for j := range cols[1] { // ids must be distinct to follow halos
		cols[1][j] = float64(1000000*r.Intn(1000)*60 + perm[j])
	}
	var sb strings.Builder
	sb.WriteString("#scale(0) id(1) desc_scale(2)\n# a comment\n")
	for j := 0; j < n; j++ {
		for c := range cols {
			if c > 0 {
				sb.WriteString([]string{" ", "\t", "  "}[r.Intn(3)])
			}
			if c == 1 {
				fmt.Fprintf(&sb, "%d", int(cols[c][j]))
			} else {
				sb.WriteString(strconv.FormatFloat(cols[c][j], 'g', -1, 64))
			}
		}
		sb.WriteString("\n")
	}
	ascii := t.write("halos.txt", sb.String())
	h0, om, ol, z, _ := t.cosmology()
	c := &rio.CosmologyHeader{Z: z, OmegaM: om, OmegaL: ol, H100: h0 / 100}
	// Reference radii from masses.
	radius := func(o overdensity, m float64) float64 {
		return math.Cbrt(m/(4*math.Pi/3*o.delta*haloDensity(o, h0, om, ol, z))) * (1 + z)
	}
	row := map[int]int{}
	for j := range cols[1] {
		row[int(cols[1][j])] = j
	}

	for k, o := range overdensities {
		var ids []int
		var xs, ys, zs, ms, rs []float64
		site := "ReadRockstar " + o.name
		if !t.NoPanic(site, func() {
			var err error
			ids, xs, ys, zs, ms, rs, err = halo.ReadRockstar(ascii, o.r, c)
			if err != nil {
				t.Failf(site, "%v", err)
			}
		}) || t.Failed() {
			return
		}
		if len(ids) != n || len(xs) != n || len(ys) != n || len(zs) != n || len(ms) != n || len(rs) != n {
			t.Failf(site, "%d ids, %d, %d, %d positions, %d masses and %d radii of %d halos", len(ids), len(xs), len(ys), len(zs), len(ms), len(rs), n)
			return
		}
		seen := map[int]bool{}
		for j, id := range ids {
			q, ok := row[id]
			if !ok || seen[id] {
				t.Failf(site, "halo id %d unknown or repeated in %v", id, ids)
				return
			}
			seen[id] = true
			if j > 0 && !(rs[j] <= rs[j-1]) {
				t.Failf(site, "radius %g follows %g", rs[j], rs[j-1])
				return
			}
			if xs[j] != cols[17][q] || ys[j] != cols[18][q] || zs[j] != cols[19][q] {
				t.Failf(site, "halo %d is at (%g, %g, %g), in the catalog at (%g, %g, %g)", id, xs[j], ys[j], zs[j], cols[17][q], cols[18][q], cols[19][q])
				return
			}
			var m, rad float64
			if k == 0 {
				rad = cols[11][q] / 1000
				m = 4 * math.Pi / 3 * o.delta * haloDensity(o, h0, om, ol, z) * math.Pow(rad/(1+z), 3)
			} else {
				m = cols[radVals[map[string]int{"200m": 1, "200c": 2, "500c": 3, "2500c": 4}[o.name]].col][q]
				rad = radius(o, m)
			}
			if !t.near(site, fmt.Sprintf("radius of halo %d", id), rs[j], rad, 1e-11) || !t.near(site, fmt.Sprintf("mass of halo %d", id), ms[j], m, 1e-11) {
				return
			}
		}
		t.Eval(n)
	}

	// Selected columns in both forms, from the whole catalog and its largest halos.
	bin := t.Dir + "/halos.bin"
	topBin := t.Dir + "/top.bin"
	topN := 1 + r.Intn(n+3)
	if r.Intn(3) == 0 {
		topN = n + r.Intn(3)
	}
	if !t.NoPanic("convert", func() {
		if err := halo.RockstarConvert(ascii, bin); err != nil {
			t.Failf("convert", "RockstarConvert: %v", err)
		}
		if err := halo.RockstarConvertTopN(ascii, topBin, topN); err != nil {
			t.Failf("convert", "RockstarConvertTopN: %v", err)
		}
	}) || t.Failed() {
		return
	}
	want := make([]int, 0, n) // rows of the largest halos, in file order
	if topN > n {
		topN = n
	}
	byMass := make([]int, n)
	for j := range byMass {
		byMass[j] = j
	}
	sort.Slice(byMass, func(a, b int) bool { return cols[36][byMass[a]] > cols[36][byMass[b]] })
	large := map[float64]int{} // how many halos of each mass are among the largest
	for _, j := range byMass[:topN] {
		large[cols[36][j]]++
	}
	for j := 0; j < n; j++ {
		want = append(want, j)
	}
	var flags []halo.Val
	for k := r.Intn(8); k > 0; k-- {
		if r.Intn(3) == 0 {
			flags = append(flags, radVals[r.Intn(len(radVals))].v)
		} else if r.Intn(3) == 0 {
			flags = append(flags, []halo.Val{halo.RVir, halo.Rs, halo.RsKylpin}[r.Intn(3)])
		} else {
			flags = append(flags, halo.Val(r.Intn(rockstarCols)))
		}
	}
	value := func(f halo.Val, q int) float64 {
		for _, rv := range radVals {
			if rv.v == f {
				return radius(overdensities[rv.o], cols[rv.col][q])
			}
		}
		x := cols[int(f)][q]
		if f == halo.RVir || f == halo.Rs || f == halo.RsKylpin {
			x /= 1000
		}
		return x
	}
	var plain [][]float64
	for k := 0; k < 3; k++ {
		site := []string{"ReadRockstarVals", "ReadBinaryRockstarVals", "ReadBinaryRockstarVals of the largest"}[k]
		var ids []int
		var vals [][]float64
		if !t.NoPanic(site, func() {
			var err error
			switch k {
			case 0:
				ids, vals, err = halo.ReadRockstarVals(ascii, c, flags...)
			case 1:
				ids, vals, err = halo.ReadBinaryRockstarVals(bin, c, flags...)
			case 2:
				ids, vals, err = halo.ReadBinaryRockstarVals(topBin, c, flags...)
			}
			if err != nil {
				t.Failf(site, "%v", err)
			}
		}) || t.Failed() {
			return
		}
		rows := want
		if k == 2 {
			rows = rows[:0:0]
			used := map[int]bool{}
			for _, id := range ids {
				q, ok := row[id]
				if !ok || used[q] || large[cols[36][q]] == 0 {
					t.Failf(site, "top %d of %d: halo %d (row %d) is unknown, repeated or not among the largest", topN, n, id, q)
					return
				}
				rows = append(rows, q)
				used[q] = true
				large[cols[36][q]]--
			}
			if len(rows) != topN {
				t.Failf(site, "top %d of %d: %d halos are missing", topN, n, topN-len(rows))
				return
			}
		}
		if len(ids) != len(rows) || len(vals) != len(flags) {
			t.Failf(site, "%d ids of %d halos, %d columns of %d", len(ids), len(rows), len(vals), len(flags))
			return
		}
		for a, q := range rows {
			if ids[a] != int(cols[1][q]) {
				t.Failf(site, "id %d in place %d, want %d", ids[a], a, int(cols[1][q]))
				return
			}
		}
		for v, f := range flags {
			if len(vals[v]) != len(rows) {
				t.Failf(site, "%d values of column %d for %d halos", len(vals[v]), f, len(rows))
				return
			}
			for a, q := range rows {
				if !t.near(site, fmt.Sprintf("value %d of halo %d (requests %v, number %d)", f, ids[a], flags, v), vals[v][a], value(f, q), 1e-11) {
					return
				}
			}
		}
		if k == 0 {
			plain = vals
		} else if k == 1 {
			for v := range vals {
				if !equalF(vals[v], plain[v]) {
					t.Failf(site, "column %d differs from that of the ASCII catalog", flags[v])
					return
				}
			}
		}
		t.Eval(n * (len(flags) + 1))
	}
	t.Nontrivial("catalog/%d/%v/%d", n, flags, topN)
	if i%4 != 0 {
		return
	}
	// Faults.
	none := t.Dir + "/none/halos"
	bad := func(what string, f func() error) {
		t.NoPanic("fault", func() {
			t.Eval(1)
			if f() == nil {
				t.Failf("fault", "%s is not an error", what)
			}
		})
	}
	bad("a missing catalog in ReadRockstar", func() error { _, _, _, _, _, _, err := halo.ReadRockstar(none, halo.R200m, c); return err })
	bad("a missing catalog in ReadRockstarVals", func() error { _, _, err := halo.ReadRockstarVals(none, c, flags...); return err })
	bad("a missing catalog in ReadBinaryRockstarVals", func() error { _, _, err := halo.ReadBinaryRockstarVals(none, c, flags...); return err })
	bad("a missing catalog in RockstarConvert", func() error { return halo.RockstarConvert(none, t.Dir+"/x") })
	bad("a missing catalog in RockstarConvertTopN", func() error { return halo.RockstarConvertTopN(none, t.Dir+"/x", 1) })
	for _, out := range []string{none, "/dev/full"} {
		bad("converting to "+out, func() error { return halo.RockstarConvert(ascii, out) })
		bad("converting the largest to "+out, func() error { return halo.RockstarConvertTopN(ascii, out, topN) })
	}
	if b, err := os.ReadFile(bin); err == nil && n > 0 {
		cut := t.Dir + "/cut.bin"
		for k := 0; k < 6; k++ {
			m := []int{0, 1 + r.Intn(8), 8, len(b) - 1, len(b) - 8, r.Intn(len(b))}[k]
			os.WriteFile(cut, b[:m], 0666)
			bad(fmt.Sprintf("a binary catalog cut to %d of %d bytes", m, len(b)), func() error {
				_, _, err := halo.ReadBinaryRockstarVals(cut, c, halo.AccRateTdyn)
				return err
			})
		}
	}
}

// haloDensity is the density within which a halo's mean density is o.delta times larger.
func haloDensity(o overdensity, h0, om, ol, z float64) float64 {
	rho := cosmo.RhoCritical(h0, om, ol, 0) / (om + ol)
	a3 := math.Pow(1+z, 3)
	if o.mean {
		return rho * (om + ol) * om * a3
	}
	return rho * (om*a3 + ol)
}
