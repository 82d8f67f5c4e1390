package main

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/phil-mansfield/gotetra/cosmo"
	"github.com/phil-mansfield/gotetra/math/calc"
	"github.com/phil-mansfield/gotetra/math/interpolate"
	"github.com/phil-mansfield/gotetra/math/mat"
	grand "github.com/phil-mansfield/gotetra/math/rand"
	gsort "github.com/phil-mansfield/gotetra/math/sort"
	"github.com/phil-mansfield/gotetra/render"
	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/halo"
	gio "github.com/phil-mansfield/gotetra/render/io"
)

func init() {
	register("C28", "a case is a set of library calls, each with its own outputs and state but inputs in common, made by 2 to 16 goroutines at once (each call by several goroutines, in random orders) in a fresh process instrumented by the race detector, and afterwards one after another; a case fails on a race report, a panic or any difference in any result. Non-trivial: at least two goroutines were inside calls at the same time, counted on entry and exit.",
		Group{"deriv", 18, 260, 2, c28(derivTasks)},
		Group{"interpolate", 18, 260, 2, c28(interpTasks)},
		Group{"matrix", 14, 200, 2, c28(matTasks)},
		Group{"sort", 14, 200, 2, c28(sortTasks)},
		Group{"random", 14, 200, 2, c28(randTasks)},
		Group{"cosmology", 8, 100, 1, c28(cosmoTasks)},
		Group{"halos", 12, 200, 2, c28(haloTasks)},
		Group{"geometry", 12, 200, 2, c28(geomTasks)},
		Group{"files", 16, 240, 3, c28(fileTasks)},
		Group{"managers", 12, 160, 5, c28(managerTasks)},
		Group{"mixed", 12, 160, 4, c28(derivTasks, interpTasks, matTasks, sortTasks, randTasks, cosmoTasks, haloTasks, geomTasks, fileTasks)})
}

// task is one call, or a short sequence of calls on state of its own. It describes its results.
// Those that need memory set up beforehand are told which goroutine they are run by.
type task struct {
	name string
	run  func() string
	by   func(g int) string
}

const maxGors = 17

func (k task) safe(g int) (out string) {
	defer func() {
		if r := recover(); r != nil {
			out = fmt.Sprintf("panic: %v %s", r, shortStack())
		}
	}()
	if k.by != nil {
		return k.by(g)
	}
	return k.run()
}

// dig describes values bit for bit.
func dig(xs ...interface{}) string {
	h := fnv.New64a()
	first := ""
	put := func(u uint64) {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], u)
		h.Write(b[:])
	}
	for _, x := range xs {
		switch v := x.(type) {
		case []float64:
			for _, f := range v {
				put(math.Float64bits(f))
			}
		case []float32:
			for _, f := range v {
				put(uint64(math.Float32bits(f)))
			}
		case []int:
			for _, f := range v {
				put(uint64(f))
			}
		case []geom.Vec:
			for _, f := range v {
				for j := range f {
					put(uint64(math.Float32bits(f[j])))
				}
			}
		case float64:
			put(math.Float64bits(v))
		default:
			s := fmt.Sprint(v)
			h.Write([]byte(s))
		}
		if first == "" {
			first = fmt.Sprint(x)
			if len(first) > 80 {
				first = first[:80] + "..."
			}
		}
	}
	return fmt.Sprintf("%016x %s", h.Sum64(), first)
}

// c28 runs the tasks of the makers together, then one after another.
func c28(makers ...func(t *T, r *rand.Rand) []task) func(t *T, i int) {
	return func(t *T, i int) {
		r := t.R
		var ts []task
		for _, m := range makers {
			ts = append(ts, m(t, r)...)
		}
		if t.Failed() {
			return
		}
		if len(makers) > 1 { // a few of each
			r.Shuffle(len(ts), func(a, b int) { ts[a], ts[b] = ts[b], ts[a] })
			ts = ts[:len(ts)/2]
		}
		gors := 2 + r.Intn(maxGors-2)
		orders := make([][]int, gors)
		for g := range orders {
			n := len(ts)
			if i%3 == 0 { // everyone begins with the same few calls
				orders[g] = append(orders[g], i/3%n, (i/3+1)%n)
			}
			orders[g] = append(orders[g], r.Perm(n)[:1+r.Intn(min(n, 12))]...)
		}
		// Nothing in the goroutines orders the calls of one and another, which would hide races.
		got, when := make([][]string, gors), make([][]time.Time, gors)
		var ready, done sync.WaitGroup
		start := make(chan bool)
		old := runtime.GOMAXPROCS(pick(r, 2, 4, 8))
		for g := range orders {
			got[g], when[g] = make([]string, len(orders[g])), make([]time.Time, 2*len(orders[g]))
			ready.Add(1)
			done.Add(1)
			go func(g int, order []int, got []string, when []time.Time) {
				defer done.Done()
				ready.Done()
				<-start
				for k, j := range order {
					when[2*k] = time.Now()
					got[k] = ts[j].safe(g)
					when[2*k+1] = time.Now()
				}
			}(g, orders[g], got[g], when[g])
		}
		ready.Wait()
		close(start)
		done.Wait()
		runtime.GOMAXPROCS(old)
		most, calls := overlap(when)
		want := make([]string, len(ts))
		for j := range ts {
			want[j] = ts[j].safe(maxGors - 1)
			if strings.HasPrefix(want[j], "panic: ") || strings.HasPrefix(want[j], "error: ") {
				t.Failf("C28/"+t.Group+"/call", "%s, alone after the concurrent calls: %s", ts[j].name, want[j])
				return
			}
		}
		for g := range orders {
			for k, j := range orders[g] {
				t.Eval(1)
				if got[g][k] != want[j] {
					t.Failf("C28/"+t.Group+"/result", "%s, called in one of %d goroutines, gives %s; called alone, %s", ts[j].name, gors, got[g][k], want[j])
					return
				}
			}
		}
		t.Count("concurrent_calls", calls)
		t.Max("calls_at_once", float64(most))
		if most > 1 {
			t.Nontrivial("%s %d %d", t.Group, i, gors)
		}
		t.Sample("%d calls in %d goroutines, up to %d at once", calls, gors, most)
	}
}

// overlap counts the calls and the most that were going on at one time.
func overlap(when [][]time.Time) (most, calls int) {
	type edge struct {
		t time.Time
		d int
	}
	var es []edge
	for _, w := range when {
		for k, x := range w {
			es = append(es, edge{x, 1 - 2*(k%2)})
		}
	}
	sort.Slice(es, func(i, j int) bool {
		if !es[i].t.Equal(es[j].t) {
			return es[i].t.Before(es[j].t)
		}
		return es[i].d < es[j].d
	})
	n := 0
	for _, e := range es {
		n += e.d
		most = max(most, n)
	}
	return most, len(es) / 2
}

func randVals32(r *rand.Rand, n int) []float32 {
	xs := make([]float32, n)
	for i := range xs {
		xs[i] = float32(r.NormFloat64())
	}
	return xs
}

func randVals(r *rand.Rand, n int) []float64 {
	xs := make([]float64, n)
	for i := range xs {
		xs[i] = r.NormFloat64()
	}
	return xs
}

// derivTasks: derivatives of the same fields with the same options.
func derivTasks(t *T, r *rand.Rand) []task {
	cells := 5 + r.Intn(8)
	if r.Intn(5) == 0 {
		cells = 24 + r.Intn(16)
	}
	w := [3]int{5 + r.Intn(cells-4), 5 + r.Intn(cells-4), 5 + r.Intn(cells-4)}
	if r.Intn(2) == 0 {
		w = [3]int{cells, cells, cells}
	}
	g := geom.NewGridLocation([3]int{r.Intn(cells), r.Intn(cells), r.Intn(cells)}, w, 1+10*r.Float64(), cells)
	n := w[0] * w[1] * w[2]
	vecs := [3][]float32{randVals32(r, n), randVals32(r, n), randVals32(r, n)}
	opts := []*geom.DerivOptions{nil, geom.DerivOptionsDefault}
	for k := 0; k < 3; k++ {
		opts = append(opts, &geom.DerivOptions{Periodic: r.Intn(2) == 0, Op: geom.None, Order: 2 + 2*r.Intn(2)})
	}
	outs := func() [3][]float32 {
		b := make([]float32, 3*n) // neighbours in memory
		return [3][]float32{b[:n], b[n : 2*n], b[2*n:]}
	}
	var ts []task
	for k, op := range opts {
		op := op
		for axis := 0; axis < 3; axis++ {
			axis := axis
			ts = append(ts, task{name: fmt.Sprintf("Deriv along %d with options %d", axis, k), run: func() string {
				out := make([]float32, n)
				g.Deriv(vecs[axis], out, axis, op)
				return dig(out)
			}})
		}
		ts = append(ts, task{name: fmt.Sprintf("Curl with options %d", k), run: func() string {
			o := outs()
			g.Curl(vecs, o, op)
			return dig(o[0], o[1], o[2])
		}}, task{name: fmt.Sprintf("Divergence with options %d", k), run: func() string {
			o := make([]float32, n)
			g.Divergence(vecs, o, op)
			return dig(o)
		}}, task{name: fmt.Sprintf("Gradient with options %d", k), run: func() string {
			o := outs()
			g.Gradient(vecs[0], o, op)
			return dig(o[0], o[1], o[2])
		}})
	}
	// Sums of derivatives into outputs of their own, with options in common.
	add, sub := &geom.DerivOptions{Op: geom.Add, Order: 4}, &geom.DerivOptions{Op: geom.Subtract, Order: 2}
	ts = append(ts, task{name: "Deriv with Add and Subtract", run: func() string {
		out := make([]float32, n)
		g.Deriv(vecs[0], out, 0, add)
		g.Deriv(vecs[1], out, 1, sub)
		g.Deriv(vecs[2], out, 2, add)
		return dig(out)
	}}, task{name: "grid indices", run: func() string {
		var xs []int
		for k := 0; k < 40; k++ {
			x, y, z := g.Coords(k % n)
			xs = append(xs, x, y, z, g.Idx(x, y, z))
		}
		return dig(xs)
	}})
	return ts
}

// sortedTable makes a strictly monotonic table.
func sortedTable(r *rand.Rand, n int, up bool) []float64 {
	xs := make([]float64, n)
	x := r.NormFloat64()
	for i := range xs {
		x += 0.1 + r.Float64()
		xs[i] = x
	}
	if !up {
		for i := range xs {
			xs[i] = -xs[i]
		}
	}
	return xs
}

// between makes m points within a table, its ends among them.
func between(r *rand.Rand, xs []float64, m int) []float64 {
	lo, hi := xs[0], xs[len(xs)-1]
	if lo > hi {
		lo, hi = hi, lo
	}
	out := []float64{lo, hi, xs[r.Intn(len(xs))]}
	for len(out) < m {
		out = append(out, math.Min(math.Max(lo+(hi-lo)*r.Float64(), lo), hi))
	}
	return out
}

func interpTasks(t *T, r *rand.Rand) []task {
	nx, ny, nz := 3+r.Intn(12), 3+r.Intn(6), 3+r.Intn(6)
	if r.Intn(5) == 0 {
		nx += 60 + r.Intn(200)
	}
	xs, ys, zs := sortedTable(r, nx, r.Intn(2) == 0), sortedTable(r, ny, r.Intn(2) == 0), sortedTable(r, nz, r.Intn(2) == 0)
	v1, v2, v3 := randVals(r, nx), randVals(r, nx*ny), randVals(r, nx*ny*nz)
	const m = 30
	px, py, pz := between(r, xs, m), between(r, ys, m), between(r, zs, m)
	lin, bi, tri := interpolate.NewLinear(xs, v1), interpolate.NewBiLinear(xs, ys, v2), interpolate.NewTriLinear(xs, ys, zs, v3)
	ul, ub := interpolate.NewUniformLinear(0, 0.5, v1), interpolate.NewUniformBiLinear(0, 0.5, nx, 1, 2, ny, v2)
	ut := interpolate.NewUniformTriLinear(0, 0.5, nx, 1, 2, ny, -3, 0.25, nz, v3)
	sp := interpolate.NewSpline(xs, v1)
	ux, uy, uz := make([]float64, m), make([]float64, m), make([]float64, m)
	for i := range ux {
		ux[i], uy[i], uz[i] = 0.5*float64(nx-1)*r.Float64(), 1+2*float64(ny-1)*r.Float64(), -3+0.25*float64(nz-1)*r.Float64()
	}
	ut0 := sortedTable(r, nx, true)
	one := func(name string, f func(i int) float64) task {
		return task{name: name, run: func() string {
			out := make([]float64, m)
			for i := range out {
				out[i] = f(i)
			}
			return dig(out)
		}}
	}
	ts := []task{
		one("Linear.Eval", func(i int) float64 { return lin.Eval(px[i]) }),
		one("BiLinear.Eval", func(i int) float64 { return bi.Eval(px[i], py[i]) }),
		one("TriLinear.Eval", func(i int) float64 { return tri.Eval(px[i], py[i], pz[i]) }),
		one("uniform Linear.Eval", func(i int) float64 { return ul.Eval(ux[i]) }),
		one("uniform BiLinear.Eval", func(i int) float64 { return ub.Eval(ux[i], uy[i]) }),
		one("uniform TriLinear.Eval", func(i int) float64 { return ut.Eval(ux[i], uy[i], uz[i]) }),
		one("Spline.Eval", func(i int) float64 { return sp.Eval(px[i]) }),
		one("Spline.Deriv", func(i int) float64 { return sp.Deriv(px[i], i%4) }),
		one("Spline.Integrate", func(i int) float64 { return sp.Integrate(px[i], px[(i+1)%m]) }),
		{name: "Linear.EvalAll", run: func() string { return dig(lin.EvalAll(px)) }},
		{name: "BiLinear.EvalAll", run: func() string { return dig(bi.EvalAll(px, py)) }},
		{name: "TriLinear.EvalAll", run: func() string { return dig(tri.EvalAll(px, py, pz, make([]float64, m))) }},
		{name: "Spline.EvalAll", run: func() string { return dig(sp.EvalAll(px, make([]float64, m))) }},
		// Building and caching ones, each by its caller.
		{name: "NewSpline", run: func() string { return dig(interpolate.NewSpline(xs, v1).EvalAll(px)) }},
		{name: "Spline.Init", run: func() string {
			s := interpolate.NewSpline(ut0[:nx], v2[:nx])
			s.Init(xs, v1)
			return dig(s.EvalAll(px))
		}},
		{name: "NewLinear", run: func() string { return dig(interpolate.NewLinear(xs, v1).EvalAll(px)) }},
		{name: "NewTriLinear", run: func() string { return dig(interpolate.NewTriLinear(xs, ys, zs, v3).EvalAll(px, py, pz)) }},
		{name: "NewBiCubic", run: func() string { return dig(interpolate.NewBiCubic(xs, ys, v2).EvalAll(px, py)) }},
		{name: "NewTriCubic", run: func() string { return dig(interpolate.NewTriCubic(xs, ys, zs, v3).EvalAll(px[:5], py[:5], pz[:5])) }},
		{name: "NewUniformBiCubic", run: func() string {
			return dig(interpolate.NewUniformBiCubic(0, 0.5, nx, 1, 2, ny, v2).EvalAll(ux, uy))
		}},
		{name: "NewUniformTriCubic", run: func() string {
			return dig(interpolate.NewUniformTriCubic(0, 0.5, nx, 1, 2, ny, -3, 0.25, nz, v3).EvalAll(ux[:5], uy[:5], uz[:5]))
		}},
		{name: "Eval of a BiCubic and a TriCubic", run: func() string {
			b, c := interpolate.NewBiCubic(xs, ys, v2), interpolate.NewTriCubic(xs, ys, zs, v3)
			o := []float64{}
			for i := 0; i < 6; i++ {
				o = append(o, b.Eval(px[i], py[i]), b.Eval(px[i], py[i+1]), c.Eval(px[i], py[i], pz[i]))
			}
			return dig(o)
		}},
	}
	// Kernels.
	data := randVals(r, 12+r.Intn(20))
	if r.Intn(5) == 0 {
		data = randVals(r, 500+r.Intn(3000))
	}
	ks := map[string]*interpolate.Kernel{
		"Gaussian": interpolate.NewGaussianKernel(7, 1.5, 0.5), "tophat": interpolate.NewTophatKernel(5),
		"Savitzky-Golay": interpolate.NewSavGolKernel(3, 7), "derivative": interpolate.NewSavGolDerivKernel(0.1, 1, 4, 9)}
	bcs := []interpolate.BoundaryCondition{interpolate.Periodic, interpolate.Reflection, interpolate.ZeroPad, interpolate.Extension}
	for _, name := range []string{"Gaussian", "tophat", "Savitzky-Golay", "derivative"} {
		k, b := ks[name], bcs[r.Intn(4)]
		ts = append(ts, task{name: name + " Convolve", run: func() string { return dig(k.Convolve(data, b)) }},
			task{name: name + " ConvolveAt", run: func() string {
				o := make([]float64, len(data))
				k.ConvolveAt(data, b, o)
				return dig(o)
			}})
	}
	ts = append(ts, task{name: "NewSavGolKernel", run: func() string {
		return dig(interpolate.NewSavGolKernel(2, 5).Convolve(data, interpolate.Extension))
	}}, task{name: "NewSavGolDerivKernel", run: func() string {
		return dig(interpolate.NewSavGolDerivKernel(0.5, 2, 4, 7).Convolve(data, interpolate.Reflection))
	}}, task{name: "TriDiag", run: func() string {
		n := len(data)
		as, bs, cs := make([]float64, n), make([]float64, n), make([]float64, n)
		for i := range as {
			as[i], bs[i], cs[i] = 1, 4+float64(i%3), 0.5
		}
		o := make([]float64, n)
		interpolate.TriDiagAt(as, bs, cs, data, o)
		return dig(interpolate.TriDiag(as, bs, cs, data), o)
	}})
	return ts
}

func matTasks(t *T, r *rand.Rand) []task {
	n := 1 + r.Intn(9)
	if r.Intn(5) == 0 {
		n = 20 + r.Intn(50)
	}
	vals := randVals(r, n*n)
	for i := 0; i < n; i++ {
		vals[i*n+(i+1)%n] += 4 * float64(n)
	}
	v32 := make([]float32, n*n)
	for i := range vals {
		v32[i] = float32(vals[i])
	}
	m, m32 := mat.NewMatrix(vals, n, n), mat.NewMatrix32(v32, n, n)
	b := randVals(r, n)
	b32 := randVals32(r, n)
	w := 1 + r.Intn(6)
	if n > 9 {
		w += 70
	}
	rect := mat.NewMatrix(randVals(r, n*w), w, n)
	lu, lu32 := m.LU(), m32.LU()
	return []task{
		{name: "LUFactors.SolveVector", run: func() string { return dig(lu.SolveVector(b, make([]float64, n))) }},
		{name: "LUFactors.SolveVector in place", run: func() string {
			x := append([]float64{}, b...)
			return dig(lu.SolveVector(x, x))
		}},
		{name: "LUFactors.SolveMatrix", run: func() string { return dig(lu.SolveMatrix(m, mat.NewMatrix(make([]float64, n*n), n, n)).Vals) }},
		{name: "LUFactors.InvertAt", run: func() string { return dig(lu.InvertAt(mat.NewMatrix(make([]float64, n*n), n, n)).Vals) }},
		{name: "LUFactors.Determinant", run: func() string { return dig(lu.Determinant()) }},
		{name: "LUFactors32.SolveVector", run: func() string { return dig(lu32.SolveVector(b32, make([]float32, n))) }},
		{name: "LUFactors32.InvertAt", run: func() string { return dig(lu32.InvertAt(mat.NewMatrix32(make([]float32, n*n), n, n)).Vals) }},
		{name: "LUFactors32.Determinant", run: func() string { return dig(lu32.Determinant()) }},
		{name: "Matrix.LU", run: func() string { return dig(m.LU().SolveVector(b, make([]float64, n))) }},
		{name: "Matrix.LUFactorsAt", run: func() string {
			f := mat.NewLUFactors(n)
			m.LUFactorsAt(f)
			return dig(f.Determinant())
		}},
		{name: "Matrix.SolveVector", run: func() string { return dig(m.SolveVector(b)) }},
		{name: "Matrix.SolveMatrix", run: func() string { return dig(m.SolveMatrix(m).Vals) }},
		{name: "Matrix.Invert", run: func() string { return dig(m.Invert().Vals) }},
		{name: "Matrix.Determinant", run: func() string { return dig(m.Determinant()) }},
		{name: "Matrix.Mult", run: func() string { return dig(m.Mult(rect).Vals) }},
		{name: "Matrix.Transpose", run: func() string { return dig(rect.Transpose().Vals) }},
		{name: "Matrix.TransposeAt", run: func() string {
			o := mat.NewMatrix(make([]float64, n*w), n, w)
			rect.TransposeAt(o)
			return dig(o.Vals)
		}},
		{name: "Matrix.MultAt", run: func() string {
			return dig(m.MultAt(rect, mat.NewMatrix(make([]float64, n*w), w, n)).Vals)
		}},
		{name: "Matrix32.LUFactorsAt", run: func() string {
			f := mat.NewLUFactors32(n)
			m32.LUFactorsAt(f)
			o := mat.NewMatrix32(make([]float32, n*n), n, n)
			return dig(f.Determinant(), f.SolveMatrix(m32, o).Vals)
		}},
		{name: "MultVec", run: func() string {
			o := make([]float64, n)
			mat.MultVec(m, b, o)
			return dig(o)
		}},
		{name: "VecMult", run: func() string {
			o := make([]float64, w)
			mat.VecMult(b, rect, o)
			return dig(o)
		}},
		{name: "Matrix32.SolveVector", run: func() string { return dig(m32.SolveVector(b32)) }},
		{name: "Matrix32.SolveMatrix", run: func() string { return dig(m32.SolveMatrix(m32).Vals) }},
		{name: "Matrix32.Invert", run: func() string { return dig(m32.Invert().Vals) }},
		{name: "Matrix32.Determinant", run: func() string { return dig(m32.Determinant()) }},
		{name: "Matrix32.Mult", run: func() string { return dig(m32.Mult(m32).Vals) }},
	}
}

func sortTasks(t *T, r *rand.Rand) []task {
	n := 1 + r.Intn(300)
	if r.Intn(5) == 0 {
		n = 2000 + r.Intn(20000)
	}
	xs := randVals(r, n)
	if r.Intn(3) == 0 {
		for i := range xs {
			xs[i] = math.Floor(2 * xs[i])
		}
	}
	ts := []task{}
	for k := 0; k < 3; k++ {
		nth, p := 1+r.Intn(n), r.Float64()
		ts = append(ts, task{name: "NthLargest", run: func() string { return dig(gsort.NthLargest(xs, nth)) }},
			task{name: "NthLargest with a buffer", run: func() string { return dig(gsort.NthLargest(xs, nth, make([]float64, n))) }},
			task{name: "Percentile", run: func() string { return dig(gsort.Percentile(xs, p)) }},
			task{name: "Percentile with a buffer", run: func() string { return dig(gsort.Percentile(xs, p, make([]float64, n))) }})
	}
	ts = append(ts, task{name: "Median", run: func() string { return dig(gsort.Median(xs)) }},
		task{name: "Median with a buffer", run: func() string { return dig(gsort.Median(xs, make([]float64, n))) }})
	// Sorts of separate parts of one array, one for each goroutine.
	for k := 0; k < 6; k++ {
		n := 1 + r.Intn(60)
		if r.Intn(5) == 0 {
			n = 1000 + r.Intn(5000)
		}
		whole, keep := make([]float64, maxGors*n), randVals(r, n)
		kind := k % 3
		ts = append(ts, task{name: "sort of a part of an array", by: func(g int) string {
			part := whole[n*g : n*(g+1)]
			copy(part, keep)
			switch kind {
			case 0:
				gsort.Quick(part)
			case 1:
				gsort.Shell(part)
			default:
				gsort.Reverse(part)
			}
			return dig(part)
		}})
	}
	abs := make([]float64, 8+min(n, 3000))
	for i := range abs {
		abs[i] = 0.25 * float64(i)
	}
	ys := randVals(r, len(abs))
	for _, order := range []int{2, 4} {
		order := order
		ts = append(ts, task{name: "calc.Deriv", run: func() string { return dig(calc.Deriv(abs, ys, order)) }},
			task{name: "calc.Deriv into an output", run: func() string {
				o := make([]float64, len(abs))
				calc.Deriv(abs, ys, order, calc.Out(o))
				return dig(o)
			}})
	}
	return ts
}

func randTasks(t *T, r *rand.Rand) []task {
	ts := []task{}
	for _, gt := range []grand.GeneratorType{grand.Xorshift, grand.Golang, grand.Tausworthe} {
		for k := 0; k < 3; k++ {
			gt, seed, n := gt, uint64(r.Int63()), 1+r.Intn(2000)
			var gens [maxGors]*grand.Generator
			for g := range gens {
				gens[g] = grand.New(gt, seed+uint64(g))
			}
			ts = append(ts, task{name: fmt.Sprintf("generator of type %d", gt), run: func() string {
				g := grand.New(gt, seed)
				o := make([]float64, n)
				g.UniformAt(-1, 3, o)
				ks := []int{g.UniformInt(0, 10), g.UniformInt(-5, 1000)}
				x := g.Uniform(0, 1)
				g.UniformAt(0, 1, o[:n/2])
				return dig(o, ks, x)
			}}, task{name: fmt.Sprintf("a generator of type %d made before", gt), by: func(g int) string {
				x := gens[g].Uniform(2, 3) // how many were drawn before is not known
				return dig(x >= 2 && x < 3)
			}})
		}
	}
	for k := 0; k < 4; k++ {
		dim, n := 1+r.Intn(6), 1+r.Intn(200)
		ts = append(ts, task{name: fmt.Sprintf("Sobol sequence of %d dimensions", dim), run: func() string {
			s := grand.NewSobolSequence()
			o := []float64{}
			for i := 0; i < n; i++ {
				o = append(o, s.Next(dim)...)
			}
			s.Init()
			b := make([]float64, dim)
			s.NextAt(b)
			return dig(append(o, b...))
		}})
	}
	return ts
}

func cosmoTasks(t *T, r *rand.Rand) []task {
	ts := []task{}
	c := &gio.CosmologyHeader{OmegaM: 0.2 + 0.3*r.Float64(), Z: 3 * r.Float64(), H100: 0.7}
	c.OmegaL = 1 - c.OmegaM
	ms := make([]float64, 20)
	for i := range ms {
		ms[i] = math.Pow(10, 8+6*r.Float64())
	}
	for k := 0; k < 4; k++ {
		z := 5 * r.Float64()
		ts = append(ts, task{name: "cosmology", run: func() string {
			return dig([]float64{cosmo.HubbleFrac(c.OmegaM, c.OmegaL, z), cosmo.RhoCritical(70, c.OmegaM, c.OmegaL, z), cosmo.RhoAverage(70, c.OmegaM, c.OmegaL, z)})
		}})
	}
	for _, rad := range []halo.Radius{halo.RVirial, halo.R200c, halo.R200m, halo.R500c, halo.R2500c} {
		rad := rad
		ts = append(ts, task{name: "radii of " + rad.String(), run: func() string {
			a, b := make([]float64, len(ms)), make([]float64, len(ms))
			rad.Radius(c, ms, a)
			rad.Mass(c, a, b)
			return dig(a, b)
		}}, task{name: "name " + rad.String(), run: func() string {
			x, ok := halo.RadiusFromString(rad.String())
			return dig(x, ok, x.RockstarColumn(), x.RockstarMass())
		}})
	}
	return ts
}

func haloTasks(t *T, r *rand.Rand) []task {
	n, cells, width := 10+r.Intn(60), 2+r.Intn(6), 10*(1+r.Float64())
	xs, ys, zs, rs := make([]float64, n), make([]float64, n), make([]float64, n), make([]float64, n)
	for i := range xs {
		xs[i], ys[i], zs[i] = width*r.Float64(), width*r.Float64(), width*r.Float64()
		rs[i] = 0.15 * width * r.Float64()
	}
	g := halo.NewGrid(cells, width, n)
	g.Insert(xs, ys, zs)
	ts := []task{}
	find := func(g *halo.Grid, mult float64) string {
		f := halo.NewSubhaloFinder(g)
		f.FindSubhalos(xs, ys, zs, rs, mult)
		out := []int{}
		for i := 0; i < n; i++ {
			out = append(out, f.IntersectCount(i), f.HostCount(i), f.SubhaloCount(i))
			out = append(out, f.Hosts(i)...)
			out = append(out, f.Subhalos(i)...)
		}
		return dig(out)
	}
	for k := 0; k < 3; k++ {
		mult := 0.3 + 0.9*r.Float64()
		ts = append(ts, task{name: "FindSubhalos on a grid in common", run: func() string { return find(g, mult) }},
			task{name: "FindSubhalos on a grid of its own", run: func() string {
				h := halo.NewGrid(cells, width, n)
				h.Insert(xs, ys, zs)
				return find(h, mult)
			}})
	}
	ts = append(ts, task{name: "ReadIndexes and lengths", run: func() string {
		out := []int{g.TotalCells(), g.MaxLength(), g.AverageLength()}
		buf := make([]int, 0, n)
		for i := 0; i < cells*cells*cells; i++ {
			buf = g.ReadIndexes(i, buf)
			out = append(append(out, g.Length(i)), buf...)
		}
		return dig(out)
	}}, task{name: "SphereBounds", run: func() string {
		b := halo.Bounds{}
		out := []int{}
		for i := 0; i < n; i++ {
			b.SphereBounds([3]float64{xs[i], ys[i], zs[i]}, rs[i], width/float64(cells), width)
			out = append(append(out, b.Origin[:]...), b.Span[:]...)
			for k := 0; k < cells; k++ {
				x, y, z := b.ConvertIndices(k, (k+1)%cells, (k+2)%cells, cells)
				out = append(out, x, y, z)
				if b.Inside(k, cells, i%3) {
					out = append(out, k)
				}
			}
		}
		return dig(out)
	}})
	// Catalogs.
	rows := &strings.Builder{}
	for k := 0; k < 30; k++ {
		for c := 0; c < 62; c++ {
			fmt.Fprintf(rows, "%d ", 1+r.Intn(100000))
		}
		rows.WriteString("\n")
	}
	ascii, bin := t.write("halos.txt", rows.String()), filepath.Join(t.Dir, "halos.bin")
	if err := halo.RockstarConvert(ascii, bin); err != nil {
		t.Failf("C28/halos/setup", "RockstarConvert: %v", err)
		return nil
	}
	c := &gio.CosmologyHeader{OmegaM: 0.3, OmegaL: 0.7, H100: 0.7}
	ts = append(ts, task{name: "ReadRockstar", run: func() string {
		ids, a, b, cc, d, e, err := halo.ReadRockstar(ascii, halo.R200m, c)
		if err != nil {
			return "error: " + err.Error()
		}
		return dig(ids, a, b, cc, d, e)
	}}, task{name: "ReadRockstarVals", run: func() string {
		_, v, err := halo.ReadRockstarVals(ascii, c, halo.MVir, halo.Rs)
		if err != nil {
			return "error: " + err.Error()
		}
		return dig(v[0], v[1])
	}}, task{name: "ReadBinaryRockstarVals", run: func() string {
		_, v, err := halo.ReadBinaryRockstarVals(bin, c, halo.MVir, halo.Rs)
		if err != nil {
			return "error: " + err.Error()
		}
		return dig(v[0], v[1])
	}}, task{name: "RockstarConvertTopN", run: func() string {
		out := newName(t.Dir, "top-*")
		if err := halo.RockstarConvertTopN(ascii, out, 7); err != nil {
			return "error: " + err.Error()
		}
		b, _ := os.ReadFile(out)
		return dig(string(b))
	}}, task{name: "RockstarConvert", run: func() string {
		out := newName(t.Dir, "conv-*")
		if err := halo.RockstarConvert(ascii, out); err != nil {
			return "error: " + err.Error()
		}
		b, _ := os.ReadFile(out)
		return dig(string(b))
	}})
	return ts
}

func geomTasks(t *T, r *rand.Rand) []task {
	corners := make([]geom.Vec, 40)
	for i := range corners {
		corners[i] = geom.Vec{float32(10 * r.Float64()), float32(10 * r.Float64()), float32(10 * r.Float64())}
	}
	unit := make([]geom.Vec, 50)
	for i := range unit {
		unit[i] = geom.Vec{float32(r.Float64()), float32(r.Float64()), float32(r.Float64())}
	}
	geom.DistributeUnit(unit)
	ts := []task{}
	for k := 0; k < 10; k++ {
		c, seed, gt := 4*k, uint64(r.Int63()), grand.GeneratorType(r.Intn(3))
		p := unit[r.Intn(len(unit))]
		ts = append(ts, task{name: "Tetra of its own", run: func() string {
			tet := geom.NewTetra(&corners[c], &corners[c+1], &corners[c+2], &corners[c+3])
			b := tet.Barycenter()
			cb := tet.CellBounds(0.5)
			fine := geom.CellBounds{}
			tet.CellBoundsAt(0.1, &fine)
			return dig(tet.Volume(), []geom.Vec{*b}, cb.Origin[:], cb.Width[:], fine.Origin[:], fine.Width[:], tet.Contains(&p), tet.Contains(b))
		}}, task{name: "RandomSample", run: func() string {
			tet := geom.NewTetra(&corners[c], &corners[c+1], &corners[c+2], &corners[c+3])
			o := make([]geom.Vec, 40)
			tet.RandomSample(grand.New(gt, seed), make([]float64, 3*len(o)), o)
			return dig(o)
		}}, task{name: "DistributeTetra", run: func() string {
			tet := geom.NewTetra(&corners[c], &corners[c+1], &corners[c+2], &corners[c+3])
			o, o64 := make([]geom.Vec, len(unit)), make([][3]float64, len(unit))
			tet.DistributeTetra(unit, o)
			tet.DistributeTetra64(unit, o64)
			fs, d := [3][]float64{}, make([]geom.Vec, len(unit))
			for j := range fs {
				for _, u := range unit {
					fs[j] = append(fs[j], float64(u[j]))
				}
			}
			tet.Distribute(fs[0], fs[1], fs[2], d)
			return dig(o, o64, d)
		}}, task{name: "DistributeUnit", run: func() string {
			o := append([]geom.Vec{}, corners[c:c+4]...)
			for i := range o {
				o[i].ScaleSelf(0.1)
			}
			geom.DistributeUnit(o)
			return dig(o)
		}}, task{name: "TetraIdxs", run: func() string {
			var ix geom.TetraIdxs
			out := []int{}
			for dir := 0; dir < geom.TetraDirCount; dir++ {
				ix.Init(int64(c), 9, 1, dir)
				for _, x := range ix {
					out = append(out, int(x))
				}
				ix = *geom.NewTetraIdxs(int64(c+1), 9, 2, dir)
				for _, x := range ix {
					out = append(out, int(x))
				}
				ix.InitCartesian(int64(c%5), 2, 3, 9, dir)
				for _, x := range ix {
					out = append(out, int(x))
				}
				if _, ok := ix.InitCentered(int64(c+91), 9, 1, dir); ok {
					for _, x := range ix {
						out = append(out, int(x))
					}
				}
			}
			return dig(out)
		}}, task{name: "vectors", run: func() string {
			a, b := &corners[c], &corners[c+1]
			o := make([]geom.Vec, 5)
			a.AddAt(b, &o[0])
			a.SubAt(b, 10, &o[1])
			a.ScaleAt(3, &o[2])
			a.ModAt(4, &o[3])
			a.CrossAt(b, &o[4])
			return dig([]geom.Vec{*a.Add(b), *a.Sub(b, 10), *a.Scale(3), *a.Mod(4), *a.Cross(b)}, a.Dot(b), a.Norm(), o)
		}})
	}
	cb1, cb2 := &geom.CellBounds{Origin: [3]int{1, 2, 3}, Width: [3]int{4, 4, 4}}, &geom.CellBounds{Origin: [3]int{8, 8, 6}, Width: [3]int{4, 5, 6}}
	return append(ts, task{name: "cell bounds", run: func() string {
		vs := append([]geom.Vec{}, corners...)
		cb1.ScaleVecsSegment(vs, 10, 10)
		ws := append([]geom.Vec{}, corners...)
		cb1.ScaleVecsDomain(cb2, ws, 10, 10)
		return dig(cb1.Intersect(cb2, 10), cb1.IntersectUnbounded(cb2), vs, ws)
	}})
}

// newName makes an empty file of a name of its own.
func newName(dir, pattern string) string {
	f, err := os.CreateTemp(dir, pattern)
	if err != nil {
		panic(err)
	}
	f.Close()
	return f.Name()
}

func fileTasks(t *T, r *rand.Rand) []task {
	s := newSim(r, 4, 100, "waves", 0.05)
	sh := s.segments(2)[r.Intn(8)]
	sheet := filepath.Join(t.Dir, "sheet.dat")
	os.WriteFile(sheet, encodeSheet(sh, []binary.ByteOrder{binary.LittleEndian, binary.BigEndian}[r.Intn(2)]), 0644)
	gad := filepath.Join(t.Dir, "gadget")
	gg := randGadget(r, 30, r.Intn(2) == 0, r.Intn(2) == 0, 64)
	gb, _ := encodeGadget(gg, binary.LittleEndian)
	os.WriteFile(gad, gb, 0644)
	grid := filepath.Join(t.Dir, "grid.gtet")
	randGrid(r, 100, 4).write(grid)
	bounds := t.write("bounds", (&BBox{Name: "x", O: [3]float64{1, 2, 3}, W: [3]float64{1, 1, 1}}).text()+(&BBox{Name: "y", W: [3]float64{50, 20, 1}}).text())
	xs, vs := toGeom(sh.Xs), toGeom(sh.Vs)
	n := len(xs)
	hd := toSheetHeader(&sh.Hd)
	cosm := gio.NewCosmoInfo(70, 0.3, 0.7, 0.5, 100)
	ren, loc := gio.NewRenderInfo(10, 4, 1, ""), gio.NewLocationInfo([3]int{0, 1, 2}, [3]int{4, 3, 2}, 25)
	rhos := randVals(r, 24)
	check := func(err error) string {
		if err != nil {
			return "error: " + err.Error()
		}
		return ""
	}
	return []task{
		{name: "ReadSheetHeaderAt", run: func() string {
			h := &gio.SheetHeader{}
			if e := check(gio.ReadSheetHeaderAt(sheet, h)); e != "" {
				return e
			}
			return dig(fmt.Sprintf("%+v", *h))
		}},
		{name: "ReadSheetPositionsAt", run: func() string {
			o := make([]geom.Vec, n)
			if e := check(gio.ReadSheetPositionsAt(sheet, o)); e != "" {
				return e
			}
			return dig(o)
		}},
		{name: "ReadSheetVelocitiesAt", run: func() string {
			o := make([]geom.Vec, n)
			if e := check(gio.ReadSheetVelocitiesAt(sheet, o)); e != "" {
				return e
			}
			return dig(o)
		}},
		{name: "WriteSheet", run: func() string {
			f := newName(t.Dir, "w-*.dat")
			gio.WriteSheet(f, hd, xs, vs)
			b, err := os.ReadFile(f)
			if err != nil {
				return check(err)
			}
			return dig(string(b))
		}},
		{name: "SheetHeader.CellBounds", run: func() string {
			cb := hd.CellBounds(64)
			return dig(cb.Origin[:], cb.Width[:])
		}},
		{name: "ReadGadgetHeader", run: func() string {
			return dig(fmt.Sprintf("%+v", *gio.ReadGadgetHeader(gad, binary.LittleEndian, "LGadget-2")))
		}},
		{name: "ReadGadget", run: func() string {
			h, x, v, id := gio.ReadGadget(gad, binary.LittleEndian, 64, "LGadget-2")
			return dig(fmt.Sprintf("%+v", *h), x, v, fmt.Sprint(id))
		}},
		{name: "ReadGadgetParticlesAt", run: func() string {
			n := len(gg.IDs)
			x, v, id := make([]geom.Vec, n), make([]geom.Vec, n), make([]int64, n)
			gio.ReadGadgetParticlesAt(gad, binary.LittleEndian, x, v, id, 64, "LGadget-2")
			return dig(x, v, fmt.Sprint(id))
		}},
		{name: "ReadGrid", run: func() string {
			v, err := gio.ReadGrid(grid)
			if err != nil {
				return check(err)
			}
			return dig(v)
		}},
		{name: "ReadGridHeader", run: func() string {
			h, err := gio.ReadGridHeader(grid)
			if err != nil {
				return check(err)
			}
			return dig(fmt.Sprintf("%+v", *h))
		}},
		{name: "ReadBoundsConfig", run: func() string {
			b, err := gio.ReadBoundsConfig(bounds, 100)
			if err != nil {
				return check(err)
			}
			sort.Slice(b, func(i, j int) bool { return b[i].Name < b[j].Name }) // in any order
			return dig(fmt.Sprintf("%+v", b))
		}},
		{name: "WriteBuffer", run: func() string {
			f := newName(t.Dir, "g-*.gtet")
			fp, err := os.Create(f)
			if err != nil {
				return check(err)
			}
			gio.WriteBuffer(density.WrapperDensityBuffer(rhos), cosm, ren, loc, fp)
			fp.Close()
			b, err := os.ReadFile(f)
			if err != nil {
				return check(err)
			}
			return dig(string(b))
		}},
	}
}

// managerTasks: renderings and histograms of the same sheets, each with a manager and boxes of its own.
func managerTasks(t *T, r *rand.Rand) []task {
	cells := pick(r, 1, 2)
	s, dir := t.renderSim(8, cells, "waves")
	files, _ := filepath.Glob(filepath.Join(dir, "*"))
	grid := filepath.Join(t.Dir, "grid.gtet")
	randGrid(r, s.L, 4).write(grid)
	render.NumCores = 1 + r.Intn(4)
	ts := []task{}
	for k := 0; k < 2; k++ {
		nb, tp := 1+r.Intn(2), pick(r, 6, 8)
		for _, q := range []density.Quantity{density.Density, density.Velocity, density.DensityGradient, density.VelocityDivergence, density.VelocityCurl} {
			q := q
			ts = append(ts, task{name: "rendering " + q.String(), run: func() string {
				var boxes []render.Box
				for b := 0; b < nb; b++ {
					con := &gio.BoxConfig{XWidth: s.L, YWidth: s.L, ZWidth: s.L}
					con.CheckInit("b", s.L)
					boxes = append(boxes, render.NewBox(s.L, 3, tp, q, con))
				}
				man, err := render.NewManager(files, boxes, false, q)
				if err != nil {
					return "error: " + err.Error()
				}
				man.Subsample(1)
				if err := man.RenderDensity(); err != nil {
					return "error: " + err.Error()
				}
				for _, b := range boxes {
					vals, ok := b.Vals().FinalizedScalarBuffer()
					if q == density.Density && ok {
						sum := 0.0
						for _, v := range vals {
							sum += float64(v)
						}
						if m := sum / float64(len(vals)); math.Abs(m-1) > 1e-4 {
							return fmt.Sprintf("a grid of mean %g", m)
						}
					}
					if !ok {
						x, y, z, ok := b.Vals().FinalizedVectorBuffer()
						if !ok || len(x) != tp*tp*tp || len(y) != len(x) || len(z) != len(x) {
							return fmt.Sprintf("a vector grid of %d, %d and %d values", len(x), len(y), len(z))
						}
					}
				}
				return "right"
			}})
		}
		bins := 1 + r.Intn(5)
		ts = append(ts, task{name: "histogram", run: func() string {
			var boxes []render.HistBox
			for b := 0; b < nb; b++ {
				con := &gio.BoxConfig{XWidth: s.L, YWidth: s.L, ZWidth: s.L}
				con.CheckInit("b", s.L)
				boxes = append(boxes, render.NewHistBox(con, bins))
			}
			man, err := render.NewHistManager(files, boxes, 2, "Density", grid)
			if err != nil {
				return "error: " + err.Error()
			}
			man.Subsample(1)
			if err := man.Hist(&render.HistInfo{Min: 1e-3, Max: 1e4, Bins: bins, Scale: "Log"}); err != nil {
				return "error: " + err.Error()
			}
			for k := range boxes {
				sum := 0
				for _, c := range boxes[k].Counts {
					sum += c
				}
				if sum != 12*s.N*s.N*s.N {
					return fmt.Sprintf("%d samples of %d", sum, 12*s.N*s.N*s.N)
				}
			}
			return "right"
		}})
	}
	return ts
}
