package main

import (
	"fmt"
	"hash/fnv"
	"math"
	"strconv"
	"sync"

	"github.com/phil-mansfield/gotetra/math/rand"
)

func init() {
	register("C17", "Every generator type with seeds of every size; streams cut into single draws, bulk draws of any length and mixed ranges; integer ranges of 1-40 values with offsets of either sign; real ranges of every width down to neighbouring numbers; several generators interleaved and in parallel, and repeated in another process; 60,000 draws per statistical case; Sobol sequences of 1-6 dimensions restarted at random points. Non-trivial: one stream or sequence compared.",
		Group{"stream", 600, 20000, 2, c17Stream},
		Group{"ranges", 3000, 100000, 2, c17Ranges},
		Group{"ints", 900, 30000, 2, c17Ints},
		Group{"statistics", 600, 30000, 6, c17Statistics},
		Group{"interleaved", 300, 10000, 2, c17Interleaved},
		Group{"process", 18, 60, 2, c17Process},
		Group{"sobol", 400, 8000, 4, c17Sobol},
		Group{"refused", 12, 40, 2, c17Refused})
	ops["rand"] = opRand
	ops["sobol"] = opSobol
}

func c17Seed(t *T) uint64 {
	r := t.R
	switch r.Intn(5) {
	case 4:
		return xorshiftEdge(r.Intn(8)) | uint64(r.Intn(2)*r.Intn(1<<30))<<32
	case 0:
		return uint64(r.Intn(5))
	case 1:
		return math.MaxUint64 - uint64(r.Intn(3))
	case 2:
		return uint64(r.Intn(1 << 20))
	}
	return r.Uint64()
}

// xorshiftEdge is the seed of the 128-bit xorshift stream whose word k/2 (0 to 3) is 0 or the largest
// one. These map to the ends of [0, 1], and 1 itself must not be returned.
func xorshiftEdge(k int) uint64 {
	word := uint32(0)
	if k%2 == 1 {
		word = math.MaxUint32
	}
	ts := []uint32{123456789, 362436069, 521288629}
	for n := k / 2; ; n-- {
		if n == 3 {
			n = 2 // the fourth word depends on the seed in two places
		}
		t := ts[n] ^ ts[n]<<11
		t ^= t >> 8
		w := word ^ t
		word = w ^ w>>19
		if n == 0 {
			return uint64(word)
		}
	}
}

// draw takes n values as a random mixture of single and bulk draws.
func (t *T) draw(g *rand.Generator, n int, lo, hi float64) []float64 {
	r := t.R
	out := make([]float64, 0, n)
	for len(out) < n {
		if r.Intn(2) == 0 {
			out = append(out, g.Uniform(lo, hi))
			continue
		}
		k := r.Intn(30)
		if r.Intn(5) == 0 {
			k = r.Intn(3000)
		}
		if k > n-len(out) {
			k = n - len(out)
		}
		b := make([]float64, k)
		for j := range b {
			b[j] = 77
		}
		g.UniformAt(lo, hi, b)
		out = append(out, b...)
	}
	return out
}

func c17Stream(t *T, i int) {
	r := t.R
	gt := c15Gens[i%3]
	seed := c17Seed(t)
	n := 100 + r.Intn(25000)
	one := rand.New(gt, seed)
	want := make([]float64, n)
	for k := range want {
		want[k] = one.Uniform(0, 1)
		t.Eval(1)
		if !(want[k] >= 0 && want[k] < 1) {
			t.Failf("stream/range", "generator %d seeded with %d returns %v as draw %d", gt, seed, want[k], k)
			return
		}
	}
	same := func(what string, got []float64) {
		for k := range want {
			t.Eval(1)
			if got[k] != want[k] {
				t.Failf("stream/repeat", "generator %d seeded with %d: draw %d is %v by single draws and %v by %s", gt, seed, k, want[k], got[k], what)
				return
			}
		}
	}
	same("a fresh generator with mixed single and bulk draws", t.draw(rand.New(gt, seed), n, 0, 1))
	bulk := make([]float64, n)
	rand.New(gt, seed).UniformAt(0, 1, bulk)
	same("one bulk draw", bulk)
	// Other generators, and other seeds, have other streams.
	for _, o := range c15Gens {
		s := seed
		if o == gt {
			s = seed ^ uint64(1+r.Intn(1<<31))
		}
		g := rand.New(o, s)
		eq := 0
		for k := 0; k < 50; k++ {
			if g.Uniform(0, 1) == want[k] {
				eq++
			}
		}
		if eq > 10 {
			t.Failf("stream/seed", "generator %d seeded with %d repeats %d of 50 values of generator %d seeded with %d", o, s, eq, gt, seed)
		}
	}
	ts := rand.NewTimeSeed(gt)
	for k := 0; k < 20; k++ {
		if x := ts.Uniform(0, 1); !(x >= 0 && x < 1) {
			t.Failf("stream/range", "a generator seeded with the time returns %v", x)
		}
	}
	t.Count("draws", 3*n)
	t.Nontrivial("%d %d %d", gt, seed, n)
}

func c17Ranges(t *T, i int) {
	r := t.R
	gt := c15Gens[i%3]
	seed := c17Seed(t)
	lo := r.NormFloat64() * math.Exp(8*r.NormFloat64())
	if r.Intn(5) == 0 {
		lo = float64(r.Intn(3)) - 1
	}
	hi := lo + math.Exp(8*r.NormFloat64())
	if r.Intn(5) == 0 { // round limits, of unit width or width equal to a limit
		lo = []float64{0, 1, -1, 2, 5, -3, 0.5, 1e6}[r.Intn(8)]
		hi = lo + []float64{1, 2, 0.5, 10, math.Abs(lo)}[r.Intn(5)]
	}
	if r.Intn(3) == 0 {
		hi = lo
		for k := 1 + r.Intn(5); k > 0; k-- {
			hi = math.Nextafter(hi, math.Inf(1))
		}
	}
	if !(hi > lo) {
		return
	}
	n := 300
	unit := t.draw(rand.New(gt, seed), n, 0, 1)
	got := t.draw(rand.New(gt, seed), n, lo, hi)
	bulk := make([]float64, n)
	rand.New(gt, seed).UniformAt(lo, hi, bulk)
	for k := range got {
		t.Eval(1)
		if !(got[k] >= lo && got[k] < hi) {
			t.Failf("ranges/range", "Uniform(%v, %v) returns %v (generator %d, seed %d, draw %d)", lo, hi, got[k], gt, seed, k)
			return
		}
		if got[k] != bulk[k] {
			t.Failf("ranges/bulk", "UniformAt(%v, %v) gives %v where Uniform gives %v", lo, hi, bulk[k], got[k])
			return
		}
		if want := lo + unit[k]*(hi-lo); !(math.Abs(got[k]-want) <= 1e-15*(math.Abs(lo)+math.Abs(hi))+1e-300) {
			t.Failf("ranges/value", "Uniform(%v, %v) returns %v where the unit draw is %v", lo, hi, got[k], unit[k])
			return
		}
	}
	t.Nontrivial("%v %v", lo, hi)
}

func c17Ints(t *T, i int) {
	r := t.R
	gt := c15Gens[i%3]
	seed := c17Seed(t)
	m := 1 + r.Intn(40)
	lo := r.Intn(100) - 50
	if r.Intn(3) == 0 {
		lo = 0
	} else if r.Intn(4) == 0 {
		lo = (r.Intn(3) - 1) * (1 << uint(20+r.Intn(33)))
	}
	g := rand.New(gt, seed)
	c := make([]float64, m)
	n := 400 * m
	for k := 0; k < n; k++ {
		x := g.UniformInt(lo, lo+m)
		t.Eval(1)
		if x < lo || x >= lo+m {
			t.Failf("ints/range", "UniformInt(%d, %d) returns %d (generator %d, seed %d, draw %d)", lo, lo+m, x, gt, seed, k)
			return
		}
		c[x-lo]++
	}
	for k, x := range c {
		if x == 0 {
			t.Failf("ints/reach", "UniformInt(%d, %d) never returns %d in %d draws (generator %d, seed %d)", lo, lo+m, lo+k, n, gt, seed)
			return
		}
	}
	t.chi2("ints/uniform", fmt.Sprintf("UniformInt(%d, %d), generator %d, seed %d", lo, lo+m, gt, seed), c)
	t.Nontrivial("%d %d %d %d", gt, seed, lo, m)
}

// chi2 tests that counts are equal up to chance.
func (t *T) chi2(site, what string, c []float64) {
	sum := 0.0
	for _, x := range c {
		sum += x
	}
	e := sum / float64(len(c))
	x2 := 0.0
	for _, x := range c {
		x2 += (x - e) * (x - e) / e
	}
	df := float64(len(c) - 1)
	if df == 0 {
		return
	}
	// Wilson-Hilferty: the cube root is close to normal.
	z := (math.Cbrt(x2/df) - (1 - 2/(9*df))) / math.Sqrt(2/(9*df))
	t.Eval(1)
	t.Max("largest_chi2_z", z)
	t.Max("largest_negative_chi2_z", -z)
	if z > 7 || z < -7 {
		t.Failf(site, "%s: counts over %d classes have chi-squared %.1f (%.1f standard deviations)", what, len(c), x2, z)
	}
}

func c17Statistics(t *T, i int) {
	r := t.R
	gt := c15Gens[i%3]
	seed := c17Seed(t)
	n := 60000
	g := rand.New(gt, seed)
	x := t.draw(g, n, 0, 1)
	what := fmt.Sprintf("generator %d, seed %d", gt, seed)
	one := make([]float64, 256)
	for _, v := range x {
		one[int(v*256)]++
	}
	t.chi2("statistics/uniform", what, one)
	// Low-order structure within the first sixteen bits.
	low := make([]float64, 256)
	for _, v := range x {
		low[int(v*65536)&255]++
	}
	t.chi2("statistics/low-bits", what, low)
	for _, lag := range []int{1, 2, 3, 4, 1 + r.Intn(20), 1 + r.Intn(1000)} {
		pair := make([]float64, 256)
		cor := 0.0
		for k := 0; k+lag < n; k++ {
			pair[int(x[k]*16)*16+int(x[k+lag]*16)]++
			cor += (x[k] - 0.5) * (x[k+lag] - 0.5)
		}
		w := fmt.Sprintf("%s, pairs %d apart", what, lag)
		t.chi2("statistics/pairs", w, pair)
		z := 12 * cor / math.Sqrt(float64(n-lag))
		t.Eval(1)
		t.Max("largest_correlation_z", math.Abs(z))
		if math.Abs(z) > 6.5 {
			t.Failf("statistics/correlation", "%s: correlation %.4f (%.1f standard deviations)", w, 12*cor/float64(n-lag), z)
		}
	}
	tri := make([]float64, 512)
	for k := 0; k+2 < n; k += 3 {
		tri[int(x[k]*8)*64+int(x[k+1]*8)*8+int(x[k+2]*8)]++
	}
	t.chi2("statistics/triples", what+", triples", tri)
	t.Count("draws", n)
	t.Nontrivial("%d %d", gt, seed)
}

func c17Interleaved(t *T, i int) {
	r := t.R
	m := 2 + r.Intn(5)
	type gen struct {
		gt   rand.GeneratorType
		seed uint64
		g    *rand.Generator
		got  []float64
	}
	gs := make([]*gen, m)
	for k := range gs {
		gs[k] = &gen{gt: c15Gens[r.Intn(3)], seed: c17Seed(t)}
		if k > 0 && r.Intn(3) == 0 {
			gs[k].gt, gs[k].seed = gs[0].gt, gs[0].seed
		}
	}
	par := r.Intn(2) == 0
	if par {
		var wg sync.WaitGroup
		for _, g := range gs {
			wg.Add(1)
			go func(g *gen) {
				defer wg.Done()
				g.g = rand.New(g.gt, g.seed)
				for k := 0; k < 30; k++ {
					b := make([]float64, 100)
					g.g.UniformAt(0, 1, b)
					g.got = append(g.got, b...)
				}
			}(g)
		}
		wg.Wait()
	} else {
		for k := 0; k < 200; k++ {
			g := gs[r.Intn(m)]
			if g.g == nil {
				g.g = rand.New(g.gt, g.seed)
			}
			g.got = append(g.got, t.draw(g.g, 1+r.Intn(60), 0, 1)...)
		}
	}
	for k, g := range gs {
		alone := rand.New(g.gt, g.seed)
		for j, x := range g.got {
			t.Eval(1)
			if y := alone.Uniform(0, 1); y != x {
				t.Failf("interleaved", "generator %d of %d (type %d, seed %d) gives %v as draw %d beside others (parallel %v) and %v alone", k, m, g.gt, g.seed, x, j, par, y)
				return
			}
		}
	}
	t.Nontrivial("%d", i)
}

func randHash(gt rand.GeneratorType, seed uint64) string {
	g := rand.New(gt, seed)
	h := fnv.New64a()
	for k := 0; k < 3000; k++ {
		fmt.Fprint(h, g.Uniform(0, 1), g.UniformInt(0, 1000))
	}
	return fmt.Sprint(h.Sum64())
}

func opRand(a []string) {
	gt, _ := strconv.Atoi(a[0])
	seed, _ := strconv.ParseUint(a[1], 10, 64)
	fmt.Println(randHash(rand.GeneratorType(gt), seed))
}

func c17Process(t *T, i int) {
	gt := c15Gens[i%3]
	seed := c17Seed(t)
	// Warm up this process's generators first.
	randHash(c15Gens[t.R.Intn(3)], c17Seed(t))
	res, ok := t.op("rand", fmt.Sprint(gt), fmt.Sprint(seed))
	want := randHash(gt, seed)
	t.Eval(1)
	if !ok || len(res.Out) < len(want) || res.Out[:len(want)] != want {
		t.Failf("process", "generator %d seeded with %d gives another stream in another process: %s and %s", gt, seed, want, res.Out)
	}
	t.Nontrivial("%d %d", gt, seed)
}

// sobolRef gives point n of the Sobol sequence built from the primitive polynomials and initial
// direction integers of Press et al., by multiplication in the m_i form rather than by shifted words.
func sobolRef(n int, dims int) []float64 {
	polys := []struct {
		deg int
		a   []int // inner coefficients a_1..a_{deg-1}
		m   []uint64
	}{
		{1, nil, []uint64{1}},
		{2, []int{1}, []uint64{1, 1}},
		{3, []int{0, 1}, []uint64{1, 3, 7}},
		{3, []int{1, 0}, []uint64{1, 3, 3}},
		{4, []int{0, 0, 1}, []uint64{1, 1, 3, 13}},
		{4, []int{1, 0, 0}, []uint64{1, 1, 5, 9}},
	}
	out := make([]float64, dims)
	gray := n ^ n>>1
	for d := range out {
		p := polys[d]
		m := append([]uint64{}, p.m...)
		for len(m) < 24 {
			k := len(m)
			x := m[k-p.deg] ^ m[k-p.deg]<<uint(p.deg)
			for q := 1; q < p.deg; q++ {
				if p.a[q-1] == 1 {
					x ^= m[k-q] << uint(q)
				}
			}
			m = append(m, x)
		}
		v := uint64(0)
		for b := 0; gray>>uint(b) > 0; b++ {
			if gray>>uint(b)&1 == 1 {
				v ^= m[b] << uint(30-b-1)
			}
		}
		out[d] = float64(v) / (1 << 30)
	}
	return out
}

func c17Sobol(t *T, i int) {
	r := t.R
	dims := 1 + i%6
	seq := rand.NewSobolSequence()
	if r.Intn(3) == 0 {
		seq = &rand.SobolSequence{}
		seq.Init()
	}
	run := func(n int, what string) [][]float64 {
		pts := [][]float64{make([]float64, dims)} // the implied point 0
		for k := 1; k < n; k++ {
			var p []float64
			if r.Intn(2) == 0 {
				p = seq.Next(dims)
			} else {
				p = make([]float64, dims)
				for j := range p {
					p[j] = 9
				}
				seq.NextAt(p)
			}
			t.Eval(1)
			if len(p) != dims {
				t.Failf("sobol/len", "Next(%d) returns %d values", dims, len(p))
				return nil
			}
			for j, x := range p {
				if !(x >= 0 && x < 1) {
					t.Failf("sobol/range", "point %d %s has coordinate %d = %v", k, what, j, x)
					return nil
				}
			}
			if w := sobolRef(k, dims); fmt.Sprint(w) != fmt.Sprint(p) {
				t.Failf("sobol/reference", "point %d %s of the %d-dimensional sequence is %v, want %v", k, what, dims, p, w)
				return nil
			}
			pts = append(pts, p)
		}
		return pts
	}
	bits := 1 + r.Intn(9)
	if t.Thorough {
		bits = 1 + r.Intn(13)
	}
	if i%100 == 33 {
		bits = 14 + r.Intn(3)
	}
	blocks := 1 + r.Intn(4)
	pts := run(blocks<<uint(bits), "after construction")
	if pts == nil {
		return
	}
	for b := 0; b < blocks; b++ {
		for j := 0; j < dims; j++ {
			seen := make([]int, 1<<uint(bits))
			for _, p := range pts[b<<uint(bits) : (b+1)<<uint(bits)] {
				seen[int(p[j]*float64(len(seen)))]++
			}
			t.Eval(len(seen))
			for k, c := range seen {
				if c != 1 {
					t.Failf("sobol/net", "coordinate %d of points %d-%d visits interval %d of %d %d times", j, b<<uint(bits), (b+1)<<uint(bits)-1, k, len(seen), c)
					return
				}
			}
		}
	}
	for k := 0; k < 2; k++ {
		seq.Init()
		if run(2+r.Intn(100), fmt.Sprintf("after Init number %d", k+2)) == nil {
			return
		}
	}
	t.Nontrivial("%d %d %d", dims, bits, blocks)
}

func opSobol(a []string) {
	n, _ := strconv.Atoi(a[0])
	rand.NewSobolSequence().Next(n)
}

func c17Refused(t *T, i int) {
	if i%2 == 0 {
		n := 7 + t.R.Intn(20)
		if i == 0 {
			n = 7
		}
		t.opRefused("refused/dim", fmt.Sprintf("a Sobol point of %d dimensions", n), "sobol", fmt.Sprint(n))
	} else {
		gt := rand.GeneratorType(3 + t.R.Intn(250))
		t.Refuses("refused/type", fmt.Sprintf("generator type %d", gt), func() error { rand.New(gt, 1); return nil })
	}
	t.Nontrivial("%d", i)
}
