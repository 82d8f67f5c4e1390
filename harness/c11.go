package main

import (
	"fmt"
	"io/ioutil"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func init() {
	register("C11", "Every kind of invalid request (a table of faults per mode, applied to otherwise valid random requests) is given to the program; its exit status, message and output files are inspected. Valid requests with random subsets of the documented options must be accepted, with the defaults recorded in their output. Non-trivial: a faulty request was run, or a valid one with at least one option left out.",
		Group{"invalid", 400, 4000, 5, c11Invalid},
		Group{"valid", 120, 2000, 6, c11Valid})
}

// kv is a config file under construction.
type kv struct {
	mode string
	keys []string
	vals map[string]string
}

func newKV(mode string, pairs ...string) *kv {
	c := &kv{mode: mode, vals: map[string]string{}}
	for i := 0; i < len(pairs); i += 2 {
		c.set(pairs[i], pairs[i+1])
	}
	return c
}

func (c *kv) set(k, v string) {
	if _, ok := c.vals[k]; !ok {
		c.keys = append(c.keys, k)
	}
	c.vals[k] = v
}

func (c *kv) del(k string) {
	delete(c.vals, k)
	var ks []string
	for _, x := range c.keys {
		if x != k {
			ks = append(ks, x)
		}
	}
	c.keys = ks
}

func (c *kv) text() string {
	s := "[" + c.mode + "]\n"
	for _, k := range c.keys {
		s += k + " = " + c.vals[k] + "\n"
	}
	return s
}

// req is a request of the program.
type req struct {
	cfg     *kv
	cfgText string // instead of cfg
	flags   []string
	bounds  []string // texts of bounds files
	args    []string // instead of everything else
	// Directories and parameters.
	in, out, dir string
	s            *Sim
	cells        int
	noCfg        bool
}

func (t *T) validReq(mode string) *req {
	r := t.R
	q := &req{dir: t.Dir, out: t.mkdir("out"), cells: 2}
	q.s = newSim(r, 8, boxL(r), "waves", 0.05)
	q.in = filepath.Join(t.Dir, "in")
	b := pixBox(r, "target", [3]int{r.Intn(8), r.Intn(8), r.Intn(8)}, [3]int{5, 5, 5}, q.s.L, 8, randAxis(r, 0.5))
	q.bounds = []string{b.text()}
	switch mode {
	case "Render":
		writeSheets(q.in, q.s.segments(q.cells), stdSheetName)
		q.cfg = newKV(mode, "Quantity", "Density", "Input", q.in, "Output", q.out, "TotalPixels", "8", "Particles", "3")
	case "TetraHist":
		writeSheets(q.in, q.s.segments(q.cells), stdSheetName)
		gf := filepath.Join(t.Dir, "grid.gtet")
		randGrid(r, q.s.L, 8).write(gf)
		q.cfg = newKV(mode, "Quantity", "Density", "Input", q.in, "Output", q.out, "HistMin", "0.1", "HistMax", "100", "HistBins", "10",
			"HistScale", []string{"Log", "Linear"}[r.Intn(2)], "Particles", "3", "GridFile", gf)
	case "ConvertSnapshot":
		q.s.writeSnap(r, q.in, gadgetOpts{Files: 1 + r.Intn(3), IDSize: 64})
		q.cfg = newKV(mode, "Input", q.in, "Output", q.out, "InputFormat", []string{"LGadget-2", "Arepo-type-2"}[r.Intn(2)], "Cells", "2")
		q.bounds = nil
	}
	return q
}

func (q *req) run(t *T) *RunResult {
	if q.args != nil {
		return t.cli(q.args...)
	}
	args := append([]string{}, q.flags...)
	text := q.cfgText
	if text == "" {
		text = q.cfg.text()
	}
	mode := "Render"
	if q.cfg != nil {
		mode = q.cfg.mode
	}
	f := filepath.Join(t.Dir, "request.cfg")
	if !q.noCfg {
		t.write(f, text)
	}
	args = append(args, "-"+mode, f)
	for i, b := range q.bounds {
		args = append(args, t.write(fmt.Sprintf("bounds%d.txt", i), b))
	}
	return t.cli(args...)
}

// outputs lists the grid, histogram and sheet files a request left behind.
func (q *req) outputs() []string {
	var out []string
	filepath.Walk(q.dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			rel, _ := filepath.Rel(q.dir, p)
			if strings.HasPrefix(rel, "in") || strings.HasPrefix(rel, "bounds") || rel == "grid.gtet" || strings.HasPrefix(rel, "request") ||
				strings.HasSuffix(rel, ".out") || strings.HasPrefix(rel, "given") {
				return nil
			}
			out = append(out, rel)
		}
		return nil
	})
	sort.Strings(out)
	return out
}

type badReq struct {
	what string
	mode string
	mod  func(t *T, q *req)
}

var badReqs = makeBadReqs()

func makeBadReqs() []badReq {
	var out []badReq
	add := func(mode, what string, f func(t *T, q *req)) {
		for _, m := range strings.Fields(mode) {
			out = append(out, badReq{what, m, f})
		}
	}
	set := func(k, v string) func(t *T, q *req) { return func(t *T, q *req) { q.cfg.set(k, v) } }
	del := func(k string) func(t *T, q *req) { return func(t *T, q *req) { q.cfg.del(k) } }
	all, boxed := "Render TetraHist ConvertSnapshot", "Render TetraHist"
	// Command line.
	add("Render", "no mode", func(t *T, q *req) { q.args = []string{"-Threads", "2"} })
	add("Render", "no arguments", func(t *T, q *req) { q.args = []string{"bounds.txt"} })
	add("Render", "unknown flag", func(t *T, q *req) { q.flags = []string{"-Renderr", "x"} })
	add("Render", "unknown ExampleConfig", func(t *T, q *req) { q.args = []string{"-ExampleConfig", "Bogus"} })
	add(all, "two modes", func(t *T, q *req) {
		other := []string{"Render", "TetraHist", "ConvertSnapshot", "ExampleConfig"}[t.R.Intn(4)]
		if other == q.cfg.mode {
			other = "ExampleConfig"
		}
		q.flags = []string{"-" + other, map[bool]string{true: "Box", false: t.write("request2.cfg", q.cfg.text())}[other == "ExampleConfig"]}
	})
	add(all, "all modes", func(t *T, q *req) {
		f := t.write("request2.cfg", q.cfg.text())
		q.args = []string{"-Render", f, "-TetraHist", f, "-ConvertSnapshot", f}
	})
	for _, v := range []string{"0", "-1", "-100"} {
		v := v
		add(all, "Threads "+v, func(t *T, q *req) { q.flags = []string{"-Threads", v} })
	}
	// Config files.
	add(all, "config missing", func(t *T, q *req) { q.noCfg = true })
	add(all, "config garbage", func(t *T, q *req) { q.cfgText = "\x00\x01 this is no config = [" })
	add(all, "config empty", func(t *T, q *req) { q.cfgText = "\n" })
	add(all, "wrong section", func(t *T, q *req) { q.cfgText = strings.Replace(q.cfg.text(), q.cfg.mode, "Rendering", 1) })
	add(all, "unknown key", set("Bogus", "3"))
	add(all, "Input missing", del("Input"))
	add(all, "Output missing", del("Output"))
	add(all, "Input does not exist", func(t *T, q *req) { q.cfg.set("Input", filepath.Join(t.Dir, "inn")) })
	add(all, "Input is a file", func(t *T, q *req) { q.cfg.set("Input", t.write("given.txt", "hello")) })
	add(all, "Input is empty", func(t *T, q *req) { q.cfg.set("Input", t.mkdir("in_empty")) })
	add(boxed, "Output does not exist", func(t *T, q *req) { q.cfg.set("Output", filepath.Join(t.Dir, "no", "where")) })
	add(all, "LogFile cannot be made", func(t *T, q *req) {
		if q.cfg.mode == "ConvertSnapshot" {
			q.cfg.set("Cells", "0") // LogFile is not used by ConvertSnapshot
		}
		q.cfg.set("LogFile", filepath.Join(t.Dir, "no", "log"))
	})
	add("Render TetraHist", "ProfileFile cannot be made", func(t *T, q *req) { q.cfg.set("ProfileFile", filepath.Join(t.Dir, "no", "prof")) })
	add("Render TetraHist", "no bounds file", func(t *T, q *req) { q.bounds = nil })
	add("Render TetraHist", "bounds without boxes", func(t *T, q *req) { q.bounds = []string{"# nothing here\n"} })
	add("Render TetraHist", "bounds garbage", func(t *T, q *req) { q.bounds = append(q.bounds, "not a bounds file") })
	add("Render TetraHist", "same box name", func(t *T, q *req) { q.bounds = append(q.bounds, q.bounds[0]) })
	add("Render TetraHist", "invalid box", func(t *T, q *req) {
		q.bounds = append(q.bounds, fmt.Sprintf("[Box \"second\"]\nX = 0\nY = 0\nZ = %s\nXWidth = 0.1\nYWidth = 0.1\nZWidth = 0.1\n", ff(q.s.L)))
	})
	add("Render TetraHist", "invalid ball", func(t *T, q *req) {
		q.bounds = append([]string{"[Ball \"first\"]\nX = 0\nY = 0\nZ = 0\nRadius = -1\n"}, q.bounds...)
	})
	add("Render TetraHist", "unknown axis", func(t *T, q *req) {
		q.bounds = append(q.bounds, "[Box \"second\"]\nX = 0\nY = 0\nZ = 0\nXWidth = 0.1\nYWidth = 0.1\nZWidth = 0.1\nProjectionAxis = A\n")
	})
	for _, v := range []string{"0", "3", "-1", "-2", "6", "12", "8", "16", "1024"} {
		// 8 and more exceed the segments of four cells.
		add("Render TetraHist", "SubsampleLength "+v, set("SubsampleLength", v))
	}
	add("Render TetraHist", "Particles missing", del("Particles"))
	add("Render TetraHist", "Particles 0", set("Particles", "0"))
	add("Render TetraHist", "Particles negative", set("Particles", "-5"))
	add("Render TetraHist", "Particles text", set("Particles", "many"))
	add("Render TetraHist", "Quantity missing", del("Quantity"))
	add("Render TetraHist", "Quantity unknown", set("Quantity", "Temperature"))
	add("TetraHist", "Quantity unsupported", set("Quantity", "Velocity"))
	add("Render TetraHist", "Quantity partial", set("Quantity", "Dens"))
	// Sheets.
	add("Render TetraHist", "garbage sheet", func(t *T, q *req) {
		t.write(filepath.Join(q.in, stdSheetName(t.R.Intn(8))), "not a sheet")
	})
	add("Render TetraHist", "truncated sheet", func(t *T, q *req) {
		f := filepath.Join(q.in, stdSheetName(t.R.Intn(8)))
		b, _ := ioutil.ReadFile(f)
		t.write(f, string(b[:t.R.Intn(240)]))
	})
	add("Render", "truncated positions", func(t *T, q *req) {
		q.bounds = []string{fmt.Sprintf("[Box \"b\"]\nX = 0\nY = 0\nZ = 0\nXWidth = %s\nYWidth = %s\nZWidth = %s\n", ff(q.s.L), ff(q.s.L), ff(q.s.L))}
		f := filepath.Join(q.in, stdSheetName(t.R.Intn(8)))
		b, _ := ioutil.ReadFile(f)
		t.write(f, string(b[:len(b)*2/5]))
	})
	add("TetraHist", "truncated positions", func(t *T, q *req) {
		q.bounds = []string{fmt.Sprintf("[Box \"b\"]\nX = 0\nY = 0\nZ = 0\nXWidth = %s\nYWidth = %s\nZWidth = %s\n", ff(q.s.L), ff(q.s.L), ff(q.s.L))}
		f := filepath.Join(q.in, stdSheetName(t.R.Intn(8)))
		b, _ := ioutil.ReadFile(f)
		t.write(f, string(b[:len(b)*2/5]))
	})
	// Render.
	add("Render", "no pixel scale", del("TotalPixels"))
	add("Render", "TotalPixels 0", set("TotalPixels", "0"))
	add("Render", "TotalPixels negative", set("TotalPixels", "-4"))
	add("Render", "TotalPixels text", set("TotalPixels", "large"))
	add("Render", "ImagePixels negative", func(t *T, q *req) { q.cfg.del("TotalPixels"); q.cfg.set("ImagePixels", "-4") })
	add("Render", "ImagePixels 0", func(t *T, q *req) { q.cfg.del("TotalPixels"); q.cfg.set("ImagePixels", "0") })
	add("Render", "ImagePixels of a box larger than the simulation", func(t *T, q *req) {
		q.cfg.set("ImagePixels", "4")
		q.bounds = append(q.bounds, fmt.Sprintf("[Box \"b\"]\nX = 0\nY = 0\nZ = 0\nXWidth = 0.1\nYWidth = %s\nZWidth = 0.1\n", ff(1.5*q.s.L)))
	})
	add("Render", "ProjectionDepth negative", func(t *T, q *req) { q.cfg.del("Particles"); q.cfg.set("ProjectionDepth", "-1") })
	add("Render", "AutoParticles false", func(t *T, q *req) { q.cfg.del("Particles"); q.cfg.set("AutoParticles", "false") })
	// TetraHist.
	add("TetraHist", "HistMin missing", func(t *T, q *req) { q.cfg.set("HistScale", "Log"); q.cfg.del("HistMin") })
	add("TetraHist", "HistMax missing", del("HistMax"))
	add("TetraHist", "HistMin = HistMax", set("HistMin", "100"))
	add("TetraHist", "HistMin > HistMax", set("HistMin", "101"))
	add("TetraHist", "HistMin NaN", set("HistMin", "NaN"))
	add("TetraHist", "HistMax NaN", set("HistMax", "NaN"))
	add("TetraHist", "HistMax infinite", set("HistMax", "+Inf"))
	add("TetraHist", "HistMin infinite", func(t *T, q *req) { q.cfg.set("HistScale", "Linear"); q.cfg.set("HistMin", "-Inf") })
	add("TetraHist", "Log of 0", func(t *T, q *req) { q.cfg.set("HistScale", "Log"); q.cfg.set("HistMin", "0") })
	add("TetraHist", "Log of a negative", func(t *T, q *req) { q.cfg.set("HistScale", "Log"); q.cfg.set("HistMin", "-1") })
	add("TetraHist", "Log of negatives", func(t *T, q *req) {
		q.cfg.set("HistScale", "Log")
		q.cfg.set("HistMin", "-3")
		q.cfg.set("HistMax", "-1")
	})
	add("TetraHist", "HistBins 0", set("HistBins", "0"))
	add("TetraHist", "HistBins negative", set("HistBins", "-10"))
	add("TetraHist", "HistBins missing", del("HistBins"))
	add("TetraHist", "HistScale missing", del("HistScale"))
	add("TetraHist", "HistScale unknown", set("HistScale", "Sqrt"))
	add("TetraHist", "HistScale empty", set("HistScale", "\"\""))
	add("TetraHist", "GridFile missing", del("GridFile"))
	add("TetraHist", "GridFile does not exist", func(t *T, q *req) { q.cfg.set("GridFile", filepath.Join(t.Dir, "no.gtet")) })
	add("TetraHist", "GridFile truncated", func(t *T, q *req) {
		b, _ := ioutil.ReadFile(filepath.Join(t.Dir, "grid.gtet"))
		t.write("grid.gtet", string(b[:t.R.Intn(len(b))]))
	})
	add("TetraHist", "GridFile garbage", func(t *T, q *req) { t.write("grid.gtet", strings.Repeat("garbage ", 2000)) })
	// ConvertSnapshot.
	add("ConvertSnapshot", "Cells missing", del("Cells"))
	for _, v := range []string{"0", "-1", "-2", "3", "5", "16", "7", "text"} {
		add("ConvertSnapshot", "Cells "+v, set("Cells", v))
	}
	for _, v := range []string{"16", "0", "-32", "63", "128", "65", "33", "abc"} {
		add("ConvertSnapshot", "Gadget2IDSize "+v, set("Gadget2IDSize", v))
	}
	add("ConvertSnapshot", "InputFormat missing", del("InputFormat"))
	add("ConvertSnapshot", "InputFormat unknown", set("InputFormat", "Gadget-3"))
	add("ConvertSnapshot", "InputFormat case", set("InputFormat", "lgadget-2-x"))
	add("ConvertSnapshot", "only IteratedInput", func(t *T, q *req) { q.cfg.set("IteratedInput", filepath.Join(t.Dir, "in%d")) })
	add("ConvertSnapshot", "only IteratedOutput", func(t *T, q *req) { q.cfg.set("IteratedOutput", filepath.Join(t.Dir, "o%d")) })
	add("ConvertSnapshot", "only IteratedInput without Input", func(t *T, q *req) {
		q.cfg.del("Input")
		q.cfg.set("IteratedInput", filepath.Join(t.Dir, "in%d"))
	})
	add("ConvertSnapshot", "only IteratedOutput without Output", func(t *T, q *req) {
		q.cfg.del("Output")
		q.cfg.set("IteratedOutput", filepath.Join(t.Dir, "o%d"))
	})
	add("ConvertSnapshot", "iteration start does not exist", func(t *T, q *req) {
		q.cfg.set("IteratedInput", filepath.Join(t.Dir, "in_it%d"))
		q.cfg.set("IteratedOutput", filepath.Join(t.Dir, "o%d"))
	})
	add("ConvertSnapshot", "garbage snapshot", func(t *T, q *req) { t.write(filepath.Join(q.in, "zzz"), strings.Repeat("garbage ", 300)) })
	add("ConvertSnapshot", "truncated snapshot", func(t *T, q *req) {
		fs, _ := filepath.Glob(filepath.Join(q.in, "*"))
		b, _ := ioutil.ReadFile(fs[len(fs)-1])
		t.write(fs[len(fs)-1], string(b[:100+t.R.Intn(len(b)-100)]))
	})
	return out
}

// tidyPanic lists the faults of the data (not of the request) for which a panic is not objected to.
func dataFault(what string) bool {
	return strings.Contains(what, "garbage s") || strings.Contains(what, "truncated s") || strings.Contains(what, "truncated p") ||
		strings.Contains(what, "GridFile t") || strings.Contains(what, "GridFile g")
}

func c11Invalid(t *T, i int) {
	mixed := i >= len(badReqs)
	if mixed && !t.Thorough {
		i = t.R.Intn(len(badReqs))
	}
	f := badReqs[i%len(badReqs)]
	q := t.validReq(f.mode)
	if mixed {
		// Other options, which are fine by themselves, around the fault.
		opts := map[string][][2]string{
			"Render": {{"AppendName", "_a"}, {"PrependName", "p_"}, {"SubsampleLength", "2"}, {"LogFile", filepath.Join(t.Dir, "log.out")},
				{"ProfileFile", filepath.Join(t.Dir, "prof.out")}, {"Quantity", quantities[t.R.Intn(len(quantities))]}},
			"TetraHist": {{"AppendName", "_a"}, {"PrependName", "p_"}, {"SubsampleLength", "2"}, {"LogFile", filepath.Join(t.Dir, "log.out")},
				{"ProfileFile", filepath.Join(t.Dir, "prof.out")}},
			"ConvertSnapshot": {{"XUnits", "1e-3"}, {"VUnits", "2"}, {"MUnits", "1e10"}, {"Gadget2IDSize", "64"}, {"IterationEnd", "3"}},
		}[f.mode]
		for _, o := range opts {
			if t.R.Intn(2) == 0 && !(f.what == "iteration start does not exist" && o[0] == "IterationEnd") {
				q.cfg.set(o[0], o[1])
			}
		}
		if t.R.Intn(2) == 0 {
			q.flags = []string{"-Threads", fmt.Sprint(1 + t.R.Intn(10))}
		}
	}
	f.mod(t, q)
	res := q.run(t)
	t.Eval(1)
	t.Count("invalid_requests", 1)
	t.Nontrivial(f.mode + f.what)
	site := "invalid/" + f.mode + "/" + f.what
	desc := fmt.Sprintf("%s with the fault %q", f.mode, f.what)
	if q.cfg != nil {
		desc += "\n" + q.cfg.text()
	}
	if i < 4 {
		t.Sample("%s: exit %d, message %q", f.mode+": "+f.what, res.Code, strings.TrimSpace(res.Err))
	}
	if res.Hung {
		t.Failf(site, "%s: hung", desc)
		return
	}
	if res.Code == 0 {
		t.Failf(site, "%s: exit status 0", desc)
		return
	}
	logged, _ := ioutil.ReadFile(filepath.Join(t.Dir, "log.out"))
	if strings.TrimSpace(res.Err+res.Out+string(logged)) == "" {
		t.Failf(site, "%s: no message", desc)
	}
	if res.Crashed() && !dataFault(f.what) {
		t.Failf(site, "%s: crashed instead of exiting with a message: %s", desc, res.Tail())
	}
	if o := q.outputs(); len(o) > 0 {
		t.Failf(site, "%s: exit status %d, but output files were left behind: %v", desc, res.Code, o)
	}
}

// c11Valid runs valid requests with random subsets of the documented options.
func c11Valid(t *T, i int) {
	r := t.R
	mode := []string{"Render", "TetraHist", "ConvertSnapshot"}[i%3]
	q := t.validReq(mode)
	q.cfg.set("Output", q.out)
	prep, app, sub := "", "", 1
	flip := func() bool { return r.Intn(2) == 0 }
	if flip() {
		q.flags = []string{"-Threads", fmt.Sprint(1 + r.Intn(12))}
	}
	if mode != "ConvertSnapshot" {
		if flip() {
			prep = "pre_"
			q.cfg.set("PrependName", prep)
		}
		if flip() {
			app = "_app"
			q.cfg.set("AppendName", app)
		}
		if flip() {
			sub = pick(r, 1, 2, 4)
			q.cfg.set("SubsampleLength", fmt.Sprint(sub))
		}
		if flip() {
			q.cfg.set("ProfileFile", filepath.Join(t.Dir, "prof.out"))
		}
		if flip() {
			q.cfg.set("LogFile", filepath.Join(t.Dir, "log.out"))
		}
	}
	parts := 3
	switch mode {
	case "Render":
		qs := quantities
		name := qs[r.Intn(len(qs))]
		q.cfg.set("Quantity", name)
		switch r.Intn(3) {
		case 0:
			q.cfg.del("Particles")
			q.cfg.set("AutoParticles", "true")
			parts = 0
		case 1:
			q.cfg.del("Particles")
			q.cfg.set("ProjectionDepth", "3")
			parts = 0
		}
		if flip() {
			q.cfg.set("ImagePixels", "8")
			if flip() {
				q.cfg.del("TotalPixels")
			}
		}
	case "ConvertSnapshot":
		if flip() {
			q.cfg.set("Gadget2IDSize", "64")
		}
		xu, vu, mu := 1.0, 1.0, 1.0
		if flip() {
			xu = 1e-3
			q.cfg.set("XUnits", "1e-3")
		}
		if flip() {
			vu = 2
			q.cfg.set("VUnits", "2")
		}
		if flip() {
			mu = 1e10
			q.cfg.set("MUnits", "1e10")
		}
		cells := pick(r, 1, 2, 4, 8)
		q.cfg.set("Cells", fmt.Sprint(cells))
		q.cells = cells
		if flip() {
			// Without IteratedInput the iteration range does nothing.
			q.cfg.set("IterationStart", "0")
		}
		if flip() {
			q.cfg.set("IterationEnd", "100")
		}
		res := q.run(t)
		t.Eval(1)
		if res.Code != 0 {
			t.Failf("valid/ConvertSnapshot", "refused: %s\n%s", res.Tail(), q.cfg.text())
			return
		}
		fs, _ := filepath.Glob(filepath.Join(q.out, "*"))
		if len(fs) != cells*cells*cells {
			t.Failf("valid/sheets", "%d sheet files, want %d\n%s", len(fs), cells*cells*cells, q.cfg.text())
			return
		}
		sh, err := readSheetFile(fs[r.Intn(len(fs))])
		if err != nil {
			t.Failf("valid/sheet", "%v", err)
			return
		}
		if !near(sh.Hd.TotalWidth, q.s.L*xu, 1e-6) || !near(sh.Hd.Mass, q.s.Mass*mu, 1e-6) {
			t.Failf("valid/units", "width %g, mass %g; want %g, %g\n%s", sh.Hd.TotalWidth, sh.Hd.Mass, q.s.L*xu, q.s.Mass*mu, q.cfg.text())
		}
		lo, hi := 0.0, 0.0
		for _, v := range q.s.Vs {
			lo, hi = math.Min(lo, float64(v[0])), math.Max(hi, float64(v[0]))
		}
		sc := math.Sqrt(q.s.A) * vu
		for _, v := range sh.Vs {
			if x := float64(v[0]); x < sc*lo*(1+1e-5)-1e-6 || x > sc*hi*(1+1e-5)+1e-6 {
				t.Failf("valid/vunits", "velocity %g, range [%g, %g]\n%s", x, sc*lo, sc*hi, q.cfg.text())
				break
			}
		}
		t.Nontrivial(q.cfg.text())
		return
	}
	res := q.run(t)
	t.Eval(1)
	t.Count("valid_requests", 1)
	if res.Code != 0 {
		t.Failf("valid/"+mode, "refused: %s\n%s", res.Tail(), q.cfg.text())
		return
	}
	fs, _ := ioutil.ReadDir(q.out)
	ext := map[string]string{"Render": ".gtet", "TetraHist": ".txt"}[mode]
	if len(fs) != 1 || fs[0].Name() != prep+"target"+app+ext {
		t.Failf("valid/output", "files %v, want %s\n%s", fs, prep+"target"+app+ext, q.cfg.text())
		return
	}
	if mode == "Render" {
		g, err := readGtet(filepath.Join(q.out, fs[0].Name()))
		if err != nil {
			t.Failf("valid/grid", "%v", err)
			return
		}
		h := &g.Hd
		if int(h.Subsample) != sub || parts != 0 && int(h.Particles) != parts || h.Particles < 1 {
			t.Failf("valid/defaults", "SubsampleLength %d, Particles %d; want %d, %d\n%s", h.Subsample, h.Particles, sub, parts, q.cfg.text())
		}
		if q.cfg.vals["ImagePixels"] == "" && h.TotalPixels != 8 {
			t.Failf("valid/pixels", "TotalPixels %d, want 8", h.TotalPixels)
		}
	}
	t.Nontrivial(q.cfg.text())
}
