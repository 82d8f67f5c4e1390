package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/phil-mansfield/gotetra/render/geom"
	gio "github.com/phil-mansfield/gotetra/render/io"
)

func init() {
	register("C26", "a case is one request of the program (conversion, rendering or TetraHist, random sheets, boxes and threads), run undisturbed under strace to list its system calls on the request's files, then again with one fault: an error returned by, or a SIGKILL on, one chosen open, read, seek, write, getdents or mkdir call; a SIGKILL at a random time; or a limit on the size of written files. Non-trivial: the fault was delivered; distinct by (mode, kind of fault, file, call number).",
		Group{"error", 110, 1500, 5, c26Error},
		Group{"reads", 24, 400, 6, c26Reads},
		Group{"kill", 75, 1200, 5, c26Kill},
		Group{"limit", 60, 900, 4, c26Limit},
		Group{"stdout", 2, 2, 1, c26Stdout})
	assumptions["C26"] = []string{"errors of close and of the log file are not injected", "a process that is killed keeps what it had written"}
}

// job is one request whose outputs can be recognised as complete and right.
type job struct {
	mode   string
	args   []string
	out    string
	inputs []string // files and directories that must stay as they are
	hash   string
	names  []string
	ref    map[string][]byte
	whole  string // output covering the whole simulation
	total  int    // of its histogram's counts
	bins   int
	lin    *V3   // velocity components are these times the position on their axis
	own    []int // expected counts of the whole histogram
	vel    *V3   // the velocity of every particle, if they have the same
}

func newJob(t *T, kind int) *job {
	r := t.R
	j := &job{ref: map[string][]byte{}, out: filepath.Join(t.Dir, "results")}
	n, cells := 8, pick(r, 1, 2, 2, 4)
	if kind%3 == 1 && cells == 1 {
		cells = 2
	}
	s := newSim(r, n, boxL(r), []string{"waves", "shear", "shift"}[r.Intn(3)], 0.04)
	in := filepath.Join(t.Dir, "in")
	threads := []string{"-Threads", fmt.Sprint(1 + r.Intn(6))}
	boxes := func(parts bool) string {
		bs := []BBox{{Name: "whole", W: [3]float64{s.L, s.L, s.L}}}
		for k := r.Intn(3); k > 0 && parts; k-- {
			bs = append(bs, pixBox(r, fmt.Sprintf("part%d", k), [3]int{r.Intn(8), r.Intn(8), r.Intn(8)}, [3]int{1 + r.Intn(5), 1 + r.Intn(5), 1 + r.Intn(5)}, s.L, 8, randAxis(r, 0.4)))
		}
		r.Shuffle(len(bs), func(a, b int) { bs[a], bs[b] = bs[b], bs[a] })
		text := ""
		for k := range bs {
			text += bs[k].text() + "\n"
			j.names = append(j.names, bs[k].Name)
		}
		f := t.write("bounds.txt", text)
		j.inputs = append(j.inputs, f)
		return f
	}
	switch kind % 3 {
	case 0:
		j.mode = "ConvertSnapshot"
		s.writeSnap(r, in, gadgetOpts{Files: 1 + r.Intn(3), IDSize: []int{32, 64}[r.Intn(2)]})
		ids := 64
		if m, _ := filepath.Glob(in + "/*"); len(m) > 0 {
			// the ID size is what the files hold
			ids = idSizeOf(m)
		}
		text := fmt.Sprintf("[ConvertSnapshot]\nInput = %s\nOutput = %s\nInputFormat = LGadget-2\nCells = %d\nGadget2IDSize = %d\n", in, j.out, cells, ids)
		if r.Intn(3) == 0 { // several snapshots
			first, num := pick(r, 0, 0, 1, 7), 2+r.Intn(2)
			os.RemoveAll(in)
			for k := 0; k < num; k++ {
				newSim(r, n, s.L, "waves", 0.04).writeSnap(r, fmt.Sprintf("%s/s%d", in, first+k), gadgetOpts{Files: 1 + r.Intn(2), IDSize: ids})
			}
			text = fmt.Sprintf("[ConvertSnapshot]\nIteratedInput = %s/s%%d\nIteratedOutput = %s/o%%d\nIterationStart = %d\nIterationEnd = %d\nInputFormat = LGadget-2\nCells = %d\nGadget2IDSize = %d\n",
				in, j.out, first, first+num-1, cells, ids)
			t.Count("iterated_conversions", 1)
		}
		cfg := t.write("run.cfg", text)
		j.inputs = append(j.inputs, cfg, in)
		j.args = append(threads, "-ConvertSnapshot", cfg)
	case 1:
		j.mode = "Render"
		os.MkdirAll(j.out, 0755)
		q := "Density"
		pick := r.Intn(4)
		if t.Group == "reads" {
			pick = []int{1, 1, 2}[r.Intn(3)]
		}
		switch pick {
		case 0:
			q = quantities[r.Intn(len(quantities))]
		case 1:
			q = "Velocity"
		}
		if q == "Velocity" { // the velocity grid of a uniformly moving sheet is known exactly
			j.vel = &V3{float32(300 * r.NormFloat64()), float32(300 * r.NormFloat64()), float32(300 * r.NormFloat64())}
			for k := range s.Vs {
				s.Vs[k] = *j.vel
			}
			if t.Group == "reads" || r.Intn(2) == 0 { // or known to a pixel
				j.lin, j.vel = j.vel, nil
				for k := range s.Vs {
					for c := range s.Vs[k] {
						s.Vs[k][c] = j.lin[c] * float32(float64(s.Xs[k][c])/s.L)
					}
				}
			}
		}
		writeSheets(in, s.segments(cells), stdSheetName)
		cfg := t.write("run.cfg", (&RCfg{Quantity: q, Input: in, TotalPixels: 8, Particles: 12}).text(j.out))
		j.inputs = append(j.inputs, cfg, in)
		j.args = append(threads, "-Render", cfg, boxes(q == "Density" || q == "Velocity"))
		if q == "Density" || q == "Velocity" {
			j.whole = "whole.gtet"
		}
		for k := range j.names {
			j.names[k] += ".gtet"
		}
	case 2:
		j.mode = "TetraHist"
		os.MkdirAll(j.out, 0755)
		writeSheets(in, s.segments(cells), stdSheetName)
		grid := filepath.Join(t.Dir, "grid.gtet")
		h := HCfg{Input: in, GridFile: grid, Particles: 3, Min: 1e-3, Max: 1e4, Scale: "Log"}
		j.bins = 3 + r.Intn(30)
		if cells > 1 && (t.Group == "reads" || r.Intn(2) == 0) {
			// A grid with one value for the pixels of each segment of an undisturbed lattice.
			for float64(s.Xs[0][0]) != 0 || s.Kind != "lattice" {
				s = newSim(r, n, s.L, "lattice", 0)
			}
			writeSheets(in, s.segments(cells), stdSheetName)
			g := &OwnGrid{L: s.L, R: region{cells: n, proj: -1, w: [3]int{n, n, n}}}
			j.bins = cells * cells * cells
			j.own = make([]int, j.bins)
			for k := 0; k < n*n*n; k++ {
				w := n / cells
				b := k%n/w + cells*(k/n%n/w+cells*(k/n/n/w))
				g.Vals = append(g.Vals, float32(b)+0.5)
				j.own[b] += 6 * h.Particles
			}
			g.write(grid)
			h.Scale, h.Min, h.Max = "Linear", 0, float64(j.bins)
		} else {
			randGrid(r, s.L, 8).write(grid)
		}
		h.Bins = j.bins
		cfg := t.write("run.cfg", h.text(j.out))
		j.inputs = append(j.inputs, cfg, in, grid)
		j.args = append(threads, "-TetraHist", cfg, boxes(true))
		j.whole, j.total = "whole.txt", 3*6*n*n*n
		for k := range j.names {
			j.names[k] += ".txt"
		}
	}
	j.hash = hashFiles(j.inputs)
	return j
}

// idSizeOf finds the ID size of a snapshot from the size of its files' last records.
func idSizeOf(files []string) int {
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil || len(b) < 264+8 {
			continue
		}
		n := int(uint32(b[8]) | uint32(b[9])<<8 | uint32(b[10])<<16) // NPart[1]
		if n == 0 {
			continue
		}
		last := int(uint32(b[len(b)-4]) | uint32(b[len(b)-3])<<8 | uint32(b[len(b)-2])<<16)
		return 8 * last / n
	}
	return 64
}

func hashFiles(paths []string) string {
	h := sha256.New()
	for _, p := range paths {
		filepath.Walk(p, func(f string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() {
				b, _ := os.ReadFile(f)
				fmt.Fprintf(h, "%s %d\n", f, len(b))
				h.Write(b)
			}
			return nil
		})
	}
	return fmt.Sprintf("%x", h.Sum(nil))
}

// reference keeps what an undisturbed run writes.
func (j *job) reference(t *T, run func() *RunResult) bool {
	res := run()
	if res.Code != 0 {
		t.Failf("C26/undisturbed", "%s failed: %s", j.mode, res.Tail())
		return false
	}
	for _, name := range j.outputs() {
		b, err := os.ReadFile(filepath.Join(j.out, name))
		if err != nil {
			panic(err)
		}
		j.ref[name] = b
	}
	if j.mode == "ConvertSnapshot" {
		for f := range j.ref {
			j.names = append(j.names, f)
		}
		sort.Strings(j.names)
	}
	if msg := j.complete(); msg != "" {
		t.Failf("C26/undisturbed", "%s exits 0 but %s", j.mode, msg)
		return false
	}
	return true
}

// clear removes the outputs; what the request needs to be there is made again.
func (j *job) clear() {
	os.RemoveAll(j.out)
	if j.mode != "ConvertSnapshot" {
		os.MkdirAll(j.out, 0755)
	}
}

// right says what is wrong with an output that is there, and whether it is one that no reader would take for whole.
func (j *job) right(name string) (partial bool, msg string) {
	f := filepath.Join(j.out, name)
	b, err := os.ReadFile(f)
	if err != nil {
		return true, "it is missing"
	}
	ref := j.ref[name]
	switch j.mode {
	case "ConvertSnapshot":
		if bytes.Equal(b, ref) {
			return false, ""
		}
		want, err := decodeSheet(ref)
		if err != nil {
			panic(err)
		}
		refused := 0
		hd := &gio.SheetHeader{}
		if p, _ := Panics(func() { err = gio.ReadSheetHeaderAt(f, hd) }); p || err != nil {
			return true, "its header is refused"
		}
		if !bytes.Equal(hdBytes(fromSheetHeader(hd)), hdBytes(&want.Hd)) {
			return false, fmt.Sprintf("its header reads %+v, want %+v", *hd, want.Hd)
		}
		buf := make([]geom.Vec, hd.GridCount)
		if p, _ := Panics(func() { err = gio.ReadSheetPositionsAt(f, buf) }); p || err != nil {
			refused++
		} else if !sameVecs(buf, want.Xs) {
			return false, fmt.Sprintf("it has %d of %d bytes and reads positions that differ", len(b), len(ref))
		}
		if p, _ := Panics(func() { err = gio.ReadSheetVelocitiesAt(f, buf) }); p || err != nil {
			refused++
		} else if !sameVecs(buf, want.Vs) {
			return false, fmt.Sprintf("it has %d of %d bytes and reads velocities that differ", len(b), len(ref))
		}
		return refused > 0, fmt.Sprintf("it has %d of %d bytes and differs from the right file", len(b), len(ref))
	case "Render":
		if len(b) != len(ref) {
			var err1, err2 error
			_, err1 = gio.ReadGridHeader(f)
			_, err2 = gio.ReadGrid(f)
			return err1 != nil || err2 != nil, fmt.Sprintf("it has %d of %d bytes", len(b), len(ref))
		}
		if !bytes.Equal(b[:gtetHdSize], ref[:gtetHdSize]) {
			return false, "its header differs from an undisturbed run's"
		}
		g, err := decodeGtet(b)
		if err != nil {
			return false, err.Error()
		}
		if j.vel != nil {
			for c := 0; c < 3; c++ {
				for i, v := range g.Vals[c] {
					if math.Abs(float64(v-j.vel[c])) > 1e-4*math.Abs(float64(j.vel[c])) && (name == j.whole || v != 0) {
						return false, fmt.Sprintf("its pixel %d has velocity component %d %g where all particles have %g", i, c, v, j.vel[c])
					}
				}
			}
		}
		if j.lin != nil && name == j.whole {
			for c := 0; c < 3; c++ {
				for i, v := range g.Vals[c] {
					// pixels which no tetrahedron across the face reaches
					k := i / []int{1, 8, 64}[c] % 8
					lo, hi := float64(j.lin[c])*float64(k)/8, float64(j.lin[c])*float64(k+1)/8
					if e := 1e-3 * math.Abs(float64(j.lin[c])); k > 1 && k < 6 && (float64(v) < math.Min(lo, hi)-e || float64(v) > math.Max(lo, hi)+e) {
						return false, fmt.Sprintf("its pixel %d has velocity component %d %g where the particles have %g to %g", i, c, v, lo, hi)
					}
				}
			}
		}
		if name == j.whole {
			sum := 0.0
			for i, v := range g.Vals[0] {
				sum += float64(v)
				zero := v == 0
				for c := 1; c < g.N; c++ {
					zero = zero && g.Vals[c][i] == 0
				}
				if zero {
					return false, fmt.Sprintf("pixel %d is empty", i)
				}
			}
			if m := sum / float64(len(g.Vals[0])); g.N == 1 && math.Abs(m-1) > 1e-4 {
				return false, fmt.Sprintf("the mean of the whole simulation is %g", m)
			}
		}
	case "TetraHist":
		lines, sum := 0, 0
		for _, l := range strings.SplitAfter(string(b), "\n") {
			if strings.HasPrefix(l, "#") || !strings.HasSuffix(l, "\n") {
				continue
			}
			var c string
			var k int
			if _, err := fmt.Sscan(l, &c, &k); err != nil {
				return false, fmt.Sprintf("line %q", l)
			}
			if name == j.whole && j.own != nil && lines < len(j.own) && math.Abs(float64(k-j.own[lines])) > 0.4*float64(j.own[lines]) {
				return false, fmt.Sprintf("its bin %d, which holds the pixels of one segment, counts %d samples of %d", lines, k, j.own[lines])
			}
			lines++
			sum += k
		}
		if lines != j.bins || !strings.HasSuffix(string(b), "\n") {
			return lines <= j.bins, fmt.Sprintf("it has %d whole lines of %d", lines, j.bins)
		}
		if name == j.whole && sum != j.total {
			return false, fmt.Sprintf("it counts %d samples of %d", sum, j.total)
		}
	}
	return false, ""
}

func sameVecs(a []geom.Vec, b []V3) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		for k := range a[i] {
			if math.Float32bits(a[i][k]) != math.Float32bits(b[i][k]) {
				return false
			}
		}
	}
	return true
}

// outputs lists the files below the output folder.
func (j *job) outputs() (names []string) {
	filepath.Walk(j.out, func(f string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			names = append(names, strings.TrimPrefix(f, j.out+"/"))
		}
		return nil
	})
	return names
}

// complete says why the outputs are not all there and right.
func (j *job) complete() string {
	for _, n := range j.names {
		if _, msg := j.right(n); msg != "" {
			return fmt.Sprintf("of the output file %s, %s", n, msg)
		}
	}
	for _, name := range j.outputs() {
		if _, ok := j.ref[name]; !ok {
			return "there is another file, " + name
		}
	}
	return ""
}

// after judges a run that was disturbed; failed tells whether it had to fail unless all is complete.
func (j *job) after(t *T, what string, res *RunResult, killed bool, again func() *RunResult) {
	t.Eval(1)
	site := "C26/" + j.mode
	if res.Hung {
		t.Failf(site+"/hang", "%s: the run does not end", what)
		return
	}
	if h := hashFiles(j.inputs); h != j.hash {
		t.Failf(site+"/inputs", "%s: the inputs were changed", what)
		return
	}
	if !killed {
		if res.Code == 0 {
			if msg := j.complete(); msg != "" {
				t.Failf(site+"/silent", "%s: the run exits 0, but %s", what, msg)
				return
			}
			t.Count("faults_without_effect", 1)
		} else {
			if strings.TrimSpace(res.Err) == "" {
				t.Failf(site+"/message", "%s: exit status %d without a message", what, res.Code)
			}
			t.Count("faults_reported", 1)
		}
	}
	whole, part, none := 0, 0, 0
	for _, n := range j.names {
		if _, err := os.Stat(filepath.Join(j.out, n)); err != nil {
			none++
			continue
		}
		partial, msg := j.right(n)
		if msg == "" {
			whole++
		} else if partial {
			part++
		} else {
			t.Failf(site+"/left", "%s: the output file %s passes for a whole one, but %s", what, n, msg)
			return
		}
	}
	t.Count("outputs_whole_after_fault", whole)
	t.Count("outputs_refused_after_fault", part)
	t.Count("outputs_absent_after_fault", none)
	if again == nil {
		return
	}
	// Whatever was left behind, the same request then succeeds.
	if r := again(); r.Code != 0 {
		t.Failf(site+"/again", "%s: the same request then fails: %s", what, r.Tail())
	} else if msg := j.complete(); msg != "" {
		t.Failf(site+"/again", "%s: the same request then exits 0, but %s", what, msg)
	}
}

type sysCall struct{ name, path string }

var sysRe = regexp.MustCompile(`^\d+\s+(?:(\w+at)\((?:AT_FDCWD|\d+)(?:<[^>]*>)?, "([^"]*)"|(\w+)\(\d+<([^>]*)>)`)

const sysSet = "openat,read,pread64,write,pwrite64,lseek,getdents64,mkdirat"

// trace runs a request under strace and counts its system calls on files below t.Dir.
func (j *job) trace(t *T) (map[sysCall]int, bool) {
	log := filepath.Join(t.Dir, "trace.log")
	calls := map[sysCall]int{}
	ok := j.reference(t, func() *RunResult { return t.strace(log, nil, j.args) })
	if !ok {
		return nil, false
	}
	b, _ := os.ReadFile(log)
	for _, l := range strings.Split(string(b), "\n") {
		if m := sysRe.FindStringSubmatch(l); m != nil {
			p := m[2] + m[4]
			if strings.HasPrefix(p, t.Dir+"/") && !strings.HasSuffix(p, "trace.log") {
				calls[sysCall{m[1] + m[3], p}]++
				t.Count("syscalls_traced", 1)
			}
		}
	}
	if len(calls) == 0 {
		panic("strace shows no system calls: " + string(b[:min(len(b), 300)]))
	}
	return calls, true
}

func (t *T) strace(log string, opts []string, args []string) *RunResult {
	t.Count("strace_runs", 1)
	a := append([]string{"-f", "-qq", "-y", "-o", log, "-e", "trace=" + sysSet, "-e", "signal=none"}, opts...)
	a = append(append(a, "--", os.Getenv("VH_CLI")), args...)
	return runProc(cliLimit, t.Dir, nil, "strace", a...)
}

func sortedCalls(calls map[sysCall]int) []sysCall {
	out := []sysCall{}
	for c := range calls {
		out = append(out, c)
	}
	sort.Slice(out, func(a, b int) bool {
		if out[a].path != out[b].path {
			return out[a].path < out[b].path
		}
		return out[a].name < out[b].name
	})
	return out
}

var sysErrors = map[string][]string{
	"openat": {"EIO", "EACCES", "EMFILE", "ENFILE"}, "read": {"EIO", "ESTALE"}, "pread64": {"EIO", "ESTALE"}, "write": {"ENOSPC", "EIO", "EDQUOT"},
	"pwrite64": {"ENOSPC", "EIO", "EDQUOT"}, "lseek": {"EIO"}, "getdents64": {"EIO"}, "mkdirat": {"ENOSPC", "EACCES"},
}

// choose picks a call: outputs and inputs alike, then any of its occurrences.
func (j *job) choose(t *T, calls map[sysCall]int) (sysCall, int) {
	var ins, outs []sysCall
	for _, c := range sortedCalls(calls) {
		if strings.HasPrefix(c.path, j.out) {
			outs = append(outs, c)
		} else {
			ins = append(ins, c)
		}
	}
	cs := ins
	if len(outs) > 0 && t.R.Intn(2) == 0 {
		cs = outs
	}
	c := cs[t.R.Intn(len(cs))]
	return c, 1 + t.R.Intn(calls[c])
}

func (j *job) again(t *T) func() *RunResult {
	return func() *RunResult { return t.cli(j.args...) }
}

func (j *job) short(p string) string { return strings.TrimPrefix(p, filepath.Dir(j.out)+"/") }

// c26Error: a system call returns an error.
func c26Error(t *T, i int) {
	j := newJob(t, i)
	calls, ok := j.trace(t)
	if !ok {
		return
	}
	for k := 0; k < 4 && !t.Failed(); k++ {
		c, n := j.choose(t, calls)
		es := sysErrors[c.name]
		e := es[t.R.Intn(len(es))]
		j.clear()
		log := filepath.Join(t.Dir, "fault.log")
		res := t.strace(log, []string{"-P", c.path, "-e", fmt.Sprintf("inject=%s:error=%s:when=%d", c.name, e, n)}, j.args)
		b, _ := os.ReadFile(log)
		if !bytes.Contains(b, []byte("(INJECTED)")) {
			t.Count("faults_not_reached", 1)
			if res.Code != 0 {
				t.Failf("C26/undisturbed", "%s failed: %s", j.mode, res.Tail())
			}
			continue
		}
		t.Count("errors_injected_"+c.name, 1)
		what := fmt.Sprintf("%s with call %d of %s on %s failing with %s", j.mode, n, c.name, j.short(c.path), e)
		j.after(t, what, res, false, j.again(t))
		t.Nontrivial("error %s %s %s %d", j.mode, c.name, j.short(c.path), n)
		t.Sample("%s: exit %d", what, res.Code)
	}
}

// c26Reads: every read of one input file fails in turn.
func c26Reads(t *T, i int) {
	j := newJob(t, i+1)
	calls, ok := j.trace(t)
	if !ok {
		return
	}
	var files []string
	for _, c := range sortedCalls(calls) {
		if n := len(files); c.name == "read" && !strings.HasPrefix(c.path, j.out) && (n == 0 || files[n-1] != c.path) {
			if filepath.Dir(c.path) != t.Dir || r26(t) { // data rather than configuration
				files = append(files, c.path)
			}
		}
	}
	if len(files) == 0 {
		return
	}
	file := files[t.R.Intn(len(files))]
	for _, c := range sortedCalls(calls) {
		if c.path != file || c.name == "openat" && t.R.Intn(3) > 0 {
			continue
		}
		left := 12
		for n := calls[c]; n > 0 && left > 0 && !t.Failed(); n-- {
			left--
			if calls[c] > 12 && left < 6 { // the last ones and some of the others
				n = 1 + t.R.Intn(n)
			}
			j.clear()
			log := filepath.Join(t.Dir, "fault.log")
			e := sysErrors[c.name][0]
			res := t.strace(log, []string{"-P", c.path, "-e", fmt.Sprintf("inject=%s:error=%s:when=%d", c.name, e, n)}, j.args)
			b, _ := os.ReadFile(log)
			if !bytes.Contains(b, []byte("(INJECTED)")) {
				t.Count("faults_not_reached", 1)
				continue
			}
			t.Count("errors_injected_"+c.name, 1)
			what := fmt.Sprintf("%s with call %d of %s on %s failing with %s", j.mode, n, c.name, j.short(c.path), e)
			j.after(t, what, res, false, nil)
			t.Nontrivial("reads %s %s %s %d", j.mode, c.name, j.short(c.path), n)
		}
	}
	t.Sample("%s: every read of %s failing", j.mode, j.short(file))
}

func r26(t *T) bool { return t.R.Intn(8) == 0 }

// c26Kill: the process is killed at a system call or at a time.
func c26Kill(t *T, i int) {
	j := newJob(t, i)
	calls, ok := j.trace(t)
	if !ok {
		return
	}
	for k := 0; k < 4 && !t.Failed(); k++ {
		var what string
		j.clear()
		if k%2 == 0 {
			c, n := j.choose(t, calls)
			if k == 0 { // while writing
				for try := 0; try < 100 && c.name != "write"; try++ {
					c, n = j.choose(t, calls)
				}
			}
			log := filepath.Join(t.Dir, "fault.log")
			res := t.strace(log, []string{"-P", c.path, "-e", fmt.Sprintf("inject=%s:signal=KILL:when=%d", c.name, n)}, j.args)
			if res.Code == 0 {
				t.Count("faults_not_reached", 1)
				continue
			}
			what = fmt.Sprintf("%s killed at call %d of %s on %s", j.mode, n, c.name, j.short(c.path))
			t.Count("kills_at_"+c.name, 1)
			t.Nontrivial("kill %s %s %s %d", j.mode, c.name, j.short(c.path), n)
		} else {
			d := time.Duration(t.R.ExpFloat64()*20000) * time.Microsecond
			cmd := exec.Command(os.Getenv("VH_CLI"), j.args...)
			cmd.Dir = t.Dir
			cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
			if err := cmd.Start(); err != nil {
				panic(err)
			}
			time.Sleep(d)
			cmd.Process.Kill()
			if err := cmd.Wait(); err == nil {
				t.Count("faults_not_reached", 1)
				continue
			}
			what = fmt.Sprintf("%s killed after %v", j.mode, d)
			t.Count("kills_at_a_time", 1)
			t.Nontrivial("time %s %d", j.mode, d)
		}
		j.after(t, what, &RunResult{Code: -1}, true, j.again(t))
		t.Sample("%s", what)
	}
}

// c26Limit: no file may grow beyond a size, as if the disk were full; the write that reaches it is cut short.
func c26Limit(t *T, i int) {
	j := newJob(t, i)
	if !j.reference(t, func() *RunResult { return t.cli(j.args...) }) {
		return
	}
	big := 0
	for _, b := range j.ref {
		big = max(big, len(b))
	}
	for k := 0; k < 4 && !t.Failed(); k++ {
		lim := t.R.Intn(big)
		if k == 0 {
			lim = big - 1 - t.R.Intn(min(4, big))
		}
		j.clear()
		a := append([]string{fmt.Sprintf("--fsize=%d:%d", lim, lim), os.Getenv("VH_CLI")}, j.args...)
		res := runProc(cliLimit, t.Dir, nil, "prlimit", a...)
		t.Count("size_limits", 1)
		what := fmt.Sprintf("%s with files limited to %d bytes (the largest output has %d)", j.mode, lim, big)
		j.after(t, what, res, false, j.again(t))
		t.Nontrivial("limit %s %d %d", j.mode, lim, big)
		t.Sample("%s: exit %d", what, res.Code)
	}
}

// c26Stdout: an example configuration that cannot be printed.
func c26Stdout(t *T, i int) {
	for _, kind := range []string{"Render", "ConvertSnapshot", "TetraHist", "Box", "Ball"} {
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			panic(err)
		}
		cmd := exec.Command(os.Getenv("VH_CLI"), "-ExampleConfig", kind)
		cmd.Stdout = f
		err = cmd.Run()
		f.Close()
		t.Eval(1)
		t.Count("full_stdout", 1)
		if err == nil {
			t.Failf("C26/example", "-ExampleConfig %s into a full device exits 0", kind)
			return
		}
		t.Nontrivial("stdout %s", kind)
	}
}
