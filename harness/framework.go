package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Group is a family of cases of one property.
type Group struct {
	Name   string
	Quick  int // number of cases in the quick tier
	Thor   int // number of cases in the thorough tier
	Weight int // bigger runs earlier
	Run    func(t *T, i int)
}

// quickScale is how many times a property's listed quick cases are run in the
// quick tier: the cheap ones are repeated until they take tens of seconds. A
// group never runs more quick cases than thorough ones.
var quickScale = map[string]int{
	"C01": 3, "C02": 4, "C03": 8, "C04": 5, "C05": 3, "C06": 2, "C07": 2,
	"C09": 3, "C10": 5, "C11": 4, "C13": 2, "C14": 8, "C15": 8, "C16": 4,
	"C17": 8, "C18": 8, "C19": 8, "C20": 8, "C21": 8, "C22": 8, "C23": 8,
	"C24": 8, "C25": 8, "C27": 3,
}

func (g Group) quickCases(prop string) int {
	n := g.Quick
	if k := quickScale[prop]; k > 1 {
		n *= k
	}
	if n > g.Thor {
		n = g.Thor
	}
	if n < g.Quick {
		n = g.Quick
	}
	return n
}

var props = map[string][]Group{}

// rules describes per property how cases are made and what is non-trivial.
var rules = map[string]string{}

func register(prop, rule string, gs ...Group) {
	props[prop] = append(props[prop], gs...)
	if rule != "" {
		rules[prop] = rule
	}
}

type Fail struct {
	Site string `json:"site"`
	Msg  string `json:"msg"`
}

// T is the context of one case.
type T struct {
	Prop, Group string
	Idx         int
	Thorough    bool
	R           *rand.Rand
	Dir         string // scratch directory of the case, removed afterwards
	fails       []Fail
	evals       int64
	keys        []uint64
	samples     []string
	counts      map[string]int64
	maxes       map[string]float64
	// set inside a fault window: a panic is attributed to this site.
	site string
}

func (t *T) Failf(site, format string, args ...interface{}) {
	if len(t.fails) < 20 {
		m := fmt.Sprintf(format, args...)
		if len(m) > 1500 {
			m = m[:1500] + "..."
		}
		t.fails = append(t.fails, Fail{site, m})
	}
}
func (t *T) Failed() bool          { return len(t.fails) > 0 }
func (t *T) Site(s string)         { t.site = s }
func (t *T) Eval(n int)            { t.evals += int64(n) }
func (t *T) Count(k string, n int) { t.counts[k] += int64(n) }
func (t *T) Max(k string, x float64) {
	if y, ok := t.maxes[k]; !ok || x > y {
		t.maxes[k] = x
	}
}
func (t *T) Nontrivial(format string, args ...interface{}) {
	h := fnv.New64a()
	fmt.Fprintf(h, format, args...)
	t.keys = append(t.keys, h.Sum64())
}
func (t *T) Sample(format string, args ...interface{}) {
	if len(t.samples) < 2 {
		t.samples = append(t.samples, fmt.Sprintf(format, args...))
	}
}

// Panics runs f and reports whether it panicked and with what.
func Panics(f func()) (p bool, msg string) {
	defer func() {
		if r := recover(); r != nil {
			p, msg = true, fmt.Sprint(r)
		}
	}()
	f()
	return false, ""
}

// NoPanic runs f, failing the case at the given site when it panics.
func (t *T) NoPanic(site string, f func()) bool {
	ok := true
	func() {
		defer func() {
			if r := recover(); r != nil {
				ok = false
				t.Failf(site, "panic: %v\n%s", r, shortStack())
			}
		}()
		f()
	}()
	return ok
}

// Refuses checks that f refuses its arguments: returns an error or panics.
func (t *T) Refuses(site, what string, f func() error) {
	var err error
	t.Eval(1)
	p, _ := Panics(func() { err = f() })
	if !p && err == nil {
		t.Failf(site, "%s was accepted instead of refused", what)
	}
}

func shortStack() string {
	ls := strings.Split(string(debug.Stack()), "\n")
	out := []string{}
	for _, l := range ls {
		if strings.Contains(l, "gotetra") || strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 8 {
			break
		}
	}
	return strings.Join(out, " | ")
}

type caseID struct {
	Group string `json:"group"`
	Idx   int    `json:"idx"`
}

type caseResult struct {
	Case    caseID             `json:"case"`
	Fails   []Fail             `json:"fails"`
	Evals   int64              `json:"evals"`
	Keys    []uint64           `json:"keys"`
	Samples []string           `json:"samples"`
	Counts  map[string]int64   `json:"counts"`
	Maxes   map[string]float64 `json:"maxes"`
	Wall    float64            `json:"wall"`
}

func caseSeed(seed int64, prop string, c caseID) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%d", seed, prop, c.Group, c.Idx)
	return int64(h.Sum64() >> 1)
}

func runCase(prop string, seed int64, thorough bool, c caseID, work string) (res caseResult) {
	start := time.Now()
	res.Case = c
	dir, err := os.MkdirTemp(work, "case")
	if err != nil {
		panic(err)
	}
	t := &T{Prop: prop, Group: c.Group, Idx: c.Idx, Thorough: thorough, Dir: dir,
		R: rand.New(rand.NewSource(caseSeed(seed, prop, c))), counts: map[string]int64{},
		maxes: map[string]float64{}}
	defer os.RemoveAll(dir)
	found := false
	for _, g := range props[prop] {
		if g.Name == c.Group {
			found = true
			func() {
				defer func() {
					if r := recover(); r != nil {
						site := t.site
						if site == "" {
							site = c.Group + "/panic"
						}
						t.Failf(site, "unexpected panic: %v\n%s", r, shortStack())
					}
				}()
				g.Run(t, c.Idx)
			}()
		}
	}
	if !found {
		t.Failf("harness", "no such group %s", c.Group)
	}
	res.Fails, res.Evals, res.Keys = t.fails, t.evals, t.keys
	res.Samples, res.Counts, res.Maxes = t.samples, t.counts, t.maxes
	res.Wall = time.Since(start).Seconds()
	return res
}

// worker: reads one case per line on stdin, writes results on fd 3.
func workerMain(prop string, seed int64, thorough bool, work string) {
	out := os.NewFile(3, "results")
	w := bufio.NewWriter(out)
	sc := bufio.NewScanner(os.Stdin)
	for sc.Scan() {
		var c caseID
		if err := json.Unmarshal(sc.Bytes(), &c); err != nil {
			panic(err)
		}
		res := runCase(prop, seed, thorough, c, work)
		b, err := json.Marshal(res)
		if err != nil {
			panic(err)
		}
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
	}
}

var caseLimit = 200 * time.Second

// slowLimit is how long the remaining cases are run for once there is a violation.
const slowLimit = 150 * time.Second

type procWorker struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	errf string
}

func startWorker(args []string, work string, k int64) (*procWorker, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	race := os.Getenv("VH_WORKER")
	if race != "" {
		exe = race
	}
	cmd := exec.Command(exe, args...)
	if race != "" {
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=3")
	}
	r, w, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	cmd.ExtraFiles = []*os.File{w}
	errf := filepath.Join(work, fmt.Sprintf("worker-%d.err", k))
	ef, err := os.Create(errf)
	if err != nil {
		return nil, err
	}
	cmd.Stderr, cmd.Stdout = ef, ef
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	w.Close()
	ef.Close()
	return &procWorker{cmd, in, bufio.NewReaderSize(r, 1<<20), errf}, nil
}

func (p *procWorker) kill() { syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL) }

func tailFile(f string, n int) string {
	b, _ := os.ReadFile(f)
	// prefer the start of a panic/fatal message
	s := string(b)
	for _, key := range []string{"panic: ", "fatal error: ", "WARNING: DATA RACE"} {
		if i := strings.Index(s, key); i >= 0 {
			s = s[i:]
			if len(s) > n {
				s = s[:n]
			}
			return s
		}
	}
	if len(s) > n {
		s = s[len(s)-n:]
	}
	return s
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "op" {
		runOp(os.Args[2:])
		return
	}
	var (
		prop     = flag.String("prop", "", "property")
		tier     = flag.String("tier", "quick", "")
		seed     = flag.Int64("seed", 1, "")
		work     = flag.String("work", "", "scratch directory")
		root     = flag.String("root", "", "/verif")
		isWorker = flag.Bool("worker", false, "")
		replay   = flag.String("replay", "", "replay file")
		only     = flag.String("only", "", "only this group (debugging)")
		idx      = flag.Int("idx", -1, "only this index (debugging)")
		verbose  = flag.Bool("v", false, "")
		jobs     = flag.Int("j", runtime.NumCPU(), "")
	)
	flag.Parse()
	thorough := *tier == "thorough"
	if *isWorker {
		workerMain(*prop, *seed, thorough, *work)
		return
	}
	os.Exit(parentMain(*prop, *tier, *seed, *work, *root, *replay, *only, *idx, *verbose, *jobs))
}

type replayFile struct {
	Property string `json:"property"`
	Seed     int64  `json:"seed"`
	Tier     string `json:"tier"`
	Case     caseID `json:"case"`
	Fails    []Fail `json:"fails"`
}

func init() {
	// A shorter limit for tools/mutants.py.
	if d, err := time.ParseDuration(os.Getenv("VH_CASE")); err == nil {
		caseLimit = d
	}
}

func parentMain(prop, tier string, seed int64, work, root, replay, only string, idx int, verbose bool, jobs int) int {
	start := time.Now()
	var cases []caseID
	if replay != "" {
		b, err := os.ReadFile(replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		var rf replayFile
		if err := json.Unmarshal(b, &rf); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		prop, seed, tier = rf.Property, rf.Seed, rf.Tier
		cases = []caseID{rf.Case}
	}
	gs, ok := props[prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		return 2
	}
	thorough := tier == "thorough"
	if replay == "" {
		gs = append([]Group{}, gs...)
		sort.SliceStable(gs, func(i, j int) bool { return gs[i].Weight > gs[j].Weight })
		for _, g := range gs {
			n := g.quickCases(prop)
			if thorough {
				n = g.Thor
			}
			if f, err := strconv.ParseFloat(os.Getenv("VH_FRAC"), 64); err == nil {
				n = int(math.Ceil(float64(n) * f)) // a first look, for tools/mutants.py
			}
			if only != "" && g.Name != only {
				continue
			}
			for i := 0; i < n; i++ {
				if idx >= 0 && i != idx {
					continue
				}
				cases = append(cases, caseID{g.Name, i})
			}
		}
	}
	args := []string{"-worker", "-prop", prop, "-tier", tier, "-seed", fmt.Sprint(seed), "-work", work}
	ch := make(chan caseID, len(cases))
	for _, c := range cases {
		ch <- c
	}
	close(ch)
	if jobs > len(cases) {
		jobs = len(cases)
	}
	var (
		mu      sync.Mutex
		results []caseResult
		wg      sync.WaitGroup
		ids     int64
		broken  int32
		stop    int32 // set when the remaining cases are skipped
	)
	finds := loadFindings(root, prop)
	first := os.Getenv("VH_STOP") != "" // end at the first violation
	for j := 0; j < jobs; j++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *procWorker
			defer func() {
				if w != nil {
					w.in.Close()
					w.cmd.Wait()
				}
			}()
			for c := range ch {
				if atomic.LoadInt32(&stop) != 0 {
					continue
				}
				if w == nil {
					var err error
					w, err = startWorker(args, work, atomic.AddInt64(&ids, 1))
					if err != nil {
						fmt.Fprintln(os.Stderr, "cannot start worker:", err)
						atomic.StoreInt32(&broken, 1)
						return
					}
				}
				b, _ := json.Marshal(c)
				t0 := time.Now()
				fmt.Fprintf(w.in, "%s\n", b)
				ww := w
				timedOut := int32(0)
				timer := time.AfterFunc(caseLimit, func() {
					atomic.StoreInt32(&timedOut, 1)
					ww.cmd.Process.Signal(syscall.SIGQUIT)
					time.Sleep(2 * time.Second)
					ww.kill()
				})
				line, err := w.out.ReadBytes('\n')
				timer.Stop()
				var res caseResult
				if err == nil {
					err = json.Unmarshal(line, &res)
				}
				if err != nil {
					w.kill()
					werr := w.cmd.Wait()
					site, what := c.Group+"/process-died", fmt.Sprintf("the process running the case died (%v)", werr)
					if atomic.LoadInt32(&timedOut) == 1 {
						site, what = c.Group+"/hang", fmt.Sprintf("the case did not finish within %v", caseLimit)
					}
					res = caseResult{Case: c, Evals: 1, Wall: time.Since(t0).Seconds(),
						Fails: []Fail{{site, what + ": " + tailFile(w.errf, 1200)}}}
					w = nil
				}
				// A process that is instrumented runs one case, so that each starts without anything set up.
				if w != nil && os.Getenv("VH_WORKER") != "" {
					w.in.Close()
					if werr := w.cmd.Wait(); werr != nil && len(res.Fails) == 0 {
						res.Fails = append(res.Fails, Fail{c.Group + "/process-died", fmt.Sprintf("the process ended badly (%v): %s", werr, tailFile(w.errf, 1200))})
					}
					os.Remove(w.errf)
					w = nil
				}
				mu.Lock()
				results = append(results, res)
				// A violation is certain and the rest is slow (or hangs): report it rather than run out of time.
				if unlisted(res, finds) && (first || time.Since(start) > slowLimit) {
					atomic.StoreInt32(&stop, 1)
				}
				if verbose {
					fmt.Printf("%s/%d %.2fs fails=%d %v\n", c.Group, c.Idx, res.Wall, len(res.Fails), res.Samples)
					for _, f := range res.Fails {
						fmt.Printf("    [%s] %s\n", f.Site, f.Msg)
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if broken != 0 {
		return 2
	}
	return report(prop, tier, seed, root, replay != "" || only != "", results, time.Since(start).Seconds(), verbose)
}

// unlisted returns true if a case failed at a site which is not a known finding.
func unlisted(res caseResult, finds []finding) bool {
	for _, f := range res.Fails {
		known := false
		for _, k := range finds {
			known = known || k.site == f.Site
		}
		if !known {
			return true
		}
	}
	return false
}

type finding struct{ prop, site, text string }

func loadFindings(root, prop string) []finding {
	b, err := os.ReadFile(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		return nil
	}
	out := []finding{}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := finding{}
		rest := strings.TrimPrefix(l, "finding: ")
		for _, w := range strings.Fields(rest) {
			if strings.HasPrefix(w, "property=") {
				f.prop = strings.TrimPrefix(w, "property=")
			} else if strings.HasPrefix(w, "site=") {
				f.site = strings.TrimPrefix(w, "site=")
			}
		}
		if i := strings.Index(rest, " :: "); i >= 0 {
			f.text = rest[i+4:]
		}
		if f.prop == prop && f.site != "" {
			out = append(out, f)
		}
	}
	return out
}

func report(prop, tier string, seed int64, root string, partial bool, results []caseResult, wall float64, verbose bool) int {
	sort.Slice(results, func(i, j int) bool {
		a, b := results[i].Case, results[j].Case
		if a.Group != b.Group {
			return a.Group < b.Group
		}
		return a.Idx < b.Idx
	})
	finds := loadFindings(root, prop)
	seenFind := map[string]bool{}
	var evals int64
	keys := map[uint64]bool{}
	counts := map[string]int64{}
	maxes := map[string]float64{}
	samples := []interface{}{}
	perGroup := map[string]int{}
	sampGroup := map[string]int{}
	violations := 0
	type vio struct {
		c     caseID
		fails []Fail
	}
	var vios []vio
	for _, r := range results {
		evals += r.Evals
		for _, k := range r.Keys {
			keys[k] = true
		}
		for k, v := range r.Counts {
			counts[k] += v
		}
		for k, v := range r.Maxes {
			if y, ok := maxes[k]; !ok || v > y {
				maxes[k] = v
			}
		}
		perGroup[r.Case.Group]++
		for _, s := range r.Samples {
			if sampGroup[r.Case.Group] < 2 {
				sampGroup[r.Case.Group]++
				samples = append(samples, map[string]interface{}{"case": fmt.Sprintf("%s/%d", r.Case.Group, r.Case.Idx), "what": s})
			}
		}
		var bad []Fail
		for _, f := range r.Fails {
			known := false
			for _, k := range finds {
				if k.site == f.Site {
					known = true
					if !seenFind[k.site] {
						seenFind[k.site] = true
						fmt.Printf("KNOWN-FINDING: property=%s site=%s %s\n", prop, k.site, k.text)
					}
				}
			}
			if !known {
				bad = append(bad, f)
			}
		}
		if len(bad) > 0 {
			violations++
			vios = append(vios, vio{r.Case, bad})
		}
	}
	if len(samples) == 0 && len(results) > 0 {
		samples = append(samples, fmt.Sprintf("%v", results[0].Case))
	}
	bySite := map[string]int{}
	for _, v := range vios {
		for _, f := range v.fails {
			bySite[f.Site]++
		}
	}
	for i, v := range vios {
		if i >= 5 && !verbose {
			fmt.Printf("... and %d more failing cases\n", len(vios)-i)
			break
		}
		dir := filepath.Join(root, "replays")
		os.MkdirAll(dir, 0755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d-s%d.json", prop, v.c.Group, v.c.Idx, seed))
		b, _ := json.MarshalIndent(replayFile{prop, seed, tier, v.c, v.fails}, "", " ")
		os.WriteFile(path, b, 0644)
		for k, f := range v.fails {
			if k < 4 {
				fmt.Printf("  [%s] %s\n", f.Site, f.Msg)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	}
	if len(bySite) > 0 {
		fmt.Printf("failing sites: %v\n", bySite)
	}
	cov := map[string]interface{}{
		"evaluations": evals, "distinct_nontrivial": len(keys), "rule": rules[prop],
		"samples": samples, "cases_per_group": perGroup,
	}
	if len(counts) > 0 {
		cov["observed"] = counts
	}
	if len(maxes) > 0 {
		cov["observed_max"] = maxes
	}
	level := levels[prop]
	if level == "" {
		level = "exploration"
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": level,
		"coverage": cov, "wall_s": wall, "violations": violations,
		"assumptions": assumptions[prop]}
	if assumptions[prop] == nil {
		delete(ev, "assumptions")
	}
	if !partial {
		b, err := json.MarshalIndent(ev, "", " ")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		os.MkdirAll(filepath.Join(root, "evidence"), 0755)
		if err := os.WriteFile(filepath.Join(root, "evidence", prop+".json"), b, 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	fmt.Printf("%s: %d cases, %d evaluations, %d distinct non-trivial, %d violations, %.1fs\n",
		prop, len(results), evals, len(keys), violations, wall)
	if violations > 0 {
		return 1
	}
	return 0
}

var levels = map[string]string{}
var assumptions = map[string][]string{}

// rep runs a cheap case several times per scheduled case.
func rep(n int, f func(t *T, i int)) func(t *T, i int) {
	return func(t *T, i int) {
		for k := 0; k < n && !t.Failed(); k++ {
			f(t, i*n+k)
		}
	}
}
