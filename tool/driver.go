package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// config is one invocation of a check.
type config struct {
	repo, verif, id, tier string
	seed                  int64
	count                 int
	dir                   string // scratch directory of this invocation
	bin                   string
	race                  bool // bin has the race detector
	buildNote             []string
	notes                 []string
}

// The protocol with the worker processes; see sim/main_test.go.
type job struct {
	Mode    string    `json:"mode"`
	Prop    string    `json:"prop"`
	Seed    int64     `json:"seed"`
	From    int       `json:"from"`
	Stride  int       `json:"stride"`
	Count   int       `json:"count"`
	Recheck int       `json:"recheck"`
	CapS    float64   `json:"cap_s"`
	Out     string    `json:"out"`
	Prog    string    `json:"prog"`
	Runs    []runSpec `json:"runs"`
	Class   string    `json:"class"`
	BudgetS float64   `json:"budget_s"`
	All     bool      `json:"all"`
}

type runSpec struct {
	Index int          `json:"index"`
	Tape  *[3][]uint32 `json:"tape,omitempty"`
}

type outcome struct {
	Class string       `json:"class,omitempty"`
	Msg   string       `json:"msg,omitempty"`
	Herr  string       `json:"herr,omitempty"`
	Hash  string       `json:"hash"`
	Log   []string     `json:"log,omitempty"`
	Tape  *[3][]uint32 `json:"tape,omitempty"`
	Index int          `json:"index"`
}

type result struct {
	Runs      int            `json:"runs"`
	Done      bool           `json:"done"`
	Fail      *outcome       `json:"fail,omitempty"`
	Herr      *outcome       `json:"harness_error,omitempty"`
	History   []int          `json:"history,omitempty"`
	Faults    map[string]int `json:"faults"`
	Probes    map[string]int `json:"probes"`
	MapRanges int            `json:"map_ranges"`
	MapPerms  int            `json:"map_perms"`
	MaxPerm   int            `json:"max_perm"`
	Switches  int            `json:"switches"`
	Choices   int            `json:"choices"`
	MaxSteps  int            `json:"max_steps"`
	Steps     int            `json:"steps"`
	SimTime   float64        `json:"sim_time"`
	Hashes    []uint64       `json:"hashes"`
	Scheds    []uint64       `json:"scheds"`
	Rechecked int            `json:"rechecked"`
	Mismatch  *outcome       `json:"mismatch,omitempty"`
	Hits      []int          `json:"hits"`
	Sites     int            `json:"sites"`
	Samples   []string       `json:"samples"`
	WallS     float64        `json:"wall_s"`
	Min       *outcome       `json:"min,omitempty"`
	MinRuns   int            `json:"min_runs"`
	All       []string       `json:"all,omitempty"`
}

// replayFile is what a violation leaves behind.
type replayFile struct {
	Property string    `json:"property"`
	Seed     int64     `json:"seed"`
	Class    string    `json:"class"`
	Msg      string    `json:"message"`
	Runs     []runSpec `json:"runs"` // the last one violates the property; earlier ones in the same process set the scene
	Hash     string    `json:"hash"`
	Death    bool      `json:"process_death,omitempty"`
	Race     bool      `json:"race_detector,omitempty"` // found and replayed in the build with the race detector
	Note     string    `json:"note"`
	Trace    []string  `json:"trace"`
}

const workers = 8

func (c *config) run(dir string, name string, args ...string) ([]byte, error) {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	return cmd.CombinedOutput()
}

// build instruments the working tree and compiles the simulation. Files whose
// instrumented form does not compile are instrumented less.
func (c *config) build(dir string) string {
	if dir == "" {
		die("-out required")
	}
	bin := filepath.Join(dir, "sim.test")
	levels := map[string]int{}
	var last []byte
	for attempt := 0; attempt < 4; attempt++ {
		instrumentTree(c.repo, filepath.Join(c.verif, "sim"), dir, levels)
		out, err := c.run(c.repo, "go", "test", "-c", "-vet=off", "-overlay", filepath.Join(dir, "overlay.json"), "-o", bin, "./internal/verifsim")
		if err == nil {
			for f, l := range levels {
				c.buildNote = append(c.buildNote, fmt.Sprintf("%s instrumented at level %d only", f, l))
			}
			return bin
		}
		last = out
		if attempt == 0 {
			if out, err := c.run(c.repo, "go", "build", "./..."); err != nil {
				die("the repository does not build:\n%s", out)
			}
		}
		changed := false
		files := c.filesInErrors(out, dir)
		for _, f := range files {
			if levels[f] < levelNone {
				levels[f]++
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	die("the instrumented tree does not build:\n%s", last)
	return ""
}

// buildRace compiles the simulation with the race detector; the harness itself
// is not observed. "" if that is not possible here.
func (c *config) buildRace(dir string) string {
	bin := filepath.Join(dir, "race.test")
	overlay := filepath.Join(dir, "overlay.json")
	if err := c.plainPools(overlay, filepath.Join(dir, "race")); err != nil {
		fmt.Fprintf(os.Stderr, "no race detector: %v\n", err)
		return ""
	}
	cmd := exec.Command("go", "test", "-race", "-gcflags="+simPath+"/...=-race=0", "-c", "-vet=off", "-overlay", filepath.Join(dir, "race", "overlay.json"), "-o", bin, "./internal/verifsim")
	cmd.Dir = c.repo
	// allocations in the harness must be known to the detector, too
	cmd.Env = append(os.Environ(), "CGO_ENABLED=1", "GOEXPERIMENT=nosizespecializedmalloc")
	if out, err := cmd.CombinedOutput(); err != nil {
		fmt.Fprintf(os.Stderr, "no race detector: %v\n%s", err, out)
		return ""
	}
	return bin
}

// plainPools extends the overlay by a sync.Pool that keeps nothing. The pools
// of the standard library (in fmt, for instance) would otherwise order the
// tasks at random.
func (c *config) plainPools(overlay, dir string) error {
	data, err := os.ReadFile(overlay)
	if err != nil {
		return err
	}
	var o struct{ Replace map[string]string }
	if err := json.Unmarshal(data, &o); err != nil {
		return err
	}
	root, err := c.run(c.repo, "go", "env", "GOROOT")
	if err != nil {
		return err
	}
	pool := filepath.Join(strings.TrimSpace(string(root)), "src", "sync", "pool.go")
	src, err := os.ReadFile(pool)
	if err != nil {
		return err
	}
	for _, e := range [][2]string{
		{"func (p *Pool) Put(x any) {\n", "\tif p != nil {\n\t\treturn\n\t}\n"},
		{"func (p *Pool) Get() any {\n", "\tif p != nil {\n\t\tif p.New != nil {\n\t\t\treturn p.New()\n\t\t}\n\t\treturn nil\n\t}\n"},
	} {
		if !bytes.Contains(src, []byte(e[0])) {
			return fmt.Errorf("sync.Pool looks different")
		}
		src = bytes.Replace(src, []byte(e[0]), []byte(e[0]+e[1]), 1)
	}
	write(filepath.Join(dir, "pool.go"), src)
	o.Replace[pool] = filepath.Join(dir, "pool.go")
	js, _ := json.MarshalIndent(o, "", " ")
	write(filepath.Join(dir, "overlay.json"), js)
	return nil
}

var errLine = regexp.MustCompile(`(?m)^(?:vet: )?([^\s:]+\.go):\d+`)

func (c *config) filesInErrors(out []byte, dir string) []string {
	seen := map[string]bool{}
	for _, m := range errLine.FindAllSubmatch(out, -1) {
		p := string(m[1])
		if !filepath.IsAbs(p) {
			p = filepath.Join(c.repo, p)
		}
		if rel, err := filepath.Rel(filepath.Join(dir, "src"), p); err == nil && !strings.HasPrefix(rel, "..") {
			seen[rel] = true
			continue
		}
		rel, err := filepath.Rel(c.repo, p)
		if err != nil || strings.HasPrefix(rel, "..") {
			continue
		}
		if r, ok := strings.CutPrefix(rel, "internal/verifsim/cli_"); ok {
			rel = filepath.Join("cmd", r)
		}
		if strings.HasPrefix(rel, "internal/verifsim/") {
			continue
		}
		seen[rel] = true
	}
	var res []string
	for f := range seen {
		res = append(res, f)
	}
	sort.Strings(res)
	return res
}

// worker is a running worker process.
type worker struct {
	cmd  *exec.Cmd
	j    job
	log  string
	done chan error
}

var jobNo int

func (c *config) start(j job) *worker {
	jobNo++
	base := filepath.Join(c.dir, fmt.Sprintf("job%d", jobNo))
	j.Out = base + ".out"
	j.Prog = base + ".prog"
	j.Prop = c.id
	js, _ := json.Marshal(j)
	write(base+".json", js)
	w := &worker{j: j, log: base + ".log", done: make(chan error, 1)}
	f, err := os.Create(w.log)
	if err != nil {
		die("%v", err)
	}
	// the worker's memory is limited, so that a runaway system under test ends
	// the worker and not the machine
	w.cmd = exec.Command(c.bin, "-test.run", "^TestSim$", "-test.timeout", "0")
	w.cmd.Dir = c.dir
	w.cmd.Env = append(os.Environ(), "VERIF_JOB="+base+".json", "GOMAXPROCS=2", "GOTRACEBACK=single", "TMPDIR="+c.dir, "TERM=xterm-256color")
	if c.race {
		w.cmd.Env = append(w.cmd.Env, "GORACE=log_path="+base+".race exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0")
	}
	w.cmd.Stdout, w.cmd.Stderr = f, f
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := w.cmd.Start(); err != nil {
		die("%v", err)
	}
	go func() {
		err := w.cmd.Wait()
		f.Close()
		w.done <- err
	}()
	return w
}

func (w *worker) kill() {
	syscall.Kill(-w.cmd.Process.Pid, syscall.SIGKILL)
}

// wait waits for the worker. died tells that it ended without a result.
func (w *worker) wait(limit time.Duration) (res *result, died, timeout bool) {
	select {
	case <-w.done:
	case <-time.After(limit):
		w.kill()
		<-w.done
		timeout = true
	}
	data, err := os.ReadFile(w.j.Out)
	if err == nil {
		res = &result{}
		if json.Unmarshal(data, res) == nil && res.Done {
			return res, false, false
		}
	}
	return nil, !timeout, timeout
}

func (w *worker) index() int {
	data, _ := os.ReadFile(w.j.Prog)
	n, err := strconv.Atoi(strings.TrimSpace(string(data)))
	if err != nil {
		return -1
	}
	return n
}

func (w *worker) tail() string {
	data, _ := os.ReadFile(w.log)
	if len(data) > 6000 {
		// the beginning of a Go crash says what happened
		data = append(append(data[:4000:4000], []byte("\n...\n")...), data[len(data)-1500:]...)
	}
	return string(data)
}

// deathClass names a fatal error of the Go runtime.
func deathClass(log string) string {
	for _, l := range strings.Split(log, "\n") {
		if strings.HasPrefix(l, "fatal error: ") {
			return "process-death: " + strings.TrimPrefix(l, "fatal error: ")
		}
		if strings.HasPrefix(l, "panic: ") {
			l = strings.TrimPrefix(l, "panic: ")
			if len(l) > 80 {
				l = l[:80]
			}
			return "process-death: panic"
		}
	}
	return ""
}

func die2(format string, a ...any) {
	fmt.Printf("ERROR "+format+"\n", a...)
}

func (c *config) prepare() {
	base := filepath.Join(c.verif, ".build")
	if err := os.MkdirAll(base, 0o755); err != nil {
		die("%v", err)
	}
	dir, err := os.MkdirTemp(base, c.id+"-")
	if err != nil {
		die("%v", err)
	}
	c.dir = dir
	cleanup = func() { os.RemoveAll(dir) }
	c.bin = c.build(filepath.Join(dir, "b"))
}

// exploration collects what a number of runs found.
type exploration struct {
	total          *result
	hashes, scheds map[uint64]bool
	hits           map[int]bool
	fails          []failure
	herr           []string
	notes          []string
}

type failure struct {
	o       outcome
	history []int
	death   bool
	log     string
}

// explore performs runs in worker processes.
func (c *config) explore(x *exploration, runs, recheck int, capS float64) {
	var ws []*worker
	for i := 0; i < min(workers, runs); i++ {
		n := (runs - i + workers - 1) / workers
		ws = append(ws, c.start(job{Mode: "explore", Seed: c.seed, From: i, Stride: workers, Count: n, Recheck: recheck, CapS: capS}))
	}
	type ended struct {
		w             *worker
		res           *result
		died, timeout bool
	}
	ch := make(chan ended, workers)
	for _, w := range ws {
		go func() {
			res, died, timeout := w.wait(time.Duration(capS+180) * time.Second)
			ch <- ended{w, res, died, timeout}
		}()
	}
	stopped := false
	stop := func() {
		stopped = true
		for _, w := range ws {
			w.kill()
		}
	}
	for range ws {
		e := <-ch
		switch {
		case stopped && e.res == nil:
		case e.died:
			x.fails = append(x.fails, failure{o: outcome{Index: e.w.index(), Class: deathClass(e.w.tail())}, death: true, log: e.w.tail()})
		case e.timeout:
			x.herr = append(x.herr, fmt.Sprintf("worker %d did not finish in time (run %d)", e.w.j.From, e.w.index()))
		default:
			x.total.merge(e.res, x.hashes, x.scheds, x.hits)
			if e.res.Fail != nil {
				x.fails = append(x.fails, failure{o: *e.res.Fail, history: e.res.History})
				if !stopped {
					stop()
				}
			}
			if e.res.Herr != nil {
				x.herr = append(x.herr, fmt.Sprintf("run %d: %s", e.res.Herr.Index, e.res.Herr.Herr))
			}
			if e.res.Mismatch != nil {
				// the property held both times, only the executions differ
				x.notes = append(x.notes, fmt.Sprintf("run %d took a different course when it was repeated", e.res.Mismatch.Index))
			}
		}
	}
}

// check explores one property.
func (c *config) check() int {
	sp, ok := specs[c.id]
	if !ok {
		die("unknown property %q", c.id)
	}
	if c.tier != "quick" && c.tier != "thorough" {
		die("unknown tier %q", c.tier)
	}
	start := time.Now()
	c.prepare()
	defer cleanup()
	buildS := time.Since(start).Seconds()

	runs, capS, recheck := sp.quick, 240.0, 25
	if c.tier == "thorough" {
		runs, capS, recheck = sp.quick*sp.deep, 3000.0, 100
	}
	if c.count > 0 {
		runs = c.count
	}
	// the build for the race stage is made meanwhile
	raceBin := make(chan string, 1)
	if sp.race > 0 {
		go func() { raceBin <- c.buildRace(filepath.Join(c.dir, "b")) }()
	}
	x := &exploration{total: &result{Faults: map[string]int{}, Probes: map[string]int{}}, hashes: map[uint64]bool{}, scheds: map[uint64]bool{}, hits: map[int]bool{}}
	exploreStart := time.Now()
	c.explore(x, runs, recheck, capS)
	exploreS := time.Since(exploreStart).Seconds()
	raceRuns := 0
	if sp.race > 0 {
		if bin := <-raceBin; bin == "" {
			c.buildNote = append(c.buildNote, "no race stage: the build with the race detector failed")
		} else if len(x.fails) == 0 {
			plain := c.bin
			c.bin, c.race = bin, true
			before := x.total.Runs
			n := runs * sp.race / 1000
			c.explore(x, max(n, 1), 0, capS)
			raceRuns = x.total.Runs - before
			if len(x.fails) == 0 {
				c.bin, c.race = plain, false
			}
			exploreS = time.Since(exploreStart).Seconds()
		}
	}
	total, hashes, scheds, hits, fails, herr := x.total, x.hashes, x.scheds, x.hits, x.fails, x.herr
	total.Hashes = nil

	// confirm, minimise and report
	violation := ""
	c.notes = append(c.notes, x.notes...)
	sort.SliceStable(fails, func(a, b int) bool { return !fails[a].death && fails[b].death })
	for _, f := range fails {
		var rf *replayFile
		var err error
		if f.death {
			rf, err = c.confirmDeath(f.o, f.log)
		} else {
			rf, err = c.confirm(f.o, f.history)
		}
		if err != nil {
			herr = append(herr, err.Error())
			continue
		}
		if k := c.known(rf); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, k)
			continue
		}
		dir := filepath.Join(c.verif, "replays")
		if err := os.MkdirAll(dir, 0o755); err != nil {
			die("%v", err)
		}
		js, _ := json.MarshalIndent(rf, "", " ")
		sum := sha256.Sum256(js)
		path := filepath.Join(dir, fmt.Sprintf("%s-%x.json", c.id, sum[:6]))
		if err := os.WriteFile(path, js, 0o644); err != nil {
			die("%v", err)
		}
		fmt.Printf("%s\n%s\n", rf.Class, rf.Msg)
		for _, l := range lastLines(rf.Trace, 60) {
			if len(l) > 2000 {
				l = l[:2000] + "..."
			}
			fmt.Printf("  %s\n", l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, path)
		violation = path
		break
	}
	c.evidence(sp, total, runs, hashes, scheds, hits, raceRuns, buildS, exploreS, time.Since(start).Seconds(), violation, herr)
	if violation != "" {
		return 1
	}
	if len(herr) > 0 {
		for _, h := range herr {
			die2("property=%s %s", c.id, h)
		}
		return 2
	}
	rate := float64(total.Runs) / exploreS * 3600
	fmt.Printf("OK property=%s seed=%d runs=%d distinct=%d (%.0f runs/h) build=%.1fs explore=%.1fs\n", c.id, c.seed, total.Runs, len(hashes), rate, buildS, exploreS)
	return 0
}

func lastLines(l []string, n int) []string {
	if len(l) > n {
		return l[len(l)-n:]
	}
	return l
}

func (t *result) merge(r *result, hashes, scheds map[uint64]bool, hits map[int]bool) {
	t.Runs += r.Runs
	for k, v := range r.Faults {
		t.Faults[k] += v
	}
	for k, v := range r.Probes {
		t.Probes[k] += v
	}
	t.MapRanges += r.MapRanges
	t.MapPerms += r.MapPerms
	if r.MaxPerm > t.MaxPerm {
		t.MaxPerm = r.MaxPerm
	}
	t.Switches += r.Switches
	t.Choices += r.Choices
	t.Steps += r.Steps
	t.MaxSteps = max(t.MaxSteps, r.MaxSteps)
	t.SimTime += r.SimTime
	t.Rechecked += r.Rechecked
	t.Sites = r.Sites
	if len(t.Samples) < 4 {
		t.Samples = append(t.Samples, r.Samples...)
	}
	for _, h := range r.Hashes {
		hashes[h] = true
	}
	for _, h := range r.Scheds {
		scheds[h] = true
	}
	for _, h := range r.Hits {
		hits[h] = true
	}
}

// replayRuns executes runs in a fresh process.
func (c *config) replayRuns(runs []runSpec) (*outcome, string, error) {
	w := c.start(job{Mode: "replay", Seed: c.seed, Runs: runs})
	res, died, timeout := w.wait(300 * time.Second)
	if timeout {
		return nil, "", fmt.Errorf("replay of run %d did not finish in 300 s", runs[len(runs)-1].Index)
	}
	if died {
		return nil, w.tail(), nil
	}
	return res.Fail, "", nil
}

func (c *config) confirm(o outcome, history []int) (*replayFile, error) {
	last := runSpec{Index: o.Index, Tape: o.Tape}
	runs := []runSpec{last}
	tries := 1
	same := func(rs []runSpec) (got *outcome, ok bool) {
		for k := 0; k < tries && !ok; k++ {
			var err error
			got, _, err = c.replayRuns(rs)
			if err != nil || got == nil {
				return nil, false
			}
			ok = got.Herr == "" && got.Class == o.Class
		}
		return got, ok
	}
	_, ok := same(runs)
	note := "one run"
	if !ok {
		// it depends on what earlier runs left behind in the process
		var pre []runSpec
		for _, i := range history {
			pre = append(pre, runSpec{Index: i})
		}
		with := func(p []runSpec) []runSpec { return append(append([]runSpec{}, p...), last) }
		_, ok = same(with(pre))
		if !ok {
			// or on something the simulator does not control
			tries = 6
			if _, ok = same(runs); ok {
				pre = nil
			} else {
				_, ok = same(with(pre))
			}
		}
		if !ok {
			return nil, fmt.Errorf("run %d: violation %q is not reproducible in a fresh process", o.Index, o.Class)
		}
		// drop earlier runs
		deadline := time.Now().Add(60 * time.Second)
		for n := (len(pre) + 1) / 2; n >= 1 && time.Now().Before(deadline); {
			dropped := false
			for at := 0; at < len(pre) && time.Now().Before(deadline); {
				end := min(at+n, len(pre))
				cand := append(append([]runSpec{}, pre[:at]...), pre[end:]...)
				if _, ok := same(with(cand)); ok {
					pre = cand
					dropped = true
				} else {
					at = end
				}
			}
			if n == 1 && !dropped {
				break
			}
			if n > 1 {
				n = (n + 1) / 2
			}
		}
		runs = with(pre)
		note = fmt.Sprintf("%d earlier runs in the same process are needed: state survived them", len(pre))
		if tries > 1 {
			note = fmt.Sprintf("only some of the replays show it (after %d earlier runs): the outcome depends on something outside the simulator's control", len(pre))
		}
	}
	// minimise the choices of the last run
	if len(runs) == 1 {
		w := c.start(job{Mode: "minimise", Seed: c.seed, Runs: runs, Class: o.Class, BudgetS: 45})
		if res, _, _ := w.wait(180 * time.Second); res != nil && res.Min != nil && res.Min.Class == o.Class && res.Min.Herr == "" {
			cand := []runSpec{{Index: o.Index, Tape: res.Min.Tape}}
			if _, ok := same(cand); ok {
				runs = cand
				note = fmt.Sprintf("minimised in %d runs", res.MinRuns)
			}
		}
	}
	// the file must reproduce it exactly: twice, with the same execution
	a, okA := same(runs)
	b, okB := same(runs)
	if !okA || !okB {
		return nil, fmt.Errorf("run %d: replay of violation %q is not exact", o.Index, o.Class)
	}
	if a.Hash != b.Hash || a.Msg != b.Msg {
		note += "; every replay shows this violation, but details of the executions differ between processes"
	}
	return &replayFile{Property: c.id, Seed: c.seed, Class: a.Class, Msg: a.Msg, Runs: runs, Hash: a.Hash, Note: note, Trace: a.Log, Race: c.race}, nil
}

// confirmDeath handles a worker that died: a fatal error of the runtime in the
// system under test cannot be caught. Only if the run in question kills a
// fresh process too, twice and in the same way, it is a violation.
func (c *config) confirmDeath(o outcome, log string) (*replayFile, error) {
	if o.Index < 0 || o.Class == "" {
		return nil, fmt.Errorf("a worker died before its first run or without a message:\n%s", log)
	}
	runs := []runSpec{{Index: o.Index}}
	var tail string
	for i := 0; i < 2; i++ {
		got, t, err := c.replayRuns(runs)
		if err != nil {
			return nil, err
		}
		if got != nil || deathClass(t) != o.Class {
			return nil, fmt.Errorf("a worker died in run %d (%s), which is not reproducible:\n%s", o.Index, o.Class, log)
		}
		tail = t
	}
	if !strings.Contains(tail, "mlange-42/bbn") {
		return nil, fmt.Errorf("worker died outside the system under test:\n%s", tail)
	}
	var trace []string
	for _, l := range strings.Split(tail, "\n") {
		if len(trace) < 60 {
			trace = append(trace, l)
		}
	}
	return &replayFile{Property: c.id, Seed: c.seed, Class: o.Class, Msg: "the process dies", Runs: runs, Death: true, Race: c.race, Note: "one run, not minimised", Trace: trace}, nil
}

// known returns the description of the listed finding that rf is.
func (c *config) known(rf *replayFile) string {
	f, err := os.Open(filepath.Join(c.verif, "KNOWN-FINDINGS.txt"))
	if err != nil {
		return ""
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		// finding: property=C00 class=<class> message=<exact message>
		l, ok := strings.CutPrefix(sc.Text(), "finding: property="+c.id+" class=")
		if !ok {
			continue
		}
		class, msg, ok := strings.Cut(l, " message=")
		if ok && class == rf.Class && msg == rf.Msg {
			return class + ": " + msg
		}
	}
	return ""
}

// replay executes a replay file against the working tree.
func (c *config) replay(path string) int {
	data, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(data, &rf); err != nil {
		die("%s: %v", path, err)
	}
	c.id, c.seed = rf.Property, rf.Seed
	c.prepare()
	defer cleanup()
	if rf.Race {
		if c.bin, c.race = c.buildRace(filepath.Join(c.dir, "b")), true; c.bin == "" {
			die("no race detector")
		}
	}
	got, tail, err := c.replayRuns(rf.Runs)
	switch {
	case err != nil:
		die2("%v", err)
		return 2
	case got == nil:
		fmt.Println(tail)
		if rf.Death && deathClass(tail) == rf.Class {
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, path)
			return 1
		}
		return 2
	}
	for _, l := range got.Log {
		fmt.Println(l)
	}
	if got.Herr != "" {
		die2("%s", got.Herr)
		return 2
	}
	if got.Class != "" {
		fmt.Printf("exact=%v\n", got.Hash == rf.Hash)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, path)
		return 1
	}
	fmt.Println("no violation")
	return 0
}

// determinism runs the same runs in differently composed sets of processes and
// compares the executions.
func (c *config) determinism() int {
	c.prepare()
	defer cleanup()
	n := c.count
	if n == 0 {
		n = 400
	}
	var ref map[int]string
	bad := 0
	for _, procs := range []int{1, 3, 8, 20} {
		got := map[int]string{}
		var ws []*worker
		for i := 0; i < procs; i++ {
			ws = append(ws, c.start(job{Mode: "explore", Seed: c.seed, From: i, Stride: procs, Count: (n - i + procs - 1) / procs, All: true}))
		}
		for _, w := range ws {
			res, _, _ := w.wait(1800 * time.Second)
			if res == nil {
				fmt.Println(w.tail())
				return 2
			}
			for k, h := range res.All {
				got[w.j.From+k*procs] = h
			}
		}
		if ref == nil {
			ref = got
			continue
		}
		for i, h := range ref {
			if got[i] != h {
				fmt.Printf("property=%s seed=%d run %d differs with %d processes\n", c.id, c.seed, i, procs)
				bad++
			}
		}
	}
	fmt.Printf("determinism property=%s seed=%d: %d runs x 4 process counts, %d differ\n", c.id, c.seed, n, bad)
	if bad > 0 {
		return 2
	}
	return 0
}

func (c *config) evidence(sp spec, t *result, planned int, hashes, scheds map[uint64]bool, hits map[int]bool, raceRuns int, buildS, exploreS, wall float64, violation string, herr []string) {
	rate := 0.0
	if exploreS > 0 {
		rate = float64(t.Runs) / exploreS * 3600
	}
	sort.Strings(t.Samples)
	if len(t.Samples) > 4 {
		t.Samples = t.Samples[:4]
	}
	nf := 0
	for _, v := range t.Faults {
		nf += v
	}
	cov := map[string]any{
		"evaluations":              t.Runs,
		"planned_runs":             planned,
		"distinct_nontrivial":      len(hashes),
		"rule":                     sp.rule + " Each run is one seed (derived from VERIF_SEED, the property and the run number). Two runs are distinct if the hash over all their choices and logged events differs; a run is trivial if it executed fewer than 50 statements of the system under test.",
		"samples":                  t.Samples,
		"runs_and_seeds_per_hour":  int(rate),
		"simulated_time_s":         t.SimTime,
		"faults_injected":          t.Faults,
		"faults_injected_total":    nf,
		"rare_conditions_reached":  t.Probes,
		"map_iterations_scheduled": t.MapRanges,
		"map_iterations_permuted":  t.MapPerms,
		"largest_permuted_map":     t.MaxPerm,
		"task_switches":            t.Switches,
		"choices":                  t.Choices,
		"statements_executed":      t.Steps,
		"longest_run_statements":   t.MaxSteps,
		"distinct_schedules":       len(scheds),
		"statements_reached":       len(hits),
		"statements_total":         t.Sites,
		"runs_repeated_and_equal":  t.Rechecked,
		"real_components":          sp.real,
		"stubbed_components":       sp.stub,
		"build_s":                  buildS,
		"explore_s":                exploreS,
	}
	if len(c.buildNote) > 0 {
		cov["instrumentation_notes"] = c.buildNote
	}
	if len(herr) > 0 {
		cov["errors"] = herr
	}
	if len(c.notes) > 0 {
		cov["not_repeatable_runs"] = c.notes
	}
	if raceRuns > 0 {
		cov["runs_with_race_detector"] = raceRuns
	}
	nv := 0
	if violation != "" {
		nv = 1
		cov["replay"] = violation
	}
	ev := map[string]any{
		"property":    c.id,
		"tier":        c.tier,
		"seed":        c.seed,
		"level":       sp.level,
		"coverage":    cov,
		"assumptions": sp.assume,
		"wall_s":      wall,
		"violations":  nv,
	}
	var buf bytes.Buffer
	enc := json.NewEncoder(&buf)
	enc.SetIndent("", " ")
	if err := enc.Encode(ev); err != nil {
		die("%v", err)
	}
	dir := filepath.Join(c.verif, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(filepath.Join(dir, c.id+".json"), buf.Bytes(), 0o644); err != nil {
		die("%v", err)
	}
}
