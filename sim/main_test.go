package verifsim

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/mlange-42/bbn/internal/verifsim/simos"
	"github.com/mlange-42/bbn/internal/verifsim/simrt"
	"github.com/mlange-42/bbn/internal/verifsim/simtime"
)

// prop is the simulation deciding one property.
type prop struct {
	id     string
	run    func(s *simrt.Sim)
	bubble bool // runs in a synctest bubble (terminal sessions)
	scale  int  // relative cost: runs are divided by it
}

var props = map[string]*prop{}

func register(p *prop) { props[p.id] = p }

// job is what the driver asks a worker process to do.
type job struct {
	Mode    string    `json:"mode"` // explore, replay, minimise
	Prop    string    `json:"prop"`
	Seed    int64     `json:"seed"`
	From    int       `json:"from"`
	Stride  int       `json:"stride"`
	Count   int       `json:"count"`
	Recheck int       `json:"recheck"` // every n-th run is executed twice and compared
	CapS    float64   `json:"cap_s"`
	Out     string    `json:"out"`
	Prog    string    `json:"prog"`
	Runs    []runSpec `json:"runs"` // replay/minimise: executed in order, the last one counts
	Class   string    `json:"class"`
	BudgetS float64   `json:"budget_s"`
	All     bool      `json:"all"` // report the hash of every run
}

// runSpec identifies one run: by index (seeded) or by recorded choices.
type runSpec struct {
	Index int          `json:"index"`
	Tape  *[3][]uint32 `json:"tape,omitempty"`
}

type outcome struct {
	Class string       `json:"class,omitempty"`
	Msg   string       `json:"msg,omitempty"`
	Herr  string       `json:"herr,omitempty"`
	Hash  string       `json:"hash"`
	Log   []string     `json:"log,omitempty"`
	Tape  *[3][]uint32 `json:"tape,omitempty"`
	Index int          `json:"index"`
}

// result is what a worker reports.
type result struct {
	Runs      int            `json:"runs"`
	Done      bool           `json:"done"`
	Fail      *outcome       `json:"fail,omitempty"`
	Herr      *outcome       `json:"harness_error,omitempty"`
	History   []int          `json:"history,omitempty"` // indices run before the failing one in this process
	Faults    map[string]int `json:"faults"`
	Probes    map[string]int `json:"probes"`
	MapRanges int            `json:"map_ranges"`
	MapPerms  int            `json:"map_perms"`
	MaxPerm   int            `json:"max_perm"`
	Switches  int            `json:"switches"`
	Choices   int            `json:"choices"`
	MaxSteps  int            `json:"max_steps"`
	Steps     int            `json:"steps"`
	SimTime   float64        `json:"sim_time"`
	Hashes    []uint64       `json:"hashes"`
	Scheds    []uint64       `json:"scheds"`
	Rechecked int            `json:"rechecked"`
	Mismatch  *outcome       `json:"mismatch,omitempty"`
	Hits      []int          `json:"hits"` // scheduling points reached
	Sites     int            `json:"sites"`
	Samples   []string       `json:"samples"`
	WallS     float64        `json:"wall_s"`
	Min       *outcome       `json:"min,omitempty"`
	MinRuns   int            `json:"min_runs"`
	All       []string       `json:"all,omitempty"`
}

var simTime time.Duration

// execute performs one run.
func execute(t *testing.T, p *prop, seed int64, r runSpec, log bool) (*simrt.Sim, outcome) {
	var tape *simrt.Tape
	if r.Tape != nil {
		tape = &simrt.Tape{V: *r.Tape}
	}
	s := simrt.NewSim(simrt.Mix(seed, p.id, r.Index), tape, log)
	simos.NewFS()
	simos.Args = []string{"sim"}
	var herr string
	if p.bubble {
		simtime.Passthrough = true
		synctest.Test(t, func(t *testing.T) {
			start := time.Now()
			herr = s.Do(true, func() { p.run(s) })
			s.Clock += time.Since(start)
			endTUI()
		})
		simtime.Passthrough = false
	} else {
		if simrt.Race {
			s.AtSwitch = func() bool { return checkRaces(s) }
		}
		herr = s.Do(false, func() { p.run(s) })
		if simrt.Race && herr == "" && s.Viol == nil {
			checkRaces(s)
		}
	}
	simTime += s.Clock
	o := outcome{Herr: herr, Hash: fmt.Sprintf("%016x", s.Hash()), Index: r.Index}
	if s.Viol != nil {
		o.Class, o.Msg = s.Viol.Class, s.Viol.Msg
	}
	if log {
		o.Log = s.Log
	}
	return s, o
}

func tapeOf(s *simrt.Sim) *[3][]uint32 {
	t := s.Tape()
	// trailing zeros are implied
	for i := range t.V {
		n := len(t.V[i])
		for n > 0 && t.V[i][n-1] == 0 {
			n--
		}
		t.V[i] = t.V[i][:n]
	}
	return &t.V
}

// TestSim is the entry point of worker processes.
func TestSim(t *testing.T) {
	path := os.Getenv("VERIF_JOB")
	if path == "" {
		t.Skip("no job")
	}
	data, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	var j job
	if err := json.Unmarshal(data, &j); err != nil {
		t.Fatal(err)
	}
	p := props[j.Prop]
	if p == nil {
		t.Fatalf("unknown property %s", j.Prop)
	}
	runtime.GOMAXPROCS(2)
	start := time.Now()
	res := &result{Faults: map[string]int{}, Probes: map[string]int{}}
	switch j.Mode {
	case "explore":
		explore(t, p, &j, res, start)
	case "replay":
		for i, r := range j.Runs {
			_, o := execute(t, p, j.Seed, r, i == len(j.Runs)-1)
			res.Fail = &o
		}
		res.Done = true
	case "minimise":
		minimise(t, p, &j, res, start)
	}
	res.WallS = time.Since(start).Seconds()
	res.SimTime = simTime.Seconds()
	res.Sites = len(simrt.Sites)
	for i, h := range simrt.Hit {
		if h > 0 {
			res.Hits = append(res.Hits, i)
		}
	}
	js, _ := json.Marshal(res)
	if err := os.WriteFile(j.Out, js, 0o644); err != nil {
		t.Fatal(err)
	}
}

func explore(t *testing.T, p *prop, j *job, res *result, start time.Time) {
	hashes := map[uint64]bool{}
	scheds := map[uint64]bool{}
	prog, err := os.OpenFile(j.Prog, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o644)
	if err != nil {
		t.Fatal(err)
	}
	defer prog.Close()
	var history []int
	herrs := 0
	for k := 0; k < j.Count; k++ {
		if j.CapS > 0 && time.Since(start).Seconds() > j.CapS {
			break
		}
		i := j.From + k*j.Stride
		_, _ = prog.WriteAt([]byte(fmt.Sprintf("%-20d", i)), 0)
		s, o := execute(t, p, j.Seed, runSpec{Index: i}, len(res.Samples) < 2)
		res.Runs++
		for f, c := range s.Faults {
			res.Faults[f] += c
		}
		for f, c := range s.Probes {
			res.Probes[f] += c
		}
		res.MapRanges += s.MapRanges
		res.MapPerms += s.MapPerms
		if s.MaxMapPerm > res.MaxPerm {
			res.MaxPerm = s.MaxMapPerm
		}
		res.Switches += s.Switches
		res.Choices += s.Tape().Len()
		res.Steps += s.StepsDone()
		res.MaxSteps = max(res.MaxSteps, s.StepsDone())
		if s.StepsDone() >= 50 {
			hashes[s.Hash()] = true
			scheds[s.SchedHash()] = true
		}
		if j.All {
			res.All = append(res.All, o.Hash)
		}
		if len(res.Samples) < 2 {
			res.Samples = append(res.Samples, fmt.Sprintf("run %d: %s", i, strings.Join(clip(s.Log, 40), " | ")))
		}
		if o.Herr != "" {
			if res.Herr == nil {
				res.Herr = &o
			}
			if herrs++; herrs > 20 {
				break
			}
			continue
		}
		if o.Class != "" {
			o.Tape = tapeOf(s)
			res.Fail = &o
			res.History = history
			break
		}
		if j.Recheck > 0 && k%j.Recheck == 0 {
			s2, o2 := execute(t, p, j.Seed, runSpec{Index: i, Tape: tapeOf(s)}, false)
			res.Rechecked++
			if o2.Class != "" || o2.Herr != "" || s2.Hash() != s.Hash() {
				o2.Tape = tapeOf(s)
				if o2.Class != "" {
					// only fails the second time: state survived between runs
					o2.Tape = tapeOf(s2)
					res.Fail = &o2
					res.History = append(history, i)
					break
				}
				res.Mismatch = &o2
			}
		}
		history = append(history, i)
	}
	res.Done = true
	for h := range hashes {
		res.Hashes = append(res.Hashes, h)
	}
	for h := range scheds {
		res.Scheds = append(res.Scheds, h)
	}
	sort.Slice(res.Hashes, func(a, b int) bool { return res.Hashes[a] < res.Hashes[b] })
	sort.Slice(res.Scheds, func(a, b int) bool { return res.Scheds[a] < res.Scheds[b] })
}

func clip(l []string, n int) []string {
	var out []string
	for _, x := range l {
		if len(x) > 300 {
			x = x[:300] + "..."
		}
		out = append(out, x)
		if len(out) >= n {
			break
		}
	}
	return out
}

// minimise simplifies the choices of the last run while the same class of
// violation remains.
func minimise(t *testing.T, p *prop, j *job, res *result, start time.Time) {
	for _, r := range j.Runs[:len(j.Runs)-1] {
		execute(t, p, j.Seed, r, false)
	}
	best := j.Runs[len(j.Runs)-1]
	tries := 0
	try := func(v [3][]uint32) bool {
		if time.Since(start).Seconds() > j.BudgetS {
			return false
		}
		tries++
		s, o := execute(t, p, j.Seed, runSpec{Index: best.Index, Tape: &v}, false)
		if o.Herr == "" && o.Class == j.Class {
			got := tapeOf(s)
			best.Tape = got
			return true
		}
		return false
	}
	cp := func(x *[3][]uint32) [3][]uint32 {
		var c [3][]uint32
		for i := range x {
			c[i] = append([]uint32{}, x[i]...)
		}
		return c
	}
	size := func(x *[3][]uint32) int {
		n := 0
		for i := range x {
			for _, v := range x[i] {
				n += 2
				if v > 0 {
					n++
				}
			}
		}
		return n
	}
	for round := 0; round < 8; round++ {
		before := size(best.Tape)
		for _, st := range []int{simrt.Fault, simrt.Sched, simrt.Work} {
			// everything zero
			c := cp(best.Tape)
			c[st] = nil
			if try(c) {
				continue
			}
			// zero or cut blocks
			for bl := len(best.Tape[st]); bl >= 1; bl /= 2 {
				for pos := 0; pos < len(best.Tape[st]); pos += bl {
					end := pos + bl
					if end > len(best.Tape[st]) {
						end = len(best.Tape[st])
					}
					nz := false
					for _, v := range best.Tape[st][pos:end] {
						nz = nz || v != 0
					}
					if nz {
						c := cp(best.Tape)
						for k := pos; k < end; k++ {
							c[st][k] = 0
						}
						if try(c) {
							continue
						}
					}
					c := cp(best.Tape)
					c[st] = append(c[st][:pos], c[st][end:]...)
					if try(c) {
						pos -= bl
						if pos < -bl {
							pos = -bl
						}
						continue
					}
				}
				if time.Since(start).Seconds() > j.BudgetS {
					break
				}
			}
			// smaller values
			for pos := 0; pos < len(best.Tape[st]); pos++ {
				for pos < len(best.Tape[st]) && best.Tape[st][pos] > 1 {
					c := cp(best.Tape)
					c[st][pos] /= 2
					if !try(c) {
						break
					}
				}
				if pos < len(best.Tape[st]) && best.Tape[st][pos] > 0 {
					c := cp(best.Tape)
					c[st][pos]--
					try(c)
				}
				if time.Since(start).Seconds() > j.BudgetS {
					break
				}
			}
		}
		if size(best.Tape) >= before || time.Since(start).Seconds() > j.BudgetS {
			break
		}
	}
	_, o := execute(t, p, j.Seed, best, true)
	o.Tape = best.Tape
	o.Index = best.Index
	res.Min = &o
	res.MinRuns = tries
	res.Done = true
}
