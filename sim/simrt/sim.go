// Package simrt is the deterministic simulator: one seeded source of choices,
// a cooperative scheduler for tasks, control over map iteration order, a
// simulated clock and the event log.
//
// It is linked into an instrumented copy of mlange-42/bbn (see /verif/tool).
package simrt

import (
	"fmt"
	"hash/fnv"
	"runtime/debug"
	"strings"
	"time"
)

// Sites maps scheduling point numbers to file:line (filled in by generated code).
var Sites []string

// Streams of choices. They are separate so that the minimiser can simplify
// faults or schedule without shifting the workload.
const (
	Work  = iota // workload: networks, operations, arguments
	Sched        // schedule: task switches, map iteration orders
	Fault        // injected faults
	NumStreams
)

// Tape holds the recorded choices of one run.
type Tape struct {
	V [NumStreams][]uint32
}

// Clone copies a tape.
func (t *Tape) Clone() *Tape {
	c := &Tape{}
	for i := range t.V {
		c.V[i] = append([]uint32{}, t.V[i]...)
	}
	return c
}

// Len is the total number of choices.
func (t *Tape) Len() int {
	n := 0
	for i := range t.V {
		n += len(t.V[i])
	}
	return n
}

// rng is splitmix64: tiny, fast, stable across Go versions.
type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Mix derives a seed for run i of a batch.
func Mix(seed int64, salt string, i int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, salt, i)
	return h.Sum64()
}

// Violation is a property violation found in a run.
type Violation struct {
	Class string // stable class, kept by the minimiser
	Msg   string
}

// failSentinel unwinds a run after Fail.
type failSentinel struct{}

// HarnessError unwinds a run because of a problem of the harness itself.
type HarnessError struct{ Msg string }

// Crash unwinds the system under test at a simulated process crash.
type Crash struct{}

// ExitCode unwinds the system under test at os.Exit.
type ExitCode struct{ Code int }

// Sim is the state of one run.
type Sim struct {
	rec    Tape
	replay *Tape
	pos    [NumStreams]int
	rngs   [NumStreams]rng

	Viol   *Violation
	Log    []string // readable trace
	logOn  bool
	hash   uint64         // rolling hash over all choices and logged events
	shash  uint64         // hash over the schedule only
	Faults map[string]int // fault kinds that actually fired
	Probes map[string]int // rare conditions reached
	Clock  time.Duration  // simulated time

	// map iteration
	MapOrders  bool // the simulator permutes map iteration
	MapRanges  int
	MapPerms   int
	MaxMapPerm int

	// scheduler
	tasks    []*task
	cur      *task
	budget   int
	gap      int
	preempts int
	maxPre   int
	back     chan struct{}
	Switches int

	AtSwitch func() bool // called between tasks; true ends the run

	Gen uint64 // run number in this process
}

// S is the current run; nil outside runs.
var S *Sim

var coop bool // cooperative tasks are running
var gen uint64

// Hit counts executed scheduling points, for reach statistics.
var Hit []uint32

// StepLimit bounds the statements one run may execute: exceeding it means the
// system under test does not terminate.
const StepLimit = 1_000_000_000

// Hang unwinds a run that exceeded StepLimit.
type Hang struct{}

var steps int

// Y is a scheduling point in front of every statement of the system under test.
func Y(site int) {
	if uint(site) < uint(len(Hit)) {
		Hit[site]++
	}
	steps++
	if steps > StepLimit {
		panic(Hang{})
	}
	if !coop {
		return
	}
	s := S
	s.budget--
	if s.budget > 0 {
		return
	}
	s.yieldSlow(site)
}

// NewSim starts a run. With a replay tape choices are taken from it (0 after
// its end), otherwise they come from the seed.
func NewSim(seed uint64, replay *Tape, log bool) *Sim {
	if len(Hit) < len(Sites) {
		Hit = make([]uint32, len(Sites))
	}
	gen++
	steps = 0
	s := &Sim{replay: replay, logOn: log, hash: 14695981039346656037, shash: 14695981039346656037,
		Faults: map[string]int{}, Probes: map[string]int{}, MapOrders: true, Gen: gen}
	for i := range s.rngs {
		s.rngs[i] = rng{seed + uint64(i)*0x632be59bd9b4e019}
		s.rngs[i].next()
	}
	S = s
	return s
}

// StepsDone is the number of statements of the system under test executed in the run.
func (s *Sim) StepsDone() int { return steps }

// Tape returns the choices made so far.
func (s *Sim) Tape() *Tape { return s.rec.Clone() }

// Hash identifies the execution (choices and logged events).
func (s *Sim) Hash() uint64 { return s.hash }

// SchedHash identifies the schedule (task switches and map orders).
func (s *Sim) SchedHash() uint64 { return s.shash }

func (s *Sim) mix(v uint64) { s.hash = (s.hash ^ v) * 1099511628211 }

// Draw makes one choice in [0, n). 0 is always the simplest choice.
func (s *Sim) Draw(stream, n int) int {
	if n <= 0 {
		panic(HarnessError{fmt.Sprintf("draw from %d", n)})
	}
	var v uint32
	p := s.pos[stream]
	s.pos[stream]++
	if s.replay != nil {
		if p < len(s.replay.V[stream]) {
			v = s.replay.V[stream][p]
		}
		if uint64(v) >= uint64(n) {
			v = uint32(uint64(v) % uint64(n))
		}
	} else {
		v = uint32(s.rngs[stream].next() % uint64(n))
	}
	if p > 16_000_000 {
		panic(HarnessError{"too many choices in one run"})
	}
	s.rec.V[stream] = append(s.rec.V[stream], v)
	s.mix(uint64(stream)<<32 | uint64(v))
	if stream == Sched {
		s.shash = (s.shash ^ uint64(v)) * 1099511628211
	}
	return int(v)
}

// W draws from the workload stream.
func (s *Sim) W(n int) int { return s.Draw(Work, n) }

// F draws from the fault stream.
func (s *Sim) F(n int) int { return s.Draw(Fault, n) }

// P is true with probability num/den (drawn from the workload stream); false is
// the simple choice.
func (s *Sim) P(num, den int) bool { return s.W(den) >= den-num }

// FP is P on the fault stream.
func (s *Sim) FP(num, den int) bool { return s.F(den) >= den-num }

// Between draws lo..hi inclusive, lo being the simplest.
func (s *Sim) Between(lo, hi int) int { return lo + s.W(hi-lo+1) }

// Pick draws an index according to weights; index 0 should be the simplest.
func (s *Sim) Pick(weights ...int) int {
	total := 0
	for _, w := range weights {
		total += w
	}
	v := s.W(total)
	for i, w := range weights {
		if v < w {
			return i
		}
		v -= w
	}
	return len(weights) - 1
}

// Logf records an event. It never draws and never reads a real clock.
func (s *Sim) Logf(format string, a ...any) {
	line := fmt.Sprintf(format, a...)
	h := fnv.New64a()
	h.Write([]byte(line))
	s.mix(h.Sum64())
	if s.logOn && len(s.Log) < 20000 {
		s.Log = append(s.Log, line)
	}
}

// Logging tells whether a readable trace is kept.
func (s *Sim) Logging() bool { return s.logOn }

// Fault counts a fault that actually fired.
func (s *Sim) Faultf(kind string, format string, a ...any) {
	s.Faults[kind]++
	s.Logf("FAULT %s: %s", kind, fmt.Sprintf(format, a...))
}

// Probe counts a rare condition.
func (s *Sim) Probe(name string) { s.Probes[name]++ }

// Fail records a violation and unwinds the run.
func (s *Sim) Fail(class, format string, a ...any) {
	s.Record(class, format, a...)
	panic(failSentinel{})
}

// Record records a violation without unwinding.
func (s *Sim) Record(class, format string, a ...any) {
	if s.Viol == nil {
		s.Viol = &Violation{class, fmt.Sprintf(format, a...)}
		s.Logf("VIOLATION %s: %s", class, s.Viol.Msg)
	}
}

// IsUnwind tells whether a recovered value is one of the simulator's own.
func IsUnwind(p any) bool {
	switch p.(type) {
	case failSentinel, HarnessError, Crash, ExitCode, Hang:
		return true
	}
	return false
}

// Guard runs f as code of the system under test. A panic of the system under
// test is returned; the simulator's own unwinding passes through.
func Guard(f func()) (panicked any, stack string) {
	defer func() {
		if p := recover(); p != nil {
			if IsUnwind(p) {
				panic(p)
			}
			panicked = p
			stack = trimStack(string(debug.Stack()))
		}
	}()
	f()
	return nil, ""
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	var keep []string
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if strings.Contains(l, "/repo/") || strings.Contains(l, "mlange-42/bbn") {
			if strings.Contains(l, "verifsim/simrt") {
				continue
			}
			l = strings.TrimSpace(l)
			if i := strings.Index(l, " in goroutine "); i > 0 {
				l = l[:i]
			}
			if i := strings.LastIndex(l, " +0x"); i > 0 {
				l = l[:i]
			}
			if i := strings.LastIndex(l, "("); i > 0 && strings.HasSuffix(l, ")") {
				l = l[:i]
			}
			keep = append(keep, l)
		}
	}
	if len(keep) > 12 {
		keep = keep[:12]
	}
	return strings.Join(keep, "\n")
}

// Do runs the body of a run, catching the simulator's unwinding. A harness
// error or a panic outside Guard is returned as error text. With solo the
// body brings its own scheduler (a synctest bubble).
func (s *Sim) Do(solo bool, body func()) (herr string) {
	defer func() {
		coop = false
		if p := recover(); p != nil {
			switch e := p.(type) {
			case failSentinel:
			case HarnessError:
				herr = e.Msg
			case Hang:
				s.Record("no-progress", "the operation did not finish within %d statements", StepLimit)
			default:
				herr = fmt.Sprintf("unexpected panic in harness: %v\n%s", p, debug.Stack())
			}
		}
	}()
	if solo {
		body()
	} else {
		s.Main(body)
	}
	return ""
}
