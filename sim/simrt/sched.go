package simrt

import (
	"fmt"
	"runtime/debug"
	"time"
)

// task is one simulated thread of the callers (or of the system under test).
// Tasks are real goroutines that are parked and released one at a time: which
// one runs, and for how many statements, is decided by the Sched stream.
type task struct {
	id      int
	name    string
	wake    chan struct{}
	done    bool
	user    bool        // started by the harness, not by a `go` statement
	blocked func() bool // non-nil: not runnable until it returns true
	f       func()
	started bool
	unwind  any
}

// Free is set by generated code when the system under test synchronises by
// means the scheduler does not control (channels in the library): its
// goroutines then run freely and tasks run one after the other.
var Free bool

// Defaults for goroutines the system under test starts by itself.
const (
	defPreempts = 20
	defGap      = 300
)

// Spawn adds a task to be run by RunTasks.
func (s *Sim) Spawn(name string, f func()) {
	s.spawn(name, f, true)
}

func (s *Sim) spawn(name string, f func(), user bool) {
	t := &task{id: len(s.tasks), name: name, wake: make(chan struct{}), f: f, user: user}
	s.tasks = append(s.tasks, t)
	raceRelease(t)
}

// Go is the `go` statement of the system under test.
func Go(f func()) {
	if coop {
		S.spawn("go", func() {
			p, st := Guard(f)
			if p != nil {
				S.Fail("panic-in-goroutine", "a goroutine of the system under test panics: %v\n%s", p, st)
			}
		}, false)
		S.budget = 1 // let the simulator decide who continues
		return
	}
	go func() {
		defer func() {
			if p := recover(); p != nil {
				if S != nil && !IsUnwind(p) {
					S.Record("panic-in-goroutine", "goroutine of the system under test panicked: %v", p)
				}
			}
		}()
		f()
	}()
}

// Main runs the body of a run as the first task. While it is alone it runs
// without interruption; tasks it spawns, and goroutines the system under test
// starts, are interleaved by the simulator.
func (s *Sim) Main(f func()) {
	if Free {
		f()
		return
	}
	s.tasks = nil
	s.cur = nil
	s.spawn("main", f, true)
	s.back = make(chan struct{})
	s.maxPre, s.gap, s.preempts = defPreempts, defGap, 0
	defer func() {
		coop = false
		s.tasks = nil
		s.cur = nil
		raceAcquire(s) // runs do not race with each other
	}()
	main := s.tasks[0]
	for !main.done {
		var run []*task
		live := 0
		for _, t := range s.tasks {
			if t.done {
				continue
			}
			live++
			if t.blocked != nil && !t.blocked() {
				continue
			}
			run = append(run, t)
		}
		if len(run) == 0 {
			s.Record("deadlock", "all %d live tasks are blocked", live)
			panic(failSentinel{})
		}
		t := run[0]
		if len(run) > 1 {
			// index 0 = continue with the task that ran last if possible
			ordered := run
			if s.cur != nil {
				ordered = make([]*task, 0, len(run))
				for _, r := range run {
					if r == s.cur {
						ordered = append(ordered, r)
					}
				}
				for _, r := range run {
					if r != s.cur {
						ordered = append(ordered, r)
					}
				}
			}
			t = ordered[s.Draw(Sched, len(ordered))]
		}
		t.blocked = nil
		s.budget = 1 << 60
		if len(run) > 1 && s.preempts < s.maxPre {
			if g := s.Draw(Sched, s.gap+1); g > 0 {
				s.budget = g
			}
		}
		if t != s.cur && t != main {
			s.Switches++
			s.Logf("run task %d (%s)", t.id, t.name)
		}
		s.cur = t
		coop = true
		if !t.started {
			t.started = true
			go s.body(t)
		}
		raceDisable()
		t.wake <- struct{}{}
		if len(s.tasks) == 1 {
			<-s.back
		} else {
			select {
			case <-s.back:
			case <-time.After(120 * time.Second): // watchdog only, never decides anything else
				panic(HarnessError{fmt.Sprintf("task %s did not reach a scheduling point for 120 s", t.name)})
			}
		}
		raceEnable()
		coop = false
		if t.unwind != nil {
			panic(t.unwind)
		}
		if s.AtSwitch != nil && s.AtSwitch() {
			panic(failSentinel{})
		}
	}
}

func (s *Sim) body(t *task) {
	defer func() {
		if p := recover(); p != nil {
			t.unwind = p
			if !IsUnwind(p) {
				t.unwind = HarnessError{fmt.Sprintf("unexpected panic in task %s: %v\n%s", t.name, p, debug.Stack())}
			}
		}
		raceRelease(s)
		t.done = true
		raceDisable()
		s.back <- struct{}{}
		raceEnable()
	}()
	raceDisable()
	<-t.wake
	raceEnable()
	raceAcquire(t)
	t.f()
}

// RunTasks runs all spawned tasks to completion. maxPreempt bounds the number
// of preemptions, gap the statements between them.
func (s *Sim) RunTasks(maxPreempt, gap int) {
	if Free {
		ts := s.tasks
		s.tasks = nil
		for len(ts) > 0 {
			i := s.Draw(Sched, len(ts))
			ts[i].f()
			ts = append(ts[:i], ts[i+1:]...)
		}
		return
	}
	s.maxPre, s.gap, s.preempts = maxPreempt, gap, 0
	me := s.cur
	Block(func() bool {
		for _, t := range s.tasks {
			if t != me && t.user && !t.done {
				return false
			}
		}
		return true
	})
	raceAcquire(s)
	s.maxPre, s.gap, s.preempts = defPreempts, defGap, 0
}

func (s *Sim) park(t *task) {
	raceDisable()
	s.back <- struct{}{}
	<-t.wake
	raceEnable()
}

func (s *Sim) yieldSlow(site int) {
	t := s.cur
	s.preempts++
	where := "io"
	if site >= 0 && site < len(Sites) {
		where = Sites[site]
	}
	s.Logf("preempt task %d at %s", t.id, where)
	s.park(t)
}

// Block parks the current task until ready returns true. Only for tasks.
func Block(ready func() bool) {
	s := S
	t := s.cur
	for !ready() {
		t.blocked = ready
		s.park(t)
	}
}

// Coop tells whether cooperative tasks are running.
func Coop() bool { return coop }

// Sleep advances the simulated clock.
func Sleep(d time.Duration) {
	if S != nil {
		S.Clock += d
		if coop && len(S.tasks) > 1 {
			S.budget = 0
			Y(-1)
		}
	}
}
