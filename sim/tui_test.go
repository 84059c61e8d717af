package verifsim

import (
	"fmt"
	"os"
	"regexp"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/gdamore/tcell/v2"
	"github.com/mlange-42/bbn/internal/verifsim/cli_bbni"
	"github.com/mlange-42/bbn/internal/verifsim/simos"
	"github.com/mlange-42/bbn/internal/verifsim/simrt"
)

// simScreen is the simulated terminal.
type simScreen struct {
	tcell.SimulationScreen
	w, h int
	once sync.Once
}

func (t *simScreen) Init() error {
	err := t.SimulationScreen.Init()
	t.SimulationScreen.SetSize(t.w, t.h)
	return err
}

// Fini may be called again after a panic of the application.
func (t *simScreen) Fini() { t.once.Do(t.SimulationScreen.Fini) }

// session is a running bbni process on a simulated terminal.
type session struct {
	s       *simrt.Sim
	scr     *simScreen
	p       *proc
	running bool
	done    chan struct{}
	plan    *plan
	mx, my  int // last mouse position
	unwind  any
}

var live *session

// startTUI starts bbni. It returns when the process waits for input or has ended.
func startTUI(s *simrt.Sim, args []string, w, h int, pl *plan) *session {
	fs := simos.Cur
	fs.NewProcess()
	t := &session{s: s, p: &proc{}, done: make(chan struct{}), plan: pl, running: true}
	fs.Decide = func(op simos.Op) simos.Kind {
		if t.plan != nil && op.N == t.plan.at {
			o := op
			t.p.fired = &o
			t.p.kind = t.plan.kind
			return t.plan.kind
		}
		return simos.None
	}
	simrt.LastApp = nil
	simrt.NewScreen = func() tcell.Screen {
		t.scr = &simScreen{SimulationScreen: tcell.NewSimulationScreen("UTF-8"), w: w, h: h}
		return t.scr
	}
	s.Logf("$ %q on a terminal of %dx%d", args, w, h)
	simos.Args = args
	live = t
	restore := capture()
	os.Args = args
	go func() {
		defer close(t.done)
		defer func() {
			if r := recover(); r != nil {
				switch e := r.(type) {
				case simrt.ExitCode:
					t.p.code = e.Code
				case simrt.Crash:
					t.p.crashed = true
					t.p.code = 137
				default:
					t.unwind = r
				}
			}
		}()
		t.p.panicV, t.p.stack = simrt.Guard(cli_bbni.Main)
		if t.p.panicV != nil {
			t.p.code = 2
		}
	}()
	t.settle()
	real := restore()
	t.p.out = string(real)
	return t
}

// settle lets the process work until it waits for input.
func (t *session) settle() {
	synctest.Wait()
	time.Sleep(100 * time.Millisecond)
	synctest.Wait()
	if !t.running {
		return
	}
	select {
	case <-t.done:
		t.ended()
	default:
	}
}

func (t *session) ended() {
	t.running = false
	fs := simos.Cur
	t.p.out = string(fs.Out) + t.p.out
	t.p.text = t.p.out + string(fs.Err)
	t.p.ops = fs.Ops
	fs.Decide, fs.Chunk = nil, nil
	fs.Frozen = false
	if app := simrt.LastApp; app != nil {
		app.Stop() // the event goroutine survives a panic
		synctest.Wait()
	}
	simrt.NewScreen = nil
	live = nil
	if t.unwind != nil {
		panic(t.unwind)
	}
	if t.p.panicV != nil {
		t.s.Logf("-> panic %v", t.p.panicV)
	} else {
		t.s.Logf("-> exit %d, crashed=%v", t.p.code, t.p.crashed)
	}
}

// kill ends the process from outside (SIGKILL): only files remain.
func (t *session) kill() {
	if !t.running {
		return
	}
	simos.Cur.Frozen = true
	if app := simrt.LastApp; app != nil {
		app.Stop()
	}
	synctest.Wait()
	t.p.crashed = true
	t.settle()
}

// endTUI cleans up at the end of a run.
func endTUI() {
	if t := live; t != nil {
		if app := simrt.LastApp; app != nil {
			app.Stop()
		}
		synctest.Wait()
		live = nil
		simrt.NewScreen = nil
		simos.Cur.Decide, simos.Cur.Chunk = nil, nil
	}
}

func (t *session) key(k tcell.Key, r rune) {
	t.s.Logf("key %s", tcell.NewEventKey(k, r, 0).Name())
	t.scr.InjectKey(k, r, tcell.ModNone)
	t.settle()
}

func (t *session) rune(r rune) { t.key(tcell.KeyRune, r) }

func (t *session) click(x, y int, b tcell.ButtonMask) {
	// two clicks within half a second would be a double click
	time.Sleep(700 * time.Millisecond)
	t.s.Logf("click %v at %d,%d", b, x, y)
	t.scr.InjectMouse(x, y, b, tcell.ModNone)
	t.settle()
	if !t.running {
		return
	}
	t.scr.InjectMouse(x, y, tcell.ButtonNone, tcell.ModNone)
	t.settle()
}

func (t *session) resize(w, h int) {
	t.s.Logf("resize to %dx%d", w, h)
	t.scr.w, t.scr.h = w, h
	t.scr.SetSize(w, h)
	_ = t.scr.PostEvent(tcell.NewEventResize(w, h))
	t.settle()
}

// screen returns the visible text as lines of runes.
func (t *session) screen() [][]rune {
	cells, w, h := t.scr.GetContents()
	res := make([][]rune, h)
	for y := range res {
		res[y] = make([]rune, w)
		for x := range res[y] {
			r := ' '
			if c := cells[y*w+x]; len(c.Runes) > 0 && c.Runes[0] != 0 {
				r = c.Runes[0]
			}
			res[y][x] = r
		}
	}
	return res
}

// color is the color of a character on the screen.
func (t *session) color(x, y int) tcell.Color {
	cells, w, _ := t.scr.GetContents()
	fg, _, _ := cells[y*w+x].Style.Decompose()
	return fg
}

func text(scr [][]rune) string {
	var sb strings.Builder
	for _, l := range scr {
		sb.WriteString(strings.TrimRight(string(l), " ") + "\n")
	}
	return strings.TrimRight(sb.String(), "\n")
}

var shownRE = regexp.MustCompile(`-?\d+\.\d+(?:[eE][+-]?\d+)?|\?\?\?`)

// box is a node as visible on the screen.
type box struct {
	x, y, w, h int // on the screen
	selected   bool
	title      string
	rows       []string
	marks      []rune
	ends       []rune // marks at the end of rows
}

// readBox reads the node whose upper left corner is at x, y.
func readBox(scr [][]rune, x, y int) (*box, string) {
	if y < 0 || y >= len(scr) || x < 0 || x >= len(scr[y]) {
		return nil, fmt.Sprintf("nothing visible at %d,%d", x, y)
	}
	b := &box{x: x, y: y}
	switch scr[y][x] {
	case '┌':
	case '╔':
		b.selected = true
	default:
		return nil, fmt.Sprintf("no node at %d,%d but %q", x, y, scr[y][x])
	}
	for b.w = 1; ; b.w++ {
		if x+b.w >= len(scr[y]) {
			return nil, fmt.Sprintf("node at %d,%d has no right border", x, y)
		}
		if c := scr[y][x+b.w]; c == '┐' || c == '╗' {
			b.w++
			break
		} else if c != '─' && c != '═' {
			return nil, fmt.Sprintf("broken border of the node at %d,%d", x, y)
		}
	}
	for b.h = 1; ; b.h++ {
		if y+b.h >= len(scr) {
			return nil, fmt.Sprintf("node at %d,%d has no lower border", x, y)
		}
		c := scr[y+b.h][x]
		if c == '└' || c == '╚' {
			b.h++
			break
		} else if c != '│' && c != '║' {
			return nil, fmt.Sprintf("broken border of the node at %d,%d", x, y)
		}
		if c := scr[y+b.h][x+b.w-1]; c != '│' && c != '║' {
			return nil, fmt.Sprintf("broken right border of the node at %d,%d", x, y)
		}
		line := string(scr[y+b.h][x+1 : x+b.w-1])
		if b.h == 1 {
			b.title = strings.TrimRight(strings.TrimPrefix(line, " "), " ")
		} else {
			b.rows = append(b.rows, line)
			b.marks = append(b.marks, scr[y+b.h][x+1])
			b.ends = append(b.ends, scr[y+b.h][x+b.w-2])
		}
	}
	return b, ""
}

// value is the last number in a row, before the mark.
func value(row string) string {
	f := strings.Fields(string([]rune(row)[:len([]rune(row))-1]))
	if len(f) == 0 || shownRE.FindString(f[len(f)-1]) != f[len(f)-1] {
		return ""
	}
	return f[len(f)-1]
}
