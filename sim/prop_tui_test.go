package verifsim

import (
	"fmt"
	"math"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/gdamore/tcell/v2"
	"github.com/mlange-42/bbn/internal/verifsim/simos"
	"github.com/mlange-42/bbn/internal/verifsim/simrt"
	"github.com/mlange-42/bbn/ve"
)

func init() {
	register(&prop{id: "C12", run: runTerminal, bubble: true})
}

// C12: the interactive tool shows exact values after every history of events
// and never crashes.
func runTerminal(s *simrt.Sim) {
	switch s.Pick(5, 3, 1) {
	case 0:
		modelled(s)
	case 1:
		wild(s)
	case 2:
		startFault(s)
	}
}

// ui is the model of a session: what the user should see.
type ui struct {
	s       *simrt.Sim
	t       *session
	n       *NetSpec // positions are the displayed ones
	m       *refModel
	pols    map[int]*rpol
	opt     map[int]*refDec // nil: policies may be tied
	trust   bool            // values are known
	ev      map[int]int
	sel     int
	state   int
	ignore  bool
	dialog  string
	w, h    int
	big     bool // everything fits on the screen
	ox, oy  int  // scroll offset
	dim     []box
	origin  [][2]int
	file    string
	save    string
	moved   bool
	saves   int
	saved   [][2]int // positions as they should be saved
	trained bool
	start   [][2]int
	ev0     map[int]int
}

func saveName(file string) string {
	ext := ""
	if i := strings.LastIndex(file, "."); i > strings.LastIndex(file, "/") {
		ext = file[i:]
	}
	return strings.TrimSuffix(file, ext) + "-save.yml"
}

// layout puts nodes on a coarse grid, so that none overlaps another.
func layout(s *simrt.Sim, n *NetSpec) (w, h int) {
	maxH := 0
	for _, v := range n.Vars {
		maxH = max(maxH, len(v.Outcomes)+4)
	}
	cols := 1 + s.W(4)
	for i := range n.Vars {
		n.Vars[i].Pos = [2]int{(i%cols)*54 + s.W(4), (i/cols)*(maxH+7) + s.W(4)}
		// nodes outside of the drawing area are shown at its border
		if i%cols == 0 && s.P(1, 8) {
			n.Vars[i].Pos[0] = -1 - s.W(3)
		}
		if i/cols == 0 && s.P(1, 8) {
			n.Vars[i].Pos[1] = -1 - s.W(3)
		}
	}
	rows := (len(n.Vars) + cols - 1) / cols
	return max(cols*54+12, 84), max(rows*(maxH+7)+16, 30)
}

// uiNet draws a network for a session with a model.
func uiNet(s *simrt.Sim) *NetSpec {
	o := genOpt{maxChance: 4, maxDec: 2, maxUtil: 2, names: 2, maxCard: 5, maxTable: 60, partial: true}
	if s.P(1, 2) {
		o.maxDec, o.maxUtil = 0, 0
	}
	if s.P(1, 10) {
		o.maxChance, o.maxCard = 2, 12
		o.maxTable = 150
		o.wideCards = true
	}
	many := s.P(1, 25)
	if many {
		o.maxCard, o.maxDec, o.maxUtil, o.maxTable = 2, 0, 0, 20
	} else if s.P(1, 12) {
		o.maxUtil = 7
		o.maxChance = 3
	}
	o = o.largerUI(s, 15)
	if many {
		o.maxChance = 12
	}
	n := genNet(s, o)
	if len(n.utilities()) == 0 && len(n.Decisions) > 0 {
		o.maxDec = 0
		n = genNet(s, o)
	}
	if s.P(1, 5) {
		n.Name = []string{"my.net", "net.xml", "net.yml", "a/b", "N 1"}[s.W(5)]
	}
	for i := range n.Vars {
		if s.P(1, 6) {
			n.Vars[i].Color = []string{"red", "blue", "aqua", "olive", "white", "gray", "black", "green"}[s.W(8)]
		}
	}
	if us := n.utilities(); len(us) > 0 && s.P(1, 5) {
		f := math.Pow10(3 + s.W(12))
		for _, u := range us {
			for k := range n.Vars[u].Table {
				n.Vars[u].Table[k] *= f
			}
		}
	}
	return n
}

// newUI writes the files, starts the program and checks the first screen.
func newUI(s *simrt.Sim, train bool, pl *plan) *ui {
	n := uiNet(s)
	u := &ui{s: s, n: n, ev: map[int]int{}, big: true}
	u.w, u.h = layout(s, n)
	if s.P(1, 12) {
		u.h += 60 // space for long tables
	}
	if s.P(1, 4) {
		n.Info = []string{"information about this", "see [red] and [1]", "a [::b]bold[::-] word", "[-] ünï \"code\" [\"x\"]"}[s.W(4)]
	}
	s.Logf("%s", n.describe())
	u.file = placeNet(s, n)
	u.save = saveName(u.file)
	args := []string{"bbni", u.file}
	if train {
		o := genCSV(s, n)
		data := n.cover(s, genData(s, n))
		simos.Cur.Put("data.csv", n.csv(s, data, o))
		want, _, _ := n.train(data)
		args = append(args, "-t", "data.csv", "-d", string(o.delim), "-n", o.noData)
		u.n = want
		u.trained = true
	}
	if s.P(1, 3) {
		u.ev = genEvidence(s, u.n, u.n.nonUtility(), []int{2, 2, 5, 12}[s.W(4)])
		args = append(args, evidenceArgs(s, u.n, u.ev)...)
	}
	u.m = newRef(u.n)
	u.trust = true
	if len(u.n.Decisions) > 0 {
		opt := u.m.optimum()
		if u.m.unique(opt) {
			u.opt = opt
			u.pols = u.m.policies(opt)
		} else if train {
			u.trust = false // rounding may break ties either way
		} else {
			u.pols = displayPolicies(s, u.n, u.m, "tui-start")
		}
	}
	u.t = startTUI(s, args, u.w, u.h, pl)
	if !u.t.running {
		if pl == nil {
			s.Fail("tui-start", "bbni does not start with a valid network: %s", u.t.p)
		}
		return u
	}
	u.begin()
	return u
}

// begin initialises the model after the program has started.
func (u *ui) begin() {
	if u.n.Info != "" {
		u.dialog = "Info"
	}
	u.origin = make([][2]int, len(u.n.Vars))
	u.saved = make([][2]int, len(u.n.Vars))
	u.start = make([][2]int, len(u.n.Vars))
	u.ev0 = map[int]int{}
	for k, v := range u.ev {
		u.ev0[k] = v
	}
	for i := range u.n.Vars {
		p := &u.n.Vars[i].Pos
		u.saved[i] = *p
		u.start[i] = *p
		p[0], p[1] = max(0, p[0]), max(0, p[1])
		u.origin[i] = *p
	}
}

// alive fails if the program has ended.
func (u *ui) alive(what string) {
	if !u.t.running {
		u.s.Fail("tui-died", "after %s: %s", what, u.t.p)
	}
}

// check compares the screen with the model.
func (u *ui) check(what string) {
	u.alive(what)
	scr := u.t.screen()
	fail := func(class, f string, a ...any) {
		u.s.Fail(class, "after %s: %s\nevidence %v, selected %q/%d, ignore policies %v, dialog %q\n%s", what,
			fmt.Sprintf(f, a...), u.n.evNames(u.ev), u.n.Vars[u.sel].Name, u.state, u.ignore, u.dialog, text(scr))
	}
	all := text(scr)
	if u.h >= 30 && u.w >= 84 {
		for _, d := range []struct{ name, text string }{{"Help", "Close help"}, {"Info", "Close info"}, {"Table", "Close table"}} {
			if got := strings.Contains(all, d.text); got != (u.dialog == d.name) {
				fail("tui-dialog", "%s dialog visible: %v", d.name, got)
			}
		}
	}
	if u.dialog == "Info" && u.n.Info != "" && u.big && !strings.Contains(all, u.n.Info) {
		fail("tui-dialog", "the info dialog does not show the info %q", u.n.Info)
	}
	if name := strings.TrimSpace(u.n.Name); u.dialog == "" && len(name)+len(u.file)+20 < u.w && utf8.RuneCountInString(name) == len(name) {
		if head := string(scr[0]); !strings.Contains(head, name) || !strings.Contains(head, u.file) {
			fail("tui-screen", "the first line %q does not show network %q and file %q", head, name, u.file)
		}
	}
	if u.dialog != "" || !u.trust {
		return
	}
	if blue := u.t.color(0, 1) == tcell.ColorBlue; blue != u.ignore {
		fail("tui-color", "the frame is blue: %v", blue)
	}
	want := u.m.display(u.pols, u.ev, u.ignore)
	seen := 0
	own := make([]int, u.w*u.h) // node per cell, from 1
	mark := func(i, x, y, w, h int) {
		for yy := max(y, 0); yy < min(y+h, u.h); yy++ {
			for xx := max(x, 0); xx < min(x+w, u.w); xx++ {
				own[yy*u.w+xx] = i + 1
			}
		}
	}
	for i, v := range u.n.Vars {
		x, y := 1+v.Pos[0]-u.ox, 2+v.Pos[1]-u.oy
		if !u.big {
			d := u.dim[i]
			mark(i, x, y, d.w, d.h)
			if x < 1 || y < 2 || x+d.w > u.w-1 || y+d.h > u.h-2 {
				continue
			}
		}
		b, msg := readBox(scr, x, y)
		if msg != "" {
			fail("tui-screen", "%q: %s", v.Name, msg)
		}
		seen++
		mark(i, x, y, b.w, b.h)
		if b.selected != (i == u.sel) {
			fail("tui-selection", "%q is selected: %v", v.Name, b.selected)
		}
		name := v.Name
		if r := []rune(name); v.Kind != ve.ChanceNode && len(r) > 15 {
			name = string(r[:len(r)-1]) // the mark of the node type may hide the end of a long name
		}
		if !strings.HasPrefix(b.title, name) {
			fail("tui-title", "title of %q is %q", v.Name, b.title)
		}
		if c := nodeColor(&v); true {
			for yy := y; yy < y+b.h; yy++ {
				for xx := x; xx < x+b.w; xx++ {
					if r := scr[yy][xx]; r != ' ' && u.t.color(xx, yy) != c {
						fail("tui-color", "%q at %d,%d is %v, the color of %q is %v", r, xx, yy, u.t.color(xx, yy), v.Name, c)
					}
				}
			}
		}
		vals := want[i]
		if len(b.rows) != len(vals) {
			fail("tui-screen", "%q has %d rows, want %d", v.Name, len(b.rows), len(vals))
		}
		_, isEv := u.ev[i]
		for j, row := range b.rows {
			if j < len(v.Outcomes) && !strings.HasPrefix(strings.TrimSpace(string([]rune(row)[1:])), v.Outcomes[j]) {
				fail("tui-label", "row %d of %q is %q, want outcome %q", j, v.Name, row, v.Outcomes[j])
			}
			if !shown(value(row), vals[j], v.Kind != ve.UtilityNode) {
				fail("tui-value", "%q row %d shows %q, want %v", v.Name, j, row, vals[j])
			}
			if v.Kind == ve.UtilityNode {
				continue
			}
			mark := ' '
			if i == u.sel && u.state == j {
				mark = '['
			} else if isEv {
				mark = '+'
			}
			if b.marks[j] != mark {
				fail("tui-mark", "%q row %d is marked %q, want %q", v.Name, j, b.marks[j], mark)
			}
			if (b.ends[j] != ' ') != (mark != ' ') || (b.ends[j] == ']') != (mark == '[') {
				fail("tui-mark", "%q row %d is marked %q and %q", v.Name, j, b.marks[j], b.ends[j])
			}
			if msg := checkBar(row, vals[j]); msg != "" {
				fail("tui-bar", "%q row %d: %s in %q", v.Name, j, msg, row)
			}
		}
	}
	if msg := u.between(scr, own); msg != "" {
		fail("tui-screen", "%s", msg)
	}
	if u.big || seen > 0 {
		u.s.Probe("screens compared")
	}
}

// nodeColor is the color of a node on the screen.
func nodeColor(v *VarSpec) tcell.Color {
	if v.Color != "" {
		return tcell.GetColor(v.Color)
	}
	switch v.Kind {
	case ve.DecisionNode:
		return tcell.ColorBlue
	case ve.UtilityNode:
		return tcell.ColorGreen
	}
	return tcell.ColorWhite
}

// between checks the space between the nodes: there are only edges, which point
// to nodes with parents.
func (u *ui) between(scr [][]rune, own []int) string {
	edges, heads := 0, 0
	for _, v := range u.n.Vars {
		edges += max(len(v.Given), len(v.Known))
	}
	for y := 2; y < u.h-2 && y < len(scr); y++ {
		for x := 1; x < u.w-1 && x < len(scr[y]); x++ {
			r := scr[y][x]
			if r == ' ' || own[y*u.w+x] > 0 {
				continue
			}
			to := -1
			switch r {
			case '<':
				to = y*u.w + x - 1
			case '>':
				to = y*u.w + x + 1
			case '^':
				to = (y-1)*u.w + x
			case 'v':
				to = (y+1)*u.w + x
			default:
				if unicode.IsLetter(r) || unicode.IsDigit(r) || strings.ContainsRune("═║╔╗╚╝█░", r) {
					return fmt.Sprintf("there is %q at %d,%d, outside of all nodes", r, x, y)
				}
				continue
			}
			heads++
			if to/u.w < 2 || to/u.w >= u.h-2 || to%u.w < 1 || to%u.w >= u.w-1 {
				continue // points to a hidden part
			}
			if own[to] == 0 || len(u.n.known(own[to]-1)) == 0 {
				return fmt.Sprintf("the arrow at %d,%d does not point to a node with parents", x, y)
			}
		}
	}
	if heads > edges {
		return fmt.Sprintf("there are %d arrows for %d edges", heads, edges)
	}
	if !u.big {
		return ""
	}
	if edges == 1 && heads == 0 {
		for c, v := range u.n.Vars {
			if v.Kind != ve.DecisionNode && len(v.Given) == 1 && u.apart(own, v.Given[0], c) {
				return fmt.Sprintf("there is no arrow from %q to %q", u.n.Vars[v.Given[0]].Name, v.Name)
			}
		}
	}
	// next to a node with an edge, there is a part of the edge (or of another one that covers it)
	beside := func(i int) bool {
		visible := false
		for c, o := range own {
			if o != i+1 {
				continue
			}
			visible = true
			for _, d := range []int{-1, 1, -u.w, u.w} {
				k := c + d
				if k/u.w < 2 || k/u.w >= u.h-2 || k%u.w < 1 || k%u.w >= u.w-1 {
					continue
				}
				if own[k] != 0 && own[k] != o {
					return true // another node may hide it
				}
				if own[k] == 0 && scr[k/u.w][k%u.w] != ' ' {
					return true
				}
			}
		}
		return !visible
	}
	for c, v := range u.n.Vars {
		if v.Kind == ve.DecisionNode {
			continue // edges are those of the policy
		}
		for _, p := range v.Given {
			for _, i := range []int{c, p} {
				if !beside(i) {
					return fmt.Sprintf("the edge from %q to %q is not shown", u.n.Vars[p].Name, v.Name)
				}
			}
		}
	}
	return ""
}

// checkBar compares the length of a probability bar with the value.
// apart tells whether there is space between two nodes, and nothing else beside the second one.
func (u *ui) apart(own []int, from, to int) bool {
	var x0, x1, y0, y1 [2]int
	for k := range x0 {
		x0[k], y0[k], x1[k], y1[k] = u.w, u.h, -1, -1
	}
	for c, o := range own {
		k := 0
		switch o - 1 {
		case from:
		case to:
			k = 1
			for _, d := range []int{-1, 1, -u.w, u.w} {
				if n := c + d; n >= 0 && n < len(own) && own[n] != 0 && own[n] != o {
					return false
				}
			}
		default:
			continue
		}
		x0[k], x1[k] = min(x0[k], c%u.w), max(x1[k], c%u.w)
		y0[k], y1[k] = min(y0[k], c/u.w), max(y1[k], c/u.w)
	}
	if x1[0] < 0 || x1[1] < 0 {
		return false
	}
	return x1[0]+3 < x0[1] || x1[1]+3 < x0[0] || y1[0]+3 < y0[1] || y1[1]+3 < y0[0]
}

func checkBar(row string, p float64) string {
	full, cells, end := 0.0, 0, false
	for _, r := range row {
		f := -1.0
		switch {
		case r == '█':
			f = 1
		case r == '░':
			f = 0
		case r >= '▉' && r <= '▏': // seven to one eighths
			f = float64('▏'-r+1) / 8
		}
		if f < 0 {
			continue
		}
		if f > 0 && end {
			return "a gap in the bar"
		}
		end = f < 1
		full += f
		cells++
	}
	if math.IsNaN(p) {
		if full > 0 {
			return "a bar for an undefined probability"
		}
		return ""
	}
	if cells != 10 || math.Abs(full-p*10) > 0.3 {
		return fmt.Sprintf("bar of length %v of %d for probability %v", full, cells, p)
	}
	return ""
}

// enter toggles evidence for the selected state.
func (u *ui) enter() {
	if u.n.Vars[u.sel].Kind == ve.UtilityNode {
		return
	}
	if old, ok := u.ev[u.sel]; ok && old == u.state {
		delete(u.ev, u.sel)
		return
	}
	u.ev[u.sel] = u.state
}

// step performs one random event and updates the model. It returns what
// happened, or "" if the session should end.
func (u *ui) step() string {
	s, t := u.s, u.t
	n := u.n
	if u.dialog != "" {
		name := u.dialog
		switch k := s.W(8); k {
		case 0:
			t.key(tcell.KeyEsc, 0)
			u.dialog = ""
		case 6:
			// the header is not part of the drawing, and no dialog covers it
			if u.h >= 30 && (name != "Table" || u.m.size(n.known(u.sel))+10 < u.h) {
				t.click(s.W(u.w), 0, tcell.Button1)
			}
		case 7:
			// the hint at the bottom of the dialog
			scr := t.screen()
			for y := range scr {
				if i := strings.Index(string(scr[y]), "Close "+strings.ToLower(name)); i >= 0 {
					t.click(len([]rune(string(scr[y])[:i]))+3, y, tcell.Button1)
					// it may or may not close the dialog
					u.alive("a click on the hint")
					if !strings.Contains(text(t.screen()), "Close "+strings.ToLower(name)) {
						u.dialog = ""
					}
					break
				}
			}
		case 1:
			t.key(tcell.KeyEnter, 0)
			u.dialog = ""
		case 2:
			// outside of the dialog
			t.click(1, 2, tcell.Button1)
			u.dialog = ""
		case 3:
			t.click(u.w/2, u.h/2, []tcell.ButtonMask{tcell.Button1, tcell.Button2}[s.W(2)])
			u.dialog = ""
		case 4:
			// anything else belongs to the dialog
			r := []rune{' ', '1', 't', 'p', 'w', 'a', 's', 'd', 'x', 'h', 'i', 'j', 'k', 'l', 'g', 'q'}[s.W(16)]
			t.rune(r)
		case 5:
			k := []tcell.Key{tcell.KeyTab, tcell.KeyUp, tcell.KeyDown, tcell.KeyLeft, tcell.KeyRight, tcell.KeyCtrlS}[s.W(6)]
			t.key(k, 0)
		}
		return "an event in dialog " + name
	}
	cur := n.card(u.sel)
	switch s.Pick(4, 2, 3, 3, 6, 2, 2, 1, 3, 5, 2, 2, 1, 2, 2, 2) {
	case 0:
		t.key(tcell.KeyTab, 0)
		u.sel = (u.sel + 1) % len(n.Vars)
		u.state = 0
		return "Tab"
	case 1:
		t.key(tcell.KeyBacktab, 0)
		u.sel = (u.sel + len(n.Vars) - 1) % len(n.Vars)
		u.state = 0
		return "Backtab"
	case 2:
		times := 1
		if s.P(1, 4) {
			times = 1 + s.W(cur+2)
		}
		for k := 0; k < times; k++ {
			t.rune(' ')
			u.state = (u.state + 1) % cur
		}
		return fmt.Sprintf("%d x Space", times)
	case 3:
		d := s.W(10)
		t.rune(rune('0' + d))
		if d >= 1 && d <= cur {
			u.state = d - 1
		}
		return fmt.Sprintf("digit %d", d)
	case 4:
		t.key(tcell.KeyEnter, 0)
		u.enter()
		return "Enter"
	case 5:
		t.rune('p')
		u.ignore = !u.ignore
		return "p"
	case 6:
		if len(n.Decisions) > 0 && s.P(1, 2) {
			// a policy
			d := n.Decisions[s.W(len(n.Decisions))]
			for u.sel != d {
				t.key(tcell.KeyTab, 0)
				u.sel = (u.sel + 1) % len(n.Vars)
				u.state = 0
			}
		}
		t.rune('t')
		u.dialog = "Table"
		u.table("t")
		if s.P(1, 4) {
			for k := s.W(3); k >= 0; k-- {
				t.key([]tcell.Key{tcell.KeyEnd, tcell.KeyPgDn, tcell.KeyDown, tcell.KeyUp}[s.W(4)], 0)
			}
			u.table("scrolling the table")
		}
		return "t"
	case 7:
		if s.P(1, 2) {
			t.rune('h')
			u.dialog = "Help"
			return "h"
		}
		t.rune('i')
		u.dialog = "Info"
		return "i"
	case 8:
		if !u.big {
			t.key(tcell.KeyTab, 0)
			u.sel = (u.sel + 1) % len(n.Vars)
			u.state = 0
			return "Tab"
		}
		d := s.W(4)
		p := &n.Vars[u.sel].Pos
		o := u.origin[u.sel]
		times := 1 + s.W(3)
		for k := 0; k < times; k++ {
			dx := []int{0, -1, 0, 1}[d]
			dy := []int{-1, 0, 1, 0}[d]
			if abs(p[0]+dx-o[0]) > 3 || abs(p[1]+dy-o[1]) > 3 {
				break
			}
			t.rune(rune("wasd"[d]))
			u.alive("moving a node")
			if p[0]+dx >= 0 && p[1]+dy >= 0 {
				p[0] += dx
				p[1] += dy
				u.saved[u.sel] = *p
				u.moved = true
			}
		}
		return "moving with " + string("wasd"[d])
	case 9:
		return u.clickNode()
	case 10:
		return u.scroll()
	case 11:
		r := []rune{'x', 'ü', 'E', '-', '#', 'z'}[s.W(6)]
		t.rune(r)
		return "an unused key"
	case 12:
		t.key(tcell.KeyCtrlS, 0)
		u.alive("Ctrl+S")
		u.saves++
		return "Ctrl+S"
	case 13:
		// click on nothing: between the boxes there is always space below
		i := s.W(len(n.Vars))
		if !u.big {
			return "nothing"
		}
		x, y := 1+n.Vars[i].Pos[0], 2+n.Vars[i].Pos[1]+n.card(i)+3
		if n.Vars[i].Kind == ve.UtilityNode {
			y++
		}
		t.click(x, y, tcell.Button1)
		return "a click beside the nodes"
	case 14:
		// repeat Enter: twice changes nothing
		t.key(tcell.KeyEnter, 0)
		u.enter()
		u.alive("Enter")
		t.key(tcell.KeyEnter, 0)
		u.enter()
		return "Enter twice"
	case 15:
		return u.resize()
	}
	return "nothing"
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

// clickNode clicks on a visible node.
func (u *ui) clickNode() string {
	s, t, n := u.s, u.t, u.n
	// click on an outcome
	visible := make([]int, 0, len(n.Vars))
	for i := range n.Vars {
		x, y := 1+n.Vars[i].Pos[0]-u.ox, 2+n.Vars[i].Pos[1]-u.oy
		if u.big || !(x < 1 || y < 2 || x+u.dim[i].w > u.w-1 || y+u.dim[i].h > u.h-2) {
			visible = append(visible, i)
		}
	}
	if len(visible) == 0 {
		return "nothing"
	}
	i := visible[s.W(len(visible))]
	x, y := 1+n.Vars[i].Pos[0]-u.ox, 2+n.Vars[i].Pos[1]-u.oy
	if u.oy > 0 || u.ox > 0 {
		u.s.Probe("clicks in a scrolled view")
	}
	j := s.W(n.card(i) + 2)
	if s.P(1, 6) {
		j = n.card(i) + 1
	}
	dx := s.W(15)
	if j == n.card(i)+1 {
		// title
		t.click(x+dx, y+1, tcell.Button1)
		u.choose(i)
		return "a click on the title of " + n.Vars[i].Name
	}
	if j == n.card(i) {
		// right click: table
		t.click(x+dx, y+s.W(3), tcell.Button2)
		u.choose(i)
		u.dialog = "Table"
		u.table("a right click")
		return "a right click on " + n.Vars[i].Name
	}
	t.click(x+dx, y+2+j, tcell.Button1)
	u.choose(i)
	u.state = j
	u.enter()
	return fmt.Sprintf("a click on outcome %d of %s", j, n.Vars[i].Name)
}

// scroll moves the view.
func (u *ui) scroll() string {
	k := u.s.Pick(1, 2, 1, 3)
	for times := []int{1, 1, 2, 5, 12, 30}[u.s.W(6)]; times > 0; times-- {
		u.t.key([]tcell.Key{tcell.KeyLeft, tcell.KeyRight, tcell.KeyUp, tcell.KeyDown}[k], 0)
		u.alive("scrolling")
		u.ox += []int{-1, 1, 0, 0}[k]
		u.oy += []int{0, 0, -1, 1}[k]
		u.clamp()
	}
	return "scrolling"
}

// resize switches between the large and a small terminal.
func (u *ui) resize() string {
	if u.big {
		// learn the size of the boxes
		scr := u.t.screen()
		u.dim = make([]box, len(u.n.Vars))
		for i, v := range u.n.Vars {
			b, msg := readBox(scr, 1+v.Pos[0], 2+v.Pos[1])
			if msg != "" {
				if !u.trust {
					return "nothing"
				}
				u.s.Fail("tui-screen", "%q: %s\n%s", v.Name, msg, text(scr))
			}
			u.dim[i] = *b
		}
	}
	if u.s.P(1, 2) {
		u.big = true
		w, h := u.fit()
		u.w, u.h = w+u.s.W(10), h+u.s.W(10)
		u.ox, u.oy = 0, 0
	} else {
		if u.moved {
			return "nothing"
		}
		u.big = false
		u.w, u.h = 45+u.s.W(40), 16+u.s.W(15)
	}
	u.t.resize(u.w, u.h)
	u.clamp()
	return "resizing"
}

// fit is a terminal size that shows everything.
func (u *ui) fit() (int, int) {
	w, h := 84, 30
	for _, v := range u.n.Vars {
		w = max(w, v.Pos[0]+56)
		h = max(h, v.Pos[1]+len(v.Outcomes)+20)
	}
	return w, h
}

// clamp restricts scrolling to the drawing.
func (u *ui) clamp() {
	if u.big {
		u.ox, u.oy = 0, 0
		return
	}
	cw, ch := 0, 0
	for i, v := range u.n.Vars {
		cw = max(cw, v.Pos[0]+u.dim[i].w)
		ch = max(ch, v.Pos[1]+u.dim[i].h)
	}
	u.ox = max(0, min(u.ox, cw-(u.w-2)))
	u.oy = max(0, min(u.oy, ch-(u.h-4)))
}

// choose selects a node by mouse.
func (u *ui) choose(i int) {
	if i != u.sel {
		u.sel = i
		u.state = 0
	}
}

// table checks the table dialog of the selected node.
func (u *ui) table(what string) {
	u.alive(what)
	if !u.big || !u.trust {
		return
	}
	n := u.n
	v := n.Vars[u.sel]
	known := n.known(u.sel)
	rows := u.m.size(known)
	if u.sel == n.Total {
		rows = 1
	}
	width := 0
	for _, g := range known {
		x := len([]rune(n.Vars[g].Name))
		for _, o := range n.Vars[g].Outcomes {
			x = max(x, len([]rune(o)))
		}
		width += x + 1
	}
	for _, o := range v.Outcomes {
		width += max(len([]rune(o)), 12) + 1
	}
	if width > 66 {
		return
	}
	// of a table that does not fit, any rows may be shown, but always its header
	fits := rows+12 <= u.h
	if !fits {
		u.s.Probe("tables that do not fit")
	}
	scr := u.t.screen()
	fail := func(f string, a ...any) {
		u.s.Fail("tui-table", "table of %q: %s\n%s", v.Name, fmt.Sprintf(f, a...), text(scr))
	}
	// the lines between the borders of the inner frame
	var lines [][]string
	x0, y0 := frame(scr)
	if x0 < 0 {
		fail("the dialog is not visible")
	}
	if len([]rune(v.Name)) < 50 && !strings.Contains(string(scr[y0]), " "+v.Name+" ") {
		fail("title %q", string(scr[y0]))
	}
	for y := y0 + 1; y < len(scr) && isV(scr[y][x0]); y++ {
		line := string(scr[y][x0+1 : x0+69])
		f := strings.Split(line, "│")
		for i := range f {
			f[i] = strings.TrimSpace(f[i])
		}
		lines = append(lines, f)
	}
	if len(lines) < 2 {
		fail("%d lines", len(lines))
	}
	head := lines[0]
	cols := len(v.Outcomes)
	np := len(head) - cols
	if np < 0 || !eqStr(head[np:], v.Outcomes) {
		fail("header %q", head)
	}
	if u.sel == n.Total {
		for j := range v.Outcomes {
			if !shown(lines[1][np+j], v.Table[j], false) {
				fail("column %d", j)
			}
		}
		return
	}
	parents := make([]int, np)
	rows = 1
	for j := range parents {
		parents[j] = n.index(head[j])
		if !contains(known, parents[j]) || contains(parents[:j], parents[j]) {
			fail("header %q", head)
		}
		rows *= n.card(parents[j])
	}
	// a policy may be independent of some parents, and does not show them then
	if v.Kind != ve.DecisionNode && np != len(v.Given) {
		fail("parents %q, want %q", head[:np], n.given(u.sel))
	}
	if fits && len(lines) < 1+rows {
		fail("%d lines, want %d", len(lines), rows+1)
	}
	u.s.Probe("tables compared")
	displayed := map[int][]string{}
	for k := 0; k < min(rows, len(lines)-1); k++ {
		f := lines[1+k]
		if len(f) != np+cols {
			fail("row %q", f)
		}
		r := 0
		for j, p := range parents {
			o := indexOf(n.Vars[p].Outcomes, f[j])
			if o < 0 {
				fail("row %q", f)
			}
			r = r*n.card(p) + o
		}
		if displayed[r] != nil {
			fail("row %q twice", f)
		}
		displayed[r] = f[np:]
	}
	x := make([]int, len(n.Vars))
	for r := 0; r < u.m.size(known); r++ {
		k := r
		for j := len(known) - 1; j >= 0; j-- {
			x[known[j]] = k % n.card(known[j])
			k /= n.card(known[j])
		}
		k = 0
		for _, p := range parents {
			k = k*n.card(p) + x[p]
		}
		if !fits && displayed[k] == nil {
			continue
		}
		var want []float64
		switch v.Kind {
		case ve.UtilityNode:
			want = v.Table[r : r+1]
		case ve.ChanceNode:
			sum := 0.0
			for _, y := range v.Table[r*cols : (r+1)*cols] {
				sum += y
			}
			for _, y := range v.Table[r*cols : (r+1)*cols] {
				want = append(want, y/sum)
			}
		case ve.DecisionNode:
			pol := u.pols[u.sel]
			if pol == nil || u.opt != nil && u.opt[u.sel].prob[r] <= 0 {
				continue
			}
			pr := 0
			for _, g := range pol.given {
				pr = pr*n.card(g) + x[g]
			}
			want = pol.table[pr*cols : (pr+1)*cols]
		}
		for j := range want {
			if !shown(displayed[k][j], want[j], v.Kind != ve.UtilityNode) {
				fail("cell %q of row %v, want %v", displayed[k][j], x, want[j])
			}
		}
	}
}

func isV(r rune) bool { return r == '│' || r == '║' }

// frame finds the inner frame of a dialog: it is 70 columns wide and lies directly inside of the outer frame.
func frame(scr [][]rune) (int, int) {
	for y, l := range scr {
		for x := 1; x+70 < len(l); x++ {
			if (l[x] == '╔' && l[x+69] == '╗' || l[x] == '┌' && l[x+69] == '┐') && isV(l[x-1]) && isV(l[x+70]) {
				return x, y
			}
		}
	}
	return -1, -1
}

func indexOf(a []string, x string) int {
	for i := range a {
		if a[i] == x {
			return i
		}
	}
	return -1
}

// expected is the network as it should be saved.
func (u *ui) expected() *NetSpec {
	c := u.n.clone()
	for i := range c.Vars {
		c.Vars[i].Pos = u.saved[i]
		c.Vars[i].Logic = ""
	}
	return c
}

func (u *ui) tol() float64 {
	if u.trained {
		return 1e-9
	}
	return 0
}

// modelled is a session in which every screen is compared with the model.
func modelled(s *simrt.Sim) {
	train := s.P(1, 6)
	u := newUI(s, train, nil)
	before := snapshot()
	u.check("start")
	events := 3 + s.W(25)
	if u.dialog == "" && s.P(1, 4) {
		// evidence for most variables
		for k := 0; k < 2*len(u.n.Vars) && u.dialog == ""; k++ {
			u.check(u.clickNode())
		}
	}
	for k := 0; k < events; k++ {
		if k < 2 && u.big && u.dialog == "" && s.P(1, 5) {
			u.check(u.resize())
			for j := 1 + s.W(4); !u.big && u.dialog == "" && j > 0; j-- {
				u.check(u.scroll())
				u.check(u.clickNode())
			}
		}
		what := u.step()
		u.check(what)
	}
	u.finish(before)
}

// finish leaves the program; files are as before except for the saved one.
func (u *ui) finish(before map[string]string) {
	if u.dialog != "" {
		u.t.key(tcell.KeyEsc, 0)
		u.alive("closing a dialog")
	}
	if u.s.P(1, 3) {
		u.t.key(tcell.KeyCtrlC, 0)
	} else {
		u.t.key(tcell.KeyEsc, 0)
	}
	if u.t.running {
		u.s.Fail("tui-exit", "the program does not end when asked to\n%s", text(u.t.screen()))
	}
	if u.t.p.code != 0 || u.t.p.panicV != nil {
		u.s.Fail("tui-exit", "the program does not end cleanly: %s", u.t.p)
	}
	after := snapshot()
	if u.saves > 0 {
		if _, ok := after[u.save]; !ok {
			// the key is compared with absolute names
			found := false
			for f := range after {
				found = found || strings.HasSuffix(f, "/"+u.save)
			}
			if !found {
				u.s.Fail("tui-save", "Ctrl+S does not create %s", u.save)
			}
		}
	}
	for f, d := range before {
		if after[f] != d && !(u.saves > 0 && isSave(f, u.save)) {
			u.s.Fail("tui-changed-files", "the session changed file %s", f)
		}
	}
	for f := range after {
		if _, ok := before[f]; !ok && !(u.saves > 0 && isSave(f, u.save)) {
			u.s.Fail("tui-changed-files", "the session created file %s", f)
		}
	}
}

func isSave(f, save string) bool { return f == save || strings.HasSuffix(f, "/"+save) }

// wild sessions: any layout, any terminal, any input; the program survives.
func wild(s *simrt.Sim) {
	o := genOpt{maxChance: 6, maxDec: 2, maxUtil: 3, names: s.W(3), maxTable: 120, partial: true, logic: s.P(1, 3)}
	if s.P(1, 12) {
		o.maxUtil = 7
		o.maxChance = 3
	}
	n := genNet(s, o.largerUI(s, 15))
	if len(n.utilities()) == 0 && len(n.Decisions) > 0 && s.P(2, 3) {
		o.maxDec = 0
		n = genNet(s, o)
	}
	place := s.W(4)
	for i := range n.Vars {
		switch place {
		case 1:
			n.Vars[i].Pos = [2]int{s.W(60), s.W(30)}
		case 2:
			n.Vars[i].Pos = [2]int{s.W(300) - 20, s.W(100) - 10}
		case 3:
			n.Vars[i].Pos = [2]int{s.W(12), s.W(8)}
		}
		if s.P(1, 5) {
			n.Vars[i].Color = []string{"red", "blue", "aqua", "olive", "black", "white"}[s.W(6)]
		}
		if s.P(1, 12) {
			n.Vars[i].Name += strings.Repeat("long", 1+s.W(20))
		}
	}
	if s.P(1, 4) {
		n.Info = strings.Repeat("some information ", 1+s.W(60))
	}
	s.Logf("%s", n.describe())
	file := "net.yml"
	simos.Cur.Put(file, n.YAML(s.W(8)))
	before := snapshot()
	ev := map[int]int{}
	args := []string{"bbni", file}
	if o.names != 1 && s.P(1, 3) {
		ev = genEvidence(s, n, n.nonUtility(), 2)
		args = append(args, evidenceArgs(s, n, ev)...)
	}
	w, h := 20+s.W(140), 8+s.W(52)
	t := startTUI(s, args, w, h, nil)
	saves := 0
	alive := func(what string) {
		if !t.running {
			s.Fail("tui-died", "after %s: %s", what, t.p)
		}
	}
	alive("start")
	events := 5 + s.W(30)
	keys := []tcell.Key{tcell.KeyTab, tcell.KeyBacktab, tcell.KeyEnter, tcell.KeyUp, tcell.KeyDown, tcell.KeyLeft, tcell.KeyRight,
		tcell.KeyHome, tcell.KeyEnd, tcell.KeyPgUp, tcell.KeyPgDn, tcell.KeyCtrlS, tcell.KeyDelete, tcell.KeyF1, tcell.KeyCtrlF, tcell.KeyCtrlB, tcell.KeyBackspace2}
	for k := 0; k < events; k++ {
		switch s.Pick(4, 4, 4, 3, 1, 1) {
		case 0:
			key := keys[s.W(len(keys))]
			t.key(key, 0)
			if key == tcell.KeyCtrlS {
				saves++
			}
		case 1:
			t.rune([]rune(" 1234567890ptihwasdwasdwasdjklgGxyz٣²ÄT")[s.W(38)])
		case 2:
			x, y := s.W(w), s.W(h)
			if s.P(1, 2) && len(n.Vars) > 0 {
				v := n.Vars[s.W(len(n.Vars))]
				x, y = v.Pos[0]+1+s.W(12), v.Pos[1]+2+s.W(len(v.Outcomes)+3)
			}
			x, y = max(0, min(x, w-1)), max(0, min(y, h-1))
			b := []tcell.ButtonMask{tcell.Button1, tcell.Button1, tcell.Button2, tcell.Button3, tcell.WheelUp, tcell.WheelDown, tcell.WheelLeft, tcell.WheelRight}[s.W(8)]
			if s.P(1, 3) {
				// drag or quick repetition
				s.Logf("mouse %v at %d,%d", b, x, y)
				t.scr.InjectMouse(x, y, b, tcell.ModNone)
				t.settle()
			} else {
				t.click(x, y, b)
			}
		case 3:
			// a fixed key many times
			r := []rune("wasd \t")[s.W(6)]
			for j := 2 + s.W(12); j > 0 && t.running; j-- {
				if r == '\t' {
					t.key(tcell.KeyTab, 0)
				} else {
					t.rune(r)
				}
			}
		case 4:
			w, h = 20+s.W(140), 8+s.W(52)
			t.resize(w, h)
		case 5:
			t.key(tcell.KeyEnter, 0)
		}
		alive("an event")
	}
	// whatever happened, Esc ends the program: it closes a dialog, then quits
	t.scr.InjectMouse(0, 0, tcell.ButtonNone, tcell.ModNone)
	t.settle()
	t.resize(100, 40) // a dialog that does not fit gets no keys
	alive("resizing")
	for k := 0; k < 3 && t.running; k++ {
		t.key(tcell.KeyEsc, 0)
	}
	if t.running {
		s.Fail("tui-stuck", "the program does not react to Esc any more\n%s", text(t.screen()))
	}
	if t.p.code != 0 || t.p.panicV != nil {
		s.Fail("tui-exit", "the program does not end cleanly: %s", t.p)
	}
	u := &ui{s: s, t: t, save: saveName(file), saves: saves}
	after := snapshot()
	for f, d := range before {
		if after[f] != d && !(u.saves > 0 && isSave(f, u.save)) {
			s.Fail("tui-changed-files", "the session changed file %s", f)
		}
	}
	for f := range after {
		if _, ok := before[f]; !ok && !(u.saves > 0 && isSave(f, u.save)) {
			s.Fail("tui-changed-files", "the session created file %s", f)
		}
	}
}

// startFault: errors before the screen is taken over are reported on the
// command line.
func startFault(s *simrt.Sim) {
	n := uiNet(s)
	layout(s, n)
	s.Logf("%s", n.describe())
	file := placeNet(s, n)
	args := []string{"bbni", file}
	if s.P(1, 2) {
		o := genCSV(s, n)
		data := n.cover(s, genData(s, n))
		simos.Cur.Put("data.csv", n.csv(s, data, o))
		args = append(args, "-t", "data.csv", "-d", string(o.delim), "-n", o.noData)
	}
	v := n.nonUtility()[0]
	before := snapshot()
	switch s.W(9) {
	case 8:
		// a color that does not exist need not be refused, but must not be fatal
		n.Vars[s.W(len(n.Vars))].Color = []string{"nocolor", "Red", "#ff0000", "0"}[s.W(4)]
		simos.Cur.Put("colors.yml", n.YAML(s.W(8)))
		args[1] = "colors.yml"
		before = snapshot()
		t := startTUI(s, args, 100, 40, nil)
		if t.running {
			t.key(tcell.KeyEsc, 0)
			if t.running || t.p.code != 0 || t.p.panicV != nil {
				s.Fail("tui-exit", "the program does not end cleanly: %s", t.p)
			}
			return
		}
		refused(s, t, before, args)
		return
	case 0:
		args = append(args, "-e", "NoSuchVariable=x")
	case 1:
		args = append(args, "-e", n.Vars[v].Name+"=NoSuchOutcome")
	case 2:
		args = append(args, "-e", n.Vars[v].Name)
	case 3:
		args[1] = "missing.yml"
	case 4:
		args = append(args, "--train", "missing.csv")
	case 5:
		args = append(args, "--delim", "")
	default:
		t := startTUI(s, args, 100, 40, nil)
		if !t.running {
			s.Fail("tui-start", "bbni does not start with a valid network: %s", t.p)
		}
		ops := simos.Cur.Ops
		t.key(tcell.KeyEsc, 0)
		pl := planFault(s, ops, true, func(o simos.Op) bool { return o.Name != "stdout" })
		if pl == nil {
			return
		}
		t = startTUI(s, args, 100, 40, pl)
		soft := t.p.kind == simos.Cut || t.p.kind == simos.Flip || t.p.kind == simos.Zero
		if t.running {
			if t.p.fired != nil && !soft {
				s.Fail("tui-start", "bbni starts although %s of %s failed (%s)", t.p.fired.Name, t.p.fired.Path, t.p.kind)
			}
			t.key(tcell.KeyEsc, 0)
			if t.running {
				t.key(tcell.KeyEsc, 0)
			}
			if t.running || t.p.code != 0 || t.p.panicV != nil {
				s.Fail("tui-exit", "the program does not end cleanly: %s", t.p)
			}
			return
		}
		refused(s, t, before, args)
		return
	}
	t := startTUI(s, args, 100, 40, nil)
	if t.running {
		s.Fail("tui-start", "bbni starts with invalid arguments %q", args)
	}
	refused(s, t, before, args)
}

func refused(s *simrt.Sim, t *session, before map[string]string, args []string) {
	if t.p.panicV != nil {
		s.Fail("tui-died", "%q: %s", args, t.p)
	}
	if t.p.code == 0 {
		s.Fail("tui-start", "%q exits with 0", args)
	}
	if !hasMessage(t.p.text) {
		s.Fail("tui-start", "%q fails without a message", args)
	}
	checkFiles(s, before, "tui-changed-files", "bbni")
}
