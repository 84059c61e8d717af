package verifsim

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/mlange-42/bbn/internal/verifsim/simrt"
	"github.com/mlange-42/bbn/ve"
)

// genOpt bounds the generated networks.
type genOpt struct {
	maxChance int
	minDec    int
	maxDec    int
	minUtil   int
	maxUtil   int
	noTotal   bool
	names     int  // 0 plain, 1 any text allowed by the file formats, 2 single tokens (command line, CSV)
	logic     bool // logic nodes (only meaningful for YAML)
	wide      bool // occasionally many variables or outcomes
	maxTable  int
	train     bool // suitable for training: cards small
	flat      bool // values that make ties likely
	big       bool // positions apart, for the TUI
	maxCard   int
	zeroOK    bool // zero-probability rows for some parent states are fine (never all-zero rows)
	noLimit   bool
	wideCards bool // more than a handful of outcomes
	free      bool // decisions without an order
	longNames bool // names that are wider than their columns
	partial   bool // decisions need not list everything that is known
}

var trickyNames = []string{
	"yes", "no", "true", "null", "~", "1", "0x1F", "1e3", "2024-01-01", "on", "Off", ".5", "-", "",
	"a b", "ä", "日本", "it's", "x: y", "#c", "[a]", "{b}", "*p", "&q", "!r", "%s", "@t", "`u`", "|v", ">w", "say \"hi\"", "back\\slash", "a, b", "- item", "é\u0301", "=", "<<", ".inf", ".nan", "007", "1_000", "yes ", " pad", " ",
}

func (o *genOpt) name(s *simrt.Sim, i int, used map[string]bool) string {
	base := string(rune('A'+i%26)) + map[bool]string{true: "", false: strconv.Itoa(i / 26)}[i < 26]
	res := base
	if i%2 == 1 && i < 26 && s.P(1, 8) {
		res = strings.ToLower(string(rune('A' + i - 1))) // only the case differs from that of the one before
	}
	switch o.names {
	case 1:
		if s.P(1, 2) {
			res = trickyNames[s.W(len(trickyNames))]
			if s.P(1, 3) {
				res += base
			}
		}
	case 2:
		if s.P(1, 3) {
			res = []string{"Rain-", "ä_", "x:", "Node.", "#", "\"q", "[red]", "[low]", "[::b]"}[s.W(9)] + base
			if strings.HasPrefix(res, "\"") || strings.HasPrefix(res, "#") {
				res = "N" + base
			}
		}
		if s.P(1, 12) {
			// a long name
			k := 20 + s.W(12)
			if o.longNames {
				k += s.W(40)
			}
			res = strings.Repeat("long", 20)[:k] + base
		}
	}
	if used[res] || (o.names == 1 && res == "") {
		res = base
	}
	for used[res] {
		res += "'"
	}
	used[res] = true
	return res
}

func (o *genOpt) outcomes(s *simrt.Sim, i, n int) []string {
	used := map[string]bool{}
	res := make([]string, n)
	style := 0
	if o.names > 0 {
		style = s.W(5)
	} else {
		style = s.Pick(3, 3, 0, 0, 1)
	}
	if o.names == 2 && n <= 20 && s.P(1, 8) {
		style = 5
	}
	for k := range res {
		var x string
		switch style {
		case 0:
			x = fmt.Sprintf("%c%d", 'a'+i%26, k)
		case 1:
			x = []string{"yes", "no", "maybe", "low", "mid", "high"}[k%6]
			if k >= 6 {
				x += strconv.Itoa(k)
			}
			if i%3 == 2 {
				x = strings.ToUpper(x[:1]) + x[1:]
			}
		case 4: // only the case differs
			x = string("aA"[k%2]) + string(rune('a'+k/2%26))
			if k >= 52 {
				x += strconv.Itoa(k)
			}
		case 5: // long
			l := 9 + s.W(5)
			if o.longNames {
				l += s.W(20)
			}
			x = strings.Repeat("outcome", 5)[:l] + strconv.Itoa(k)
		case 2:
			x = strconv.Itoa(n - k)
		case 3:
			if o.names == 1 {
				x = trickyNames[s.W(len(trickyNames))]
			} else {
				x = fmt.Sprintf("é%d", k)
				if i%2 == 0 {
					x = []string{"[red]", "[low]", "[blue", "[-]", "x[]", "[r:b:u]", "[a[b]", "[[::]"}[k%8] + strconv.Itoa(k)
				}
			}
		}
		for used[x] || (x == "" && o.names != 1) {
			x += strconv.Itoa(k)
		}
		used[x] = true
		res[k] = x
	}
	return res
}

// val draws a table value according to a style.
func val(s *simrt.Sim, style int) float64 {
	switch style {
	case 0: // small integers
		return float64(1 + s.W(9))
	case 1: // arbitrary probabilities
		return float64(1+s.W(9999)) / 10000
	case 2: // tenths
		return float64(1+s.W(10)) / 10
	case 3: // many zeros
		if s.P(1, 2) {
			return 0
		}
		return float64(1+s.W(99)) / 100
	case 4: // several magnitudes
		return float64(1+s.W(99)) * math.Pow(10, float64(s.W(9)-6))
	case 5: // equal
		return 1
	}
	return 1
}

func (o *genOpt) cpt(s *simrt.Sim, rows, cols int) []float64 {
	style := s.Pick(3, 3, 2, 2, 1, 1, 2)
	if o.flat {
		style = []int{5, 2, 3, 0}[s.W(4)]
	}
	t := make([]float64, rows*cols)
	// normalised or weights?
	norm := s.P(1, 2)
	scaled := !norm && s.P(1, 10)
	rounded := norm && s.P(1, 4)
	for r := 0; r < rows; r++ {
		row := t[r*cols : (r+1)*cols]
		sum := 0.0
		for c := range row {
			if style == 6 {
				row[c] = 0
			} else {
				row[c] = val(s, style)
			}
			sum += row[c]
		}
		if sum == 0 {
			row[s.W(cols)] = 1
			sum = 1
		}
		if norm {
			for c := range row {
				row[c] /= sum
				if rounded && row[c] > 0 {
					row[c] = max(math.Round(row[c]*1000)/1000, 0.001)
				}
			}
		} else if scaled {
			// only the ratio of weights matters
			f := math.Pow10(s.W(61) - 30)
			for c := range row {
				row[c] *= f
			}
		}
	}
	return t
}

func (o *genOpt) utable(s *simrt.Sim, rows int) []float64 {
	style := s.Pick(3, 3, 1, 1)
	if o.flat {
		style = s.Pick(1, 2, 4)
		if style == 2 {
			style = 3
		}
	}
	t := make([]float64, rows)
	for i := range t {
		switch style {
		case 0:
			t[i] = float64(s.W(21) - 10)
		case 1:
			t[i] = float64(s.W(20001)-10000) / 10
		case 2:
			t[i] = float64(s.W(20001)) * math.Pow(10, float64(s.W(7)-3))
		case 3:
			t[i] = float64(s.W(3)) / 10
		}
	}
	return t
}

// larger occasionally lifts the bounds.
func (o genOpt) larger(s *simrt.Sim, one int) genOpt {
	if !s.P(1, one) {
		return o
	}
	switch s.W(3) {
	case 0:
		o.maxCard = 14
		o.maxTable *= 4
	case 1:
		o.maxChance += 5
	case 2:
		o.wide = true
		o.maxCard = 0
		o.maxTable *= 4
	}
	return o
}

// largerUI is larger without the extremes: everything is computed after each event.
func (o genOpt) largerUI(s *simrt.Sim, one int) genOpt {
	o = o.larger(s, one)
	o.wide = false
	o.maxTable = min(o.maxTable, 200)
	o.maxChance = min(o.maxChance, 8)
	return o
}

// genNet draws a network.
func genNet(s *simrt.Sim, o genOpt) *NetSpec {
	if o.maxTable == 0 {
		o.maxTable = 400
	}
	n := &NetSpec{Name: "net", Total: -1}
	cardMode := s.Pick(3, 3, 3, 1)
	if o.wideCards {
		cardMode = 3
	}
	if o.train {
		cardMode = s.Pick(3, 2)
	}
	long, veryLong, bushy := false, false, false
	if o.wide && s.P(1, 12) {
		cardMode = 4
	} else if o.wide && s.P(1, 10) {
		long = true
	} else if o.wide && s.P(1, 30) {
		// nodes with many parents
		bushy = true
		cardMode = 0
		o.maxTable = 1100
		o.maxChance = max(o.maxChance, 11)
	}
	huge := 2 // at most as many variables with hundreds of outcomes; the sum over utilities spans all of them
	if o.maxUtil > 0 {
		huge = 1
	}
	prod := 1
	card := func() int {
		c := 2
		switch cardMode {
		case 1:
			c = 1 + (s.W(3)+1)%3
		case 2:
			c = 2 + s.W(4)
		case 3:
			if s.P(1, 3) {
				c = 6 + s.W(9)
			}
		case 4:
			if huge > 0 && s.P(1, 5) {
				huge--
				c = 250 + s.W(60)
			}
		}
		if o.maxCard > 0 && c > o.maxCard {
			c = o.maxCard
		}
		if o.maxUtil > 0 && c > 2 && prod*c > 10000 {
			c = 2
		}
		prod *= c
		return c
	}
	nc := 1 + s.W(o.maxChance)
	if bushy {
		nc = o.maxChance - s.W(3)
	}
	if long {
		nc = 15 + s.W(26)
		if s.P(1, 6) {
			// a tree, so that no elimination order gets expensive
			nc = 60 + s.W(80)
			veryLong = true
			if s.P(1, 4) {
				nc = 250 + s.W(60)
			}
		}
		cardMode = 0
	}
	nd := o.minDec
	if o.maxDec > o.minDec {
		nd += s.W(o.maxDec - o.minDec + 1)
	}
	nu := o.minUtil
	if o.maxUtil > o.minUtil {
		nu += s.W(o.maxUtil - o.minUtil + 1)
	}
	if long {
		nu = min(nu, 4)
	}
	if veryLong {
		nu = min(nu, 2)
	}
	// sequence of chance and decision nodes in topological order
	kinds := make([]ve.NodeType, nc+nd)
	for i := 0; i < nd; i++ {
		p := s.W(len(kinds))
		for kinds[p] == ve.DecisionNode {
			p = (p + 1) % len(kinds)
		}
		kinds[p] = ve.DecisionNode
	}
	maxPar := 1 + s.W(4)
	if bushy {
		maxPar = 14
	}
	var prevDec []int // information of the previous decision, including it
	for i, k := range kinds {
		v := VarSpec{Kind: k}
		cd := card()
		if k == ve.DecisionNode && cd < 2 && !s.P(1, 6) {
			cd = 2
		}
		v.Outcomes = make([]string, cd)
		size := cd
		tryAdd := func(p int) {
			if contains(v.Given, p) || size*len(n.Vars[p].Outcomes) > o.maxTable {
				return
			}
			v.Given = append(v.Given, p)
			size *= len(n.Vars[p].Outcomes)
		}
		if k == ve.DecisionNode {
			v.Given = append(v.Given, prevDec...)
			for _, p := range v.Given {
				size *= len(n.Vars[p].Outcomes)
			}
		}
		if i > 0 {
			np := s.W(maxPar + 1)
			if bushy && i < len(kinds)-1 {
				np = s.W(4)
			}
			for j := 0; j < np; j++ {
				lo := 0
				if long && i > 3 {
					lo = i - 3
				}
				if veryLong {
					lo = max(0, i-2)
					if len(v.Given) > 0 {
						break
					}
				}
				tryAdd(lo + s.W(i-lo))
			}
		}
		if k == ve.DecisionNode && len(v.Given) > 1 && s.P(1, 2) {
			shuffle(s, v.Given)
		}
		n.Vars = append(n.Vars, v)
		if k == ve.DecisionNode {
			prevDec = append(append([]int{}, v.Given...), i)
			n.Decisions = append(n.Decisions, i)
			if len(v.Given) == 0 {
				n.Vars[i].NoFactor = s.P(1, 2)
			}
		} else {
			if o.logic && !veryLong && (!long || i < 15) && s.P(1, 3) {
				genLogic(s, n, i)
			}
			if n.Vars[i].Table == nil {
				n.Vars[i].Table = o.cpt(s, size/cd, cd)
			}
		}
	}
	// utilities
	base := len(n.Vars)
	var us []int
	for i := 0; i < nu; i++ {
		v := VarSpec{Kind: ve.UtilityNode, Outcomes: make([]string, 1)}
		size := 1
		np := 1 + s.W(3)
		for j := 0; j < np; j++ {
			p := s.W(base)
			// prefer decisions a bit: they should matter
			if len(n.Decisions) > 0 && s.P(1, 2) {
				p = n.Decisions[s.W(len(n.Decisions))]
			}
			if contains(v.Given, p) || size*len(n.Vars[p].Outcomes) > o.maxTable {
				continue
			}
			v.Given = append(v.Given, p)
			size *= len(n.Vars[p].Outcomes)
		}
		if len(v.Given) == 0 {
			continue
		}
		v.Table = o.utable(s, size)
		us = append(us, len(n.Vars))
		n.Vars = append(n.Vars, v)
	}
	if len(us) > 0 && !o.noTotal && s.P(1, 3) {
		v := VarSpec{Kind: ve.UtilityNode, Given: append([]int{}, us...), Outcomes: make([]string, len(us))}
		shuffle(s, v.Given)
		for range us {
			w := []float64{1, 0.5, 2, 0, -1, 0.25, 3.7}[s.W(7)]
			v.Table = append(v.Table, w)
		}
		n.Total = len(n.Vars)
		n.Vars = append(n.Vars, v)
	}
	if o.free && len(n.Decisions) == 2 && s.P(1, 2) {
		apart(s, n)
	}
	if o.partial && !n.Free && len(n.Decisions) > 1 && s.P(1, 2) {
		forget(s, n)
	}
	// listing order
	if s.P(2, 3) {
		n = permute(n, permutation(s, len(n.Vars)))
	}
	used := map[string]bool{}
	for i := range n.Vars {
		n.Vars[i].Name = o.name(s, i, used)
		if n.Vars[i].Kind == ve.UtilityNode && i != n.Total {
			n.Vars[i].Outcomes = []string{"util"}
		} else {
			n.Vars[i].Outcomes = o.outcomes(s, i, len(n.Vars[i].Outcomes))
		}
	}
	return n
}

func shuffle(s *simrt.Sim, a []int) {
	for i := len(a) - 1; i > 0; i-- {
		j := i - s.W(i+1)
		a[i], a[j] = a[j], a[i]
	}
}

func permutation(s *simrt.Sim, n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	shuffle(s, p)
	return p
}

// permute lists variable p[i] at position i.
func permute(n *NetSpec, p []int) *NetSpec {
	inv := make([]int, len(p))
	for i, x := range p {
		inv[x] = i
	}
	m := &NetSpec{Name: n.Name, Info: n.Info, Total: -1, Free: n.Free}
	if n.Total >= 0 {
		m.Total = inv[n.Total]
	}
	for _, x := range p {
		v := n.Vars[x]
		g := make([]int, len(v.Given))
		for j := range g {
			g[j] = inv[v.Given[j]]
		}
		v.Given = g
		if v.Known != nil {
			k := make([]int, len(v.Known))
			for j := range k {
				k[j] = inv[v.Known[j]]
			}
			v.Known = k
		}
		m.Vars = append(m.Vars, v)
	}
	for _, d := range n.Decisions {
		m.Decisions = append(m.Decisions, inv[d])
	}
	return m
}

// genEvidence draws evidence over the given candidates.
func genEvidence(s *simrt.Sim, n *NetSpec, cand []int, max int) map[int]int {
	ev := map[int]int{}
	if len(cand) == 0 {
		return ev
	}
	k := s.W(max + 1)
	for i := 0; i < k; i++ {
		v := cand[s.W(len(cand))]
		if _, ok := ev[v]; !ok {
			ev[v] = s.W(n.card(v))
		}
	}
	return ev
}

func (n *NetSpec) evNames(ev map[int]int) map[string]string {
	res := map[string]string{}
	for v, x := range ev {
		res[n.Vars[v].Name] = n.Vars[v].Outcomes[x]
	}
	return res
}

// forget drops parents of decisions where that does not change what the best
// choices are: earlier decisions, and observations of earlier decisions that do
// not matter any more. The order of decisions still follows from the network.
func forget(s *simrt.Sim, n *NetSpec) {
	for k := len(n.Decisions) - 1; k > 0; k-- {
		d := n.Decisions[k]
		v := &n.Vars[d]
		full := append([]int{}, v.Given...)
		var us []int
		for i := range n.Vars {
			if n.Vars[i].Kind == ve.UtilityNode && i != n.Total && n.descends(i, d) {
				us = append(us, i)
			}
		}
		for _, g := range permutation(s, len(full)) {
			g = full[g]
			if !s.P(1, 2) {
				continue
			}
			was := v.Given
			v.Given = nil
			for _, x := range was {
				if x != g {
					v.Given = append(v.Given, x)
				}
			}
			cond := append([]int{d}, v.Given...)
			var lost []int
			for _, x := range full {
				if contains(cond, x) {
					continue
				}
				if n.Vars[x].Kind == ve.DecisionNode {
					cond = append(cond, x)
				} else {
					lost = append(lost, x)
				}
			}
			if !n.descends(d, n.Decisions[k-1]) || n.dependent(lost, us, cond) {
				v.Given = was
			}
		}
		if len(v.Given) < len(full) {
			v.Known = full
			s.Probe("forgotten information")
			v.NoFactor = len(v.Given) == 0 && s.P(1, 2)
		}
	}
}

// apart makes two decisions that know the same and do not know of each other,
// if that is possible.
func apart(s *simrt.Sim, n *NetSpec) {
	a, b := n.Decisions[0], n.Decisions[1]
	v := &n.Vars[b]
	for _, p := range v.Given {
		if p != a && (!contains(n.Vars[a].Given, p) || n.descends(p, a)) {
			return
		}
	}
	v.Known = v.Given
	v.Given = append([]int{}, n.Vars[a].Given...)
	shuffle(s, v.Given)
	v.NoFactor = len(v.Given) == 0 && s.P(1, 2)
	n.Free = true
	s.Probe("decisions without an order")
}

// descends tells whether there is a directed path to i from j.
func (n *NetSpec) descends(i, j int) bool {
	for _, p := range n.Vars[i].Given {
		if p == j || n.descends(p, j) {
			return true
		}
	}
	return false
}

// dependent tells whether a and b are connected given cond (d-separation).
func (n *NetSpec) dependent(a, b, cond []int) bool {
	in := make([]bool, len(n.Vars))
	var mark func(i int)
	mark = func(i int) {
		if in[i] {
			return
		}
		in[i] = true
		for _, p := range n.Vars[i].Given {
			mark(p)
		}
	}
	for _, l := range [][]int{a, b, cond} {
		for _, i := range l {
			mark(i)
		}
	}
	// moral graph of the ancestors
	adj := make([]map[int]bool, len(n.Vars))
	for i := range adj {
		adj[i] = map[int]bool{}
	}
	for i, v := range n.Vars {
		if !in[i] {
			continue
		}
		fam := append([]int{i}, v.Given...)
		for _, x := range fam {
			for _, y := range fam {
				adj[x][y] = true
			}
		}
	}
	seen := make([]bool, len(n.Vars))
	var reach func(i int) bool
	reach = func(i int) bool {
		if seen[i] || contains(cond, i) {
			return false
		}
		seen[i] = true
		if contains(b, i) {
			return true
		}
		for j := range adj {
			if adj[i][j] && reach(j) {
				return true
			}
		}
		return false
	}
	for _, i := range a {
		if reach(i) {
			return true
		}
	}
	return false
}
