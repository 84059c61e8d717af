package verifsim

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/internal/verifsim/simos"
	"github.com/mlange-42/bbn/internal/verifsim/simrt"
	"github.com/mlange-42/bbn/ve"
)

func init() {
	register(&prop{id: "C07", run: runTraining})
	register(&prop{id: "C08", run: runFailedTraining})
}

// obs is one observation: outcome index per variable (-1 missing) and utility
// value per variable (NaN missing).
type obs struct {
	x []int
	u []float64
	n int // further copies of this observation
}

func (n *NetSpec) rowOf(i int, x []int) int {
	r := 0
	for _, g := range n.Vars[i].Given {
		if x[g] < 0 {
			return -1
		}
		r = r*n.card(g) + x[g]
	}
	return r
}

// learned tells whether the table of a variable is learned from data.
func (n *NetSpec) learned(i int) bool {
	return n.Vars[i].Kind != ve.DecisionNode && i != n.Total
}

// train is the reference: relative frequencies and means. It returns nil and
// the variable and row without samples if the data is not sufficient.
func (n *NetSpec) train(data []obs) (*NetSpec, int, int) {
	res := n.clone()
	for i := range n.Vars {
		if !n.learned(i) {
			continue
		}
		cols := n.card(i)
		rows := n.rows(i)
		cnt := make([]int, rows)
		sum := make([]float64, rows*cols)
		for _, o := range data {
			r := n.rowOf(i, o.x)
			if r < 0 {
				continue
			}
			if n.Vars[i].Kind == ve.UtilityNode {
				if !math.IsNaN(o.u[i]) {
					sum[r] += o.u[i] * float64(1+o.n)
					cnt[r] += 1 + o.n
				}
			} else if o.x[i] >= 0 {
				sum[r*cols+o.x[i]] += float64(1 + o.n)
				cnt[r] += 1 + o.n
			}
		}
		for r := range cnt {
			if cnt[r] == 0 {
				return nil, i, r
			}
			for c := 0; c < cols; c++ {
				sum[r*cols+c] /= float64(cnt[r])
			}
		}
		res.Vars[i].Table = sum
		res.Vars[i].Logic = ""
	}
	return res, -1, -1
}

func genObs(s *simrt.Sim, n *NetSpec, missing int) obs {
	o := obs{x: make([]int, len(n.Vars)), u: make([]float64, len(n.Vars))}
	for i, v := range n.Vars {
		o.u[i] = math.NaN()
		miss := missing > 0 && s.W(100) >= 100-missing
		if v.Kind == ve.UtilityNode {
			if !miss {
				o.u[i] = float64(s.W(401)-200) / 4
			}
			continue
		}
		o.x[i] = s.W(n.card(i))
		if miss {
			o.x[i] = -1
		}
	}
	return o
}

// cover adds observations until every row of every table has a sample.
func (n *NetSpec) cover(s *simrt.Sim, data []obs) []obs {
	for k := 0; k < 10000; k++ {
		_, i, r := n.train(data)
		if i < 0 {
			return data
		}
		o := genObs(s, n, 0)
		for j := len(n.Vars[i].Given) - 1; j >= 0; j-- {
			g := n.Vars[i].Given[j]
			o.x[g] = r % n.card(g)
			r /= n.card(g)
		}
		data = append(data, o)
	}
	panic(simrt.HarnessError{Msg: "cannot cover all rows"})
}

func genTrainNet(s *simrt.Sim, names int) *NetSpec {
	o := genOpt{maxChance: 5, maxDec: 1, maxUtil: 2, train: true, maxTable: 24, maxCard: 4, names: names}
	if s.P(1, 2) {
		o.maxDec, o.maxUtil = 0, 0
	}
	n := genNet(s, o.larger(s, 30))
	style := s.W(3)
	for i := range n.Vars {
		v := &n.Vars[i]
		if !n.learned(i) {
			continue
		}
		if style == 0 || (style == 1 && s.P(1, 2)) {
			for j := range v.Table {
				v.Table[j] = 0
			}
		}
		if style == 2 && s.P(1, 3) {
			v.Table = nil
		}
	}
	return n
}

func genData(s *simrt.Sim, n *NetSpec) []obs {
	var data []obs
	missing := []int{0, 0, 10, 40}[s.W(4)]
	k := s.W(40)
	if s.P(1, 10) {
		k += 200
	}
	for i := 0; i < k; i++ {
		data = append(data, genObs(s, n, missing))
	}
	return data
}

// enlarge makes a larger set of it: copies of observations, other magnitudes
// of utilities (without cancellation).
func enlarge(s *simrt.Sim, n *NetSpec, data []obs) {
	if len(data) == 0 {
		return
	}
	switch s.Pick(6, 1, 1) {
	case 2: // decimals
		d := math.Pow(10, float64(1+s.W(9)))
		f := float64(1+s.W(9999)) / 7000
		for _, o := range data {
			for i := range o.u {
				o.u[i] = math.Round((math.Abs(o.u[i])+1)*f*d) / d
			}
		}
		s.Probe("utilities with decimals")
	case 1:
		e := math.Pow(2, float64([]int{-30, 10, 20, 40}[s.W(4)]))
		for _, o := range data {
			for i := range o.u {
				o.u[i] = (math.Abs(o.u[i]) + 0.25) * e
			}
		}
		s.Probe("utilities of another magnitude")
	}
	most := 0
	switch {
	case s.P(1, 60):
		most = 1200
	case len(n.Vars) < 6 && s.P(1, 2000):
		most = 70000
	default:
		return
	}
	for k := 1 + s.W(2); k > 0; k-- {
		data[s.W(len(data))].n = most - 1 - s.W(most/20)
	}
	s.Probe(fmt.Sprintf("up to %d copies of a sample", most))
}

// C07: training computes relative frequencies and means.
func runTraining(s *simrt.Sim) {
	if s.P(1, 2) {
		trainCLI(s)
		return
	}
	n := genTrainNet(s, 0)
	s.Logf("%s", n.describe())
	data := n.cover(s, genData(s, n))
	enlarge(s, n, data)
	order := permutation(s, len(data))
	s.Logf("%d observations", len(data))
	net := construct(s, n, "train")
	var tr bbn.Trainer
	must(s, "train", "NewTrainer", func() { tr = bbn.NewTrainer(net) })
	utilNil := len(n.utilities()) == 0 && n.Total < 0 && s.P(1, 2)
	x := make([]int, len(n.Vars))
	u := make([]float64, len(n.Vars))
	updates := s.W(3)
	var seen []obs
	for k, i := range order {
		o := data[i]
		seen = append(seen, o)
		copy(x, o.x)
		copy(u, o.u)
		must(s, "train", fmt.Sprintf("AddSample(%v, %v)", x, u), func() {
			for c := 0; c <= o.n; c++ {
				if utilNil {
					tr.AddSample(x, nil)
				} else {
					tr.AddSample(x, u)
				}
			}
		})
		// the caller reuses its buffers
		for j := range x {
			if x[j] != o.x[j] || (u[j] != o.u[j] && !math.IsNaN(u[j])) {
				s.Fail("train-input", "AddSample changed its arguments")
			}
			x[j], u[j] = 0, 12345
		}
		if updates > 0 && s.W(len(order)) == k {
			updates--
			checkUpdate(s, n, net, &tr, seen)
		}
	}
	trained := checkUpdate(s, n, net, &tr, seen)
	// the trained network is solvable
	m := newRef(trained)
	ev := genEvidence(s, n, n.nonUtility(), 2)
	for _, d := range n.Decisions {
		if _, ok := ev[d]; !ok {
			ev[d] = s.W(n.card(d))
		}
	}
	checkQuery(s, trained, m, net, nil, ev, pickQuery(s, trained, ev, 2, 300), false, "train-query")
}

// checkUpdate applies the training and compares the network.
func checkUpdate(s *simrt.Sim, n *NetSpec, net *bbn.Network, tr *bbn.Trainer, seen []obs) *NetSpec {
	want, vi, row := n.train(seen)
	var got *bbn.Network
	var err error
	must(s, "train", "UpdateNetwork", func() { got, err = tr.UpdateNetwork() })
	s.Logf("UpdateNetwork after %d observations -> %v", len(seen), err)
	if want == nil {
		if err == nil {
			s.Fail("train", "UpdateNetwork succeeds although there is no sample for %q, row %d", n.Vars[vi].Name, row)
		}
		return nil
	}
	if err != nil {
		s.Fail("train", "UpdateNetwork failed: %v", err)
	}
	if got != net {
		s.Fail("train", "UpdateNetwork does not return the original network")
	}
	if msg := checkNet(net, want, 1e-9); msg != "" {
		s.Fail("train-result", "after training with %d observations: %s", len(seen), msg)
	}
	return want
}

// --- CSV files ---

type csvOpt struct {
	delim   rune
	noData  string
	cols    []int // variable per column, negative: extra column
	crlf    bool
	noEOL   bool
	quote   int // 0 where needed, 1 always
	missing bool
	extra   []string // titles of extra columns
}

func csvField(o *csvOpt, f string, single bool) string {
	if o.quote == 1 || f == "" && single || strings.ContainsAny(f, "\"\r\n"+string(o.delim)) || strings.HasPrefix(f, " ") {
		return `"` + strings.ReplaceAll(f, `"`, `""`) + `"`
	}
	return f
}

func (n *NetSpec) csv(s *simrt.Sim, data []obs, o *csvOpt) []byte {
	var sb strings.Builder
	eol := "\n"
	if o.crlf {
		eol = "\r\n"
	}
	line := func(f []string) {
		for i := range f {
			f[i] = csvField(o, f[i], len(f) == 1)
		}
		sb.WriteString(strings.Join(f, string(o.delim)))
		sb.WriteString(eol)
	}
	f := make([]string, len(o.cols))
	for i, v := range o.cols {
		if v < 0 {
			f[i] = o.extra[-1-v]
		} else {
			f[i] = n.Vars[v].Name
		}
	}
	line(f)
	for _, d := range data {
		for i, v := range o.cols {
			switch {
			case v < 0:
				f[i] = []string{"ignored", "", "1", "yes", o.noData}[(-1-v+len(d.x))%5]
			case v == n.Total && math.IsNaN(d.u[v]):
				f[i] = "0"
			case n.Vars[v].Kind == ve.UtilityNode:
				f[i] = o.noData
				if !math.IsNaN(d.u[v]) {
					f[i] = strconv.FormatFloat(d.u[v], 'g', -1, 64)
				}
			default:
				f[i] = o.noData
				if d.x[v] >= 0 {
					f[i] = n.Vars[v].Outcomes[d.x[v]]
				}
			}
		}
		start := sb.Len()
		line(f)
		if d.n > 0 {
			sb.WriteString(strings.Repeat(sb.String()[start:], d.n))
		}
	}
	res := sb.String()
	if o.noEOL {
		res = strings.TrimSuffix(res, eol)
	}
	return []byte(res)
}

func genCSV(s *simrt.Sim, n *NetSpec) *csvOpt {
	o := &csvOpt{delim: []rune{',', ';', '\t', '|', ' ', '§', ':'}[s.Pick(4, 4, 4, 4, 2, 1, 1)], crlf: s.P(1, 4), noEOL: s.P(1, 4), quote: s.W(2)}
	for i := range n.Vars {
		o.cols = append(o.cols, i)
	}
	for k := s.W(3); k > 0; k-- {
		v := n.Vars[s.W(len(n.Vars))].Name
		title := []string{"extra", strings.ToLower(v), strings.ToUpper(v), v + " ", " " + v, v + "2", ""}[s.Pick(6, 1, 1, 1, 1, 1, 1)]
		if n.index(title) >= 0 {
			title = "extra column"
		}
		if s.P(1, 2) {
			o.cols = append(o.cols, -1-len(o.extra))
		} else {
			o.cols = append([]int{-1 - len(o.extra)}, o.cols...)
		}
		o.extra = append(o.extra, title)
	}
	if s.P(2, 3) {
		shuffle(s, o.cols)
	}
	taken := map[string]bool{}
	for _, v := range n.Vars {
		for _, x := range v.Outcomes {
			taken[x] = true
		}
	}
	for _, x := range []string{"", "NA", "-999", "?", "no data"}[s.W(3):] {
		if !taken[x] {
			o.noData = x
			break
		}
	}
	return o
}

func trainArgs(s *simrt.Sim, file, csv string, o *csvOpt) []string {
	args := []string{"bbn", "train", file, csv}
	if o.delim != ',' || s.P(1, 4) {
		args = append(args, []string{"-d", "--delim"}[s.W(2)], string(o.delim))
	}
	if o.noData != "" || s.P(1, 4) {
		args = append(args, "--no-data="+o.noData)
	}
	return args
}

// trainFiles prepares a network file and a data file.
func trainFiles(s *simrt.Sim, complete bool) (n *NetSpec, data []obs, o *csvOpt, file string, args []string) {
	n = genTrainNet(s, s.W(2))
	decorate(s, n)
	s.Logf("%s", n.describe())
	data = genData(s, n)
	if complete {
		data = n.cover(s, data)
		enlarge(s, n, data)
	}
	o = genCSV(s, n)
	file = placeNet(s, n)
	simos.Cur.Put("data.csv", n.csv(s, data, o))
	args = trainArgs(s, file, "data.csv", o)
	return
}

// decorate adds the things that do not matter for inference.
func decorate(s *simrt.Sim, n *NetSpec) {
	if s.P(1, 2) {
		n.Info = []string{"some text", "two\nlines\n", "tab\tand: colon", "#no comment", "  indented\nnot\n\n", "ünï"}[s.W(6)]
	}
	if s.P(1, 2) {
		n.Name = trickyNames[s.W(len(trickyNames))]
	}
	for i := range n.Vars {
		if s.P(1, 2) {
			n.Vars[i].Pos = [2]int{s.W(120), s.W(60)}
		}
		if s.P(1, 4) {
			n.Vars[i].Color = []string{"red", "blue", "aqua", "olive"}[s.W(4)]
		}
	}
}

func trainCLI(s *simrt.Sim) {
	n, data, o, _, args := trainFiles(s, true)
	want, _, _ := n.train(data)
	if want == nil {
		panic(simrt.HarnessError{Msg: "incomplete data"})
	}
	before := snapshot()
	s.Logf("%d observations, %d columns", len(data), len(o.cols))
	p := runProc(s, args, nil, s.P(1, 2))
	noPanic(s, p, "train-panic")
	if p.code != 0 {
		s.Fail("train-rejected", "valid training failed: %q\n%s", args, p)
	}
	checkFiles(s, before, "train-changed-files", "bbn train")
	if msg := checkYAML([]byte(p.out), want, 1e-9); msg != "" {
		s.Fail("train-output", "%q: %s\n%s", args, msg, p.out)
	}
}

// C08: training that fails changes nothing and says so.
func runFailedTraining(s *simrt.Sim) {
	if s.P(1, 2) {
		failTrainCLI(s)
		return
	}
	n := genTrainNet(s, 0)
	s.Logf("%s", n.describe())
	net := construct(s, n, "train")
	want := n.clone()
	all := genData(s, n)
	var tr bbn.Trainer
	must(s, "train", "NewTrainer", func() { tr = bbn.NewTrainer(net) })
	var seen []obs
	pos := 0
	for round := 0; round < 3; round++ {
		k := s.W(len(all) + 1)
		if round == 2 {
			all = n.cover(s, all)
			k = len(all)
		}
		for ; pos < k; pos++ {
			o := all[pos]
			seen = append(seen, o)
			must(s, "train", "AddSample", func() { tr.AddSample(o.x, o.u) })
		}
		next, vi, row := n.train(seen)
		var err error
		must(s, "train-panic", "UpdateNetwork", func() { _, err = tr.UpdateNetwork() })
		s.Logf("UpdateNetwork after %d observations -> %v", len(seen), err)
		if next == nil {
			s.Probe("insufficient data")
			if err == nil {
				s.Fail("train-accepted", "UpdateNetwork succeeds although there is no sample for %q, row %d", n.Vars[vi].Name, row)
			}
		} else {
			if err != nil {
				s.Fail("train-rejected", "UpdateNetwork fails with sufficient data: %v", err)
			}
			want = next
		}
		if msg := checkNet(net, want, 1e-9); msg != "" {
			s.Fail("train-partial", "after UpdateNetwork -> %v: %s", err, msg)
		}
	}
}

// unknownValue is no outcome of a variable, or no utility.
func unknownValue(s *simrt.Sim, v *VarSpec, o *csvOpt) string {
	x := v.Outcomes[s.W(len(v.Outcomes))]
	if v.Kind == ve.UtilityNode {
		return []string{"unknown", "", "1.5.2", "12a", "--1", x + "?", "1 ", "e5", "0x", "1e999", "-1e999", "1,5"}[s.W(12)]
	}
	bad := []string{"unknown", "", strings.ToUpper(x), strings.ToLower(x), x + " ", x + "x", strings.TrimSuffix(x, x[len(x)-min(1, len(x)):]), "NA", "?", "0", "-1", "1"}[s.W(12)]
	if indexOf(v.Outcomes, bad) >= 0 || !utf8.ValidString(bad) {
		return "unknown"
	}
	return bad
}

func failTrainCLI(s *simrt.Sim) {
	n, data, o, file, args := trainFiles(s, s.P(3, 4))
	full, _, _ := n.train(data)
	csv, _ := simos.Cur.Get("data.csv")
	lines := strings.SplitAfter(string(csv), "\n")
	if lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	must := full == nil // must the command fail?
	what := "insufficient data"
	var pl *plan
	safe := o.quote == 0 // records are lines, fields are plain
	for _, v := range n.Vars {
		if csvField(o, v.Name, false) != v.Name {
			safe = false
		}
		for _, x := range v.Outcomes {
			if csvField(o, x, false) != x {
				safe = false
			}
		}
	}
	put := func(text string) { simos.Cur.Put("data.csv", []byte(text)) }
	pick := func() int { return 1 + s.W(len(lines)-1) }
	sep := string(o.delim)
	kind := s.W(10)
	if len(data) == 0 && kind >= 3 && kind <= 6 {
		kind = 7
	}
	switch {
	case kind == 1:
		what, must = "empty file", true
		put("")
	case kind == 2:
		what, must = "missing column", true
		c := *o
		drop := s.W(len(n.Vars))
		c.cols = nil
		for _, v := range o.cols {
			if v == drop {
				continue
			}
			c.cols = append(c.cols, v)
		}
		if drop == n.Total || len(c.cols) == 0 {
			return
		}
		put(string(n.csv(s, data, &c)))
	case kind == 3 && safe:
		what, must = "record with an additional field", true
		i := pick()
		lines[i] = "x" + sep + lines[i]
		put(strings.Join(lines, ""))
	case kind == 4 && safe && len(o.cols) > 1:
		what, must = "record with a missing field", true
		i := pick()
		lines[i] = lines[i][strings.Index(lines[i], sep)+1:]
		if strings.TrimSpace(lines[i]) == "" {
			return // a blank line is no record
		}
		put(strings.Join(lines, ""))
	case kind == 5 && safe:
		v := s.W(len(n.Vars))
		if v == n.Total {
			return
		}
		bad := unknownValue(s, &n.Vars[v], o)
		if bad == o.noData || csvField(o, bad, len(o.cols) == 1) != bad {
			return
		}
		what, must = fmt.Sprintf("unknown value %q for %q", bad, n.Vars[v].Name), true
		col := 0
		for c, x := range o.cols {
			if x == v {
				col = c
			}
		}
		i := pick()
		eol := lines[i][len(strings.TrimRight(lines[i], "\r\n")):]
		f := strings.Split(strings.TrimRight(lines[i], "\r\n"), sep)
		f[col] = bad
		lines[i] = strings.Join(f, sep) + eol
		put(strings.Join(lines, ""))
	case kind == 6 && safe:
		what, must = "stray quote", true
		i := pick()
		if strings.Contains(lines[i], sep) {
			lines[i] = strings.Replace(lines[i], sep, `a"b`+sep, 1)
		} else {
			lines[i] = `a"b` + lines[i]
		}
		put(strings.Join(lines, ""))
	case kind >= 7:
		p := runProc(s, args, nil, false)
		noPanic(s, p, "train-panic")
		pl = planFault(s, p.ops, false, nil)
		what = "I/O fault"
	}
	before := snapshot()
	s.Logf("%s (%d observations)", what, len(data))
	p := runProc(s, args, pl, pl == nil && s.P(1, 2))
	noPanic(s, p, "train-panic")
	if p.fired != nil {
		what = fmt.Sprintf("%s at %s of %s", p.kind, p.fired.Name, p.fired.Path)
		if p.fired.Name != "close" {
			must = true
		}
	}
	checkFiles(s, before, "train-changed-files", "bbn train")
	if !must {
		return
	}
	s.Probe("failing training")
	if p.code == 0 {
		s.Fail("train-accepted", "%q exits with 0 (%s)", args, what)
	}
	if p.fired != nil && p.fired.Name == "stdout" {
		return
	}
	if !hasMessage(p.text) {
		s.Fail("train-no-message", "%q fails without an error message (%s)", args, what)
	}
	if strings.Contains(p.out, "variables:") {
		s.Fail("train-printed", "%q fails (%s), but prints a network:\n%s", args, what, p.out)
	}
	_ = file
}
