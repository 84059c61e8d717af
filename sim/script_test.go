package verifsim

import (
	"fmt"
	"math"
	"sort"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/internal/verifsim/simrt"
	"github.com/mlange-42/bbn/ve"
)

func sortedNames[T any](m map[string]T) []string {
	var res []string
	for k := range m {
		res = append(res, k)
	}
	sort.Strings(res)
	return res
}

// step is one call of a user of a network.
type step struct {
	op     int // 0 query, 1 utility, 2 policies, 3 export, 4 evidence, 5 several errors, 6 training
	ev     map[int]int
	q      []int
	u      string
	ignore bool
	step   bool
	bad    map[string]string
	data   []obs
}

// genScript draws a sequence of calls for a network.
func genScript(s *simrt.Sim, n *NetSpec) []step {
	var script []step
	k := 1 + s.W(4)
	for i := 0; i < k; i++ {
		st := step{op: s.Pick(6, 6, 6, 2, 2, 1, 2), ignore: s.P(1, 3), step: s.P(1, 2)}
		if len(n.utilities()) == 0 && st.op <= 2 {
			st.op = 0
		}
		if i == 0 && len(n.Decisions) > 0 {
			st.op = 2
		}
		st.ev = genEvidence(s, n, n.nonUtility(), 4)
		if st.op == 5 {
			// more than one thing is wrong: the same one is reported each time
			st.bad = n.evNames(st.ev)
			for k := 1 + s.W(4); k > 0; k-- {
				if s.P(1, 2) {
					st.bad[fmt.Sprintf("no such variable %d", k)] = "x"
				} else {
					st.bad[n.Vars[s.W(len(n.Vars))].Name] = fmt.Sprintf("no such outcome %d", k)
				}
			}
		}
		if st.op == 6 {
			st.data = genData(s, n)
			if s.P(1, 2) {
				st.data = n.cover(s, st.data)
			}
			if len(st.data) > 80 {
				st.data = st.data[:80]
			}
		}
		st.q = pickQuery(s, n, st.ev, 2, 200)
		us := n.utilities()
		if len(us) > 0 && s.P(1, 2) {
			st.u = n.Vars[us[s.W(len(us))]].Name
		}
		script = append(script, st)
	}
	return append(script, step{op: 3})
}

// transcript is everything a user saw: texts compared exactly, numbers up to
// rounding.
type transcript struct {
	text []string
	vals [][]float64
	late []func() string
	slot []int
}

// later adds a text that is read from a result when all calls are done: results
// do not change any more.
func (t *transcript) later(f func() string) {
	t.late = append(t.late, f)
	t.slot = append(t.slot, len(t.text))
	t.text = append(t.text, "")
}

func (t *transcript) play(n *NetSpec, net *bbn.Network, script []step) {
	defer func() {
		for i, f := range t.late {
			t.text[t.slot[i]] = f()
		}
		t.late, t.slot = nil, nil
	}()
	for _, st := range script {
		names := make([]string, len(st.q))
		for i, q := range st.q {
			names[i] = n.Vars[q].Name
		}
		switch st.op {
		case 0:
			marg, f, err := net.SolveQuery(n.evNames(st.ev), names, st.ignore)
			t.text = append(t.text, fmt.Sprint("query ", names, err))
			if err == nil {
				t.layout(f)
				for _, q := range names {
					t.vals = append(t.vals, marg[q])
				}
				if len(f.Data()) == m1(n, st.q) && len(names) > 0 {
					r := net.Rearrange(f, names)
					t.vals = append(t.vals, r.Data())
				} else {
					t.text = append(t.text, fmt.Sprint(len(f.Data())))
				}
			}
		case 1:
			f, err := net.SolveUtility(n.evNames(st.ev), names, st.u, st.ignore)
			t.text = append(t.text, fmt.Sprint("utility ", names, err))
			if err == nil {
				t.layout(f)
				if len(f.Data()) == m1(n, st.q) && len(names) > 0 {
					r := net.Rearrange(f, names)
					t.vals = append(t.vals, append([]float64{n.utilScale()}, r.Data()...))
				} else {
					t.text = append(t.text, fmt.Sprint(len(f.Data())))
				}
			}
		case 2:
			pol, err := net.SolvePolicies(st.step)
			t.later(func() string {
				x := fmt.Sprint("policies ", len(pol), err)
				for _, d := range n.Decisions {
					p, ok := pol[n.Vars[d].Name]
					x += fmt.Sprintf("\n  %v policy of %q given %q: %v", ok, p.For, p.Given, p.Table)
				}
				return x
			})
		case 3:
			y, err := bbn.ToYAML(net)
			t.later(func() string { return fmt.Sprint("yaml ", string(y), err) })
		case 5:
			_, _, err := net.SolveQuery(st.bad, names, st.ignore)
			_, err2 := net.SolveUtility(st.bad, names, st.u, st.ignore)
			t.text = append(t.text, fmt.Sprint("errors ", err, err2))
		case 6:
			tr := bbn.NewTrainer(net)
			for _, o := range st.data {
				tr.AddSample(o.x, o.u)
			}
			_, err := tr.UpdateNetwork()
			y, _ := bbn.ToYAML(net)
			t.later(func() string { return fmt.Sprint("train ", err, string(y)) })
		case 4:
			for _, v := range n.nonUtility() {
				if o, ok := st.ev[v]; ok {
					p, err := net.ToEvidence(n.Vars[v].Name, n.Vars[v].Outcomes[o])
					t.text = append(t.text, fmt.Sprint("evidence ", p, err))
				}
			}
		}
	}
}

// layout records the order of the variables of a result.
func (t *transcript) layout(f *ve.Factor) {
	x := "layout"
	for _, v := range f.Variables() {
		x += fmt.Sprint(" ", v.Id())
	}
	t.text = append(t.text, x)
}

// utilScale bounds the magnitude of the terms utilities are summed from.
func (n *NetSpec) utilScale() float64 {
	r := 0.0
	for _, u := range n.utilities() {
		w := 1.0
		if n.Total >= 0 {
			w = math.Max(1, maxAbs(n.Vars[n.Total].Table))
		}
		r += w * maxAbs(n.Vars[u].Table)
	}
	return r
}

// diff returns "" or the first difference.
func (t *transcript) diff(o *transcript) string {
	for i := range t.text {
		if i >= len(o.text) || t.text[i] != o.text[i] {
			x := "nothing"
			if i < len(o.text) {
				x = o.text[i]
			}
			return fmt.Sprintf("\n  %s\nand\n  %s", t.text[i], x)
		}
	}
	if len(t.text) != len(o.text) || len(t.vals) != len(o.vals) {
		return fmt.Sprintf("%d and %d results", len(t.text)+len(t.vals), len(o.text)+len(o.vals))
	}
	for i := range t.vals {
		if len(t.vals[i]) != len(o.vals[i]) {
			return fmt.Sprintf("%v and %v", t.vals[i], o.vals[i])
		}
		for j := range t.vals[i] {
			if !closeAbs(t.vals[i][j], o.vals[i][j], 1e-9*math.Max(1e-6, maxAbs(t.vals[i]))) {
				return fmt.Sprintf("%v and %v", t.vals[i], o.vals[i])
			}
		}
	}
	return ""
}

func m1(n *NetSpec, q []int) int {
	r := 1
	for _, v := range q {
		r *= n.card(v)
	}
	return r
}

func maxAbs(a []float64) float64 {
	r := 0.0
	for _, x := range a {
		if !math.IsNaN(x) {
			r = math.Max(r, math.Abs(x))
		}
	}
	return r
}
