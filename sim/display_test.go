package verifsim

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/internal/verifsim/simrt"
	"github.com/mlange-42/bbn/ve"
)

// displayPolicies are the policies the tools apply: the optimal ones where
// they are unique, otherwise those the library returns for the same file.
func displayPolicies(s *simrt.Sim, n *NetSpec, m *refModel, class string) map[int]*rpol {
	if len(n.Decisions) == 0 {
		return nil
	}
	if len(n.utilities()) > 0 {
		opt := m.optimum()
		if m.unique(opt) {
			s.Probe("unique policy")
			return m.policies(opt)
		}
	}
	s.Probe("tied policy")
	var net *bbn.Network
	var err error
	must(s, class, "FromYAML", func() { net, err = bbn.FromYAML(n.YAML(0)) })
	if err != nil {
		s.Fail("construct", "a valid network is rejected: %v", err)
	}
	pols, _ := solvePolicies(s, n, net, true, class)
	return pols
}

// display computes what a user should see for every variable: probabilities
// (one-hot for evidence), utility and total utility, or the weighted utilities.
func (m *refModel) display(pols map[int]*rpol, ev map[int]int, ignore bool) map[int][]float64 {
	n := m.n
	skip := map[int]int{}
	if ignore {
		for d := range ev {
			skip[d] = 1
		}
	}
	res := map[int][]float64{}
	pe := m.prob(pols, skip, ev, nil)[0]
	for _, v := range n.nonUtility() {
		p := make([]float64, n.card(v))
		if x, ok := ev[v]; ok {
			p[x] = 1
		} else {
			copy(p, m.prob(pols, skip, ev, []int{v}))
			for i := range p {
				p[i] /= pe
			}
		}
		res[v] = p
	}
	us := n.utilities()
	if len(us) == 0 {
		return res
	}
	t, _ := m.util(pols, skip, ev, nil, -1)
	total := t[0] / pe
	for _, u := range us {
		x, _ := m.util(pols, skip, ev, nil, u)
		res[u] = []float64{x[0] / pe, total}
	}
	if n.Total >= 0 {
		v := n.Vars[n.Total]
		var r []float64
		for i, g := range v.Given {
			r = append(r, res[g][0]*v.Table[i])
		}
		res[n.Total] = append(r, total)
	}
	return res
}

// shown tells whether a text shows a value with three decimals; scale is the
// magnitude of the terms it was computed from.
func shown(text string, want float64, percent bool) bool {
	text = strings.TrimSuffix(text, "%")
	if text == "???" || text == "NaN" {
		return math.IsNaN(want)
	}
	x, err := strconv.ParseFloat(text, 64)
	if err != nil {
		return false
	}
	if percent {
		want *= 100
	}
	if math.IsNaN(want) {
		return false
	}
	if e := strings.IndexAny(text, "eE"); e >= 0 {
		// as precise as it claims, with at least four digits
		digits := strings.TrimLeft(text[:e], "-")
		k := len(digits) - strings.Index(digits, ".") - 1
		return strings.Contains(digits, ".") && k >= 3 && math.Abs(x-want) <= math.Abs(want)*0.51*math.Pow10(-k)*10
	}
	return math.Abs(x-want) <= 0.00051+1e-9*math.Abs(want)
}

// checkInference compares the output of `bbn inference` with the reference.
func checkInference(out string, n *NetSpec, want map[int][]float64, ev map[int]int) string {
	got, msg := parseInference(out)
	if msg != "" {
		return "output not understood: " + msg
	}
	if len(got) != len(n.Vars) {
		return fmt.Sprintf("%d variables in the output, want %d", len(got), len(n.Vars))
	}
	for i, g := range got {
		v := n.Vars[i]
		if g.name != v.Name || !eqStr(g.outcomes, v.Outcomes) {
			return fmt.Sprintf("entry %d is %q %q, want %q %q", i, g.name, g.outcomes, v.Name, v.Outcomes)
		}
		_, isEv := ev[i]
		if g.evidence != isEv {
			return fmt.Sprintf("evidence mark of %q is %v, want %v", v.Name, g.evidence, isEv)
		}
		w := want[i]
		if len(g.values) != len(w) {
			return fmt.Sprintf("%q has %d values, want %d", v.Name, len(g.values), len(w))
		}
		for j := range w {
			pct := v.Kind != ve.UtilityNode
			if pct != strings.HasSuffix(g.values[j], "%") || !shown(g.values[j], w[j], pct) {
				return fmt.Sprintf("%q value %d is %s, want %v", v.Name, j, g.values[j], w[j])
			}
		}
	}
	return ""
}

// evidenceArgs renders evidence as command line arguments.
func evidenceArgs(s *simrt.Sim, n *NetSpec, ev map[int]int) []string {
	var items []string
	var keys []int
	for v := range ev {
		keys = append(keys, v)
	}
	sort.Ints(keys)
	shuffle(s, keys)
	for _, v := range keys {
		items = append(items, n.Vars[v].Name+"="+n.Vars[v].Outcomes[ev[v]])
	}
	if len(items) == 0 {
		return nil
	}
	switch s.W(3) {
	case 1:
		return []string{"--evidence=" + strings.Join(items, ",")}
	case 2:
		var res []string
		for _, x := range items {
			res = append(res, "-e", x)
		}
		return res
	}
	return []string{"-e", strings.Join(items, ",")}
}
