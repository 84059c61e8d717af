package verifsim

import (
	"fmt"
	"math"
	"slices"
	"strings"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/internal/verifsim/simos"
	"github.com/mlange-42/bbn/internal/verifsim/simrt"
	"github.com/mlange-42/bbn/ve"
)

const tol = 1e-9

func init() {
	register(&prop{id: "C01", run: runPosteriors})
	register(&prop{id: "C02", run: runReproducible})
	register(&prop{id: "C03", run: runPolicies})
	register(&prop{id: "C04", run: runUtilities})
}

// construct builds the network through one of its entry points.
func construct(s *simrt.Sim, n *NetSpec, class string) *bbn.Network {
	var net *bbn.Network
	var err error
	kind := s.Pick(3, 2, 1)
	hasLogic, xmlOK := false, n.Info == ""
	for _, v := range n.Vars {
		hasLogic = hasLogic || v.Logic != ""
		xmlOK = xmlOK && v.Color == ""
	}
	if hasLogic {
		kind = 1
	}
	if kind == 2 && !xmlOK {
		kind = 0
	}
	must(s, class, "constructing the network", func() {
		switch kind {
		case 0:
			net, err = n.Build()
		case 1:
			net, err = bbn.FromYAML(n.YAML(s.W(8)))
		case 2:
			net, err = bbn.FromBIFXML(n.XML(s.W(8)))
		}
	})
	if err != nil {
		s.Fail(class, "a valid network is rejected: %v", err)
	}
	return net
}

// solvePolicies calls SolvePolicies and converts the result for the reference.
func solvePolicies(s *simrt.Sim, n *NetSpec, net *bbn.Network, stepwise bool, class string) (map[int]*rpol, map[string]bbn.Factor) {
	var pol map[string]bbn.Factor
	var err error
	must(s, class, "SolvePolicies", func() { pol, err = net.SolvePolicies(stepwise) })
	if err != nil {
		s.Fail(class, "SolvePolicies(%v) failed: %v", stepwise, err)
	}
	s.Logf("SolvePolicies(%v) -> %d policies", stepwise, len(pol))
	res := map[int]*rpol{}
	for _, name := range sortedNames(pol) {
		f := pol[name]
		d := n.index(name)
		if d < 0 || n.Vars[d].Kind != ve.DecisionNode || f.For != name {
			s.Fail(class, "policy for %q (factor for %q), which is not that decision", name, f.For)
		}
		p := &rpol{d: d, table: f.Table}
		size := n.card(d)
		for _, g := range f.Given {
			i := n.index(g)
			if i < 0 {
				s.Fail(class, "policy of %q depends on unknown variable %q", name, g)
			}
			if contains(p.given, i) || i == d {
				s.Fail(class, "policy of %q lists %q twice", name, g)
			}
			p.given = append(p.given, i)
			size *= n.card(i)
		}
		if len(f.Table) != size {
			s.Fail(class, "policy of %q given %q has %d entries, want %d", name, f.Given, len(f.Table), size)
		}
		res[d] = p
	}
	if len(n.Decisions) > 0 && len(res) != len(n.Decisions) {
		s.Fail(class, "%d policies for %d decisions", len(res), len(n.Decisions))
	}
	return res, pol
}

// checkQuery performs a query and compares with the reference.
func checkQuery(s *simrt.Sim, n *NetSpec, m *refModel, net *bbn.Network, pols map[int]*rpol, ev map[int]int, query []int, ignore bool, class string) {
	names := make([]string, len(query))
	for i, q := range query {
		names[i] = n.Vars[q].Name
	}
	evN := n.evNames(ev)
	var marg map[string][]float64
	var f *ve.Factor
	var err error
	s.Logf("SolveQuery(evidence=%v, query=%q, ignorePolicies=%v)", evN, names, ignore)
	must(s, class, fmt.Sprintf("SolveQuery(%v, %q, %v)", evN, names, ignore), func() { marg, f, err = net.SolveQuery(evN, names, ignore) })
	if err != nil {
		s.Fail(class, "SolveQuery(%v, %q) failed: %v", evN, names, err)
	}
	skip := map[int]int{}
	if ignore {
		for d := range ev {
			skip[d] = 1
		}
	}
	joint := m.prob(pols, skip, ev, query)
	m.selfCheck(s, pols, skip, ev, query, -2, joint)
	pe := 0.0
	for _, x := range joint {
		pe += x
	}
	if pe == 0 {
		s.Probe("impossible evidence")
	}
	if len(marg) != len(query) {
		s.Fail(class, "%d marginals for %d query variables", len(marg), len(query))
	}
	for k, q := range query {
		got, ok := marg[names[k]]
		if !ok || len(got) != n.card(q) {
			s.Fail(class, "marginal of %q has %d values, want %d", names[k], len(got), n.card(q))
		}
		want := make([]float64, n.card(q))
		inner := m.size(query[k+1:])
		for i, x := range joint {
			want[i/inner%n.card(q)] += x
		}
		for i := range want {
			want[i] /= pe // NaN for impossible evidence
			if !closeAbs(got[i], want[i], tol) {
				s.Fail(class, "P(%s=%s | %v) is %v, should be %v", names[k], n.Vars[q].Outcomes[i], evN, got[i], want[i])
			}
		}
	}
	// the returned factor: P(query, evidence); it may contain further variables
	// only when decisions are unsolved
	if len(f.Data()) == len(joint) && len(query) > 0 {
		var r ve.Factor
		must(s, class, "Rearrange", func() { r = net.Rearrange(f, names) })
		for i, x := range joint {
			if !closeAbs(r.Data()[i], x, tol*pe) {
				s.Fail(class, "factor entry %d for query %q given %v is %v, should be P(query, evidence) = %v", i, names, evN, r.Data()[i], x)
			}
		}
	} else if len(query) == 0 && len(f.Data()) == 1 {
		if !closeAbs(f.Data()[0], pe, tol*pe) {
			s.Fail(class, "probability of evidence %v is %v, should be %v", evN, f.Data()[0], pe)
		}
	} else if len(pols) == len(n.Decisions) {
		s.Fail(class, "factor for query %q has %d entries, want %d", names, len(f.Data()), len(joint))
	}
}

func pickQuery(s *simrt.Sim, n *NetSpec, ev map[int]int, max, maxSize int) []int {
	var cand []int
	for _, v := range n.nonUtility() {
		if _, ok := ev[v]; !ok {
			cand = append(cand, v)
		}
	}
	shuffle(s, cand)
	k := s.W(max + 1)
	var res []int
	size := 1
	for _, v := range cand {
		if len(res) >= k {
			break
		}
		if size*n.card(v) > maxSize {
			continue
		}
		size *= n.card(v)
		res = append(res, v)
	}
	return res
}

// C01: every query on any network with any evidence, in any iteration order
// and after any history of calls, returns the exact posterior.
func runPosteriors(s *simrt.Sim) {
	o := genOpt{maxChance: 8, maxDec: 2, maxUtil: 2, wide: true, logic: s.P(1, 4), partial: true}
	if s.P(1, 2) {
		o.maxDec, o.maxUtil = 0, 0
	}
	if s.P(1, 8) {
		o.names = 1
	}
	n := genNet(s, o)
	s.Logf("%s", n.describe())
	m := newRef(n)
	net := construct(s, n, "construct")
	if net.Name() != n.Name {
		s.Fail("construct", "name is %q", net.Name())
	}
	pols := map[int]*rpol{}
	ops := 1 + s.W(5)
	maxQ := 3
	if s.P(1, 50) && len(n.Vars) < 12 {
		ops = 10 + s.W(60) // long histories
	} else if s.P(1, 20) {
		maxQ = 6
	}
	for i := 0; i < ops; i++ {
		if len(n.Decisions) > 0 && s.P(1, 3) && !(len(n.utilities()) == 0) {
			pols, _ = solvePolicies(s, n, net, s.P(1, 2), "posterior")
		}
		cand := n.nonUtility()
		max := 3
		if s.P(1, 4) {
			max = len(cand)
		}
		ev := genEvidence(s, n, cand, max)
		// unsolved decisions: their value must be given
		for _, d := range n.Decisions {
			if _, ok := ev[d]; !ok && len(pols) == 0 {
				ev[d] = s.W(n.card(d))
			}
		}
		if i > 0 && s.P(1, 8) {
			// a failing call in between
			bad := n.evNames(ev)
			if s.P(1, 2) {
				bad["no such variable"] = "x"
			} else if len(cand) > 0 {
				bad[n.Vars[cand[s.W(len(cand))]].Name] = "no such outcome"
			}
			must(s, "posterior", "SolveQuery with bad evidence", func() {
				if _, _, err := net.SolveQuery(bad, nil, false); err == nil {
					s.Fail("bad-evidence-accepted", "SolveQuery accepts evidence %v", bad)
				}
			})
		}
		q := pickQuery(s, n, ev, maxQ, 3000)
		checkQuery(s, n, m, net, pols, ev, q, s.P(1, 3), "posterior")
	}
}

// C04: expected utilities.
func runUtilities(s *simrt.Sim) {
	o := genOpt{maxChance: 6, maxDec: 2, minUtil: 1, maxUtil: 4, wide: s.P(1, 2), partial: true}
	if s.P(1, 20) {
		o.minUtil, o.maxUtil, o.maxCard = 5, 10, 3
	}
	n := genNet(s, o)
	for len(n.utilities()) == 0 {
		n = genNet(s, o)
	}
	s.Logf("%s", n.describe())
	m := newRef(n)
	net := construct(s, n, "construct")
	pols := map[int]*rpol{}
	ops := 1 + s.W(4)
	if s.P(1, 50) && len(n.Vars) < 12 {
		ops = 10 + s.W(40)
	}
	for i := 0; i < ops; i++ {
		if len(n.Decisions) > 0 && s.P(1, 2) {
			pols, _ = solvePolicies(s, n, net, s.P(1, 2), "utility")
		}
		ev := genEvidence(s, n, n.nonUtility(), []int{3, 3, 3, 12}[s.W(4)])
		for _, d := range n.Decisions {
			if _, ok := ev[d]; !ok && len(pols) == 0 {
				ev[d] = s.W(n.card(d))
			}
		}
		ignore := s.P(1, 3)
		query := []int{}
		if len(pols) == len(n.Decisions) {
			query = pickQuery(s, n, ev, 2, 300)
		}
		u := -1
		uname := ""
		us := n.utilities()
		if s.P(1, 2) {
			u = us[s.W(len(us))]
			uname = n.Vars[u].Name
		}
		checkUtility(s, n, m, net, pols, ev, query, u, uname, ignore)
	}
}

func checkUtility(s *simrt.Sim, n *NetSpec, m *refModel, net *bbn.Network, pols map[int]*rpol, ev map[int]int, query []int, u int, uname string, ignore bool) {
	names := make([]string, len(query))
	for i, q := range query {
		names[i] = n.Vars[q].Name
	}
	evN := n.evNames(ev)
	var f, fp *ve.Factor
	var err, err2 error
	s.Logf("SolveUtility(evidence=%v, query=%q, %q, ignorePolicies=%v)", evN, names, uname, ignore)
	must(s, "utility", fmt.Sprintf("SolveUtility(%v, %q, %q, %v)", evN, names, uname, ignore), func() {
		f, err = net.SolveUtility(evN, names, uname, ignore)
	})
	if err != nil {
		s.Fail("utility", "SolveUtility(%v, %q, %q) failed: %v", evN, names, uname, err)
	}
	skip := map[int]int{}
	if ignore {
		for d := range ev {
			skip[d] = 1
		}
	}
	want, scale := m.util(pols, skip, ev, query, u)
	prob := m.prob(pols, skip, ev, query)
	m.selfCheck(s, pols, skip, ev, query, u, want)
	data := f.Data()
	if len(data) != len(want) {
		// further variables may remain only for unsolved decisions
		if len(pols) == len(n.Decisions) || len(query) > 0 {
			s.Fail("utility", "utility factor for query %q has %d entries, want %d", names, len(data), len(want))
		}
		sum := 0.0
		for _, x := range data {
			sum += x
		}
		if !closeAbs(sum, want[0], tol*scale[0]) {
			s.Fail("utility", "expected utility %q times P(%v) sums to %v, should be %v", uname, evN, sum, want[0])
		}
		return
	}
	if len(query) > 0 {
		must(s, "utility", "Rearrange", func() {
			r := net.Rearrange(f, names)
			data = r.Data()
		})
	}
	for i := range want {
		if !closeAbs(data[i], want[i], tol*scale[i]) {
			s.Fail("utility", "utility %q entry %d for query %q given %v is %v, should be %v", uname, i, names, evN, data[i], want[i])
		}
	}
	// normalised by the probability factor of the same query
	must(s, "utility", "SolveQuery", func() { _, fp, err2 = net.SolveQuery(evN, names, ignore) })
	if err2 != nil {
		s.Fail("utility", "SolveQuery(%v, %q) failed: %v", evN, names, err2)
	}
	if len(fp.Data()) != len(want) {
		return
	}
	var nu ve.Factor
	copyU, copyP := append([]float64{}, f.Data()...), append([]float64{}, fp.Data()...)
	defer func() {
		// what happens to the result stays with the caller
		for i := range nu.Data() {
			nu.Data()[i] = 777
		}
		same := func(a, b []float64) bool {
			return slices.EqualFunc(a, b, func(x, y float64) bool { return x == y || math.IsNaN(x) && math.IsNaN(y) })
		}
		if !same(f.Data(), copyU) || !same(fp.Data(), copyP) {
			s.Fail("utility", "NormalizeUtility for %q given %v changes its arguments: utility %v -> %v, probability %v -> %v", uname, evN, copyU, f.Data(), copyP, fp.Data())
		}
	}()
	must(s, "utility", "NormalizeUtility", func() {
		nu = net.NormalizeUtility(f, fp)
		if len(query) > 0 {
			nu = net.Rearrange(&nu, names)
		}
	})
	for i := range want {
		if prob[i] == 0 {
			if x := nu.Data()[i]; !math.IsNaN(x) && len(query) == 0 {
				s.Fail("utility", "normalised utility %q for the impossible evidence %v is %v", uname, evN, x)
			}
			continue
		}
		if !closeAbs(nu.Data()[i], want[i]/prob[i], 2*tol*(scale[i]/prob[i])) {
			s.Fail("utility", "normalised utility %q entry %d for query %q given %v is %v, should be %v", uname, i, names, evN, nu.Data()[i], want[i]/prob[i])
		}
	}
}

// C03: policies are optimal.
func runPolicies(s *simrt.Sim) {
	o := genOpt{maxChance: 6, minDec: 1, maxDec: 3, minUtil: 1, maxUtil: 3, flat: s.P(1, 3), maxCard: 4, maxTable: 200, partial: true, free: true}
	if s.P(1, 6) {
		o.minDec, o.maxDec, o.maxChance, o.maxCard, o.wide = 1, 1, 3, 14, true
	} else if s.P(1, 12) {
		o.minDec, o.maxDec, o.maxChance, o.maxCard, o.maxUtil = 3, 5, 3, 2, 6
	}
	n := genNet(s, o)
	if len(n.utilities()) == 0 {
		return
	}
	s.Logf("%s", n.describe())
	m := newRef(n)
	net := construct(s, n, "construct")
	opt := m.optimum()
	meu, msc := m.util(m.policies(opt), nil, nil, nil, -1)
	rounds := 1 + s.W(2)
	if s.P(1, 60) {
		rounds = 4 + s.W(16)
	}
	for r := 0; r < rounds; r++ {
		if s.P(1, 4) {
			ev := genEvidence(s, n, n.nonUtility(), []int{3, 3, 3, 12}[s.W(4)])
			must(s, "policy", "SolveQuery", func() { _, _, _ = net.SolveQuery(n.evNames(ev), nil, false) })
		}
		stepwise := s.P(1, 2)
		pols, _ := solvePolicies(s, n, net, stepwise, "policy")
		if !n.Free {
			checkPolicies(s, n, m, opt, pols)
		}
		// value of the returned policies
		got, sc := m.util(pols, nil, nil, nil, -1)
		if !closeAbs(got[0], meu[0], 1e-8*math.Max(sc[0], msc[0])) {
			s.Fail("policy-value", "the returned policies have expected utility %v, the optimum is %v", got[0], meu[0])
		}
		// the network applies them
		var f *ve.Factor
		var err error
		must(s, "policy", "SolveUtility", func() { f, err = net.SolveUtility(nil, nil, "", false) })
		if err != nil || len(f.Data()) != 1 {
			s.Fail("policy-value", "expected utility under the policies not available: %v %v", err, f)
		}
		if !closeAbs(f.Data()[0], meu[0], 1e-8*math.Max(sc[0], msc[0])) {
			s.Fail("policy-value", "expected utility under the inserted policies is %v, the optimum is %v", f.Data()[0], meu[0])
		}
	}
}

func checkPolicies(s *simrt.Sim, n *NetSpec, m *refModel, opt map[int]*refDec, pols map[int]*rpol) {
	for _, d := range n.Decisions {
		p := pols[d]
		r := opt[d]
		cols := n.card(d)
		for _, g := range p.given {
			if !contains(r.given, g) {
				s.Fail("policy", "policy of %q depends on %q, which the decision does not observe", n.Vars[d].Name, n.Vars[g].Name)
			}
		}
		for i := 0; i < len(p.table)/cols; i++ {
			sum := 0.0
			for _, x := range p.table[i*cols : (i+1)*cols] {
				if !(x >= 0) {
					s.Fail("policy", "policy of %q has entry %v", n.Vars[d].Name, x)
				}
				sum += x
			}
			if math.Abs(sum-1) > 1e-9 {
				s.Fail("policy", "row %d of the policy of %q sums to %v", i, n.Vars[d].Name, sum)
			}
		}
		if !n.isParent(d) {
			s.Probe("decision without consequences")
			for _, x := range p.table {
				if math.Abs(x-1/float64(cols)) > 1e-9 {
					s.Fail("policy", "nothing depends on %q, but its policy is %v", n.Vars[d].Name, p.table)
				}
			}
		}
		// every information state
		val := map[int]int{}
		for i := range r.prob {
			if r.prob[i] <= 0 {
				s.Probe("impossible information state")
				continue
			}
			k := i
			for j := len(r.given) - 1; j >= 0; j-- {
				val[r.given[j]] = k % n.card(r.given[j])
				k /= n.card(r.given[j])
			}
			row := 0
			for _, g := range p.given {
				row = row*n.card(g) + val[g]
			}
			best, sc := math.Inf(-1), 0.0
			for c := 0; c < cols; c++ {
				best = math.Max(best, r.eu[i*cols+c])
				sc = math.Max(sc, r.scale[i*cols+c])
			}
			ties := 0
			for c := 0; c < cols; c++ {
				if best-r.eu[i*cols+c] <= 1e-9*sc {
					ties++
				} else if p.table[row*cols+c] > 0 {
					s.Fail("policy", "policy of %q in state %s chooses %q with probability %v: expected utility %v, best %v", n.Vars[d].Name, n.stateText(val), n.Vars[d].Outcomes[c], p.table[row*cols+c], r.eu[i*cols+c]/r.prob[i], best/r.prob[i])
				}
			}
			if ties > 1 {
				s.Probe("tie")
			}
		}
	}
}

func (n *NetSpec) stateText(val map[int]int) string {
	res := ""
	for i := range n.Vars {
		if x, ok := val[i]; ok {
			res += fmt.Sprintf("%s=%s ", n.Vars[i].Name, n.Vars[i].Outcomes[x])
		}
	}
	return res
}

// C02: same inputs, same results, whatever the iteration order of maps.
func runReproducible(s *simrt.Sim) {
	switch s.Pick(6, 2, 1) {
	case 1:
		reproCommands(s)
		return
	case 2:
		reproLoading(s)
		return
	}
	o := genOpt{maxChance: 6, maxDec: 3, maxUtil: 3, flat: true, maxCard: 4, maxTable: 200, partial: true}
	if s.P(1, 3) {
		o.flat = false
	}
	n := genNet(s, o.larger(s, 25))
	if len(n.utilities()) == 0 {
		n = genNet(s, genOpt{maxChance: 8})
	}
	if len(n.Decisions) > 1 && s.P(1, 3) {
		loosen(s, n)
	}
	s.Logf("%s", n.describe())
	script := genScript(s, n)
	yml := n.YAML(0)
	var first *transcript
	for rep := 0; rep < 3; rep++ {
		var net *bbn.Network
		var err error
		must(s, "repro", "FromYAML", func() { net, err = bbn.FromYAML(yml) })
		if err != nil {
			s.Fail("construct", "a valid network is rejected: %v", err)
		}
		t := &transcript{}
		must(s, "repro", "solving", func() { t.play(n, net, script) })
		if rep == 0 {
			first = t
		} else if msg := first.diff(t); msg != "" {
			s.Fail("not-reproducible", "the same calls give different results: %s", msg)
		}
	}
}

// loosen makes some decisions forget what was decided and observed before, so that decisions without order or with an order
// that follows from other variables only remain. What is optimal then depends on the order chosen, but it is the same each time.
func loosen(s *simrt.Sim, n *NetSpec) {
	for _, d := range n.Decisions {
		if s.P(1, 3) {
			continue
		}
		var given []int
		for _, g := range n.Vars[d].Given {
			if n.Vars[g].Kind != ve.DecisionNode && s.P(1, 2) {
				given = append(given, g)
			}
		}
		n.Vars[d].Given = given
	}
	s.Probe("decisions without order")
}

// badData puts several errors into the training data: the same one is reported each time.
func badData(s *simrt.Sim, n *NetSpec, data []obs, o *csvOpt) {
	c := *o
	if s.P(1, 2) {
		// missing columns
		drop := 1 + s.W(3)
		c.cols = nil
		for _, v := range o.cols {
			if drop > 0 && v >= 0 && s.P(2, 3) {
				drop--
				v = -1 - len(c.extra)
				c.extra = append(slices.Clip(c.extra), "extra")
			}
			c.cols = append(c.cols, v)
		}
		simos.Cur.Put("data.csv", n.csv(s, data, &c))
		return
	}
	// unknown values
	m := n.clone()
	for i := range m.Vars {
		if m.Vars[i].Kind != ve.UtilityNode {
			for k := range m.Vars[i].Outcomes {
				if s.P(1, 2) {
					m.Vars[i].Outcomes[k] = fmt.Sprintf("wrong%d", s.W(9))
				}
			}
		}
	}
	simos.Cur.Put("data.csv", m.csv(s, data, &c))
}

// reproLoading: the same damaged file gives the same error.
func reproLoading(s *simrt.Sim) {
	n := genFileNet(s)
	s.Logf("%s", n.describe())
	isXML := s.P(1, 3)
	var text string
	several := s.P(1, 2)
	if several {
		text = manyErrors(s, n.clone(), isXML)
	} else if isXML {
		text = string(n.XML(s.W(8)))
	} else {
		text = string(n.YAML(s.W(8)))
	}
	for k := s.W(4); k > 0 && !several; k-- {
		text = damage(s, text, isXML)
	}
	first := ""
	for rep := 0; rep < 3; rep++ {
		var net *bbn.Network
		var err error
		must(s, "repro", "loading", func() {
			if isXML {
				net, err = bbn.FromBIFXML([]byte(text))
			} else {
				net, err = bbn.FromYAML([]byte(text))
			}
		})
		res := fmt.Sprint(err)
		if err == nil {
			y, err := bbn.ToYAML(net)
			res = fmt.Sprint(string(y), err)
		}
		s.Logf("%s", res)
		if rep == 0 {
			first = res
		} else if res != first {
			s.Fail("not-reproducible", "loading the same file gives different results:\n%s\nand\n%s\n%s", first, res, text)
		}
	}
}

// manyErrors writes a file with the same kind of error in several places.
func manyErrors(s *simrt.Sim, n *NetSpec, isXML bool) string {
	kind := s.W(7)
	var hit []int
	for i := range n.Vars {
		v := &n.Vars[i]
		if !s.P(2, 3) {
			continue
		}
		hit = append(hit, i)
		rows := n.rows(i)
		switch kind {
		case 0:
			if c := len(v.Outcomes); rows > 1 && len(v.Table) == rows*c {
				v.Table = v.Table[:len(v.Table)-c]
			} else if isXML {
				v.Table = append(v.Table, 1)
			}
		case 1:
			if len(v.Table) > 0 {
				v.Table[s.W(len(v.Table))] = -1
			}
		case 2:
			v.Name = n.Vars[s.W(len(n.Vars))].Name
		case 3:
			v.Given = append(slices.Clip(v.Given), s.W(len(n.Vars)))
		case 4:
			v.Logic = fmt.Sprintf("no-such-operator-%d", i)
			if isXML {
				v.Outcomes = nil
			}
		}
	}
	s.Logf("errors of kind %d in %d places", kind, len(hit))
	style := s.W(8)
	text := string(n.YAML(style))
	if isXML {
		text = string(n.XML(style))
	}
	for _, i := range hit {
		name, lost := n.Vars[i].Name, fmt.Sprintf("lost %d", i)
		switch kind {
		case 5: // the variable is gone
			text = strings.Replace(text, "\t<NAME>"+xstr(name)+"<", "\t<NAME>"+lost+"<", 1)
			text = strings.Replace(text, "- variable: "+qstr(name)+"\n", "- variable: "+lost+"\n", 1)
		case 6: // its definition is one of something else
			text = strings.Replace(text, "<FOR>"+xstr(name)+"<", "<FOR>"+lost+"<", 1)
			text = strings.Replace(text, "given: ["+qstr(name), "given: [\""+lost+"\"", 1)
		}
	}
	return text
}

// reproCommands repeats a command and compares everything it prints.
func reproCommands(s *simrt.Sim) {
	var args []string
	if s.P(1, 3) {
		var n *NetSpec
		var data []obs
		var o *csvOpt
		n, data, o, _, args = trainFiles(s, s.P(3, 4))
		if s.P(1, 2) {
			badData(s, n, data, o)
		}
	} else {
		n := genNet(s, genOpt{maxChance: 5, maxDec: 2, minUtil: 0, maxUtil: 2, names: 2, maxCard: 5, maxTable: 100, logic: s.P(1, 4), flat: s.P(1, 2), partial: true})
		s.Logf("%s", n.describe())
		file := placeNet(s, n)
		ev := genEvidence(s, n, n.nonUtility(), 3)
		args = append([]string{"bbn", "inference", file}, evidenceArgs(s, n, ev)...)
		if s.P(1, 6) {
			for k := 1 + s.W(3); k > 0; k-- {
				args = append(args, "-e", fmt.Sprintf("%s=wrong%d", []string{"Nothing", "Nowhere", n.Vars[0].Name}[s.W(3)], k))
			}
		}
	}
	var first *proc
	for rep := 0; rep < 3; rep++ {
		p := runProc(s, args, nil, false)
		if first == nil {
			first = p
			continue
		}
		if p.code != first.code || p.text != first.text || fmt.Sprint(p.panicV) != fmt.Sprint(first.panicV) {
			s.Fail("not-reproducible", "%q gives different results: %s\n%s\nand: %s\n%s", args, first, first.text, p, p.text)
		}
	}
}
