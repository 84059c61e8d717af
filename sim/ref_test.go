package verifsim

import (
	"fmt"
	"math"
	"sort"

	"github.com/mlange-42/bbn/internal/verifsim/simrt"
	"github.com/mlange-42/bbn/ve"
)

// Reference model: exact inference by an independent, deliberately simple
// implementation. Factors are dense tables over sorted variable lists.
type rfac struct {
	vars []int // sorted
	data []float64
}

type refModel struct {
	n       *NetSpec
	card    []int
	chance  []rfac // normalised conditional tables
	work    int
	checked int
}

// rpol is a policy: probability of each outcome of decision d given assignments.
type rpol struct {
	d     int
	given []int
	table []float64 // rows over given (last fastest), columns = outcomes
}

func newRef(n *NetSpec) *refModel {
	m := &refModel{n: n, card: make([]int, len(n.Vars))}
	for i := range n.Vars {
		m.card[i] = n.card(i)
	}
	for _, i := range n.chances() {
		v := n.Vars[i]
		cols := len(v.Outcomes)
		t := append([]float64{}, v.Table...)
		for r := 0; r < len(t)/cols; r++ {
			sum := 0.0
			for c := 0; c < cols; c++ {
				sum += t[r*cols+c]
			}
			if sum == 0 {
				continue
			}
			for c := 0; c < cols; c++ {
				t[r*cols+c] /= sum
			}
		}
		m.chance = append(m.chance, m.make(append(append([]int{}, v.Given...), i), t))
	}
	return m
}

// make builds a factor from a table whose variables are in the given order
// (last fastest); the result has sorted variables.
func (m *refModel) make(order []int, table []float64) rfac {
	vars := append([]int{}, order...)
	sort.Ints(vars)
	f := rfac{vars: vars, data: make([]float64, len(table))}
	val := map[int]int{}
	for k := range table {
		r := k
		for j := len(order) - 1; j >= 0; j-- {
			val[order[j]] = r % m.card[order[j]]
			r /= m.card[order[j]]
		}
		f.data[m.idx(f.vars, val)] = table[k]
	}
	return f
}

func (m *refModel) idx(vars []int, val map[int]int) int {
	x := 0
	for _, v := range vars {
		x = x*m.card[v] + val[v]
	}
	return x
}

func (m *refModel) size(vars []int) int {
	s := 1
	for _, v := range vars {
		s *= m.card[v]
	}
	return s
}

func union(a, b []int) []int {
	res := append([]int{}, a...)
	for _, x := range b {
		found := false
		for _, y := range res {
			if x == y {
				found = true
			}
		}
		if !found {
			res = append(res, x)
		}
	}
	sort.Ints(res)
	return res
}

// combine multiplies factors and sums out variable out (-1: none).
func (m *refModel) combine(fs []rfac, out int) rfac {
	var all []int
	for _, f := range fs {
		all = union(all, f.vars)
	}
	var keep []int
	for _, v := range all {
		if v != out {
			keep = append(keep, v)
		}
	}
	res := rfac{vars: keep, data: make([]float64, m.size(keep))}
	n := m.size(all)
	m.work += n
	asg := make([]int, len(all))
	// strides of every factor and of the result for each variable in all
	stride := func(vars []int) []int {
		st := make([]int, len(all))
		for i, v := range all {
			s := 1
			ok := false
			for j := len(vars) - 1; j >= 0; j-- {
				if vars[j] == v {
					ok = true
					break
				}
				s *= m.card[vars[j]]
			}
			if ok {
				st[i] = s
			}
		}
		return st
	}
	sts := make([][]int, len(fs))
	for i, f := range fs {
		sts[i] = stride(f.vars)
	}
	rs := stride(keep)
	for k := 0; k < n; k++ {
		p := 1.0
		for i, f := range fs {
			x := 0
			for j, a := range asg {
				x += a * sts[i][j]
			}
			p *= f.data[x]
		}
		x := 0
		for j, a := range asg {
			x += a * rs[j]
		}
		res.data[x] += p
		for j := len(asg) - 1; j >= 0; j-- {
			asg[j]++
			if asg[j] < m.card[all[j]] {
				break
			}
			asg[j] = 0
		}
	}
	return res
}

func (m *refModel) restrict(f rfac, v, val int) rfac {
	pos := -1
	for i, x := range f.vars {
		if x == v {
			pos = i
		}
	}
	if pos < 0 {
		return f
	}
	var keep []int
	keep = append(keep, f.vars[:pos]...)
	keep = append(keep, f.vars[pos+1:]...)
	res := rfac{vars: keep, data: make([]float64, m.size(keep))}
	inner := m.size(f.vars[pos+1:])
	for i := range res.data {
		res.data[i] = f.data[(i/inner*m.card[v]+val)*inner+i%inner]
	}
	return res
}

// eliminate restricts factors by evidence and sums out everything but keep.
// The result is a table over keep in the order of keep (last fastest).
func (m *refModel) eliminate(fs []rfac, ev map[int]int, keep []int) []float64 {
	cur := make([]rfac, 0, len(fs))
	evs := make([]int, 0, len(ev))
	for v := range ev {
		evs = append(evs, v)
	}
	sort.Ints(evs)
	for _, f := range fs {
		for _, v := range evs {
			f = m.restrict(f, v, ev[v])
		}
		cur = append(cur, f)
	}
	isKeep := map[int]bool{}
	for _, k := range keep {
		isKeep[k] = true
	}
	for {
		// cheapest variable to eliminate next
		best, bestSize := -1, math.MaxInt
		var all []int
		for _, f := range cur {
			all = union(all, f.vars)
		}
		for _, v := range all {
			if isKeep[v] {
				continue
			}
			var scope []int
			for _, f := range cur {
				if contains(f.vars, v) {
					scope = union(scope, f.vars)
				}
			}
			if s := m.size(scope); s < bestSize {
				best, bestSize = v, s
			}
		}
		if best < 0 {
			break
		}
		var with, rest []rfac
		for _, f := range cur {
			if contains(f.vars, best) {
				with = append(with, f)
			} else {
				rest = append(rest, f)
			}
		}
		cur = append(rest, m.combine(with, best))
	}
	f := m.combine(cur, -1)
	// table over keep in order; variables not in f are constant
	n := m.size(keep)
	res := make([]float64, n)
	for k := 0; k < n; k++ {
		val := map[int]int{}
		r := k
		for j := len(keep) - 1; j >= 0; j-- {
			val[keep[j]] = r % m.card[keep[j]]
			r /= m.card[keep[j]]
		}
		res[k] = f.data[m.idx(f.vars, val)]
	}
	return res
}

func contains(a []int, x int) bool {
	for _, y := range a {
		if x == y {
			return true
		}
	}
	return false
}

// factors of the joint distribution with the given policies; decisions without
// a policy stay free. Policies of variables in skip are left out.
func (m *refModel) factors(pols map[int]*rpol, skip map[int]int) []rfac {
	fs := append([]rfac{}, m.chance...)
	for d := range m.n.Vars {
		p, ok := pols[d]
		if !ok {
			continue
		}
		if _, sk := skip[d]; sk {
			continue
		}
		fs = append(fs, m.make(append(append([]int{}, p.given...), d), p.table))
	}
	return fs
}

// prob is the table P(keep, ev).
func (m *refModel) prob(pols map[int]*rpol, skip map[int]int, ev map[int]int, keep []int) []float64 {
	return m.eliminate(m.factors(pols, skip), ev, keep)
}

func (m *refModel) weight(u int) float64 {
	if m.n.Total < 0 {
		return 1
	}
	t := m.n.Vars[m.n.Total]
	for i, g := range t.Given {
		if g == u {
			return t.Table[i]
		}
	}
	return math.NaN()
}

func (m *refModel) utilFactor(u int, abs bool) rfac {
	v := m.n.Vars[u]
	t := append([]float64{}, v.Table...)
	if abs {
		for i := range t {
			t[i] = math.Abs(t[i])
		}
	}
	return m.make(v.Given, t)
}

// util is the table sum P(keep, ev, rest) * utility, for one utility node
// (unweighted) or, with u < 0, for the weighted total; the second result is the
// same with absolute values, the scale for rounding errors.
func (m *refModel) util(pols map[int]*rpol, skip map[int]int, ev map[int]int, keep []int, u int) (res, scale []float64) {
	us := []int{u}
	if u < 0 {
		us = m.n.utilities()
	}
	res = make([]float64, m.size(keep))
	scale = make([]float64, m.size(keep))
	fs := m.factors(pols, skip)
	for _, k := range us {
		w := 1.0
		if u < 0 {
			w = m.weight(k)
		}
		a := m.eliminate(append(append([]rfac{}, fs...), m.utilFactor(k, false)), ev, keep)
		b := m.eliminate(append(append([]rfac{}, fs...), m.utilFactor(k, true)), ev, keep)
		for i := range a {
			res[i] += w * a[i]
			scale[i] += math.Abs(w) * b[i]
		}
	}
	return
}

// optimum solves the decision problem by backward induction over n.Decisions.
// For each decision it returns the expected utility table over (given, decision),
// its scale, and the probability of each information state.
type refDec struct {
	d      int
	given  []int
	eu     []float64
	scale  []float64
	prob   []float64
	policy *rpol
}

func (m *refModel) optimum() map[int]*refDec {
	res := map[int]*refDec{}
	pols := map[int]*rpol{}
	for k := len(m.n.Decisions) - 1; k >= 0; k-- {
		d := m.n.Decisions[k]
		given := append([]int{}, m.n.known(d)...)
		keep := append(append([]int{}, given...), d)
		r := &refDec{d: d, given: given}
		r.eu, r.scale = m.util(pols, nil, nil, keep, -1)
		pr := m.prob(pols, nil, nil, keep)
		cols := m.card[d]
		rows := len(r.eu) / cols
		r.prob = make([]float64, rows)
		pol := &rpol{d: d, given: given, table: make([]float64, len(r.eu))}
		for i := 0; i < rows; i++ {
			best := 0
			for c := 0; c < cols; c++ {
				if pr[i*cols+c] > r.prob[i] {
					r.prob[i] = pr[i*cols+c]
				}
				if r.eu[i*cols+c] > r.eu[i*cols+best] {
					best = c
				}
			}
			pol.table[i*cols+best] = 1
		}
		r.policy = pol
		pols[d] = pol
		res[d] = r
	}
	return res
}

// unique tells whether every information state with positive probability has
// one clearly best choice.
func (m *refModel) unique(opt map[int]*refDec) bool {
	for _, d := range m.n.Decisions {
		r := opt[d]
		cols := m.card[d]
		for i := range r.prob {
			if r.prob[i] <= 0 {
				continue
			}
			best, second, sc := math.Inf(-1), math.Inf(-1), 0.0
			for c := 0; c < cols; c++ {
				x := r.eu[i*cols+c]
				sc = math.Max(sc, r.scale[i*cols+c])
				if x > best {
					best, second = x, best
				} else if x > second {
					second = x
				}
			}
			if best-second <= 1e-7*sc+1e-300 {
				return false
			}
		}
	}
	return true
}

func (m *refModel) policies(opt map[int]*refDec) map[int]*rpol {
	res := map[int]*rpol{}
	for d, r := range opt {
		res[d] = r.policy
	}
	return res
}

// selfCheck compares results of the reference for small models with those of
// plain enumeration, now and then.
func (m *refModel) selfCheck(s *simrt.Sim, pols map[int]*rpol, skip, ev map[int]int, keep []int, u int, got []float64) {
	if m.checked++; m.checked%7 != 1 || len(m.n.Vars) > 20 || m.size(m.n.nonUtility()) > 400 {
		return
	}
	want := m.brute(pols, skip, ev, keep, u)
	scale := maxAbs(want)
	if u != -2 {
		scale += m.n.utilScale()
	}
	for i := range want {
		if !closeAbs(got[i], want[i], 1e-9*scale) {
			panic(simrt.HarnessError{Msg: fmt.Sprintf("reference gives %v, enumeration %v", got, want)})
		}
	}
	s.Probe("reference compared with enumeration")
}

// brute enumerates the joint distribution; used to check the reference itself.
func (m *refModel) brute(pols map[int]*rpol, skip map[int]int, ev map[int]int, keep []int, u int) []float64 {
	n := m.n
	res := make([]float64, m.size(keep))
	vars := n.nonUtility()
	val := map[int]int{}
	total := m.size(vars)
	fs := m.factors(pols, skip)
	for k := 0; k < total; k++ {
		r := k
		for _, v := range vars {
			val[v] = r % m.card[v]
			r /= m.card[v]
		}
		ok := true
		for e, x := range ev {
			if val[e] != x {
				ok = false
			}
		}
		if !ok {
			continue
		}
		p := 1.0
		for _, f := range fs {
			p *= f.data[m.idx(f.vars, val)]
		}
		if u != -2 {
			sum := 0.0
			for _, x := range n.utilities() {
				if u >= 0 && x != u {
					continue
				}
				f := m.utilFactor(x, false)
				w := 1.0
				if u < 0 {
					w = m.weight(x)
				}
				sum += w * f.data[m.idx(f.vars, val)]
			}
			p *= sum
		}
		x := 0
		for _, v := range keep {
			x = x*m.card[v] + val[v]
		}
		res[x] += p
	}
	return res
}

var _ = ve.ChanceNode
