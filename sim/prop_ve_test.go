package verifsim

import (
	"fmt"
	"math"
	"slices"

	"github.com/mlange-42/bbn/internal/verifsim/simrt"
	"github.com/mlange-42/bbn/ve"
)

func init() {
	register(&prop{id: "C15", run: runFactors})
}

// C15: factor operations yield the defined function of their operands and
// leave these alone, whatever happened on the same Variables before and
// whatever other users do; engines built from factors answer accordingly.
func runFactors(s *simrt.Sim) {
	users := s.Pick(4, 2, 1) + 1
	for u := 0; u < users; u++ {
		s.Spawn(fmt.Sprintf("user %d", u), func() {
			if s.P(1, 4) {
				engineUser(s, u)
			} else {
				(&algebra{s: s, u: u}).run()
			}
		})
	}
	s.RunTasks(s.W(30), []int{3, 20, 100, 500}[s.W(4)])
}

// label is the model of a variable: cards by id.
type label struct {
	id, card int
}

// mfac is the model of a factor.
type mfac struct {
	vars []label
	data []float64
	abs  []float64 // magnitudes entering each entry, the scale of rounding errors
}

func (f *mfac) size() int {
	n := 1
	for _, v := range f.vars {
		n *= v.card
	}
	return n
}

// at is the position of an assignment, -1 if a variable is missing.
func (f *mfac) at(val map[int]int) int {
	x := 0
	for _, v := range f.vars {
		x = x*v.card + val[v.id]
	}
	return x
}

// each calls fn with every assignment of the variables.
func each(vars []label, fn func(k int, val map[int]int)) {
	n := 1
	for _, v := range vars {
		n *= v.card
	}
	val := map[int]int{}
	for k := 0; k < n; k++ {
		r := k
		for j := len(vars) - 1; j >= 0; j-- {
			val[vars[j].id] = r % vars[j].card
			r /= vars[j].card
		}
		fn(k, val)
	}
}

func newMfac(vars []label) *mfac {
	f := &mfac{vars: vars}
	f.data = make([]float64, f.size())
	f.abs = make([]float64, f.size())
	return f
}

func (f *mfac) index(id int) int {
	return slices.IndexFunc(f.vars, func(v label) bool { return v.id == id })
}

// algebra is a user working with factors on its own Variables.
type algebra struct {
	s     *simrt.Sim
	u     int
	vs    *ve.Variables
	vars  []ve.Variable
	lab   map[int]label
	facs  []*ve.Factor
	model []*mfac
	ids   map[int]bool
	limit int
}

func (a *algebra) fail(format string, x ...any) { a.s.Fail("factor", format, x...) }

func (a *algebra) do(what string, f func()) {
	must(a.s, "factor", fmt.Sprintf("user %d: %s", a.u, what), f)
}

func (a *algebra) run() {
	s := a.s
	a.lab = map[int]label{}
	a.ids = map[int]bool{}
	a.limit = 600
	nv := 1 + s.W(6)
	if s.P(1, 10) {
		nv = 7 + s.W(6)
	}
	a.do("NewVariables", func() { a.vs = ve.NewVariables() })
	// identifiers are the caller's choice
	step, off := 1, 0
	if s.P(1, 2) {
		step, off = 1+s.W(5), s.W(20)-5
	}
	order := permutation(s, nv)
	cards := s.W(3)
	for i := 0; i < nv; i++ {
		c := 1 + s.W(4)
		switch {
		case cards == 0:
			c = 2
		case cards == 1 && s.P(1, 20):
			c = 250 + s.W(20)
		}
		id := off + step*order[i]
		kind := ve.NodeType(s.W(3))
		a.do("AddVariable", func() {
			v := a.vs.AddVariable(id, kind, uint16(c))
			if v.Id() != id || v.NodeType() != kind {
				a.fail("AddVariable(%d, %d, %d) returns variable %d of type %d", id, kind, c, v.Id(), v.NodeType())
			}
			a.vars = append(a.vars, v)
		})
		a.lab[id] = label{id, c}
	}
	steps := 2 + s.W(14)
	if s.P(1, 40) {
		steps = 30 + s.W(60)
	}
	for i := 0; i < steps; i++ {
		a.step()
		a.unchanged()
	}
}

// unchanged compares all factors with their models: operations don't modify operands.
func (a *algebra) unchanged() {
	for i, f := range a.facs {
		m := a.model[i]
		if len(f.Data()) != len(m.data) {
			a.fail("user %d: factor %d now has %d entries, had %d", a.u, i, len(f.Data()), len(m.data))
		}
		for k, x := range f.Data() {
			if math.Float64bits(x) != math.Float64bits(m.data[k]) && !(x != x && m.data[k] != m.data[k]) {
				a.fail("user %d: entry %d of factor %d changed from %v to %v", a.u, k, i, m.data[k], x)
			}
		}
	}
}

// subset draws variables in any order.
func (a *algebra) subset() []ve.Variable {
	vars := slices.Clone(a.vars)
	p := permutation(a.s, len(vars))
	var res []ve.Variable
	n := a.s.W(5)
	size := 1
	for _, i := range p {
		c := a.lab[vars[i].Id()].card
		if len(res) >= n || size*c > a.limit {
			break
		}
		size *= c
		res = append(res, vars[i])
	}
	return res
}

func (a *algebra) labels(vars []ve.Variable) []label {
	res := make([]label, len(vars))
	for i := range vars {
		res[i] = a.lab[vars[i].Id()]
	}
	return res
}

func (a *algebra) pick() int { return a.s.W(len(a.facs)) }

// variable of this factor, as the caller knows it.
func (a *algebra) varOf(i int) ve.Variable {
	f := a.model[i]
	id := f.vars[a.s.W(len(f.vars))].id
	for _, v := range a.vars {
		if v.Id() == id {
			return v
		}
	}
	panic(simrt.HarnessError{Msg: "variable not found"})
}

// keep checks a result against the model and adds it to the pool. The order of
// variables is free unless fixed; values are compared by assignment.
func (a *algebra) keep(what string, f *ve.Factor, want *mfac, fixed bool) {
	got := a.labels(f.Variables())
	a.s.Logf("user %d: %s -> factor over %v", a.u, what, got)
	if len(got) != len(want.vars) || len(f.Data()) != want.size() {
		a.fail("user %d: %s has variables %v and %d entries, should have variables %v and %d entries", a.u, what, got, len(f.Data()), want.vars, want.size())
	}
	for i, v := range got {
		if want.index(v.id) < 0 || slices.Contains(got[:i], v) || (fixed && want.vars[i] != v) {
			a.fail("user %d: %s has variables %v, should have %v", a.u, what, got, want.vars)
		}
	}
	if a.ids[f.Id()] {
		a.fail("user %d: %s returns a factor with id %d, which another factor has", a.u, what, f.Id())
	}
	a.ids[f.Id()] = true
	res := newMfac(got)
	each(got, func(k int, val map[int]int) {
		j := want.at(val)
		if !closeAbs(f.Data()[k], want.data[j], tol*want.abs[j]) {
			a.fail("user %d: %s at %v is %v, should be %v", a.u, what, val, f.Data()[k], want.data[j])
		}
		res.data[k] = f.Data()[k]
		res.abs[k] = math.Abs(f.Data()[k])
	})
	a.facs = append(a.facs, f)
	a.model = append(a.model, res)
	if len(a.facs) > 8 {
		j := a.s.W(len(a.facs))
		a.facs = slices.Delete(a.facs, j, j+1)
		a.model = slices.Delete(a.model, j, j+1)
	}
}

func (a *algebra) create() {
	s := a.s
	vars := a.subset()
	lab := a.labels(vars)
	m := newMfac(lab)
	var data []float64
	style := s.W(7)
	if style < 6 {
		data = make([]float64, len(m.data))
		for i := range data {
			data[i] = val(s, style)
			if s.P(1, 8) {
				data[i] = -data[i]
			}
			m.data[i], m.abs[i] = data[i], math.Abs(data[i])
		}
	}
	var f ve.Factor
	arg := slices.Clone(vars)
	a.do("CreateFactor", func() { f = a.vs.CreateFactor(arg, data) })
	a.reuse(arg)
	a.keep(fmt.Sprintf("CreateFactor(%v)", lab), &f, m, true)
}

// reuse overwrites a list of variables that was passed: it is the caller's.
func (a *algebra) reuse(arg []ve.Variable) {
	if len(arg) > 0 && len(a.vars) > 0 && a.s.P(1, 2) {
		for i := range arg {
			arg[i] = a.vars[0]
		}
	}
}

// undefined derives a policy from a factor over the variables of factor i, with
// infinite and undefined values. These do not go further.
func (a *algebra) undefined(i int) {
	s := a.s
	v := a.varOf(i)
	m := newMfac(a.model[i].vars)
	vars := slices.Clone(a.facs[i].Variables())
	special := []float64{math.NaN(), math.NaN(), math.Inf(-1), math.Inf(-1), math.Inf(1), 0, -1}
	only := -1
	if s.P(1, 2) {
		only = s.W(4)
	}
	for k := range m.data {
		j := s.W(len(special))
		if only >= 0 && s.P(4, 5) {
			j = only
		}
		m.data[k] = special[j]
	}
	var f ve.Factor
	a.do("CreateFactor", func() { f = a.vs.CreateFactor(vars, slices.Clone(m.data)) })
	if a.ids[f.Id()] {
		a.fail("user %d: CreateFactor returns a factor with id %d, which another factor has", a.u, f.Id())
	}
	a.ids[f.Id()] = true
	a.s.Logf("user %d: factor over %v with %v", a.u, m.vars, m.data)
	a.policy(i, &f, m, v)
}

func (a *algebra) policy(i int, f *ve.Factor, m *mfac, v ve.Variable) {
	l := a.lab[v.Id()]
	var r ve.Factor
	rest := without(m.vars, l)
	want := newMfac(append(slices.Clone(rest), l))
	each(rest, func(_ int, val map[int]int) {
		best, n := math.Inf(-1), 0
		for c := 0; c < l.card; c++ {
			val[l.id] = c
			x := m.data[m.at(val)]
			if x > best {
				best, n = x, 1
			} else if x == best {
				n++
			}
		}
		for c := 0; c < l.card; c++ {
			val[l.id] = c
			if n == 0 { // nothing defined: no choice is better than another
				want.data[want.at(val)] = 1 / float64(l.card)
				want.abs[want.at(val)] = 1
			} else if m.data[m.at(val)] == best {
				want.data[want.at(val)] = 1 / float64(n)
				want.abs[want.at(val)] = 1
			}
		}
		delete(val, l.id)
	})
	a.do("Policy", func() { r = a.vs.Policy(f, v) })
	if vv := r.Variables(); len(vv) == 0 || vv[len(vv)-1].Id() != l.id {
		a.fail("user %d: Policy(%d, %v) does not have this variable last: %v", a.u, i, l, a.labels(vv))
	}
	a.keep(fmt.Sprintf("Policy(%d, %v)", i, l), &r, want, false)
}

func (a *algebra) step() {
	s := a.s
	if len(a.facs) == 0 || s.P(1, 4) {
		a.create()
		return
	}
	i := a.pick()
	f, m := a.facs[i], a.model[i]
	var r ve.Factor
	op := s.W(14)
	if len(m.vars) == 0 && (op == 2 || op == 3 || op == 4 || op == 5 || op == 6) {
		op = 7 + s.W(6)
	}
	switch op {
	case 0, 1: // product, sum
		idx := []int{i}
		if s.P(1, 20) {
			idx = nil // the empty product and sum
		}
		n := s.W(4)
		if s.P(1, 10) {
			n = 4 + s.W(4)
		}
		for j := 0; j < n && len(idx) > 0; j++ {
			idx = append(idx, a.pick())
		}
		want := &mfac{}
		var args []*ve.Factor
		for _, j := range idx {
			args = append(args, a.facs[j])
			for _, v := range a.model[j].vars {
				if want.index(v.id) < 0 {
					want.vars = append(want.vars, v)
				}
			}
		}
		if want.size() > 4000 {
			return
		}
		want = newMfac(want.vars)
		each(want.vars, func(k int, val map[int]int) {
			p, sum, abs := 1.0, 0.0, 0.0
			for _, j := range idx {
				x := a.model[j].data[a.model[j].at(val)]
				p *= x
				sum += x
				abs += math.Abs(x)
			}
			if op == 0 {
				want.data[k], want.abs[k] = p, math.Abs(p)
			} else {
				want.data[k], want.abs[k] = sum, abs
			}
		})
		name := []string{"Product", "Sum"}[op]
		a.do(name, func() {
			if op == 0 {
				r = a.vs.Product(args...)
			} else {
				r = a.vs.Sum(args...)
			}
		})
		a.keep(fmt.Sprintf("%s%v", name, idx), &r, want, false)
	case 2: // restrict
		v := a.varOf(i)
		l := a.lab[v.Id()]
		x := s.W(l.card)
		want := newMfac(without(m.vars, l))
		each(want.vars, func(k int, val map[int]int) {
			val[l.id] = x
			j := m.at(val)
			want.data[k], want.abs[k] = m.data[j], m.abs[j]
			delete(val, l.id)
		})
		a.do("Restrict", func() { r = a.vs.Restrict(f, v, x) })
		a.keep(fmt.Sprintf("Restrict(%d, %v, %d)", i, l, x), &r, want, false)
	case 3: // sum out
		v := a.varOf(i)
		l := a.lab[v.Id()]
		want := newMfac(without(m.vars, l))
		each(m.vars, func(k int, val map[int]int) {
			j := want.at(val)
			want.data[j] += m.data[k]
			want.abs[j] += math.Abs(m.data[k])
		})
		a.do("SumOut", func() { r = a.vs.SumOut(f, v) })
		a.keep(fmt.Sprintf("SumOut(%d, %v)", i, l), &r, want, false)
	case 4: // marginal
		v := a.varOf(i)
		l := a.lab[v.Id()]
		want := newMfac([]label{l})
		each(m.vars, func(k int, val map[int]int) {
			want.data[val[l.id]] += m.data[k]
			want.abs[val[l.id]] += math.Abs(m.data[k])
		})
		a.do("Marginal", func() { r = a.vs.Marginal(f, v) })
		a.keep(fmt.Sprintf("Marginal(%d, %v)", i, l), &r, want, true)
	case 5: // normalise for a variable, which comes last
		v := a.varOf(i)
		l := a.lab[v.Id()]
		rest := without(m.vars, l)
		want := newMfac(append(slices.Clone(rest), l))
		sums, scale := newMfac(rest), newMfac(rest)
		each(m.vars, func(k int, val map[int]int) {
			sums.data[sums.at(val)] += m.data[k]
			scale.data[scale.at(val)] += math.Abs(m.data[k])
		})
		for j := range sums.data {
			// sums that cancel are dominated by rounding
			if math.Abs(sums.data[j]) < 1e-6*scale.data[j] {
				return
			}
		}
		each(want.vars, func(k int, val map[int]int) {
			x := m.data[m.at(val)]
			if sum := sums.data[sums.at(val)]; sum != 0 {
				x /= sum
			}
			want.data[k] = x
			want.abs[k] = math.Abs(x) * 1e4
		})
		a.do("NormalizeFor", func() { r = a.vs.NormalizeFor(f, v) })
		if vv := r.Variables(); len(vv) > 0 && vv[len(vv)-1].Id() != l.id {
			a.fail("user %d: NormalizeFor(%d, %v) does not have this variable last: %v", a.u, i, l, a.labels(vv))
		}
		a.keep(fmt.Sprintf("NormalizeFor(%d, %v)", i, l), &r, want, false)
	case 6: // policy
		if s.P(1, 6) {
			a.undefined(i)
			return
		}
		a.policy(i, f, m, a.varOf(i))
	case 7: // rearrange
		vars := slices.Clone(f.Variables())
		p := permutation(s, len(vars))
		arg := make([]ve.Variable, len(vars))
		for j, k := range p {
			arg[j] = vars[k]
		}
		want := newMfac(a.labels(arg))
		each(want.vars, func(k int, val map[int]int) {
			j := m.at(val)
			want.data[k], want.abs[k] = m.data[j], 0
		})
		a.do("Rearrange", func() { r = a.vs.Rearrange(f, arg) })
		a.reuse(arg)
		a.keep(fmt.Sprintf("Rearrange(%d, %v)", i, want.vars), &r, want, true)
	case 8: // normalise
		sum, scale := 0.0, 0.0
		for _, x := range m.data {
			sum += x
			scale += math.Abs(x)
		}
		if sum != sum || math.Abs(sum) < 1e-6*scale {
			return
		}
		want := newMfac(m.vars)
		for k, x := range m.data {
			want.data[k] = x / sum
			want.abs[k] = math.Abs(x/sum) * 1e4
		}
		a.do("Normalize", func() { r = a.vs.Normalize(f) })
		a.keep(fmt.Sprintf("Normalize(%d)", i), &r, want, false)
	case 9: // invert
		want := newMfac(m.vars)
		for k, x := range m.data {
			if x == 0 || math.IsInf(x, 0) {
				return
			}
			want.data[k], want.abs[k] = 1/x, math.Abs(1/x)
		}
		a.do("Invert", func() { r = a.vs.Invert(f) })
		a.keep(fmt.Sprintf("Invert(%d)", i), &r, want, false)
	case 10: // indices
		a.indices(f, m)
	case 11: // set
		k := s.W(len(m.data))
		val := map[int]int{}
		each(m.vars, func(j int, v map[int]int) {
			if j == k {
				for id, x := range v {
					val[id] = x
				}
			}
		})
		idx := make([]int, len(m.vars))
		for j, v := range m.vars {
			idx[j] = val[v.id]
		}
		x := float64(s.W(100))
		a.do("Set", func() { f.Set(idx, x) })
		a.s.Logf("user %d: Set(%d, %v, %v)", a.u, i, idx, x)
		m.data[k], m.abs[k] = x, x
	case 13: // wrong use is refused
		a.misuse(i)
	case 12: // the list of variables is one of the same variables
		for _, v := range f.Variables() {
			if l, ok := a.lab[v.Id()]; !ok || m.index(l.id) < 0 {
				a.fail("user %d: factor %d lists unknown variable %d", a.u, i, v.Id())
			}
		}
	}
}

// misuse performs an invalid call, which has to be refused.
func (a *algebra) misuse(i int) {
	s := a.s
	f, m := a.facs[i], a.model[i]
	// a variable that is not part of the factor
	var foreign *ve.Variable
	for j := range a.vars {
		if m.index(a.vars[j].Id()) < 0 {
			foreign = &a.vars[j]
		}
	}
	wrong := make([]int, len(m.vars)+1)
	if len(m.vars) > 0 && s.P(1, 2) {
		wrong = wrong[:len(m.vars)-1]
	}
	var what string
	var call func()
	switch k := s.W(13); {
	case k == 0:
		v := a.vars[s.W(len(a.vars))]
		what = fmt.Sprintf("AddVariable with id %d, which is in use", v.Id())
		call = func() { a.vs.AddVariable(v.Id(), ve.ChanceNode, 2) }
	case k == 1:
		what = "CreateFactor with wrong number of values"
		data := make([]float64, len(m.data)+1)
		if s.P(1, 2) {
			data = data[:len(m.data)-1]
		}
		vars := f.Variables()
		call = func() { a.vs.CreateFactor(vars, data) }
	case k == 2 && len(m.vars) > 0:
		v := a.varOf(i)
		x := a.lab[v.Id()].card + s.W(2)
		if s.P(1, 2) {
			x = -1
		}
		what = fmt.Sprintf("Restrict of a variable with %d outcomes to outcome %d", a.lab[v.Id()].card, x)
		call = func() { a.vs.Restrict(f, v, x) }
	case k == 3:
		what = "Index with wrong number of outcomes"
		call = func() { f.Index(wrong) }
	case k == 4:
		what = "Get with wrong number of outcomes"
		call = func() { f.Get(wrong) }
	case k == 5:
		what = "Outcomes with wrong number of outcomes"
		call = func() { f.Outcomes(0, wrong) }
	case k == 6:
		what = "IndexWithNoData with wrong number of outcomes"
		call = func() { f.IndexWithNoData(wrong) }
	case k == 7 && len(m.vars) > 0:
		row := make([]int, len(m.vars))
		what = "Row with wrong number of outcomes"
		call = func() { f.Row(row) }
	case foreign == nil || len(m.vars) == 0:
		return
	case k == 8:
		what = "Restrict with a variable not in the factor"
		call = func() { a.vs.Restrict(f, *foreign, 0) }
	case k == 9:
		what = "SumOut with a variable not in the factor"
		call = func() { a.vs.SumOut(f, *foreign) }
	case k == 10:
		what = "Marginal with a variable not in the factor"
		call = func() { a.vs.Marginal(f, *foreign) }
	case k == 11:
		what = "NormalizeFor or Policy with a variable not in the factor"
		norm := s.P(1, 2)
		call = func() {
			if norm {
				a.vs.NormalizeFor(f, *foreign)
			} else {
				a.vs.Policy(f, *foreign)
			}
		}
	default:
		what = "Rearrange with other variables"
		vars := slices.Clone(f.Variables())
		if s.P(1, 2) {
			vars[s.W(len(vars))] = *foreign
		} else {
			vars = append(vars, *foreign)
		}
		call = func() { a.vs.Rearrange(f, vars) }
	}
	s.Logf("user %d: %s", a.u, what)
	if p, _ := simrt.Guard(call); p == nil {
		a.fail("user %d: %s is not refused", a.u, what)
	}
}

func without(vars []label, l label) []label {
	var res []label
	for _, v := range vars {
		if v != l {
			res = append(res, v)
		}
	}
	return res
}

// indices: positions, rows and outcomes are consistent with the table.
func (a *algebra) indices(f *ve.Factor, m *mfac) {
	a.s.Logf("user %d: indices of a factor over %v", a.u, m.vars)
	back := make([]int, len(m.vars))
	idx := make([]int, len(m.vars))
	each(m.vars, func(k int, val map[int]int) {
		for j, v := range m.vars {
			idx[j] = val[v.id]
		}
		a.do("index", func() {
			if got := f.Index(idx); got != k {
				a.fail("user %d: Index(%v) of a factor over %v is %d, should be %d", a.u, idx, m.vars, got, k)
			}
			if got, ok := f.IndexWithNoData(idx); got != k || !ok {
				a.fail("user %d: IndexWithNoData(%v) of a factor over %v is %d, %v, should be %d", a.u, idx, m.vars, got, ok, k)
			}
			for j := range back {
				back[j] = 7 // whatever was there before
			}
			f.Outcomes(k, back)
			if !slices.Equal(back, idx) {
				a.fail("user %d: Outcomes(%d) of a factor over %v is %v, should be %v", a.u, k, m.vars, back, idx)
			}
			if got := f.Get(idx); got != m.data[k] && got == got {
				a.fail("user %d: Get(%v) of a factor over %v is %v, should be %v", a.u, idx, m.vars, got, m.data[k])
			}
		})
		if len(m.vars) == 0 {
			return
		}
		last := len(m.vars) - 1
		cols := m.vars[last].card
		a.do("row", func() {
			start, n := f.RowIndex(idx[:last])
			if start != k-k%cols || n != cols {
				a.fail("user %d: RowIndex(%v) of a factor over %v is %d, %d, should be %d, %d", a.u, idx[:last], m.vars, start, n, k-k%cols, cols)
			}
			row := f.Row(idx[:last])
			if len(row) != cols || row[k%cols] != m.data[k] && m.data[k] == m.data[k] {
				a.fail("user %d: Row(%v) of a factor over %v is %v", a.u, idx[:last], m.vars, row)
			}
		})
		if a.s.P(1, 4) {
			miss := slices.Clone(idx)
			miss[a.s.W(len(miss))] = -1
			a.do("missing", func() {
				if _, ok := f.IndexWithNoData(miss); ok {
					a.fail("user %d: IndexWithNoData(%v) does not report missing data", a.u, miss)
				}
			})
		}
	})
}

// engineUser builds engines from factors directly.
func engineUser(s *simrt.Sim, u int) {
	o := genOpt{maxChance: 6, maxDec: 3, maxUtil: 3, maxCard: 4, maxTable: 200, wide: s.P(1, 4)}
	if s.P(1, 2) {
		o.maxDec = 0
	}
	n := genNet(s, o)
	s.Logf("user %d: %s", u, n.describe())
	m := newRef(n)
	e := &engine{s: s, n: n, m: m, u: u, step: 1}
	if s.P(1, 2) {
		e.step, e.off = 1+s.W(4), s.W(30)
	}
	for k := 1 + s.W(3); k > 0; k-- {
		e.build()
		switch op := s.W(3); {
		case op == 2 && len(n.Decisions) > 0 && len(n.utilities()) > 0:
			e.policies()
		case op >= 1 && len(n.utilities()) > 0:
			e.utility()
		default:
			e.query()
		}
	}
}

type engine struct {
	s         *simrt.Sim
	n         *NetSpec
	m         *refModel
	u         int
	step, off int
	vs        *ve.Variables
	vars      map[int]ve.Variable // by position in the network
	eng       *ve.VE
	given     []ve.Factor
	data      [][]float64
}

func (e *engine) id(i int) int { return e.off + e.step*i }

// of is the position of a variable in the network.
func (e *engine) of(v ve.Variable) int {
	for i := range e.n.Vars {
		if x, ok := e.vars[i]; ok && x.Id() == v.Id() {
			return i
		}
	}
	e.s.Fail("engine", "user %d: result contains unknown variable %d", e.u, v.Id())
	return -1
}

func (e *engine) build() {
	n := e.n
	e.vars = map[int]ve.Variable{}
	e.given, e.data = nil, nil
	must(e.s, "engine", "building an engine", func() {
		e.vs = ve.NewVariables()
		for i, v := range n.Vars {
			if i == n.Total {
				continue
			}
			e.vars[i] = e.vs.AddVariable(e.id(i), v.Kind, uint16(len(v.Outcomes)))
		}
		deps := map[ve.Variable][]ve.Variable{}
		list := func(ids []int) []ve.Variable {
			var res []ve.Variable
			for _, i := range ids {
				res = append(res, e.vars[i])
			}
			return res
		}
		for _, i := range permutation(e.s, len(n.Vars)) {
			v := n.Vars[i]
			if i == n.Total {
				continue
			}
			if v.Kind == ve.DecisionNode {
				deps[e.vars[i]] = list(v.Given)
				continue
			}
			f := e.vs.CreateFactor(append(list(v.Given), e.vars[i]), slices.Clone(v.Table))
			if v.Kind == ve.ChanceNode {
				f = e.vs.NormalizeFor(&f, e.vars[i])
			}
			e.given = append(e.given, f)
			e.data = append(e.data, slices.Clone(f.Data()))
		}
		var weights []float64
		if n.Total >= 0 {
			// in the order of the utility variables
			for _, u := range n.utilities() {
				weights = append(weights, e.m.weight(u))
			}
		}
		e.eng = ve.New(e.vs, e.given, deps, weights)
	})
}

// evidence contains all decisions, as they are unsolved.
func (e *engine) evidence() (map[int]int, []ve.Evidence) {
	ev := genEvidence(e.s, e.n, e.n.nonUtility(), []int{3, 3, 3, 12}[e.s.W(4)])
	for _, d := range e.n.Decisions {
		if _, ok := ev[d]; !ok {
			ev[d] = e.s.W(e.n.card(d))
		}
	}
	var res []ve.Evidence
	for i := range e.n.Vars {
		if x, ok := ev[i]; ok {
			res = append(res, ve.Evidence{Variable: e.vars[i], Value: x})
		}
	}
	for i := len(res) - 1; i > 0; i-- {
		j := e.s.W(i + 1)
		res[i], res[j] = res[j], res[i]
	}
	return ev, res
}

// compare sums out what is not asked for (parents of unsolved decisions) and
// compares with the expected table.
func (e *engine) compare(what string, f *ve.Factor, query []int, want, scale []float64) {
	var pos []int
	for _, v := range f.Variables() {
		i := e.of(v)
		if contains(pos, i) {
			e.s.Fail("engine", "user %d: %s: variable %d twice in the result", e.u, what, i)
		}
		pos = append(pos, i)
	}
	for _, q := range query {
		if !contains(pos, q) {
			e.s.Fail("engine", "user %d: %s: variable %d is missing in the result", e.u, what, q)
		}
	}
	size := 1
	for _, p := range pos {
		size *= e.n.card(p)
	}
	if len(f.Data()) != size {
		e.s.Fail("engine", "user %d: %s: %d entries for variables %v", e.u, what, len(f.Data()), pos)
	}
	got := make([]float64, len(want))
	val := map[int]int{}
	for k, x := range f.Data() {
		r := k
		for j := len(pos) - 1; j >= 0; j-- {
			val[pos[j]] = r % e.n.card(pos[j])
			r /= e.n.card(pos[j])
		}
		i := 0
		for _, q := range query {
			i = i*e.n.card(q) + val[q]
		}
		got[i] += x
	}
	for i := range want {
		if !closeAbs(got[i], want[i], tol*scale[i]) {
			e.s.Fail("engine", "user %d: %s: entry %d for variables %v is %v, should be %v", e.u, what, i, query, got[i], want[i])
		}
	}
	// factors belong to the caller
	for i, f := range e.given {
		if !slices.Equal(f.Data(), e.data[i]) {
			e.s.Fail("engine", "user %d: %s changed factor %d of the caller from %v to %v", e.u, what, i, e.data[i], f.Data())
		}
	}
}

func (e *engine) query() {
	ev, evidence := e.evidence()
	q := pickQuery(e.s, e.n, ev, 3, 2000)
	var vars []ve.Variable
	for _, i := range q {
		vars = append(vars, e.vars[i])
	}
	var f *ve.Factor
	what := fmt.Sprintf("SolveQuery(%v, %v)", ev, q)
	e.s.Logf("user %d: %s", e.u, what)
	must(e.s, "engine", what, func() { f = e.eng.SolveQuery(evidence, vars) })
	joint := e.m.prob(nil, nil, ev, q)
	pe := 0.0
	for _, x := range joint {
		pe += x
	}
	scale := make([]float64, len(joint))
	for i := range scale {
		scale[i] = pe
	}
	e.compare(what, f, q, joint, scale)
}

func (e *engine) utility() {
	ev, evidence := e.evidence()
	q := pickQuery(e.s, e.n, ev, 2, 300)
	var vars []ve.Variable
	for _, i := range q {
		vars = append(vars, e.vars[i])
	}
	u := -1
	var uv *ve.Variable
	us := e.n.utilities()
	if e.s.P(1, 2) {
		u = us[e.s.W(len(us))]
		v := e.vars[u]
		uv = &v
	}
	var f *ve.Factor
	what := fmt.Sprintf("SolveUtility(%v, %v, %d)", ev, q, u)
	e.s.Logf("user %d: %s", e.u, what)
	must(e.s, "engine", what, func() { f = e.eng.SolveUtility(evidence, vars, uv) })
	want, scale := e.m.util(nil, nil, ev, q, u)
	e.compare(what, f, q, want, scale)
}

func (e *engine) policies() {
	e.s.Logf("user %d: SolvePolicies", e.u)
	var pol map[ve.Variable][2]*ve.Factor
	must(e.s, "engine", "SolvePolicies", func() { pol = e.eng.SolvePolicies(false) })
	res := map[int]*rpol{}
	for _, d := range e.n.Decisions {
		p, ok := pol[e.vars[d]]
		if !ok {
			e.s.Fail("engine", "user %d: no policy for decision %d", e.u, d)
		}
		f := p[1]
		vars := f.Variables()
		if len(vars) == 0 || e.of(vars[len(vars)-1]) != d {
			e.s.Fail("engine", "user %d: the policy of decision %d does not have it as last variable", e.u, d)
		}
		r := &rpol{d: d, table: f.Data()}
		size := e.n.card(d)
		for _, v := range vars[:len(vars)-1] {
			r.given = append(r.given, e.of(v))
			size *= e.n.card(e.of(v))
		}
		if len(f.Data()) != size {
			e.s.Fail("engine", "user %d: the policy of decision %d has %d entries, want %d", e.u, d, len(f.Data()), size)
		}
		res[d] = r
	}
	if len(pol) != len(res) {
		e.s.Fail("engine", "user %d: %d policies for %d decisions", e.u, len(pol), len(res))
	}
	checkPolicies(e.s, e.n, e.m, e.m.optimum(), res)
}
