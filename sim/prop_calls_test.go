package verifsim

import (
	"bytes"
	"fmt"
	"maps"
	"math"
	"slices"
	"strings"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/internal/verifsim/simos"
	"github.com/mlange-42/bbn/internal/verifsim/simrt"
	"github.com/mlange-42/bbn/ve"
)

func init() {
	register(&prop{id: "C05", run: runHistories})
	register(&prop{id: "C06", run: runIsolation})
}

// kept is a result a caller holds on to: it must not change any more.
type kept struct {
	what string
	data []float64
	copy []float64
}

// C05: calls on a network do not interfere with each other: no call changes
// the network, its arguments, or results handed out before, failed calls
// change nothing, and what callers do with results stays with them.
func runHistories(s *simrt.Sim) {
	o := genOpt{maxChance: 5, maxDec: 2, maxUtil: 3, maxCard: 4, maxTable: 100, partial: true, logic: s.P(1, 4), names: s.Pick(3, 1, 1)}
	if s.P(1, 3) {
		o.maxDec, o.maxUtil = 0, 0
	}
	n := genNet(s, o.larger(s, 25))
	if len(n.utilities()) == 0 && len(n.Decisions) > 0 {
		n = genNet(s, genOpt{maxChance: 6, maxCard: 4, maxTable: 100})
	}
	s.Logf("%s", n.describe())
	net := construct(s, n, "construct")
	want := n
	m := newRef(want)
	pols := map[int]*rpol{}
	var held []kept
	var tr *bbn.Trainer
	var seen []obs
	hold := func(what string, d []float64) {
		held = append(held, kept{what, d, append([]float64{}, d...)})
	}
	spoil := func(d []float64) {
		for i := range d {
			d[i] = 777
		}
	}
	ops := 2 + s.W(8)
	if s.P(1, 50) {
		ops = 15 + s.W(60) // long histories
	}
	var facs []heldFactor
	for i := 0; i < ops; i++ {
		ev := genEvidence(s, n, n.nonUtility(), []int{3, 3, 3, 12}[s.W(4)])
		for _, d := range n.Decisions {
			if _, ok := ev[d]; !ok && len(pols) == 0 {
				ev[d] = s.W(n.card(d))
			}
		}
		query := pickQuery(s, n, ev, 2, 200)
		names := make([]string, len(query))
		for k, q := range query {
			names[k] = n.Vars[q].Name
		}
		evN := n.evNames(ev)
		ignore := s.P(1, 3)
		us := n.utilities()
		switch op := s.Pick(4, 3, 3, 2, 2, 3, 2, 1, 1); op {
		case 8: // work with factors obtained earlier
			if len(facs) == 0 {
				continue
			}
			facs[s.W(len(facs))].use(s, n, net)
		case 0: // query
			checkQuery(s, want, m, net, pols, ev, query, ignore, "call-query")
			s.Logf("once more, keeping or spoiling the results")
			var marg map[string][]float64
			var f *ve.Factor
			var err error
			must(s, "call-panic", "SolveQuery", func() { marg, f, err = net.SolveQuery(evN, names, ignore) })
			if err != nil {
				s.Fail("call-query", "the same query fails the second time: %v", err)
			}
			checkArgs(s, n, ev, evN, query, names)
			if s.P(1, 2) {
				for _, q := range names {
					spoil(marg[q])
				}
				spoil(f.Data())
			} else {
				for _, q := range names {
					hold("marginal of "+q, marg[q])
				}
				hold("factor of a query", f.Data())
				if joint := m.prob(pols, skipped(ev, ignore), ev, query); len(joint) == len(f.Data()) && len(query) > 0 {
					facs = append(facs, heldFactor{f: f, query: query, joint: joint})
				}
			}
		case 1: // utility
			if len(us) == 0 {
				continue
			}
			u, uname := -1, ""
			if s.P(2, 3) {
				u = us[s.W(len(us))]
				uname = n.Vars[u].Name
			}
			if len(pols) != len(n.Decisions) {
				query, names = nil, []string{}
			} else if u >= 0 && s.P(1, 2) {
				// exactly the parents: nothing to eliminate
				query, names = nil, []string{}
				for _, g := range n.Vars[u].Given {
					if _, ok := ev[g]; !ok {
						query = append(query, g)
						names = append(names, n.Vars[g].Name)
					}
				}
			}
			checkUtility(s, want, m, net, pols, ev, query, u, uname, ignore)
			var f *ve.Factor
			var err error
			must(s, "call-panic", "SolveUtility", func() { f, err = net.SolveUtility(evN, names, uname, ignore) })
			if err != nil {
				s.Fail("call-utility", "the same utility query fails the second time: %v", err)
			}
			checkArgs(s, n, ev, evN, query, names)
			if s.P(1, 2) {
				spoil(f.Data())
			} else {
				hold("utility factor", f.Data())
			}
		case 2: // policies
			if len(n.Decisions) == 0 {
				continue
			}
			var pol map[string]bbn.Factor
			pols, pol = solvePolicies(s, n, net, s.P(1, 2), "call-policies")
			cp := map[int]*rpol{}
			for d, p := range pols {
				cp[d] = &rpol{d: d, given: append([]int{}, p.given...), table: append([]float64{}, p.table...)}
			}
			pols = cp
			if len(us) > 0 {
				checkPolicies(s, want, m, m.optimum(), pols)
			}
			for _, name := range sortedNames(pol) {
				f := pol[name]
				if s.P(1, 2) {
					spoil(f.Table)
					for k := range f.Given {
						f.Given[k] = "spoiled"
					}
				} else {
					hold("policy of "+name, f.Table)
				}
			}
		case 3: // calls that must fail
			badCall(s, n, net, evN, names)
		case 4: // evidence, at any time
			if len(ev) == 0 {
				continue
			}
			for _, v := range n.nonUtility() {
				o, ok := ev[v]
				if !ok {
					continue
				}
				var p []float64
				var err error
				must(s, "call-panic", "ToEvidence", func() { p, err = net.ToEvidence(n.Vars[v].Name, n.Vars[v].Outcomes[o]) })
				if err != nil {
					s.Fail("call-evidence", "ToEvidence(%q, %q) failed: %v", n.Vars[v].Name, n.Vars[v].Outcomes[o], err)
				}
				if fmt.Sprint(p) != fmt.Sprint(onehot(o, n.card(v))) {
					s.Fail("call-evidence", "ToEvidence(%q, %q) is %v", n.Vars[v].Name, n.Vars[v].Outcomes[o], p)
				}
				if s.P(1, 2) {
					spoil(p)
				} else {
					hold(fmt.Sprintf("ToEvidence(%q, %q)", n.Vars[v].Name, n.Vars[v].Outcomes[o]), p)
				}
			}
			s.Logf("ToEvidence(%v)", evN)
		case 5: // rows of tables
			v := s.W(len(n.Vars))
			if want.Vars[v].Table == nil || v == n.Total {
				continue
			}
			val := make([]int, len(n.Vars[v].Given))
			row := 0
			missing := false
			for k, g := range n.Vars[v].Given {
				val[k] = s.W(n.card(g))
				row = row*n.card(g) + val[k]
				if s.P(1, 20) {
					missing = true
					val[k] = -1
				}
			}
			var r []float64
			var ok bool
			must(s, "call-panic", fmt.Sprintf("Row(%v) of %q", val, n.Vars[v].Name), func() { r, ok = net.Variables()[v].Factor.Row(val) })
			if ok == missing {
				s.Fail("call-row", "Row(%v) of %q returns %v", val, n.Vars[v].Name, ok)
			}
			if ok {
				c := n.card(v)
				if fmt.Sprint(r) != fmt.Sprint(want.Vars[v].Table[row*c:(row+1)*c]) {
					s.Fail("call-row", "Row(%v) of %q is %v, the table is %v", val, n.Vars[v].Name, r, want.Vars[v].Table)
				}
			}
			s.Logf("Row(%v) of %q", val, n.Vars[v].Name)
			if s.P(1, 6) {
				// a wrong number of indices: no row
				bad := append(append([]int{}, val...), 0)
				if len(val) > 0 && s.P(1, 2) {
					bad = val[s.W(len(val))+1:]
				}
				ok = false
				simrt.Guard(func() { _, ok = net.Variables()[v].Factor.Row(bad) })
				if ok {
					s.Fail("call-row", "Row(%v) of %q with %d parents is not refused", bad, n.Vars[v].Name, len(val))
				}
			}
		case 6: // export
			var y []byte
			var err error
			must(s, "call-panic", "ToYAML", func() { y, err = bbn.ToYAML(net) })
			if err != nil {
				s.Fail("call-export", "ToYAML failed: %v", err)
			}
			if msg := checkYAML(y, want, 0); msg != "" {
				s.Fail("call-export", "ToYAML: %s", msg)
			}
			for k := range y {
				y[k] = 'x'
			}
			s.Logf("ToYAML")
		case 7: // training in between
			if n.Total >= 0 && s.P(1, 2) {
				continue
			}
			if tr == nil {
				t := bbn.NewTrainer(net)
				tr = &t
			}
			data := genData(s, n)
			if s.P(1, 2) {
				data = n.cover(s, data)
			}
			if len(data) > 60 {
				data = data[:60]
			}
			must(s, "call-panic", "AddSample", func() {
				for _, o := range data {
					seen = append(seen, o)
					tr.AddSample(o.x, o.u)
				}
			})
			next, _, _ := n.train(seen)
			var err error
			must(s, "call-panic", "UpdateNetwork", func() { _, err = tr.UpdateNetwork() })
			s.Logf("UpdateNetwork after %d observations -> %v", len(seen), err)
			if (err == nil) != (next != nil) {
				s.Fail("call-train", "UpdateNetwork returns %v", err)
			}
			if next != nil {
				if msg := checkNet(net, next, 1e-9); msg != "" {
					s.Fail("call-train", "after training: %s", msg)
				}
				// continue with the exact values
				want = next.clone()
				for k, v := range net.Variables() {
					if want.Vars[k].Table != nil {
						want.Vars[k].Table = append([]float64{}, v.Factor.Table...)
					}
				}
				m = newRef(want)
				if len(n.Decisions) > 0 && len(us) > 0 {
					pols, _ = solvePolicies(s, want, net, true, "call-policies")
					for d, p := range pols {
						pols[d] = &rpol{d: d, given: p.given, table: append([]float64{}, p.table...)}
					}
				}
			}
		}
		if msg := checkNet(net, want, 0); msg != "" {
			s.Fail("call-changed-network", "the network has changed: %s", msg)
		}
		for _, h := range held {
			for k := range h.copy {
				if h.data[k] != h.copy[k] && !(math.IsNaN(h.data[k]) && math.IsNaN(h.copy[k])) {
					s.Fail("call-changed-result", "a result handed out before (%s) changed from %v to %v", h.what, h.copy, h.data)
				}
			}
		}
	}
}

// skipped lists the decisions whose policies are ignored.
func skipped(ev map[int]int, ignore bool) map[int]int {
	skip := map[int]int{}
	if ignore {
		for d := range ev {
			skip[d] = 1
		}
	}
	return skip
}

// heldFactor is a factor returned by an earlier query.
type heldFactor struct {
	f     *ve.Factor
	query []int
	joint []float64 // P(query, evidence)
}

// use derives marginals and other arrangements from the factor, whatever was called since.
func (h heldFactor) use(s *simrt.Sim, n *NetSpec, net *bbn.Network) {
	total := 0.0
	for _, x := range h.joint {
		total += x
	}
	marg := func(k int) []float64 {
		q := h.query[k]
		res := make([]float64, n.card(q))
		inner := m1(n, h.query[k+1:])
		for i, x := range h.joint {
			res[i/inner%n.card(q)] += x
		}
		return res
	}
	same := func(what string, got, want []float64, scale float64) {
		if len(got) != len(want) {
			s.Fail("call-later", "%s: %d entries, want %d", what, len(got), len(want))
		}
		for i := range want {
			if !closeAbs(got[i], want[i], tol*scale) {
				s.Fail("call-later", "%s: entry %d is %v, should be %v", what, i, got[i], want[i])
			}
		}
	}
	names := make([]string, len(h.query))
	for k, q := range h.query {
		names[k] = n.Vars[q].Name
	}
	k := s.W(len(h.query))
	s.Logf("use of a factor for %q, obtained earlier", names)
	must(s, "call-panic", "use of a factor obtained earlier", func() {
		m := net.Marginal(h.f, names[k])
		same("Marginal for "+names[k], m.Data(), marg(k), total)
		if total > 0 {
			m = net.Normalize(&m)
			want := marg(k)
			for i := range want {
				want[i] /= total
			}
			same("Normalize of the marginal for "+names[k], m.Data(), want, 1)
		}
		full := net.Rearrange(h.f, names)
		same("Rearrange", full.Data(), h.joint, total)
		// some of the variables: the others stay in between
		p := permutation(s, len(names))[:1+s.W(len(names))]
		var some []string
		for _, x := range p {
			some = append(some, names[x])
		}
		r := net.Rearrange(h.f, some)
		first, last := p[0], p[len(p)-1]
		a, b := make([]float64, n.card(h.query[first])), make([]float64, n.card(h.query[last]))
		for i, x := range r.Data() {
			a[i/(len(r.Data())/len(a))] += x
			b[i%len(b)] += x
		}
		same(fmt.Sprintf("last variable of Rearrange(%q)", some), b, marg(last), total)
		if len(p) > 1 {
			same(fmt.Sprintf("first variable of Rearrange(%q)", some), a, marg(first), total)
		}
		back := net.Rearrange(&r, names)
		same(fmt.Sprintf("Rearrange(%q) and back", some), back.Data(), h.joint, total)
		// what happens to the results stays with the caller
		one := net.Marginal(h.f, names[k])
		norm := net.Normalize(h.f)
		for _, d := range [][]float64{m.Data(), full.Data(), r.Data(), back.Data(), one.Data(), norm.Data()} {
			for i := range d {
				d[i] = 777
			}
		}
	})
}

// checkArgs: arguments of a call stay as they are.
func checkArgs(s *simrt.Sim, n *NetSpec, ev map[int]int, evN map[string]string, query []int, names []string) {
	w := n.evNames(ev)
	if len(w) != len(evN) {
		s.Fail("call-changed-arguments", "the evidence changed from %v to %v", w, evN)
	}
	for k, v := range w {
		if evN[k] != v {
			s.Fail("call-changed-arguments", "the evidence changed from %v to %v", w, evN)
		}
	}
	for i, q := range query {
		if names[i] != n.Vars[q].Name {
			s.Fail("call-changed-arguments", "the query changed to %q", names)
		}
	}
}

// badCall performs a call that must be refused.
func badCall(s *simrt.Sim, n *NetSpec, net *bbn.Network, evN map[string]string, names []string) {
	us := n.utilities()
	nu := n.nonUtility()
	// outcome draws a variable and a text that is not one of its outcomes.
	outcome := func() (string, string) {
		v := n.Vars[nu[s.W(len(nu))]]
		text := []string{"no such outcome", "", " ", v.Outcomes[0] + " ", strings.ToUpper(v.Outcomes[0]), "0", v.Name}[s.Pick(3, 2, 1, 1, 1, 1, 1)]
		if slices.Contains(v.Outcomes, text) {
			text = "no such outcome"
		}
		return v.Name, text
	}
	var before map[string]string
	var asked []string
	call := func(q []string) {
		before, asked, names = maps.Clone(evN), slices.Clone(q), q
	}
	// variable draws a text that is not the name of a variable.
	variable := func() string {
		v := n.Vars[s.W(len(n.Vars))].Name
		text := []string{"no such variable", " ", v + " ", strings.ToLower(v), strings.ToUpper(v)}[s.Pick(3, 1, 1, 1, 1)]
		if n.index(text) >= 0 {
			text = "no such variable"
		}
		return text
	}
	var err error
	what := ""
	must(s, "call-panic", "a call with invalid arguments", func() {
		switch s.W(13) {
		case 8:
			what = "SolveQuery for a variable that is part of the evidence"
			v := n.Vars[nu[s.W(len(nu))]]
			evN[v.Name] = v.Outcomes[s.W(len(v.Outcomes))]
			call([]string{v.Name})
			_, _, err = net.SolveQuery(evN, names, s.P(1, 2))
		case 9:
			what = "SolveUtility for a variable that is not a utility node"
			call(names)
			_, err = net.SolveUtility(evN, names, n.Vars[nu[s.W(len(nu))]].Name, s.P(1, 2))
		case 10:
			what = "SolveUtility with an unknown query variable"
			call(names)
			_, err = net.SolveUtility(evN, append(names, variable()), "", false)
		case 11:
			what = "SolveUtility with an unknown evidence variable"
			evN[variable()] = "x"
			call(names)
			_, err = net.SolveUtility(evN, names, "", s.P(1, 2))
		case 12:
			what = "SolveUtility with an unknown outcome"
			v, o := outcome()
			evN[v] = o
			call(names)
			_, err = net.SolveUtility(evN, names, "", s.P(1, 2))
		case 0:
			what = "SolveQuery with an unknown evidence variable"
			evN[variable()] = "x"
			call(names)
			_, _, err = net.SolveQuery(evN, names, false)
		case 1:
			what = "SolveQuery with an unknown outcome"
			v, o := outcome()
			evN[v] = o
			call(names)
			_, _, err = net.SolveQuery(evN, names, s.P(1, 2))
		case 2:
			what = "SolveQuery with an unknown query variable"
			call(names)
			_, _, err = net.SolveQuery(evN, append(names, variable()), false)
		case 3:
			what = "SolveUtility with an unknown utility variable"
			if len(us) == 0 {
				err = fmt.Errorf("skipped")
				return
			}
			call(names)
			_, err = net.SolveUtility(evN, nil, variable(), false)
		case 4:
			what = "ToEvidence with an unknown variable"
			_, err = net.ToEvidence(variable(), "x")
		case 5:
			what = "ToEvidence with an unknown outcome"
			_, err = net.ToEvidence(outcome())
		case 6:
			what = "SolveQuery with evidence for a utility node"
			if len(us) == 0 {
				err = fmt.Errorf("skipped")
				return
			}
			evN[n.Vars[us[s.W(len(us))]].Name] = "util"
			call(names)
			_, _, err = net.SolveQuery(evN, nil, false)
		case 7:
			what = "SolveQuery for a utility node"
			if len(us) == 0 {
				err = fmt.Errorf("skipped")
				return
			}
			call(names)
			_, _, err = net.SolveQuery(evN, []string{n.Vars[us[s.W(len(us))]].Name}, false)
		}
	})
	s.Logf("%s -> %v", what, err)
	if err == nil {
		s.Fail("call-accepted", "%s succeeds", what)
	}
	if before != nil && (!maps.Equal(before, evN) || !slices.Equal(asked, names)) {
		s.Fail("call-changed-arguments", "%s (%v) changes its arguments from %q and %q to %q and %q", what, err, before, asked, evN, names)
	}
}

// C06: users of different networks do not disturb each other, however their
// work is interleaved.
func runIsolation(s *simrt.Sim) {
	users := 2 + s.W(3)
	type user struct {
		n      *NetSpec
		file   string
		script []step
		data   []obs
		train  bool
		verify bool
		alone  *transcript
		got    *transcript
	}
	us := make([]*user, users)
	var files [][]byte
	for i := range us {
		u := &user{}
		o := genOpt{maxChance: 4, maxDec: 1, maxUtil: 2, maxCard: 3, maxTable: 40, logic: s.P(2, 3)}
		u.n = genNet(s, o.larger(s, 40))
		if len(u.n.utilities()) == 0 && len(u.n.Decisions) > 0 {
			u.n = genNet(s, genOpt{maxChance: 4, maxCard: 3, maxTable: 40, logic: true})
		}
		if i > 0 && s.P(1, 4) {
			u.n = us[0].n // same file, different network objects
		}
		u.script = genScript(s, u.n)
		u.verify = s.P(1, 3)
		u.file = fmt.Sprintf("net%d.yml", i)
		y := u.n.YAML(s.W(8))
		if !u.n.hasLogic() && s.P(1, 4) {
			u.file = fmt.Sprintf("net%d.xml", i)
			y = u.n.XML(s.W(8))
		}
		simos.Cur.Put(u.file, y)
		files = append(files, y)
		if s.P(1, 3) {
			u.train = true
			u.data = u.n.cover(s, genData(s, u.n))
			if len(u.data) > 80 {
				u.train = false
			}
		}
		s.Logf("user %d: %s", i, u.n.describe())
		us[i] = u
	}
	work := func(u *user, t *transcript) {
		var net *bbn.Network
		var err error
		must(s, "isolation-panic", "loading", func() { net, err = bbn.FromFile(u.file) })
		if err != nil {
			t.text = append(t.text, "load: "+err.Error())
			return
		}
		if msg := checkNet(net, u.n, 1e-12); msg != "" {
			s.Fail("isolation", "a user loads something else than its file: %s", msg)
		}
		for i, v := range net.Variables() {
			t.text = append(t.text, fmt.Sprint(i, v.Name, v.Outcomes, v.Factor.Given, v.Factor.Table))
		}
		if u.verify {
			// not only the same as alone, but right
			m := newRef(u.n)
			pols := map[int]*rpol{}
			if len(u.n.Decisions) > 0 {
				pols, _ = solvePolicies(s, u.n, net, len(u.script)%2 == 0, "isolation")
				checkPolicies(s, u.n, m, m.optimum(), pols)
			}
			for _, st := range u.script {
				switch st.op {
				case 0:
					checkQuery(s, u.n, m, net, pols, st.ev, st.q, st.ignore, "isolation")
				case 1:
					checkUtility(s, u.n, m, net, pols, st.ev, st.q, u.n.index(st.u), st.u, st.ignore)
				}
			}
		}
		must(s, "isolation-panic", "solving", func() { t.play(u.n, net, u.script) })
		if u.train {
			must(s, "isolation-panic", "training", func() {
				tr := bbn.NewTrainer(net)
				for _, o := range u.data {
					tr.AddSample(o.x, o.u)
				}
				_, err := tr.UpdateNetwork()
				t.text = append(t.text, fmt.Sprint("train ", err))
				t.play(u.n, net, u.script)
			})
		}
	}
	alone := func() {
		for _, u := range us {
			u.alone = &transcript{}
			work(u, u.alone)
		}
	}
	first := s.P(3, 4)
	if first {
		alone()
	}
	for _, u := range us {
		u.got = &transcript{}
	}
	s.Logf("--- concurrently")
	for i, u := range us {
		s.Spawn(fmt.Sprintf("user %d", i), func() { work(u, u.got) })
	}
	gap := []int{5, 50, 500, 5000}[s.W(4)]
	s.RunTasks(1+s.W(60), gap)
	if !first {
		s.Logf("--- alone")
		alone()
	}
	for i, u := range us {
		if msg := u.alone.diff(u.got); msg != "" {
			s.Fail("isolation", "user %d gets different results when others work at the same time: %s", i, msg)
		}
	}
	// and the loaded files are as they were
	for i, u := range us {
		d, _ := simos.Cur.Get(u.file)
		if !bytes.Equal(d, files[i]) {
			s.Fail("isolation", "the file of user %d changed", i)
		}
	}
}
