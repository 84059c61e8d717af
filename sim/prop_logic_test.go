package verifsim

import (
	"fmt"
	"strings"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/internal/verifsim/simrt"
	"github.com/mlange-42/bbn/logic"
)

func init() {
	register(&prop{id: "C14", run: runLogic})
}

// constructors of operators with arguments; the others have none.
var plainOps = map[string]func() logic.Factor{
	"not": logic.Not, "and": logic.And, "not-and": logic.NotAnd, "and-not": logic.AndNot, "not-and-not": logic.NotAndNot,
	"or": logic.Or, "not-or": logic.NotOr, "or-not": logic.OrNot, "not-or-not": logic.NotOrNot, "xor": logic.XOr,
	"cond": logic.Cond, "not-cond": logic.NotCond, "cond-not": logic.CondNot, "not-cond-not": logic.NotCondNot, "bicond": logic.BiCond,
	"if-then": logic.IfThen, "if-not-then": logic.IfNotThen, "if-then-not": logic.IfThenNot, "if-not-then-not": logic.IfNotThenNot,
	"equals": logic.Equals, "equals-not": logic.EqualsNot, "count-true": logic.CountTrue, "count-false": logic.CountFalse, "bits": logic.Bits,
}
var numOps = map[string]func(int) logic.Factor{
	"count-is": logic.CountIs, "count-less": logic.CountLess, "count-greater": logic.CountGreater,
	"given": logic.Given, "given-not": logic.GivenNot, "given-excl": logic.GivenExcl,
}
var outOps = map[string]func(int, int) logic.Factor{
	"outcome-is": logic.OutcomeIs, "outcome-is-not": logic.OutcomeIsNot, "outcome-less": logic.OutcomeLess, "outcome-greater": logic.OutcomeGreater,
}

func (l *logicDef) construct(args []int) logic.Factor {
	if f, ok := plainOps[l.name]; ok {
		return f()
	}
	if f, ok := numOps[l.name]; ok {
		return f(args[0])
	}
	if f, ok := outOps[l.name]; ok {
		return f(args[0], args[1])
	}
	return logic.OutcomeEither(append([]int{}, args[:len(args)-1]...), args[len(args)-1])
}

// operator is an operator held by a user.
type operator struct {
	def   *logicDef
	f     logic.Factor
	args  []int
	given int
	valid bool // configured
}

// C14: logic operators mean what is documented, however they are obtained,
// configured, used and interleaved with other users.
func runLogic(s *simrt.Sim) {
	users := 1 + s.W(4)
	var hot []*logicDef // few operators, so that users meet
	for i := 0; i < 1+s.W(3); i++ {
		hot = append(hot, &logicDefs[s.W(len(logicDefs))])
	}
	for u := 0; u < users; u++ {
		s.Spawn(fmt.Sprintf("user %d", u), func() {
			if s.P(1, 4) {
				logicNetworks(s, u)
			} else {
				logicUser(s, u, hot)
			}
		})
	}
	s.RunTasks(s.W(40), []int{3, 20, 100}[s.W(3)])
}

// draw chooses parents and arguments for the operator.
func (o *operator) draw(s *simrt.Sim) {
	o.given = o.def.min
	if o.def.max > o.def.min {
		o.given += s.W(o.def.max - o.def.min + 1)
		if s.P(1, 12) {
			// many parents; tables of the bits operator are quadratic
			if o.def.name == "bits" {
				o.given = 6 + s.W(2)
			} else {
				o.given = 7 + s.W(6)
			}
		}
	}
	o.args = o.def.drawArgs(s, o.given, 1+s.W(8))
}

func logicUser(s *simrt.Sim, u int, hot []*logicDef) {
	var ops []*operator
	steps := 3 + s.W(12)
	for i := 0; i < steps; i++ {
		if len(ops) == 0 || s.P(1, 3) {
			o := &operator{def: hot[s.W(len(hot))]}
			o.draw(s)
			must(s, "logic-panic", "obtaining "+o.def.name, func() {
				if s.P(1, 2) {
					args := append([]int{}, o.args...)
					o.f = o.def.construct(args)
					for k := range args {
						args[k] = s.W(2) // belongs to the caller
					}
					o.valid = true
					return
				}
				f, ok := logic.Get(o.def.name)
				if !ok {
					s.Fail("logic-missing", "operator %q is not known", o.def.name)
				}
				o.f = f
				o.valid = o.def.args == 0
			})
			s.Logf("user %d obtains %s", u, o.def.expr(o.args))
			ops = append(ops, o)
			continue
		}
		o := ops[s.W(len(ops))]
		switch s.Pick(6, 8, 2, 2, 2, 1) {
		case 0: // configure
			o.draw(s)
			args := append([]int{}, o.args...)
			var err error
			must(s, "logic-panic", "SetArgs of "+o.def.name, func() { err = o.f.SetArgs(args...) })
			s.Logf("user %d: SetArgs(%v) of %s -> %v", u, o.args, o.def.name, err)
			if err != nil {
				s.Fail("logic-args", "SetArgs(%v) of %q failed: %v", o.args, o.def.name, err)
			}
			for k := range args {
				args[k] = s.W(2) // belongs to the caller
			}
			o.valid = true
		case 1: // use
			if !o.valid {
				continue
			}
			var t []float64
			var err error
			must(s, "logic-panic", fmt.Sprintf("Table(%d) of %s", o.given, o.def.expr(o.args)), func() { t, err = o.f.Table(o.given) })
			s.Logf("user %d: Table(%d) of %s", u, o.given, o.def.expr(o.args))
			if err != nil {
				s.Fail("logic-table", "Table(%d) of %s failed: %v", o.given, o.def.expr(o.args), err)
			}
			want := o.def.table(o.given, o.args)
			if fmt.Sprint(t) != fmt.Sprint(want) {
				s.Fail("logic-table", "Table(%d) of %s is %v, should be %v", o.given, o.def.expr(o.args), t, want)
			}
			for k := range t {
				t[k] = 9 // belongs to the caller
			}
		case 2: // wrong number of arguments: refused without effect
			var k int
			switch o.def.args {
			case 4:
				k = s.W(2)
			case 3:
				k = []int{0, 1, 3, 4}[s.W(4)]
			case 0:
				k = 1 + s.W(3)
			default:
				k = []int{0, 2, 3}[s.W(3)]
			}
			bad := make([]int, k)
			for i := range bad {
				bad[i] = s.W(3)
			}
			var err error
			must(s, "logic-panic", "SetArgs of "+o.def.name, func() { err = o.f.SetArgs(bad...) })
			s.Logf("user %d: SetArgs(%v) of %s -> %v", u, bad, o.def.name, err)
			if err == nil {
				s.Fail("logic-args", "SetArgs of %q accepts %d arguments", o.def.name, k)
			}
			s.Probe("refused configuration")
		case 3: // wrong number of parents
			if !o.valid || o.def.max != o.def.min {
				continue
			}
			g := s.W(o.def.max + 3)
			if g == o.def.max {
				g++
			}
			if s.P(1, 4) {
				g = []int{-1, -2, 63, 64, 65, 1 << 40}[s.W(6)]
			}
			var err error
			must(s, "logic-panic", "Table of "+o.def.name, func() { _, err = o.f.Table(g) })
			s.Logf("user %d: Table(%d) of %s -> %v", u, g, o.def.expr(o.args), err)
			if err == nil {
				s.Fail("logic-arity", "Table of %q accepts %d parents", o.def.name, g)
			}
		case 4: // invalid arguments
			if o.def.args < 2 {
				continue
			}
			o.draw(s)
			args := append([]int{}, o.args...)
			n := len(args) - 1
			over := o.given // parent index
			if o.def.args >= 3 {
				over = args[n]
				if o.def.name == "outcome-less" || o.def.name == "outcome-greater" {
					over++ // the end of the range makes sense for comparisons
				}
				n--
			}
			i := s.W(n + 1)
			if s.P(1, 2) {
				args[i] = -1 - s.W(3)
			} else {
				args[i] = over + s.W(3)
			}
			if o.def.args >= 3 && s.P(1, 4) {
				args[len(args)-1] = -1 - s.W(3)
			}
			var err, err2 error
			must(s, "logic-panic", fmt.Sprintf("SetArgs(%v) of %s", args, o.def.name), func() { err = o.f.SetArgs(args...) })
			if err == nil {
				must(s, "logic-panic", fmt.Sprintf("Table(%d) of %s", o.given, o.def.expr(args)), func() { _, err2 = o.f.Table(o.given) })
			}
			s.Logf("user %d: SetArgs(%v) of %s -> %v, %v", u, args, o.def.name, err, err2)
			if err == nil && err2 == nil {
				s.Fail("logic-args", "%s is accepted for %d parents", o.def.expr(args), o.given)
			}
			s.Probe("invalid arguments")
			o.valid = false
		case 5: // tables that can't exist
			args, given := append([]int{}, o.args...), o.given
			if o.def.args >= 3 {
				args[len(args)-1] = 1 << (48 + s.W(15))
			} else if o.def.max > o.def.min {
				given = []int{-1, -2, -64, 45, 46, 48, 62, 63, 64, 65, 128, 1 << 40}[s.W(12)]
			} else {
				continue
			}
			var err, err2 error
			must(s, "logic-panic", fmt.Sprintf("SetArgs(%v) of %s", args, o.def.name), func() { err = o.f.SetArgs(args...) })
			if err == nil {
				must(s, "logic-panic", fmt.Sprintf("Table(%d) of %s", given, o.def.expr(args)), func() { _, err2 = o.f.Table(given) })
			}
			s.Logf("user %d: SetArgs(%v) of %s, Table(%d) -> %v, %v", u, args, o.def.name, given, err, err2)
			if err == nil && err2 == nil {
				s.Fail("logic-args", "%s is accepted for %d parents", o.def.expr(args), given)
			}
			s.Probe("impossible table")
			o.valid = false
		}
	}
}

// logicNetworks loads networks with logic nodes.
func logicNetworks(s *simrt.Sim, u int) {
	for i := 0; i < 1+s.W(3); i++ {
		n := genNet(s, genOpt{maxChance: 7, logic: true, maxCard: 6, maxTable: 200})
		used := 0
		for k := range n.Vars {
			if n.Vars[k].Logic != "" {
				used++
				if s.P(1, 4) {
					n.Vars[k].Logic = strings.ToUpper(n.Vars[k].Logic)
				}
			}
		}
		if used == 0 {
			continue
		}
		s.Logf("user %d loads %s", u, n.describe())
		y := n.YAML(s.W(8))
		var net *bbn.Network
		var err error
		must(s, "logic-panic", "FromYAML", func() { net, err = bbn.FromYAML(y) })
		if err != nil {
			s.Fail("logic-network", "a valid network is rejected: %v\n%s", err, y)
		}
		if msg := checkNet(net, n, 0); msg != "" {
			s.Fail("logic-network", "%s\n%s", msg, y)
		}
		// what follows from the operators' meaning
		m := newRef(n)
		ev := genEvidence(s, n, n.nonUtility(), 2)
		checkQuery(s, n, m, net, nil, ev, pickQuery(s, n, ev, 2, 200), false, "logic-query")
	}
}
