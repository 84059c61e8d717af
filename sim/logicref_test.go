package verifsim

import (
	"fmt"
	"strings"

	"github.com/mlange-42/bbn/internal/verifsim/simrt"
)

// logicDef is the documented meaning of a logic operator, written down
// independently of the code: the row of the table for given parents' outcomes.
type logicDef struct {
	name     string
	min, max int // number of parents
	args     int // 0 none, 1 a number, 2 parent index, 3 (index, length), 4 (index..., length)
	cols     func(given int) int
	// row for parent truth values t (outcome 0 is True), or outcome o of the single parent
	row func(t []bool, o int, args []int) []float64
}

func tf(b bool) []float64 {
	if b {
		return []float64{1, 0}
	}
	return []float64{0, 1}
}

func onehot(i, n int) []float64 {
	r := make([]float64, n)
	r[i] = 1
	return r
}

func two(int) int { return 2 }

func trues(t []bool) int {
	c := 0
	for _, x := range t {
		if x {
			c++
		}
	}
	return c
}

func bin(name string, f func(a, b bool) bool) logicDef {
	return logicDef{name, 2, 2, 0, two, func(t []bool, o int, args []int) []float64 { return tf(f(t[0], t[1])) }}
}

func cmpOp(name string, f func(c, v int) bool) logicDef {
	return logicDef{name, 0, 5, 1, two, func(t []bool, o int, args []int) []float64 { return tf(f(trues(t), args[0])) }}
}

func outOp(name string, args int, f func(o int, args []int) bool) logicDef {
	return logicDef{name, 1, 1, args, two, func(t []bool, o int, a []int) []float64 { return tf(f(o, a)) }}
}

func half(name string, when, then bool) logicDef {
	return logicDef{name, 1, 1, 0, two, func(t []bool, o int, args []int) []float64 {
		if t[0] == when {
			return tf(then)
		}
		return []float64{0.5, 0.5}
	}}
}

var logicDefs = []logicDef{
	{"not", 1, 1, 0, two, func(t []bool, o int, a []int) []float64 { return tf(!t[0]) }},
	bin("and", func(a, b bool) bool { return a && b }),
	bin("not-and", func(a, b bool) bool { return !a && b }),
	bin("and-not", func(a, b bool) bool { return a && !b }),
	bin("not-and-not", func(a, b bool) bool { return !a && !b }),
	bin("or", func(a, b bool) bool { return a || b }),
	bin("not-or", func(a, b bool) bool { return !a || b }),
	bin("or-not", func(a, b bool) bool { return a || !b }),
	bin("not-or-not", func(a, b bool) bool { return !a || !b }),
	bin("xor", func(a, b bool) bool { return a != b }),
	bin("cond", func(a, b bool) bool { return !a || b }),
	bin("not-cond", func(a, b bool) bool { return a || b }),
	bin("cond-not", func(a, b bool) bool { return !a || !b }),
	bin("not-cond-not", func(a, b bool) bool { return a || !b }),
	bin("bicond", func(a, b bool) bool { return a == b }),
	half("if-then", true, true),
	half("if-not-then", false, true),
	half("if-then-not", true, false),
	half("if-not-then-not", false, false),
	{"equals", 1, 1, 0, two, func(t []bool, o int, a []int) []float64 { return tf(t[0]) }},
	{"equals-not", 1, 1, 0, two, func(t []bool, o int, a []int) []float64 { return tf(!t[0]) }},
	{"count-true", 1, 5, 0, func(g int) int { return g + 1 }, func(t []bool, o int, a []int) []float64 { return onehot(trues(t), len(t)+1) }},
	{"count-false", 1, 5, 0, func(g int) int { return g + 1 }, func(t []bool, o int, a []int) []float64 { return onehot(len(t)-trues(t), len(t)+1) }},
	cmpOp("count-is", func(c, v int) bool { return c == v }),
	cmpOp("count-less", func(c, v int) bool { return c < v }),
	cmpOp("count-greater", func(c, v int) bool { return c > v }),
	{"given", 1, 5, 2, two, func(t []bool, o int, a []int) []float64 { return tf(t[a[0]]) }},
	{"given-not", 1, 5, 2, two, func(t []bool, o int, a []int) []float64 { return tf(!t[a[0]]) }},
	{"given-excl", 1, 5, 2, two, func(t []bool, o int, a []int) []float64 { return tf(t[a[0]] && trues(t) == 1) }},
	outOp("outcome-is", 3, func(o int, a []int) bool { return o == a[0] }),
	outOp("outcome-is-not", 3, func(o int, a []int) bool { return o != a[0] }),
	outOp("outcome-either", 4, func(o int, a []int) bool { return contains(a[:len(a)-1], o) }),
	outOp("outcome-less", 3, func(o int, a []int) bool { return o < a[0] }),
	outOp("outcome-greater", 3, func(o int, a []int) bool { return o >= a[0] }), // inclusive: pinned by the repository's tests
	{"bits", 1, 4, 0, func(g int) int { return 1 << g }, func(t []bool, o int, a []int) []float64 {
		v := 0
		for _, x := range t {
			v *= 2
			if x {
				v++
			}
		}
		return onehot(v, 1<<len(t))
	}},
}

// table is the documented table of an operator.
func (l *logicDef) table(given int, args []int) []float64 {
	if l.args >= 3 {
		var res []float64
		for o := 0; o < args[len(args)-1]; o++ {
			res = append(res, l.row(nil, o, args)...)
		}
		return res
	}
	var res []float64
	for i := 0; i < 1<<given; i++ {
		t := make([]bool, given)
		for j := range t {
			t[j] = i&(1<<(given-1-j)) == 0 // first parent varies slowest
		}
		res = append(res, l.row(t, 0, args)...)
	}
	return res
}

// drawArgs draws valid arguments for an operator with the given number of
// parents (length: outcomes of the single parent of an outcome operator).
func (l *logicDef) drawArgs(s *simrt.Sim, given, length int) []int {
	switch l.args {
	case 1:
		return []int{s.W(given+4) - 1}
	case 2:
		return []int{s.W(given)}
	case 3:
		if l.name == "outcome-less" || l.name == "outcome-greater" {
			return []int{s.W(length + 1), length}
		}
		return []int{s.W(length), length}
	case 4:
		k := 1 + s.W(3)
		var a []int
		for i := 0; i < k; i++ {
			a = append(a, s.W(length))
		}
		return append(a, length)
	}
	return nil
}

func (l *logicDef) expr(args []int) string {
	parts := []string{l.name}
	for _, a := range args {
		parts = append(parts, fmt.Sprint(a))
	}
	return strings.Join(parts, " ")
}

// genLogic turns variable i (being generated, last in n.Vars) into a logic node
// if suitable parents exist.
func genLogic(s *simrt.Sim, n *NetSpec, i int) {
	l := &logicDefs[s.W(len(logicDefs))]
	v := &n.Vars[i]
	var cand []int
	if l.args >= 3 {
		for j := 0; j < i; j++ {
			if c := len(n.Vars[j].Outcomes); c <= 20 {
				cand = append(cand, j)
			}
		}
	} else {
		for j := 0; j < i; j++ {
			if len(n.Vars[j].Outcomes) == 2 {
				cand = append(cand, j)
			}
		}
	}
	min := l.min
	if min == 0 {
		min = 1
	}
	if len(cand) < min {
		return
	}
	shuffle(s, cand)
	k := min
	if l.max > min {
		m := l.max
		if m > len(cand) {
			m = len(cand)
		}
		k = min + s.W(m-min+1)
	}
	v.Given = append([]int{}, cand[:k]...)
	args := l.drawArgs(s, k, len(n.Vars[v.Given[0]].Outcomes))
	v.Outcomes = make([]string, l.cols(k))
	v.Table = l.table(k, args)
	v.Logic = l.expr(args)
}
