package verifsim

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/internal/verifsim/simrt"
	"github.com/mlange-42/bbn/ve"
	"gopkg.in/yaml.v3"
)

// VarSpec describes a variable of a generated network, independently of the
// types of the system under test.
type VarSpec struct {
	Name     string
	Kind     ve.NodeType
	Outcomes []string
	Given    []int     // indices of parents
	Known    []int     // decisions: everything known when it is taken, if the parents are only a part of it
	Table    []float64 // nil: no table (decisions)
	Pos      [2]int
	Color    string
	NoFactor bool   // no factor is passed to the constructor (variable without parents and table)
	Logic    string // logic expression in YAML instead of the table (the table is the reference meaning)
}

// NetSpec describes a generated network.
type NetSpec struct {
	Name, Info string
	Vars       []VarSpec
	Total      int   // index of the total utility node, -1 if none
	Decisions  []int // in decision order
	Free       bool  // the order of decisions does not follow from the network
}

func (n *NetSpec) card(i int) int { return len(n.Vars[i].Outcomes) }

// known is what a decision may depend on: everything known when it is taken.
func (n *NetSpec) known(i int) []int {
	if n.Vars[i].Known != nil {
		return n.Vars[i].Known
	}
	return n.Vars[i].Given
}

func (n *NetSpec) index(name string) int {
	for i := range n.Vars {
		if n.Vars[i].Name == name {
			return i
		}
	}
	return -1
}

func (n *NetSpec) given(i int) []string {
	if len(n.Vars[i].Given) == 0 {
		return nil
	}
	res := make([]string, len(n.Vars[i].Given))
	for j, g := range n.Vars[i].Given {
		res[j] = n.Vars[g].Name
	}
	return res
}

// ancestors of a variable.
func (n *NetSpec) ancestors(i int) map[int]bool {
	res := map[int]bool{}
	var visit func(i int)
	visit = func(i int) {
		for _, g := range n.Vars[i].Given {
			if !res[g] {
				res[g] = true
				visit(g)
			}
		}
	}
	visit(i)
	return res
}

func (n *NetSpec) rows(i int) int {
	r := 1
	for _, g := range n.Vars[i].Given {
		r *= n.card(g)
	}
	return r
}

// isParent tells whether anything depends on variable i.
func (n *NetSpec) isParent(i int) bool {
	for _, v := range n.Vars {
		if contains(v.Given, i) || contains(v.Known, i) {
			return true
		}
	}
	return false
}

func (n *NetSpec) hasLogic() bool {
	for _, v := range n.Vars {
		if v.Logic != "" {
			return true
		}
	}
	return false
}

func (n *NetSpec) utilities() []int {
	var res []int
	for i := range n.Vars {
		if n.Vars[i].Kind == ve.UtilityNode && i != n.Total {
			res = append(res, i)
		}
	}
	return res
}

func (n *NetSpec) chances() []int {
	var res []int
	for i := range n.Vars {
		if n.Vars[i].Kind == ve.ChanceNode {
			res = append(res, i)
		}
	}
	return res
}

// nonUtility lists the variables that can be queried or observed.
func (n *NetSpec) nonUtility() []int {
	var res []int
	for i := range n.Vars {
		if n.Vars[i].Kind != ve.UtilityNode {
			res = append(res, i)
		}
	}
	return res
}

func (n *NetSpec) clone() *NetSpec {
	c := *n
	c.Vars = make([]VarSpec, len(n.Vars))
	for i, v := range n.Vars {
		v.Outcomes = append([]string{}, v.Outcomes...)
		v.Given = append([]int{}, v.Given...)
		if v.Known != nil {
			v.Known = append([]int{}, v.Known...)
		}
		if v.Table != nil {
			v.Table = append([]float64{}, v.Table...)
		}
		c.Vars[i] = v
	}
	c.Decisions = append([]int{}, n.Decisions...)
	return &c
}

// variables creates fresh constructor arguments.
func (n *NetSpec) arguments() ([]bbn.Variable, []bbn.Factor) {
	vars := make([]bbn.Variable, len(n.Vars))
	var factors []bbn.Factor
	for i, v := range n.Vars {
		vars[i] = bbn.Variable{
			Name: v.Name, NodeType: v.Kind, Outcomes: append([]string{}, v.Outcomes...),
			Position: v.Pos, Color: v.Color,
		}
		if v.NoFactor && len(v.Given) == 0 && v.Table == nil {
			continue
		}
		f := bbn.Factor{For: v.Name, Given: n.given(i)}
		if v.Table != nil {
			f.Table = append([]float64{}, v.Table...)
		}
		factors = append(factors, f)
	}
	return vars, factors
}

// Build constructs the network with New.
func (n *NetSpec) Build() (*bbn.Network, error) {
	v, f := n.arguments()
	return bbn.New(n.Name, n.Info, v, f)
}

func qstr(s string) string {
	// double-quoted YAML scalar, always safe
	var sb strings.Builder
	sb.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			sb.WriteByte('\\')
			sb.WriteRune(r)
		case r == '\n':
			sb.WriteString("\\n")
		case r == '\t':
			sb.WriteString("\\t")
		case r < 0x20 || r == 0x7f || r == 0x85 || r == 0x2028 || r == 0x2029 || r == 0xfeff:
			fmt.Fprintf(&sb, "\\u%04x", r)
		default:
			sb.WriteRune(r)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func fstr(f float64) string {
	s := strconv.FormatFloat(f, 'g', -1, 64)
	if strings.Contains(s, "e") && !strings.Contains(s, ".") {
		// YAML 1.1 wants a dot in floats with exponent
		s = strings.Replace(s, "e", ".0e", 1)
	}
	return s
}

var kindName = map[ve.NodeType]string{ve.ChanceNode: "nature", ve.DecisionNode: "decision", ve.UtilityNode: "utility"}

// YAML is an independent serialiser. style selects between equivalent notations.
func (n *NetSpec) YAML(style int) []byte {
	var sb strings.Builder
	fmt.Fprintf(&sb, "name: %s\n", qstr(n.Name))
	if n.Info != "" {
		fmt.Fprintf(&sb, "info: %s\n", qstr(n.Info))
	}
	sb.WriteString("variables:\n")
	for i, v := range n.Vars {
		fmt.Fprintf(&sb, "- variable: %s\n", qstr(v.Name))
		if g := n.given(i); len(g) > 0 {
			q := make([]string, len(g))
			for j := range g {
				q[j] = qstr(g[j])
			}
			fmt.Fprintf(&sb, "  given: [%s]\n", strings.Join(q, ", "))
		}
		if v.Kind != ve.ChanceNode || style&1 == 1 {
			fmt.Fprintf(&sb, "  type: %s\n", kindName[v.Kind])
		}
		q := make([]string, len(v.Outcomes))
		for j := range v.Outcomes {
			q[j] = qstr(v.Outcomes[j])
		}
		fmt.Fprintf(&sb, "  outcomes: [%s]\n", strings.Join(q, ", "))
		if v.Pos != [2]int{} || style&2 == 2 {
			fmt.Fprintf(&sb, "  position: [%d, %d]\n", v.Pos[0], v.Pos[1])
		}
		if v.Color != "" {
			c := v.Color
			if strings.ContainsAny(c, " #") || c == "no" {
				c = qstr(c)
			}
			fmt.Fprintf(&sb, "  color: %s\n", c)
		}
		if v.Logic != "" {
			fmt.Fprintf(&sb, "  logic: %s\n", v.Logic)
		} else if v.Table != nil {
			cols := len(v.Outcomes)
			if style&4 == 4 {
				sb.WriteString("  table:\n")
				for r := 0; r < len(v.Table)/cols; r++ {
					sb.WriteString("  - [" + joinF(v.Table[r*cols:(r+1)*cols]) + "]\n")
				}
			} else {
				sb.WriteString("  table: [")
				for r := 0; r < len(v.Table)/cols; r++ {
					if r > 0 {
						sb.WriteString(", ")
					}
					sb.WriteString("[" + joinF(v.Table[r*cols:(r+1)*cols]) + "]")
				}
				sb.WriteString("]\n")
			}
		}
	}
	return []byte(sb.String())
}

func joinF(f []float64) string {
	s := make([]string, len(f))
	for i := range f {
		s[i] = fstr(f[i])
	}
	return strings.Join(s, ", ")
}

func xstr(s string) string {
	r := strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;")
	return r.Replace(s)
}

// otherProperties are of no concern to bbn.
var otherProperties = []string{"foo = bar", "positions = 1", "description = a = b", "observed", "posx = (1,2)", "color = red", "xposition = (3,4)", "(5,6)", "a = 1", "b = (7,8)", "c", "d = ", " = "}

// XML is an independent BIF-XML writer.
func (n *NetSpec) XML(style int) []byte {
	var sb strings.Builder
	sb.WriteString("<?xml version=\"1.0\"?>\n<!-- generated -->\n<BIF VERSION=\"0.3\">\n<NETWORK>\n")
	fmt.Fprintf(&sb, "<NAME>%s</NAME>\n", xstr(n.Name))
	for i, v := range n.Vars {
		fmt.Fprintf(&sb, "<VARIABLE TYPE=\"%s\">\n\t<NAME>%s</NAME>\n", kindName[v.Kind], xstr(v.Name))
		for _, o := range v.Outcomes {
			fmt.Fprintf(&sb, "\t<OUTCOME>%s</OUTCOME>\n", xstr(o))
		}
		if style&1 == 1 {
			for k := 0; k < 1+(i*5+style)%7; k++ {
				fmt.Fprintf(&sb, "\t<PROPERTY>%s</PROPERTY>\n", otherProperties[(i+k+style/2)%len(otherProperties)])
			}
		}
		fmt.Fprintf(&sb, "\t<PROPERTY>position = (%d,%d)</PROPERTY>\n", v.Pos[0]*2, v.Pos[1]*12)
		if style&5 == 5 {
			fmt.Fprintf(&sb, "\t<PROPERTY>%s</PROPERTY>\n", otherProperties[(i+3)%len(otherProperties)])
		}
		sb.WriteString("</VARIABLE>\n")
	}
	order := make([]int, len(n.Vars))
	for i := range order {
		order[i] = i
		if style&2 == 2 {
			order[i] = len(n.Vars) - 1 - i
		}
	}
	for _, i := range order {
		v := n.Vars[i]
		fmt.Fprintf(&sb, "<DEFINITION>\n\t<FOR>%s</FOR>\n", xstr(v.Name))
		for _, g := range n.given(i) {
			fmt.Fprintf(&sb, "\t<GIVEN>%s</GIVEN>\n", xstr(g))
		}
		sep := " "
		if style&4 == 4 {
			sep = "\n\t"
		}
		vals := make([]string, len(v.Table))
		for j := range v.Table {
			vals[j] = strconv.FormatFloat(v.Table[j], 'g', -1, 64)
		}
		fmt.Fprintf(&sb, "\t<TABLE>%s</TABLE>\n</DEFINITION>\n", strings.Join(vals, sep))
	}
	sb.WriteString("</NETWORK>\n</BIF>\n")
	return []byte(sb.String())
}

// describe is a compact text form for traces.
func (n *NetSpec) describe() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "network with %d variables:", len(n.Vars))
	for i, v := range n.Vars {
		fmt.Fprintf(&sb, "\n    %s %q outcomes=%q given=%q", kindName[v.Kind], v.Name, v.Outcomes, n.given(i))
		if v.Logic != "" {
			fmt.Fprintf(&sb, " logic=%q", v.Logic)
		}
		if v.Table != nil {
			if len(v.Table) <= 128 {
				fmt.Fprintf(&sb, " table=%v", v.Table)
			} else {
				fmt.Fprintf(&sb, " table=%v...", v.Table[:128])
			}
		}
		if v.Color != "" {
			fmt.Fprintf(&sb, " color=%s", v.Color)
		}
	}
	return sb.String()
}

// --- independent reading of networks written by the system under test ---

type yVar struct {
	Variable string      `yaml:"variable"`
	Given    []string    `yaml:"given"`
	Type     string      `yaml:"type"`
	Outcomes []string    `yaml:"outcomes"`
	Position []int       `yaml:"position"`
	Color    string      `yaml:"color"`
	Logic    string      `yaml:"logic"`
	Table    [][]float64 `yaml:"table"`
}

type yNet struct {
	Name      string `yaml:"name"`
	Info      string `yaml:"info"`
	Variables []yVar `yaml:"variables"`
}

// checkYAML compares YAML written by the system under test with the expected
// network; it returns "" or the first difference.
func checkYAML(data []byte, want *NetSpec, tol float64) string {
	var y yNet
	if err := yaml.Unmarshal(data, &y); err != nil {
		return fmt.Sprintf("output is not valid YAML: %v", err)
	}
	if y.Name != want.Name {
		return fmt.Sprintf("name %q, want %q", y.Name, want.Name)
	}
	if y.Info != want.Info {
		return fmt.Sprintf("info %q, want %q", y.Info, want.Info)
	}
	if len(y.Variables) != len(want.Vars) {
		return fmt.Sprintf("%d variables, want %d", len(y.Variables), len(want.Vars))
	}
	for i, v := range y.Variables {
		w := want.Vars[i]
		if v.Variable != w.Name {
			return fmt.Sprintf("variable %d is %q, want %q", i, v.Variable, w.Name)
		}
		tp := v.Type
		if tp == "" {
			tp = "nature"
		}
		if tp != kindName[w.Kind] {
			return fmt.Sprintf("%q has type %q, want %q", w.Name, tp, kindName[w.Kind])
		}
		if !eqStr(v.Outcomes, w.Outcomes) {
			return fmt.Sprintf("%q has outcomes %q, want %q", w.Name, v.Outcomes, w.Outcomes)
		}
		if !eqStr(v.Given, want.given(i)) {
			return fmt.Sprintf("%q has parents %q, want %q", w.Name, v.Given, want.given(i))
		}
		pos := [2]int{}
		copy(pos[:], v.Position)
		if pos != w.Pos {
			return fmt.Sprintf("%q has position %v, want %v", w.Name, pos, w.Pos)
		}
		if v.Color != w.Color {
			return fmt.Sprintf("%q has color %q, want %q", w.Name, v.Color, w.Color)
		}
		var flat []float64
		for _, r := range v.Table {
			if len(r) != len(w.Outcomes) {
				return fmt.Sprintf("%q has a table row of %d values, want %d", w.Name, len(r), len(w.Outcomes))
			}
			flat = append(flat, r...)
		}
		if len(flat) != len(w.Table) {
			return fmt.Sprintf("%q has a table of %d values, want %d", w.Name, len(flat), len(w.Table))
		}
		for j := range flat {
			if !closeEntry(flat[j], j, &w, tol) {
				return fmt.Sprintf("%q table value %d is %v, want %v", w.Name, j, flat[j], w.Table[j])
			}
		}
	}
	return ""
}

// checkNet compares a network object with the expected network.
func checkNet(net *bbn.Network, want *NetSpec, tol float64) string {
	if net.Name() != want.Name {
		return fmt.Sprintf("name %q, want %q", net.Name(), want.Name)
	}
	if net.Info() != want.Info {
		return fmt.Sprintf("info %q, want %q", net.Info(), want.Info)
	}
	vars := net.Variables()
	if len(vars) != len(want.Vars) {
		return fmt.Sprintf("%d variables, want %d", len(vars), len(want.Vars))
	}
	if net.TotalUtilityIndex() != want.Total {
		return fmt.Sprintf("total utility index %d, want %d", net.TotalUtilityIndex(), want.Total)
	}
	for i, v := range vars {
		w := want.Vars[i]
		if v.Name != w.Name || v.NodeType != w.Kind || !eqStr(v.Outcomes, w.Outcomes) || v.Position != w.Pos || v.Color != w.Color {
			return fmt.Sprintf("variable %d is {%q %v %q %v %q}, want {%q %v %q %v %q}", i,
				v.Name, v.NodeType, v.Outcomes, v.Position, v.Color, w.Name, w.Kind, w.Outcomes, w.Pos, w.Color)
		}
		if v.Factor == nil {
			return fmt.Sprintf("variable %q has no factor", w.Name)
		}
		if v.Factor.For != w.Name || !eqStr(v.Factor.Given, want.given(i)) {
			return fmt.Sprintf("factor of %q is for %q given %q, want given %q", w.Name, v.Factor.For, v.Factor.Given, want.given(i))
		}
		if len(v.Factor.Table) != len(w.Table) {
			return fmt.Sprintf("%q has a table of %d values, want %d", w.Name, len(v.Factor.Table), len(w.Table))
		}
		for j := range w.Table {
			if !closeEntry(v.Factor.Table[j], j, &w, tol) {
				return fmt.Sprintf("%q table value %d is %v, want %v", w.Name, j, v.Factor.Table[j], w.Table[j])
			}
		}
	}
	return ""
}

func eqStr(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// close2 compares with relative tolerance; tol 0 is exact.
func close2(a, b, tol float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return math.IsNaN(a) && math.IsNaN(b)
	}
	if a == b {
		return true
	}
	if math.IsInf(a, 0) || math.IsInf(b, 0) {
		return false
	}
	return math.Abs(a-b) <= tol*math.Max(math.Abs(a), math.Abs(b))
}

// closeEntry compares an entry of a table. Means of utilities may cancel: their
// error is relative to the table.
func closeEntry(a float64, j int, w *VarSpec, tol float64) bool {
	if close2(a, w.Table[j], tol) {
		return true
	}
	if tol == 0 || w.Kind != ve.UtilityNode {
		return false
	}
	scale := 1e-3
	for _, x := range w.Table {
		scale = math.Max(scale, math.Abs(x))
	}
	return closeAbs(a, w.Table[j], tol*scale)
}

// closeAbs compares with an error scaled by a magnitude.
func closeAbs(a, b, scale float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return math.IsNaN(a) && math.IsNaN(b)
	}
	return a == b || math.Abs(a-b) <= scale
}

// must turns a panic of the system under test into a violation.
func must(s *simrt.Sim, class, what string, f func()) {
	if p, st := simrt.Guard(f); p != nil {
		s.Fail(class, "%s: panic: %v\n%s", what, p, st)
	}
}
