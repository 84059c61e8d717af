package verifsim

import (
	"fmt"
	"sort"
	"strings"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/internal/verifsim/simos"
	"github.com/mlange-42/bbn/internal/verifsim/simrt"
	"github.com/mlange-42/bbn/ve"
)

func init() {
	register(&prop{id: "C09", run: runLoading})
}

func genFileNet(s *simrt.Sim) *NetSpec {
	o := genOpt{maxChance: 5, maxDec: 2, maxUtil: 2, maxCard: 5, maxTable: 60, partial: true, names: s.W(2), logic: s.P(1, 3)}
	if s.P(1, 3) {
		o.maxDec, o.maxUtil = 0, 0
	}
	n := genNet(s, o.larger(s, 25))
	if s.P(2, 3) {
		decorate(s, n)
	}
	anyColor(s, n)
	for i := range n.Vars {
		// the case of operators does not matter
		if l := n.Vars[i].Logic; l != "" && s.P(1, 4) {
			n.Vars[i].Logic = strings.ToUpper(l[:1]) + l[1:]
			if s.P(1, 2) {
				n.Vars[i].Logic = strings.ToUpper(l)
			}
		}
	}
	if s.P(1, 1500) {
		bulk(s, n)
	}
	if s.P(1, 4) {
		for i := range n.Vars {
			n.Vars[i].Pos[s.W(2)] -= s.W(40)
		}
	}
	return n
}

// anyColor: the library takes any text as color.
func anyColor(s *simrt.Sim, n *NetSpec) {
	if !s.P(1, 3) {
		return
	}
	for i := range n.Vars {
		n.Vars[i].Color = []string{"Red", "#ff0000", "DARKBLUE", "a b", "no", "1", " x "}[s.W(7)]
	}
}

// bulk makes the file larger than common buffers.
func bulk(s *simrt.Sim, n *NetSpec) {
	s.Probe("large file")
	switch s.W(3) {
	case 0:
		n.Info = strings.Repeat("A long text without line breaks. ", 2200+s.W(100))
		n.Info = strings.TrimSpace(n.Info)
	case 1:
		for i := range n.Vars {
			n.Vars[i].Name += strings.Repeat("long", 1000+s.W(20))
		}
	default:
		var big [2]int
		for k := range big {
			v := VarSpec{Name: fmt.Sprintf("Bulk %d", k), Outcomes: make([]string, 120+s.W(20))}
			for j := range v.Outcomes {
				v.Outcomes[j] = fmt.Sprintf("bulk %d", j)
			}
			if k == 1 {
				v.Given = []int{big[0]}
			}
			big[k] = len(n.Vars)
			n.Vars = append(n.Vars, v)
			t := make([]float64, n.rows(big[k])*len(v.Outcomes))
			f := 1 + s.W(50)
			for j := range t {
				t[j] = float64(1+(j*f)%97) / 8
			}
			n.Vars[big[k]].Table = t
		}
	}
}

// loadFile is one process reading a network file, with at most one fault.
func loadFile(s *simrt.Sim, file string, pl *plan, chunk bool) (net *bbn.Network, err error, fired *simos.Op) {
	fs := simos.Cur
	fs.NewProcess()
	fs.Decide = func(op simos.Op) simos.Kind {
		if pl != nil && op.N == pl.at {
			o := op
			fired = &o
			return pl.kind
		}
		return simos.None
	}
	if chunk {
		max := 1 + s.W(60)
		fs.Chunk = func(op simos.Op, want int) int { return 1 + s.W(max) }
	}
	must(s, "load-panic", "FromFile("+file+")", func() { net, err = bbn.FromFile(file) })
	fs.Decide, fs.Chunk = nil, nil
	if err == nil && net == nil {
		s.Fail("load-nothing", "FromFile returns neither a network nor an error")
	}
	if open := fs.OpenFiles(); open > 0 {
		s.Fail("load-leak", "FromFile leaves %d files open", open)
	}
	s.Logf("FromFile(%s) -> %v", file, err)
	return
}

// usable exercises a network that was accepted: nothing may crash.
func usable(s *simrt.Sim, net *bbn.Network, class string) {
	var vars []bbn.Variable
	must(s, class, "Variables", func() { vars = append(vars, net.Variables()...) })
	cells := 1.0
	for _, v := range vars {
		if v.NodeType != ve.UtilityNode {
			cells *= float64(len(v.Outcomes))
		}
	}
	if cells > 1e6 {
		return
	}
	must(s, class, "ToYAML of an accepted network", func() {
		if _, err := bbn.ToYAML(net); err != nil {
			s.Fail(class, "ToYAML of an accepted network failed: %v", err)
		}
	})
	policies := false
	for _, v := range vars {
		policies = policies || v.NodeType == ve.DecisionNode
	}
	if policies {
		must(s, class, "SolvePolicies of an accepted network", func() { _, _ = net.SolvePolicies(s.P(1, 2)) })
	}
	for _, v := range vars {
		if v.NodeType == ve.UtilityNode {
			continue
		}
		must(s, class, fmt.Sprintf("SolveQuery(%q) of an accepted network", v.Name), func() {
			m, _, err := net.SolveQuery(nil, []string{v.Name}, false)
			if err == nil && len(m[v.Name]) != len(v.Outcomes) {
				s.Fail(class, "SolveQuery of %q returns %d values for %d outcomes", v.Name, len(m[v.Name]), len(v.Outcomes))
			}
		})
		o := v.Outcomes[s.W(len(v.Outcomes))]
		must(s, class, fmt.Sprintf("SolveQuery with %q=%q of an accepted network", v.Name, o), func() {
			_, _, _ = net.SolveQuery(map[string]string{v.Name: o}, nil, false)
		})
	}
	for i, v := range vars {
		if v.NodeType == ve.UtilityNode && i != net.TotalUtilityIndex() {
			must(s, class, fmt.Sprintf("SolveUtility(%q) of an accepted network", v.Name), func() {
				_, _ = net.SolveUtility(nil, nil, v.Name, false)
			})
		}
	}
}

// C09: loading reads exactly what a file says, and copes with everything else.
func runLoading(s *simrt.Sim) {
	n := genFileNet(s)
	s.Logf("%s", n.describe())
	file := placeNet(s, n)
	data, _ := simos.Cur.Get(file)
	isXML := !strings.HasSuffix(strings.ToLower(file), ".yml")
	switch s.Pick(2, 2, 3, 3) {
	case 0: // no fault, however the data arrives
		net, err, _ := loadFile(s, file, nil, s.P(2, 3))
		if err != nil {
			s.Fail("load-rejected", "a valid file is rejected: %v\n%s", err, data)
		}
		want := n
		if isXML {
			want = xmlPositions(n)
		}
		if msg := checkNet(net, want, 0); msg != "" {
			s.Fail("load-wrong", "%s\n%s", msg, data)
		}
		usable(s, net, "load-unusable")
	case 1: // faults of the storage
		_, _, _ = loadFile(s, file, nil, false)
		pl := planFault(s, append([]simos.Op{}, simos.Cur.Ops...), true, nil)
		if pl == nil {
			return
		}
		net, err, fired := loadFile(s, file, pl, false)
		soft := pl.kind == simos.Cut || pl.kind == simos.Flip || pl.kind == simos.Zero
		if fired != nil && !soft && err == nil {
			s.Fail("load-status", "FromFile succeeds although %s failed (%s)", fired.Name, pl.kind)
		}
		if err == nil {
			usable(s, net, "load-unusable")
		}
		// the fault is over: the file is readable again
		net, err, _ = loadFile(s, file, nil, false)
		if err != nil {
			s.Fail("load-rejected", "after a read fault the file is rejected: %v", err)
		}
		usable(s, net, "load-unusable")
	case 2: // damaged content
		for k := 0; k < 4; k++ {
			d := damage(s, string(data), isXML)
			simos.Cur.Put(file, []byte(d))
			s.Logf("damaged content:\n%s", d)
			net, err, _ := loadFile(s, file, nil, false)
			if err == nil {
				s.Probe("damaged file accepted")
				usable(s, net, "load-unusable")
			} else {
				s.Probe("damaged file rejected")
			}
			if s.P(1, 4) {
				p := runProc(s, []string{"bbn", "inference", file}, nil, false)
				noPanic(s, p, "load-panic")
				if p.code == 0 && err != nil {
					s.Fail("load-status", "bbn inference exits with 0 for a file that can't be loaded (%v)\n%s", err, d)
				}
				if p.code != 0 && !hasMessage(p.text) {
					s.Fail("load-no-message", "bbn inference fails without a message\n%s", d)
				}
			}
		}
	case 3: // inconsistent networks
		for k := 0; k < 4; k++ {
			inconsistent(s, n, isXML)
		}
	}
}

// xmlPositions: BIF-XML positions are scaled by (2, 12), written exactly so.
func xmlPositions(n *NetSpec) *NetSpec { return n }

var numbers = []string{"-1", "0", "1e400", ".nan", "NaN", ".inf", "-.inf", "1e308", "5e-324", "x", "\"1\"", "[]", "null", "0x10", "1,5", ""}

// damage applies random changes to the text of a file.
func damage(s *simrt.Sim, text string, isXML bool) string {
	k := 1 + s.W(3)
	for i := 0; i < k; i++ {
		lines := strings.SplitAfter(text, "\n")
		toks := tokens(text)
		switch s.W(11) {
		case 0: // lose a line
			j := s.W(len(lines))
			lines = append(lines[:j:j], lines[j+1:]...)
			text = strings.Join(lines, "")
		case 1: // a line twice
			j := s.W(len(lines))
			l := append([]string{}, lines[:j]...)
			l = append(l, lines[j])
			text = strings.Join(append(l, lines[j:]...), "")
		case 2: // lines exchanged
			a, b := s.W(len(lines)), s.W(len(lines))
			lines[a], lines[b] = lines[b], lines[a]
			text = strings.Join(lines, "")
		case 3: // cut
			text = text[:s.W(len(text)+1)]
		case 4, 5: // a token replaced by another one
			if len(toks) > 1 {
				a, b := s.W(len(toks)), s.W(len(toks))
				ta := toks[a]
				text = text[:ta[0]] + text[toks[b][0]:toks[b][1]] + text[ta[1]:]
			}
		case 6: // a token replaced by a number
			if len(toks) > 0 {
				ta := toks[s.W(len(toks))]
				text = text[:ta[0]] + numbers[s.W(len(numbers))] + text[ta[1]:]
			}
		case 7: // lose a token
			if len(toks) > 0 {
				ta := toks[s.W(len(toks))]
				text = text[:ta[0]] + text[ta[1]:]
			}
		case 8: // a byte
			if len(text) > 0 {
				j := s.W(len(text))
				text = text[:j] + string([]byte{byte(s.W(256))}) + text[j+1:]
			}
		case 9: // another type of node
			for _, r := range [][2]string{{"type: utility", "type: decision"}, {"type: decision", "type: utility"}, {"type: nature", "type: decision"}, {"TYPE=\"nature\"", "TYPE=\"utility\""}, {"TYPE=\"utility\"", "TYPE=\"nature\""}, {"TYPE=\"nature\"", "TYPE=\"decision\""}} {
				if strings.Contains(text, r[0]) && s.P(1, 2) {
					text = strings.Replace(text, r[0], r[1], 1+s.W(2))
					break
				}
			}
		case 10: // another logic operator
			l := logicDefs[s.W(len(logicDefs))]
			x := l.name
			for a := s.W(4); a > 0; a-- {
				v := s.W(7) - 2
				if s.P(1, 12) {
					v = 1 << (48 + s.W(15))
				}
				x += fmt.Sprintf(" %d", v)
			}
			if j := strings.Index(text, "  table:"); j >= 0 && !isXML {
				e := strings.Index(text[j:], "\n")
				if e < 0 {
					e = len(text) - j
				}
				text = text[:j] + "  logic: " + x + text[j+e:]
			}
		}
		if len(text) > 20000 {
			break
		}
	}
	return text
}

// tokens are the maximal runs of characters that are not separators.
func tokens(text string) [][2]int {
	var res [][2]int
	start := -1
	for i := 0; i <= len(text); i++ {
		sep := i == len(text) || strings.IndexByte(" \n\t,[]<>()=:", text[i]) >= 0
		if sep && start >= 0 {
			res = append(res, [2]int{start, i})
			start = -1
		} else if !sep && start < 0 {
			start = i
		}
	}
	return res
}

// inconsistent makes a network that must be refused.
func inconsistent(s *simrt.Sim, orig *NetSpec, isXML bool) {
	n := orig.clone()
	for i := range n.Vars {
		n.Vars[i].Logic = ""
	}
	v := s.W(len(n.Vars))
	x := &n.Vars[v]
	what := ""
	post := func(t string) string { return t }
	direct := true // also through New
	withTable := func() bool { return len(x.Table) > 0 }
	switch s.W(23) {
	case 0:
		if len(n.Vars) < 2 {
			return
		}
		w := (v + 1 + s.W(len(n.Vars)-1)) % len(n.Vars)
		what = fmt.Sprintf("duplicate variable %q", x.Name)
		old := n.Vars[w].Name
		n.Vars[w].Name = x.Name
		_ = old
	case 1:
		if !withTable() || len(x.Given) == 0 {
			return
		}
		what = fmt.Sprintf("unknown parent of %q", x.Name)
		n.Vars = append(n.Vars, VarSpec{Name: "no such node", Kind: n.Vars[x.Given[0]].Kind, Outcomes: n.Vars[x.Given[0]].Outcomes})
		x = &n.Vars[v]
		x.Given[s.W(len(x.Given))] = len(n.Vars) - 1
		rejects(s, n, isXML, what, len(n.Vars)-1, post, direct)
		return
	case 2:
		if !withTable() || len(x.Table) == len(x.Outcomes) && len(x.Outcomes) == 1 {
			return
		}
		what = fmt.Sprintf("table of %q one row too short", x.Name)
		x.Table = x.Table[:len(x.Table)-len(x.Outcomes)]
		if len(x.Table) == 0 {
			return
		}
	case 3:
		if !withTable() {
			return
		}
		what = fmt.Sprintf("table of %q one row too long", x.Name)
		x.Table = append(x.Table, x.Table[:len(x.Outcomes)]...)
	case 4:
		if !withTable() || x.Kind != ve.ChanceNode {
			return
		}
		what = fmt.Sprintf("negative probability in %q", x.Name)
		x.Table[s.W(len(x.Table))] = []float64{-0.25, -0.25, -1, -1e-9, -1e-12, -1e-300}[s.W(6)]
	case 5:
		if x.Kind == ve.UtilityNode {
			return
		}
		what = fmt.Sprintf("%q is its own parent", x.Name)
		x.Given = append(x.Given, v)
		x.Table = growTable(x, n.card(v))
	case 6:
		if len(x.Given) == 0 || v == n.Total {
			return
		}
		g := x.Given[s.W(len(x.Given))]
		what = fmt.Sprintf("duplicate parent of %q", x.Name)
		x.Given = append(x.Given, g)
		x.Table = growTable(x, n.card(g))
	case 7:
		us := n.utilities()
		if len(us) == 0 || x.Kind != ve.ChanceNode {
			return
		}
		what = fmt.Sprintf("utility node as parent of %q", x.Name)
		x.Given = append(x.Given, us[s.W(len(us))])
	case 8:
		what = fmt.Sprintf("no outcomes in %q", x.Name)
		if x.Kind == ve.UtilityNode {
			return
		}
		x.Outcomes = nil
		x.Table = nil
	case 9:
		what = "unknown node type"
		direct = false
		post = func(t string) string {
			t = strings.Replace(t, "TYPE=\""+kindName[x.Kind]+"\"", "TYPE=\"oracle\"", 1)
			return strings.Replace(t, "type: "+kindName[x.Kind], "type: oracle", 1)
		}
	case 10:
		if !withTable() {
			return
		}
		what = "table value that is no number"
		direct = false
		post = func(t string) string {
			if isXML && s.P(1, 2) {
				return strings.Replace(t, "<TABLE>", "<TABLE>many ", 1)
			}
			if isXML {
				// commas do not separate values
				parts := strings.Split(t, "<TABLE>")
				for i := 1; i < len(parts); i++ {
					j := strings.Index(parts[i], "</TABLE>")
					f := strings.Fields(parts[i][:j])
					if strings.Contains(parts[i][:j], "<") || len(f) < 2 {
						continue
					}
					parts[i] = strings.Join(f, []string{",", ", ", ";"}[s.W(3)]) + parts[i][j:]
					return strings.Join(parts, "<TABLE>")
				}
				return strings.Replace(t, "<TABLE>", "<TABLE>0,5 ", 1)
			}
			return strings.Replace(t, "  table: [[", "  table: [[many, ", 1)
		}
	case 11:
		direct = false
		if isXML {
			what = "missing definition"
			post = func(t string) string {
				a := strings.Index(t, "<DEFINITION>")
				b := strings.Index(t, "</DEFINITION>") + len("</DEFINITION>")
				return t[:a] + t[b:]
			}
		} else {
			what = "unknown key"
			post = func(t string) string { return strings.Replace(t, "  outcomes:", "  outcums: [a]\n  outcomes:", 1) }
		}
	case 12:
		direct = false
		if isXML {
			what = "truncated file"
			post = func(t string) string { return t[:s.W(strings.Index(t, "</BIF>")+5)] }
		} else {
			if !withTable() || x.Kind != ve.ChanceNode {
				return
			}
			what = "logic operator and table"
			post = func(t string) string { return strings.Replace(t, "  table:", "  logic: not\n  table:", 1) }
		}
	case 13:
		if isXML || !withTable() || x.Kind != ve.ChanceNode {
			return
		}
		l := &logicDefs[s.W(len(logicDefs))]
		bad := []string{"no-such-operator", l.name + " 1 2 3 4 x", "count-is", "given 99", "given -1", "not 1", "outcome-is 1", "outcome-is -1 3", "outcome-is 3 3", "outcome-either 5 2", "count-true 1",
			"not-" + l.name + "s", "nor,", "not,", "nota", "no" + l.name, "not-", "not;", "not/and",
			"outcome-is 0 4611686018427387904", "outcome-either 0 1 562949953421312", "outcome-less 1 2305843009213693952", "count-is 99999999999999999999",
			"count-is 0x1", "count-is 0_1", "given 0x0", "given 0b0", "given 0o0", "given 0.0", "outcome-is 0x1 2", "given 0e0", "count-greater 0X0",
			"not_", "no_such", "not.and", "if_then", "if then", "outcome_is 0 2", "count_true", "given_excl 0", "if-then-"}[s.W(41)]
		if strings.HasPrefix(bad, "no") || len(x.Given) > 0 {
			what = "logic operator " + bad
			x.Logic = bad
			direct = false
		} else {
			return
		}
	case 14:
		// a variable becomes parent of one of its ancestors
		var cand [][2]int
		for c := range n.Vars {
			if n.Vars[c].Kind == ve.UtilityNode {
				continue
			}
			for a := range n.ancestors(c) {
				cand = append(cand, [2]int{a, c})
			}
		}
		if len(cand) == 0 {
			return
		}
		sort.Slice(cand, func(a, b int) bool {
			return cand[a][0] < cand[b][0] || cand[a][0] == cand[b][0] && cand[a][1] < cand[b][1]
		})
		c := cand[s.W(len(cand))]
		y := &n.Vars[c[0]]
		for _, g := range y.Given {
			if g == c[1] {
				return
			}
		}
		what = fmt.Sprintf("cycle of %q and %q", y.Name, n.Vars[c[1]].Name)
		at := s.W(len(y.Given) + 1)
		y.Given = append(y.Given[:at:at], append([]int{c[1]}, y.Given[at:]...)...)
		y.Table = growTable(y, n.card(c[1]))
	case 15:
		what = "empty file"
		direct = false
		empty := []string{"", "\n", "# nothing\n", "<!-- nothing -->", "  "}[s.W(5)]
		post = func(t string) string { return empty }
	case 16:
		if isXML {
			what = "duplicate definition"
			direct = false
			post = func(t string) string {
				a := strings.Index(t, "<DEFINITION>")
				b := strings.Index(t, "</DEFINITION>") + len("</DEFINITION>")
				at := b
				if s.P(1, 2) {
					at = strings.LastIndex(t, "</DEFINITION>") + len("</DEFINITION>")
				}
				return t[:at] + "\n" + t[a:b] + t[at:]
			}
			break
		}
		// values on the wrong side of a row boundary
		if !withTable() || len(x.Table) <= len(x.Outcomes) || len(x.Outcomes) < 2 {
			return
		}
		what = fmt.Sprintf("uneven rows in %q", x.Name)
		direct = false
		row := s.W(len(x.Table)/len(x.Outcomes) - 1)
		name := x.Name
		post = func(t string) string { return uneven(t, name, row) }
		if rows := len(x.Table) / len(x.Outcomes); s.P(1, 3) {
			// rows joined
			what = fmt.Sprintf("rows of %q joined", x.Name)
			k := 2
			for rows%k != 0 {
				k++
			}
			post = func(t string) string { return joined(t, name, k) }
		}
	case 17:
		what = fmt.Sprintf("several factors for %q", x.Name)
		if x.Kind == ve.DecisionNode || v == n.Total {
			return
		}
		refuseNew(s, n, what, func(f []bbn.Factor) []bbn.Factor {
			at := s.W(len(f) + 1)
			for _, o := range f {
				if o.For == x.Name {
					o.Table = append([]float64{}, o.Table...)
					return append(f[:at:at], append([]bbn.Factor{o}, f[at:]...)...)
				}
			}
			return nil
		})
		return
	case 18:
		what = "factor for an unknown variable"
		refuseNew(s, n, what, func(f []bbn.Factor) []bbn.Factor {
			at := s.W(len(f) + 1)
			return append(f[:at:at], append([]bbn.Factor{{For: "no such node", Table: []float64{1}}}, f[at:]...)...)
		})
		return
	case 19, 20:
		if what = badUtility(s, n); what == "" {
			return
		}
	case 21:
		if isXML || !s.P(1, 4) {
			return
		}
		ops := []string{"count-is 1", "count-less 2", "count-greater 3", "given 0", "given-not 1", "given-excl 2", "count-true", "count-false", "bits"}
		op := ops[s.W(len(ops))]
		k := 45 + s.W(25)
		what = fmt.Sprintf("logic operator %s with %d parents", op, k)
		direct = false
		l := VarSpec{Name: "many parents", Kind: ve.ChanceNode, Outcomes: []string{"yes", "no"}, Logic: op}
		for i := 0; i < k; i++ {
			l.Given = append(l.Given, len(n.Vars))
			n.Vars = append(n.Vars, VarSpec{Name: fmt.Sprintf("parent %d", i), Kind: ve.ChanceNode, Outcomes: []string{"yes", "no"}, Table: []float64{1, 2}})
		}
		n.Vars = append(n.Vars, l)
	case 22:
		what = "malformed text"
		direct = false
		k := s.W(7)
		post = func(t string) string { return malformed(s, t, isXML, k) }
	}
	rejects(s, n, isXML, what, -1, post, direct)
}

// badUtility makes the utility nodes inconsistent.
func badUtility(s *simrt.Sim, n *NetSpec) string {
	us := n.utilities()
	if len(us) == 0 {
		return ""
	}
	u := us[s.W(len(us))]
	x := &n.Vars[u]
	others := n.nonUtility()
	weights := func(k int) ([]string, []float64) {
		var o []string
		var w []float64
		for i := 0; i < k; i++ {
			o = append(o, fmt.Sprintf("weight %d", i))
			w = append(w, float64(1+s.W(3)))
		}
		return o, w
	}
	total := func(given []int, k int) VarSpec {
		o, w := weights(k)
		return VarSpec{Name: fmt.Sprintf("total %d", len(n.Vars)), Kind: ve.UtilityNode, Given: given, Outcomes: o, Table: w}
	}
	put := func(v VarSpec) {
		// no references to indices behind, except for appended nodes
		n.Vars = append(n.Vars, v)
	}
	hasTotal := n.Total >= 0
	switch s.W(6) {
	case 0:
		if !hasTotal {
			put(total([]int{u}, 1))
		}
		put(total([]int{us[s.W(len(us))]}, 1))
		if s.P(1, 2) {
			i, j := len(n.Vars)-1, s.W(len(n.Vars))
			for k := range n.Vars {
				for l, g := range n.Vars[k].Given {
					if g == i {
						n.Vars[k].Given[l] = j
					} else if g == j {
						n.Vars[k].Given[l] = i
					}
				}
			}
			n.Vars[i], n.Vars[j] = n.Vars[j], n.Vars[i]
		}
		return "several total utility nodes"
	case 1:
		x.Given = nil
		x.Table = x.Table[:len(x.Outcomes)]
		return fmt.Sprintf("no parents of utility %q", x.Name)
	case 2:
		if hasTotal {
			n.Vars[n.Total].Table = nil
		} else {
			t := total([]int{u}, 1)
			t.Table = nil
			put(t)
		}
		return "weights of total utility missing"
	case 3:
		if hasTotal {
			k := len(n.Vars[n.Total].Given)
			if k > 1 && s.P(1, 2) {
				k -= 2
			}
			n.Vars[n.Total].Outcomes, n.Vars[n.Total].Table = weights(k + 1)
		} else {
			put(total([]int{u}, 2))
		}
		return "number of weights"
	case 4:
		// a utility as additional parent of a utility
		if hasTotal || len(us) < 2 {
			return ""
		}
		for _, o := range us {
			if o != u {
				at := s.W(len(x.Given) + 1)
				x.Given = append(x.Given[:at:at], append([]int{o}, x.Given[at:]...)...)
				if s.P(1, 2) {
					break
				}
			}
		}
		return fmt.Sprintf("mixed parents of utility %q", x.Name)
	default:
		// another node as additional parent of the total utility
		if len(others) == 0 {
			return ""
		}
		o := others[s.W(len(others))]
		if !hasTotal {
			put(total([]int{u}, 1))
			n.Total = len(n.Vars) - 1
		}
		t := &n.Vars[n.Total]
		at := s.W(len(t.Given) + 1)
		t.Given = append(t.Given[:at:at], append([]int{o}, t.Given[at:]...)...)
		if s.P(2, 3) {
			t.Outcomes, t.Table = weights(len(t.Given))
			t.Table = growTable(t, n.card(o))
		}
		return "mixed parents of total utility"
	}
}

// uneven moves a bracket in the table of a variable by one value.
func uneven(t, name string, row int) string {
	at := -1
	for _, q := range []string{name, fmt.Sprintf("%q", name), "'" + name + "'"} {
		if i := strings.Index(t, "- variable: "+q+"\n"); i >= 0 {
			at = i
		}
	}
	if at < 0 {
		return t
	}
	i := strings.Index(t[at:], "  table: [[")
	if next := strings.Index(t[at+1:], "- variable: "); i < 0 || next >= 0 && next < i {
		return t
	}
	at += i + len("  table: [")
	for k := 0; k < row; k++ {
		j := strings.Index(t[at:], "]")
		if j < 0 {
			return t
		}
		at += j + 1
	}
	end := strings.Index(t[at:], "]")
	if end < 0 {
		return t
	}
	end += at
	rest := t[end:]
	start := strings.Index(rest, "[")
	if start < 0 || strings.Trim(rest[1:start], " ,\n") != "" {
		return t
	}
	comma := strings.LastIndex(t[at:end], ",")
	if comma < 0 {
		return t
	}
	comma += at
	return t[:comma] + "]" + rest[1:start+1] + strings.TrimSpace(t[comma+1:end]) + ", " + rest[start+1:]
}

// joined joins each k rows of the table of a variable.
func joined(t, name string, k int) string {
	at := -1
	for _, q := range []string{name, fmt.Sprintf("%q", name), "'" + name + "'"} {
		if i := strings.Index(t, "- variable: "+q+"\n"); i >= 0 {
			at = i
		}
	}
	if at < 0 {
		return t
	}
	i := strings.Index(t[at:], "  table: [[")
	if next := strings.Index(t[at+1:], "- variable: "); i < 0 || next >= 0 && next < i {
		return t
	}
	at += i + len("  table: [")
	end := strings.Index(t[at:], "]]")
	if end < 0 {
		return t
	}
	rows := strings.Split(t[at:at+end+1], "]")
	res := ""
	for r := range rows[:len(rows)-1] {
		row := strings.TrimLeft(rows[r], ", \n")
		if r%k > 0 {
			row = ", " + strings.TrimPrefix(row, "[")
		} else if r > 0 {
			row = ", " + row
		}
		if r%k == k-1 {
			row += "]"
		}
		res += row
	}
	return t[:at] + res + t[at+end+1:]
}

// refuseNew: the network with changed factors must be refused.
func refuseNew(s *simrt.Sim, n *NetSpec, what string, change func([]bbn.Factor) []bbn.Factor) {
	vars, factors := n.arguments()
	factors = change(factors)
	if factors == nil {
		return
	}
	s.Logf("%s", what)
	s.Probe("inconsistent: " + kindOf(what))
	var err error
	must(s, "load-panic", "New", func() { _, err = bbn.New(n.Name, n.Info, vars, factors) })
	if err == nil {
		s.Fail("load-accepted", "New accepts a network despite of: %s", what)
	}
}

func growTable(x *VarSpec, by int) []float64 {
	if x.Table == nil {
		return nil
	}
	var t []float64
	c := len(x.Outcomes)
	for r := 0; r < len(x.Table)/c; r++ {
		for k := 0; k < by; k++ {
			t = append(t, x.Table[r*c:(r+1)*c]...)
		}
	}
	return t
}

// rejects: the network (without variable hide) must be refused.
func rejects(s *simrt.Sim, n *NetSpec, isXML bool, what string, hide int, post func(string) string, direct bool) {
	m := *n
	full := n
	if hide >= 0 {
		// the names of parents are needed for writing, the variable is not listed
		m.Vars = n.Vars
	}
	var text string
	if isXML {
		text = string(full.XML(s.W(8)))
	} else {
		text = string(full.YAML(1 | s.W(4)<<1&2))
	}
	if hide >= 0 {
		if isXML {
			a := strings.LastIndex(text, "<VARIABLE ")
			b := strings.LastIndex(text, "</VARIABLE>") + len("</VARIABLE>")
			text = text[:a] + text[b:]
		} else {
			text = text[:strings.LastIndex(text, "- variable:")]
		}
	}
	before := text
	text = post(text)
	if text == before && !direct && !strings.HasPrefix(what, "logic") {
		return
	}
	file := "bad.yml"
	if isXML {
		file = "bad.xml"
	}
	simos.Cur.Put(file, []byte(text))
	s.Logf("%s:\n%s", what, text)
	s.Probe("inconsistent: " + kindOf(what))
	_, err, _ := loadFile(s, file, nil, false)
	if err == nil {
		s.Fail("load-accepted", "a network is accepted despite of: %s\n%s", what, text)
	}
	if !direct || hide >= 0 {
		return
	}
	must(s, "load-panic", "New", func() { _, err = m.Build() })
	if err == nil {
		s.Fail("load-accepted", "New accepts a network despite of: %s\n%s", what, text)
	}
}

// malformed breaks the syntax of the file, at a random one of the places that suit.
func malformed(s *simrt.Sim, t string, isXML bool, k int) string {
	place := func(old, new string) string {
		parts := strings.Split(t, old)
		if len(parts) < 2 {
			return t
		}
		i := 1 + s.W(len(parts)-1)
		return strings.Join(parts[:i], old) + new + strings.Join(parts[i:], old)
	}
	if isXML {
		tag := []string{"NAME", "OUTCOME", "PROPERTY", "VARIABLE", "FOR", "TABLE", "DEFINITION", "NETWORK", "BIF"}[s.W(9)]
		switch k {
		case 0: // misspelt end
			return place("</"+tag+">", "</"+tag+"S>")
		case 1: // no end
			return place("</"+tag+">", "")
		case 2: // another end
			return place("</"+tag+">", "</VALUE>")
		case 3: // attribute without quotes
			return place("TYPE=\"nature\"", "TYPE=nature")
		case 4:
			return place("<PROPERTY>", "<PROPERTY>salt & pepper</PROPERTY><PROPERTY>")
		case 5:
			return place("<PROPERTY>", "<PROPERTY>&unknown;</PROPERTY><PROPERTY>")
		}
		return place("<"+tag+">", "<"+tag)
	}
	switch k {
	case 0:
		return place("\n  outcomes:", "\n\toutcomes:")
	case 1:
		return place("\n  outcomes: [", "\n  outcomes: ")
	case 2:
		return place("\n  outcomes: [", "\n  outcomes: [[")
	case 3:
		return place("\n  outcomes: ", "\n outcomes: ")
	case 4:
		return place("\n  outcomes: ", "\n  outcomes ")
	case 5:
		return place("\n  outcomes: ", "\n  outcomes: {")
	}
	return place("\n  outcomes: ", "\n  outcomes: *unknown\n  outcomes: ")
}

// kindOf is the description without names.
func kindOf(what string) string {
	var res []string
	for _, f := range strings.Fields(what) {
		if !strings.ContainsAny(f, "\"'") {
			res = append(res, f)
		}
		if len(res) == 2 {
			break
		}
	}
	return strings.Join(res, " ")
}
