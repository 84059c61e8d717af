package verifsim

import (
	"bytes"
	"math"
	"sort"
	"strings"

	"github.com/gdamore/tcell/v2"
	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/internal/verifsim/simos"
	"github.com/mlange-42/bbn/internal/verifsim/simrt"
	"github.com/mlange-42/bbn/ve"
)

func init() {
	register(&prop{id: "C10", run: runRoundTrip, bubble: true})
	register(&prop{id: "C11", run: runSave, bubble: true})
}

// C10: what is written can be read again and means the same.
func runRoundTrip(s *simrt.Sim) {
	switch s.Pick(5, 3, 2) {
	case 0:
		roundTripLibrary(s)
	case 1:
		roundTripCLI(s)
	case 2:
		roundTripTUI(s)
	}
}

var trickyInfo = []string{
	"some text", "two\nlines\n", "tab\tand: colon", "#no comment", "  indented\nnot\n\n", "ünï", "trailing   ",
	"- a\n- b", "key: value\nother: [1, 2]", "'quoted'", "\"", "a\n\n\nb", strings.Repeat("long line ", 40), "--- doc\n...", "null", "123", "1e5", "?", ": x", "\ttab first", "a # b", "日本\n語",
	"%TAG", "|\n  x", ">\n y", "~", "true", "line  \ntrailing blanks\n  ", "line\n\tindented\tby tab\nend\n", "a\r\nb\r\n", "a\rb", "a\u2028b", "a\u00a0b", "\\n \\t \\", "a\\\nb",
}

// extreme replaces some table values by unusual ones.
func extreme(s *simrt.Sim, n *NetSpec) {
	for i := range n.Vars {
		v := &n.Vars[i]
		if v.Table == nil || v.Logic != "" || !s.P(1, 3) {
			continue
		}
		k := s.W(len(v.Table))
		switch v.Kind {
		case ve.ChanceNode:
			v.Table[k] = []float64{1e-300, 1e300, 1.0 / 3, math.SmallestNonzeroFloat64, math.MaxFloat64 / 8, 1e21, 1e-7, 123456789012345678, 0.1 + 0.2, 5e-324 * 3}[s.W(10)]
		case ve.UtilityNode:
			v.Table[k] = []float64{-1e300, 1e300, 1.0 / 3, -math.SmallestNonzeroFloat64, 1e21, -1e-7, 123456789012345678, -0.1 - 0.2, 1e6, 1e20}[s.W(10)]
		}
	}
}

// decisionTables adds tables to decisions, which have no meaning but are part of the network.
func decisionTables(s *simrt.Sim, n *NetSpec, one int) bool {
	any := false
	for _, d := range n.Decisions {
		v := &n.Vars[d]
		if v.Table != nil || v.NoFactor || n.rows(d)*n.card(d) > 60 || !s.P(1, one) {
			continue
		}
		v.Table = make([]float64, n.rows(d)*n.card(d))
		for k := range v.Table {
			v.Table[k] = float64(1 + s.W(9))
		}
		any = true
	}
	return any
}

func roundTripLibrary(s *simrt.Sim) {
	o := genOpt{maxChance: 6, maxDec: 2, maxUtil: 2, names: s.W(2), maxTable: 100, partial: true, logic: s.P(1, 3), wide: s.P(1, 10)}
	n := genNet(s, o)
	decorate(s, n)
	anyColor(s, n)
	if s.P(1, 2) {
		n.Info = trickyInfo[s.W(len(trickyInfo))]
	}
	plain := s.P(1, 2)
	if !plain {
		extreme(s, n)
	}
	for i := range n.Vars {
		if s.P(1, 8) {
			n.Vars[i].Pos = [2]int{-s.W(100), s.W(100000)}
		}
		if s.P(1, 10) && n.Vars[i].Kind == ve.ChanceNode && n.Vars[i].Logic == "" {
			n.Vars[i].Table = nil
			plain = false
		}
	}
	if decisionTables(s, n, 6) {
		plain = false
	}
	s.Logf("%s", n.describe())
	var net *bbn.Network
	var err error
	switch src := s.W(3); {
	case src == 1:
		must(s, "roundtrip", "FromYAML", func() { net, err = bbn.FromYAML(n.YAML(s.W(8))) })
	case src == 2 && o.names == 0 && !o.logic:
		n.Info = ""
		n.Name = "net"
		for i := range n.Vars {
			n.Vars[i].Color = ""
			n.Vars[i].Pos = [2]int{s.W(100), s.W(50)}
			if n.Vars[i].Kind == ve.ChanceNode && n.Vars[i].Table == nil {
				n.Vars[i].Table = o.cpt(s, n.rows(i), n.card(i))
			}
		}
		must(s, "roundtrip", "FromBIFXML", func() { net, err = bbn.FromBIFXML(n.XML(s.W(8))) })
	default:
		net, err = n.Build()
	}
	if err != nil {
		s.Fail("construct", "a valid network is rejected: %v", err)
	}
	want := n.clone()
	for i := range want.Vars {
		want.Vars[i].Logic = ""
	}
	tol := 0.0
	// using the network before writing it must not matter
	hist := s.W(4)
	if !plain {
		hist = 0
	}
	for ; hist > 0; hist-- {
		switch s.W(3) {
		case 0:
			must(s, "roundtrip", "SolveQuery", func() {
				q := n.nonUtility()
				ev := genEvidence(s, n, q, 1)
				for _, d := range n.Decisions {
					if _, ok := ev[d]; !ok {
						ev[d] = 0
					}
				}
				x := q[s.W(len(q))]
				if _, ok := ev[x]; !ok {
					net.SolveQuery(n.evNames(ev), []string{n.Vars[x].Name}, s.P(1, 2))
				}
			})
		case 1:
			if len(n.utilities()) > 0 || len(n.Decisions) == 0 {
				must(s, "roundtrip", "SolvePolicies", func() { net.SolvePolicies(s.P(1, 2)) })
			}
		case 2:
			if len(n.Vars) > 8 {
				break
			}
			small := true
			for i := range n.Vars {
				small = small && n.rows(i)*n.card(i) <= 30
			}
			if !small {
				break
			}
			data := n.cover(s, genData(s, n))
			must(s, "roundtrip", "training", func() {
				tr := bbn.NewTrainer(net)
				for _, x := range data {
					tr.AddSample(x.x, x.u)
				}
				_, err = tr.UpdateNetwork()
			})
			if err != nil {
				s.Fail("roundtrip", "training failed: %v", err)
			}
			w, _, _ := n.train(data)
			w.Info, w.Name = want.Info, want.Name
			want = w
			for i := range want.Vars {
				want.Vars[i].Logic = ""
			}
			tol = 1e-9
			hist = 1
		}
	}
	var prev []byte
	other, err := genNet(s, genOpt{maxChance: 2}).Build()
	if err != nil {
		s.Fail("construct", "a valid network is rejected: %v", err)
	}
	for g := 0; g < 3; g++ {
		var text []byte
		must(s, "roundtrip", "ToYAML", func() { text, err = bbn.ToYAML(net) })
		if err != nil {
			s.Fail("roundtrip-write", "generation %d: ToYAML failed: %v", g, err)
		}
		if prev != nil && !bytes.Equal(prev, text) {
			s.Fail("roundtrip-stable", "generation %d differs from the one before:\n%s\n---\n%s", g, prev, text)
		}
		prev = text
		if s.P(1, 3) {
			// writing another network leaves the text alone
			was := string(text)
			must(s, "roundtrip", "ToYAML", func() { _, err = bbn.ToYAML(other) })
			if err != nil || string(text) != was {
				s.Fail("roundtrip-write", "writing another network (-> %v) changes the text:\n%s\n---\n%s", err, was, text)
			}
		}
		if msg := checkYAML(text, want, tol); msg != "" {
			s.Fail("roundtrip-content", "generation %d: %s\n%s", g, msg, text)
		}
		simos.Cur.Put("gen.yml", text)
		if s.P(1, 2) {
			max := 1 + s.W(60)
			simos.Cur.Chunk = func(op simos.Op, want int) int { return 1 + s.W(max) }
		}
		must(s, "roundtrip", "FromFile", func() { net, err = bbn.FromFile("gen.yml") })
		simos.Cur.Chunk = nil
		if err != nil {
			s.Fail("roundtrip-read", "generation %d cannot be read: %v\n%s", g, err, text)
		}
		if msg := checkNet(net, want, tol); msg != "" {
			s.Fail("roundtrip-read", "generation %d: %s\n%s", g, msg, text)
		}
	}
	s.Probe("generations")
}

// roundTripCLI: the output of training is a network file.
func roundTripCLI(s *simrt.Sim) {
	n := genTrainNet(s, 2)
	decorate(s, n)
	s.Logf("%s", n.describe())
	data := n.cover(s, genData(s, n))
	o := genCSV(s, n)
	file := placeNet(s, n)
	simos.Cur.Put("data.csv", n.csv(s, data, o))
	want, _, _ := n.train(data)
	p := runProc(s, trainArgs(s, file, "data.csv", o), nil, false)
	noPanic(s, p, "train-panic")
	if p.code != 0 {
		s.Fail("train-rejected", "valid training failed: %s", p)
	}
	simos.Cur.Put("trained.yml", []byte(p.out))
	if len(n.Decisions) > 0 && len(n.utilities()) == 0 {
		return
	}
	m := newRef(want)
	var pols map[int]*rpol
	if len(n.Decisions) > 0 {
		opt := m.optimum()
		if !m.unique(opt) {
			return
		}
		pols = m.policies(opt)
	}
	ev := genEvidence(s, n, n.nonUtility(), 2)
	args := append([]string{"bbn", "inference", "trained.yml"}, evidenceArgs(s, n, ev)...)
	q := runProc(s, args, nil, s.P(1, 3))
	noPanic(s, q, "command-panic")
	if q.code != 0 {
		s.Fail("roundtrip-read", "the trained network cannot be used: %s\n%s", q, p.out)
	}
	if msg := checkInference(q.out, want, m.display(pols, ev, false), ev); msg != "" {
		s.Fail("roundtrip-values", "%q after training: %s\n%s", args, msg, q.out)
	}
	// training the trained network again with the same data changes nothing
	if o.quote == 0 || true {
		p2 := runProc(s, trainArgs(s, "trained.yml", "data.csv", o), nil, false)
		if p2.code != 0 || p2.panicV != nil {
			s.Fail("roundtrip-read", "the trained network cannot be trained again: %s", p2)
		}
		if p2.out != p.out {
			s.Fail("roundtrip-stable", "training again with the same data gives a different result:\n%s\n---\n%s", p.out, p2.out)
		}
	}
}

// roundTripTUI: saving in the interactive tool and opening the saved file.
func roundTripTUI(s *simrt.Sim) {
	u := newUI(s, s.P(1, 3), nil)
	gens := 1 + s.W(2)
	for g := 0; g < gens; g++ {
		u.check("start")
		for k := s.W(8); k > 0; k-- {
			what := u.step()
			u.alive(what)
		}
		if u.dialog != "" {
			u.t.key(tcell.KeyEsc, 0)
			u.dialog = ""
		}
		u.check("some events")
		u.t.key(tcell.KeyCtrlS, 0)
		u.alive("Ctrl+S")
		data, ok := simos.Cur.Get(u.save)
		if !ok {
			s.Fail("save-missing", "Ctrl+S does not create %s", u.save)
		}
		want := u.expected()
		if msg := checkYAML(data, want, u.tol()); msg != "" {
			s.Fail("save-content", "saved network: %s\n%s", msg, data)
		}
		if s.P(1, 3) {
			// more changes after saving do not count
			u.step()
		}
		if u.dialog != "" {
			u.t.key(tcell.KeyEsc, 0)
			u.dialog = ""
		}
		u.t.key(tcell.KeyEsc, 0)
		if u.t.running || u.t.p.code != 0 {
			s.Fail("tui-exit", "the program does not end cleanly: %s", u.t.p)
		}
		if data2, _ := simos.Cur.Get(u.save); g == gens-1 && bytes.Equal(data, data2) {
			// the saved file shows the same
			v := &ui{s: s, n: want, big: true, ev: map[int]int{}, m: u.m, pols: u.pols, opt: u.opt, trust: u.trust, trained: u.trained,
				file: u.save, save: saveName(u.save)}
			v.w, v.h = u.fit()
			v.t = startTUI(s, []string{"bbni", v.file}, v.w, v.h, nil)
			v.alive("opening the saved network")
			v.begin()
			v.check("opening the saved network")
			if v.dialog != "" {
				v.t.key(tcell.KeyEsc, 0)
			}
			v.t.key(tcell.KeyEsc, 0)
			return
		}
		if g == gens-1 {
			return
		}
		// continue with the saved file
		data, _ = simos.Cur.Get(u.save)
		if msg := checkYAML(data, u.expected(), u.tol()); msg != "" {
			if msg := checkYAML(data, want, u.tol()); msg == "" {
				u.n = want
			}
		} else {
			u.n = u.expected()
		}
		u.file, u.save = u.save, saveName(u.save)
		u.ev, u.sel, u.state, u.ignore, u.dialog = map[int]int{}, 0, 0, false, ""
		u.big, u.moved, u.ox, u.oy = true, false, 0, 0
		u.w, u.h = u.fit()
		u.t = startTUI(s, []string{"bbni", u.file}, u.w, u.h, nil)
		u.alive("opening the saved network")
		u.begin()
	}
}

// --- C11 ---

// savedState is one acceptable content of the saved file.
type savedState struct {
	spec *NetSpec // nil: raw
	raw  []byte
	none bool
}

func (x savedState) matches(data []byte, ok bool, tol float64) bool {
	if x.none || !ok {
		return x.none && !ok
	}
	if x.spec == nil {
		return bytes.Equal(x.raw, data)
	}
	return checkYAML(data, x.spec, tol) == ""
}

// C11: saving never destroys a file, whatever fails or interrupts it.
func runSave(s *simrt.Sim) {
	u := newUI(s, s.P(1, 8), nil)
	// other files that must survive
	simos.Cur.Put("other.yml", []byte("name: other\n"))
	simos.Cur.Put("net-save.yml.bak", []byte("backup"))
	cur := savedState{none: true}
	switch s.W(3) {
	case 1:
		old := u.expected()
		old.Name = "older"
		raw := old.YAML(0)
		simos.Cur.Put(u.save, raw)
		cur = savedState{raw: raw}
	case 2:
		raw := []byte(strings.Repeat("# notes of the user\n", 1+s.W(300)))
		simos.Cur.Put(u.save, raw)
		cur = savedState{raw: raw}
	}
	before := snapshot()
	states := []savedState{cur} // everything the file may be after power loss
	args := simos.Args
	session := func() {
		u.w, u.h = u.fit()
		u.t = startTUI(s, args, u.w, u.h, nil)
		u.alive("a restart")
		// the state of the session is as at the beginning
		for i := range u.n.Vars {
			u.n.Vars[i].Pos = u.origin[i]
			u.saved[i] = u.start[i]
		}
		u.sel, u.state, u.ignore, u.dialog = 0, 0, false, ""
		u.big, u.moved, u.ox, u.oy = true, false, 0, 0
		u.ev = map[int]int{}
		for k, v := range u.ev0 {
			u.ev[k] = v
		}
		if u.n.Info != "" {
			u.dialog = "Info"
		}
	}
	leftover := false
	verify := func(allowed []savedState, what string) {
		data, ok := simos.Cur.Get(u.save)
		good := -1
		for i := len(allowed) - 1; i >= 0; i-- {
			if allowed[i].matches(data, ok, u.tol()) {
				good = i
				break
			}
		}
		if good < 0 {
			s.Fail("save-destroyed", "%s: %s (exists: %v, %d bytes) is neither the file before nor the network that was saved:\n%s", what, u.save, ok, len(data), clipText(data))
		}
		cur = allowed[good]
		after := snapshot()
		for f, d := range before {
			if after[f] != d && !isSave(f, u.save) {
				s.Fail("save-other-files", "%s: file %s was changed", what, f)
			}
		}
		for f := range after {
			if _, ok := before[f]; !ok && !isSave(f, u.save) && !leftover {
				s.Fail("save-other-files", "%s: file %s was created", what, f)
			}
		}
	}
	rounds := 1 + s.W(4)
	for r := 0; r < rounds; r++ {
		for k := s.W(5); k > 0; k-- {
			if u.dialog != "" {
				u.t.key(tcell.KeyEsc, 0)
				u.dialog = ""
			}
			saves := u.saves
			was := u.expected()
			what := u.step()
			u.alive(what)
			if u.saves > saves {
				cur = savedState{spec: was}
				states = append(states, cur)
				verify([]savedState{cur}, "an undisturbed save")
			}
		}
		if u.dialog != "" {
			u.t.key(tcell.KeyEsc, 0)
			u.dialog = ""
			u.alive("closing a dialog")
		}
		next := savedState{spec: u.expected()}
		// the n-th operation of this save is disturbed
		fault := s.FP(3, 4)
		fs := simos.Cur
		base := len(fs.Ops)
		var fired *simos.Op
		var kind simos.Kind
		if fault {
			at := base + s.F(7)
			pick := s.F(12)
			fs.Decide = func(op simos.Op) simos.Kind {
				if op.N != at {
					return simos.None
				}
				ks := saveKinds(op)
				kind = ks[pick%len(ks)]
				fired = &op
				return kind
			}
		}
		shot := text(u.t.screen())
		u.t.key(tcell.KeyCtrlS, 0)
		fs.Decide = nil
		died := kind == simos.Crash || kind == simos.CrashMid || kind == simos.PowerLoss || kind == simos.PowerMid
		power := kind == simos.PowerLoss || kind == simos.PowerMid
		switch {
		case fired == nil:
			u.alive("Ctrl+S")
			states = append(states, next)
			verify([]savedState{next}, "an undisturbed save")
			s.Probe("undisturbed saves")
			if s.FP(1, 4) {
				// killed some time later: a completed save stays
				s.Faultf("kill", "after the save")
				u.t.kill()
				verify([]savedState{next}, "an undisturbed save, then a kill")
				session()
			}
			continue
		case died:
			leftover = true
			s.Probe("crashes while saving")
			allowed := []savedState{cur, next}
			if power {
				allowed = append(append([]savedState{}, states...), next)
			}
			verify(allowed, "a save disturbed by "+fired.Name+":"+kind.String())
			states = append(states, next)
		default:
			s.Probe("failing saves")
			verify([]savedState{cur, next}, "a save disturbed by "+fired.Name+":"+kind.String())
			states = append(states, next)
			if cur.spec == nil || checkYAML(mustGet(u.save), next.spec, u.tol()) != "" {
				// not saved: the user must notice
				if u.t.running && text(u.t.screen()) == shot {
					s.Fail("save-silent", "the save failed (%s of %s: %s) without any notice", fired.Name, fired.Path, kind)
				}
				if !u.t.running && u.t.p.code == 0 && u.t.p.panicV == nil {
					s.Fail("save-silent", "the save failed (%s of %s: %s), the program ends with status 0", fired.Name, fired.Path, kind)
				}
			}
		}
		if u.t.running {
			u.t.kill()
		}
		if died && s.P(1, 2) {
			// what a crash leaves may be longer than what is saved next
			names := make([]string, 0, 4)
			for f := range snapshot() {
				if _, ok := before[f]; !ok && !isSave(f, u.save) {
					names = append(names, f)
				}
			}
			sort.Strings(names)
			for _, f := range names {
				d := mustGet(f)
				simos.Cur.Put(f, append(d, bytes.Repeat([]byte("- left: over\n"), 1000+s.W(200))...))
				s.Probe("long leftovers of a crash")
			}
		}
		session()
		// after the faults have stopped, saving works again
		if u.dialog != "" {
			u.t.key(tcell.KeyEsc, 0)
			u.dialog = ""
		}
		next = savedState{spec: u.expected()}
		u.t.key(tcell.KeyCtrlS, 0)
		u.alive("Ctrl+S after a restart")
		states = append(states, next)
		verify([]savedState{next}, "a save after a restart")
	}
}

func mustGet(p string) []byte {
	d, _ := simos.Cur.Get(p)
	return d
}

func clipText(d []byte) string {
	if len(d) > 600 {
		d = d[:600]
	}
	return string(d)
}

// saveKinds are the faults that can hit an operation.
func saveKinds(op simos.Op) []simos.Kind {
	switch op.Name {
	case "write":
		return []simos.Kind{simos.ENOSPC, simos.EIO, simos.Short, simos.Crash, simos.CrashMid, simos.PowerLoss, simos.PowerMid}
	case "sync":
		return []simos.Kind{simos.EIO, simos.Crash, simos.PowerLoss, simos.CrashMid, simos.PowerMid}
	case "close":
		return []simos.Kind{simos.EIO, simos.Crash, simos.PowerLoss}
	case "open", "create":
		return []simos.Kind{simos.EACCES, simos.ENOSPC, simos.EMFILE, simos.Crash, simos.PowerLoss}
	case "rename":
		return []simos.Kind{simos.EIO, simos.EACCES, simos.Crash, simos.PowerLoss, simos.CrashMid, simos.PowerMid}
	}
	return []simos.Kind{simos.EIO, simos.Crash, simos.PowerLoss}
}
