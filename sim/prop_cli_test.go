package verifsim

import (
	"strings"

	"github.com/mlange-42/bbn/internal/verifsim/simos"
	"github.com/mlange-42/bbn/internal/verifsim/simrt"
)

func init() {
	register(&prop{id: "C13", run: runCommands})
}

// checkFiles: a command must leave all files as they are.
func checkFiles(s *simrt.Sim, before map[string]string, class, what string) {
	after := snapshot()
	for f, d := range before {
		if after[f] != d {
			s.Fail(class, "%s changed file %s", what, f)
		}
	}
	for f := range after {
		if _, ok := before[f]; !ok {
			s.Fail(class, "%s created file %s", what, f)
		}
	}
}

// placeNet writes the network file and returns its path.
func placeNet(s *simrt.Sim, n *NetSpec) string {
	xmlOK := n.Info == ""
	for _, v := range n.Vars {
		xmlOK = xmlOK && v.Logic == "" && v.Color == ""
	}
	file := "net"
	if s.P(1, 4) {
		dir := []string{"sub.dir", "old.yml.d", "x.xml", "a.b.yml"}[s.W(4)]
		simos.Cur.MkdirRaw("/work/" + dir)
		file = dir + "/" + []string{"my net", "net", "net.yml", "v1.2"}[s.W(4)]
	}
	if s.P(1, 8) {
		file = "/tmp/x"
	}
	if xmlOK && s.P(1, 3) {
		file += []string{".xml", ".bifxml", ".XML"}[s.W(3)]
		simos.Cur.Put(file, n.XML(s.W(8)))
	} else {
		file += []string{".yml", ".yml", ".YML"}[s.W(3)]
		simos.Cur.Put(file, n.YAML(s.W(8)))
	}
	return file
}

// C13: exit status and output of the commands are trustworthy.
func runCommands(s *simrt.Sim) {
	o := genOpt{maxChance: 5, maxDec: 2, minUtil: 0, maxUtil: 2, names: 2, longNames: true, maxCard: 5, maxTable: 100, logic: s.P(1, 4), partial: true}
	n := genNet(s, o.larger(s, 25))
	if len(n.utilities()) == 0 && len(n.Decisions) > 0 {
		n = genNet(s, genOpt{maxChance: 5, names: 2, maxCard: 5, maxTable: 100})
	}
	s.Logf("%s", n.describe())
	m := newRef(n)
	file := placeNet(s, n)
	before := snapshot()
	pols := displayPolicies(s, n, m, "command")
	ops := 1 + s.W(3)
	for i := 0; i < ops; i++ {
		switch s.Pick(4, 2, 1) {
		case 0:
			commandInference(s, n, m, pols, file)
		case 1:
			commandBad(s, n, file)
		case 2:
			commandHelp(s)
		}
		checkFiles(s, before, "command-changed-files", "the command")
	}
}

func noPanic(s *simrt.Sim, p *proc, class string) {
	if p.panicV != nil {
		s.Fail(class, "the command panicked: %v\n%s", p.panicV, p.stack)
	}
}

func commandInference(s *simrt.Sim, n *NetSpec, m *refModel, pols map[int]*rpol, file string) {
	ev := genEvidence(s, n, n.nonUtility(), []int{3, 3, 3, 20}[s.W(4)])
	args := append([]string{"bbn", "inference", file}, evidenceArgs(s, n, ev)...)
	chunk := s.P(1, 3)
	p := runProc(s, args, nil, chunk)
	noPanic(s, p, "command-panic")
	if p.code != 0 {
		s.Fail("command-rejected", "a valid command failed: %q\n%s", args, p)
	}
	if msg := checkInference(p.out, n, m.display(pols, ev, false), ev); msg != "" {
		s.Fail("command-output", "%q with evidence %v: %s\n%s", args, n.evNames(ev), msg, p.out)
	}
	good := p.out
	if len(ev) > 0 && s.P(1, 6) {
		// evidence that is given twice: an error, or the last one counts
		for v := range n.Vars {
			if x, ok := ev[v]; ok && n.card(v) > 1 {
				dup := append([]string{"bbn", "inference", file, "-e", n.Vars[v].Name + "=" + n.Vars[v].Outcomes[(x+1)%n.card(v)]}, args[3:]...)
				q := runProc(s, dup, nil, false)
				noPanic(s, q, "command-panic")
				if q.code == 0 && q.out != good {
					s.Fail("command-output", "%q shows something else than %q:\n%s\n---\n%s", dup, args, q.out, good)
				}
				break
			}
		}
	}
	// the same command with a fault
	pl := planFault(s, p.ops, true, nil)
	if chunk || pl == nil || !s.FP(3, 4) {
		return
	}
	p = runProc(s, args, pl, false)
	noPanic(s, p, "command-panic")
	if p.fired == nil {
		return
	}
	switch {
	case p.kind == simos.Cut || p.kind == simos.Flip || p.kind == simos.Zero:
		// wrong data may or may not be recognisable
		if p.code != 0 && !hasMessage(p.text) {
			s.Fail("command-no-message", "%q fails with status %d without an error message", args, p.code)
		}
	case p.fired.Name == "stdout":
		if p.code == 0 {
			s.Fail("command-status", "%q exits with 0 although writing its output failed (%s); it wrote %d of %d bytes", args, p.kind, len(p.out), len(good))
		}
	case p.fired.Name == "close":
	default:
		if p.code == 0 {
			s.Fail("command-status", "%q exits with 0 although %s of %s failed (%s)", args, p.fired.Name, p.fired.Path, p.kind)
		}
		if !hasMessage(p.text) {
			s.Fail("command-no-message", "%q fails with status %d without an error message", args, p.code)
		}
	}
}

// commandBad runs commands that must be refused.
func commandBad(s *simrt.Sim, n *NetSpec, file string) {
	v := n.nonUtility()[0]
	good := n.Vars[v].Name + "=" + n.Vars[v].Outcomes[0]
	var args []string
	tolerant := false
	// a data file that would do
	withData := func() *csvOpt {
		o := genCSV(s, n)
		simos.Cur.Put("data.csv", n.csv(s, n.cover(s, nil), o))
		return o
	}
	switch s.W(23) {
	case 21, 22:
		x := n.Vars[v].Name
		args = []string{"bbn", "inference", file, "-e", []string{x + "=", "=" + n.Vars[v].Outcomes[0], "=", x + "==", good + ","}[s.W(5)]}
	case 0:
		args = []string{"bbn", "inference", file, "-e", "NoSuchVariable=x"}
	case 1:
		args = []string{"bbn", "inference", file, "-e", n.Vars[v].Name + "=NoSuchOutcome"}
	case 2:
		args = []string{"bbn", "inference", file, "-e", n.Vars[v].Name}
	case 3:
		args = []string{"bbn", "inference", file, "-e", good + "=x"}
	case 4:
		args = []string{"bbn", "inference", "missing.yml"}
	case 5:
		args = []string{"bbn", "inference"}
	case 6:
		args = []string{"bbn", "inference", file, file}
	case 7:
		args = []string{"bbn", "inference", file, "--nope"}
	case 8:
		args = []string{"bbn", "nope"}
	case 9:
		args = []string{"bbn", "inference", "/work"}
	case 10:
		args = []string{"bbn", "inference", file + "x"}
		d, _ := simos.Cur.Get(file)
		simos.Cur.Put(file+"x", d)
		defer simos.Remove(file + "x")
	case 11:
		us := n.utilities()
		if len(us) == 0 {
			return
		}
		args = []string{"bbn", "inference", file, "-e", n.Vars[us[s.W(len(us))]].Name + "=util"}
	case 12:
		args = []string{"bbn", "train", file}
	case 13:
		args = []string{"bbn", "train", file, "missing.csv"}
	case 14:
		args = []string{"bbn", "train", file, "missing.csv", "--delim", []string{";;", ""}[s.W(2)]}
	case 15:
		args = []string{"bbn", "train", "missing.yml", file}
	case 16:
		// a color that does not exist need not be refused, but must not be fatal
		tolerant = true
		c := *n
		c.Vars = append([]VarSpec{}, n.Vars...)
		c.Vars[s.W(len(c.Vars))].Color = []string{"nocolor", "Red", "#ff0000", "0"}[s.W(4)]
		simos.Cur.Put("colors.yml", c.YAML(s.W(8)))
		defer simos.Remove("colors.yml")
		args = []string{"bbn", "inference", "colors.yml"}
	case 20:
		// blanks are part of names
		args = []string{"bbn", "inference", file, "-e", []string{" " + good, good + " ", strings.Replace(good, "=", " =", 1), strings.Replace(good, "=", "= ", 1)}[s.W(4)]}
	case 17, 18, 19:
		o := withData()
		defer simos.Remove("data.csv")
		args = trainArgs(s, file, "data.csv", o)
		p := runProc(s, args, nil, false)
		noPanic(s, p, "command-panic")
		if p.code != 0 {
			s.Fail("command-rejected", "a valid command failed: %q\n%s", args, p)
		}
		if s.P(1, 2) {
			trainFault(s, args, p)
			return
		}
		d := string(o.delim)
		switch s.W(6) {
		case 0:
			args = append(args, "-d", []string{d + d, d + ",", "", d + "x", "<" + d}[s.W(5)])
		case 1:
			args = append(args, "data.csv")
		case 2:
			args = append(args, "--nope")
		case 3:
			args[1] = "trian"
		case 4:
			args[2], args[3] = args[3], args[2]
		case 5:
			args = append(args, "--no-data="+n.Vars[v].Outcomes[0])
		}
	}
	p := runProc(s, args, nil, false)
	noPanic(s, p, "command-panic")
	if p.code == 0 && tolerant {
		return
	}
	if p.code == 0 {
		s.Fail("command-accepted", "%q exits with 0", args)
	}
	if !hasMessage(p.text) {
		s.Fail("command-no-message", "%q fails with status %d without an error message", args, p.code)
	}
}

// trainFault runs a training that works without faults once more with one.
func trainFault(s *simrt.Sim, args []string, good *proc) {
	pl := planFault(s, good.ops, false, nil)
	if pl == nil {
		return
	}
	p := runProc(s, args, pl, false)
	noPanic(s, p, "command-panic")
	if p.fired == nil || p.fired.Name == "close" {
		return
	}
	if p.code == 0 {
		s.Fail("command-status", "%q exits with 0 although %s of %s failed (%s)", args, p.fired.Name, p.fired.Path, p.kind)
	}
	if p.fired.Name != "stdout" && !hasMessage(p.text) {
		s.Fail("command-no-message", "%q fails with status %d without an error message", args, p.code)
	}
}

func commandHelp(s *simrt.Sim) {
	args := [][]string{{"bbn"}, {"bbn", "-h"}, {"bbn", "help"}, {"bbn", "inference", "--help"}, {"bbn", "train", "-h"}, {"bbni", "-h"}}[s.W(6)]
	p := runProc(s, args, nil, false)
	noPanic(s, p, "command-panic")
	if p.code != 0 || !strings.Contains(p.out, "Usage:") {
		s.Fail("command-help", "%q: %s", args, p)
	}
}
