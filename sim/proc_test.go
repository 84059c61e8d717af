package verifsim

import (
	"fmt"
	"io"
	"os"
	"regexp"
	"strings"

	"github.com/mlange-42/bbn/internal/verifsim/cli_bbn"
	"github.com/mlange-42/bbn/internal/verifsim/cli_bbni"
	"github.com/mlange-42/bbn/internal/verifsim/simos"
	"github.com/mlange-42/bbn/internal/verifsim/simrt"
)

// proc is the observed end of a simulated process.
type proc struct {
	code    int
	crashed bool // killed by an injected crash or power loss
	panicV  any  // it panicked (exit status 2 in reality)
	stack   string
	out     string    // standard output
	text    string    // everything printed
	fired   *simos.Op // the operation at which the planned fault fired
	kind    simos.Kind
	ops     []simos.Op
}

func (p *proc) String() string {
	t := fmt.Sprintf("exit status %d", p.code)
	if p.panicV != nil {
		t = fmt.Sprintf("panic: %v\n%s", p.panicV, p.stack)
	}
	if p.crashed {
		t = "killed"
	}
	return t + "\nstdout:\n" + p.out
}

// plan is a fault to inject: the n-th operation that the filter accepts.
type plan struct {
	at   int
	kind simos.Kind
}

var realOut *os.File

// capture redirects the real standard output (used by the command line
// library for help texts) to a scratch file.
func capture() func() []byte {
	if realOut == nil {
		f, err := os.CreateTemp("", "verif-out-")
		if err != nil {
			panic(simrt.HarnessError{Msg: err.Error()})
		}
		os.Remove(f.Name())
		realOut = f
	}
	if off, _ := realOut.Seek(0, io.SeekCurrent); off > 0 {
		realOut.Truncate(0)
		realOut.Seek(0, io.SeekStart)
	}
	old, oldErr, oldArgs := os.Stdout, os.Stderr, os.Args
	os.Stdout = realOut
	os.Stderr = realOut
	return func() []byte {
		os.Stdout, os.Stderr, os.Args = old, oldErr, oldArgs
		n, _ := realOut.Seek(0, io.SeekCurrent)
		if n == 0 {
			return nil
		}
		b := make([]byte, n)
		realOut.ReadAt(b, 0)
		return b
	}
}

// runProc runs one command as a simulated process on the current disk.
func runProc(s *simrt.Sim, args []string, pl *plan, chunk bool) *proc {
	fs := simos.Cur
	fs.NewProcess()
	p := &proc{}
	fs.Decide = func(op simos.Op) simos.Kind {
		if pl != nil && op.N == pl.at {
			o := op
			p.fired = &o
			p.kind = pl.kind
			return pl.kind
		}
		return simos.None
	}
	if chunk {
		max := 1 + s.W(40)
		fs.Chunk = func(op simos.Op, want int) int { return 1 + s.W(max) }
	}
	s.Logf("$ %q", args)
	simos.Args = args
	restore := capture()
	os.Args = args
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch e := r.(type) {
				case simrt.ExitCode:
					p.code = e.Code
				case simrt.Crash:
					p.crashed = true
					p.code = 137
				default:
					restore()
					panic(r)
				}
			}
		}()
		p.panicV, p.stack = simrt.Guard(func() {
			switch args[0] {
			case "bbn":
				cli_bbn.Main()
			case "bbni":
				cli_bbni.Main()
			}
		})
	}()
	real := restore()
	if p.panicV != nil {
		p.code = 2
	}
	p.out = string(fs.Out) + string(real)
	p.text = p.out + string(fs.Err)
	p.ops = fs.Ops
	fs.Decide, fs.Chunk = nil, nil
	fs.Frozen = false
	if p.panicV != nil {
		s.Logf("-> panic %v", p.panicV)
	} else {
		s.Logf("-> exit %d, %d bytes of output, crashed=%v", p.code, len(p.out), p.crashed)
	}
	return p
}

// snapshot of all files.
func snapshot() map[string]string {
	res := map[string]string{}
	for _, f := range simos.Cur.Files() {
		d, _ := simos.Cur.Get(f)
		res[f] = string(d)
	}
	return res
}

// readKinds and friends: faults that make sense for an operation.
func kindsFor(op simos.Op, soft bool) []simos.Kind {
	switch op.Name {
	case "open":
		return []simos.Kind{simos.EACCES, simos.EMFILE, simos.ENOENT, simos.EIO}
	case "read":
		if soft {
			return []simos.Kind{simos.EIO, simos.Cut, simos.Flip, simos.Zero}
		}
		return []simos.Kind{simos.EIO}
	case "stdout":
		return []simos.Kind{simos.ENOSPC, simos.EIO, simos.Short}
	}
	return nil
}

// planFault chooses one of the operations of a fault-free run and a fault for it.
func planFault(s *simrt.Sim, ops []simos.Op, soft bool, want func(simos.Op) bool) *plan {
	var cand []simos.Op
	for _, o := range ops {
		if len(kindsFor(o, soft)) > 0 && (want == nil || want(o)) {
			cand = append(cand, o)
		}
	}
	if len(cand) == 0 {
		return nil
	}
	o := cand[s.F(len(cand))]
	ks := kindsFor(o, soft)
	return &plan{at: o.N, kind: ks[s.F(len(ks))]}
}

var numRE = regexp.MustCompile(`^([+-]?\d+\.\d{3}|NaN|[+-]Inf)%?$`)

// infOut is the parsed output of `bbn inference`.
type infOut struct {
	outcomes []string
	name     string
	values   []string
	evidence bool
}

// parseInference reads pairs of lines: outcomes, then name and values. Names
// and outcomes must not contain blanks.
func parseInference(out string) ([]infOut, string) {
	lines := strings.Split(strings.TrimRight(out, "\n"), "\n")
	var res []infOut
	if len(lines)%2 != 0 {
		return nil, fmt.Sprintf("odd number of lines (%d)", len(lines))
	}
	for i := 0; i+1 < len(lines); i += 2 {
		o := infOut{outcomes: strings.Fields(lines[i])}
		f := strings.Fields(lines[i+1])
		if len(f) < 2 {
			return nil, fmt.Sprintf("line %q", lines[i+1])
		}
		o.name = f[0]
		f = f[1:]
		if f[len(f)-1] == "+" {
			o.evidence = true
			f = f[:len(f)-1]
		}
		for _, x := range f {
			if !numRE.MatchString(x) {
				return nil, fmt.Sprintf("value %q in line %q", x, lines[i+1])
			}
			o.values = append(o.values, x)
		}
		res = append(res, o)
	}
	return res, ""
}

// hasMessage tells whether a text contains an error message.
func hasMessage(text string) bool { return strings.Contains(strings.ToLower(text), "error") }
