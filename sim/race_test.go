package verifsim

import (
	"fmt"
	"io"
	"os"
	"sort"
	"strings"

	"github.com/mlange-42/bbn/internal/verifsim/simrt"
)

// The race stage runs the same simulations in a build with Go's race detector.
// The handovers of the simulator's scheduler are hidden from the detector, so
// that two accesses of different tasks are ordered only if the system under
// test (or the harness, when it starts and joins tasks) orders them. A report
// counts if both accesses were made by the system under test.

var raceSeen int
var racePos int64

func raceLog() string {
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if p, ok := strings.CutPrefix(f, "log_path="); ok {
			return fmt.Sprintf("%s.%d", p, os.Getpid())
		}
	}
	return ""
}

// checkRaces records a violation if the detector reported a data race of the
// system under test since the last call.
func checkRaces(s *simrt.Sim) bool {
	n := simrt.RaceErrors()
	if n == raceSeen {
		return false
	}
	raceSeen = n
	f, err := os.Open(raceLog())
	if err != nil {
		panic(simrt.HarnessError{Msg: fmt.Sprintf("the race detector's log: %v", err)})
	}
	defer f.Close()
	if _, err := f.Seek(racePos, io.SeekStart); err != nil {
		panic(simrt.HarnessError{Msg: err.Error()})
	}
	data, err := io.ReadAll(f)
	if err != nil {
		panic(simrt.HarnessError{Msg: err.Error()})
	}
	racePos += int64(len(data))
	for _, r := range strings.Split(string(data), "==================") {
		if msg := raceReport(r); msg != "" {
			s.Record("data-race", "%s", msg)
			return true
		}
	}
	return false
}

// raceReport returns the two accesses of a report, or "" if it does not
// concern the system under test.
func raceReport(r string) string {
	if !strings.Contains(r, "WARNING: DATA RACE") {
		return ""
	}
	var acc []string
	in := false
	for _, l := range strings.Split(r, "\n") {
		switch {
		case strings.HasPrefix(l, "Read at"), strings.HasPrefix(l, "Write at"), strings.HasPrefix(l, "Previous "), strings.HasPrefix(l, "Atomic"):
			in = true
		case strings.TrimSpace(l) == "":
			in = false
		case strings.HasPrefix(l, "Goroutine "):
			in = false
		case in && strings.HasPrefix(l, "  ") && !strings.HasPrefix(l, "      "):
			fn := strings.TrimSuffix(strings.TrimSpace(l), "()")
			if !strings.Contains(fn, "github.com/mlange-42/bbn") || transparent(fn) {
				continue
			}
			in = false
			if strings.HasPrefix(fn, "github.com/mlange-42/bbn/internal/verifsim") && !strings.HasPrefix(fn, "github.com/mlange-42/bbn/internal/verifsim/cli_") {
				return "" // an access of the harness
			}
			acc = append(acc, strings.TrimPrefix(fn, "github.com/mlange-42/"))
		}
	}
	if len(acc) < 2 {
		return ""
	}
	sort.Strings(acc)
	return fmt.Sprintf("unsynchronised access to the same memory by two users: %s and %s", acc[0], acc[1])
}

// transparent functions access memory on behalf of their caller.
func transparent(fn string) bool {
	for _, p := range []string{"simrt.Map[", "simrt.Keys[", "/simmaps."} {
		if strings.Contains(fn, p) {
			return true
		}
	}
	return false
}
