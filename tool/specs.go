package main

// spec describes the check of one property for the driver and the evidence.
type spec struct {
	quick  int // runs in the quick tier
	deep   int // factor for the thorough tier
	race   int // runs of the race stage, per thousand runs
	level  string
	rule   string
	real   []string
	stub   []string
	assume []string
}

var libReal = []string{"package bbn (network, YAML, BIF-XML, training)", "package ve", "package logic", "gopkg.in/yaml.v3, encoding/xml, encoding/csv"}
var cliReal = append(append([]string{}, libReal...), "cmd/bbn or cmd/bbni main with cobra", "internal/tui (for rendering)")
var tuiReal = append(append([]string{}, libReal...), "cmd/bbni main with cobra", "internal/tui", "rivo/tview (application, event loop, drawing)")
var libStub = []string{"Go map iteration order (decided by the simulator)", "thread scheduling at statement granularity (decided by the simulator)"}
var ioStub = append(append([]string{}, libStub...), "package os: in-memory disk with page cache, durable state and directory entries", "standard streams", "process exit")
var tuiStub = append(append([]string{}, ioStub...), "terminal: tcell simulation screen, events injected by the simulator", "clock: testing/synctest")

var commonAssume = []string{
	"the sequential reference model in sim/ref_test.go, logicref_test.go and net_test.go (written from the definitions, checked against brute-force enumeration) is right",
	"preemption happens between statements; weak memory effects are not simulated (unsynchronised accesses by different users are reported by the race stage of C06, C14, C15)",
	"generated networks are small (see DESIGN.md for the bounds); probabilities are compared with relative tolerance 1e-9 (1e-6 where ties or divisions amplify rounding)",
}

var ioAssume = append(append([]string{}, commonAssume...),
	"the simulated disk: data reaches the disk on Sync or at the whim of the simulator, directory operations are ordered per directory, rename is atomic",
)

var specs = map[string]spec{
	"C01": {quick: 150000, deep: 60, level: "exploration", real: libReal, stub: libStub, assume: commonAssume,
		rule: "A random network (chance, decision, utility nodes; tables or logic operators) lives through a random history of queries with varying evidence, while the simulator decides the order of every map iteration; every returned posterior is compared with exact inference in the reference model."},
	"C02": {quick: 60000, deep: 60, level: "exploration", real: libReal, stub: libStub, assume: commonAssume,
		rule: "The same history of calls is executed twice under two different simulator-chosen map orders and networks built in different ways; every result must be equal bit for bit."},
	"C03": {quick: 120000, deep: 60, level: "exploration", real: libReal, stub: libStub, assume: commonAssume,
		rule: "Random decision networks are solved under simulator-chosen map orders; the policies are compared with those found by backward induction in the reference model, ties excepted."},
	"C04": {quick: 120000, deep: 60, level: "exploration", real: libReal, stub: libStub, assume: commonAssume,
		rule: "Random decision networks are solved and queried for utilities under simulator-chosen map orders and random histories; every expected utility is compared with the reference model."},
	"C05": {quick: 240000, deep: 60, level: "exploration", real: libReal, stub: libStub, assume: commonAssume,
		rule: "A random history of calls on one network, including calls that fail and results that the caller modifies; every result must be what a fresh network returns for the same question."},
	"C06": {quick: 50000, deep: 60, race: 80, level: "exploration", real: libReal, stub: libStub, assume: commonAssume,
		rule: "2-4 tasks, each with its own network, trainer, files or logic operators, run interleaved at statement granularity under a seeded scheduler with bounded preemptions; each task must observe exactly what it observes when it runs alone."},
	"C07": {quick: 300000, deep: 60, level: "exploration", real: libReal, stub: libStub, assume: commonAssume,
		rule: "Random structures, random samples (with missing values), fed through the trainer or `bbn train` in a random order; the resulting tables are compared with relative frequencies and means counted by the reference model."},
	"C08": {quick: 300000, deep: 60, level: "exploration", real: cliReal, stub: ioStub, assume: ioAssume,
		rule: "Training histories in which a sample, a file or a disk operation fails at a simulator-chosen point; afterwards the network, the files and later training must be as if the failed step had never happened."},
	"C09": {quick: 200000, deep: 60, level: "exploration", real: cliReal, stub: ioStub, assume: ioAssume,
		rule: "Random networks are written as YAML or BIF-XML by an independent writer in many styles, corrupted or not, and read through a disk that fails, cuts, flips or zeroes at a simulator-chosen operation; what loads must be what was written, everything else must be an error."},
	"C10": {quick: 16000, deep: 40, level: "exploration", real: tuiReal, stub: tuiStub, assume: ioAssume,
		rule: "Networks go through several generations of save and load (library, `bbn train`, moving nodes and Ctrl+S in bbni); after each one the network must answer and look the same."},
	"C11": {quick: 4000, deep: 30, level: "exploration", real: tuiReal, stub: tuiStub, assume: ioAssume,
		rule: "A bbni session edits and saves while a disk fault, a kill or a power loss strikes at a simulator-chosen disk operation of the save; afterwards the file must hold the old or the new network in full, and the new one if the save was confirmed."},
	"C12": {quick: 3000, deep: 30, level: "exploration", real: tuiReal, stub: tuiStub, assume: ioAssume,
		rule: "bbni sessions on a simulated terminal: modelled sessions compare every displayed probability, table and state with the reference model after each event; wild sessions inject arbitrary keys, mouse events and resizes; start faults fail the disk while starting."},
	"C13": {quick: 120000, deep: 60, level: "exploration", real: cliReal, stub: ioStub, assume: ioAssume,
		rule: "bbn commands with valid and invalid arguments and files, with faults on reading and on standard output at simulator-chosen operations; exit status and output are compared with the reference model."},
	"C14": {quick: 400000, deep: 60, race: 40, level: "exploration", real: libReal, stub: libStub, assume: commonAssume,
		rule: "Several callers obtain, configure and evaluate logic operators interleaved at statement granularity; every table must follow from the documented meaning and the caller's own arguments."},
	"C15": {quick: 300000, deep: 60, race: 80, level: "exploration", real: []string{"package ve"}, stub: libStub, assume: commonAssume,
		rule: "1-3 users, each with variables of its own, perform random histories of factor operations or build and solve engines, interleaved at statement granularity; every result is compared with the definition, and all earlier factors must stay as they were."},
}
