package main

const simRule = "A case is one seed expanded into three choice tapes (workload, faults, schedule). It is non-trivial if at least one fault reached the code under test, or one scheduling decision between two runnable tasks was taken, or one byte stream was split; two cases are distinct if their tapes used or their event logs differ. "

var realComponents = []string{
	"go3mf (all packages, built from the working tree with yield points)",
	"github.com/qmuntal/opc (real code, with yield points)",
	"archive/zip, compress/flate, encoding/xml, bufio, context of the Go standard library (real)",
}

var assumptions = []string{
	"tasks are preempted between statements of go3mf and opc, at lock, channel and wait group operations and at I/O, not inside the standard library",
	"the sampled seeds are evidence, not proof",
}

var (
	stubSched = "goroutine scheduling, sync and map iteration order: decided by the schedule tape (verifsim/simrt, simsync)"
	stubClock = "time: the fake clock of testing/synctest"
	stubIO    = "readers, writers and part streams: simulated streams of the harness"
	stubDisk  = "package os: simulated disk with torn and lost writes (verifsim/simos)"
	stubRand  = "random source of UUIDs: simulated"
)

var plans = map[string]plan{
	"C01": {quick: 25000, thorough: 300000, level: "exploration", stub: []string{stubSched, stubClock, stubIO, stubDisk},
		rule: simRule + "A drawn model is encoded to a shaped writer or to the simulated disk and decoded from shaped streams; the result is compared with the model field by field."},
	"C02": {quick: 40000, thorough: 400000, level: "exploration", stub: []string{stubSched, stubClock, stubIO, stubDisk},
		rule: simRule + "One or more write-side operations of the encoding fail; a reported success is checked against the bytes that arrived."},
	"C03": {quick: 45000, thorough: 400000, level: "exploration", stub: []string{stubSched, stubClock, stubIO, stubDisk},
		rule: simRule + "The disk crashes while a package is saved, or a stored package is truncated or damaged; what is left is decoded."},
	"C04": {quick: 45000, thorough: 500000, level: "exploration", stub: []string{stubSched, stubClock, stubIO, stubDisk},
		rule: simRule + "Reads of the package, of its parts or of its file fail while it is decoded; a reported success is checked against the model saved."},
	"C05": {quick: 45000, thorough: 500000, level: "exploration", stub: []string{stubSched, stubClock, stubIO},
		rule: simRule + "Documents and packages are mutated structurally or bytewise and decoded; panics, deadlocks, statements executed and bytes allocated are monitored."},
	"C06": {quick: 15000, thorough: 200000, raceQuick: 1200, raceThorough: 20000, level: "exploration", stub: []string{stubSched, stubClock, stubIO},
		rule: simRule + "Packages with 1 to 9 child models and an optional set of bad parts (malformed, invalid value, failing stream, unreadable) are decoded twice under drawn schedules."},
	"C07": {quick: 7000, thorough: 80000, level: "exploration", stub: []string{stubSched, stubClock, stubIO},
		rule: simRule + "Decodes and imports of parts well above the check interval are cancelled inside a read, by another task, by a deadline or before they start."},
	"C08": {quick: 60000, thorough: 800000, level: "exploration", stub: []string{stubSched, stubClock, stubIO},
		rule: simRule + "Sequences of STL imports from shaped, failing, truncated or lying streams into models with other content."},
	"C09": {quick: 200000, thorough: 3000000, raceQuick: 3000, raceThorough: 40000, level: "exploration", stub: []string{stubSched, stubClock},
		rule: simRule + "The bounding box of a drawn model with shared components, child models and affine transforms is computed under drawn schedules and compared with the harness's own exact computation."},
	"C10": {quick: 180000, thorough: 3000000, raceQuick: 3000, raceThorough: 40000, level: "exploration", stub: []string{stubSched, stubClock},
		rule: simRule + "Models with drawn coherent and incoherent meshes in root and child models are validated under drawn schedules; the reports are compared as a set with the harness's own edge analysis."},
	"C11": {quick: 26000, thorough: 400000, raceQuick: 1200, raceThorough: 15000, level: "exploration", stub: []string{stubSched, stubClock, stubIO},
		rule: simRule + "2 to 5 tasks run drawn read-only operations on one model; each result is compared with that of the same operation run alone, and the model with a copy taken before."},
	"C12": {quick: 60000, thorough: 1000000, raceQuick: 2500, raceThorough: 30000, level: "exploration", stub: []string{stubSched, stubClock, stubIO},
		rule: simRule + "Histories of concurrent Register, Load and LoadValidator calls are checked for linearizability against a map; decodes that run meanwhile are checked against the registrations that overlap them."},
	"C13": {quick: 150000, thorough: 2000000, level: "exploration", stub: []string{stubClock, stubRand},
		rule: simRule + "UUIDs are filled in from a random source that delivers bytes piecemeal and fails at drawn positions, with retries; every identifier is compared with the bytes delivered and with the model before."},
	"C14": {quick: 10000, thorough: 120000, raceQuick: 1000, raceThorough: 12000, level: "exploration", stub: []string{stubSched, stubClock, stubIO},
		rule: simRule + "2 to 6 independent encodes, decodes, marshals and imports, some failing or cancelled, run at once; each result is compared with that of the operation run alone."},
	"C15": {quick: 22000, thorough: 300000, raceQuick: 800, raceThorough: 8000, level: "exploration", stub: []string{stubSched, stubClock, stubIO},
		rule: simRule + "Attribute values of root and child models are made invalid and the package is decoded non-strictly under drawn schedules; model and reported errors are compared with those expected, one by one."},
	"C16": {quick: 22000, thorough: 300000, level: "exploration", stub: []string{stubSched, stubClock, stubIO},
		rule: simRule + "One decoder (or a new one) is used for 1 to 4 attempts that fail, are cancelled or succeed, and then once without faults; the last result is compared with that of a first decode."},
	"C17": {quick: 50000, thorough: 600000, level: "exploration", stub: []string{stubSched, stubClock, stubIO, stubDisk},
		rule: simRule + "Decodes and encodes with drawn outcomes; streams, handles and tasks opened are counted against those closed, and uses after close recorded."},
	"C18": {quick: 16000, thorough: 90000, level: "exploration", stub: []string{stubSched, stubClock, stubIO},
		rule: simRule + "The package of a drawn model is rewritten in another notation that says the same, decoded from shaped streams under drawn schedules, and compared with the model; what was loaded is saved and loaded again."},
}
