// Package harness holds the simulated scenarios: each drives the real code
// under the simulator with one seed and checks a property's oracle.
package harness

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"verifsim/simrt"
)

// Viol is a violation found in a case.
type Viol struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

// Case is one simulated execution: everything it does is a function of its
// three tapes.
type Case struct {
	W, F, S *simrt.Tape // workload, faults, schedule
	Seed    uint64
	Tier    int // 0 quick, 1 thorough

	Viols  []Viol
	Faults map[string]int
	Tags   map[string]int
	Notes  []string

	SimRuns   int
	Steps     int64
	Switches  int64
	Decisions int64
	SimTime   time.Duration
	Tasks     int
	SchedHash uint64
	LogHash   uint64
	WorkHash  uint64
	FaultN    int
	Last      simrt.Result
	tolerate  bool // panics are part of the scenario
	quiet     bool
	cfgGap    int // forced mean gap, -1: drawn
	budget    int64
	simName   string
	splits    int
	plainOnly bool // nothing about the case makes it non-trivial by itself
}

func newCase(w, f, s *simrt.Tape, tier int) *Case {
	return &Case{W: w, F: f, S: s, Tier: tier, Faults: map[string]int{}, Tags: map[string]int{},
		SchedHash: 14695981039346656037, LogHash: 14695981039346656037, WorkHash: 14695981039346656037, cfgGap: -1, budget: 60_000_000}
}

func mixin(h *uint64, v uint64) { *h = simrt.Mix(*h ^ v) }

func hashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// Fail records a violation.
func (c *Case) Fail(class, format string, args ...interface{}) {
	d := fmt.Sprintf(format, args...)
	if len(d) > 3000 {
		d = d[:3000] + "…"
	}
	if len(c.Viols) < 8 {
		c.Viols = append(c.Viols, Viol{class, d})
	}
}

// Note adds a line to the narrative of the case.
func (c *Case) Note(format string, args ...interface{}) {
	if len(c.Notes) < 400 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 600 {
			s = s[:600] + "…"
		}
		c.Notes = append(c.Notes, s)
	}
}

// Fault counts an injected fault that reached the code under test.
func (c *Case) Fault(kind string) { c.Faults[kind]++; c.FaultN++ }

// Tag counts an outcome or a configuration.
func (c *Case) Tag(kind string) { c.Tags[kind]++ }

// Sim runs f as the first task of a simulation under the case's schedule tape.
func (c *Case) Sim(name string, f func()) simrt.Result {
	gaps := []int{0, 300, 60, 15, 4, 1}
	cfg := simrt.Config{Tape: c.S, Budget: c.budget}
	cfg.MeanGap = gaps[c.S.Draw(len(gaps))]
	if c.cfgGap >= 0 {
		cfg.MeanGap = c.cfgGap
	}
	if cfg.MeanGap > 0 {
		cfg.IOPre = c.S.Draw(2)
		if c.S.Chance(1, 4) {
			cfg.SlowPct = 30
		}
	}
	if !c.quiet {
		c.Note("simulation %q: mean preemption gap %d statements, preempt at I/O: %d, starved tasks: %d%%", name, cfg.MeanGap, cfg.IOPre, cfg.SlowPct)
	}
	return c.run(name, cfg, f)
}

func (c *Case) run(name string, cfg simrt.Config, f func()) simrt.Result {
	inflight = c
	c.simName = name
	r := simrt.Run(cfg, f)
	c.SimRuns++
	c.Steps += r.Steps
	c.Switches += r.Switches
	c.Decisions += r.Decisions
	c.SimTime += r.SimTime
	if r.Tasks > c.Tasks {
		c.Tasks = r.Tasks
	}
	mixin(&c.SchedHash, r.SchedHash)
	mixin(&c.LogHash, r.LogHash)
	mixin(&c.LogHash, uint64(r.Steps))
	c.Last = r
	if !c.tolerate {
		for _, p := range r.Panics {
			c.panicked(p)
		}
	}
	return r
}

// finish collects what the seams counted.
func (c *Case) finish() {
	for k := 0; k < nfk; k++ {
		if fkN[k] > 0 {
			c.Faults[fkNames[k]] += fkN[k]
		}
	}
	c.FaultN += firedTotal()
	c.splits = fkN[fkChunk]
	firedReset()
}

func (c *Case) panicked(p simrt.PanicInfo) {
	fn := panicSite(p.Stack)
	if fn == "" {
		panic("harness panic: " + p.Value + "\n" + p.Stack)
	}
	c.Fail("panic:"+fn, "panic in %s: %s\n%s", p.Task, p.Value, trimStack(p.Stack))
}

// panicSite returns the innermost function of the code under test on the stack
// of a panic, or "" if the harness itself panicked without it.
func panicSite(stack string) string {
	lines := strings.Split(stack, "\n")
	i := 0
	for j, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			i = j
		}
	}
	for ; i < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "github.com/hpinc/go3mf") || strings.HasPrefix(l, "github.com/qmuntal/opc") {
			if k := strings.LastIndex(l, "("); k > 0 {
				l = l[:k]
			}
			return strings.TrimPrefix(l, "github.com/hpinc/")
		}
	}
	return ""
}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "go3mf") || strings.Contains(l, "opc") || strings.HasPrefix(l, "panic(") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// inflight is the case being simulated, for reports from inside a stuck run.
var inflight *Case

func sortedKeys(m map[string]int) []string {
	k := make([]string, 0, len(m))
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}
