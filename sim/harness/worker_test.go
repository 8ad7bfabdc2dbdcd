package harness

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"testing/synctest"
	"time"
	"unsafe"

	"verifsim/simrt"
)

// Scenario is how one property is simulated.
type Scenario func(c *Case)

var scenarios = map[string]Scenario{}

// Tapes are the choices of one case.
type Tapes struct {
	W, F, S []uint32
}

type job struct {
	Prop   string
	Seed   uint64
	From   int
	To     int
	Stride int
	Tier   int
	Out    string
	Mem    string
	Replay *Tapes
	// DetEvery re-runs one case in DetEvery and compares the event logs.
	DetEvery int
	Secs     int // stop taking new cases after that long
}

type caseLine struct {
	K       string
	I       int
	Seed    uint64
	Viols   []Viol            `json:",omitempty"`
	Notes   []string          `json:",omitempty"`
	Faults  map[string]int    `json:",omitempty"`
	Tags    map[string]int    `json:",omitempty"`
	Tapes   *Tapes            `json:",omitempty"`
	Trace   []simrt.SwitchRec `json:",omitempty"`
	Tail    []simrt.Event     `json:",omitempty"`
	LogHash string            `json:",omitempty"`
	Steps   int64
	Tasks   int
	Trouble string `json:",omitempty"`
}

type statLine struct {
	K         string
	Next      int
	Cases     int
	SimRuns   int
	Steps     int64
	Switches  int64
	Decisions int64
	SimNS     int64
	MaxTasks  int
	Faults    map[string]int
	Tags      map[string]int
	Hashes    []string // distinct non-trivial executions
	Scheds    []string // distinct schedules
	DetRuns   int
	DetDiff   int // reruns that took another course
	Done      bool
}

const tapeWords = 1 << 20

func caseSeed(base uint64, prop string, i int) uint64 {
	return simrt.Mix(simrt.Mix(base^hashString(prop)) + uint64(i)*0x9E3779B97F4A7C15)
}

type worker struct {
	j     job
	out   *bufio.Writer
	f     *os.File
	mem   []uint32
	stats statLine
	last  time.Time
}

func (w *worker) emit(v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	w.out.Write(b)
	w.out.WriteByte('\n')
	w.out.Flush()
}

func (w *worker) flush(next int, done bool) {
	s := &w.stats
	s.K, s.Next, s.Done = "stats", next, done
	w.emit(s)
	w.stats = statLine{Faults: map[string]int{}, Tags: map[string]int{}}
	w.last = time.Now()
}

func TestWorker(t *testing.T) {
	path := os.Getenv("VERIFSIM_JOB")
	if path == "" {
		t.Skip("no job")
	}
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		os.Exit(4)
	}
	w := &worker{}
	if err := json.Unmarshal(b, &w.j); err != nil {
		fmt.Println(err)
		os.Exit(4)
	}
	sc := scenarios[w.j.Prop]
	if sc == nil {
		fmt.Println("no scenario for", w.j.Prop)
		os.Exit(4)
	}
	w.f, err = os.OpenFile(w.j.Out, os.O_WRONLY|os.O_CREATE|os.O_APPEND, 0o644)
	if err != nil {
		fmt.Println(err)
		os.Exit(4)
	}
	w.out = bufio.NewWriter(w.f)
	w.mapMem()
	debug.SetMaxStack(192 << 20)
	debug.SetTraceback("single")
	if !simrt.RaceEnabled {
		lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	w.stats = statLine{Faults: map[string]int{}, Tags: map[string]int{}}
	w.last = time.Now()
	w.work(t, sc)
	w.out.Flush()
	os.Exit(0)
}

func (w *worker) mapMem() {
	f, err := os.OpenFile(w.j.Mem, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		panic(err)
	}
	n := 4 * (16 + 3*tapeWords)
	if err := f.Truncate(int64(n)); err != nil {
		panic(err)
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, n, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	w.mem = unsafe.Slice((*uint32)(unsafe.Pointer(&b[0])), n/4)
	w.mem[0] = 0xffffffff
}

func (w *worker) tapes(seed uint64) (a, b, c *simrt.Tape) {
	if r := w.j.Replay; r != nil {
		return simrt.ReplayTape(r.W), simrt.ReplayTape(r.F), simrt.ReplayTape(r.S)
	}
	m := w.mem[16:]
	return simrt.NewTapeIn(simrt.Mix(seed+1), m[:tapeWords:tapeWords]),
		simrt.NewTapeIn(simrt.Mix(seed+2), m[tapeWords:2*tapeWords:2*tapeWords]),
		simrt.NewTapeIn(simrt.Mix(seed+3), m[2*tapeWords:3*tapeWords:3*tapeWords])
}

func (w *worker) work(t *testing.T, sc Scenario) {
	start := time.Now()
	i := w.j.From
	for ; i < w.j.To; i += w.j.Stride {
		if w.j.Secs > 0 && time.Since(start) > time.Duration(w.j.Secs)*time.Second {
			break
		}
		c := w.one(t, sc, i)
		w.account(c, i)
		if w.j.DetEvery > 0 && len(c.Viols) == 0 && (i/w.j.Stride)%w.j.DetEvery == 0 {
			w.again(t, sc, i, c)
		}
		if time.Since(w.last) > 2*time.Second || len(w.stats.Hashes) > 4000 {
			w.flush(i+w.j.Stride, false)
		}
	}
	w.flush(i, true)
}

func (w *worker) one(t *testing.T, sc Scenario, i int) *Case {
	seed := caseSeed(w.j.Seed, w.j.Prop, i)
	w.mem[1] = uint32(i)
	w.mem[0] = 1
	a, b, s := w.tapes(seed)
	c := newCase(a, b, s, w.j.Tier)
	c.Seed = seed
	simrt.OnStuck = func(kind string, r simrt.Result) {
		c.Last = r
		d := fmt.Sprintf("simulation %q is stuck (%s) after %d statements, %d tasks", c.simName, kind, r.Steps, r.Tasks)
		c.Fail("stuck:"+kind, "%s\n%s", d, stuckStacks(kind))
		c.finish()
		w.report(c, i)
		w.account(c, i)
		w.flush(i+w.j.Stride, false)
		w.out.Flush()
		os.Exit(3)
	}
	firedReset()
	synctest.Test(t, func(t *testing.T) { sc(c) })
	c.finish()
	if len(c.Viols) > 0 {
		w.report(c, i)
	}
	w.mem[0] = 0
	return c
}

func (w *worker) report(c *Case, i int) {
	w.emit(caseLine{K: "viol", I: i, Seed: c.Seed, Viols: c.Viols, Notes: c.Notes, Faults: c.Faults, Tags: c.Tags,
		Tapes: &Tapes{append([]uint32{}, c.W.Used()...), append([]uint32{}, c.F.Used()...), append([]uint32{}, c.S.Used()...)},
		Trace: c.Last.Trace, Tail: c.Last.Tail, LogHash: strconv.FormatUint(c.LogHash, 16), Steps: c.Steps, Tasks: c.Tasks})
}

// again re-runs a case from its recorded tapes: the event logs must be equal.
func (w *worker) again(t *testing.T, sc Scenario, i int, first *Case) {
	r := &Tapes{append([]uint32{}, first.W.Used()...), append([]uint32{}, first.F.Used()...), append([]uint32{}, first.S.Used()...)}
	old := w.j.Replay
	w.j.Replay = r
	c := w.one(t, sc, i)
	w.j.Replay = old
	w.stats.DetRuns++
	if c.LogHash != first.LogHash || c.Steps != first.Steps {
		w.stats.DetDiff++
	}
}

func (w *worker) account(c *Case, i int) {
	s := &w.stats
	s.Cases++
	s.SimRuns += c.SimRuns
	s.Steps += c.Steps
	s.Switches += c.Switches
	s.Decisions += c.Decisions
	s.SimNS += int64(c.SimTime)
	if c.Tasks > s.MaxTasks {
		s.MaxTasks = c.Tasks
	}
	for k, v := range c.Faults {
		s.Faults[k] += v
	}
	for k, v := range c.Tags {
		s.Tags[k] += v
	}
	h := uint64(14695981039346656037)
	for _, t := range []*simrt.Tape{c.W, c.F} {
		for _, v := range t.Used() {
			h = (h ^ uint64(v)) * 1099511628211
		}
		h = simrt.Mix(h)
	}
	if !c.plainOnly && (c.FaultN > 0 || c.Decisions > 0 || c.splits > 0) {
		s.Hashes = append(s.Hashes, strconv.FormatUint(simrt.Mix(h^c.LogHash), 36))
	}
	if c.Decisions > 0 {
		s.Scheds = append(s.Scheds, strconv.FormatUint(c.SchedHash, 36))
	}
	if i < 3 || len(c.Viols) == 0 && i%997 == 0 && i < 5000 {
		w.emit(caseLine{K: "sample", I: i, Seed: c.Seed, Notes: c.Notes, Faults: c.Faults, Tags: c.Tags, Steps: c.Steps, Tasks: c.Tasks, LogHash: strconv.FormatUint(c.LogHash, 16)})
	}
}

// stuckStacks describes where the tasks are.
func stuckStacks(kind string) string {
	b := make([]byte, 1<<18)
	b = b[:runtimeStack(b, kind != "step-budget")]
	var out []string
	for _, g := range strings.Split(string(b), "\n\n") {
		if !strings.Contains(g, "hpinc/go3mf") && !strings.Contains(g, "qmuntal/opc") {
			continue
		}
		n := 0
		for _, l := range strings.Split(g, "\n") {
			if (strings.HasPrefix(l, "github.com/hpinc/go3mf") || strings.HasPrefix(l, "github.com/qmuntal/opc")) && n < 5 {
				if k := strings.LastIndex(l, "("); k > 0 {
					l = l[:k]
				}
				out = append(out, strings.TrimPrefix(l, "github.com/hpinc/"))
				n++
			}
		}
		if len(out) > 16 {
			break
		}
	}
	return strings.Join(out, " < ")
}
