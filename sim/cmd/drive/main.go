// Command drive runs one property's check: it builds the simulation from the
// working tree of the repository, runs seeded cases in worker processes, turns
// what they report into a verdict, minimises and writes replay files, and
// writes the evidence.
//
// usage: drive -prop C06 [-tier quick|thorough] [-replay FILE]
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

var (
	flagProp   = flag.String("prop", "", "property")
	flagTier   = flag.String("tier", "", "quick or thorough")
	flagReplay = flag.String("replay", "", "replay file")
	flagKeep   = flag.String("build", "", "use this build directory and keep it")
	flagCases  = flag.Int("cases", 0, "override the number of cases")
	flagNoMin  = flag.Bool("nomin", false, "do not minimise")
	flagNorace = flag.Bool("norace", false, "skip the race detector phase")
)

// Tapes are the choices of one case.
type Tapes struct{ W, F, S []uint32 }

type viol struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

type line struct {
	K       string
	I       int
	Seed    uint64
	Viols   []viol
	Notes   []string
	Faults  map[string]int
	Tags    map[string]int
	Tapes   *Tapes
	Trace   json.RawMessage
	Tail    json.RawMessage
	LogHash string
	Tasks   int
	Trouble string

	Next                              int
	Cases, SimRuns                    int
	Steps, Switches, Decisions, SimNS int64
	MaxTasks, DetRuns, DetDiff        int
	Hashes, Scheds                    []string
	Done                              bool
}

type job struct {
	Prop     string
	Seed     uint64
	From     int
	To       int
	Stride   int
	Tier     int
	Out      string
	Mem      string
	Replay   *Tapes
	DetEvery int
	Secs     int
}

// finding is one violating case.
type finding struct {
	Class  string
	Detail string
	Case   int
	Race   bool
	L      line
	From   int      // first case of the process it was found in
	Stride int      // every how many cases that process ran
	Hist   *history // the cases it needs before it, if it needs any
}

// history is a run of cases in one process: state that the code under test
// keeps between operations can make a case depend on those before it.
type history struct{ From, Stride, DetEvery int }

const detEvery = 40

type phase struct {
	name string
	race bool
	from int
	to   int
	secs int
}

// spec of one property's check.
type plan struct {
	quick, thorough         int // cases
	raceQuick, raceThorough int
	level                   string
	rule                    string
	real                    []string
	stub                    []string
}

type driver struct {
	root   string // /verif
	build  string
	prop   string
	tier   int
	seed   uint64
	mu     sync.Mutex
	finds  []finding
	trb    []string
	cases  int
	stat   line
	faults map[string]int
	tags   map[string]int
	hashes map[string]bool
	scheds map[string]bool
	sample []map[string]interface{}
	stop   bool
	start  time.Time
	simS   float64
	races  int
}

func main() {
	flag.Parse()
	exe, _ := os.Getwd()
	d := &driver{root: os.Getenv("VERIF_ROOT"), prop: *flagProp, faults: map[string]int{}, tags: map[string]int{}, hashes: map[string]bool{}, scheds: map[string]bool{}, start: time.Now()}
	if d.root == "" {
		d.root = filepath.Dir(exe)
	}
	t := *flagTier
	if t == "" {
		t = os.Getenv("VERIF_TIER")
	}
	if t == "thorough" {
		d.tier = 1
	}
	d.seed = 1
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		d.seed = uint64(s)
	}
	os.Exit(d.main())
}

func (d *driver) trouble(format string, a ...interface{}) int {
	fmt.Printf("check error: "+format+"\n", a...)
	return 2
}

func (d *driver) main() int {
	var rep *replay
	if *flagReplay != "" {
		b, err := os.ReadFile(*flagReplay)
		if err != nil {
			return d.trouble("%v", err)
		}
		rep = new(replay)
		if err := json.Unmarshal(b, rep); err != nil {
			return d.trouble("%v", err)
		}
		d.prop, d.seed, d.tier = rep.Property, rep.Seed, rep.Tier
	}
	p, ok := plans[d.prop]
	if !ok {
		return d.trouble("unknown property %q", d.prop)
	}
	fmt.Printf("property %s, seed %d, tier %s\n", d.prop, d.seed, tierName(d.tier))
	nrace := p.raceQuick
	n := p.quick
	if d.tier == 1 {
		n, nrace = p.thorough, p.raceThorough
	}
	if *flagCases > 0 {
		n = *flagCases
	}
	if *flagNorace {
		nrace = 0
	}
	needRace := nrace > 0
	if rep != nil {
		needRace = rep.Race
	}
	if *flagKeep != "" {
		d.build = *flagKeep
	} else {
		d.build = filepath.Join(d.root, ".build", fmt.Sprintf("%s-%d", d.prop, os.Getpid()))
		defer os.RemoveAll(d.build)
	}
	if _, err := os.Stat(filepath.Join(d.build, "h.test")); err != nil {
		os.MkdirAll(d.build, 0o755)
		args := []string{filepath.Join(d.root, "sim", "build.sh"), d.build}
		if needRace {
			args = append(args, "race")
		}
		out, err := exec.Command("bash", args...).CombinedOutput()
		if err != nil {
			return d.trouble("the simulation does not build: %v\n%s", err, tail(out, 4000))
		}
	}
	d.build, _ = filepath.Abs(d.build)
	os.RemoveAll(filepath.Join(d.build, "run"))
	os.MkdirAll(filepath.Join(d.build, "run"), 0o755)
	if rep != nil {
		return d.replay(rep)
	}
	simStart := time.Now()
	limit := 300
	if d.tier == 1 {
		limit = 780
	}
	d.phase(phase{"simulation", false, 0, n, limit})
	if needRace && len(d.finds) == 0 && len(d.trb) == 0 {
		left := limit + 120 - int(time.Since(simStart).Seconds())
		if d.tier == 1 {
			left = 820 - int(time.Since(d.start).Seconds())
		}
		d.phase(phase{"race detector", true, 1 << 24, 1<<24 + nrace, left})
	}
	d.simS = time.Since(simStart).Seconds()
	if len(d.finds) == 0 && len(d.trb) > 0 {
		for _, t := range d.trb {
			fmt.Println("trouble:", t)
		}
		return d.trouble("the simulation did not work")
	}
	known := loadKnown(filepath.Join(d.root, "known_findings.txt"), d.prop)
	var fresh []finding
	for _, f := range d.finds {
		hit := false
		for _, k := range known {
			if k.match(f) {
				hit = true
			}
		}
		if !hit {
			fresh = append(fresh, f)
		}
	}
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", d.prop, k.text)
	}
	if d.stat.DetDiff > 0 {
		fmt.Printf("note: %d of %d repeated cases took another course: the code under test keeps state between operations or has a source of nondeterminism the simulator does not control\n", d.stat.DetDiff, d.stat.DetRuns)
	}
	code := 0
	sort.SliceStable(fresh, func(i, j int) bool { return size(fresh[i]) < size(fresh[j]) })
	seen := map[string]bool{}
	nv := 0
	for i := range fresh {
		f := &fresh[i]
		if seen[f.Class] || nv >= 3 {
			continue
		}
		seen[f.Class] = true
		nv++
		if !*flagNoMin {
			d.minimise(f)
		}
		path := d.write(f)
		fmt.Printf("violation %s (case %d): %s\n", f.Class, f.Case, f.Detail)
		for _, s := range f.L.Notes {
			fmt.Println("   ", s)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.prop, path)
		code = 1
	}
	d.evidence(p, len(fresh))
	if code == 0 {
		fmt.Printf("property %s held: %d cases, %d simulated runs, %d statements scheduled, %.1f s\n", d.prop, d.cases, d.stat.SimRuns, d.stat.Steps, time.Since(d.start).Seconds())
	}
	return code
}

func tierName(t int) string {
	if t == 1 {
		return "thorough"
	}
	return "quick"
}

func tail(b []byte, n int) string {
	if len(b) > n {
		b = b[len(b)-n:]
	}
	return string(b)
}

func size(f finding) int {
	if f.L.Tapes == nil {
		return 1 << 30
	}
	return len(f.L.Tapes.W) + len(f.L.Tapes.F) + len(f.L.Tapes.S)
}

// phase runs the cases [from,to) on all cores.
func (d *driver) phase(p phase) {
	if p.secs < 20 {
		p.secs = 20
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n < 1 {
		n = 1
	}
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			d.lane(p, k, n)
		}(k)
	}
	wg.Wait()
}

// lane runs every n-th case in successive worker processes.
func (d *driver) lane(p phase, k, n int) {
	end := time.Now().Add(time.Duration(p.secs) * time.Second)
	next := p.from + k
	restarts := 0
	for next < p.to {
		d.mu.Lock()
		stop := d.stop
		d.mu.Unlock()
		left := int(time.Until(end).Seconds())
		if stop || left <= 0 {
			return
		}
		name := fmt.Sprintf("%s%d-%d", map[bool]string{false: "n", true: "r"}[p.race], k, restarts)
		j := job{Prop: d.prop, Seed: d.seed, From: next, To: p.to, Stride: n, Tier: d.tier, DetEvery: detEvery, Secs: left,
			Out: filepath.Join(d.build, "run", name+".jsonl"), Mem: filepath.Join(d.build, "run", name+".mem")}
		r := d.worker(j, name, p.race, 120*time.Second)
		fin := false
		nx := -1
		for _, l := range r.lines {
			switch l.K {
			case "stats":
				nx = l.Next
				fin = l.Done
			}
		}
		d.collect(r.lines, p.race, j)
		if fin && r.code == 0 {
			if nx < p.to {
				return // out of time
			}
			break
		}
		switch {
		case r.stuck:
			d.addTrouble("a worker made no progress for two minutes in case %d", r.inflight)
			return
		case r.code == 3:
			if nx < 0 {
				d.addTrouble("a worker stopped without saying where")
				return
			}
			next = nx
		default:
			f, bad := d.crash(r, p.race)
			if bad != "" {
				d.addTrouble("%s", bad)
				return
			}
			f.From, f.Stride = j.From, j.Stride
			d.addFind(f)
			next = r.inflight + n
		}
		restarts++
		if restarts > 6 {
			return
		}
	}
}

type result struct {
	lines    []line
	code     int
	stuck    bool
	inflight int
	tapes    *Tapes
	stderr   []byte
}

// worker runs one worker process.
func (d *driver) worker(j job, name string, race bool, stall time.Duration) result {
	jf := filepath.Join(d.build, "run", name+".json")
	b, _ := json.Marshal(j)
	os.WriteFile(jf, b, 0o644)
	bin := "h.test"
	if race {
		bin = "h.race"
	}
	cmd := exec.Command(filepath.Join(d.build, bin), "-test.run", "^TestWorker$", "-test.timeout", "0")
	cmd.Dir = filepath.Join(d.build, "run")
	cmd.Env = append(os.Environ(), "VERIFSIM_JOB="+jf, "GORACE=halt_on_error=1 exitcode=66 history_size=3", "GOMAXPROCS=2", "GOGC=200", "GODEBUG=")
	var errb bytes.Buffer
	cmd.Stderr = &errb
	cmd.Stdout = &errb
	r := result{code: -1}
	if err := cmd.Start(); err != nil {
		r.stderr = []byte(err.Error())
		return r
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	last := time.Now()
	var lastIdx uint32 = 1<<32 - 1
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
	var err error
loop:
	for {
		select {
		case err = <-done:
			break loop
		case <-tick.C:
			idx := memWord(j.Mem, 1)
			if idx != lastIdx || memWord(j.Mem, 0) != 1 {
				lastIdx = idx
				last = time.Now()
			}
			d.mu.Lock()
			stop := d.stop && j.Replay == nil
			d.mu.Unlock()
			if time.Since(last) > stall || stop && time.Since(last) >= 0 && j.Replay == nil {
				r.stuck = !stop
				cmd.Process.Kill()
				<-done
				break loop
			}
		}
	}
	if err == nil && !r.stuck {
		r.code = 0
	}
	if e, ok := err.(*exec.ExitError); ok {
		r.code = e.ExitCode()
	}
	r.stderr = errb.Bytes()
	r.lines = readLines(j.Out)
	r.inflight = int(memWord(j.Mem, 1))
	r.tapes = memTapes(j.Mem)
	if j.Replay != nil {
		r.tapes = j.Replay
	}
	os.Remove(j.Mem)
	return r
}

func (d *driver) addTrouble(format string, a ...interface{}) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.stop {
		return
	}
	d.trb = append(d.trb, fmt.Sprintf(format, a...))
	d.stop = true
}

func (d *driver) addFind(f finding) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.finds = append(d.finds, f)
	d.scheduleStop()
}

// scheduleStop lets the other lanes finish for a moment, then stops.
func (d *driver) scheduleStop() {
	if len(d.finds) > 0 && !d.stop {
		go func() {
			time.Sleep(4 * time.Second)
			d.mu.Lock()
			d.stop = true
			d.mu.Unlock()
		}()
	}
}

func (d *driver) collect(ls []line, race bool, j job) {
	d.mu.Lock()
	defer d.mu.Unlock()
	for _, l := range ls {
		switch l.K {
		case "viol":
			for _, v := range l.Viols {
				d.finds = append(d.finds, finding{Class: v.Class, Detail: v.Detail, Case: l.I, Race: race, L: l, From: j.From, Stride: j.Stride})
			}
			d.scheduleStop()
		case "trouble":
			d.trb = append(d.trb, l.Trouble)
		case "sample":
			if len(d.sample) < 12 {
				d.sample = append(d.sample, map[string]interface{}{"case": l.I, "seed": l.Seed, "what": l.Notes, "faults fired": l.Faults, "outcomes": l.Tags, "statements": l.Steps, "tasks": l.Tasks})
			}
		case "stats":
			s := &d.stat
			d.cases += l.Cases
			if race {
				d.races += l.Cases
			}
			s.SimRuns += l.SimRuns
			s.Steps += l.Steps
			s.Switches += l.Switches
			s.Decisions += l.Decisions
			s.SimNS += l.SimNS
			s.DetRuns += l.DetRuns
			s.DetDiff += l.DetDiff
			if l.MaxTasks > s.MaxTasks {
				s.MaxTasks = l.MaxTasks
			}
			for k, v := range l.Faults {
				d.faults[k] += v
			}
			for k, v := range l.Tags {
				d.tags[k] += v
			}
			for _, h := range l.Hashes {
				d.hashes[h] = true
			}
			for _, h := range l.Scheds {
				d.scheds[h] = true
			}
		}
	}
}

var frameRE = regexp.MustCompile(`(?m)^\s*((?:github\.com/hpinc/go3mf|github\.com/qmuntal/opc)[^\s(]*(?:\([^)]*\)[^\s(]*)*)\(`)

func frames(b []byte) []string {
	var out []string
	for _, m := range frameRE.FindAllSubmatch(b, -1) {
		out = append(out, strings.TrimPrefix(string(m[1]), "github.com/hpinc/"))
	}
	return out
}

// crash explains a worker that died: a finding, or why it is none.
func (d *driver) crash(r result, race bool) (f finding, bad string) {
	e := r.stderr
	f.Case, f.Race = r.inflight, race
	f.L = line{I: r.inflight, Tapes: r.tapes, Notes: []string{"the process ended in this case; its output:\n" + head(e, 3500)}}
	if i := bytes.Index(e, []byte("WARNING: DATA RACE")); i >= 0 {
		secs := bytes.Split(e[i:], []byte("\n\n"))
		var where []string
		for _, s := range secs {
			if bytes.Contains(s, []byte("rite at 0x")) || bytes.Contains(s, []byte("ead at 0x")) {
				w := raceSite(s)
				if w == "" {
					where = append(where, "")
				} else {
					where = append(where, w)
				}
			}
			if len(where) == 2 {
				break
			}
		}
		ok := false
		for _, w := range where {
			if w != "" {
				ok = true
			}
		}
		if !ok {
			return f, "the race detector blames the harness:\n" + head(e[i:], 4000)
		}
		sort.Strings(where)
		f.Class = d.prop + ":race:" + strings.Join(where, "/")
		f.Detail = "data race between " + strings.Join(where, " and ")
		return f, ""
	}
	for _, k := range []string{"fatal error: ", "panic: ", "runtime: out of memory", "runtime: goroutine stack exceeds"} {
		i := bytes.Index(e, []byte(k))
		if i < 0 {
			continue
		}
		fl := string(e[i:])
		if j := strings.IndexByte(fl, '\n'); j > 0 {
			fl = fl[:j]
		}
		if strings.Contains(fl, "harness panic") {
			return f, "the harness panicked:\n" + head(e[i:], 4000)
		}
		// only the goroutine that died counts
		body := e[i:]
		if j := bytes.Index(body, []byte("\ngoroutine ")); j >= 0 {
			rest := body[j+1:]
			if q := bytes.Index(rest, []byte("\n\n")); q >= 0 {
				rest = rest[:q]
			}
			fr := frames(rest)
			if len(fr) == 0 {
				fr = frames(e)
				if len(fr) == 0 || !strings.Contains(fl, "stack exceeds") && !strings.Contains(fl, "out of memory") && !strings.Contains(fl, "deadlock") && !strings.Contains(string(e), "stack overflow") {
					return f, "the process died outside of the code under test:\n" + head(e[i:], 4000)
				}
			}
			f.Class = d.prop + ":crash:" + fr[0]
			f.Detail = "the process died: " + fl + " in " + strings.Join(clipList(fr, 6), " < ")
			return f, ""
		}
	}
	return f, fmt.Sprintf("a worker ended with code %d in case %d:\n%s", r.code, r.inflight, tail(e, 4000))
}

// raceSite names the innermost frame of one access if the code under test
// made it; an access by the harness or the simulator gives "".
func raceSite(sec []byte) string {
	for _, l := range strings.Split(string(sec), "\n")[1:] {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "/") || l == "" || strings.Contains(l, "DATA RACE") {
			continue
		}
		if strings.HasPrefix(l, "verifsim/") {
			return ""
		}
		if strings.HasPrefix(l, "github.com/hpinc/go3mf") || strings.HasPrefix(l, "github.com/qmuntal/opc") {
			if k := strings.LastIndex(l, "("); k > 0 {
				l = l[:k]
			}
			return strings.TrimPrefix(l, "github.com/hpinc/")
		}
	}
	return ""
}

func head(b []byte, n int) string {
	if len(b) > n {
		b = b[:n]
	}
	return string(b)
}

func clipList(s []string, n int) []string {
	if len(s) > n {
		s = s[:n]
	}
	return s
}

func readLines(path string) []line {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []line
	for _, s := range bytes.Split(b, []byte("\n")) {
		if len(s) == 0 {
			continue
		}
		var l line
		if json.Unmarshal(s, &l) == nil {
			out = append(out, l)
		}
	}
	return out
}

func memWord(path string, i int) uint32 {
	f, err := os.Open(path)
	if err != nil {
		return 0
	}
	defer f.Close()
	var b [4]byte
	if _, err := f.ReadAt(b[:], int64(4*i)); err != nil {
		return 0
	}
	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
}

const tapeWords = 1 << 20

func memTapes(path string) *Tapes {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	t := &Tapes{}
	for k, dst := range []*[]uint32{&t.W, &t.F, &t.S} {
		base := int64(4 * (16 + k*tapeWords))
		n := memWord(path, 16+k*tapeWords)
		if n > tapeWords-1 {
			n = tapeWords - 1
		}
		b := make([]byte, 4*n)
		if _, err := f.ReadAt(b, base+4); err != nil {
			return nil
		}
		for i := 0; i < int(n); i++ {
			*dst = append(*dst, uint32(b[4*i])|uint32(b[4*i+1])<<8|uint32(b[4*i+2])<<16|uint32(b[4*i+3])<<24)
		}
	}
	return t
}

// once runs one case from tapes in a fresh process and returns what it found.
func (d *driver) once(t *Tapes, race bool, name string) ([]finding, line, string) {
	return d.run(job{From: 0, To: 1, Stride: 1, Replay: t}, race, name)
}

// after runs one case after others in a fresh process.
func (d *driver) after(h *history, i int, race bool, name string) ([]finding, line, string) {
	fs, l, bad := d.run(job{From: h.From, To: i + 1, Stride: h.Stride, DetEvery: h.DetEvery}, race, name)
	var out []finding
	for _, f := range fs {
		if f.Case == i {
			f.Hist = h
			out = append(out, f)
		}
	}
	return out, l, bad
}

func (d *driver) run(j job, race bool, name string) ([]finding, line, string) {
	j.Prop, j.Seed, j.Tier = d.prop, d.seed, d.tier
	j.Out, j.Mem = filepath.Join(d.build, "run", name+".jsonl"), filepath.Join(d.build, "run", name+".mem")
	os.Remove(j.Out)
	r := d.worker(j, name, race, 60*time.Second)
	defer os.Remove(j.Out)
	var out []finding
	var ll line
	for _, l := range r.lines {
		if l.K == "viol" {
			ll = l
			for _, v := range l.Viols {
				out = append(out, finding{Class: v.Class, Detail: v.Detail, Case: l.I, Race: race, L: l})
			}
		}
	}
	if r.code != 0 && r.code != 3 && len(out) == 0 && !r.stuck {
		f, bad := d.crash(r, race)
		if bad != "" {
			return nil, ll, bad
		}
		out = append(out, f)
		ll = f.L
	}
	return out, ll, ""
}

// minimise shrinks the tapes of a finding while its class persists.
func (d *driver) minimise(f *finding) {
	if f.L.Tapes == nil {
		return
	}
	deadline := time.Now().Add(40 * time.Second)
	tries := 0
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	cur := f.L.Tapes
	// try runs candidates in parallel and keeps the first that works.
	try := func(cands []*Tapes) bool {
		if time.Now().After(deadline) || tries > 320 {
			return false
		}
		res := make([]*finding, len(cands))
		var wg sync.WaitGroup
		for i := range cands {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				fs, _, _ := d.once(cands[i], f.Race, fmt.Sprintf("min%d", i))
				for k := range fs {
					if fs[k].Class == f.Class {
						res[i] = &fs[k]
						break
					}
				}
			}(i)
		}
		wg.Wait()
		tries += len(cands)
		for i, r := range res {
			if r != nil {
				cur = cands[i]
				r.L.Tapes = cands[i]
				r.Case = f.Case
				*f = *r
				return true
			}
		}
		return false
	}
	set := func(k int, v []uint32) *Tapes {
		n := *cur
		switch k {
		case 0:
			n.W = v
		case 1:
			n.F = v
		case 2:
			n.S = v
		}
		return &n
	}
	get := func(k int) []uint32 { return [][]uint32{cur.W, cur.F, cur.S}[k] }
	if !try([]*Tapes{cur}) {
		f.Detail += "\n(this case did not fail again when it was repeated alone)"
		f.L.Notes = append(f.L.Notes, "not reproduced when repeated alone")
		d.needsHistory(f)
		return
	}
	for round := 0; round < 3; round++ {
		before := total(cur)
		for _, k := range []int{2, 1, 0} {
			// shorter
			for len(get(k)) > 0 {
				t := get(k)
				var cs []*Tapes
				for _, n := range []int{0, len(t) / 8, len(t) / 4, len(t) / 2, len(t) * 3 / 4, len(t) * 7 / 8, len(t) - 4, len(t) - 1} {
					if n >= 0 && n < len(t) {
						cs = append(cs, set(k, append([]uint32{}, t[:n]...)))
					}
				}
				if !try(cs) {
					break
				}
			}
			// zeros and deletions
			for sz := len(get(k)) / 2; sz >= 1; sz /= 2 {
				for i := 0; i < len(get(k)); {
					var cs []*Tapes
					t := get(k)
					start := i
					for len(cs) < workers && start < len(t) {
						e := start + sz
						if e > len(t) {
							e = len(t)
						}
						z := append([]uint32{}, t...)
						nz := false
						for q := start; q < e; q++ {
							if z[q] != 0 {
								nz = true
							}
							z[q] = 0
						}
						if nz {
							cs = append(cs, set(k, z))
							if k != 0 || len(cs) < workers {
								cs = append(cs, set(k, append(append([]uint32{}, t[:start]...), t[e:]...)))
							}
						}
						start = e
					}
					if len(cs) == 0 || !try(cs) {
						i = start
					}
					if time.Now().After(deadline) || tries > 320 {
						return
					}
				}
			}
		}
		if total(cur) == before {
			break
		}
	}
}

// needsHistory looks for the fewest cases before f, of those its process ran,
// after which it fails again.
func (d *driver) needsHistory(f *finding) {
	if f.Stride == 0 {
		return
	}
	deadline := time.Now().Add(240 * time.Second)
	for k := 1; time.Now().Before(deadline); k *= 4 {
		from := f.Case - k*f.Stride
		if from < f.From {
			from = f.From
		}
		h := &history{from, f.Stride, detEvery}
		fs, _, _ := d.after(h, f.Case, f.Race, "hist")
		for _, g := range fs {
			if g.Class == f.Class {
				g.From, g.Stride = f.From, f.Stride
				g.Detail += fmt.Sprintf("\n(it fails after the %d cases before it in one process, not alone: the code under test keeps state between operations)", (f.Case-from)/f.Stride)
				*f = g
				return
			}
		}
		if from == f.From {
			return
		}
	}
}

func total(t *Tapes) int {
	n := 0
	for _, x := range [][]uint32{t.W, t.F, t.S} {
		n += len(x) * 2
		for _, v := range x {
			if v != 0 {
				n++
			}
		}
	}
	return n
}

type replay struct {
	Property  string
	Seed      uint64
	Tier      int
	Case      int
	CaseSeed  uint64
	Race      bool
	Class     string
	Detail    string
	Faults    map[string]int
	Narrative []string
	Tapes     *Tapes
	History   *history `json:",omitempty"`
	LogHash   string
	Steps     int64
	Trace     json.RawMessage `json:",omitempty"`
	Tail      json.RawMessage `json:",omitempty"`
}

func (d *driver) write(f *finding) string {
	r := replay{Property: d.prop, Seed: d.seed, Tier: d.tier, Case: f.Case, CaseSeed: f.L.Seed, Race: f.Race, Class: f.Class, Detail: f.Detail, Faults: f.L.Faults,
		Narrative: f.L.Notes, Tapes: f.L.Tapes, History: f.Hist, LogHash: f.L.LogHash, Steps: f.L.Steps, Trace: f.L.Trace, Tail: f.L.Tail}
	dir := filepath.Join(d.root, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	h := uint32(2166136261)
	for i := 0; i < len(f.Class); i++ {
		h = (h ^ uint32(f.Class[i])) * 16777619
	}
	path := filepath.Join(dir, fmt.Sprintf("%s-%08x-%d.json", d.prop, h, f.Case))
	b, _ := json.MarshalIndent(r, "", " ")
	os.WriteFile(path, b, 0o644)
	return path
}

func (d *driver) replay(r *replay) int {
	var fs []finding
	var l line
	var bad string
	for try := 0; try < 8 && len(fs) == 0 && bad == ""; try++ {
		if r.History != nil {
			fs, l, bad = d.after(r.History, r.Case, r.Race, "replay")
		} else {
			fs, l, bad = d.once(r.Tapes, r.Race, "replay")
		}
		if try > 0 && len(fs) > 0 {
			fmt.Printf("attempt %d:\n", try+1)
		}
	}
	if bad != "" {
		return d.trouble("%s", bad)
	}
	for _, s := range l.Notes {
		fmt.Println("   ", s)
	}
	for _, f := range fs {
		fmt.Printf("violation %s: %s\n", f.Class, f.Detail)
	}
	for _, f := range fs {
		if f.Class == r.Class {
			same := "the event log is identical"
			if r.LogHash != l.LogHash {
				same = "the event log differs (the code changed?)"
			}
			fmt.Printf("reproduced: %s\nVIOLATION property=%s replay=%s\n", same, d.prop, *flagReplay)
			return 1
		}
	}
	if len(fs) > 0 {
		fmt.Printf("another violation than %s\nVIOLATION property=%s replay=%s\n", r.Class, d.prop, *flagReplay)
		return 1
	}
	fmt.Println("not reproduced: the property held in this execution")
	return 0
}

// known is a recorded defect that was not repaired.
type known struct {
	class *regexp.Regexp
	det   *regexp.Regexp
	text  string
}

func (k known) match(f finding) bool {
	return k.class.MatchString(f.Class) && (k.det == nil || k.det.MatchString(f.Detail))
}

// loadKnown reads lines "finding: property=C01 class=/RE/ detail=/RE/ text".
func loadKnown(path, prop string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	re := regexp.MustCompile(`^finding: property=(\S+) class=/(.*?)/ (?:detail=/(.*?)/ )?(.*)$`)
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		m := re.FindStringSubmatch(l)
		if m == nil || m[1] != prop {
			continue
		}
		k := known{class: regexp.MustCompile("^(?:" + m[2] + ")$"), text: m[4]}
		if m[3] != "" {
			k.det = regexp.MustCompile(m[3])
		}
		out = append(out, k)
	}
	return out
}

func (d *driver) evidence(p plan, nviol int) {
	hours := d.simS / 3600
	rate := func(n int) int {
		if hours <= 0 {
			return 0
		}
		return int(float64(n) / hours)
	}
	cov := map[string]interface{}{
		"evaluations":             d.cases,
		"distinct_nontrivial":     len(d.hashes),
		"rule":                    p.rule,
		"samples":                 d.sample,
		"simulated_runs":          d.stat.SimRuns,
		"seeds_per_hour":          rate(d.cases),
		"simulated_runs_per_hour": rate(d.stat.SimRuns),
		"simulated_time_s":        float64(d.stat.SimNS) / 1e9,
		"statements_executed_under_the_scheduler": d.stat.Steps,
		"scheduling_decisions":                    d.stat.Decisions,
		"context_switches":                        d.stat.Switches,
		"distinct_schedules":                      len(d.scheds),
		"distinct_schedules_measure":              "hash of the sequence of (statement count, task resumed) of every scheduling decision",
		"most_tasks_in_a_run":                     d.stat.MaxTasks,
		"faults_injected":                         d.faults,
		"outcomes":                                d.tags,
		"determinism_reruns":                      d.stat.DetRuns,
		"determinism_reruns_that_differed":        d.stat.DetDiff,
		"cases_under_the_race_detector":           d.races,
		"real_components":                         realComponents,
		"stubbed_components":                      p.stub,
	}
	ev := map[string]interface{}{
		"property": d.prop, "tier": tierName(d.tier), "seed": d.seed, "level": p.level,
		"coverage": cov, "wall_s": time.Since(d.start).Seconds(), "violations": nviol,
		"assumptions": assumptions,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(d.root, "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, d.prop+".json"), append(b, '\n'), 0o644)
}
