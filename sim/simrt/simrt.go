// Package simrt is the deterministic scheduler of the simulator.
//
// The code under test is rewritten (see cmd/inst) so that it calls Yield before
// every statement, spawns goroutines through Spawn/Start/Spawned/End, and uses
// the primitives of package simsync, which block through this scheduler. Inside
// Run exactly one task executes at a time: every other task is parked, and
// which task executes next, and after how many statements it is preempted, is
// decided by a seeded tape. Time is the fake clock of testing/synctest, and
// only advances when no task can run.
//
// Everything that tasks touch here is go:norace and hand-offs happen with the
// race detector's synchronisation tracking off, so that in a -race build the
// scheduler adds no happens-before edges that would hide races of the code
// under test.
package simrt

import (
	"fmt"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"testing/synctest"
	"time"
	"unsafe"
)

const maxTasks = 512

const (
	stRunnable = iota + 1
	stRunning
	stBlocked  // on a simsync primitive
	stExternal // inside a real blocking operation (a channel, say)
	stSleeping
	stDone
)

type task struct {
	id      int
	st      int
	g       uintptr
	key     unsafe.Pointer
	at      int64
	harness bool
	slow    bool
	wake    chan struct{}
	started chan struct{}
	name    string
}

// PanicInfo describes a panic that escaped a task.
type PanicInfo struct {
	Task    string
	Value   string
	Stack   string
	Harness bool
}

// Event is an entry of the run's event log.
type Event struct {
	Step int64
	Task int
	Kind string
	A, B int64
}

const ringSize = 512

var (
	active  bool
	curG    uintptr
	cur     *task
	steps   int64
	stop    int64
	budget  int64
	tasks   [maxTasks]*task
	ntasks  int
	pending *task

	tape    *Tape
	meanGap int
	ioPre   int
	slowPct int

	switches  int64
	decisions int64
	schedHash uint64
	logHash   uint64
	nEvents   int64
	ring      [ringSize]Event
	epoch     time.Time
	simNS     int64

	panics  [8]PanicInfo
	npanics int
	stuck   string
	trace   [96]SwitchRec
	ntrace  int
)

// SwitchRec is one recorded context switch.
type SwitchRec struct {
	Step int64
	Task int
}

// Config is the schedule configuration of a run.
type Config struct {
	Tape    *Tape
	MeanGap int // mean number of statements between preemptions; 0: never preempt
	IOPre   int // 1/IOPre of the simulated I/O operations are preemption points; 0: none
	SlowPct int // percentage of spawned tasks that are starved
	Budget  int64
}

// Result is what a run did.
type Result struct {
	Steps, Switches, Decisions int64
	SchedHash, LogHash         uint64
	Events                     int64
	Tasks                      int
	Panics                     []PanicInfo
	Stuck                      string
	SimTime                    time.Duration
	Trace                      []SwitchRec
	Tail                       []Event
}

// OnStuck is called when a run cannot continue: the step budget ran out or
// every task is blocked. It must not return.
var OnStuck func(kind string, res Result)

//go:norace
func fnv(h uint64, v uint64) uint64 {
	for i := 0; i < 8; i++ {
		h ^= v & 0xff
		h *= 1099511628211
		v >>= 8
	}
	return h
}

// Active reports whether a simulation is running.
//
//go:norace
func Active() bool { return active }

// Steps returns the number of statements executed so far.
//
//go:norace
func Steps() int64 { return steps }

// Log adds an event to the run's log.
//
//go:norace
func Log(kind string, a, b int64) {
	if !active {
		return
	}
	h := logHash
	for i := 0; i < len(kind); i++ {
		h ^= uint64(kind[i])
		h *= 1099511628211
	}
	h = fnv(h, uint64(a))
	h = fnv(h, uint64(b))
	id := -1
	if cur != nil {
		id = cur.id
	}
	h = fnv(h, uint64(id))
	h = fnv(h, uint64(steps))
	logHash = h
	e := &ring[nEvents%ringSize]
	e.Step, e.Task, e.Kind, e.A, e.B = steps, id, kind, a, b
	nEvents++
}

// Yield is a potential preemption point.
//
//go:norace
func Yield() {
	if !active {
		return
	}
	if getg() != curG {
		foreign()
		return
	}
	steps++
	if steps < stop {
		return
	}
	yieldSlow()
}

// IOPoint is a potential preemption point inside a simulated I/O operation.
//
//go:norace
func IOPoint() {
	if !active || getg() != curG {
		return
	}
	steps++
	if ioPre > 0 || steps >= stop {
		yieldSlow()
	}
}

//go:norace
func yieldSlow() {
	if steps >= budget {
		t := cur
		die("step-budget", t)
	}
	t := cur
	t.st = stRunnable
	park(t)
}

//go:norace
func die(kind string, t *task) {
	raceOff()
	stuck = kind
	active = false
	OnStuck(kind, result())
	os.Exit(2)
}

// park waits until the scheduler picks t.
//
//go:norace
func park(t *task) {
	raceOff()
	<-t.wake
	raceOn()
}

// foreign is reached by a task that a real blocking operation released while
// another task was executing: it becomes schedulable and waits for its turn.
//
//go:norace
func foreign() {
	g := getg()
	for i := 0; i < ntasks; i++ {
		t := tasks[i]
		if t.g == g && t.st != stDone {
			if t.st == stRunning || t.st == stExternal {
				t.st = stRunnable
				park(t)
			}
			return
		}
	}
}

//go:norace
func newTask(name string) *task {
	if ntasks >= maxTasks {
		stuck = "too many goroutines"
		die("too-many-goroutines", nil)
	}
	t := &task{id: ntasks, name: name, st: stRunnable}
	raceOff()
	t.wake = make(chan struct{})
	t.started = make(chan struct{})
	raceOn()
	tasks[ntasks] = t
	ntasks++
	return t
}

// Spawn announces a goroutine about to be started by the code under test.
//
//go:norace
func Spawn() {
	if !active {
		return
	}
	pending = newTask("goroutine")
	if slowPct > 0 && tape.Draw(100) >= 100-slowPct {
		pending.slow = true
	}
}

// Spawned waits until the goroutine just started has registered itself.
//
//go:norace
func Spawned() {
	if !active {
		return
	}
	t := pending
	if t == nil {
		return
	}
	raceOff()
	<-t.started
	raceOn()
	pending = nil
	Yield()
}

// Start registers the calling goroutine as the task announced by Spawn.
//
//go:norace
func Start() {
	if !active {
		return
	}
	t := pending
	t.g = getg()
	raceOff()
	t.started <- struct{}{}
	raceOn()
	park(t)
}

// End must be deferred directly by a goroutine after Start.
//
//go:norace
func End() {
	if r := recover(); r != nil {
		recordPanic(r)
	}
	if !active {
		return
	}
	endTask()
}

//go:norace
func endTask() {
	RaceReleaseMerge(unsafe.Pointer(&endOfRun))
	g := getg()
	if g == curG {
		cur.st = stDone
		cur.g = 0
		return
	}
	for i := 0; i < ntasks; i++ {
		if tasks[i].g == g && tasks[i].st != stDone {
			tasks[i].st = stDone
			tasks[i].g = 0
		}
	}
}

//go:norace
func recordPanic(r interface{}) {
	raceOff()
	if npanics < len(panics) {
		p := &panics[npanics]
		npanics++
		p.Value = fmt.Sprint(r)
		p.Stack = string(debug.Stack())
		if cur != nil {
			p.Task = cur.name
			p.Harness = cur.harness
		}
	}
	raceOn()
}

// Wrap returns f wrapped so that it runs as the task announced by Spawn.
func Wrap[F any](f F) F {
	if !Active() {
		return f
	}
	v := reflect.ValueOf(f)
	return reflect.MakeFunc(v.Type(), func(args []reflect.Value) []reflect.Value {
		Start()
		defer End()
		if v.Type().IsVariadic() {
			return v.CallSlice(args)
		}
		return v.Call(args)
	}).Interface().(F)
}

// Go starts a harness task.
//
//go:norace
func Go(name string, f func()) {
	Spawn()
	pending.name = name
	pending.harness = true
	pending.slow = false
	go func() {
		Start()
		defer End()
		f()
	}()
	Spawned()
}

// Block suspends the current task until Wake(key).
//
//go:norace
func Block(key unsafe.Pointer) {
	if !active {
		panic("simrt: blocking operation outside the simulation would never return")
	}
	if getg() != curG {
		foreign()
	}
	t := cur
	t.st = stBlocked
	t.key = key
	park(t)
}

// Wake makes the tasks blocked on key runnable.
//
//go:norace
func Wake(key unsafe.Pointer) {
	for i := 0; i < ntasks; i++ {
		if tasks[i].st == stBlocked && tasks[i].key == key {
			tasks[i].st = stRunnable
			tasks[i].key = nil
		}
	}
}

// Sleep suspends the current task for d of simulated time.
//
//go:norace
func Sleep(d time.Duration) {
	if !active || d <= 0 {
		return
	}
	if getg() != curG {
		foreign()
	}
	t := cur
	t.st = stSleeping
	raceOff()
	t.at = int64(time.Since(epoch)) + int64(d)
	raceOn()
	park(t)
}

// Others returns how many tasks besides the caller have not finished.
//
//go:norace
func Others() int {
	n := 0
	for i := 0; i < ntasks; i++ {
		if tasks[i] != cur && tasks[i].st != stDone {
			n++
		}
	}
	return n
}

// OthersUnder returns how many non-harness tasks have not finished.
//
//go:norace
func OthersUnder() int {
	n := 0
	for i := 0; i < ntasks; i++ {
		if tasks[i] != cur && tasks[i].st != stDone && !tasks[i].harness {
			n++
		}
	}
	return n
}

// Settle lets the goroutines of the code under test run, at most n times, and
// returns how many of them are left.
//
//go:norace
func Settle(n int) int {
	for i := 0; i < n; i++ {
		left := OthersUnder()
		if left == 0 {
			return 0
		}
		settling = true
		cur.st = stRunnable
		park(cur)
	}
	settling = false
	return OthersUnder()
}

// Linger returns how many goroutines of the code under test are still there
// after each was given the chance to execute a few last statements: one that
// has handed over its result needs some to end.
//
//go:norace
func Linger() int {
	left := OthersUnder()
	for i := 16 + 8*left; i > 0 && left > 0; i-- {
		settling, brief = true, 8
		cur.st = stRunnable
		park(cur)
		left = OthersUnder()
	}
	settling, brief = false, 0
	return left
}

var settling bool

// brief, if not zero, is the number of statements the next task may execute.
var brief int64

//go:norace
func result() Result {
	r := Result{Steps: steps, Switches: switches, Decisions: decisions, SchedHash: schedHash, LogHash: logHash,
		Events: nEvents, Tasks: ntasks, Stuck: stuck, SimTime: time.Duration(simNS)}
	for i := 0; i < npanics; i++ {
		r.Panics = append(r.Panics, panics[i])
	}
	for i := 0; i < ntrace; i++ {
		r.Trace = append(r.Trace, trace[i])
	}
	lo := nEvents - 40
	if lo < 0 {
		lo = 0
	}
	for i := lo; i < nEvents; i++ {
		r.Tail = append(r.Tail, ring[i%ringSize])
	}
	return r
}

// Run executes main as the first task of a simulation and returns when every
// task has finished. It must be called inside a synctest bubble.
//
//go:norace
func Run(cfg Config, main func()) Result {
	raceOff()
	defer raceOn()
	for i := 0; i < ntasks; i++ {
		tasks[i] = nil
	}
	ntasks, npanics, ntrace = 0, 0, 0
	steps, stop, switches, decisions, nEvents = 0, 1<<62, 0, 0, 0
	budget = cfg.Budget
	if budget == 0 {
		budget = 1 << 40
	}
	schedHash, logHash = 14695981039346656037, 14695981039346656037
	tape, meanGap, ioPre, slowPct = cfg.Tape, cfg.MeanGap, cfg.IOPre, cfg.SlowPct
	stuck, settling, brief = "", false, 0
	epoch = time.Now()
	simNS = 0
	cur, curG = nil, 0
	active = true

	pending = newTask("main")
	pending.harness = true
	first := pending
	raceOn() // creating the first task orders everything before it
	go func() {
		Start()
		defer End()
		main()
	}()
	raceOff()
	<-first.started
	pending = nil

	var last *task
	idle := 0
	for {
		synctest.Wait()
		if cur != nil && cur.st == stRunning {
			cur.st = stExternal
		}
		cur, curG = nil, 0
		var run [maxTasks]*task
		n, alive, sleeping := 0, 0, 0
		var next int64
		now := int64(time.Since(epoch))
		for i := 0; i < ntasks; i++ {
			t := tasks[i]
			if t.st == stSleeping && t.at <= now {
				t.st = stRunnable
			}
			switch t.st {
			case stDone:
				continue
			case stSleeping:
				if sleeping == 0 || t.at < next {
					next = t.at
				}
				sleeping++
			case stRunnable:
				run[n] = t
				n++
			}
			alive++
		}
		if alive == 0 {
			break
		}
		if n == 0 {
			if sleeping > 0 {
				idle = 0
				simNS += next - now
				time.Sleep(time.Duration(next - now))
				continue
			}
			// A timer of the code under test may still release somebody.
			idle++
			if idle > 1 {
				die("deadlock", nil)
			}
			time.Sleep(1000 * time.Hour)
			continue
		}
		idle = 0
		t := run[0]
		if n > 1 {
			decisions++
			t = choose(&run, n, last)
		}
		if t != last {
			switches++
			if ntrace < len(trace) {
				trace[ntrace] = SwitchRec{steps, t.id}
				ntrace++
			}
			schedHash = fnv(schedHash, uint64(steps)<<8|uint64(t.id))
		}
		last = t
		stop = budget
		if n > 1 && meanGap > 0 {
			if g := tape.Draw(2*meanGap + 1); g > 0 && steps+int64(g) < stop {
				stop = steps + int64(g)
			}
		} else if meanGap > 0 {
			// alone now, but it may spawn or release others: look again later
			if s := steps + int64(4*meanGap) + 16; s < stop {
				stop = s
			}
		}
		if brief > 0 {
			if stop > steps+brief {
				stop = steps + brief
			}
			brief = 0
		}
		t.st = stRunning
		cur, curG = t, t.g
		t.wake <- struct{}{}
	}
	active = false
	cur, curG = nil, 0
	raceOn()
	RaceAcquire(unsafe.Pointer(&endOfRun))
	raceOff()
	return result()
}

// endOfRun orders what the tasks did before what follows Run.
var endOfRun int64

// choose picks the next task; choice 0 keeps the last one running.
//
//go:norace
func choose(run *[maxTasks]*task, n int, last *task) *task {
	if settling {
		// the settling task waits for the others
		settling = false
		k := 0
		for i := 0; i < n; i++ {
			if run[i] != last {
				run[k] = run[i]
				k++
			}
		}
		n = k
		if n == 1 {
			return run[0]
		}
	}
	// starved tasks only run when no one else can, or once in a while
	k := 0
	var fast [maxTasks]*task
	for i := 0; i < n; i++ {
		if !run[i].slow {
			fast[k] = run[i]
			k++
		}
	}
	set, m := run, n
	if k > 0 && k < n && tape.Draw(16) != 15 {
		set, m = &fast, k
	}
	if m == 1 {
		return set[0]
	}
	c := tape.Draw(m)
	// rotate so that 0 means "keep running the last task"
	for i := 0; i < m; i++ {
		if set[i] == last {
			return set[(i+c)%m]
		}
	}
	return set[c]
}

// G identifies the current task for harness bookkeeping.
//
//go:norace
func CurTask() int {
	if cur == nil {
		return -1
	}
	return cur.id
}

var _ = runtime.NumGoroutine
