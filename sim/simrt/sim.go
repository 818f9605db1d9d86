package simrt

import (
	"fmt"
	"iter"
	"math/rand"
	rand2 "math/rand/v2"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"unsafe"
)

const (
	stRunnable = iota
	stBlocked
	stIdleWait
	stDone
)

// Task is one simulated goroutine.
type Task struct {
	ID       int
	Name     string
	Repo     bool // started by the code under test
	state    int
	started  bool
	next     func() (struct{}, bool)
	stop     func()
	yield    func(struct{}) bool
	waitOn   string
	waitSite string
	prio     uint64
}

// Policy kinds for picking the next task.
const (
	PolUniform = iota
	PolSticky
	PolPCT
	PolStarve
	PolFIFO
	NumPol
)

// Outcome of a simulation.
type Outcome struct {
	Panic      string // non-empty: a task panicked (value and stack)
	PanicRepo  bool   // the panic originates in the code under test
	LimitHit   bool   // step budget exceeded
	Deadlock   bool   // the main task cannot make progress any more
	MainDone   bool
	Aborted    bool    // Abort was called (simulated process crash)
	Leaked     []*Task // tasks of the code under test still alive at the end
	Blocked    []string
	Steps      int64
	Stmts      int64
	Switches   int64
	SimNanos   int64
	Interleave uint64
	LogHash    uint64
	Races      []string // data races, as the race detector reports them
}

type timer struct {
	at  int64
	seq int64
	f   func()
	off bool
}

// Sim is one simulated process.
type Sim struct {
	Src *Source

	tasks   []*Task
	runq    []*Task
	cur     *Task
	main    *Task
	now     int64
	seq     int64
	timers  []*timer
	chans   map[unsafe.Pointer]any
	nchan   int
	steps   int64
	stmts   int64
	quantum int64
	sw      int64
	ilv     uint64
	logh    uint64

	maxSteps int64
	maxStmts int64

	pol      int
	polParam int
	victim   int
	nextChg  int64
	preempt  int // mean statements between preemption points, 0 = off
	stepCost int64
	mapSeed  uint64
	rnd      *rand.Rand
	rnd2     *rand2.Rand

	stopping  bool
	killing   bool
	out       Outcome
	Verbose   bool
	Trace     []string
	handoff   *Task
	idle      []*Task
	hasFor    bool
	TraceCap  int
	traceSkip int
}

// S is the running simulation; nil outside of one.
var S *Sim

var budget int64

// Used tells how much of its limits the simulation needed, per mille.
func (s *Sim) Used() int64 {
	return max(s.out.Steps*1000/s.maxSteps, s.out.Stmts*1000/s.maxStmts)
}

// Config of a simulation.
type Config struct {
	MaxSteps int64 // scheduling points
	MaxStmts int64 // statements of instrumented code
	Verbose  bool
	Longer   int64 // multiplies the limits
	// NoPreempt switches statement-level preemption off (used by oversized workloads).
	NoPreempt bool
}

// NewSim prepares a simulation; per-run scheduling policy and knobs are drawn from src.
func NewSim(src *Source, cfg Config) *Sim {
	s := &Sim{Src: src, chans: map[unsafe.Pointer]any{}, Verbose: cfg.Verbose, TraceCap: 4000}
	s.maxSteps, s.maxStmts = cfg.MaxSteps, cfg.MaxStmts
	if s.maxSteps == 0 {
		s.maxSteps = 5_000_000
	}
	if s.maxStmts == 0 {
		s.maxStmts = 100_000_000
	}
	if cfg.Longer > 0 {
		s.maxSteps *= cfg.Longer
		s.maxStmts *= cfg.Longer
	}
	// policy draws shape the generated values only, so they need not be recorded
	if !src.isRep {
		switch r := src.rawn(100); {
		case r < 35:
			s.pol = PolUniform
		case r < 60:
			s.pol, s.polParam = PolSticky, []int{50, 80, 95}[src.rawn(3)]
		case r < 80:
			s.pol = PolPCT
			s.nextChg = int64(1 + src.rawn(200))
		case r < 92:
			s.pol = PolStarve
			s.polParam = 2 + src.rawn(4)
			s.victim = src.rawn(s.polParam)
		default:
			s.pol = PolFIFO
		}
	}
	pm := src.Weighted(KKnob, "preempt-mode", 45, 20, 20, 15)
	if !cfg.NoPreempt {
		s.preempt = []int{0, 400, 60, 9}[pm]
	}
	s.stepCost = []int64{1000, 10, 100_000, 5_000_000}[src.Weighted(KKnob, "step-cost", 40, 20, 20, 20)]
	s.mapSeed = uint64(src.Intn(KKnob, "map-order", 1<<16))
	s.ilv, s.logh = 14695981039346656037, 14695981039346656037
	return s
}

// Run executes main as the first task until every task is done, blocked for good or the run is
// stopped, and returns what happened.
func (s *Sim) Run(main func()) *Outcome {
	if S != nil {
		panic("simrt: nested simulation")
	}
	S = s
	defer func() { S = nil; budget = 1 << 62 }()
	s.setBudget()
	races := raceErrors()
	s.main = s.newTask("main", main, false)
	for !s.stopping {
		t := s.handoff
		s.handoff = nil
		if t == nil {
			t = s.pickIdle()
			if t == nil {
				break
			}
		}
		s.cur = t
		t.started = true
		raceOff()
		_, more := t.next()
		raceOn()
		s.cur = nil
		if !more {
			t.state = stDone
			s.event('x', t.ID)
		}
	}
	s.account()
	s.out.MainDone = s.main.state == stDone
	if !s.stopping && !s.out.MainDone {
		s.out.Deadlock = true
	}
	for _, t := range s.tasks {
		if t.state != stDone {
			d := fmt.Sprintf("T%d %s: %s %s", t.ID, t.Name, t.waitOn, t.waitSite)
			s.out.Blocked = append(s.out.Blocked, d)
			if t.Repo {
				s.out.Leaked = append(s.out.Leaked, t)
			}
		}
	}
	s.out.Steps, s.out.Stmts, s.out.Switches, s.out.SimNanos = s.steps, s.stmts, s.sw, s.now
	s.out.Interleave, s.out.LogHash = s.ilv, s.logh
	s.out.Races = raceTake(races)
	races = raceErrors()
	s.killAll()
	raceTake(races)
	acqAll()
	return &s.out
}

func (s *Sim) killAll() {
	s.killing = true
	budget = 1 << 62
	for _, t := range s.tasks {
		if t.state == stDone {
			continue
		}
		if !t.started {
			t.stop()
			continue
		}
		done := make(chan struct{})
		go func() {
			defer close(done)
			defer func() { recover() }()
			s.cur = t
			t.stop()
		}()
		<-done
	}
	s.cur = nil
}

func (s *Sim) newTask(name string, f func(), repo bool) *Task {
	t := &Task{ID: len(s.tasks), Name: name, Repo: repo}
	if !s.Src.isRep {
		t.prio = s.Src.raw()
	}
	s.tasks = append(s.tasks, t)
	t.next, t.stop = iter.Pull(func(yield func(struct{}) bool) {
		t.yield = yield
		defer func() {
			if r := recover(); r != nil {
				if s.killing {
					return
				}
				st := string(debug.Stack())
				s.out.Panic = fmt.Sprintf("panic in T%d %s: %v", t.ID, t.Name, r)
				s.out.PanicRepo = panicOrigin(st)
				if s.out.PanicRepo {
					s.out.Panic += repoFrames(st)
				} else {
					s.out.Panic += "\n" + st
				}
				s.stopping = true
			}
		}()
		defer relAll()
		f()
	})
	s.runq = append(s.runq, t)
	return t
}

// panicOrigin finds out from the stack whether the panic comes from the code under test (or a
// library it called) rather than from the harness.
func panicOrigin(stack string) bool {
	i := strings.LastIndex(stack, "\npanic(")
	if i < 0 {
		i = 0
	}
	for _, l := range strings.Split(stack[i:], "\n") {
		switch {
		case strings.HasPrefix(l, "github.com/Redundancy/go-sync"):
			return true
		case strings.HasPrefix(l, "main."), strings.HasPrefix(l, "verif.local/sim/harness"):
			return false
		}
	}
	return false
}

func (s *Sim) event(op byte, obj int) {
	s.seq++
	id := 0xffff
	if s.cur != nil {
		id = s.cur.ID
	}
	s.logh = (s.logh ^ uint64(op) ^ uint64(id)<<8 ^ uint64(obj)<<24) * 1099511628211
	s.logh ^= s.logh >> 29
}

// Logf adds a line to the verbose trace and to the log hash. It never draws.
func (s *Sim) Logf(format string, a ...any) {
	if !s.Verbose {
		return
	}
	if len(s.Trace) >= s.TraceCap {
		s.traceSkip++
		return
	}
	raceOff() // formatting synchronises by way of a pool
	defer raceOn()
	who := "sched"
	if s.cur != nil {
		who = fmt.Sprintf("T%d", s.cur.ID)
	}
	s.Trace = append(s.Trace, fmt.Sprintf("%6d t=%-10d %-5s ", s.seq, s.now/1000, who)+fmt.Sprintf(format, a...))
}

func (s *Sim) account() {
	s.stmts += s.quantum - budget
	s.quantum = budget
}

func (s *Sim) setBudget() {
	b := int64(20000)
	if s.preempt > 0 {
		var v int
		if s.Src.isRep {
			v = s.Src.next(0)
		} else {
			// roughly geometric with mean s.preempt
			v = 1 + s.Src.rawn(2*s.preempt)
			if s.Src.rawn(8) == 0 {
				v = 1 + s.Src.rawn(4)
			}
		}
		s.Src.record(KBudget, "", 0, v)
		if v == 0 {
			s.preempt = 0
		} else {
			b = int64(v)
		}
	}
	budget, s.quantum = b, b
}

// Y is the statement-level preemption point.
func Y() {
	budget--
	if budget <= 0 {
		slowY()
	}
}

func slowY() {
	s := S
	if s == nil || s.killing || s.cur == nil {
		budget = 1 << 40
		return
	}
	s.account()
	if s.stmts > s.maxStmts {
		s.out.LimitHit = true
		s.stopRun()
	}
	pre := s.preempt > 0
	s.setBudget()
	if pre {
		s.point('y', 0)
	}
}

// stopRun ends the simulation from inside a task.
func (s *Sim) stopRun() {
	s.stopping = true
	s.cur.waitOn = "running (stopped)"
	s.park()
}

func (s *Sim) park() {
	t := s.cur
	raceOff()
	more := t.yield(struct{}{})
	raceOn()
	if !more {
		runtime.Goexit()
	}
	s.cur = t
}

// inTask tells whether simulator operations apply right now.
func inTask() *Sim {
	s := S
	if s == nil || s.cur == nil || s.killing {
		return nil
	}
	return s
}

// point is a scheduling point of the current, runnable task.
func (s *Sim) point(op byte, obj int) {
	s.event(op, obj)
	s.tick()
	if len(s.runq) == 0 {
		return
	}
	t := s.pick(true)
	if t == s.cur {
		return
	}
	c := s.cur
	s.runq = append(s.runq, c)
	s.switchTo(t)
}

func (s *Sim) tick() {
	s.steps++
	if s.steps > s.maxSteps {
		s.out.LimitHit = true
		s.stopRun()
	}
	s.now += s.stepCost
	s.fireTimers()
}

func (s *Sim) switchTo(t *Task) {
	s.sw++
	s.ilv = (s.ilv ^ uint64(t.ID+1)) * 1099511628211
	s.ilv ^= s.ilv >> 31
	s.handoff = t
	s.park()
}

// block suspends the current task until something makes it runnable.
func (s *Sim) block(what, site string) {
	c := s.cur
	relAll()
	c.state, c.waitOn, c.waitSite = stBlocked, what, site
	s.event('b', 0)
	s.tick()
	if c.state == stRunnable { // a timer fired in tick and woke us
		s.unqueue(c)
		return
	}
	if t := s.pickIdle(); t != nil {
		if t == c {
			return
		}
		s.switchTo(t)
		return
	}
	s.park()
}

func (s *Sim) unqueue(c *Task) {
	for i, t := range s.runq {
		if t == c {
			s.runq = append(s.runq[:i], s.runq[i+1:]...)
			return
		}
	}
}

func (s *Sim) ready(t *Task) {
	if t.state == stRunnable || t.state == stDone {
		return
	}
	t.state = stRunnable
	t.waitOn, t.waitSite = "", ""
	s.runq = append(s.runq, t)
}

// pickIdle picks the next task when the current one cannot continue, advancing the clock and
// waking idle waiters when nothing is runnable.
func (s *Sim) pickIdle() *Task {
	for len(s.runq) == 0 {
		if s.pollForeign() {
			continue
		}
		if s.nextTimer() {
			continue
		}
		if len(s.idle) > 0 {
			t := s.idle[0]
			s.idle = s.idle[1:]
			s.ready(t)
			continue
		}
		return nil
	}
	return s.pick(false)
}

// pick chooses among the current task (if runnable, index 0) and the run queue (FIFO order) and
// removes the chosen one from the queue.
func (s *Sim) pick(curOK bool) *Task {
	n := len(s.runq)
	off := 0
	if curOK {
		n++
		off = 1
	}
	v := 0
	if n > 1 {
		if s.Src.isRep {
			v = s.Src.next(n)
		} else {
			v = s.policy(n, off)
		}
		s.Src.record(KSched, "", n, v)
	}
	if curOK && v == 0 {
		return s.cur
	}
	i := v - off
	t := s.runq[i]
	s.runq = append(s.runq[:i], s.runq[i+1:]...)
	return t
}

func (s *Sim) cand(v, off int) *Task {
	if v < off {
		return s.cur
	}
	return s.runq[v-off]
}

func (s *Sim) policy(n, off int) int {
	src := s.Src
	switch s.pol {
	case PolSticky:
		if src.rawn(100) < s.polParam {
			return 0
		}
	case PolPCT:
		if s.steps >= s.nextChg {
			s.nextChg = s.steps + int64(1+src.rawn(400))
			if off == 1 {
				s.cur.prio = src.raw() >> 20
			}
		}
		best := 0
		for v := 1; v < n; v++ {
			if s.cand(v, off).prio > s.cand(best, off).prio {
				best = v
			}
		}
		return best
	case PolStarve:
		v := src.rawn(n)
		if src.rawn(60) == 0 {
			s.victim = src.rawn(s.polParam)
		}
		for k := 0; k < n; k++ {
			if s.cand((v+k)%n, off).ID%s.polParam != s.victim {
				return (v + k) % n
			}
		}
		return v
	case PolFIFO:
		if src.rawn(20) != 0 {
			return 0
		}
	}
	return src.rawn(n)
}

// ---- timers and clock

func (s *Sim) addTimer(d int64, f func()) *timer {
	if d < 0 {
		d = 0
	}
	s.seq++
	t := &timer{at: s.now + d, seq: s.seq, f: f}
	i := sort.Search(len(s.timers), func(i int) bool {
		o := s.timers[i]
		return o.at > t.at || (o.at == t.at && o.seq > t.seq)
	})
	s.timers = append(s.timers, nil)
	copy(s.timers[i+1:], s.timers[i:])
	s.timers[i] = t
	return t
}

func (s *Sim) fireTimers() {
	for len(s.timers) > 0 && s.timers[0].at <= s.now {
		t := s.timers[0]
		s.timers = s.timers[1:]
		if !t.off {
			t.off = true
			t.f()
		}
	}
}

func (s *Sim) nextTimer() bool {
	for len(s.timers) > 0 && s.timers[0].off {
		s.timers = s.timers[1:]
	}
	if len(s.timers) == 0 {
		return false
	}
	if s.now < s.timers[0].at {
		s.now = s.timers[0].at
	}
	s.fireTimers()
	return true
}

// ---- API for the instrumented code

// Go starts a task for the code under test.
func Go(site string, f func()) {
	s := S
	if s == nil || s.killing {
		if s == nil {
			panic("simrt: goroutine started outside of a simulation at " + site)
		}
		return
	}
	t := s.newTask(site, f, true)
	s.event('g', t.ID)
	if s.Verbose {
		s.Logf("go T%d at %s", t.ID, site)
	}
	if s.cur != nil {
		s.point('p', t.ID)
	}
}

// Gosched is runtime.Gosched.
func Gosched() { Point() }

// GOMAXPROCS, NumCPU and NumGoroutine replace their runtime namesakes.
func GOMAXPROCS(n int) int { return 4 }
func NumCPU() int          { return 4 }
func NumGoroutine() int {
	n := 0
	if S != nil {
		for _, t := range S.tasks {
			if t.state != stDone {
				n++
			}
		}
	}
	return n
}

// ---- API for the harness

// Spawn starts a harness task.
func Spawn(name string, f func()) *Task {
	s := S
	t := s.newTask(name, f, false)
	if s.cur != nil {
		s.point('p', t.ID)
	}
	return t
}

// Point is an explicit scheduling point.
func Point() {
	if s := inTask(); s != nil {
		s.point('p', 0)
	}
}

// Killed tells whether the simulated process is being torn down.
func Killed() bool { return S != nil && S.killing }

// WaitIdle blocks until nothing else can run and no timer is pending.
func WaitIdle() {
	s := inTask()
	if s == nil {
		return
	}
	c := s.cur
	s.idle = append(s.idle, c)
	c.state, c.waitOn = stIdleWait, "idle"
	relAll()
	if t := s.pickIdle(); t != nil {
		if t != c {
			s.switchTo(t)
		}
	} else {
		s.park()
	}
	acqAll()
}

// Abort ends the simulation at once (simulated kill of the process).
func Abort() {
	s := inTask()
	if s == nil {
		return
	}
	s.out.Aborted = true
	s.stopRun()
}

// Seq is the global event sequence number, used to stamp histories.
func Seq() int64 {
	if S == nil {
		return 0
	}
	S.seq++
	return S.seq
}

// NowNanos is the simulated clock.
func NowNanos() int64 {
	if S == nil {
		return 0
	}
	return S.now
}

// Logf writes to the verbose trace.
func Logf(format string, a ...any) {
	if S != nil && S.Verbose {
		S.Logf(format, a...)
	}
}

// Note mixes a value into the event log hash (and so into the determinism check).
func Note(op byte, v int) {
	if S != nil && !S.killing {
		S.event(op, v)
	}
}

// LiveRepoTasks counts the tasks of the code under test that are still alive.
func LiveRepoTasks() (n int, desc []string) {
	for _, t := range S.tasks {
		if t.Repo && t.state != stDone {
			n++
			desc = append(desc, fmt.Sprintf("T%d %s: %s %s", t.ID, t.Name, t.waitOn, t.waitSite))
		}
	}
	return
}

// CurID is the id of the running task.
func CurID() int {
	if S == nil || S.cur == nil {
		return -1
	}
	return S.cur.ID
}

// Reset forgets a simulation that a panic left behind.
func Reset() { S = nil; budget = 1 << 62 }

// repoFrames lists the lines of the code under test in a stack trace.
func repoFrames(st string) string {
	var at []string
	for _, l := range strings.Split(st, "\n") {
		if i := strings.Index(l, "/gosync/"); i >= 0 && strings.HasPrefix(l, "\t") {
			f, _, _ := strings.Cut(l[i+len("/gosync/"):], " ")
			at = append(at, f)
		}
	}
	return " (at " + strings.Join(at, " < ") + ")"
}
