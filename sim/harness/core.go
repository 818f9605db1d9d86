package main

import (
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"strings"

	"verif.local/sim/simos"
	"verif.local/sim/simrt"
)

// Violation of a property, seen in one run.
type Violation struct {
	Prop string `json:"property"`
	Kind string `json:"kind"`
	Msg  string `json:"message"`
}

// Ctx is one simulated run: a workload, one or more simulated processes and the oracles.
type Ctx struct {
	Src     *simrt.Source
	Prop    string // property under check, "" = all
	Verbose bool

	Viol   []Violation
	Faults map[string]int // injected faults that fired
	Cover  map[string]int // situations reached
	Trace  []string
	Infra  string

	limits  simrt.Config // of oversized workloads
	longer  int64        // times the limits
	cap     simrt.Config // limits of the runs that look for a smaller violation
	opErrs  int          // number of calls of opErr
	sameErr error        // what every failing operation returns
	limited bool         // no oversized workloads
	single  bool         // one pair of files in the run

	Sims, Steps, Stmts, Switches, SimNanos, Used int64
	Ilv                                          []uint64
	LogHash                                      uint64
	Desc                                         []string // workload description, for reports
}

// Fail records a violation.
func (c *Ctx) Fail(prop, kind, format string, a ...any) {
	for _, v := range c.Viol {
		if v.Prop == prop && v.Kind == kind {
			return
		}
	}
	m := fmt.Sprintf(format, a...)
	if len(m) > 3000 {
		m = m[:3000] + "..."
	}
	c.Viol = append(c.Viol, Violation{prop, kind, m})
	simrt.Logf("VIOLATED %s %s: %s", prop, kind, m)
}

// Fault counts an injected fault.
func (c *Ctx) Fault(kind string) {
	c.Faults[kind]++
	simrt.Logf("fault %s", kind)
}

// Hit counts a situation.
func (c *Ctx) Hit(what string) { c.Cover[what]++ }

// Describe adds a line of workload description.
func (c *Ctx) Describe(format string, a ...any) {
	if c.Verbose {
		s := fmt.Sprintf(format, a...)
		if len(s) > 4000 {
			s = s[:4000] + "..."
		}
		c.Desc = append(c.Desc, s)
	}
}

// W draws a workload value, see Source.
func (c *Ctx) W(label string, n int) int          { return c.Src.Intn(simrt.KWork, label, n) }
func (c *Ctx) WR(label string, lo, hi int) int    { return c.Src.Range(simrt.KWork, label, lo, hi) }
func (c *Ctx) WW(label string, w ...int) int      { return c.Src.Weighted(simrt.KWork, label, w...) }
func (c *Ctx) WC(label string, num, den int) bool { return c.Src.Chance(simrt.KWork, label, num, den) }
func (c *Ctx) F(label string, n int) int          { return c.Src.Intn(simrt.KFault, label, n) }
func (c *Ctx) FW(label string, w ...int) int      { return c.Src.Weighted(simrt.KFault, label, w...) }
func (c *Ctx) FC(label string, num, den int) bool { return c.Src.Chance(simrt.KFault, label, num, den) }

// Sim runs one simulated process.
func (c *Ctx) Sim(cfg simrt.Config, main func()) *simrt.Outcome {
	if cfg == (simrt.Config{}) {
		cfg = c.limits
	}
	if c.cap.MaxSteps > 0 {
		cfg.MaxSteps, cfg.MaxStmts = c.cap.MaxSteps, c.cap.MaxStmts
	}
	cfg.Verbose, cfg.Longer = c.Verbose, c.longer
	s := simrt.NewSim(c.Src, cfg)
	o := s.Run(main)
	c.Sims++
	c.Steps += o.Steps
	c.Stmts += o.Stmts
	c.Used = max(c.Used, s.Used())
	c.Switches += o.Switches
	c.SimNanos += o.SimNanos
	c.Ilv = append(c.Ilv, o.Interleave)
	c.LogHash = (c.LogHash ^ o.LogHash) * 1099511628211
	c.Trace = append(c.Trace, s.Trace...)
	c.races(o.Races)
	if o.Panic != "" && !o.PanicRepo {
		c.Infra = "harness panic: " + o.Panic
	}
	return o
}

// Report turns what went wrong with a simulated process into a violation of prop: a panic of the
// code under test, no progress, or a deadlock. It tells whether the process ended normally.
func (c *Ctx) Report(o *simrt.Outcome, prop, what string) bool {
	switch {
	case c.Infra != "":
		return false
	case o.Panic != "":
		c.Fail(prop, "panic", "%s: %s", what, o.Panic)
		return false
	case o.LimitHit:
		c.Fail(prop, "no-progress", "%s: no end after %d scheduling steps and %d statements; tasks: %s", what, o.Steps, o.Stmts, strings.Join(o.Blocked, "; "))
		return false
	case o.Deadlock:
		c.Fail(prop, "deadlock", "%s: blocked for good with nothing outstanding; tasks: %s", what, strings.Join(o.Blocked, "; "))
		return false
	}
	return !o.Aborted
}

// Scenario is a workload with oracles.
type Scenario struct {
	Name string
	Run  func(c *Ctx)
}

// runOne executes one run.
func runOne(prop string, src *simrt.Source, verbose bool) (c *Ctx) {
	return run(&Ctx{Src: src, Prop: prop, Verbose: verbose})
}

// runCapped executes one run with lower limits.
func runCapped(prop string, src *simrt.Source, steps, stmts int64) (c *Ctx) {
	return run(&Ctx{Src: src, Prop: prop, cap: simrt.Config{MaxSteps: steps, MaxStmts: stmts}})
}

// runLonger executes one run with higher limits.
func runLonger(prop string, src *simrt.Source) (c *Ctx) {
	return run(&Ctx{Src: src, Prop: prop, longer: 3})
}

func run(x *Ctx) (c *Ctx) {
	c = x
	c.Faults, c.Cover = map[string]int{}, map[string]int{}
	prop, src := c.Prop, c.Src
	defer func() {
		simos.Disk = nil
		if r := recover(); r != nil {
			simrt.Reset()
			c.Infra = fmt.Sprintf("harness panic outside of a simulation: %v\n%s", r, debug.Stack())
		}
	}()
	scs := props[prop]
	w := make([]int, len(scs))
	for i := range scs {
		w[i] = scs[i].weight
	}
	i := src.Weighted(simrt.KWork, "scenario", w...)
	simrt.BufSize = 0
	simrt.ResetState()
	c.Hit("scenario:" + scs[i].sc.Name)
	c.Describe("scenario %s", scs[i].sc.Name)
	scs[i].sc.Run(c)
	return c
}

// Mine returns the violations of the property under check.
func (c *Ctx) Mine() []Violation {
	var r []Violation
	for _, v := range c.Viol {
		if c.Prop == "" || v.Prop == c.Prop {
			r = append(r, v)
		}
	}
	return r
}

type weighted struct {
	weight int
	sc     Scenario
}

var props = map[string][]weighted{}

func register(prop string, weight int, name string, run func(c *Ctx)) {
	props[prop] = append(props[prop], weighted{weight, Scenario{name, run}})
}

func seedFor(base uint64, prop string, i int64) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", base, prop, i)
	return h.Sum64()
}

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	os.Exit(2)
}
