package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif.local/sim/simrt"
)

// Replay is the replay file of a violation.
type Replay struct {
	Property  string   `json:"property"`
	Kind      string   `json:"kind"`
	Message   string   `json:"message"`
	Seed      uint64   `json:"seed"`
	Run       int64    `json:"run"`
	Workload  []string `json:"workload"`
	Faults    []string `json:"faults"`
	OrigLen   int      `json:"choices_before_minimising"`
	Choices   []uint32 `json:"choices"`
	LogHash   string   `json:"log_hash"`
	Confirmed string   `json:"replayed_in_fresh_process"`
	Trace     []string `json:"trace"`
}

// Batch is what a worker reports.
type Batch struct {
	Runs, Sims, Steps, Stmts, Switches, SimNanos, Faulty int64
	Faults                                               map[string]int64
	Cover                                                map[string]int64
	Ilv                                                  []uint64
	Execs                                                []uint64         // hashes of the non-trivial executions
	Known                                                map[string]int64 // known findings met
	KnownMsg                                             map[string]string
	Redone, Mismatch                                     int64
	Violation                                            *Replay
	Infra                                                string
	Last                                                 int64
	MaxSteps, MaxStmts                                   int64 // of one run
	Used                                                 int64 // of the limits of one simulation, per mille
	Slow                                                 int64 // ended only beyond the limits
	Abandoned                                            int64 // took too long in real time
	Sample                                               []string
}

var (
	fProp    = flag.String("prop", "", "property")
	fMode    = flag.String("mode", "check", "check, worker, replay, one or hashes")
	fSeed    = flag.Uint64("seed", 1, "base seed")
	fRuns    = flag.Int64("runs", 1<<40, "runs")
	fTime    = flag.Duration("time", 25*time.Second, "wall-clock cap")
	fFrom    = flag.Int64("from", 0, "first run")
	fStep    = flag.Int64("step", 1, "stride")
	fReplay  = flag.String("replay", "", "replay file")
	fOut     = flag.String("out", "", "directory for replay files")
	fEvid    = flag.String("evidence", "", "evidence file")
	fKnown   = flag.String("known", "", "known findings file")
	fWorkers = flag.Int("workers", runtime.NumCPU(), "worker processes")
	fTier    = flag.String("tier", "quick", "tier name, for the evidence")
	fBuild   = flag.Float64("build-seconds", 0, "time the build took, for the evidence")
	fShrink  = flag.Duration("shrink", 20*time.Second, "time for minimising")
	fSave    = flag.String("save", "", "with -mode one: save a replay file of the run")
)

func main() {
	flag.Parse()
	if dir := raceSetup(); dir != "" { // the setting takes effect at the start of a process
		self, _ := os.Executable()
		cmd := exec.Command(self, os.Args[1:]...)
		cmd.Stdin, cmd.Stdout, cmd.Stderr = os.Stdin, os.Stdout, os.Stderr
		err := cmd.Run()
		os.RemoveAll(dir)
		if ee, ok := err.(*exec.ExitError); ok {
			os.Exit(ee.ExitCode())
		} else if err != nil {
			die("%v", err)
		}
		return
	}
	switch *fMode {
	case "check":
		os.Exit(check())
	case "worker":
		worker()
	case "replay":
		os.Exit(replay())
	case "one":
		so := muteStdout()
		c := runOne(*fProp, simrt.NewSource(seedFor(*fSeed, *fProp, *fFrom)), true)
		os.Stdout = so
		dump(c)
		if *fSave != "" {
			vals := values(c.Src)
			r := &Replay{Property: *fProp, Seed: *fSeed, Run: *fFrom, Choices: vals}
			b, _ := json.MarshalIndent(r, "", " ")
			os.WriteFile(*fSave, b, 0644)
		}
	case "hashes": // of the event logs of runs -from, -from + -step, ..., in one process
		so := muteStdout()
		for i := int64(0); i < *fRuns; i++ {
			k := *fFrom + i**fStep
			c := runOne(*fProp, simrt.NewSource(seedFor(*fSeed, *fProp, k)), false)
			fmt.Fprintf(so, "%d %x %d %d\n", k, c.LogHash, c.Steps, c.Stmts)
		}
	default:
		die("unknown mode")
	}
}

// muteStdout keeps libraries under test from writing to the real standard output, which it returns.
func muteStdout() *os.File {
	so := os.Stdout
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		return so
	}
	fd, err := syscall.Dup(1)
	if err != nil {
		return so
	}
	syscall.CloseOnExec(fd)
	syscall.Dup3(int(null.Fd()), 1, 0)
	return os.NewFile(uintptr(fd), "stdout")
}

func dump(c *Ctx) {
	for _, d := range c.Desc {
		fmt.Println("#", d)
	}
	for _, t := range c.Trace {
		fmt.Println(t)
	}
	fmt.Println("faults:", c.Faults, "cover:", c.Cover)
	fmt.Printf("steps %d stmts %d choices %d hash %x\n", c.Steps, c.Stmts, c.Src.Used(), c.LogHash)
	if c.Infra != "" {
		fmt.Println("INFRA:", c.Infra)
	}
	for _, v := range c.Viol {
		fmt.Printf("violated %s %s: %s\n", v.Prop, v.Kind, v.Msg)
	}
}

func values(s *simrt.Source) []uint32 {
	v := make([]uint32, len(s.Rec))
	for i, r := range s.Rec {
		v[i] = r.V
	}
	return v
}

// ---- worker

// A run that takes this long (minutes of work in code that is not instrumented, such as checksums
// of megabytes at every byte of a file) is given up. It was not explored, and is no violation.
const (
	abandonAfter = 90 * time.Second
	abandoned    = 8
)

func worker() {
	if *fProp == "" || len(props[*fProp]) == 0 {
		die("no such property %q", *fProp)
	}
	debug.SetGCPercent(400)
	known := loadKnown(*fKnown)
	w := bufio.NewWriter(muteStdout())
	enc := json.NewEncoder(w)
	b := newBatch()
	start := time.Now()
	var heart atomic.Int64
	heart.Store(time.Now().UnixNano())
	var curRun atomic.Int64
	var exploring atomic.Bool
	go func() { // watchdog in real time: the simulated world cannot hang, real code could
		for {
			time.Sleep(time.Second)
			if exploring.Load() && time.Since(time.Unix(0, heart.Load())) > abandonAfter {
				fmt.Fprintf(os.Stderr, "ABANDONED run %d\n", curRun.Load())
				os.Exit(abandoned)
			}
			if time.Since(time.Unix(0, heart.Load())) > 240*time.Second {
				fmt.Fprintf(os.Stderr, "WATCHDOG run %d\n", curRun.Load())
				buf := make([]byte, 1<<16)
				os.Stderr.Write(buf[:runtime.Stack(buf, true)])
				os.Exit(7)
			}
		}
	}()
	flushed := time.Now()
	flush := func() {
		enc.Encode(b)
		w.Flush()
		b = newBatch()
		flushed = time.Now()
	}
	for i := *fFrom; i < *fRuns; i += *fStep {
		if time.Since(start) > *fTime {
			break
		}
		heart.Store(time.Now().UnixNano())
		curRun.Store(i)
		fmt.Fprintf(os.Stderr, "R%d\n", i)
		seed := seedFor(*fSeed, *fProp, i)
		began := time.Now()
		exploring.Store(true)
		c := runOne(*fProp, simrt.NewSource(seed), false)
		exploring.Store(false)
		if d := time.Since(began); d > 5*time.Second {
			fmt.Fprintf(os.Stderr, "SLOW run %d: %v, %d steps, %d statements\n", i, d, c.Steps, c.Stmts)
		}
		b.Last = i
		b.add(c)
		if c.Infra != "" {
			b.Infra = fmt.Sprintf("run %d: %s", i, c.Infra)
			flush()
			os.Exit(0)
		}
		if i%97 == 5 && len(c.Mine()) == 0 { // determinism check: the same run, replayed
			heart.Store(time.Now().UnixNano())
			c2 := runOne(*fProp, simrt.NewReplay(values(c.Src)), false)
			heart.Store(time.Now().UnixNano())
			c3 := runOne(*fProp, simrt.NewSource(seed), false)
			b.Redone++
			if c2.LogHash != c.LogHash || c3.LogHash != c.LogHash || c2.Src.Used() != c.Src.Used() {
				b.Mismatch++
			}
		}
		if i < 3 {
			c2 := runOne(*fProp, simrt.NewReplay(values(c.Src)), true)
			b.Sample = append(b.Sample, fmt.Sprintf("run %d: %s | faults %v | %d scheduling steps, %d switches", i, strings.Join(c2.Desc, "; "), c.Faults, c.Steps, c.Switches))
		}
		var fresh []Violation
		for _, v := range c.Mine() {
			if k := matchKnown(known, v); k != nil {
				b.Known[k.Raw]++
				if b.KnownMsg[k.Raw] == "" {
					b.KnownMsg[k.Raw] = v.Msg
				}
				continue
			}
			fresh = append(fresh, v)
		}
		if len(fresh) > 0 && c.Used >= 1000 {
			// no end within the limit: does it really not end?
			heart.Store(time.Now().UnixNano())
			c2 := runLonger(*fProp, simrt.NewSource(seed))
			heart.Store(time.Now().UnixNano())
			if c2.Infra == "" && len(c2.Mine()) == 0 {
				b.Slow++
				fresh = nil
			}
		}
		if len(fresh) > 0 {
			b.Violation = minimise(c, fresh[0], seed, i, &heart)
			flush()
			os.Exit(0)
		}
		if time.Since(flushed) > 2*time.Second {
			flush()
		}
	}
	flush()
}

func newBatch() *Batch {
	return &Batch{Faults: map[string]int64{}, Cover: map[string]int64{}, Known: map[string]int64{}, KnownMsg: map[string]string{}}
}

func (b *Batch) add(c *Ctx) {
	b.Runs++
	b.Sims += c.Sims
	b.Steps += c.Steps
	b.MaxSteps, b.MaxStmts = max(b.MaxSteps, c.Steps), max(b.MaxStmts, c.Stmts)
	b.Used = max(b.Used, c.Used)
	b.Stmts += c.Stmts
	b.Switches += c.Switches
	b.SimNanos += c.SimNanos
	if len(c.Faults) > 0 {
		b.Faulty++
	}
	for k, v := range c.Faults {
		b.Faults[k] += int64(v)
	}
	for k, v := range c.Cover {
		b.Cover[k] += int64(v)
	}
	for _, v := range c.Viol {
		if v.Prop != *fProp {
			b.Cover["violation of another property: "+v.Prop+" "+v.Kind]++
		}
	}
	h := uint64(1469598103934665603)
	for _, x := range c.Ilv {
		h = (h ^ x) * 1099511628211
	}
	b.Ilv = append(b.Ilv, h)
	if c.Switches >= 4 || len(c.Faults) > 0 {
		b.Execs = append(b.Execs, c.LogHash)
	}
}

// ---- minimising

func same(c *Ctx, v Violation) *Violation {
	if c.Infra != "" {
		return nil
	}
	for _, x := range c.Viol {
		if x.Prop == v.Prop && x.Kind == v.Kind {
			return &x
		}
	}
	return nil
}

func minimise(c *Ctx, v Violation, seed uint64, run int64, heart *atomic.Int64) *Replay {
	prop := c.Prop
	best := values(c.Src)
	orig := len(best)
	deadline := time.Now().Add(*fShrink)
	try := func(vals []uint32) bool {
		if time.Now().After(deadline) {
			return false
		}
		heart.Store(time.Now().UnixNano())
		var c2 *Ctx
		if c.Used < 1000 { // one that takes much longer is not smaller
			c2 = runCapped(prop, simrt.NewReplay(vals), 4*c.Steps+20_000, 4*c.Stmts+500_000)
		} else {
			c2 = runOne(prop, simrt.NewReplay(vals), false)
		}
		if same(c2, v) == nil {
			return false
		}
		// keep only what was really consumed, without trailing zeros
		used := values(c2.Src)
		if len(used) > len(vals) {
			used = used[:len(vals)]
		}
		for len(used) > 0 && used[len(used)-1] == 0 {
			used = used[:len(used)-1]
		}
		best = used
		return true
	}
	if try(append([]uint32(nil), best...)) {
		for pass := 0; pass < 6 && time.Now().Before(deadline); pass++ {
			before := append([]uint32(nil), best...)
			// shorter tails
			for n := len(best) / 2; n >= 1; n /= 2 {
				for len(best) > n && try(append([]uint32(nil), best[:len(best)-n]...)) {
				}
			}
			// zero or delete chunks
			for n := (len(best) + 1) / 2; n >= 1; n /= 2 {
				for at := 0; at < len(best) && time.Now().Before(deadline); at += n {
					end := min(at+n, len(best))
					z := append([]uint32(nil), best...)
					nz := false
					for k := at; k < end; k++ {
						nz = nz || z[k] != 0
						z[k] = 0
					}
					if nz && try(z) {
						continue
					}
					if try(append(append([]uint32(nil), best[:at]...), best[end:]...)) {
						at -= n
					}
				}
				if len(best) > 4000 && n < 8 {
					break
				}
			}
			// smaller values
			for at := 0; at < len(best) && time.Now().Before(deadline); at++ {
				for at < len(best) && best[at] > 0 {
					z := append([]uint32(nil), best...)
					z[at] = best[at] / 2
					if try(z) {
						continue
					}
					z = append([]uint32(nil), best...)
					z[at] = best[at] - 1
					if best[at] < 64 && try(z) {
						continue
					}
					break
				}
			}
			if equal(before, best) {
				break
			}
		}
	}
	heart.Store(time.Now().UnixNano())
	c2 := runOne(prop, simrt.NewReplay(best), true)
	r := &Replay{Property: v.Prop, Kind: v.Kind, Message: v.Msg, Seed: seed, Run: run, OrigLen: orig, Choices: best}
	if x := same(c2, v); x != nil {
		r.Message = x.Msg
		r.Trace, r.Workload = c2.Trace, c2.Desc
		r.LogHash = fmt.Sprintf("%016x", c2.LogHash)
		for k, n := range c2.Faults {
			r.Faults = append(r.Faults, fmt.Sprintf("%s x%d", k, n))
		}
		sort.Strings(r.Faults)
	} else {
		r.Choices = values(c.Src)
		r.LogHash = fmt.Sprintf("%016x", c.LogHash)
	}
	if len(r.Trace) > 1500 {
		r.Trace = append(append(append([]string{}, r.Trace[:400]...), "..."), r.Trace[len(r.Trace)-1000:]...)
	}
	return r
}

func equal(a, b []uint32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ---- replay

func replay() int {
	raw, err := os.ReadFile(*fReplay)
	if err != nil {
		die("%v", err)
	}
	var r Replay
	if err := json.Unmarshal(raw, &r); err != nil {
		die("%v", err)
	}
	so := muteStdout()
	c := runOne(r.Property, simrt.NewReplay(r.Choices), true)
	os.Stdout = so
	if !flagQuiet() {
		dump(c)
	}
	if c.Infra != "" {
		fmt.Println("INFRA", c.Infra)
		return 2
	}
	if x := same(c, Violation{Prop: r.Property, Kind: r.Kind}); x != nil {
		fmt.Printf("REPRODUCED property=%s kind=%s log_hash=%016x same_hash=%v\n", r.Property, r.Kind, c.LogHash, fmt.Sprintf("%016x", c.LogHash) == r.LogHash)
		return 1
	}
	fmt.Println("NOT REPRODUCED")
	return 0
}

func flagQuiet() bool { return os.Getenv("SIM_QUIET") != "" }

// ---- known findings

// Known is a recorded finding: violations of Prop whose kind and message contain the given text.
type Known struct {
	Prop, Kind, Match, Desc, Raw string
}

func loadKnown(path string) []Known {
	if path == "" {
		return nil
	}
	raw, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []Known
	for _, l := range strings.Split(string(raw), "\n") {
		// finding: property=C02 kind=<kind> match="<text>" <description>
		rest, ok := strings.CutPrefix(l, "finding: ")
		if !ok {
			continue
		}
		k := Known{Raw: l}
		for {
			rest = strings.TrimLeft(rest, " ")
			key, r, ok := strings.Cut(rest, "=")
			if !ok || strings.ContainsAny(key, " \"") {
				break
			}
			var val string
			if strings.HasPrefix(r, `"`) {
				end := strings.Index(r[1:], `"`)
				val, rest = r[1:1+end], r[2+end:]
			} else {
				val, rest, _ = strings.Cut(r, " ")
			}
			switch key {
			case "property":
				k.Prop = val
			case "kind":
				k.Kind = val
			case "match":
				k.Match = val
			}
		}
		k.Desc = strings.TrimSpace(rest)
		out = append(out, k)
	}
	return out
}

func matchKnown(ks []Known, v Violation) *Known {
	for i := range ks {
		if ks[i].Prop == v.Prop && ks[i].Kind == v.Kind && strings.Contains(v.Msg, ks[i].Match) {
			return &ks[i]
		}
	}
	return nil
}

// ---- parent

func check() int {
	start := time.Now()
	if len(props[*fProp]) == 0 {
		die("no such property %q", *fProp)
	}
	if (*fProp == "C28") != simrt.Race {
		die("C28, and only C28, wants a build with race instrumentation")
	}
	self, _ := os.Executable()
	total := newBatch()
	ilv := map[uint64]bool{}
	execs := map[uint64]bool{}
	var mu sync.Mutex
	var viols []*Replay
	var infra []string
	var wg sync.WaitGroup
	var cmds []*exec.Cmd
	stopped := false
	stopAll := func() {
		stopped = true
		for _, c := range cmds {
			if c.Process != nil {
				c.Process.Kill()
			}
		}
	}
	for w := 0; w < *fWorkers; w++ {
		cmd := exec.Command(self, "-mode", "worker", "-prop", *fProp, "-seed", fmt.Sprint(*fSeed), "-from", fmt.Sprint(w),
			"-step", fmt.Sprint(*fWorkers), "-runs", fmt.Sprint(*fRuns), "-time", fTime.String(), "-known", *fKnown, "-shrink", fShrink.String())
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=2500MiB")
		out, _ := cmd.StdoutPipe()
		errw := &tail{}
		cmd.Stderr = errw
		if err := cmd.Start(); err != nil {
			die("%v", err)
		}
		cmds = append(cmds, cmd)
		wg.Add(1)
		go func() {
			defer wg.Done()
			dec := json.NewDecoder(out)
			fin := false
			for {
				var b Batch
				if err := dec.Decode(&b); err != nil {
					if fin = err == io.EOF; !fin {
						infra = append(infra, "worker output: "+err.Error())
						io.Copy(io.Discard, out)
					}
					break
				}
				mu.Lock()
				total.merge(&b)
				for _, h := range b.Ilv {
					ilv[h] = true
				}
				for _, h := range b.Execs {
					execs[h] = true
				}
				if b.Infra != "" {
					infra = append(infra, b.Infra)
				}
				if b.Violation != nil {
					viols = append(viols, b.Violation)
					stopAll()
				}
				mu.Unlock()
			}
			err := cmd.Wait()
			mu.Lock()
			defer mu.Unlock()
			if cmd.ProcessState.ExitCode() == abandoned {
				total.Abandoned++
				return
			}
			if (err != nil || !fin) && !stopped {
				if r := crashed(errw, self); r != nil {
					viols = append(viols, r)
					stopAll()
				} else {
					infra = append(infra, fmt.Sprintf("worker died: %v: %s", err, withoutRuns(errw.last(20000))))
				}
			}
		}()
	}
	wg.Wait()
	wall := time.Since(start)
	sort.Slice(viols, func(a, b int) bool { return viols[a].Run < viols[b].Run })
	code := 0
	replays := []string{}
	for _, r := range viols {
		name := filepath.Join(*fOut, fmt.Sprintf("%s-%d.json", *fProp, r.Run))
		os.MkdirAll(*fOut, 0755)
		write := func() {
			b, _ := json.MarshalIndent(r, "", " ")
			if err := os.WriteFile(name, b, 0644); err != nil {
				die("%v", err)
			}
		}
		write()
		if r.Confirmed == "" {
			cmd := exec.Command(self, "-mode", "replay", "-replay", name)
			cmd.Env = append(os.Environ(), "SIM_QUIET=1")
			o, _ := cmd.CombinedOutput()
			r.Confirmed = strings.TrimSpace(string(o))
			write()
		}
		fmt.Printf("violated: %s (%s): %s\n  replay: %s\n", r.Property, r.Kind, r.Message, r.Confirmed)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *fProp, name)
		replays = append(replays, name)
		code = 1
		break
	}
	for k, n := range total.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s (met in %d runs)\n", *fProp, knownDesc(k), n)
	}
	// listed findings that this exploration did not meet are still findings
	for _, k := range loadKnown(*fKnown) {
		if k.Prop == *fProp && total.Known[k.Raw] == 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s (not met in this exploration)\n", *fProp, k.Desc)
		}
	}
	if total.Mismatch > 0 {
		fmt.Printf("warning: %d of %d re-executed runs differed\n", total.Mismatch, total.Redone)
	}
	fmt.Printf("%s: %d runs, %d distinct interleavings, %.1f s wall, %d with faults, at most %d steps and %d statements in a run, %.1f%% of the limit\n", *fProp, total.Runs, len(ilv), wall.Seconds(), total.Faulty, total.MaxSteps, total.MaxStmts, float64(total.Used)/10)
	for k, n := range total.Cover {
		if strings.HasPrefix(k, "violation of another") && n > total.Runs/10 {
			fmt.Printf("note: %d runs met a %s\n", n, k)
		}
	}
	if total.Abandoned > 0 {
		fmt.Printf("note: %d runs were given up after %v\n", total.Abandoned, abandonAfter)
		if total.Runs == 0 {
			infra = append(infra, "no run ended")
		}
	}
	if code == 0 && len(infra) > 0 {
		fmt.Println("the check could not do its work:", infra[0])
		code = 2
	}
	if *fEvid != "" {
		writeEvidence(total, len(ilv), len(execs), wall, code, replays)
	}
	return code
}

func knownDesc(raw string) string {
	for _, k := range loadKnown(*fKnown) {
		if k.Raw == raw {
			return k.Desc
		}
	}
	return raw
}

func (t *Batch) merge(b *Batch) {
	t.Runs += b.Runs
	t.Sims += b.Sims
	t.Steps += b.Steps
	t.MaxSteps, t.MaxStmts = max(t.MaxSteps, b.MaxSteps), max(t.MaxStmts, b.MaxStmts)
	t.Used = max(t.Used, b.Used)
	t.Slow += b.Slow
	t.Abandoned += b.Abandoned
	t.Stmts += b.Stmts
	t.Switches += b.Switches
	t.SimNanos += b.SimNanos
	t.Faulty += b.Faulty
	t.Redone += b.Redone
	t.Mismatch += b.Mismatch
	for k, v := range b.Faults {
		t.Faults[k] += v
	}
	for k, v := range b.Cover {
		t.Cover[k] += v
	}
	for k, v := range b.Known {
		t.Known[k] += v
	}
	for k, v := range b.KnownMsg {
		t.KnownMsg[k] = v
	}
	t.Sample = append(t.Sample, b.Sample...)
}

// tail keeps the end of a worker's standard error.
type tail struct {
	mu  sync.Mutex
	buf []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.buf = append(t.buf, p...)
	if len(t.buf) > 1<<20 {
		t.buf = append([]byte(nil), t.buf[len(t.buf)-1<<19:]...)
	}
	return len(p), nil
}

func (t *tail) last(n int) string {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.buf) > n {
		return string(t.buf[len(t.buf)-n:])
	}
	return string(t.buf)
}

// crashed looks at a worker that died: if running the same run again, alone, kills the process
// again with a Go fatal error that names the code under test, that is a violation.
func crashed(errw *tail, self string) *Replay {
	run := int64(-1)
	for _, l := range strings.Split(errw.last(1<<20), "\n") {
		if n, ok := strings.CutPrefix(l, "R"); ok {
			if i, err := strconv.ParseInt(n, 10, 64); err == nil {
				run = i
			}
		}
	}
	if run < 0 {
		return nil
	}
	cmd := exec.Command(self, "-mode", "worker", "-prop", *fProp, "-seed", fmt.Sprint(*fSeed), "-from", fmt.Sprint(run),
		"-runs", fmt.Sprint(run+1), "-known", *fKnown)
	var eb bytes.Buffer
	cmd.Stderr = &eb
	cmd.Stdout = io.Discard
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=2500MiB")
	err := cmd.Run()
	if err == nil {
		return nil
	}
	s := eb.String()
	if !strings.Contains(s, "fatal error:") && !strings.Contains(s, "panic:") {
		return nil
	}
	if !strings.Contains(s, "github.com/Redundancy/go-sync") {
		return nil
	}
	i := strings.Index(s, "fatal error:")
	if i < 0 {
		i = 0
	}
	msg := s[i:]
	if len(msg) > 2000 {
		msg = msg[:2000]
	}
	return &Replay{Property: *fProp, Kind: "process-crash", Message: msg, Seed: *fSeed, Run: run,
		Confirmed: "run " + fmt.Sprint(run) + " executed alone killed the process again"}
}

// ---- evidence

// withoutRuns drops the lines that tell which run is executed.
func withoutRuns(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if !strings.HasPrefix(l, "R") {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

func writeEvidence(t *Batch, ilv, execs int, wall time.Duration, code int, replays []string) {
	h := wall.Hours()
	result := "held on everything explored"
	switch code {
	case 1:
		result = "violated"
	case 2:
		result = "could not be decided"
	}
	known := []string{}
	for k := range t.Known {
		known = append(known, k)
	}
	sort.Strings(known)
	sort.Strings(t.Sample)
	if len(t.Sample) > 8 {
		t.Sample = t.Sample[:8]
	}
	for i := range t.Sample {
		if len(t.Sample[i]) > 1500 {
			t.Sample[i] = t.Sample[i][:1500] + "..."
		}
	}
	cov := map[string]any{
		"evaluations":              t.Runs,
		"distinct_nontrivial":      execs,
		"rule":                     "A case is one simulated run: a seeded workload, schedule and fault sequence executed by the real code under the simulator. It is non-trivial if the scheduler switched tasks at least four times or at least one fault was injected; runs are distinct if the hash of their complete event log (scheduling decisions, I/O, channel and lock operations, injected faults) differs.",
		"samples":                  t.Sample,
		"technique":                "deterministic simulation with fault injection (seeded search)",
		"result":                   result,
		"build_seconds":            *fBuild,
		"simulated_processes":      t.Sims,
		"runs_per_hour":            int64(float64(t.Runs) / h),
		"seeds_per_hour":           int64(float64(t.Runs) / h),
		"seeds":                    fmt.Sprintf("run i is seeded with FNV-1a of %q for i = 0, 1, 2, ... (one seed per run, dealt to %d worker processes)", fmt.Sprintf("%d/%s/i", *fSeed, *fProp), *fWorkers),
		"simulated_seconds":        float64(t.SimNanos) / 1e9,
		"scheduling_steps":         t.Steps,
		"most_steps_in_a_run":      t.MaxSteps,
		"most_statements_in_a_run": t.MaxStmts,
		"runs_beyond_step_limit":   t.Slow,
		"runs_abandoned":           t.Abandoned,
		"most_of_the_step_limit":   fmt.Sprintf("%.1f%%", float64(t.Used)/10),
		"task_switches":            t.Switches,
		"statements_executed":      t.Stmts,
		"distinct_interleavings":   ilv,
		"interleaving_measure":     "hash of the sequence of task switches (which task runs after which) over all simulated processes of a run",
		"runs_with_faults":         t.Faulty,
		"faults_injected":          t.Faults,
		"situations_reached":       t.Cover,
		"determinism_reexecutions": t.Redone,
		"determinism_mismatches":   t.Mismatch,
		"known_findings_met":       known,
		"replays":                  replays,
		"real_code":                components[*fProp].Real,
		"simulated_or_stubbed":     components[*fProp].Stub,
	}
	ev := map[string]any{
		"property":    *fProp,
		"tier":        *fTier,
		"seed":        *fSeed,
		"level":       "exploration",
		"wall_s":      wall.Seconds(),
		"violations":  len(replays),
		"assumptions": append([]string{"Task switches happen at the statements, channel, lock, timer and I/O operations of the code under test; memory is sequentially consistent (a program without data races cannot tell, see C28)."}, components[*fProp].Assume...),
		"coverage":    cov,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		die("%v", err)
	}
	os.MkdirAll(filepath.Dir(*fEvid), 0755)
	if err := os.WriteFile(*fEvid, append(b, '\n'), 0644); err != nil {
		die("%v", err)
	}
}
