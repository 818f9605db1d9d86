package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verif.local/sim/simrt"
)

// C28 runs workloads of the other properties in a build with race instrumentation. Only data races
// count; what else goes wrong is for the other checks to report.
func init() {
	add := func(weight int, name string, run func(c *Ctx)) { register("C28", weight, name, run) }
	add(14, "patch, faults", func(c *Ctx) { patchScenario(c, patchOpts{faults: 60}) })
	add(4, "patch, damaged responses", func(c *Ctx) { patchScenario(c, patchOpts{faults: 100, damage: true}) })
	add(6, "block source", func(c *Ctx) { bsScenario(c, bsOpts{}) })
	add(8, "block source, failing fetches released in any order", func(c *Ctx) { bsScenario(c, bsOpts{faults: true, gate: true}) })
	add(6, "block source, closed at any time", func(c *Ctx) { bsScenario(c, bsOpts{closers: true}) })
	add(6, "block source, closed around failures of stalled fetches", func(c *Ctx) { bsScenario(c, bsOpts{closers: true, faults: true, gate: true}) })
	add(10, "concurrent matching, faults", func(c *Ctx) { matchScenario(c, 50, sizeSmall, false) })
	add(10, "merging of result streams", mergeScenario)
	add(4, "patch twice", patchTwice)
	add(6, "generation, faults", func(c *Ctx) { genScenario(c, 50) })
	add(4, "generators used at the same time", parallelGenerators)
	add(4, "patcher, faults", func(c *Ctx) { patcherScenario(c, true) })
	add(4, "seekable source, faults", func(c *Ctx) { seekerScenario(c, true) })
	add(6, "files, faults", func(c *Ctx) { fileScenario(c, fileOpts{faults: true}) })
	add(2, "command line, faults", func(c *Ctx) { cliScenario(c, true) })
	add(2, "diff, faults", func(c *Ctx) { diffScenario(c, false, true) })
	add(4, "http block source, faults", func(c *Ctx) { httpScenario(c, true) })
	add(8, "patches at the same time", parallelPatches)
	add(6, "files patched at the same time", parallelFiles)
}

type raceFrame struct{ fn, file, line string }

// race classifies a report of the race detector. It is the code under test's if both accesses are
// by it, or by a library it called.
func (c *Ctx) race(report string) {
	var what []string
	var stacks [][]raceFrame
	var fn string
	in := false
	for _, l := range strings.Split(report, "\n") {
		switch {
		case strings.HasPrefix(l, "Read at"), strings.HasPrefix(l, "Write at"), strings.HasPrefix(l, "Previous "),
			strings.HasPrefix(l, "Atomic"), strings.HasPrefix(l, "Concurrent "):
			w, _, _ := strings.Cut(strings.TrimPrefix(strings.ToLower(l), "previous "), " at")
			what = append(what, w)
			stacks = append(stacks, nil)
			in = true
		case strings.HasPrefix(l, "Goroutine "), l == "":
			in = false
		case in && strings.HasPrefix(l, "      "):
			file, _, _ := strings.Cut(strings.TrimSpace(l), " ")
			path, line, _ := strings.Cut(file, ":")
			k := len(stacks) - 1
			stacks[k] = append(stacks[k], raceFrame{fn, path, line})
		case in && strings.HasPrefix(l, "  "):
			fn = strings.TrimSuffix(strings.TrimSpace(l), "()")
		}
	}
	var at []string
	for i, st := range stacks {
		d := ""
		for _, f := range st {
			switch {
			case strings.Contains(f.file, "/gosync/"):
				d = fmt.Sprintf("%s in %s", what[i], describeFrame(f))
				if f != st[0] {
					d += " (by way of " + st[0].fn + ")"
				}
			case strings.Contains(f.file, "/sim/simrt/"), strings.Contains(f.file, "/sim/simos/"):
				continue
			case strings.Contains(f.file, "/harness/"):
				d = "harness"
			default:
				continue
			}
			break
		}
		at = append(at, d)
	}
	for _, d := range at {
		if d == "" || d == "harness" {
			c.Hit("race reports that do not concern the code under test")
			if os.Getenv("SIM_RACE_ALL") != "" {
				fmt.Fprintln(os.Stderr, report)
			}
			return
		}
	}
	if len(at) < 2 {
		c.Hit("race reports without the earlier access")
		return
	}
	c.Fail("C28", "race", "no synchronisation orders: %s", strings.Join(at, "; and: "))
	if os.Getenv("SIM_RACE_ALL") != "" {
		fmt.Fprintln(os.Stderr, report)
	}
}

func describeFrame(f raceFrame) string {
	_, file, _ := strings.Cut(f.file, "/gosync/")
	fn := f.fn
	if i := strings.LastIndex(fn, "/"); i >= 0 {
		fn = fn[i+1:]
	}
	s := fmt.Sprintf("%s (%s", fn, file)
	if b, err := os.ReadFile(f.file); err == nil {
		lines := strings.Split(string(b), "\n")
		n := 0
		fmt.Sscan(f.line, &n)
		if n > 0 && n <= len(lines) {
			s += ": " + strings.TrimSpace(lines[n-1])
		}
	}
	return s + ")"
}

// raceSetup sees to it that the race detector reports into a file, and returns its prefix.
func raceSetup() string {
	if !simrt.Race || os.Getenv("GORACE") != "" {
		return ""
	}
	dir, err := os.MkdirTemp("", "gosync-race")
	if err != nil {
		die("%v", err)
	}
	os.Setenv("GORACE", "log_path="+filepath.Join(dir, "log")+" exitcode=0 atexit_sleep_ms=0 history_size=4 suppress_equal_stacks=0 suppress_equal_addresses=0")
	return dir
}

func (c *Ctx) races(rs []string) {
	for _, r := range rs {
		c.race(r)
	}
}
