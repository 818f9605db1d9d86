//go:build race

package simrt

import (
	"os"
	"runtime"
	"strconv"
	"strings"
	"unsafe"
)

// Race tells whether this build watches for data races: the compiler's race instrumentation
// records every memory access of the code under test and of its libraries, and happens-before
// follows only from what Go's memory model promises, not from the order in which the simulator
// happened to run the tasks.
const Race = true

func raceAcq(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func raceRel(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// raceOff and raceOn hide the switches between coroutines, which are no synchronisation.
func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

func raceRead(p unsafe.Pointer) {
	if p != nil {
		runtime.RaceRead(p)
	}
}

func raceWrite(p unsafe.Pointer) { runtime.RaceWrite(p) }

func raceBytes(b []byte, write bool) {
	switch {
	case len(b) == 0:
	case write:
		runtime.RaceWriteRange(unsafe.Pointer(&b[0]), len(b))
	default:
		runtime.RaceReadRange(unsafe.Pointer(&b[0]), len(b))
	}
}

func raceErrors() int { return runtime.RaceErrors() }

var raceLog *os.File
var raceAt int64

// raceTake returns the reports since the given count, and skips them in the log.
func raceTake(from int) (out []string) {
	if runtime.RaceErrors() == from {
		return nil
	}
	if raceLog == nil {
		path := ""
		for _, o := range strings.Fields(os.Getenv("GORACE")) {
			if p, ok := strings.CutPrefix(o, "log_path="); ok {
				path = p
			}
		}
		f, err := os.Open(path + "." + strconv.Itoa(os.Getpid()))
		if err != nil {
			panic("simrt: no race log: " + err.Error())
		}
		raceLog = f
	}
	fi, err := raceLog.Stat()
	if err != nil {
		panic(err)
	}
	n := fi.Size() - raceAt
	skip := int64(0)
	if n > 4<<20 {
		skip, n = n-4<<20, 4<<20
	}
	buf := make([]byte, n)
	k, _ := raceLog.ReadAt(buf, raceAt+skip)
	raceAt = fi.Size()
	for _, r := range strings.Split(string(buf[:k]), "==================\n") {
		if strings.HasPrefix(r, "WARNING: DATA RACE") {
			out = append(out, r)
		}
	}
	return out
}
