//go:build !race

package simrt

import "unsafe"

// Race tells whether this build watches for data races.
const Race = false

func raceAcq(p unsafe.Pointer)         {}
func raceRel(p unsafe.Pointer)         {}
func raceOff()                         {}
func raceOn()                          {}
func raceRead(p unsafe.Pointer)        {}
func raceBytes(b []byte, write bool)   {}
func raceErrors() int                  { return 0 }
func raceTake(from int) (out []string) { return nil }

func raceWrite(unsafe.Pointer) {}
