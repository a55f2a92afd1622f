//go:build race

package vsched

import (
	"runtime"
	"unsafe"
)

const RaceEnabled = true

func raceOff()                 { runtime.RaceDisable() }
func raceOn()                  { runtime.RaceEnable() }
func raceRel(p unsafe.Pointer) { runtime.RaceRelease(p) }
func raceAcq(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func RaceErrors() int          { return runtime.RaceErrors() }
