//go:build !race

package vsched

import "unsafe"

const RaceEnabled = false

func raceOff()                 {}
func raceOn()                  {}
func raceRel(p unsafe.Pointer) {}
func raceAcq(p unsafe.Pointer) {}
func RaceErrors() int          { return 0 }
