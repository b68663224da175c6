// Added to package time through -overlay by the simulator's build.

package time

import "syscall"

// VerifNow, when set, is the simulated wall clock.
var VerifNow func() (sec int64, nsec int32)

// VerifBooted is set when package initialisation is over. Until then the clock
// stands at a moment drawn from the variable VERIF_BOOT, if there is one.
var VerifBooted bool

func verifNow() (Time, bool) {
	if VerifNow != nil {
		s, n := VerifNow()
		return Time{uint64(n), s + unixToInternal, Local}, true
	}
	if VerifBooted {
		return Time{}, false
	}
	b, ok := syscall.Getenv("VERIF_BOOT")
	if !ok {
		return Time{}, false
	}
	var h int64
	for i := 0; i < len(b); i++ {
		h = (h*31 + int64(b[i])) % 100000000
	}
	return Time{0, 1500000000 + h + unixToInternal, Local}, true
}
