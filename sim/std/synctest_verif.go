package synctest

import isynctest "internal/synctest"

// VerifRun runs f in a bubble of its own, outside of any test.
func VerifRun(f func()) { isynctest.Run(f) }
