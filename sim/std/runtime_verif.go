// Added to package runtime through -overlay by the simulator's build. It gives
// the simulator the seams it needs: seeded runtime randomness and a way to
// park, wake and look at goroutines that is invisible to the race detector.

package runtime

import "unsafe"

var (
	verifRandOn    bool
	verifRandState uint64
)

// verifCPUs, when positive, is the number of processors the program is told.
var verifCPUs int

// verifGoroutines and verifHeap are added to what the program is told about
// the goroutines and the memory in use: a process that is busy with other things.
var (
	verifGoroutines int
	verifHeap       uint64
)

//go:linkname verifSetLoad
func verifSetLoad(n int, heap uint64) { verifGoroutines, verifHeap = n, heap }

func verifMem(m *MemStats) {
	for _, p := range []*uint64{&m.Alloc, &m.TotalAlloc, &m.Sys, &m.HeapAlloc, &m.HeapSys, &m.HeapInuse} {
		*p += verifHeap
	}
	m.HeapObjects += verifHeap >> 6
	m.Mallocs += verifHeap >> 6
	m.NumGC += uint32(verifHeap >> 22)
}

//go:linkname verifSetCPUs
func verifSetCPUs(n int) { verifCPUs = n }

//go:linkname verifSeed
func verifSeed(s uint64) {
	verifRandState = s
	verifRandOn = true
}

// verifBoot makes what package initialisation sees (random numbers, map order,
// number of processors) a function of the variable VERIF_BOOT.
func verifBoot() {
	b := gogetenv("VERIF_BOOT")
	if b == "" {
		return
	}
	h := uint64(14695981039346656037)
	for i := 0; i < len(b); i++ {
		h = (h ^ uint64(b[i])) * 1099511628211
	}
	verifSeed(h)
	verifCPUs = 1 << (h >> 40 % 7)
}

//go:nosplit
func verifRand() uint64 {
	verifRandState += 0x9e3779b97f4a7c15
	z := verifRandState
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// selectRand replaces cheaprandn in select statements.
func verifSelectRand(n uint32) uint32 {
	if verifRandOn {
		return uint32(verifRand() % uint64(n))
	}
	return cheaprandn(n)
}

//go:linkname verifGoid
func verifGoid() uint64 { return getg().goid }

//go:linkname verifG
func verifG() unsafe.Pointer { return unsafe.Pointer(getg()) }

//go:linkname verifPark
func verifPark() { gopark(nil, nil, waitReasonDebugCall, traceBlockGeneric, 1) }

//go:linkname verifReady
func verifReady(gp unsafe.Pointer) { goready((*g)(gp), 1) }

// verifStatus: 0 gone, 1 runnable or running or in a system call, 2 parked by
// verifPark, 3 blocked on a synchronisation object, 4 waiting for a timer,
// 5 waiting for the runtime (garbage collection and the like).
//
//go:linkname verifStatus
func verifStatus(p unsafe.Pointer, goid uint64) int {
	gp := (*g)(p)
	if gp.goid != goid {
		return 0
	}
	switch readgstatus(gp) &^ _Gscan {
	case _Gdead, _Gidle:
		return 0
	case _Gwaiting:
		switch gp.waitreason {
		case waitReasonDebugCall:
			return 2
		case waitReasonSleep:
			return 4
		case waitReasonSemacquire, waitReasonChanReceiveNilChan, waitReasonChanSendNilChan,
			waitReasonSelectNoCases, waitReasonSelect, waitReasonChanReceive, waitReasonChanSend,
			waitReasonSyncCondWait, waitReasonSyncMutexLock, waitReasonSyncRWMutexRLock,
			waitReasonSyncRWMutexLock, waitReasonSyncWaitGroupWait, waitReasonCoroutine:
			return 3
		}
		return 5
	}
	return 1
}
