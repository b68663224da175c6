// Package verifrt is the simulator's scheduler. Tasks are real goroutines of a
// single-processor program; exactly one of them runs, and which one is decided
// here, from a seed or from a recorded list of switches, at the yield points
// (Y) that the build inserts in front of every statement of the code under
// test. A goroutine that blocks on a real lock, channel or wait group is seen
// as blocked and another task goes on; goroutines the code under test starts
// join the scheduler at their first yield point.
//
// Everything here is //go:norace and uses fixed arrays: under the race
// detector the scheduler must not order the tasks it interleaves, or it would
// hide the very races it provokes.
package verifrt

import (
	"runtime"
	"sync"
	"time"
	"unsafe"
)

//go:linkname verifSeed runtime.verifSeed
func verifSeed(uint64)

//go:linkname verifSetCPUs runtime.verifSetCPUs
func verifSetCPUs(int)

// SetCPUs sets the number of processors the program believes in; 0: the truth.
func SetCPUs(n int) { verifSetCPUs(n) }

//go:linkname verifSetLoad runtime.verifSetLoad
func verifSetLoad(int, uint64)

// SetLoad adds to the goroutines and the heap the program sees in its process.
func SetLoad(n int, heap uint64) { verifSetLoad(n, heap) }

//go:linkname verifGoid runtime.verifGoid
func verifGoid() uint64

//go:linkname verifG runtime.verifG
func verifG() unsafe.Pointer

//go:linkname verifPark runtime.verifPark
func verifPark()

//go:linkname verifReady runtime.verifReady
func verifReady(unsafe.Pointer)

//go:linkname verifStatus runtime.verifStatus
func verifStatus(unsafe.Pointer, uint64) int

const (
	maxTasks = 1024
	maxPre   = 1 << 20
	noStep   = ^uint64(0)
)

const (
	stFree = iota
	stReady
	stRunning
	stBlocked
	stStalled
	stDone
	stRebind
)

type task struct {
	g       unsafe.Pointer
	goid    uint64
	state   int8
	child   bool
	steps   uint64
	budget  uint64 // local step at which the running operation is declared stuck
	nextPre uint64 // local step of the next recorded preemption
	preAt   int    // its position in the list
	prio    int
}

// Pre is one preemption: task T, at its local step S, gave way to task To.
type Pre struct {
	T  int    `json:"t"`
	S  uint64 `json:"s"`
	To int    `json:"to"`
}

// Sched says how switches are chosen.
type Sched struct {
	Mode   string `json:"mode"` // seq, op, rand, hot, pct or replay
	Seed   uint64 `json:"seed,omitempty"`
	Gap    uint64 `json:"gap,omitempty"`    // rand: mean steps between switches
	Hot    []int  `json:"hot,omitempty"`    // hot: sites to switch at
	Points int    `json:"points,omitempty"` // pct: priority change points
	Len    uint64 `json:"len,omitempty"`    // pct: expected length in steps
	Pre    []Pre  `json:"pre,omitempty"`    // replay
	Next   []int  `json:"next,omitempty"`   // replay: choices when a task stops
}

// Outcome of one simulated run.
type Outcome struct {
	Steps    uint64
	Switches int
	Hash     uint64 // of the switch sequence by site
	Deadlock bool   // callers blocked while only stalled callers remained
	Dead     bool   // tasks blocked for good: the process must be abandoned
	Blocked  int    // times a task was found blocked on a lock or channel
	Fired    int    // timers that went off
	Tickers  int    // tickers nobody stopped, and functions put off for long that nobody took back
	Children int    // goroutines started by the code under test
	Pre      []Pre
	Next     []int
	Site     int // site of the last step
}

// Hang is what a task that exceeds its step budget panics with.
type Hang struct{ Site int }

var (
	active   bool
	tasks    [maxTasks]task
	ntask    int
	nbody    int
	cur      int
	curGoid  uint64
	gsteps   uint64
	live     int
	inGC     bool
	lastSite int

	mode    int
	rng     uint64
	gap     uint64
	nextG   uint64
	hot     [8192]bool
	changes [64]uint64
	nchange int
	lowest  int
	preIn   [maxPre]Pre
	npreIn  int
	nextIn  [maxPre]int
	nnextIn int
	inextIn int
	preOut  [maxPre]Pre
	npreOut int
	nextOut [maxPre]int
	nnext   int
	ilv     uint64
	nswitch int
	nblock  int
	nchild  int

	// Hit and SwitchedAt are the reach measure: the sites run through by a
	// task and the sites at which a switch was made.
	Hit        [8192]bool
	SwitchedAt [8192]bool

	clockBase int64 // simulated nanoseconds
	clockJump int64 // of the wall clock
	clockSkip int64 // time that passed without steps

	timers   [maxTimers]timer
	ntimer   int
	nextFire int64 = noTime // simulated time of the next timer
	nfired   int
)

const (
	maxTimers = 2048
	longTime  = 600e9 // nobody waits that long for what is left to happen once all is done
	noTime    = int64(1) << 62
)

type timer struct {
	t      *time.Timer
	at     int64
	period int64
	on     bool
	fire   func()
}

const (
	mSeq = iota
	mOp
	mRand
	mHot
	mPct
	mReplay
)

//go:norace
func rnd() uint64 {
	rng += 0x9e3779b97f4a7c15
	return mix(rng)
}

//go:norace
func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// SeedRuntime makes map iteration order, hash seeds and random numbers of the
// process a function of s from here on.
func SeedRuntime(s uint64) { verifSeed(s) }

// SetClock sets the simulated wall clock.
//
//go:norace
func SetClock(ns int64) {
	clockBase, clockJump, clockSkip = ns, 0, 0
	for i := 0; i < ntimer; i++ {
		timers[i] = timer{}
	}
	ntimer, nextFire, nfired = 0, noTime, 0
}

// JumpClock moves the simulated wall clock.
//
//go:norace
func JumpClock(ns int64) { clockJump += ns }

// Now is the simulated wall clock: one microsecond per step plus jumps.
//
//go:norace
func Now() (int64, int32) {
	t := clockBase + clockJump + elapsed()
	s := t / 1e9
	n := t % 1e9
	if n < 0 {
		s--
		n += 1e9
	}
	return s, int32(n)
}

// elapsed is the simulated time since the start of the run; the wall clock may
// jump, this one never does.
//
//go:norace
func elapsed() int64 { return clockSkip + int64(gsteps)*1000 }

// Slow lets simulated time pass: the caller is slow.
//
//go:norace
func Slow(ns int64) {
	if !active || verifGoid() != curGoid {
		return
	}
	clockSkip += ns
	if elapsed() >= nextFire {
		fire()
	}
}

// fire runs the timers that are due, in the order of their times.
//
//go:norace
func fire() {
	for n := 0; n < 64; n++ {
		best := -1
		for i := 0; i < ntimer; i++ {
			if timers[i].on && timers[i].at <= elapsed() && (best < 0 || timers[i].at < timers[best].at) {
				best = i
			}
		}
		if best < 0 {
			break
		}
		tm := &timers[best]
		if tm.period > 0 {
			tm.at = elapsed() + tm.period
		} else {
			tm.on = false
		}
		nfired++
		tm.fire()
	}
	nextTimer()
	// whoever was woken gets as far as the next yield point
	for i := 0; i < 8; i++ {
		runtime.Gosched()
	}
}

//go:norace
func nextTimer() {
	nextFire = noTime
	for i := 0; i < ntimer; i++ {
		if timers[i].on && timers[i].at < nextFire {
			nextFire = timers[i].at
		}
	}
}

// Timers is the implementation of timers on the simulated clock.
type Timers struct{}

//go:norace
func (Timers) On() bool { return ID() >= 0 }

//go:norace
func (Timers) Add(t *time.Timer, d, period time.Duration, f func()) bool {
	if ntimer == maxTimers || ID() < 0 {
		return false
	}
	timers[ntimer] = timer{t, after(d), int64(period), true, f}
	ntimer++
	nextTimer()
	return true
}

//go:norace
func after(d time.Duration) int64 {
	if d < 0 {
		d = 0
	}
	if int64(d) > noTime/2 {
		return noTime - 1
	}
	return elapsed() + int64(d)
}

//go:norace
func find(t *time.Timer) *timer {
	for i := ntimer - 1; i >= 0; i-- {
		if timers[i].t == t {
			return &timers[i]
		}
	}
	return nil
}

//go:norace
func (Timers) Stop(t *time.Timer) (active, handled bool) {
	tm := find(t)
	if tm == nil {
		return false, false
	}
	a := tm.on
	tm.on = false
	nextTimer()
	return a, true
}

//go:norace
func (Timers) Reset(t *time.Timer, d, period time.Duration) (active, handled bool) {
	tm := find(t)
	if tm == nil {
		return false, false
	}
	a := tm.on
	tm.on, tm.at, tm.period = true, after(d), int64(period)
	nextTimer()
	return a, true
}

// Y is the yield point in front of every statement of the code under test.
//
//go:norace
func Y(site int) {
	if !active {
		return
	}
	if verifGoid() != curGoid && !join() {
		return
	}
	gsteps++
	lastSite = site
	if site < len(Hit) {
		Hit[site] = true
	}
	t := &tasks[cur]
	t.steps++
	if t.steps >= t.budget {
		panic(Hang{site})
	}
	if nextFire != noTime && elapsed() >= nextFire {
		fire()
	}
	if gsteps < nextG && t.steps != t.nextPre && !(mode == mHot && site < len(hot) && hot[site]) {
		return
	}
	slow(site, false)
}

// Point is a yield point of the harness itself: between the operations of a
// session and inside its callbacks.
//
//go:norace
func Point() {
	if !active {
		return
	}
	if verifGoid() != curGoid && !join() {
		return
	}
	gsteps++
	t := &tasks[cur]
	t.steps++
	if nextFire != noTime && elapsed() >= nextFire {
		fire()
	}
	slow(-1, true)
}

//go:norace
func slow(site int, point bool) {
	t := &tasks[cur]
	to := -1
	switch mode {
	case mOp:
		if point && rnd()%2 == 0 {
			to = pick(true)
		}
	case mRand:
		if gsteps >= nextG {
			nextG = gsteps + 1 + rnd()%(2*gap)
			to = pick(true)
		} else if point && rnd()%3 == 0 {
			to = pick(true)
		}
	case mHot:
		if gsteps >= nextG {
			nextG = gsteps + 1 + rnd()%(2*gap)
			to = pick(true)
		} else if point && rnd()%3 == 0 {
			to = pick(true)
		} else if !point && rnd()%2 == 0 {
			to = pick(true)
		}
	case mPct:
		if gsteps >= nextG {
			lowest--
			t.prio = lowest
			nextG = noStep
			for i := 0; i < nchange; i++ {
				if changes[i] > gsteps && changes[i] < nextG {
					nextG = changes[i]
				}
			}
			to = pick(false)
		}
	case mReplay:
		if t.steps == t.nextPre {
			// the recorded switches of a task are in the order of its steps
			for t.preAt < npreIn {
				p := &preIn[t.preAt]
				if p.T == cur && p.S > t.steps {
					break
				}
				if p.T == cur && p.S == t.steps && p.To < ntask && tasks[p.To].state == stReady {
					to = p.To
				}
				t.preAt++
			}
			t.nextPre = noStep
			if t.preAt < npreIn {
				t.nextPre = preIn[t.preAt].S
			}
		}
	}
	if to < 0 || to == cur {
		return
	}
	if npreOut < maxPre {
		preOut[npreOut] = Pre{cur, t.steps, to}
		npreOut++
	}
	note(cur, site, to)
	t.state = stReady
	wake(to)
	verifPark()
}

//go:norace
func firstPre(i int) {
	t := &tasks[i]
	for t.preAt < npreIn && preIn[t.preAt].T != i {
		t.preAt++
	}
	t.nextPre = noStep
	if t.preAt < npreIn {
		t.nextPre = preIn[t.preAt].S
	}
}

//go:norace
func note(from, site, to int) {
	ilv = mix(ilv ^ uint64(from)<<40 ^ uint64(site+2)<<8 ^ uint64(to))
	nswitch++
	if site >= 0 && site < len(SwitchedAt) {
		SwitchedAt[site] = true
	}
}

//go:norace
func wake(to int) {
	cur = to
	t := &tasks[to]
	curGoid = t.goid
	t.state = stRunning
	verifReady(t.g)
}

// pick chooses a task that can run; other excludes the current one.
//
//go:norace
func pick(other bool) int {
	n := 0
	best := -1
	for i := 0; i < ntask; i++ {
		s := tasks[i].state
		if s == stReady || !other && s == stRunning {
			n++
			if best < 0 || tasks[i].prio > tasks[best].prio {
				best = i
			}
		}
	}
	if n == 0 {
		return -1
	}
	if mode == mPct {
		return best
	}
	k := int(rnd() % uint64(n))
	for i := 0; i < ntask; i++ {
		s := tasks[i].state
		if s == stReady || !other && s == stRunning {
			if k == 0 {
				return i
			}
			k--
		}
	}
	return -1
}

// pickNext chooses who goes on when the running task stops by itself.
//
//go:norace
func pickNext() int {
	to := -1
	if mode == mReplay || mode == mSeq {
		any := false
		for i := 0; i < ntask; i++ {
			any = any || tasks[i].state == stReady
		}
		if !any {
			return -1
		}
		if inextIn < nnextIn {
			w := nextIn[inextIn]
			inextIn++
			if w >= 0 && w < ntask && tasks[w].state == stReady {
				to = w
			}
		}
		if to < 0 {
			for i := 0; i < ntask; i++ {
				if tasks[i].state == stReady {
					to = i
					break
				}
			}
		}
	} else {
		to = pick(true)
	}
	if to >= 0 {
		if nnext < maxPre {
			nextOut[nnext] = to
			nnext++
		}
		note(63, -1, to)
	}
	return to
}

// join is reached by a goroutine that does not hold the baton: one that was
// blocked and has been woken, or one the code under test has just started.
//
//go:norace
func join() bool {
	id := verifGoid()
	me := -1
	for i := 0; i < ntask; i++ {
		if tasks[i].goid == id && tasks[i].state != stDone {
			me = i
			break
		}
	}
	if me < 0 {
		if ntask == maxTasks {
			return false
		}
		me = ntask
		ntask++
		nchild++
		lowest--
		tasks[me] = task{child: true, budget: noStep, nextPre: noStep, prio: int(rnd() % 1000)}
		firstPre(me)
		live++
	}
	t := &tasks[me]
	t.g, t.goid = verifG(), id
	t.state = stReady
	verifPark()
	return true
}

// ID is the task the caller runs in, -1 outside a run.
//
//go:norace
func ID() int {
	if !active {
		return -1
	}
	id := verifGoid()
	if id == curGoid {
		return cur
	}
	for i := 0; i < ntask; i++ {
		if tasks[i].goid == id && tasks[i].state != stDone {
			return i
		}
	}
	return -1
}

// Budget allows the running task n more steps before it is declared stuck;
// it returns the steps the task has made so far.
//
//go:norace
func Budget(n uint64) uint64 {
	if !active || verifGoid() != curGoid {
		return 0
	}
	t := &tasks[cur]
	if n == 0 {
		t.budget = noStep
	} else {
		t.budget = t.steps + n
	}
	return t.steps
}

// Stall parks the running task until every other task is done.
//
//go:norace
func Stall() {
	if !active || verifGoid() != curGoid {
		return
	}
	tasks[cur].state = stStalled
	stop()
	verifPark()
}

// stop gives the baton away without becoming runnable.
//
//go:norace
func stop() {
	if to := pickNext(); to >= 0 {
		wake(to)
	} else {
		cur, curGoid = -1, 0
	}
}

// GC runs a garbage collection at this point of the schedule.
//
//go:norace
func GC() {
	inGC = true
	runtime.GC()
	inGC = false
}

//go:norace
func start(i int) {
	t := &tasks[i]
	t.g, t.goid = verifG(), verifGoid()
	t.state = stReady
	verifPark()
}

//go:norace
func finish(i int) {
	tasks[i].state = stDone
	live--
	if cur == i {
		stop()
	}
}

// Leave announces that the running goroutine is exiting and that the same
// task will be continued by another goroutine, which must call Adopt.
//
//go:norace
func Leave() int {
	i := cur
	tasks[i].state = stRebind
	return i
}

// Adopt continues task i in the calling goroutine.
//
//go:norace
func Adopt(i int) {
	t := &tasks[i]
	t.g, t.goid = verifG(), verifGoid()
	t.state = stRunning
	curGoid = t.goid
}

//go:norace
func setup(n int, s *Sched) {
	ntask, nbody, live = n, n, n
	cur, curGoid, gsteps = -1, 0, 0
	rng = mix(s.Seed + 0x1234567)
	npreIn, nnextIn, inextIn, npreOut, nnext, nchange = 0, 0, 0, 0, 0, 0
	ilv, nswitch, nblock, nchild, lowest = 0, 0, 0, 0, -1
	lastSite = -1
	nextG = noStep
	for i := range hot {
		hot[i] = false
	}
	gap = s.Gap
	if gap == 0 {
		gap = 1 << 40
	}
	switch s.Mode {
	case "op":
		mode = mOp
	case "rand":
		mode = mRand
		nextG = 1 + rnd()%(2*gap)
	case "hot":
		mode = mHot
		nextG = 1 + rnd()%(2*gap)
		for _, h := range s.Hot {
			if h >= 0 && h < len(hot) {
				hot[h] = true
			}
		}
	case "pct":
		mode = mPct
		for i := 0; i < s.Points && i < len(changes); i++ {
			changes[nchange] = 1 + rnd()%(s.Len+1)
			if changes[nchange] < nextG {
				nextG = changes[nchange]
			}
			nchange++
		}
	case "replay":
		mode = mReplay
		for _, p := range s.Pre {
			if npreIn < maxPre {
				preIn[npreIn] = p
				npreIn++
			}
		}
		for _, x := range s.Next {
			if nnextIn < maxPre {
				nextIn[nnextIn] = x
				nnextIn++
			}
		}
	default:
		mode = mSeq
	}
	for i := range tasks {
		tasks[i] = task{}
	}
	for i := 0; i < n; i++ {
		tasks[i] = task{budget: noStep, nextPre: noStep, prio: int(rnd() % 1000)}
		firstPre(i)
	}
}

// Run executes the bodies as tasks under schedule s.
func Run(s *Sched, bodies []func()) Outcome {
	var wg sync.WaitGroup
	setup(len(bodies), s)
	for i := range bodies {
		wg.Add(1)
		go func() {
			defer wg.Done()
			start(i)
			defer func() {
				// an exiting goroutine may have handed the task on
				if mine(i) {
					finish(i)
				}
			}()
			bodies[i]()
		}()
	}
	out := monitor()
	if !out.Dead {
		wg.Wait()
	}
	return out
}

//go:norace
func mine(i int) bool { return tasks[i].goid == verifGoid() && tasks[i].state != stRebind }

// Continue runs the rest of a task whose goroutine is exiting.
func Continue(body func()) {
	i := Leave()
	done := make(chan struct{})
	go func() {
		defer close(done)
		Adopt(i)
		defer func() {
			if mine(i) {
				finish(i)
			}
		}()
		body()
	}()
	waitDone(done)
}

// waitDone keeps the exiting goroutine alive until the task is over, so that
// Run's join covers the continuation as well.
func waitDone(c chan struct{}) { <-c }

//go:norace
func monitor() Outcome {
	var o Outcome
	for {
		n := 0
		for i := 0; i < nbody; i++ {
			if tasks[i].state == stReady && verifStatus(tasks[i].g, tasks[i].goid) == 2 {
				n++
			}
		}
		if n == nbody {
			break
		}
		runtime.Gosched()
	}
	active = true
	if to := pickNext(); to >= 0 {
		wake(to)
	}
	idle, skips := 0, 0
	for {
		runtime.Gosched()
		if inGC {
			continue
		}
		if cur >= 0 {
			idle = 0
			t := &tasks[cur]
			if t.state == stRebind {
				continue
			}
			switch verifStatus(t.g, t.goid) {
			case 0: // a child that has returned
				if t.child {
					finish(cur)
				}
			case 3, 4:
				t.state = stBlocked
				nblock++
				stop()
			}
			continue
		}
		// nobody holds the baton
		if to := pickNext(); to >= 0 {
			idle = 0
			wake(to)
			continue
		}
		bodies, stalled, blocked, moving := 0, 0, 0, 0
		for i := 0; i < ntask; i++ {
			t := &tasks[i]
			switch t.state {
			case stStalled:
				stalled++
			case stBlocked:
				switch verifStatus(t.g, t.goid) {
				case 0:
					t.state = stDone
					live--
				case 3:
					if !t.child {
						blocked++
					}
				default:
					moving++
				}
			case stRebind:
				moving++
			}
			if i < nbody && t.state != stDone && t.state != stStalled {
				bodies++
			}
		}
		if moving > 0 {
			continue
		}
		idle++
		if idle < 50 {
			continue
		}
		idle = 0
		if nextFire != noTime && skips < 256 && (bodies > 0 || stalled > 0 || nextFire-elapsed() < longTime) {
			// nothing happens before the next timer
			skips++
			if d := nextFire - elapsed(); d > 0 {
				clockSkip += d
			}
			fire()
			continue
		}
		if bodies > 0 && blocked > 0 {
			o.Deadlock = true
		}
		if stalled > 0 {
			for i := 0; i < ntask; i++ {
				if tasks[i].state == stStalled {
					tasks[i].state = stReady
				}
			}
			continue
		}
		if bodies > 0 {
			o.Dead = true
		}
		break
	}
	active = false
	o.Steps, o.Switches, o.Hash, o.Blocked, o.Children, o.Site = gsteps, nswitch, ilv, nblock, nchild, lastSite
	o.Fired = nfired
	for i := 0; i < ntimer; i++ {
		if t := &timers[i]; t.on && (t.period > 0 || t.t.C == nil && t.at-elapsed() >= longTime) {
			o.Tickers++
		}
	}
	o.Pre = append(o.Pre, preOut[:npreOut]...)
	o.Next = append(o.Next, nextOut[:nnext]...)
	return o
}
