// Deterministic simulation support, added to package runtime by the build overlay
// of /verif. Nothing of this exists in an ordinary build.
//
// While simOn is set all goroutines run on one P; every choice of which of the
// runnable goroutines continues is made here from a seeded stream (or from a
// replay file), time is a counter, and random numbers come from the same seed.

package runtime

import (
	"internal/abi"
	rtsys "internal/runtime/syscall"
	"unsafe"
)

// SimConfig configures one simulated execution.
type SimConfig struct {
	Seed     uint64
	Policy   int    // 0 fifo, 1 random, 2 priorities (PCT), 3 starve one goroutine
	YieldP   uint32 // probability of a switch at a yield point, out of 65536
	PCTDepth int    // number of priority change points (policy 2)
	PCTSteps uint64 // expected number of steps (policy 2)
	MaxSteps uint64 // bound on scheduling steps; 0 for none
	Drain    int64  // simulated ns to continue after the main function returned
	StepCost int64  // simulated ns per step
	StallP   uint32 // probability of a stall (clock advance) per step, out of 1<<20
	StallMax int64  // maximal length of a stall

	Replay    bool     // use Deviations instead of random choices
	Deviation []uint64 // pairs (step, choice)
	Steps     []uint64 // buffer for all steps, for debugging; Steps[0] receives the count
	Record    []uint64 // buffer for recorded pairs; Record[0] receives the count of words used
}

// SimResult describes how a simulated execution ended.
type SimResult struct {
	Reason    int // one of the SimEnd constants
	ExitCode  int
	Steps     uint64
	Switches  uint64
	Choices   uint64 // number of decisions with more than one alternative
	Hash      uint64 // hash over all decisions
	SimNanos  int64
	Stalls    uint64
	Alive     int  // goroutines still alive at the end
	MainDone  bool // the main function returned
	DoneSteps uint64
}

const (
	SimEndQuiescent = 1 // nothing can run any more
	SimEndExit      = 2 // os.Exit was called
	SimEndCrash     = 3 // SimCrash was called
	SimEndSteps     = 4 // the step bound was exceeded
	SimEndHorizon   = 5 // only timers beyond the drain horizon are left
)

const simFirst = 1 << 20 // id of the first goroutine

const simStart = 1_000_000_000_000

var (
	simOn    bool
	simPhase int // 1: simulated goroutines run; 2: over
	simNow   int64 = simStart
	simWall  int64 = 1_700_000_000_000_000_000 - simStart
	sim      struct {
		body     uint64 // id of the goroutine of the main function
		cfg      SimConfig
		rng      uint64 // scheduling stream
		rng2     uint64 // stream of random numbers handed to programs
		main     guintptr
		last     guintptr
		list     [1 << 14]guintptr
		n        int
		step     uint64
		switches uint64
		choices  uint64
		stalls   uint64
		hash     uint64
		dev      int
		rec      int
		yielded  bool
		done     bool
		doneStep uint64
		doneAt   int64
		stop     int
		exitCode int
		endGoid  uint64
		victim   uint64
		prio     [1 << 12]uint32
		low      uint32
		change   [64]uint64
		nosync   int
	}
)

func simMix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nosplit
func simRand1() uint64 {
	x := sim.rng
	x ^= x >> 12
	x ^= x << 25
	x ^= x >> 27
	sim.rng = x
	return x * 2685821657736338717
}

//go:nosplit
func simRand2() uint64 {
	x := sim.rng2
	x ^= x >> 12
	x ^= x << 25
	x ^= x >> 27
	sim.rng2 = x
	return x * 2685821657736338717
}

//go:nosplit
func simRandom() bool {
	return simOn && simPhase == 1 && getg().goid >= simFirst
}

// SimActive reports whether the caller is a goroutine under simulation.
//
//go:nosplit
func SimActive() bool {
	return simOn && simPhase == 1 && getg() != sim.main.ptr()
}

// SimOn reports if a simulation was ever started in this process.
func SimOn() bool { return simOn }

// SimNow returns the simulated clock.
func SimNow() int64 { return simNow }

// SimStep returns the number of steps taken so far.
func SimStep() uint64 { return sim.step }

// SimRand returns a number from the seeded stream.
func SimRand() uint64 { return simRand2() }

// SimGoid returns the id of the current goroutine.
func SimGoid() uint64 { return getg().goid }

// SimAdvance lets time pass without anything running.
func SimAdvance(ns int64) {
	if simOn && simPhase == 1 && ns > 0 {
		simNow += ns
	}
}

// SimWallJump changes the wall clock, but not the monotonic clock.
func SimWallJump(ns int64) { simWall += ns }

// SimMainDone marks the main function of the simulation as returned.
func SimMainDone() {
	sim.done = true
	sim.doneStep = sim.step
	sim.doneAt = simNow
}

func simStopNow(reason int) {
	sim.stop = reason
	gopark(nil, nil, waitReasonZero, traceBlockForever, 1)
	throw("simulation continued after its end")
}

// SimCrash ends the simulated process at once.
func SimCrash() {
	if SimActive() {
		simStopNow(SimEndCrash)
	}
}

func simExit(code int) {
	sim.exitCode = code
	simStopNow(SimEndExit)
}

// SimRun runs fn as the main goroutine of a simulated process until nothing is left to do.
func SimRun(cfg SimConfig, fn func()) (res SimResult) {
	if simOn {
		throw("SimRun called twice")
	}
	sim.cfg = cfg
	sim.rng = simMix(cfg.Seed) | 1
	sim.rng2 = simMix(cfg.Seed^0x5bd1e995) | 1
	sim.hash = 14695981039346656037
	sim.low = 1 << 20
	if cfg.Policy == 2 {
		steps := cfg.PCTSteps
		if steps == 0 {
			steps = 1000
		}
		for i := 0; i < cfg.PCTDepth && i < len(sim.change); i++ {
			sim.change[i] = 1 + simRand1()%steps
		}
	}
	if cfg.Policy == 3 {
		sim.victim = simRand1() % 8
	}
	if len(cfg.Record) > 0 {
		sim.rec = 1
	}
	sim.main.set(getg())
	// ids of goroutines do not depend on what happened before
	pp := getg().m.p.ptr()
	pp.goidcache, pp.goidcacheend = 0, 0
	sched.goidgen.Store(simFirst)
	systemstack(simFresh)
	go simMain(fn)
	simPhase = 1
	simOn = true
	gopark(nil, nil, waitReasonZero, traceBlockForever, 1)

	res.Reason = sim.stop
	res.ExitCode = sim.exitCode
	res.Steps = sim.step
	res.Switches = sim.switches
	res.Choices = sim.choices
	res.Hash = sim.hash
	res.SimNanos = simNow - simStart
	res.Stalls = sim.stalls
	res.MainDone = sim.done
	res.DoneSteps = sim.doneStep
	forEachG(func(gp *g) {
		if gp == sim.main.ptr() || simOwn(gp) {
			return
		}
		if readgstatus(gp)&^_Gscan != _Gdead {
			res.Alive++
		}
	})
	return res
}

// simLow is the lowest address of an object made during the simulation.
var simLow uintptr

// simFresh lets everything from now on be allocated in a new part of the heap, and forgets
// what could be used again. The addresses of objects, and with them the order of maps with
// pointers as keys, then do not depend on what happened before.
func simFresh() {
	pp := getg().m.p.ptr()
	c := pp.mcache
	c.releaseAll()
	for order := range c.stackcache {
		c.stackcache[order].list = 0
		c.stackcache[order].size = 0
	}
	for order := range stackpool {
		lock(&stackpool[order].item.mu)
		list := &stackpool[order].item.span
		for s := list.first; s != nil; s = list.first {
			list.remove(s)
			s.manualFreeList = 0
		}
		unlock(&stackpool[order].item.mu)
	}
	for pp.gFree.pop() != nil {
	}
	pp.gFree.n = 0
	lock(&sched.gFree.lock)
	for sched.gFree.stack.pop() != nil {
	}
	for sched.gFree.noStack.pop() != nil {
	}
	sched.gFree.n = 0
	unlock(&sched.gFree.lock)
	pp.sudogcache = pp.sudogbuf[:0]
	lock(&sched.sudoglock)
	sched.sudogcache = nil
	unlock(&sched.sudoglock)
	pp.deferpool = pp.deferpoolbuf[:0]
	lock(&sched.deferlock)
	sched.deferpool = nil
	unlock(&sched.deferlock)
	lock(&mheap_.lock)
	pp.pcache.flush(&mheap_.pages)
	for {
		if addr, _ := mheap_.pages.alloc(1); addr == 0 {
			break
		}
	}
	base := alignUp(mheap_.curArena.base, 32<<20)
	if base > mheap_.curArena.end {
		base = mheap_.curArena.end
	}
	mheap_.curArena.base = base
	simLow = base
	unlock(&mheap_.lock)
}

// simOwn reports whether a goroutine belongs to the runtime itself.
func simOwn(gp *g) bool {
	return gp.goid != sim.body && isSystemGoroutine(gp, false)
}

func simMain(fn func()) {
	sim.body = getg().goid
	fn()
	SimMainDone()
}

// SimYield is a point at which another goroutine may continue.
func SimYield() {
	if !simOn || simPhase != 1 {
		return
	}
	gp := getg()
	mp := gp.m
	if gp == sim.main.ptr() || mp.locks != 0 || mp.curg != gp || mp.mallocing != 0 {
		return
	}
	sim.step++
	simNow += sim.cfg.StepCost
	if sim.cfg.MaxSteps != 0 && sim.step > sim.cfg.MaxSteps {
		simStopNow(SimEndSteps)
	}
	if sim.cfg.Replay {
		c, ok := simDeviation()
		if !ok {
			return
		}
		if c>>32 != 0 {
			simNow += int64(c>>32) * 1000
		}
		if uint32(c) == 0 {
			return
		}
		mcall(simYield_m)
		return
	}
	if sim.cfg.StallP != 0 && uint32(simRand1()>>40)&(1<<20-1) < sim.cfg.StallP {
		d := int64(simRand1() % uint64(sim.cfg.StallMax+1))
		d /= 1000
		if d > 1<<31 {
			d = 1 << 31
		}
		simNow += d * 1000
		sim.stalls++
		simRecord(uint64(d)<<32 | 1)
		mcall(simYield_m)
		return
	}
	switch sim.cfg.Policy {
	case 0:
		return
	case 2:
		for i := 0; i < sim.cfg.PCTDepth && i < len(sim.change); i++ {
			if sim.change[i] == sim.step {
				sim.low--
				sim.prio[gp.goid&(1<<12-1)] = sim.low
			}
		}
		if simAlone() && !simTimer(mp.p.ptr()) {
			return
		}
		// A goroutine of a higher priority may have become runnable.
		me := simPrio(gp)
		found := false
		for i := 0; i < sim.n; i++ {
			if simPrio(sim.list[i].ptr()) > me {
				found = true
				break
			}
		}
		if !found && !simTimer(mp.p.ptr()) {
			return
		}
	default:
		if uint32(simRand1()>>48) >= sim.cfg.YieldP {
			return
		}
		if simAlone() && !simTimer(mp.p.ptr()) {
			return
		}
	}
	simRecord(1)
	mcall(simYield_m)
}

// simAlone reports whether no other goroutine of the simulation is known to be runnable.
// Goroutines of the runtime itself do not count: they come and go in real time.
func simAlone() bool {
	for i := 0; i < sim.n; i++ {
		if sim.list[i].ptr().goid >= simFirst {
			return false
		}
	}
	return true
}

// simTimer reports whether a timer is due.
func simTimer(pp *p) bool {
	w := pp.timers.wakeTime()
	return w != 0 && w <= simNow
}

func simYield_m(gp *g) {
	sim.yielded = true
	goschedImpl(gp, false)
}

func simDeviation() (choice uint64, ok bool) {
	d := sim.cfg.Deviation
	for sim.dev+1 < len(d) && d[sim.dev] < sim.step {
		sim.dev += 2
	}
	if sim.dev+1 < len(d) && d[sim.dev] == sim.step {
		c := d[sim.dev+1]
		sim.dev += 2
		return c, true
	}
	return 0, false
}

func simRecord(choice uint64) {
	if sim.rec > 0 && sim.rec+1 < len(sim.cfg.Record) {
		sim.cfg.Record[sim.rec] = sim.step
		sim.cfg.Record[sim.rec+1] = choice
		sim.rec += 2
		sim.cfg.Record[0] = uint64(sim.rec)
	}
}

func simPrio(gp *g) uint32 {
	if gp.goid < simFirst {
		return 0
	}
	i := gp.goid & (1<<12 - 1)
	if sim.prio[i] == 0 {
		sim.prio[i] = uint32(simMix(sim.cfg.Seed^(gp.goid*0x9e3779b97f4a7c15))>>33) | 1<<21
	}
	return sim.prio[i]
}

// simTake removes the i-th runnable goroutine, keeping the order of the others.
func simTake(i int) *g {
	gp := sim.list[i].ptr()
	for j := i + 1; j < sim.n; j++ {
		sim.list[j-1] = sim.list[j]
	}
	sim.n--
	return gp
}

func simPush(gp *g) {
	if sim.n == len(sim.list) {
		throw("simulation: too many runnable goroutines")
	}
	sim.list[sim.n].set(gp)
	sim.n++
}

func simFinish(reason int) *g {
	if sim.stop == 0 {
		sim.stop = reason
	}
	simPhase = 2
	if pp := getg().m.p.ptr(); pp != nil {
		pp.goidcache = pp.goidcacheend
	}
	sim.endGoid = sched.goidgen.Load()
	gp := sim.main.ptr()
	casgstatus(gp, _Gwaiting, _Grunnable)
	return gp
}

// simFindRunnable picks the goroutine to run next. It returns nil only after the simulation.
func simFindRunnable(pp *p) *g {
	for {
		if simPhase == 1 && sim.stop == 0 {
			pp.timers.check(simNow)
		}
		for {
			gp, _ := runqget(pp)
			if gp == nil {
				break
			}
			simPush(gp)
		}
		if sched.runqsize > 0 {
			lock(&sched.lock)
			for {
				gp := globrunqget(pp, 1)
				if gp == nil {
					break
				}
				unlock(&sched.lock)
				simPush(gp)
				lock(&sched.lock)
			}
			unlock(&sched.lock)
		}
		for i := 0; i < sim.n; i++ {
			if sim.list[i].ptr().goid < simFirst || simOwn(sim.list[i].ptr()) {
				return simTake(i)
			}
		}
		if simPhase == 2 {
			for i := 0; i < sim.n; i++ {
				gp := sim.list[i].ptr()
				if gp == sim.main.ptr() || gp.goid > sim.endGoid {
					return simTake(i)
				}
			}
			return nil
		}
		if sim.stop != 0 {
			return simFinish(sim.stop)
		}
		if sim.done && sim.cfg.Drain > 0 && simNow > sim.doneAt+sim.cfg.Drain {
			return simFinish(SimEndHorizon)
		}
		if sim.n == 0 {
			w := pp.timers.wakeTime()
			if w == 0 {
				return simFinish(SimEndQuiescent)
			}
			if sim.done && w > sim.doneAt+sim.cfg.Drain {
				return simFinish(SimEndHorizon)
			}
			if w > simNow {
				simNow = w
			} else {
				simNow++
			}
			// Bound executions that only wait for timers.
			sim.step++
			if sim.cfg.MaxSteps != 0 && sim.step > sim.cfg.MaxSteps {
				return simFinish(SimEndSteps)
			}
			continue
		}
		sim.step++
		simNow += sim.cfg.StepCost
		if sim.cfg.MaxSteps != 0 && sim.step > sim.cfg.MaxSteps {
			return simFinish(SimEndSteps)
		}
		idx := 0
		if sim.n > 1 {
			sim.choices++
			idx = simChoose()
			if idx != 0 {
				simRecord(uint64(idx))
			}
		} else if sim.cfg.Replay {
			simDeviation()
		}
		sim.yielded = false
		gp := simTake(idx)
		if gp != sim.last.ptr() {
			sim.switches++
		}
		sim.last.set(gp)
		if s := sim.cfg.Steps; len(s) > 0 && s[0]+1 < uint64(len(s)) {
			s[0]++
			s[s[0]] = sim.step<<24 | uint64(sim.n)<<16 | gp.goid&(1<<16-1)
			if sim.yielded {
				s[s[0]] |= 1 << 63
			}
		}
		sim.hash = (sim.hash ^ (sim.step<<20 ^ gp.goid)) * 1099511628211
		return gp
	}
}

func simChoose() int {
	n := sim.n
	if sim.cfg.Replay {
		c, ok := simDeviation()
		if !ok {
			return 0
		}
		return int(uint32(c)) % n
	}
	switch sim.cfg.Policy {
	case 0:
		return 0
	case 2:
		if !sim.yielded && sim.last != 0 && sim.list[n-1] == sim.last {
			// An explicit Gosched: let others run.
			sim.low--
			sim.prio[sim.last.ptr().goid&(1<<12-1)] = sim.low
		}
		best := 0
		for i := 1; i < n; i++ {
			if simPrio(sim.list[i].ptr()) > simPrio(sim.list[best].ptr()) {
				best = i
			}
		}
		return best
	case 3:
		idx := int(simRand1()>>33) % n
		if sim.list[idx].ptr().goid%8 == sim.victim && simRand1()>>58 != 0 {
			idx = int(simRand1()>>33) % n
			if sim.list[idx].ptr().goid%8 == sim.victim {
				idx = 0
			}
		}
		return idx
	}
	return int(simRand1()>>33) % n
}

func simWalltime() (sec int64, nsec int32) {
	var ts timespec
	rtsys.Syscall6(228, 0, uintptr(unsafe.Pointer(&ts)), 0, 0, 0, 0)
	return ts.tv_sec, int32(ts.tv_nsec)
}

// SimHeap returns how much was allocated so far, roughly. Nothing is ever freed.
func SimHeap() uint64 { return gcController.heapLive.Load() }

// simHasher returns the hash function of a map with keys of 64 bits. It is constant for
// pointers, so that the order of the map is that of insertion, from a random start.
func simHasher(t *maptype) func(unsafe.Pointer, uintptr) uintptr {
	switch t.Key.Kind_ & abi.KindMask {
	case abi.Pointer, abi.UnsafePointer, abi.Chan:
		return simConstHash
	}
	return t.Hasher
}

func simConstHash(p unsafe.Pointer, seed uintptr) uintptr {
	return seed
}
