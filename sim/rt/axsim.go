// Package runtime, simulator part. Added to GOROOT/src/runtime by a build overlay (never written there).
//
// While ax.on is set, this file decides everything the Go scheduler would otherwise
// leave to chance: which runnable goroutine goes next, where a running goroutine is
// preempted or stalled, the order in which select looks at its cases, the values of
// the runtime's random source (map seeds and iteration, math/rand, sync.Pool), and the clock, which only
// moves when nothing is runnable. One seed, or one recorded decision log, is one execution.
package runtime

import "unsafe"

const axMaxCand = 8192

type axState struct {
	on     bool
	replay bool // take decisions from log[:replayN] instead of prng
	over   bool
	busy   bool

	prng uint64 // decisions
	rnd  uint64 // rand() stream

	nextID uint64
	live   int64
	lastID uint64

	log     []uint32 // decision log (log[0] is the count), memory supplied by the harness (a shared mapping: survives a crash)
	logN    int
	replayN int

	gap       int64
	gapReal   bool
	yields    uint64
	maxYields uint64
	overFn    func()

	// policy
	preemptEvery uint32 // mean distance of preemptions in yield points; 0: never
	policy       uint32 // 0 uniform, 1 sticky, 2 priorities, 3 newest first mostly
	stallPer1k   uint32 // chance of a preemption becoming a stall
	stallTab     [8]int64
	stallN       uint32
	low          int64
	wallSeed     uint64
	wallEvery    int64
	wallAmp      int64
	wallDrift    int64
	wallLast     int64

	stats AxStats

	cand  [axMaxCand]guintptr
	candN int
}

// AxStats counts what the scheduler did during a run.
type AxStats struct {
	Picks, Choices, Preempts, Stalls, Selects, Yields, TimeJumps, WallJumps, Goroutines uint64
	StallTime                                                                           int64
	Hash                                                                                uint64
	MaxRunnable                                                                         uint64
}

var ax axState

// AxConfig is what the harness sets before a run.
type AxConfig struct {
	Seed         uint64
	Replay       bool
	ReplayN      int
	Log          []uint32
	PreemptEvery uint32
	Policy       uint32
	StallPer1k   uint32
	StallTab     []int64
	WallEvery    int64 // the wall clock is set anew every so many nanoseconds,
	WallAmp      int64 // to at most so far from the right time,
	WallDrift    int64 // and runs fast or slow by so many thousandths
	MaxYields    uint64
	OverFn       func()
}

func axmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

//go:nosplit
func axnext(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	x := *s
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// AxStart makes the calling goroutine the root of a simulation.
func AxStart(c *AxConfig) {
	if gomaxprocs != 1 {
		throw("axsim: GOMAXPROCS must be 1")
	}
	gp := getg()
	ax.replay = c.Replay
	ax.replayN = c.ReplayN
	ax.over = false
	ax.prng = axmix(c.Seed ^ 0x5eed)
	ax.rnd = axmix(c.Seed ^ 0xabcdef12345)
	ax.nextID = 1
	ax.live = 1
	ax.lastID = 1
	ax.log = c.Log
	ax.logN = 0
	ax.yields = 0
	ax.maxYields = c.MaxYields
	ax.overFn = c.OverFn
	ax.preemptEvery = c.PreemptEvery
	ax.policy = c.Policy
	ax.stallPer1k = c.StallPer1k
	ax.stallN = 0
	for i, d := range c.StallTab {
		if i < len(ax.stallTab) {
			ax.stallTab[i] = d
			ax.stallN++
		}
	}
	ax.low = 0
	ax.wallSeed = axmix(c.Seed ^ 0x3a11)
	ax.wallEvery, ax.wallAmp, ax.wallDrift, ax.wallLast = c.WallEvery, c.WallAmp, c.WallDrift, 0
	ax.stats = AxStats{Hash: 0xcbf29ce484222325}
	ax.gap = 0
	ax.gapReal = false
	gp.axid = 1
	gp.axprio = 1 << 40
	gp.axsite = 0
	// The clock restarts at a fixed instant, so that a run does not depend on
	// the runs before it in this process.
	faketime = axEpoch
	ax.on = true
}

// AxStop ends the simulation and returns its counters. The caller must be the root.
func AxStop() AxStats {
	ax.on = false
	getg().axid = 0
	s := ax.stats
	s.Yields = ax.yields
	return s
}

// AxTimers is the number of timers that will still fire.
func AxTimers() int { return len(getg().m.p.ptr().timers.heap) }

func AxOn() bool     { return ax.on }
func AxLive() int    { return int(ax.live) }
func AxLogLen() int  { return ax.logN }
func AxNow() int64   { return faketime - axEpoch }
func AxID() uint64   { return getg().axid }
func AxHash() uint64 { return ax.stats.Hash }

// AxQuiet suspends preemption (not blocking) in the calling goroutine.
func AxQuiet(q bool) { getg().axquiet = q }

// AxMark mixes an observation of the harness into the execution's hash.
func AxMark(v uint64) {
	ax.stats.Hash = (ax.stats.Hash ^ v) * 0x100000001b3
}

// AxGC collects what is no longer reachable, outside of the simulation: nothing may be runnable.
func AxGC() {
	on := ax.on
	ax.on = false
	GC()
	GC()
	ax.on = on
}

// AxHeapObjects is the number of objects on the heap that are still reachable.
func AxHeapObjects() uint64 {
	AxGC()
	on := ax.on
	ax.on = false
	var m MemStats
	ReadMemStats(&m)
	ax.on = on
	return m.HeapObjects
}

// AxRealNano is the machine's monotonic clock, for budgets only.
func AxRealNano() int64 { return nanotime1() }

// AxStats returns the counters so far.
func AxStatsNow() AxStats {
	s := ax.stats
	s.Yields = ax.yields
	return s
}

// axdecide returns a value below n and records it.
func axdecide(n uint32, proposal uint32) uint32 {
	v := proposal
	if ax.replay {
		v = 0
		if ax.logN < ax.replayN {
			v = ax.log[ax.logN+1]
			if n > 0 {
				v %= n
			}
		}
	}
	if ax.logN+1 < len(ax.log) {
		ax.logN++
		ax.log[ax.logN] = v
		ax.log[0] = uint32(ax.logN)
	}
	return v
}

// AxDecide lets the harness draw a recorded decision.
func AxDecide(n uint32) uint32 {
	if n <= 1 {
		return 0
	}
	return axdecide(n, uint32(axnext(&ax.prng)%uint64(n)))
}

const axWindow = 2000

// axFairAfter is the number of scheduling points after which a run gets a fair schedule.
const axFairAfter = 100000

// axMaxStalls bounds how often goroutines are held up in one run.
const axMaxStalls = 24

// AxCalm ends the stalls: from now on nobody is held up.
func AxCalm() { ax.stallN = 0 }

func axredraw() {
	var v uint32
	if ax.preemptEvery > 0 {
		// geometric distance with the given mean
		v = 1
		for v < axWindow && uint32(axnext(&ax.prng)%uint64(ax.preemptEvery)) != 0 {
			v++
		}
		if v >= axWindow {
			v = 0
		}
	}
	v = axdecide(axWindow, v)
	if v == 0 {
		ax.gap, ax.gapReal = axWindow, false
	} else {
		ax.gap, ax.gapReal = int64(v), true
	}
}

// AxYield is called before every statement of the code under test.
func AxYield(site uint32) {
	if !ax.on {
		return
	}
	gp := getg()
	if gp.axid == 0 {
		return
	}
	gp.axsite = site
	ax.yields++
	if ax.yields > ax.maxYields {
		if !ax.over {
			ax.over = true
			if ax.overFn != nil {
				ax.overFn()
			}
		}
		return
	}
	if ax.yields == min(ax.maxYields/2, axFairAfter) {
		// a long run: a fair schedule from here on, so that code that waits by spinning gets there
		ax.policy = 0
		if ax.preemptEvery == 0 || ax.preemptEvery > 16 {
			ax.preemptEvery = 16
		}
	}
	if gp.axquiet {
		return
	}
	if ax.gap == 0 {
		axredraw()
	}
	ax.gap--
	if ax.gap > 0 {
		return
	}
	if !ax.gapReal {
		return
	}
	if gp.m.locks != 0 || gp.m.mallocing != 0 {
		return
	}
	ax.stats.Preempts++
	if ax.policy == 2 {
		ax.low--
		gp.axprio = ax.low
	}
	if ax.stallN > 0 && ax.stallPer1k > 0 && ax.stats.Stalls < axMaxStalls {
		var p uint32
		r := axnext(&ax.prng)
		if uint32(r%1000) < ax.stallPer1k {
			p = 1 + uint32(r>>32)%ax.stallN
		}
		if d := axdecide(ax.stallN+1, p); d > 0 {
			ax.stats.Stalls++
			ax.stats.StallTime += ax.stallTab[d-1]
			timeSleep(ax.stallTab[d-1])
			return
		}
	}
	goyield()
}

// AxV is a scheduling point right after v was computed, before it is used.
func AxV[T any](site uint32, v T) T {
	AxYield(site)
	return v
}

// axSelectRand replaces the random case order of select.
func axSelectRand(n uint32) uint32 {
	if ax.on && getg().axid != 0 {
		if n <= 1 {
			return 0
		}
		ax.stats.Selects++
		return axdecide(n, uint32(axnext(&ax.prng)%uint64(n)))
	}
	return cheaprandn(n)
}

//go:nosplit
func axRandOn() bool { return ax.on && getg().m.curg != nil && getg().m.curg.axid != 0 }

//go:nosplit
func axRand() uint64 { return axnext(&ax.rnd) }

// axborn is called for every new goroutine; sys tells whether the runtime owns it.
func axborn(newg *g, sys bool) {
	newg.axid = 0
	newg.axquiet = false
	if !ax.on || sys {
		return
	}
	ax.nextID++
	newg.axid = ax.nextID
	newg.axsite = 0
	newg.axprio = int64(axnext(&ax.prng) >> 20)
	ax.live++
	ax.stats.Goroutines++
}

func axdied(gp *g) {
	if gp.axid != 0 {
		ax.live--
		gp.axid = 0
	}
}

// axpick takes the next goroutine to run off the run queues.
func axpick(pp *p) *g {
	n := 0
	if next := pp.runnext; next != 0 && pp.runnext.cas(next, 0) {
		ax.cand[n] = next
		n++
	}
	for pp.runqhead != pp.runqtail {
		if n >= axMaxCand {
			throw("axsim: too many runnable goroutines")
		}
		ax.cand[n] = pp.runq[pp.runqhead%uint32(len(pp.runq))]
		pp.runqhead++
		n++
	}
	if !sched.runq.empty() {
		lock(&sched.lock)
		for {
			gp := globrunqget()
			if gp == nil {
				break
			}
			if n >= axMaxCand {
				throw("axsim: too many runnable goroutines")
			}
			ax.cand[n].set(gp)
			n++
		}
		unlock(&sched.lock)
	}
	if n == 0 {
		return nil
	}
	// The runtime's own goroutines go first and cost no decision.
	for i := 0; i < n; i++ {
		if ax.cand[i].ptr().axid == 0 {
			return axtake(pp, i, n)
		}
	}
	// Canonical order: the one that ran last, then by age; the order of
	// arrival in the queue (which may depend on addresses) does not matter.
	for i := 1; i < n; i++ {
		x := ax.cand[i]
		j := i
		for j > 0 && axless(x.ptr(), ax.cand[j-1].ptr()) {
			ax.cand[j] = ax.cand[j-1]
			j--
		}
		ax.cand[j] = x
	}
	ax.stats.Picks++
	idx := uint32(0)
	if n > 1 {
		ax.stats.Choices++
		if uint64(n) > ax.stats.MaxRunnable {
			ax.stats.MaxRunnable = uint64(n)
		}
		r := axnext(&ax.prng)
		switch ax.policy {
		case 1:
			if r&3 == 0 {
				idx = uint32((r >> 8) % uint64(n))
			}
		case 2:
			best := ax.cand[0].ptr().axprio
			for i := 1; i < n; i++ {
				if ax.cand[i].ptr().axprio > best {
					best = ax.cand[i].ptr().axprio
					idx = uint32(i)
				}
			}
		case 3:
			if r&3 == 0 {
				idx = uint32((r >> 8) % uint64(n))
			} else {
				idx = uint32(n - 1)
			}
		default:
			idx = uint32(r % uint64(n))
		}
		idx = axdecide(uint32(n), idx)
	}
	gp := ax.cand[idx].ptr()
	ax.lastID = gp.axid
	ax.stats.Hash = (ax.stats.Hash ^ (gp.axid<<32 | uint64(gp.axsite))) * 0x100000001b3
	return axtake(pp, int(idx), n)
}

func axless(a, b *g) bool {
	if a.axid == b.axid {
		return false
	}
	if a.axid == ax.lastID {
		return true
	}
	if b.axid == ax.lastID {
		return false
	}
	return a.axid < b.axid
}

func axtake(pp *p, idx, n int) *g {
	gp := ax.cand[idx].ptr()
	for i := 0; i < n; i++ {
		if i != idx {
			runqput(pp, ax.cand[i].ptr(), false)
		}
		ax.cand[i] = 0
	}
	return gp
}

// axwall is how far the wall clock is from the right time.
func axwall() int64 {
	if !ax.on || ax.wallEvery == 0 {
		return 0
	}
	t := faketime - axEpoch
	i := t / ax.wallEvery
	if i != ax.wallLast {
		ax.wallLast = i
		ax.stats.WallJumps++
	}
	off := t / 1000 * ax.wallDrift
	if i > 0 && ax.wallAmp > 0 {
		off += int64(axmix(ax.wallSeed^uint64(i))%uint64(2*ax.wallAmp+1)) - ax.wallAmp
	}
	return off
}

// axidle is called when nothing is runnable: jump to the next timer.
func axidle(pp *p) bool {
	when := pp.timers.wakeTime()
	if when == 0 {
		return false
	}
	if when > faketime {
		faketime = when
		ax.stats.TimeJumps++
	}
	return true
}

// axdead is called when the scheduler has found nothing at all to do.
func axdead(pp *p) {
	if len(pp.timers.heap) == 0 && runqempty(pp) && sched.runq.empty() {
		fatal("all goroutines are asleep - deadlock!")
	}
}

var _ = unsafe.Pointer(nil)
