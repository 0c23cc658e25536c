package main

import (
	"context"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

// ---- choices -------------------------------------------------------------

// Chooser draws every workload, configuration and fault choice of a run. The values
// drawn are logged; a log replays (0 once it is exhausted, which is always the
// simplest choice), which is what minimisation edits.
type Chooser struct {
	log    []uint32 // log[0] is the count
	replay []uint32
	isRep  bool
	n      int
	s      uint64
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

//go:norace
func (c *Chooser) put(n, v uint32) uint32 {
	if c.isRep {
		v = 0
		if c.n < len(c.replay) {
			v = c.replay[c.n]
			if n > 0 {
				v %= n
			}
		}
	}
	if c.n+1 < len(c.log) {
		c.log[c.n+1] = v
		c.log[0] = uint32(c.n + 1)
	}
	c.n++
	return v
}

//go:norace
func (c *Chooser) raw() uint64 {
	c.s += 0x9e3779b97f4a7c15
	return mix(c.s)
}

// N is uniform in [0,n).
//
//go:norace
func (c *Chooser) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(c.put(uint32(n), uint32(c.raw()%uint64(n))))
}

// In is uniform in [lo,hi].
//
//go:norace
func (c *Chooser) In(lo, hi int) int { return lo + c.N(hi-lo+1) }

// Pct is true with the given chance; false is simplest.
//
//go:norace
func (c *Chooser) Pct(p int) bool {
	var v uint32
	if int(c.raw()%100) < p {
		v = 1
	}
	return c.put(2, v) == 1
}

// W picks an index with the given weights.
//
//go:norace
func (c *Chooser) W(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	x := int(c.raw() % uint64(t))
	i := 0
	for ; i < len(w)-1; i++ {
		if x < w[i] {
			break
		}
		x -= w[i]
	}
	v := int(c.put(uint32(len(w)), uint32(i)))
	if w[v] == 0 { // an edited log
		for i := range w {
			if w[i] > 0 {
				return i
			}
		}
	}
	return v
}

// crowd is in [lo,hi], seldom above up to big.
func crowd(c *Chooser, lo, hi, big int) int {
	if c.Pct(7) {
		return c.In(hi+1, big)
	}
	return c.In(lo, hi)
}

// One picks one of the values.
func One[T any](c *Chooser, v ...T) T { return v[c.N(len(v))] }

// ms is the unit of the durations that scenarios draw: a millisecond, or, in some runs of those with Scale, much more.
var ms = int64(time.Millisecond)

// setMs: goroutines of runs before this one have read it; they are gone.
//
//go:norace
//go:noinline
func setMs(d time.Duration) { ms = int64(d) }

// ---- history ---------------------------------------------------------------

// Op is one call on the system under test, or one thing observed (Inv == Ret).
type Op struct {
	C        int32 // client; -1: a callback or an observation
	K        uint8
	Inv, Ret int32 // positions in the run's total order of events; Ret 0: never returned
	A, B, D  int64 // arguments
	R, R2    int64 // results
	T0, T1   int64 // simulated time
}

const maxOps = 8192

const (
	probeMax = 48
)

// R is one run.
type R struct {
	W        Chooser
	K        uint64
	ops      []Op
	nops     int32
	seq      int32
	viol     string
	msg      string
	names    []string // op kinds
	defers   []func()
	nocli    int
	left     int32
	done     chan struct{}
	join     atomic.Int64 // makes what clients wrote visible to the root once they are done
	probes   [probeMax]uint64
	stalls   bool
	maxStall int64
	cfg      []string
	panics   [64]string
	pclass   string
	lclass   string
	lmsg     string
	fault    [24]uint64
	over     bool
}

var curR *R

// fault kinds, counted when they fire
const (
	FStall = iota
	FWall
	FCancel
	FLoaderErr
	FSlowCallback
	FSlowConsumer
	FDiskErr
	FDiskShort
	FDiskCrash
	FDiskTorn
	FCorrupt
	FNetFrag
	FNetEOF
	FNetErr
	FTimeout
	FAbandon
	FClosed
	FPanic
)

var faultNames = []string{"goroutine stalled", "wall clock jump", "context cancelled", "callback error", "slow callback", "slow consumer", "disk error", "short read or write", "crash at a system call", "torn or lost write", "corrupted bytes", "network fragmentation", "connection closed", "network error", "operation timed out", "participant abandoned", "incoming channel closed", "callback panics"}

//go:norace
func (r *R) Fault(k int) { r.fault[k]++ }

//go:norace
func (r *R) Probe(i int) { r.probes[i]++ }

// Inv records the start of an operation.
//
//go:norace
func (r *R) Inv(c int, k uint8, a, b, d int64) int {
	runtime.AxYield(uint32(k))
	if r.nops >= maxOps {
		return -1
	}
	i := r.nops
	r.nops++
	r.seq++
	o := &r.ops[i]
	o.C, o.K, o.A, o.B, o.D = int32(c), k, a, b, d
	o.Inv, o.Ret = r.seq, 0
	o.R, o.R2 = 0, 0
	o.T0, o.T1 = runtime.AxNow(), 0
	runtime.AxMark(uint64(k)<<56 ^ uint64(c)<<48 ^ uint64(a)<<16 ^ uint64(b))
	return int(i)
}

//go:norace
func (r *R) Ret(i int, res, res2 int64) {
	if i < 0 {
		return
	}
	r.seq++
	o := &r.ops[i]
	o.Ret = r.seq
	o.R, o.R2 = res, res2
	o.T1 = runtime.AxNow()
	runtime.AxMark(uint64(res)<<8 ^ uint64(res2) ^ 0x55)
}

// Obs records an instantaneous observation.
//
//go:norace
func (r *R) Obs(c int, k uint8, a, b, d int64) int {
	if r.nops >= maxOps {
		return -1
	}
	i := r.nops
	r.nops++
	r.seq++
	o := &r.ops[i]
	*o = Op{C: int32(c), K: k, A: a, B: b, D: d, Inv: r.seq, Ret: r.seq, T0: runtime.AxNow(), T1: runtime.AxNow()}
	runtime.AxMark(uint64(k)<<56 ^ uint64(c)<<48 ^ uint64(a)<<16 ^ uint64(b) ^ 0x77)
	return int(i)
}

// Ops returns the history.
func (r *R) Ops() []Op { return r.ops[:r.nops] }

// Sel returns the operations of the given kinds.
func (r *R) Sel(kinds ...uint8) []Op {
	var out []Op
	for _, o := range r.Ops() {
		for _, k := range kinds {
			if o.K == k {
				out = append(out, o)
			}
		}
	}
	return out
}

//go:norace
func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// Fail records a violation (the first one counts).
func (r *R) Fail(class, format string, a ...any) {
	if r.viol == "" {
		r.viol, r.msg = class, fmt.Sprintf(format, a...)
	}
}

// failLater is Fail for callbacks and clients: no formatting, not seen by the race detector.
//
//go:norace
func (r *R) failLater(class, msg string) {
	if r.lclass == "" {
		r.lclass, r.lmsg = class, msg
	}
}

func (r *R) Failed() bool { return r.viol != "" }

//go:norace
func (r *R) notePanic(what string) {
	if r.pclass == "" {
		r.pclass = what
	}
}

// Cfg notes a configuration value for the trace.
func (r *R) Cfg(format string, a ...any) { r.cfg = append(r.cfg, fmt.Sprintf(format, a...)) }

// Defer runs f when the scenario is over, before the leftovers are drained.
func (r *R) Defer(f func()) { r.defers = append(r.defers, f) }

// At starts a client that begins its work at a given instant.
func (r *R) At(t int64, f func(c int)) int {
	return r.Go(func(c int) {
		if d := t - runtime.AxNow(); d > 0 {
			time.Sleep(time.Duration(d))
		}
		f(c)
	})
}

// Now is the simulated time since the start of the run.
func (r *R) Now() int64 { return runtime.AxNow() }

// Goroutines is the number of simulated goroutines alive, the root included.
func (r *R) Goroutines() int { return runtime.AxLive() }

// Ended ends the stalls and waits (in steps of simulated time) until only the root is left; it tells how many are left in the end.
func (r *R) Ended(horizon int64) int {
	r.Calm()
	for t := int64(0); ; t += horizon / 20 {
		if n := runtime.AxLive() - 1; n == 0 || t >= horizon {
			return n
		}
		r.Settle(horizon/20 + 1)
	}
}

// Cell is a counter callbacks may share without synchronising (the race detector does not see it;
// only one goroutine runs at a time).
type Cell struct{ v int64 }

//go:norace
func (c *Cell) Add(d int64) int64 { c.v += d; return c.v }

//go:norace
func (c *Cell) Get() int64 { return c.v }

//go:norace
func (c *Cell) Set(v int64) { c.v = v }

// Max raises the cell to v.
//
//go:norace
func (c *Cell) Max(v int64) {
	if v > c.v {
		c.v = v
	}
}

// Pause is a scheduling point of the harness, for callbacks.
func Pause() { runtime.AxYield(0) }

// Sleep passes simulated time.
func Sleep(d int64) {
	if d > 0 {
		time.Sleep(time.Duration(d))
	}
}

// Ctx is a cancellable context, cancelled at the latest when the run is over.
func (r *R) Ctx() (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(context.Background())
	r.Defer(cancel)
	return ctx, cancel
}

// Go starts a client. Only the root calls it.
func (r *R) Go(f func(c int)) int {
	c := r.nocli
	r.nocli++
	r.incLeft(make(chan struct{}))
	go func() {
		defer r.clientDone(c)
		f(c)
	}()
	return c
}

// incLeft counts a client that starts; done is closed by the last that ends.
//
//go:norace
func (r *R) incLeft(done chan struct{}) {
	if r.left == 0 {
		r.done = done
	}
	r.left++
}

//go:norace
func (r *R) decLeft() chan struct{} {
	r.left--
	if r.left == 0 {
		return r.done
	}
	return nil
}

func (r *R) clientDone(c int) {
	if e := recover(); e != nil {
		buf := make([]byte, 4096)
		buf = buf[:runtime.Stack(buf, false)]
		r.notePanic(fmt.Sprintf("client %d panicked: %v\n%s", c, e, buf))
	}
	// the last thing a client does: it orders nothing between clients
	r.join.Add(1)
	if done := r.decLeft(); done != nil {
		close(done)
	}
}

//go:norace
func (r *R) progress() int32 { return r.seq }

// Wait lets the clients run until all are done or the horizon passes (simulated time) without any
// progress; it tells whether all are done.
func (r *R) Wait(horizon int64) bool {
	if r.nocli == 0 {
		return true
	}
	paid, seen := int64(0), r.progress()
	full, long := horizon, horizon >= int64(time.Minute)
	for horizon > 0 {
		t := time.NewTimer(time.Duration(horizon))
		select {
		case <-r.done:
			t.Stop()
			r.join.Load()
			return true
		case <-t.C:
		}
		// time lost to stalls does not count
		st := 2 * r.Stalled()
		horizon, paid = st-paid, st
		// nor is it over while there is progress, where the horizon is long
		if long {
			if p := r.progress(); p != seen {
				horizon, seen = max(horizon, full), p
			}
		}
	}
	select {
	case <-r.done:
		r.join.Load()
		return true
	default:
	}
	return false
}

// Calm ends the stalls and waits until those under way are over.
func (r *R) Calm() {
	if r.stalls {
		runtime.AxCalm()
		r.Settle(r.maxStall + 1)
		runtime.AxCalm()
	}
}

// Settle lets simulated time pass (and with it everything runnable run).
func (r *R) Settle(d int64) { time.Sleep(time.Duration(d)) }

// Stalled is the total time goroutines have been held up so far.
func (r *R) Stalled() int64 { return runtime.AxStatsNow().StallTime }

func (r *R) name(k uint8) string {
	if int(k) < len(r.names) {
		return r.names[k]
	}
	return fmt.Sprintf("op%d", k)
}

// Trace renders the history.
func (r *R) Trace(max int) []string {
	type line struct {
		seq int32
		s   string
	}
	var ls []line
	for i, o := range r.Ops() {
		who := fmt.Sprintf("client %d", o.C)
		if o.C < 0 {
			who = "observed"
		}
		args := fmt.Sprintf("(%d,%d,%d)", o.A, o.B, o.D)
		if o.Inv == o.Ret {
			ls = append(ls, line{o.Inv, fmt.Sprintf("%5d t=%.3fms %s: %s%s", o.Inv, float64(o.T0)/1e6, who, r.name(o.K), args)})
			continue
		}
		ls = append(ls, line{o.Inv, fmt.Sprintf("%5d t=%.3fms %s: #%d %s%s begins", o.Inv, float64(o.T0)/1e6, who, i, r.name(o.K), args)})
		if o.Ret > 0 {
			ls = append(ls, line{o.Ret, fmt.Sprintf("%5d t=%.3fms %s: #%d %s%s returns (%d,%d)", o.Ret, float64(o.T1)/1e6, who, i, r.name(o.K), args, o.R, o.R2)})
		} else {
			ls = append(ls, line{1 << 30, fmt.Sprintf("      %s: #%d %s%s never returned", who, i, r.name(o.K), args)})
		}
	}
	sort.SliceStable(ls, func(i, j int) bool { return ls[i].seq < ls[j].seq })
	out := []string{"config: " + strings.Join(r.cfg, " ")}
	for i, l := range ls {
		if i >= max {
			out = append(out, fmt.Sprintf("... %d more", len(ls)-i))
			break
		}
		out = append(out, l.s)
	}
	return out
}

// ---- scenarios ---------------------------------------------------------------

type Scenario struct {
	Prop string
	Name string
	// Weight of this scenario among those of its property.
	Weight int
	// Rare: a scenario whose runs are long, weighing a twelfth as much.
	Rare bool
	// Stalls: scheduling may hold a goroutine up for simulated time.
	Stalls bool
	// Wall: the wall clock is set back and forth, and runs fast or slow, while the time that passes stays what it is.
	Wall bool
	// Scale: some runs take minutes or hours for milliseconds.
	Scale  bool
	MaxY   uint64
	Names  []string // of the operations, by kind
	Probes []string // of the situations counted with Probe
	Fn     func(r *R)
}

var scenarios []*Scenario

func reg(s *Scenario) {
	if s.Weight == 0 {
		s.Weight = 1
	}
	if !s.Rare {
		s.Weight *= 12
	}
	if s.MaxY == 0 {
		s.MaxY = 3000000
	}
	scenarios = append(scenarios, s)
}
