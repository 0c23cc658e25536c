package main

import (
	"context"
	"errors"
	"sort"
	"time"
)

const (
	wSet   = iota // A: key, B: value
	wWait         // A: key, B: target (HolderMap); R: value or outcome
	wCount        // R
	wRel          // A: key; R: 1 not found
	wErr          // A: key, B: error; R: 1 not found
	wUpd          // A: key, B: target; R: 1 not found
	wGet          // A: key; R: object, R2: outcome
	wCancel
	wEnd // of a Wait (only in the linearizability check)
)

var waitNames = []string{"Set", "Wait", "Count", "Release", "Error", "Update", "Get", "cancel", "end of Wait"}

// outcomes of a HolderMap wait
const (
	outNone = iota
	outTimeout
	outCancel
	outNotFound
	outOther
)

//go:norace
func outcome(err error) int64 {
	if err == nil {
		return outNone
	}
	if ce, ok := err.(callErr); ok {
		return int64(ce)
	}
	if errors.Is(err, context.Canceled) {
		return outCancel
	}
	switch err.Error() {
	case "timeout":
		return outTimeout
	case "not found":
		return outNotFound
	}
	return outOther
}

// act is one planned operation.
type act struct {
	at   int64
	op   uint8
	a, b int64
}

// plan draws n operations at instants of their own (never at a multiple of a millisecond, and never two
// at the same offset from one).
func planActs(w *Chooser, n int, span int64, keys int, wt ...int) []act {
	l := make([]act, n)
	for i := range l {
		l[i] = act{at: int64(w.N(int(span/ms)))*ms + int64(i+1)*1000, op: uint8(w.W(wt...)), a: int64(w.N(keys)), b: int64(100 + i)}
	}
	return l
}

// zeroSome: the zero value is set as well.
func zeroSome(w *Chooser, l []act) {
	if w.Pct(30) {
		for i := 0; i < w.In(1, 3); i++ {
			l[w.N(len(l))].b = 0
		}
	}
}

// many keys now and then, with operations for them all
func manyKeys(w *Chooser, keys, ops int) (int, int) {
	if w.Pct(6) {
		k := w.In(8, 40)
		if w.Pct(12) {
			k = w.In(40, 150)
		}
		return k, 2*k + w.N(k)
	}
	return w.In(1, keys), w.In(1, ops)
}

// byTime returns the history in the order of its instants.
func byTime(ops []Op) []Op {
	l := append([]Op(nil), ops...)
	sort.SliceStable(l, func(i, j int) bool { return l[i].T0 < l[j].T0 })
	return l
}

func msec(t int64) float64 { return float64(t) / 1e6 }

// ---- agreement of ResponseMap and WaitMap -------------------------------------------

type waiterMap interface {
	Set(k int, v int64)
	Wait(k int) int64
}

// agreeRun: operations that meet. Entries outlive the run, so every key has one value: that of
// the first Set, and (in WaitMap) zero if the timeout was first.
func agreeRun(r *R, sticky bool, build func(r *R, ctx context.Context, rt time.Duration) waiterMap) {
	w := &r.W
	ctx, cancel := context.WithCancel(context.Background())
	r.Defer(cancel)
	rt := One(w, int64(30*60*1000), 5, 1, 20) * ms
	m := build(r, ctx, time.Duration(rt))
	keys := w.In(1, 2)
	nc := crowd(w, 2, 6, 24)
	r.Cfg("keys=%d clients=%d timeout=%.0fms", keys, nc, msec(rt))
	spread := One(w, 1, 1, 4, 12)
	for i := 0; i < nc; i++ {
		type one struct {
			k    int
			set  bool
			wait int64
		}
		l := make([]one, w.In(1, 3))
		for j := range l {
			l[j] = one{k: w.N(keys), set: w.Pct(45)}
			if w.Pct(20) {
				l[j].wait = int64(w.N(5)) * ms
			}
		}
		r.At(int64(w.N(spread))*ms, func(c int) {
			for j, x := range l {
				Sleep(x.wait)
				if x.set {
					v := int64(c*10 + j + 100)
					h := r.Inv(c, wSet, int64(x.k), v, 0)
					m.Set(x.k, v)
					r.Ret(h, 0, 0)
				} else {
					h := r.Inv(c, wWait, int64(x.k), 0, 0)
					r.Ret(h, m.Wait(x.k), 0)
				}
			}
		})
	}
	if !r.Wait(int64(2*time.Hour) + 4*rt) {
		r.Fail("stuck", "a Set or Wait does not return")
		return
	}
	r.Calm()
	// once more, alone
	for k := 0; k < keys; k++ {
		if len(pickKey(r.Sel(wSet), int64(k))) == 0 {
			continue
		}
		r.Go(func(c int) {
			h := r.Inv(c, wWait, int64(k), 0, 0)
			r.Ret(h, m.Wait(k), 0)
		})
	}
	if !r.Wait(int64(time.Hour)) {
		r.Fail("stuck", "a Wait does not return although a value was set")
		return
	}
	checkAgree(r, keys, rt, sticky)
	if r.Failed() {
		return
	}
	cancel()
	r.Fault(FCancel)
	if l := r.Ended(int64(4 * time.Hour)); l != 0 {
		r.Fail("goroutines", "%d goroutines are left after cancellation", l)
	}
}

// zeroRun: the zero value is a value. Every key is set to it, and nobody waits longer than that.
func zeroRun(r *R, build func(r *R, ctx context.Context, rt time.Duration) waiterMap) {
	w := &r.W
	ctx, cancel := context.WithCancel(context.Background())
	r.Defer(cancel)
	m := build(r, ctx, time.Hour)
	keys := w.In(1, 3)
	nc := crowd(w, 1, 6, 24)
	r.Cfg("zero: keys=%d clients=%d", keys, nc)
	wait := func(k int) {
		r.Go(func(c int) {
			h := r.Inv(c, wWait, int64(k), 0, 0)
			r.Ret(h, m.Wait(k), 0)
		})
	}
	spread := One(w, 1, 1, 4, 12)
	for i := 0; i < nc; i++ {
		k := w.N(keys)
		r.At(int64(w.N(spread))*ms, func(c int) {
			h := r.Inv(c, wWait, int64(k), 0, 0)
			r.Ret(h, m.Wait(k), 0)
		})
	}
	for k := 0; k < keys; k++ {
		for i := 0; i < w.In(1, 2); i++ {
			r.At(int64(w.N(spread))*ms, func(c int) {
				h := r.Inv(c, wSet, int64(k), 0, 0)
				m.Set(k, 0)
				r.Ret(h, 0, 0)
			})
		}
	}
	r.Settle(int64(spread)*ms + 1 + 4*r.maxStall)
	for k := 0; k < keys; k++ {
		wait(k)
	}
	if !r.Wait(int64(2 * time.Hour)) {
		r.Fail("stuck", "a Set or Wait does not return")
		return
	}
	for k := int64(0); k < int64(keys); k++ {
		first := int64(1<<62 - 1)
		for _, s := range pickKey(r.Sel(wSet), k) {
			first = min(first, s.T1)
		}
		for _, x := range pickKey(r.Sel(wWait), k) {
			if x.R != 0 {
				r.Fail("invented", "Wait(%d) returned %d, which nobody set", k, x.R)
				return
			}
			if x.T1 > max(x.T0, first)+r.Stalled() {
				r.Fail("late", "Wait(%d) called at %.3f ms returned at %.3f ms; the zero value was set by %.3f ms", k, msec(x.T0), msec(x.T1), msec(first))
				return
			}
		}
	}
	cancel()
	if l := r.Ended(int64(4 * time.Hour)); l != 0 {
		r.Fail("goroutines", "%d goroutines are left after cancellation", l)
	}
}

func pickKey(ops []Op, k int64) []Op {
	var l []Op
	for _, o := range ops {
		if o.A == k {
			l = append(l, o)
		}
	}
	return l
}

func checkAgree(r *R, keys int, rt int64, sticky bool) {
	slack := r.Stalled()
	for k := int64(0); k < int64(keys); k++ {
		sets, waits := pickKey(r.Sel(wSet), k), pickKey(r.Sel(wWait), k)
		for _, s := range sets {
			if s.T1-s.T0 > slack {
				r.Fail("blocked", "Set(%d) took %.3f ms", k, msec(s.T1-s.T0))
				return
			}
		}
		first := int64(1<<62 - 1) // when the first Set was complete
		for _, s := range sets {
			first = min(first, s.T1)
		}
		begin := int64(1<<62 - 1) // when the first Wait came
		for _, x := range waits {
			begin = min(begin, x.T0)
		}
		winner := int64(0)
		zero := false
		for _, x := range waits {
			from := x.T0
			if sticky {
				from = begin
			}
			if x.R == 0 {
				zero = true
				r.Fault(FTimeout)
				if x.T1 < from+rt {
					r.Fail("early", "Wait(%d) returned nothing at %.3f ms; it may do so from %.3f ms on", k, msec(x.T1), msec(from+rt))
					return
				}
				if first+slack < from+rt {
					r.Fail("lost", "Wait(%d) returned nothing although a value was set by %.3f ms, before its time was over at %.3f ms", k, msec(first), msec(from+rt))
					return
				}
				if x.T1 > from+rt+slack && x.T1 > x.T0+slack {
					r.Fail("late", "Wait(%d) called at %.3f ms returned nothing at %.3f ms; its time was over at %.3f ms", k, msec(x.T0), msec(x.T1), msec(from+rt))
					return
				}
				continue
			}
			if winner == 0 {
				winner = x.R
			}
			if x.R != winner {
				r.Fail("agreement", "Waits for key %d got %d and %d", k, winner, x.R)
				return
			}
			if x.T1 > max(x.T0, first)+slack {
				r.Fail("late", "Wait(%d) called at %.3f ms returned at %.3f ms; its value was set by %.3f ms", k, msec(x.T0), msec(x.T1), msec(first))
				return
			}
		}
		if sticky && zero && winner != 0 {
			r.Fail("agreement", "of the Waits for key %d some got nothing and some %d", k, winner)
			return
		}
		if winner == 0 {
			continue
		}
		var set *Op
		for i, s := range sets {
			if s.B == winner {
				set = &sets[i]
			}
		}
		if set == nil {
			r.Fail("invented", "Wait(%d) returned %d, which nobody set for it", k, winner)
			return
		}
		for _, s := range sets {
			if s.Ret < set.Inv {
				r.Fail("first", "Waits for key %d got %d although %d had been set before", k, winner, s.B)
				return
			}
		}
		for _, x := range waits {
			if x.R != 0 && x.Ret < set.Inv {
				r.Fail("invented", "Wait(%d) returned %d before it was set", k, winner)
				return
			}
		}
	}
}

// ---- ResponseMap, exact --------------------------------------------------------------

// timed runs a plan: each operation in a client of its own.
func timed(r *R, plan []act, do func(c int, a act)) {
	for _, a := range plan {
		r.At(a.at, func(c int) { do(c, a) })
	}
}

func responseTimed(r *R) {
	w := &r.W
	ctx, cancel := context.WithCancel(context.Background())
	r.Defer(cancel)
	rt, ct := int64(w.In(1, 40))*ms, int64(w.In(1, 40))*ms
	keys, n := manyKeys(w, 3, 16)
	r.Cfg("response=%.0fms clear=%.0fms keys=%d", msec(rt), msec(ct), keys)
	m := newResponse(r, ctx, time.Duration(rt), time.Duration(ct))
	span := int64(w.In(1, 4)) * max(rt, ct)
	plan := planActs(w, n, span, keys, 4, 5)
	zeroSome(w, plan)
	cancelAt := int64(1 << 62)
	if w.Pct(30) {
		cancelAt = int64(w.N(int(span/ms)))*ms + ms*9/10
		plan = append(plan, act{at: cancelAt, op: wCancel})
	}
	timed(r, plan, func(c int, a act) {
		h := r.Inv(c, a.op, a.a, a.b, 0)
		switch a.op {
		case wSet:
			m.Set(int(a.a), a.b)
			r.Ret(h, 0, 0)
		case wWait:
			r.Ret(h, m.Wait(int(a.a)), 0)
		case wCancel:
			r.Fault(FCancel)
			cancel()
			r.Ret(h, 0, 0)
		}
	})
	if !r.Wait(span + 4*(rt+ct)) {
		r.Fail("stuck", "a Set or Wait does not return")
		return
	}
	for k := int64(0); k < int64(keys); k++ {
		// an entry is made by the first Set or Wait and removed at the first cleaning at which it is older than the clear timeout
		var made, removed, setAt, val int64 = -1, 0, 0, 0
		has := false
		var waits []Op // of this entry, without a value when they came
		flush := func() {
			for _, x := range waits {
				end, want := x.T0+rt, int64(0)
				if removed < end {
					end = removed
				}
				if has && setAt < end {
					end, want = setAt, val
				}
				if x.R != want || x.T1 != end {
					r.Fail("wait", "Wait(%d) called at %.3f ms returned %d at %.3f ms, not %d at %.3f ms", k, msec(x.T0), x.R, msec(x.T1), want, msec(end))
				}
				if !has {
					r.Fault(FTimeout)
				}
			}
			waits = nil
		}
		for _, o := range byTime(pickKey(r.Sel(wSet, wWait), k)) {
			if made >= 0 && o.T0 > removed {
				flush()
				made = -1
				r.Probe(0)
			}
			if made < 0 {
				made, val, has = o.T0, 0, false
				removed = ((made+ct)/ct + 1) * ct
				if removed > cancelAt {
					removed = 1 << 62
				}
			}
			if o.K == wSet {
				if !has {
					has, val, setAt = true, o.B, o.T0
				}
				if o.T1 != o.T0 {
					r.Fail("blocked", "Set(%d) took %.3f ms", k, msec(o.T1-o.T0))
				}
				continue
			}
			if has {
				if o.R != val || o.T1 != o.T0 {
					r.Fail("wait", "Wait(%d) called at %.3f ms returned %d at %.3f ms; %d was set at %.3f ms", k, msec(o.T0), o.R, msec(o.T1), val, msec(setAt))
				}
				continue
			}
			waits = append(waits, o)
		}
		flush()
		if r.Failed() {
			return
		}
	}
	cancel()
	if l := r.Ended(1000 * ms); l != 0 {
		r.Fail("goroutines", "%d goroutines are left after cancellation", l)
	}
}

// responseTies: everything may meet the cleaning; every Wait ends in time, nothing crashes, nothing is left.
func responseTies(r *R) {
	w := &r.W
	ctx, cancel := context.WithCancel(context.Background())
	r.Defer(cancel)
	ct := int64(w.In(1, 5)) * ms
	rt := One(w, ct, 2*ct, 3*ct, int64(w.In(1, 20))*ms)
	keys := w.In(1, 2)
	m := newResponse(r, ctx, time.Duration(rt), time.Duration(ct))
	r.Cfg("response=%.0fms clear=%.0fms keys=%d", msec(rt), msec(ct), keys)
	n := w.In(2, 12)
	for i := 0; i < n; i++ {
		set, k := w.Pct(45), w.N(keys)
		r.At(int64(w.N(20))*ms, func(c int) {
			if set {
				h := r.Inv(c, wSet, int64(k), int64(100+c), 0)
				m.Set(k, int64(100+c))
				r.Ret(h, 0, 0)
			} else {
				h := r.Inv(c, wWait, int64(k), 0, 0)
				r.Ret(h, m.Wait(k), 0)
			}
		})
	}
	if w.Pct(30) {
		r.At(int64(w.N(20))*ms, func(c int) { r.Fault(FCancel); cancel() })
	}
	if !r.Wait(1000 * ms) {
		r.Fail("stuck", "a Set or Wait does not return")
		return
	}
	slack := r.Stalled()
	for _, o := range r.Sel(wSet) {
		if o.T1-o.T0 > slack {
			r.Fail("blocked", "Set took %.3f ms", msec(o.T1-o.T0))
			return
		}
	}
	for _, o := range r.Sel(wWait) {
		if o.T1-o.T0 > rt+slack {
			r.Fail("late", "Wait(%d) took %.3f ms; the response timeout is %.3f ms", o.A, msec(o.T1-o.T0), msec(rt))
			return
		}
		if o.R != 0 {
			ok := false
			for _, s := range r.Sel(wSet) {
				ok = ok || s.A == o.A && s.B == o.R && s.Inv < o.Ret
			}
			if !ok {
				r.Fail("invented", "Wait(%d) returned %d, which nobody had set for it", o.A, o.R)
				return
			}
		}
	}
	r.Calm()
	cancel()
	if l := r.Ended(1000 * ms); l != 0 {
		r.Fail("goroutines", "%d goroutines are left after cancellation", l)
	}
}

// ---- WaitMap, exact --------------------------------------------------------------------

func waitTimed(r *R) {
	w := &r.W
	ctx, cancel := context.WithCancel(context.Background())
	r.Defer(cancel)
	rt, ttl := int64(w.In(1, 40))*ms, int64(w.In(1, 40))*ms
	keys, n := manyKeys(w, 3, 18)
	r.Cfg("timeout=%.0fms ttl=%.0fms keys=%d", msec(rt), msec(ttl), keys)
	m := newWait(r, ctx, time.Duration(rt), time.Duration(ttl))
	span := int64(w.In(1, 4)) * max(rt, ttl)
	plan := planActs(w, n, span, keys, 4, 5, 1)
	zeroSome(w, plan)
	cancelAt := int64(1 << 62)
	if w.Pct(30) {
		cancelAt = int64(w.N(int(span/ms)))*ms + ms*9/10
		plan = append(plan, act{at: cancelAt, op: wCancel})
	}
	timed(r, plan, func(c int, a act) {
		h := r.Inv(c, a.op, a.a, a.b, 0)
		switch a.op {
		case wSet:
			m.Set(int(a.a), a.b)
			r.Ret(h, 0, 0)
		case wWait:
			r.Ret(h, m.Wait(int(a.a)), 0)
		case wCount:
			r.Ret(h, int64(m.Count()), 0)
		case wCancel:
			r.Fault(FCancel)
			cancel()
			r.Ret(h, 0, 0)
		}
	})
	if !r.Wait(span + 4*(rt+ttl)) {
		r.Fail("stuck", "a Set or Wait does not return")
		return
	}
	type entry struct {
		waiting, held bool
		t0, until     int64 // the first Wait; when the value goes
		val           int64
		waits         []Op
	}
	es := make([]entry, keys)
	// pass lets the timeouts up to t happen
	pass := func(k int, t int64) {
		e := &es[k]
		answer := func(v, at int64) {
			for _, x := range e.waits {
				if x.R != v || x.T1 != at {
					r.Fail("wait", "Wait(%d) called at %.3f ms returned %d at %.3f ms, not %d at %.3f ms", k, msec(x.T0), x.R, msec(x.T1), v, msec(at))
				}
			}
			e.waits = nil
			e.waiting = false
		}
		for {
			switch {
			case e.waiting && e.t0+rt < cancelAt && e.t0+rt <= t:
				r.Fault(FTimeout)
				answer(0, e.t0+rt)
				e.held, e.val, e.until = true, 0, e.t0+rt+ttl
			case e.waiting && cancelAt <= t && cancelAt < e.t0+rt:
				answer(0, max(cancelAt, e.t0))
			case e.held && min(e.until, max(cancelAt, 0)) <= t:
				e.held = false
			default:
				return
			}
		}
	}
	for _, o := range byTime(r.Ops()) {
		if o.K == wCancel {
			continue
		}
		if o.K == wCount {
			c := int64(0)
			for k := range es {
				pass(k, o.T0)
				c += b2i(es[k].waiting) + b2i(es[k].held)
			}
			if o.R != c {
				r.Fail("count", "Count is %d at %.3f ms, not %d", o.R, msec(o.T0), c)
				return
			}
			continue
		}
		k := int(o.A)
		pass(k, o.T0)
		if r.Failed() {
			return
		}
		e := &es[k]
		if o.K == wSet {
			if o.T1 != o.T0 {
				r.Fail("blocked", "Set(%d) took %.3f ms", k, msec(o.T1-o.T0))
				return
			}
			if e.held {
				continue
			}
			for _, x := range e.waits {
				if x.R != o.B || x.T1 != o.T0 {
					r.Fail("wait", "Wait(%d) called at %.3f ms returned %d at %.3f ms, not %d at %.3f ms", k, msec(x.T0), x.R, msec(x.T1), o.B, msec(o.T0))
					return
				}
			}
			e.waits, e.waiting = nil, false
			e.held, e.val, e.until = true, o.B, o.T0+ttl
			continue
		}
		if e.held {
			if o.R != e.val || o.T1 != o.T0 {
				r.Fail("wait", "Wait(%d) called at %.3f ms returned %d at %.3f ms; %d is there", k, msec(o.T0), o.R, msec(o.T1), e.val)
				return
			}
			continue
		}
		if !e.waiting {
			e.waiting, e.t0 = true, o.T0
		}
		e.waits = append(e.waits, o)
	}
	for k := range es {
		pass(k, 1<<61)
	}
	if r.Failed() {
		return
	}
	cancel()
	r.Settle(2 * (rt + ttl))
	if c := m.Count(); c != 0 {
		r.Fail("count", "Count is %d after cancellation", c)
		return
	}
	if l := r.Ended(1000 * ms); l != 0 {
		r.Fail("goroutines", "%d goroutines are left after cancellation", l)
	}
}

// ---- HolderMap ---------------------------------------------------------------------------

type holderSys struct {
	r      *R
	m      holderI
	cancel context.CancelFunc
}

func (s *holderSys) do(c int, a act) {
	r := s.r
	if a.op == wErr && a.b%7 == 3 {
		a.b = 0 // no error after all
	}
	h := r.Inv(c, a.op, a.a, a.b, 0)
	k := int(a.a)
	switch a.op {
	case wWait:
		r.Ret(h, outcome(s.m.Wait(k, a.b)), 0)
	case wCount:
		r.Ret(h, int64(s.m.Count()), 0)
	case wRel:
		r.Ret(h, outcome(s.m.Release(k)), 0)
	case wErr:
		var err error
		if a.b != 0 {
			err = callErr(a.b)
		}
		r.Ret(h, outcome(s.m.Error(k, err)), 0)
	case wUpd:
		r.Ret(h, outcome(s.m.Update(k, a.b)), 0)
	case wGet:
		v, err := s.m.Get(k)
		r.Ret(h, v, outcome(err))
	case wCancel:
		r.Fault(FCancel)
		s.cancel()
		r.Ret(h, 0, 0)
	}
}

// holdState is one entry of a HolderMap in the linearizability check.
type holdState struct {
	made, released bool
	obj            int64
	out            int64
	in             uint32 // Waits that have joined
}

// holderLin: nothing expires; every key's operations have a sequential explanation, in which a Wait has
// two steps, joining and leaving.
func holderLin(r *R) {
	w := &r.W
	ctx, cancel := context.WithCancel(context.Background())
	r.Defer(cancel)
	s := &holderSys{r: r, cancel: cancel}
	s.m = newHolder(r, ctx, 10*time.Hour, 20*time.Hour)
	keys := w.In(1, 2)
	nc := w.In(2, 6)
	wt := []int{0, 6, 1, w.N(4), w.N(4), w.N(3), w.N(4)}
	r.Cfg("keys=%d clients=%d", keys, nc)
	id := int64(100)
	for i := 0; i < nc; i++ {
		l := make([]act, w.In(1, 4))
		for j := range l {
			id++
			l[j] = act{op: uint8(w.W(wt...)), a: int64(w.N(keys)), b: id}
		}
		r.At(int64(w.N(3))*ms, func(c int) {
			for _, a := range l {
				s.do(c, a)
			}
		})
	}
	r.Settle(10 * ms)
	r.Calm()
	r.Settle(10 * ms)
	// whoever still waits is released
	for round := 0; round < 5; round++ {
		for k := 0; k < keys; k++ {
			r.Go(func(c int) { s.do(c, act{op: wRel, a: int64(k)}) })
		}
		r.Settle(10*ms + r.Stalled())
	}
	if !r.Wait(60000 * ms) {
		r.Fail("stuck", "a Wait does not return although its key was released")
		return
	}
	for k := int64(0); k < int64(keys); k++ {
		var ops []Op
		for _, o := range pickKey(r.Sel(wWait, wRel, wErr, wUpd, wGet), k) {
			if o.K != wWait {
				ops = append(ops, o)
				continue
			}
			n := 0
			for _, p := range ops {
				if p.K == wWait {
					n++
				}
			}
			o.D = int64(n)
			e := o
			e.K = wEnd
			ops = append(ops, o, e)
		}
		if !Lin(ops, holdState{}, func(st holdState, o *Op, emit func(holdState)) {
			switch o.K {
			case wWait:
				st.in |= 1 << o.D
				if !st.made {
					st.made, st.obj = true, o.B
				}
				emit(st)
			case wEnd:
				if st.in>>o.D&1 == 1 && st.released && st.out == o.R {
					emit(st)
				}
			case wRel, wErr, wUpd:
				if !st.made {
					if o.R == outNotFound {
						emit(st)
					}
					return
				}
				if o.R != 0 {
					return
				}
				switch {
				case o.K == wUpd:
					st.obj = o.B
				case !st.released:
					st.released = true
					if o.K == wErr {
						st.out = o.B
					}
				}
				emit(st)
			case wGet:
				if !st.made {
					if o.R == 0 && o.R2 == outNotFound {
						emit(st)
					}
				} else if o.R == st.obj && o.R2 == st.out {
					emit(st)
				}
			}
		}) {
			r.Fail("linearizable", "the operations on key %d have no sequential explanation", k)
			return
		}
	}
	slack := r.Stalled()
	for _, o := range r.Ops() {
		if o.K != wWait && o.T1-o.T0 > slack {
			r.Fail("blocked", "%s(%d) took %.3f ms", waitNames[o.K], o.A, msec(o.T1-o.T0))
			return
		}
	}
	cancel()
	if l := r.Ended(60000 * ms); l != 0 {
		r.Fail("goroutines", "%d goroutines are left after cancellation", l)
		return
	}
	if c := s.m.Count(); c != 0 {
		r.Fail("count", "Count is %d after cancellation", c)
	}
}

// holderTies: timeouts, releases, errors and cancellation meet; all waits of one entry agree.
func holderTies(r *R) {
	w := &r.W
	ctx, cancel := context.WithCancel(context.Background())
	r.Defer(cancel)
	s := &holderSys{r: r, cancel: cancel}
	to := int64(w.In(1, 4)) * ms
	ttl := One(w, int64(time.Hour), int64(w.In(1, 4))*ms)
	s.m = newHolder(r, ctx, time.Duration(to), time.Duration(ttl))
	r.Cfg("timeout=%.0fms ttl=%.0fms", msec(to), msec(ttl))
	n := crowd(w, 2, 8, 24)
	for i := 0; i < n; i++ {
		a := act{op: uint8(w.W(0, 6, 0, 2, 2, 1, 1)), b: int64(101 + i)}
		r.At(int64(w.N(6))*ms, func(c int) { s.do(c, a) })
	}
	cancelled := w.Pct(40)
	if cancelled {
		r.At(int64(w.N(6))*ms, func(c int) { s.do(c, act{op: wCancel}) })
	}
	if !r.Wait(1000 * ms) {
		r.Fail("stuck", "an operation does not return")
		return
	}
	slack := r.Stalled()
	first := int64(-1)
	for _, o := range r.Ops() {
		if o.K != wWait {
			if o.T1-o.T0 > slack {
				r.Fail("blocked", "%s took %.3f ms", waitNames[o.K], msec(o.T1-o.T0))
				return
			}
			continue
		}
		if o.T1-o.T0 > to+slack {
			r.Fail("late", "Wait took %.3f ms; the timeout is %.3f ms", msec(o.T1-o.T0), msec(to))
			return
		}
		if o.R == outTimeout {
			r.Fault(FTimeout)
		}
		if o.R == outNotFound || o.R == outOther || o.R == outCancel && !cancelled {
			r.Fail("outcome", "a Wait ended with an outcome nobody gave (%d)", o.R)
			return
		}
		if o.R > 100 {
			ok := false
			for _, e := range r.Sel(wErr) {
				ok = ok || e.B == o.R && e.Inv < o.Ret
			}
			if !ok {
				r.Fail("outcome", "a Wait ended with an error nobody gave (%d)", o.R)
				return
			}
		}
		if ttl == int64(time.Hour) && !cancelled {
			if first == -1 {
				first = o.R
			}
			if o.R != first {
				r.Fail("agreement", "two Waits of one entry ended with outcomes %d and %d", first, o.R)
				return
			}
		}
	}
	r.Calm()
	cancel()
	if l := r.Ended(60000 * ms); l != 0 {
		r.Fail("goroutines", "%d goroutines are left after cancellation", l)
		return
	}
	if c := s.m.Count(); c != 0 {
		r.Fail("count", "Count is %d after cancellation", c)
	}
}

func holderTimed(r *R) {
	w := &r.W
	ctx, cancel := context.WithCancel(context.Background())
	r.Defer(cancel)
	s := &holderSys{r: r, cancel: cancel}
	to, ttl := int64(w.In(1, 30))*ms, int64(w.In(1, 30))*ms
	keys, n := manyKeys(w, 3, 20)
	s.m = newHolder(r, ctx, time.Duration(to), time.Duration(ttl))
	r.Cfg("timeout=%.0fms ttl=%.0fms keys=%d", msec(to), msec(ttl), keys)
	span := int64(w.In(1, 4)) * max(to, ttl)
	plan := planActs(w, n, span, keys, 0, 6, 1, 2, 2, 1, 2)
	cancelAt := int64(1 << 62)
	if w.Pct(30) {
		cancelAt = int64(w.N(int(span/ms)))*ms + ms*9/10
		plan = append(plan, act{at: cancelAt, op: wCancel})
	}
	timed(r, plan, s.do)
	if !r.Wait(span + 4*(to+ttl)) {
		r.Fail("stuck", "an operation does not return")
		return
	}
	type entry struct {
		made, released bool
		t0, tr         int64
		obj, out       int64
		waits          []Op
	}
	es := make([]entry, keys)
	release := func(k int, out, at int64) {
		e := &es[k]
		e.released, e.out, e.tr = true, out, at
		for _, x := range e.waits {
			if x.R != out || x.T1 != at {
				r.Fail("wait", "Wait(%d) called at %.3f ms ended with outcome %d at %.3f ms, not %d at %.3f ms", k, msec(x.T0), x.R, msec(x.T1), out, msec(at))
			}
		}
		e.waits = nil
	}
	pass := func(k int, t int64) {
		e := &es[k]
		for e.made {
			switch {
			case !e.released && e.t0+to <= t && e.t0+to < cancelAt:
				r.Fault(FTimeout)
				release(k, outTimeout, e.t0+to)
			case !e.released && cancelAt <= t && cancelAt < e.t0+to:
				release(k, outCancel, max(e.t0, cancelAt))
			case e.released && (e.tr+ttl <= t || cancelAt <= t):
				r.Probe(0)
				*e = entry{}
			default:
				return
			}
		}
	}
	for _, o := range byTime(r.Ops()) {
		if o.K == wCancel {
			continue
		}
		if o.K != wWait && o.T0 != o.T1 {
			r.Fail("blocked", "%s(%d) took %.3f ms", waitNames[o.K], o.A, msec(o.T1-o.T0))
			return
		}
		for k := range es {
			pass(k, o.T0)
		}
		if r.Failed() {
			return
		}
		e := &es[o.A]
		wantR, wantR2 := int64(0), int64(0)
		switch o.K {
		case wWait:
			if e.made && e.released {
				if o.R != e.out || o.T1 != o.T0 {
					r.Fail("wait", "Wait(%d) called at %.3f ms ended with outcome %d at %.3f ms; the outcome was %d since %.3f ms", o.A, msec(o.T0), o.R, msec(o.T1), e.out, msec(e.tr))
					return
				}
				continue
			}
			if !e.made {
				*e = entry{made: true, t0: o.T0, obj: o.B}
			}
			e.waits = append(e.waits, o)
			continue
		case wCount:
			for k := range es {
				wantR += b2i(es[k].made)
			}
		case wRel, wErr, wUpd:
			switch {
			case !e.made:
				wantR = outNotFound
			case o.K == wUpd:
				e.obj = o.B
			case !e.released:
				out := int64(0)
				if o.K == wErr {
					out = o.B
				}
				release(int(o.A), out, o.T0)
			}
		case wGet:
			if e.made {
				wantR, wantR2 = e.obj, e.out
			} else {
				wantR2 = outNotFound
			}
		}
		if o.R != wantR || o.R2 != wantR2 {
			r.Fail("result", "%s(%d) at %.3f ms returned (%d, %d), not (%d, %d)", waitNames[o.K], o.A, msec(o.T0), o.R, o.R2, wantR, wantR2)
			return
		}
	}
	for k := range es {
		pass(k, 1<<61)
	}
	if r.Failed() {
		return
	}
	cancel()
	if l := r.Ended(1000 * ms); l != 0 {
		r.Fail("goroutines", "%d goroutines are left after cancellation", l)
		return
	}
	if c := s.m.Count(); c != 0 {
		r.Fail("count", "Count is %d after cancellation", c)
	}
}

func init() {
	resp := func(r *R, ctx context.Context, rt time.Duration) waiterMap {
		return newResponse(r, ctx, rt, 100*time.Hour)
	}
	wait := func(r *R, ctx context.Context, rt time.Duration) waiterMap {
		return newWait(r, ctx, rt, 100*time.Hour)
	}
	gone := []string{"an entry went and its key came again"}
	for i, sfx := range []string{"", "-stalls"} {
		st := i == 1
		reg(&Scenario{Prop: "C16", Name: "response-agree" + sfx, Stalls: st, Names: waitNames, Fn: func(r *R) { agreeRun(r, false, resp) }})
		reg(&Scenario{Prop: "C16", Name: "response-zero" + sfx, Stalls: st, Names: waitNames, Fn: func(r *R) { zeroRun(r, resp) }})
		reg(&Scenario{Prop: "C17", Name: "response-ties" + sfx, Stalls: st, Names: waitNames, Fn: responseTies})
		reg(&Scenario{Prop: "C18", Name: "wait-agree" + sfx, Stalls: st, Names: waitNames, Fn: func(r *R) { agreeRun(r, true, wait) }})
		reg(&Scenario{Prop: "C18", Name: "wait-zero" + sfx, Stalls: st, Names: waitNames, Fn: func(r *R) { zeroRun(r, wait) }})
		reg(&Scenario{Prop: "C20", Name: "holder-lin" + sfx, Stalls: st, Names: waitNames, Fn: holderLin})
		reg(&Scenario{Prop: "C20", Name: "holder-ties" + sfx, Stalls: st, Names: waitNames, Fn: holderTies})
	}
	reg(&Scenario{Prop: "C17", Name: "response-timed", Scale: true, Weight: 3, Names: waitNames, Probes: gone, Fn: responseTimed})
	reg(&Scenario{Prop: "C19", Name: "wait-timed", Scale: true, Names: waitNames, Fn: waitTimed})
	reg(&Scenario{Prop: "C21", Name: "holder-timed", Scale: true, Names: waitNames, Probes: []string{"an entry went"}, Fn: holderTimed})
}
