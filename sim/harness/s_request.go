package main

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/axgrid/axutils/collections"
)

const (
	qCall    = iota // A: key, B: call, D: 1 with error; R: value, R2: error (0 none, 1 timeout, else call number)
	qExec           // the function of call B begins for key A
	qExecEnd        // D: error
	qCount          // R
)

var requestNames = []string{"GetOrCreate", "the function begins", "the function ends", "Count"}

// callErr is the error of the function of one call.
type callErr int64

func (e callErr) Error() string { return fmt.Sprint("error of call ", int64(e)) }

func errCode(err error) int64 {
	var ce callErr
	switch {
	case err == nil:
		return 0
	case errors.Is(err, collections.ErrTimeout):
		return 1
	case errors.As(err, &ce):
		return int64(ce)
	}
	return -1
}

type reqPlan struct {
	at, dur int64
	key     int
	withErr bool
	fails   bool
	nested  bool
}

type reqSys struct {
	r  *R
	m  requestI
	id Cell
}

// call makes one call, with a function that watches itself.
func (s *reqSys) call(c int, p reqPlan) {
	r := s.r
	id := s.id.Add(1) + 100
	h := r.Inv(c, qCall, int64(p.key), id, b2i(p.withErr))
	f := func(k int) (int64, error) {
		if k != p.key {
			r.failLater("argument", "the function was called with another key")
		}
		r.Obs(-1, qExec, int64(k), id, 0)
		Pause()
		if p.nested {
			// a function may use the map itself
			r.Probe(0)
			s.call(-1, reqPlan{key: k + 1, withErr: p.withErr, dur: p.dur / 2})
		}
		if p.dur > 0 {
			r.Fault(FSlowCallback)
			Sleep(p.dur)
		}
		var err error
		if p.fails && p.withErr {
			r.Fault(FLoaderErr)
			err = callErr(id)
		}
		Pause()
		r.Obs(-1, qExecEnd, int64(k), id, b2i(err != nil))
		return id, err
	}
	if p.withErr {
		v, err := s.m.GetOrCreateWithErr(p.key, f)
		r.Ret(h, v, errCode(err))
	} else {
		v := s.m.GetOrCreate(p.key, func(k int) int64 { v, _ := f(k); return v })
		r.Ret(h, v, 0)
	}
}

type execution struct {
	key, id, fails int64
	begin, end     Op
}

func executions(r *R) (map[int64]*execution, []*execution) {
	m := map[int64]*execution{}
	var l []*execution
	for _, o := range r.Sel(qExec, qExecEnd) {
		if o.K == qExec {
			if m[o.B] != nil {
				r.Fail("twice", "the function of call %d ran twice", o.B)
				return m, l
			}
			m[o.B] = &execution{key: o.A, id: o.B, begin: o}
			l = append(l, m[o.B])
		} else {
			m[o.B].end, m[o.B].fails = o, o.D
		}
	}
	return m, l
}

// checkRequests holds for every run.
func checkRequests(r *R, initial map[int64][2]int64) (map[int64]*execution, []*execution) {
	ex, list := executions(r)
	if r.Failed() {
		return ex, list
	}
	calls := map[int64]Op{}
	for _, o := range r.Sel(qCall) {
		calls[o.B] = o
	}
	for i, e := range list {
		c, ok := calls[e.id]
		if !ok || e.begin.Inv < c.Inv || (c.Ret != 0 && e.begin.Inv > c.Ret) {
			r.Fail("stray", "the function of call %d ran outside of its call", e.id)
			return ex, list
		}
		for _, f := range list[i+1:] {
			if f.key == e.key && (e.end.Inv == 0 || f.begin.Inv < e.end.Inv) {
				r.Fail("flights", "the functions of calls %d and %d ran at once for key %d", e.id, f.id, e.key)
				return ex, list
			}
		}
	}
	for _, o := range r.Sel(qCall) {
		if o.Ret == 0 {
			continue
		}
		e := ex[o.R]
		if e == nil {
			if in, ok := initial[o.A]; ok && in[0] == o.R {
				want := in[1]
				if o.D == 0 {
					want = 0
				}
				if want != o.R2 {
					r.Fail("value", "call %d of key %d returned error %d with the initial value; its error is %d", o.B, o.A, o.R2, want)
					return ex, list
				}
				continue
			}
			r.Fail("value", "call %d of key %d returned %d, which no function returned", o.B, o.A, o.R)
			return ex, list
		}
		if e.key != o.A || e.end.Inv == 0 || e.end.Inv > o.Ret {
			r.Fail("value", "call %d of key %d returned the value of call %d, whose function had not returned it for this key", o.B, o.A, e.id)
			return ex, list
		}
		want := int64(0)
		if o.D == 1 && e.fails == 1 {
			want = e.id
		}
		if want != o.R2 {
			r.Fail("value", "call %d returned error %d with the value of call %d; its function returned error %d", o.B, o.R2, e.id, want)
			return ex, list
		}
	}
	return ex, list
}

func requestInit(w *Chooser, keys int) (map[int64][2]int64, []requestInitial) {
	initial := map[int64][2]int64{}
	var l []requestInitial
	if w.Pct(40) {
		for i := 0; i < w.In(1, 2); i++ {
			k := w.N(keys)
			if _, dup := initial[int64(k)]; dup {
				continue
			}
			in := requestInitial{Key: k, Result: int64(i + 1)}
			code := int64(0)
			if w.Pct(40) {
				in.Err = callErr(50 + i)
				code = int64(50 + i)
			}
			initial[int64(k)] = [2]int64{in.Result, code}
			l = append(l, in)
		}
	}
	return initial, l
}

// requestShare: one result for everybody while results are kept.
func requestShare(r *R) {
	w := &r.W
	ctx, _ := r.Ctx()
	keys := w.In(1, 3)
	initial, ini := requestInit(w, keys)
	s := &reqSys{r: r}
	s.m = newRequest(r, ctx, time.Hour, ini...)
	nc := crowd(w, 2, 5, 20)
	r.Cfg("keys=%d clients=%d initial=%v", keys, nc, len(ini))
	for p := 0; p < nc; p++ {
		n := w.In(1, 4)
		plans := make([]reqPlan, n)
		for i := range plans {
			plans[i] = reqPlan{key: w.N(keys), withErr: w.Pct(60), fails: w.Pct(40), nested: w.Pct(10)}
			if w.Pct(40) {
				plans[i].dur = int64(w.In(1, 4)) * ms
			}
			if w.Pct(20) {
				plans[i].at = int64(w.In(1, 5)) * ms
			}
		}
		r.Go(func(c int) {
			for _, p := range plans {
				Sleep(p.at)
				s.call(c, p)
			}
		})
	}
	if w.Pct(30) {
		r.Go(func(c int) {
			for i := 0; i < 4; i++ {
				h := r.Inv(c, qCount, 0, 0, 0)
				r.Ret(h, int64(s.m.Count()), 0)
				Sleep(ms)
			}
		})
	}
	if !r.Wait(60000 * ms) {
		r.Fail("stuck", "a call does not return although its function did")
		return
	}
	r.Calm()
	r.Settle(ms)
	_, list := checkRequests(r, initial)
	if r.Failed() {
		return
	}
	n := map[int64]int{}
	for _, e := range list {
		n[e.key]++
		_, in := initial[e.key]
		if n[e.key] > 1 || in {
			r.Fail("again", "the function ran again for key %d although its result is kept for an hour", e.key)
			return
		}
	}
	for k := range initial {
		n[k]++
	}
	if got := s.m.Count(); got != len(n) {
		r.Fail("count", "Count is %d; results are kept for %d keys", got, len(n))
	}
}

// requestTTL: how long results are kept.
func requestTTL(r *R) {
	w := &r.W
	ctx, cancel := context.WithCancel(context.Background())
	r.Defer(cancel)
	keys, n := manyKeys(w, 4, 13)
	n++
	ttl := One(w, 150*ms, 30*ms, 100*ms, 333*ms, 1000*ms)
	initial, ini := requestInit(w, keys)
	s := &reqSys{r: r}
	s.m = newRequest(r, ctx, time.Duration(ttl), ini...)
	span := w.In(1, 4) * int(ttl/ms)
	r.Cfg("keys=%d ttl=%dms initial=%d", keys, ttl/ms, len(ini))
	for i := 0; i < n; i++ {
		p := reqPlan{key: w.N(keys), withErr: w.Pct(60), fails: w.Pct(40)}
		p.at = int64(w.N(span+200))*ms + int64(i)*1000
		if w.Pct(30) {
			p.at = int64(w.N(4)) * ttl // together
		}
		if w.Pct(40) {
			p.dur = int64(w.In(1, 60)) * ms
		}
		r.At(p.at, func(c int) { s.call(c, p) })
	}
	for i := 0; i < w.N(4); i++ {
		r.At(int64(w.N(span+400))*ms+500, func(c int) {
			h := r.Inv(c, qCount, 0, 0, 0)
			r.Ret(h, int64(s.m.Count()), 0)
		})
	}
	if !r.Wait(60000 * ms) {
		r.Fail("stuck", "a call does not return although its function did")
		return
	}
	r.Calm()
	ex, list := checkRequests(r, initial)
	if r.Failed() {
		return
	}
	slack := 150*ms + r.Stalled()
	for k := range initial {
		// as if executed at the beginning
		list = append([]*execution{{key: k, id: initial[k][0], begin: Op{Inv: 0}, end: Op{Inv: 1, T0: 0}}}, list...)
		ex[initial[k][0]] = list[0]
	}
	for i, e := range list {
		for _, f := range list[i+1:] {
			if f.key == e.key && f.begin.T0-e.end.T0 < ttl {
				r.Fail("early", "the function ran again for key %d %.3f ms after its last result; results are kept for %.3f ms", e.key, float64(f.begin.T0-e.end.T0)/1e6, float64(ttl)/1e6)
				return
			}
		}
	}
	for _, o := range r.Sel(qCall) {
		e := ex[o.R]
		if age := o.T0 - e.end.T0; age > ttl+slack {
			r.Fail("stale", "call %d got a result %.3f ms old; results are kept for %.3f ms", o.B, float64(age)/1e6, float64(ttl)/1e6)
			return
		}
		if !r.stalls {
			at := max(o.T0, e.end.T0)
			if o.T1 != at {
				r.Fail("late", "call %d returned at %.3f ms; its result was there at %.3f ms", o.B, float64(o.T1)/1e6, float64(at)/1e6)
				return
			}
		}
	}
	if !r.stalls {
		for _, o := range r.Sel(qCount) {
			lo, hi := map[int64]bool{}, map[int64]bool{}
			for _, e := range list {
				if e.begin.T0 < o.T0 && o.T0 < e.end.T0+ttl {
					lo[e.key] = true
				}
				if e.begin.T0 <= o.T0 && o.T0 <= e.end.T0+ttl+slack {
					hi[e.key] = true
				}
			}
			if int(o.R) < len(lo) || int(o.R) > len(hi) {
				r.Fail("count", "Count is %d at %.3f ms; between %d and %d keys are in use", o.R, float64(o.T0)/1e6, len(lo), len(hi))
				return
			}
		}
	}
	r.Settle(ttl + 150*ms)
	if c := s.m.Count(); c != 0 {
		r.Fail("leak", "%d results are still kept long after their time", c)
		return
	}
	cancel()
	r.Fault(FCancel)
	if l := r.Ended(1000 * ms); l != 0 {
		r.Fail("goroutines", "%d goroutines are left after cancellation", l)
	}
}

// timeoutCalls compares what calls with a time limit returned with what their functions did.
func timeoutCalls(r *R, shared bool, limit []int64) (list []*execution) {
	ex, l := executions(r)
	list = l
	if r.Failed() {
		return
	}
	for _, o := range r.Sel(qCall) {
		if o.R2 == 1 {
			r.Fault(FTimeout)
			if o.R != 0 {
				r.Fail("value", "call %d timed out and returned %d", o.B, o.R)
				return
			}
		}
		if shared {
			continue
		}
		e := ex[o.B]
		if e == nil {
			r.Fail("lost", "the function of call %d never ran", o.B)
			return
		}
		lim := limit[o.B-100]
		took := e.end.T0 - o.T0
		slack := r.Stalled()
		switch {
		case o.R2 == 1:
			if o.T1-o.T0 < lim {
				r.Fail("early", "call %d timed out after %.3f ms; its limit is %.3f ms", o.B, float64(o.T1-o.T0)/1e6, float64(lim)/1e6)
				return
			}
			if took+slack < lim {
				r.Fail("early", "call %d timed out although its function returned after %.3f ms; its limit is %.3f ms", o.B, float64(took)/1e6, float64(lim)/1e6)
				return
			}
		case o.R == o.B && o.R2 == e.fails*o.B:
			if took > lim+slack {
				r.Fail("late", "call %d returned a result that came after %.3f ms; its limit is %.3f ms", o.B, float64(took)/1e6, float64(lim)/1e6)
				return
			}
		default:
			r.Fail("value", "call %d returned (%d, %d)", o.B, o.R, o.R2)
			return
		}
		if o.T1-o.T0 > lim+slack {
			r.Fail("late", "call %d returned after %.3f ms; its limit is %.3f ms", o.B, float64(o.T1-o.T0)/1e6, float64(lim)/1e6)
			return
		}
	}
	return
}

// requestTimeout: Timeout, alone and inside GetOrCreateWithErr.
func requestTimeout(r *R) {
	w := &r.W
	ctx, cancel := context.WithCancel(context.Background())
	r.Defer(cancel)
	m := newRequest(r, ctx, time.Hour)
	s := &reqSys{r: r, m: m}
	n := w.In(1, 6)
	shared := w.Pct(50)
	limit := make([]int64, n+200)
	r.Cfg("calls=%d shared=%v", n, shared)
	lim0 := int64(w.In(1, 20)) * ms
	for i := 0; i < n; i++ {
		p := reqPlan{withErr: true, fails: w.Pct(40), at: int64(w.N(30)) * ms, dur: int64(w.N(30)) * ms}
		lim := lim0
		if !shared {
			p.key = i
			lim = int64(w.In(1, 20)) * ms
		}
		direct := !shared && w.Pct(50)
		r.At(p.at, func(c int) {
			id := s.id.Add(1) + 100
			h := r.Inv(c, qCall, int64(p.key), id, 1)
			limit[id-100] = lim
			f := m.Timeout(time.Duration(lim), func(k int) (int64, error) {
				if k != p.key {
					r.failLater("argument", "the function was called with another key")
				}
				r.Obs(-1, qExec, int64(k), id, 0)
				Pause()
				Sleep(p.dur)
				var err error
				if p.fails {
					err = callErr(id)
				}
				r.Obs(-1, qExecEnd, int64(k), id, b2i(err != nil))
				return id, err
			})
			var v int64
			var err error
			if direct {
				v, err = f(p.key)
			} else {
				v, err = m.GetOrCreateWithErr(p.key, f)
			}
			r.Ret(h, v, errCode(err))
		})
	}
	if !r.Wait(60000 * ms) {
		r.Fail("stuck", "a call does not return")
		return
	}
	r.Calm()
	r.Settle(1000 * ms)
	list := timeoutCalls(r, shared, limit)
	if r.Failed() {
		return
	}
	if shared {
		// one execution; everybody gets its outcome, or all time out
		if len(list) != 1 {
			r.Fail("flights", "the function ran %d times; its result is kept for an hour", len(list))
			return
		}
		var first Op
		for _, o := range r.Sel(qCall) {
			if first.Ret == 0 {
				first = o
			}
			if o.R != first.R || o.R2 != first.R2 {
				r.Fail("agreement", "calls %d and %d of one key got (%d, %d) and (%d, %d)", first.B, o.B, first.R, first.R2, o.R, o.R2)
				return
			}
		}
		e := list[0]
		took := e.end.T0 - e.begin.T0
		if !r.stalls && (first.R2 == 1) != (took > lim0) && took != lim0 {
			r.Fail("late", "the function took %.3f ms, the limit is %.3f ms, and the outcome is error %d", float64(took)/1e6, float64(lim0)/1e6, first.R2)
			return
		}
	}
	cancel()
	if l := r.Ended(1000 * ms); l != 0 {
		r.Fail("goroutines", "%d goroutines are left although all functions returned", l)
	}
}

// requestReuse: one function made by Timeout, called again and again and at the same time.
func requestReuse(r *R) {
	w := &r.W
	ctx, cancel := context.WithCancel(context.Background())
	r.Defer(cancel)
	m := newRequest(r, ctx, time.Hour)
	clients, each := w.In(1, 4), w.In(1, 5)
	lim := int64(w.In(1, 20)) * ms
	limit := make([]int64, clients*each)
	plan := make([]reqPlan, clients*each)
	direct := make([]bool, len(plan))
	for i := range plan {
		plan[i] = reqPlan{fails: w.Pct(40), at: int64(w.N(8)) * ms, dur: int64(w.N(30)) * ms}
		direct[i] = w.Pct(60)
		limit[i] = lim
	}
	r.Cfg("clients=%d each=%d limit=%d", clients, each, lim/ms)
	f := m.Timeout(time.Duration(lim), func(k int) (int64, error) {
		id := int64(k) + 100
		r.Obs(-1, qExec, int64(k), id, 0)
		Pause()
		Sleep(plan[k].dur)
		var err error
		if plan[k].fails {
			err = callErr(id)
		}
		r.Obs(-1, qExecEnd, int64(k), id, b2i(err != nil))
		return id, err
	})
	for cl := 0; cl < clients; cl++ {
		r.Go(func(c int) {
			for i := cl * each; i < (cl+1)*each; i++ {
				Sleep(plan[i].at)
				h := r.Inv(c, qCall, int64(i), int64(i)+100, 1)
				var v int64
				var err error
				if direct[i] {
					v, err = f(i)
				} else {
					v, err = m.GetOrCreateWithErr(i, f)
				}
				r.Ret(h, v, errCode(err))
			}
		})
	}
	if !r.Wait(60000 * ms) {
		r.Fail("stuck", "a call does not return")
		return
	}
	r.Calm()
	r.Settle(1000 * ms)
	timeoutCalls(r, false, limit)
	if r.Failed() {
		return
	}
	cancel()
	if l := r.Ended(1000 * ms); l != 0 {
		r.Fail("goroutines", "%d goroutines are left although all functions returned", l)
	}
}

func init() {
	for _, st := range []bool{false, true} {
		sfx := map[bool]string{false: "", true: "-stalls"}[st]
		reg(&Scenario{Prop: "C13", Name: "request-share" + sfx, Stalls: st, Names: requestNames, Probes: []string{"a function uses the map"}, Fn: requestShare})
		reg(&Scenario{Prop: "C14", Name: "request-ttl" + sfx, Stalls: st, Weight: 2 - int(b2i(st)), Names: requestNames, Fn: requestTTL})
		reg(&Scenario{Prop: "C15", Name: "request-timeout" + sfx, Stalls: st, Weight: 2 - int(b2i(st)), Names: requestNames, Fn: requestTimeout})
		reg(&Scenario{Prop: "C15", Name: "request-timeout-reuse" + sfx, Stalls: st, Names: requestNames, Fn: requestReuse})
	}
}
