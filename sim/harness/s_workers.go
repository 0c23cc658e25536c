package main

import (
	"context"
	"time"

	"github.com/axgrid/axutils/workers"
)

const (
	kSubmit = iota // A: task, B: 1 with context
	kStart         // A: task
	kFinish
	kStop // cancel
)

var runnerNames = []string{"submit", "task starts", "task ends", "cancel"}

type runnerState struct {
	r             *R
	running, most int64
	limit         int64
	started       [4096]uint8
}

//go:norace
func (s *runnerState) start(t int64) {
	s.r.Obs(-1, kStart, t, 0, 0)
	s.running++
	if s.running > s.most {
		s.most = s.running
	}
	if s.running > s.limit {
		s.r.failLater("concurrency", "more tasks run at once than there are workers")
	}
	s.started[t&4095]++
	if s.started[t&4095] > 1 {
		s.r.failLater("duplicate", "a task ran twice")
	}
}

//go:norace
func (s *runnerState) end(t int64) {
	s.running--
	s.r.Obs(-1, kFinish, t, 0, 0)
}

func runnerRun(r *R, exact, big bool) {
	w := &r.W
	n := w.In(1, 4)
	if big {
		n = One(w, 7, 12, 20, 40, 80)
	}
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), r, "mine"))
	r.Defer(cancel)
	b := workers.NewRunner().WithContext(ctx)
	if n == 4 && w.Pct(30) {
		n = 5 // the default
	} else {
		b.WithWorkerCount(n)
	}
	rn := b.Build()
	s := &runnerState{r: r, limit: int64(n)}
	rendezvous := w.Pct(35)
	flood := w.Pct(4)
	np := w.In(1, 3)
	if big {
		rendezvous = w.Pct(60)
		flood = w.Pct(30)
	}
	r.Cfg("workers=%d clients=%d rendezvous=%v flood=%v", n, np, rendezvous, flood)
	var meet, met *Cell
	gate := make(chan struct{})
	if rendezvous {
		meet, met = &Cell{}, &Cell{}
		r.Probe(0)
	}
	if flood {
		r.Probe(1)
	}
	task := func(t int64, d int64, wait bool) {
		s.start(t)
		if wait {
			// n tasks that wait for each other
			if meet.Add(1) == int64(n) {
				close(gate)
			}
			select {
			case <-gate:
				met.Add(1)
			case <-ctx.Done():
			}
		} else if d > 0 {
			Sleep(d)
		} else {
			Pause()
		}
		s.end(t)
	}
	submit := func(c int, t int64, withCtx bool, d int64, wait bool) {
		h := r.Inv(c, kSubmit, t, b2i(withCtx), 0)
		if withCtx {
			rn.RunWithContext(func(x context.Context) {
				if x == nil || x.Err() != nil || x.Value(r) != "mine" || x.Done() == nil {
					r.failLater("context", "a task got a context that is not the runner's")
				}
				task(t, d, wait)
			})
		} else {
			rn.Run(func() { task(t, d, wait) })
		}
		r.Ret(h, 0, 0)
	}
	for p := 0; p < np; p++ {
		k := w.In(1, 8)
		if big {
			k = w.In(5, 40)
		}
		if flood {
			k = 80
		}
		pause, dur, kind := make([]int64, k), make([]int64, k), make([]bool, k)
		for i := range pause {
			if !flood && w.Pct(30) {
				pause[i] = int64(w.In(1, 5000)) * 1000
			}
			if !flood && w.Pct(60) {
				dur[i] = int64(w.In(1, 9)) * ms
			}
			kind[i] = w.Pct(50)
		}
		r.Go(func(c int) {
			for i := 0; i < k; i++ {
				Sleep(pause[i])
				submit(c, int64(c*200+i+1), kind[i], dur[i], false)
			}
		})
	}
	if rendezvous {
		mix := w.N(8)
		r.Go(func(c int) {
			Sleep(int64(mix) * ms)
			for i := 0; i < n; i++ {
				submit(c, int64(3000+i), (mix>>(i%3))&1 == 1, 0, true)
			}
		})
	}
	if !r.Wait(int64(time.Minute)) {
		r.Fail("stuck", "submitting blocks for ever")
		return
	}
	r.Calm()
	r.Settle(int64(time.Second))
	if r.lclass != "" {
		return
	}
	if rendezvous && met.Get() != int64(n) {
		r.Fail("parallel", "%d tasks that wait for each other do not run at once on %d workers", n, n)
		return
	}
	// exactly once, to the end
	type span struct{ sub, start, end Op }
	tasks := map[int64]*span{}
	for _, o := range r.Ops() {
		t := tasks[o.A]
		if t == nil {
			t = &span{}
			tasks[o.A] = t
		}
		switch o.K {
		case kSubmit:
			t.sub = o
		case kStart:
			t.start = o
		case kFinish:
			t.end = o
		}
	}
	for id, t := range tasks {
		if t.start.Inv == 0 || t.end.Inv == 0 {
			r.Fail("lost", "task %d was accepted and never ran", id)
			return
		}
		if t.start.Inv < t.sub.Inv {
			r.Fail("early", "task %d ran before it was submitted", id)
			return
		}
	}
	if n == 1 {
		// one worker: tasks of one kind start in the order of submission
		var last [2]Op
		for _, o := range r.Sel(kStart) {
			s := tasks[o.A].sub
			if l := last[s.B]; l.Ret != 0 && s.Ret < l.Inv {
				r.Fail("order", "one worker: task %d was submitted before task %d and started after it", s.A, l.A)
				return
			}
			if l := last[s.B]; l.Ret == 0 || s.Inv > l.Inv {
				last[s.B] = s
			}
		}
	}
	if exact {
		ran := tasks2(r)
		// nobody waits while a worker is idle: for the whole time between acceptance and start all workers are busy
		for id, t := range tasks {
			if t.start.T0 <= t.sub.T1 {
				continue
			}
			for _, x := range []int64{t.sub.T1, t.start.T0 - 1} {
				if busyAt(ran, x) < n {
					r.Fail("idle", "task %d waited from %.3f to %.3f ms although a worker was free at %.3f ms", id, float64(t.sub.T1)/1e6, float64(t.start.T0)/1e6, float64(x)/1e6)
					return
				}
			}
			for _, u := range tasks {
				if u.end.T0 > t.sub.T1 && u.end.T0 < t.start.T0 && busyAt(ran, u.end.T0) < n {
					r.Fail("idle", "task %d waited from %.3f to %.3f ms although a worker was free at %.3f ms", id, float64(t.sub.T1)/1e6, float64(t.start.T0)/1e6, float64(u.end.T0)/1e6)
					return
				}
			}
		}
	}
}

// tasks2 lists when tasks ran.
func tasks2(r *R) [][2]int64 {
	at := map[int64]int64{}
	var out [][2]int64
	for _, o := range r.Sel(kStart, kFinish) {
		if o.K == kStart {
			at[o.A] = o.T0
		} else {
			out = append(out, [2]int64{at[o.A], o.T0})
		}
	}
	return out
}

// busyAt counts the tasks running at the end of instant x.
func busyAt(l [][2]int64, x int64) int {
	n := 0
	for _, s := range l {
		if s[0] <= x && x < s[1] {
			n++
		}
	}
	return n
}

// runnerBoth: however many tasks of one kind keep coming, those of the other kind get their turn.
func runnerBoth(r *R) {
	w := &r.W
	n := w.In(1, 3)
	ctx, cancel := context.WithCancel(context.Background())
	r.Defer(cancel)
	rn := workers.NewRunner().WithContext(ctx).WithWorkerCount(n).Build()
	busy, few := w.In(n+1, n+12), w.In(1, 3)
	dur := One(w, ms, 1000, 20*ms)
	swap := w.Pct(50) // which kind is the busy one
	r.Cfg("workers=%d busy=%d with-context=%v few=%d", n, busy, swap, few)
	limit := int64(400 * (few + 1))
	starts, left := &Cell{}, &Cell{}
	left.Add(int64(few))
	put := func(withCtx bool, f func()) {
		if withCtx {
			rn.RunWithContext(func(context.Context) { f() })
		} else {
			rn.Run(f)
		}
	}
	var again func()
	again = func() {
		k := starts.Add(1)
		if dur > 0 {
			Sleep(dur)
		} else {
			Pause()
		}
		if k >= limit {
			r.failLater("starved", "tasks of one kind do not start while tasks of the other kind keep coming")
			return
		}
		if left.Add(0) > 0 {
			put(swap, again)
		}
	}
	r.Go(func(c int) {
		for i := 0; i < busy; i++ {
			put(swap, again)
		}
		for i := 0; i < few; i++ {
			h := r.Inv(c, kSubmit, int64(i), b2i(!swap), 0)
			put(!swap, func() {
				r.Obs(-1, kStart, int64(i), 0, 0)
				left.Add(-1)
			})
			r.Ret(h, 0, 0)
		}
	})
	if !r.Wait(int64(time.Minute)) {
		r.Fail("stuck", "a submission is blocked although workers are free")
		return
	}
	r.Settle(limit*20*ms + 1000*ms)
	if r.Failed() {
		return
	}
	if x := left.Add(0); x != 0 {
		r.Fail("lost", "%d tasks never ran", x)
	}
}

func runnerCancel(r *R) {
	w := &r.W
	n := w.In(1, 4)
	ctx, cancel := context.WithCancel(context.Background())
	r.Defer(cancel)
	rn := workers.NewRunner().WithContext(ctx).WithWorkerCount(n).Build()
	s := &runnerState{r: r, limit: int64(n)}
	np := w.In(1, 3)
	full := w.Pct(50) // enough to fill the queue and block
	hang := w.Pct(50) // tasks that only end with the context
	r.Cfg("workers=%d clients=%d full=%v hang=%v", n, np, full, hang)
	ctxAlive := &Cell{}
	for p := 0; p < np; p++ {
		k := w.In(1, 10)
		if full {
			k = w.In(60, 130)
		}
		kinds := w.N(1 << 10)
		pause := int64(0)
		if !full {
			pause = int64(w.N(3000)) * 1000
		}
		r.Go(func(c int) {
			for i := 0; i < k; i++ {
				Sleep(pause)
				t := int64(c*200 + i + 1)
				withCtx := kinds>>(i%10)&1 == 1
				h := r.Inv(c, kSubmit, t, b2i(withCtx), 0)
				if withCtx {
					rn.RunWithContext(func(x context.Context) {
						s.start(t)
						if hang {
							r.Fault(FSlowCallback)
							<-x.Done() // the runner's context must reach the task
						} else {
							Sleep(ms)
						}
						s.end(t)
					})
				} else {
					rn.Run(func() {
						s.start(t)
						if hang {
							<-ctx.Done()
						} else {
							Sleep(ms)
						}
						s.end(t)
					})
				}
				r.Ret(h, 0, 0)
			}
		})
	}
	at := int64(w.N(30)) * ms / 2
	r.Go(func(c int) {
		Sleep(at)
		h := r.Inv(c, kStop, 0, 0, 0)
		cancel()
		r.Ret(h, 0, 0)
		r.Fault(FCancel)
	})
	_ = ctxAlive
	if !r.Wait(int64(time.Minute)) {
		r.Fail("stuck", "a submission is still blocked long after cancellation")
		return
	}
	r.Calm()
	// a worker that is done with its task sees the end of the context and another task and may take either, but not always the one
	if x := r.Sel(kStop); len(x) > 0 {
		late := 0
		for _, o := range r.Sel(kStart) {
			if o.T0 > x[0].T1 {
				late++
			}
		}
		if late > 60+20*n {
			r.Fail("drained", "%d tasks were started after the cancellation was over", late)
			return
		}
		if late > 0 {
			r.Probe(0)
		}
	}
	if l := r.Ended(int64(10 * time.Second)); l != 0 {
		r.Fail("leak", "%d goroutines are left long after cancellation", l)
	}
}

func init() {
	probes := []string{"as many tasks as workers wait for each other", "queue filled"}
	reg(&Scenario{Prop: "C06", Name: "runner", Weight: 3, Names: runnerNames, Probes: probes, Fn: func(r *R) { runnerRun(r, true, false) }})
	reg(&Scenario{Prop: "C06", Name: "runner-both", Names: runnerNames, Fn: runnerBoth})
	reg(&Scenario{Prop: "C06", Name: "runner-stalls", Weight: 1, Stalls: true, Names: runnerNames, Probes: probes, Fn: func(r *R) { runnerRun(r, false, false) }})
	reg(&Scenario{Prop: "C06", Name: "runner-big", Rare: true, Names: runnerNames, Probes: probes, Fn: func(r *R) { runnerRun(r, true, true) }})
	reg(&Scenario{Prop: "C06", Name: "runner-big-stalls", Rare: true, Stalls: true, Names: runnerNames, Probes: probes, Fn: func(r *R) { runnerRun(r, false, true) }})
	reg(&Scenario{Prop: "C07", Name: "runner-cancel", Names: runnerNames, Probes: []string{"tasks started after cancellation"}, Fn: runnerCancel})
	reg(&Scenario{Prop: "C07", Name: "runner-cancel-stalls", Stalls: true, Names: runnerNames, Probes: []string{"tasks started after cancellation"}, Fn: runnerCancel})
}
