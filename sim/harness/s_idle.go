package main

import (
	"context"
	"runtime"
	"time"

	"github.com/axgrid/axutils/chans"
	"github.com/axgrid/axutils/collections"
	"github.com/axgrid/axutils/workers"
)

// ---- C44: what has nothing to do sleeps ----------------------------------------------------
//
// An instance is brought into a state in which nothing can happen - empty, or with callers and
// callbacks that wait for each other or for something outside - and then watched for a long
// time: it may run a little whenever a timer it was given fires, and not otherwise.

// idler is an instance and its state.
type idler struct {
	r      *R
	gate   chan struct{} // callbacks and others wait here until the watch is over
	ctx    context.Context
	cancel func()
	tick   int64 // the interval of its timers, 0: none
	tickN  int64 // how many of them
	events int64 // timeouts of entries that may still come
	free   func()
}

const (
	idOp = iota
	idWait
	idFunc
)

var idleNames = []string{"operation", "operation that waits", "function"}

// holds is what a callback does that does not return for the time being.
func (d *idler) holds() {
	d.r.Fault(FSlowCallback)
	o := d.r.Inv(-1, idFunc, 0, 0, 0)
	<-d.gate
	d.r.Ret(o, 0, 0)
}

// does lets a client do something.
func (d *idler) does(f func()) {
	d.r.Go(func(c int) {
		o := d.r.Inv(c, idOp, 0, 0, 0)
		f()
		d.r.Ret(o, 0, 0)
	})
}

func idle(r *R, f func(d *idler)) {
	d := &idler{r: r, gate: make(chan struct{})}
	d.ctx, d.cancel = r.Ctx()
	f(d)
	r.Settle(10*d.tick + 500*ms)
	w := int64(One(&r.W, 10*time.Second, time.Hour, 50*time.Hour))
	if d.tick > 0 {
		w = d.tick * One(&r.W, int64(20), 200, 1000)
	}
	y0 := runtime.AxStatsNow().Yields
	r.Settle(w)
	did := int64(runtime.AxStatsNow().Yields - y0)
	n := d.events
	if d.tick > 0 {
		n += (w/d.tick + 2) * d.tickN
	}
	if max := 200 + 60*n; did > max {
		r.Fail("busy", "%d statements were executed in %.0f ms in which nothing happened but %d timers", did, msec(w), n)
		return
	}
	close(d.gate)
	if d.free != nil {
		d.free()
	}
	r.Settle(1000 * ms)
	d.cancel()
	if !r.Wait(int64(1000 * time.Hour)) {
		r.Fail("stuck", "an operation does not return")
		return
	}
}

// closedChan is an incoming channel with something in it that is closed already; nil: none.
func (d *idler) closedChan() chan int {
	w := &d.r.W
	n := w.N(12)
	if !w.Pct(25) {
		return nil
	}
	d.r.Fault(FClosed)
	c := make(chan int, n)
	for i := 0; i < n; i++ {
		c <- i
	}
	close(c)
	return c
}

func idleChunk(d *idler) {
	w := &d.r.W
	d.tick = One(w, 3*ms, 50*ms, 2000*ms)
	d.tickN = 1
	b := chans.NewChunkChan[int]().WithContext(d.ctx).WithChunkSize(w.In(1, 4)).WithChunkTimeout(time.Duration(d.tick)).WithIncomingBufferSize(w.N(3)).WithOutgoingBufferSize(w.N(3))
	mode := w.N(4)
	d.r.Cfg("mode=%d", mode)
	if mode == 0 {
		b.WithChunkFunc(func([]int) { d.holds() })
	} else if mode == 1 {
		b.WithChunkFunc(func([]int) {})
	}
	closed := d.closedChan()
	if closed != nil {
		b.WithIncomingChan(closed)
	}
	c := b.Build()
	if mode == 2 {
		d.does(func() {
			for {
				select {
				case <-d.gate:
					return
				case <-c.C():
				}
			}
		})
	}
	for i, n := 0, w.N(4); i < n && closed == nil; i++ {
		m := w.In(1, 12)
		d.does(func() {
			for j := 0; j < m; j++ {
				c.Add(j)
			}
		})
	}
}

func idleShard(d *idler) {
	w := &d.r.W
	hold := w.Pct(50)
	n := w.In(1, 3)
	k := w.In(1, 4)
	slow := w.Pct(20)
	b := chans.NewShardChan[int]().WithContext(d.ctx).WithShardCount(k).WithIncomingBufferSize(w.N(3)).WithOutgoingBufferSize(w.N(3)).WithShardFunc(func(v int) int {
		if slow && v == 2 {
			d.holds()
		}
		return v
	})
	if w.Pct(70) {
		b.WithWorkerFunc(func(int, int) {
			if hold {
				d.holds()
			}
		})
	}
	closed := d.closedChan()
	if closed != nil {
		b.WithIncomingChan(closed)
	}
	c, err := b.Build()
	if err != nil {
		d.r.Fail("build", "Build failed: %v", err)
		return
	}
	for i := 0; i < n && closed == nil; i++ {
		m := w.In(0, 12)
		d.does(func() {
			for j := 0; j < m; j++ {
				c.Add(j)
			}
		})
	}
}

func idleShardChunk(d *idler) {
	w := &d.r.W
	d.tick = One(w, 3*ms, 50*ms, 2000*ms)
	k := w.In(1, 4)
	d.tickN = int64(k)
	hold := w.Pct(50)
	b := chans.NewShardChunk[int]().WithContext(d.ctx).WithShardCount(k).WithChunkSize(w.In(1, 3)).WithChunkTimeout(time.Duration(d.tick)).WithIncomingBufferSize(w.N(9)).WithOutgoingBufferSize(w.N(3)).WithShardFunc(func(v int) int { return v })
	if w.Pct(70) {
		b.WithShardWorker(func(int, []int) {
			if hold {
				d.holds()
			}
		})
	}
	closed := d.closedChan()
	if closed != nil {
		b.WithIncomingChan(closed)
	}
	c, err := b.Build()
	if err != nil {
		d.r.Fail("build", "Build failed: %v", err)
		return
	}
	for i, n := 0, w.In(0, 3); i < n && closed == nil; i++ {
		m := w.In(1, 12)
		d.does(func() {
			for j := 0; j < m; j++ {
				c.Add(j)
			}
		})
	}
}

func idleRunner(d *idler) {
	w := &d.r.W
	c := workers.NewRunner().WithContext(d.ctx).WithWorkerCount(w.In(1, 4)).Build()
	hold := w.Pct(60)
	for i, n := 0, w.N(4); i < n; i++ {
		m, with := w.In(1, 70), w.Pct(50)
		d.does(func() {
			for j := 0; j < m; j++ {
				f := func() {
					if hold {
						<-d.gate
					}
				}
				if with {
					c.RunWithContext(func(context.Context) { f() })
				} else {
					c.Run(f)
				}
			}
		})
	}
}

func idleGuava(d *idler) {
	w := &d.r.W
	rt, wt := One(w, int64(0), 0, 20*ms, int64(10*time.Minute)), One(w, int64(0), 0, 20*ms, int64(10*time.Minute))
	hold := w.Pct(70)
	m := collections.NewGuavaMap[int, int]().WithContext(d.ctx).WithMaxCount(One(w, 0, 0, 2)).WithReadTimeout(time.Duration(rt)).WithWriteTimeout(time.Duration(wt)).WithLockLoad(w.Pct(60)).
		WithLoadFunc(func(k int) (int, error) {
			if hold && k < 2 {
				d.holds()
			}
			return k, nil
		}).
		WithUnloadFunc(func(k, v int) {
			if hold {
				<-d.gate
			}
		}).Build()
	for i, n := 0, w.In(1, 6); i < n; i++ {
		op, k := w.N(6), w.N(4)
		d.events += 3
		d.does(func() {
			switch op {
			case 0, 1:
				m.Get(k)
			case 2:
				m.LockForUpdate(k, func() int {
					if hold {
						d.holds()
					}
					return k
				})
			case 3:
				m.Set(k, k)
			case 4:
				m.HasOrCreate(k, k)
			case 5:
				m.Delete(k)
			}
		})
	}
}

func idleRequest(d *idler) {
	w := &d.r.W
	m := collections.NewRequestMap[int, int](d.ctx, time.Duration(One(w, ms, int64(time.Hour), 1000*int64(time.Hour))))
	d.tick, d.tickN = 100*ms, 1
	hold := w.Pct(70)
	for i, n := 0, w.N(6); i < n; i++ {
		op, k := w.N(3), w.N(3)
		f := func(k int) (int, error) {
			if hold && k < 2 {
				d.holds()
			}
			return k, nil
		}
		d.does(func() {
			switch op {
			case 0:
				m.GetOrCreate(k, func(k int) int { v, _ := f(k); return v })
			case 1:
				m.GetOrCreateWithErr(k, f)
			case 2:
				m.Timeout(1000*time.Hour, f)(k)
			}
		})
	}
}

func idleResponse(d *idler) {
	w := &d.r.W
	d.tick, d.tickN = One(w, 5*ms, 1000*ms), 1
	m := collections.NewResponseMap[int, int](d.ctx).WithResponseTimeout(time.Duration(One(w, ms, int64(time.Hour), 1000*int64(time.Hour)))).WithClearTimeout(time.Duration(d.tick)).Build()
	for i, n := 0, w.N(6); i < n; i++ {
		set, k := w.Pct(30), w.N(3)
		d.events += 2
		d.does(func() {
			if set {
				m.Set(k, 1)
			} else {
				m.Wait(k)
			}
		})
	}
}

func idleWait(d *idler) {
	w := &d.r.W
	long := 1000 * int64(time.Hour)
	m := collections.NewWaitMap[int, int]().WithContext(d.ctx).WithRequestTimeout(time.Duration(One(w, 10*ms, int64(time.Minute), long))).WithResponseTtl(time.Duration(One(w, 10*ms, int64(time.Minute), long))).Build()
	for i, n := 0, w.N(6); i < n; i++ {
		set, k := w.Pct(30), w.N(3)
		d.events += 3
		d.does(func() {
			if set {
				m.Set(k, 1)
			} else {
				m.Wait(k)
			}
		})
	}
}

func idleHolder(d *idler) {
	w := &d.r.W
	long := 1000 * int64(time.Hour)
	m := collections.NewHolderMap[int, int]().WithContext(d.ctx).WithTimeout(time.Duration(One(w, 10*ms, int64(time.Minute), long))).WithTTL(time.Duration(One(w, 10*ms, int64(time.Minute), long))).Build()
	for i, n := 0, w.N(6); i < n; i++ {
		op, k := w.W(5, 1, 1), w.N(3)
		d.events += 3
		d.does(func() {
			switch op {
			case 0:
				m.Wait(k, 1)
			case 1:
				m.Release(k)
			case 2:
				m.Update(k, 2)
			}
		})
	}
}

func idleUniq(d *idler) {
	w := &d.r.W
	d.tick, d.tickN = One(w, 2*ms, 100*ms, 1000*ms), 1
	m := collections.NewStructUniqSet[int]().WithContext(d.ctx).WithElementTtl(time.Duration(One(w, ms, int64(time.Second), 1000*int64(time.Hour)))).WithCheckInterval(time.Duration(d.tick)).
		WithBuildFunc(func(v int, _ ...any) (h [16]byte, err error) {
			if v == 3 {
				d.holds()
			}
			h[0] = byte(v)
			return
		}).Build()
	for i, n := 0, w.N(6); i < n; i++ {
		op, v := w.N(3), w.N(4)
		d.does(func() {
			switch op {
			case 0, 1:
				m.Add(v)
			case 2:
				m.Remove(v)
			}
		})
	}
}

func idleLocks(d *idler) {
	w := &d.r.W
	m := collections.NewMapMutex[int]()
	rw := collections.NewMapRWMutex[int]()
	for i, n := 0, w.N(7); i < n; i++ {
		op, k := w.N(3), w.N(2)
		d.does(func() {
			switch op {
			case 0:
				m.Lock(k)
				<-d.gate
				m.Unlock(k)
			case 1:
				rw.Lock(k)
				<-d.gate
				rw.Unlock(k)
			case 2:
				rw.RLock(k)
				<-d.gate
				rw.RUnlock(k)
			}
		})
	}
}

func idleMaps(d *idler) {
	w := &d.r.W
	m := collections.NewSimpleMap[int, int]()
	n := w.In(1, 4)
	hold := w.Pct(70)
	for i, n := 0, n; i < n; i++ {
		op, k := w.N(4), w.N(2)
		d.does(func() {
			switch op {
			case 0, 1:
				m.SetIfNotExistsWithFunc(k, func() int {
					if hold {
						d.holds()
					}
					return 1
				})
			case 2:
				m.Get(k)
			case 3:
				m.Set(k, 1)
			}
		})
	}
}

func init() {
	for _, x := range []struct {
		name string
		f    func(*idler)
	}{
		{"idle-chunk", idleChunk}, {"idle-shard", idleShard}, {"idle-shardchunk", idleShardChunk}, {"idle-runner", idleRunner},
		{"idle-guava", idleGuava}, {"idle-request", idleRequest}, {"idle-response", idleResponse}, {"idle-wait", idleWait},
		{"idle-holder", idleHolder}, {"idle-uniq", idleUniq}, {"idle-locks", idleLocks}, {"idle-map", idleMaps},
	} {
		reg(&Scenario{Prop: "C44", Name: x.name, Weight: 2, Names: idleNames, Fn: func(r *R) { idle(r, x.f) }})
	}
}
