package main

import (
	"context"
	"time"

	"github.com/axgrid/axutils/chans"
	"github.com/axgrid/axutils/collections"
	"github.com/axgrid/axutils/flow"
	"github.com/axgrid/axutils/workers"
)

// ---- C43: the functions given to a component may use it ----------------------------------

// inside plans what functions do with the component that called them.
type inside struct {
	r      *R
	plan   [64][4]int64
	next   Cell
	budget Cell // operations from within functions that are still to come
	cancel func()
	gone   Cell  // the context was cancelled
	cancAt int64 // the function with this number cancels; -1: none
	added  Cell
	chain  bool // every function does something
}

func newInside(r *R) (s *inside, ctx context.Context) {
	w := &r.W
	s = &inside{r: r, cancAt: -1}
	for i := range s.plan {
		for j := range s.plan[i] {
			s.plan[i][j] = int64(w.N(64))
		}
	}
	s.budget.Set(int64(w.In(0, 20)))
	if w.Pct(20) {
		s.cancAt = int64(w.N(6))
	}
	ctx, s.cancel = r.Ctx()
	return
}

// act returns what the next function call does; n: how many operations.
func (s *inside) act() (n int, p [4]int64) {
	i := s.next.Add(1) - 1
	p = s.plan[i%int64(len(s.plan))]
	if i == s.cancAt {
		s.gone.Set(1)
		s.r.Fault(FCancel)
		s.cancel()
	}
	max := int(p[3] % 4)
	if s.chain && max == 0 {
		max = 1
	}
	for n = 0; n < max; n++ {
		if s.budget.Add(-1) < 0 {
			break
		}
		s.r.Probe(0)
	}
	Sleep(int64(p[2]%3) * (p[2] / 3 % 2) * ms)
	return
}

// over waits for the clients.
func (s *inside) over() bool {
	if !s.r.Wait(100000 * ms) {
		s.r.Fail("stuck", "an operation does not return")
		return false
	}
	s.r.Settle(100 * ms)
	return !s.r.Failed()
}

// ends checks that nothing hangs on.
func (s *inside) ends(what string) {
	s.r.Calm()
	s.cancel()
	if l := s.r.Ended(int64(time.Minute)); l != 0 {
		s.r.Fail("goroutines", "%d goroutines of the %s are left", l, what)
	}
}

var insideGuavaNames = []string{"Get", "Set", "Has", "HasOrCreate", "Delete", "LockForUpdate", "Size", "GetStored", "Clear", "load", "unload", "update"}

func insideGuava(r *R) {
	w := &r.W
	s, ctx := newInside(r)
	const keys = 4
	b := newGuava(r).WithContext(ctx)
	maxn := One(w, 0, 0, 1, 2)
	rt, wt := One(w, int64(0), 0, 3*ms), One(w, int64(0), 0, 3*ms)
	load, lock, unload := w.Pct(70), w.Pct(60), w.Pct(60)
	r.Cfg("max=%d read=%.0fms write=%.0fms load=%v lock=%v unload=%v", maxn, msec(rt), msec(wt), load, lock, unload)
	b.WithMaxCount(maxn).WithReadTimeout(time.Duration(rt)).WithWriteTimeout(time.Duration(wt)).WithLockLoad(lock)
	var m guavaI
	var id Cell
	val := func(k int) int64 { return id.Add(1)*keys + int64(k) }
	check := func(k int, v int64) {
		if v != 0 && int(v%keys) != k {
			r.failLater("value", "a value of another key came out")
		}
	}
	var do func(c int, op int64, k, locks int)
	// locks is how far down the order of the locks we are: update k, load k, update k-1, load k-1, ...
	within := func(kind uint8, k int, locks int) {
		o := r.Inv(-1, kind, int64(k), 0, 0)
		n, p := s.act()
		for i := 0; i < n; i++ {
			op, k2 := (p[0]>>(2*i))%9, int(p[1]>>(2*i))%keys
			do(-1, op, k2, locks)
		}
		r.Ret(o, int64(n), 0)
	}
	do = func(c int, op int64, k, locks int) {
		switch op {
		case 0:
			if load && 2*k+1 > locks {
				op = 2
			}
		case 5:
			if 2*k+2 > locks {
				op = 1
			}
		}
		o := r.Inv(c, uint8(op), int64(k), 0, 0)
		switch op {
		case 0:
			v, _ := m.Get(k)
			check(k, v)
			r.Ret(o, v, 0)
		case 1:
			m.Set(k, val(k))
			r.Ret(o, 0, 0)
		case 2:
			r.Ret(o, b2i(m.Has(k)), 0)
		case 3:
			r.Ret(o, b2i(m.HasOrCreate(k, val(k))), 0)
		case 4:
			m.Delete(k)
			r.Ret(o, 0, 0)
		case 5:
			v := m.LockForUpdate(k, func() int64 {
				within(11, k, 2*k+1)
				return val(k)
			})
			check(k, v)
			r.Ret(o, v, 0)
		case 6:
			r.Ret(o, int64(m.Size()), 0)
		case 7:
			l := m.GetStored()
			for k, v := range l {
				check(k, v)
			}
			r.Ret(o, int64(len(l)), 0)
		case 8:
			m.Clear()
			r.Ret(o, 0, 0)
		}
	}
	if load {
		b.WithLoadFunc(func(k int) (int64, error) {
			within(9, k, 2*k)
			if s.plan[k][0]%5 == 0 {
				r.Fault(FLoaderErr)
				return 0, errIndep
			}
			return val(k), nil
		})
	}
	if unload {
		b.WithUnloadFunc(func(k int, v int64) {
			check(k, v)
			within(10, k, 2*keys)
		})
	}
	m = b.Build()
	for i, n := 0, w.In(1, 4); i < n; i++ {
		l := make([][3]int64, w.In(1, 5))
		for j := range l {
			l[j] = [3]int64{int64(w.W(4, 3, 1, 2, 2, 4, 1, 1, 1)), int64(w.N(keys)), int64(w.N(3)) * ms}
		}
		r.Go(func(c int) {
			for _, x := range l {
				do(c, x[0], int(x[1]), 2*keys)
				Sleep(x[2])
			}
		})
	}
	if s.over() {
		s.ends("GuavaMap")
	}
}

var insideRequestNames = []string{"GetOrCreate", "GetOrCreateWithErr", "Timeout", "Count", "f"}

func insideRequest(r *R) {
	w := &r.W
	s, ctx := newInside(r)
	keys := One(w, 4, 4, 12, 40)
	s.chain = w.Pct(40)
	if s.chain {
		s.budget.Set(int64(w.In(0, 100)))
	}
	m := newRequest(r, ctx, time.Duration(One(w, ms, 150*ms)))
	var id Cell
	var do func(c int, op int64, k, below int)
	do = func(c int, op int64, k, below int) {
		if k >= below {
			if below == 0 {
				op = 3
			} else {
				k %= below
			}
		}
		f := func(k2 int) (int64, error) {
			if k2 != k {
				r.failLater("key", "a function was called for another key")
			}
			o := r.Inv(-1, 4, int64(k), 0, 0)
			n, p := s.act()
			for i := 0; i < n; i++ {
				k2, op := int(p[1]>>(2*i))%keys, (p[0]>>(2*i))%4
				if s.chain && i == 0 && k > 0 {
					k2, op = k-1, op%3
				}
				do(-1, op, k2, k)
			}
			r.Ret(o, int64(n), 0)
			return id.Add(1)*int64(keys) + int64(k), nil
		}
		o := r.Inv(c, uint8(op), int64(k), 0, 0)
		v, err := int64(k), error(nil)
		switch op {
		case 0:
			v = m.GetOrCreate(k, func(k int) int64 { v, _ := f(k); return v })
		case 1:
			v, err = m.GetOrCreateWithErr(k, f)
		case 2:
			v, err = m.Timeout(10*time.Hour, f)(k)
		case 3:
			v = int64(k)
			m.Count()
		}
		if err != nil || int(v%int64(keys)) != k {
			r.failLater("value", "the result is not that of a function for the key")
		}
		r.Ret(o, v, 0)
	}
	for i, n := 0, w.In(1, 4); i < n; i++ {
		l := make([][3]int64, w.In(1, 4))
		for j := range l {
			l[j] = [3]int64{int64(w.W(4, 4, 2, 1)), int64(w.N(keys)), int64(w.N(3)) * 60 * ms}
		}
		r.Go(func(c int) {
			for _, x := range l {
				do(c, x[0], int(x[1]), keys)
				Sleep(x[2])
			}
		})
	}
	if s.over() {
		s.ends("RequestMap")
	}
}

// insidePipe is for what takes items and hands them to functions, which add further items.
// Every item comes out once.
type insidePipe struct {
	*inside
	what string
	out  [256]Cell
	busy Cell // functions under way
	add  func(v int64)
	look func() // a harmless operation
}

const (
	ipAdd = iota
	ipFunc
)

var insidePipeNames = []string{"add", "function"}

func (s *insidePipe) put(c int) {
	v := s.added.Add(1)
	o := s.r.Inv(c, ipAdd, v, 0, 0)
	s.add(v)
	s.r.Ret(o, 0, 0)
}

// got is what the function does with an item.
func (s *insidePipe) got(vs ...int64) {
	o := s.r.Inv(-1, ipFunc, vs[0], int64(len(vs)), 0)
	s.busy.Add(1)
	for _, v := range vs {
		if s.out[v&255].Add(1) != 1 {
			s.r.failLater("twice", "an item came out twice")
		}
	}
	n, p := s.act()
	for i := 0; i < n; i++ {
		if (p[0]>>(2*i))%4 == 0 {
			s.look()
		} else {
			s.put(-1)
		}
	}
	s.busy.Add(-1)
	s.r.Ret(o, int64(n), 0)
}

func (s *insidePipe) run() {
	r, w := s.r, &s.r.W
	for i, n := 0, w.In(1, 3); i < n; i++ {
		l := make([]int64, w.In(1, 8))
		for j := range l {
			l[j] = int64(w.W(5, 1, 1)) * 7 * ms
		}
		r.Go(func(c int) {
			for _, d := range l {
				s.put(c)
				Sleep(d)
			}
		})
	}
	if !s.over() {
		return
	}
	// Whatever was added has time to come out, and so has what is added then.
	r.Calm()
	came := func() (n int64) {
		for v := int64(1); v <= s.added.Get(); v++ {
			n += s.out[v&255].Get()
		}
		return
	}
	for last, at := came(), r.Now(); s.gone.Get() == 0 && (last < s.added.Get() || s.busy.Get() > 0) && r.Now() < at+10000*ms; {
		r.Settle(50 * ms)
		if n := came(); n != last {
			last, at = n, r.Now()
		}
	}
	if s.gone.Get() == 0 {
		for v := int64(1); v <= s.added.Get(); v++ {
			if s.out[v&255].Get() != 1 {
				r.Fail("lost", "item %d of %d did not reach the function", v, s.added.Get())
				return
			}
		}
	}
	s.ends(s.what)
}

// insideBuffers draws sizes of which one has room for everything, so that functions that add
// cannot fill what they empty.
func insideBuffers(w *Chooser) (in, out int) {
	if w.Pct(50) {
		return 200, One(w, 0, 1, 100)
	}
	return One(w, 0, 1, 3), 100
}

func insideChunk(r *R) {
	w := &r.W
	in, ctx := newInside(r)
	bin, bout := insideBuffers(w)
	s := &insidePipe{inside: in, what: "ChunkChan"}
	var c *chans.ChunkChan[int64]
	ready := make(chan struct{})
	c = chans.NewChunkChan[int64]().WithContext(ctx).WithChunkSize(One(w, 1, 2, 3, 10)).WithChunkTimeout(time.Duration(w.In(1, 20)*5) * time.Millisecond).WithIncomingBufferSize(bin).WithOutgoingBufferSize(bout).
		WithChunkFunc(func(l []int64) {
			<-ready
			s.got(append([]int64(nil), l...)...)
		}).Build()
	s.add = c.Add
	s.look = func() { c.Sizes() }
	close(ready)
	s.run()
}

func insideShard(r *R) {
	w := &r.W
	in, ctx := newInside(r)
	bin, bout := insideBuffers(w)
	s := &insidePipe{inside: in, what: "ShardChan"}
	ready := make(chan struct{})
	var c *chans.ShardChan[int64]
	c, err := chans.NewShardChan[int64]().WithContext(ctx).WithShardCount(w.In(1, 4)).WithIncomingBufferSize(bin).WithOutgoingBufferSize(bout).
		WithShardFunc(func(v int64) int {
			<-ready
			c.Sizes()
			return int(v) * c.ShardCount() * 3 / 2
		}).
		WithWorkerFunc(func(k int, v int64) { s.got(v) }).Build()
	if err != nil {
		r.Fail("build", "Build failed: %v", err)
		return
	}
	s.add = func(v int64) {
		if err := c.Add(v); err != nil && s.gone.Get() == 0 {
			r.failLater("error", "Add failed")
		}
	}
	s.look = func() { c.Sizes() }
	close(ready)
	s.run()
}

func insideShardChunk(r *R) {
	w := &r.W
	in, ctx := newInside(r)
	bin, bout := insideBuffers(w)
	s := &insidePipe{inside: in, what: "ShardChunk"}
	ready := make(chan struct{})
	var c *chans.ShardChunk[int64]
	c, err := chans.NewShardChunk[int64]().WithContext(ctx).WithShardCount(w.In(1, 4)).WithChunkSize(One(w, 1, 2, 5)).WithChunkTimeout(time.Duration(w.In(1, 20)*5) * time.Millisecond).WithIncomingBufferSize(bin).WithOutgoingBufferSize(bout).
		WithShardFunc(func(v int64) int {
			<-ready
			c.Sizes()
			return int(v) % c.ShardCount()
		}).
		WithShardWorker(func(k int, l []int64) { s.got(append([]int64(nil), l...)...) }).Build()
	if err != nil {
		r.Fail("build", "Build failed: %v", err)
		return
	}
	s.add = func(v int64) {
		if err := c.Add(v); err != nil && s.gone.Get() == 0 {
			r.failLater("error", "Add failed")
		}
	}
	s.look = func() { c.Sizes() }
	close(ready)
	s.run()
}

func insideRunner(r *R) {
	w := &r.W
	in, ctx := newInside(r)
	s := &insidePipe{inside: in, what: "Runner"}
	c := workers.NewRunner().WithContext(ctx).WithWorkerCount(w.In(1, 3)).Build()
	s.add = func(v int64) {
		if v%2 == 0 {
			c.Run(func() { s.got(v) })
		} else {
			c.RunWithContext(func(ctx context.Context) { s.got(v) })
		}
	}
	s.look = func() {}
	s.run()
}

var insideUniqNames = []string{"Add", "Has", "Remove", "Count", "hash"}

func insideUniq(r *R) {
	w := &r.W
	s, ctx := newInside(r)
	var m *collections.StructUniqSet[int]
	var do func(c int, op int64, v int)
	b := collections.NewStructUniqSet[int]().WithContext(ctx).WithElementTtl(time.Duration(One(w, 3, 10000)) * time.Millisecond).WithCheckInterval(time.Duration(w.In(1, 10)) * time.Millisecond)
	b.WithBuildFunc(func(v int, _ ...any) (h [16]byte, err error) {
		o := r.Inv(-1, 4, int64(v), 0, 0)
		n, p := s.act()
		for i := 0; i < n; i++ {
			do(-1, (p[0]>>(2*i))%4, int(p[1]>>(2*i))%4)
		}
		r.Ret(o, int64(n), 0)
		h[0] = byte(v)
		return
	})
	m = b.Build()
	do = func(c int, op int64, v int) {
		o := r.Inv(c, uint8(op), int64(v), 0, 0)
		ok, err := false, error(nil)
		switch op {
		case 0:
			ok, err = m.Add(v)
		case 1:
			ok, err = m.Has(v)
		case 2:
			ok, err = m.Remove(v)
		case 3:
			m.Count()
		}
		if err != nil {
			r.failLater("error", "an error nobody gave")
		}
		r.Ret(o, b2i(ok), 0)
	}
	for i, n := 0, w.In(1, 4); i < n; i++ {
		l := make([][3]int64, w.In(1, 5))
		for j := range l {
			l[j] = [3]int64{int64(w.W(4, 3, 2, 1)), int64(w.N(4)), int64(w.N(3)) * ms}
		}
		r.Go(func(c int) {
			for _, x := range l {
				do(c, x[0], int(x[1]))
				Sleep(x[2])
			}
		})
	}
	if s.over() {
		s.ends("StructUniqSet")
	}
}

func insideFlow(r *R) {
	w := &r.W
	s, _ := newInside(r)
	var f func(ev int, sum *int64) error
	var steps Cell
	nr := w.In(1, 3)
	b := flow.NewProcessor[int, *int64]()
	for i := 0; i < nr; i++ {
		b.RouteOn(func(ev int) bool { return ev >= 0 }, func(ev int, sum *int64) error {
			steps.Add(1)
			*sum += int64(ev)
			n, p := s.act()
			for i := 0; i < n && ev > 0; i++ {
				var in int64
				o := r.Inv(-1, ipAdd, int64(ev), 0, 0)
				if f(int(p[0]>>(2*i))%ev, &in) != nil {
					r.failLater("error", "an error nobody gave")
				}
				r.Ret(o, in, 0)
			}
			return nil
		})
	}
	f = b.Build()
	for i, n := 0, w.In(1, 4); i < n; i++ {
		evs := make([]int, w.In(1, 4))
		for j := range evs {
			evs[j] = w.N(4)
		}
		r.Go(func(c int) {
			for _, ev := range evs {
				var sum int64
				o := r.Inv(c, ipAdd, int64(ev), 0, 0)
				err := f(ev, &sum)
				r.Ret(o, sum, 0)
				if err != nil || sum != int64(ev*nr) {
					r.failLater("result", "processing an event within another changed its result")
				}
			}
		})
	}
	s.over()
}

func init() {
	for _, x := range []struct {
		name   string
		weight int
		names  []string
		f      func(*R)
	}{
		{"inside-guava", 5, insideGuavaNames, insideGuava},
		{"inside-request", 2, insideRequestNames, insideRequest},
		{"inside-chunk", 2, insidePipeNames, insideChunk},
		{"inside-shard", 2, insidePipeNames, insideShard},
		{"inside-shardchunk", 2, insidePipeNames, insideShardChunk},
		{"inside-runner", 2, insidePipeNames, insideRunner},
		{"inside-uniq", 1, insideUniqNames, insideUniq},
		{"inside-flow", 1, insidePipeNames, insideFlow},
	} {
		for _, stalls := range []bool{false, true} {
			name := x.name
			if stalls {
				name += "-stalls"
			}
			reg(&Scenario{Prop: "C43", Name: name, Weight: x.weight, Stalls: stalls, Names: x.names, Probes: []string{"operation from within a function"}, Fn: x.f})
		}
	}
}
