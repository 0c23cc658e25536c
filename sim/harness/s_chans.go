package main

import (
	"context"
	"maps"
	"math"
	"slices"
	"time"

	"github.com/axgrid/axutils/chans"
)

// Kinds of operations in the channel scenarios.
const (
	kAdd    = iota // A: item, R2: 1 when refused
	kItem          // A: item, B: chunk (or running number), D: shard
	kChunk         // A: chunk number, B: length, D: shard
	kCancel        //
	kBegin         // a worker begins: A: item, D: shard
	kEnd           // a worker ends
)

var chanNames = []string{"add", "delivered", "chunk", "cancel", "work begins", "work ends"}

// sink records what comes out.
type sink struct {
	r      *R
	chunks int64
	kept   [512][]int
	keptN  int
	badLen bool
}

//go:norace
func (s *sink) chunk(shard int, c []int, keep bool) {
	n := s.chunks
	s.chunks++
	s.r.Obs(-1, kChunk, n, int64(len(c)), int64(shard))
	for _, v := range c {
		s.r.Obs(-1, kItem, int64(v), n, int64(shard))
	}
	if keep && s.keptN < len(s.kept) {
		s.kept[s.keptN] = c
		s.keptN++
	}
}

// changed looks at the kept chunks again and compares them with what was recorded.
//
//go:norace
func (s *sink) changed() (int, int) {
	i := int32(0)
	for k := 0; k < s.keptN; k++ {
		for s.r.ops[i].K != kChunk {
			i++
		}
		i++
		for _, v := range s.kept[k] {
			for s.r.ops[i].K != kItem {
				i++
			}
			if s.r.ops[i].A != int64(v) {
				return int(s.r.ops[i].A), v
			}
			i++
		}
	}
	return 0, 0
}

func spoil(c []int) {
	for i := range c {
		c[i] = -1
	}
	c = append(c, -2)
	_ = c
}

// checkStream: everything accepted came out exactly once, nothing else came out, and items whose adding
// did not overlap kept their order (within a shard when routed).
func checkStream(r *R, complete, order bool, shardOf func(item int64) int) {
	adds := map[int64]Op{}
	for _, o := range r.Sel(kAdd) {
		adds[o.A] = o
	}
	seen := map[int64]int{}
	last := map[int]Op{} // per shard, the delivered item added last
	for i, o := range r.Sel(kItem) {
		a, ok := adds[o.A]
		if !ok {
			r.Fail("invented", "item %d was delivered and nobody added it", o.A)
			return
		}
		if j, dup := seen[o.A]; dup {
			r.Fail("duplicate", "item %d was delivered twice (deliveries %d and %d)", o.A, j, i)
			return
		}
		seen[o.A] = i
		if o.Inv < a.Inv {
			r.Fail("invented", "item %d was delivered before it was added", o.A)
			return
		}
		if shardOf != nil && shardOf(o.A) != int(o.D) {
			r.Fail("routing", "item %d belongs to shard %d and was delivered by shard %d", o.A, shardOf(o.A), o.D)
			return
		}
		if order {
			// last[] is the item with the latest begin of adding so far
			if p, ok := last[int(o.D)]; ok && a.Ret != 0 && a.Ret < p.Inv {
				r.Fail("order", "item %d was accepted before item %d was offered, and came out after it (shard %d)", o.A, p.A, o.D)
				return
			}
			if p, ok := last[int(o.D)]; !ok || a.Inv > p.Inv {
				last[int(o.D)] = a
			}
		}
	}
	if complete {
		for k, a := range adds {
			if _, ok := seen[k]; !ok && a.Ret != 0 && a.R2 == 0 {
				r.Fail("lost", "item %d was accepted and never came out", k)
				return
			}
		}
	}
}

func checkChunkSizes(r *R, size int) {
	for _, o := range r.Sel(kChunk) {
		if o.B < 1 || o.B > int64(size) {
			r.Fail("size", "chunk %d has %d items; the chunk size is %d", o.A, o.B, size)
			return
		}
	}
}

// settleStream waits until everything accepted came out, or well past the time by which it should have.
func settleStream(r *R, period int64) {
	r.Calm()
	// as long as items keep coming
	lim, most := r.Now()+40*period+20*ms, 0
	for r.Now() < lim && !r.Failed() {
		acc, got := 0, 0
		for _, o := range r.Ops() {
			switch {
			case o.K == kAdd && o.Ret != 0 && o.R2 == 0:
				acc++
			case o.K == kItem:
				got++
			}
		}
		if got >= acc {
			break
		}
		if got > most {
			lim, most = r.Now()+40*period+20*ms, got
		}
		r.Settle(period)
	}
	r.Settle(period * 2) // anything that should not come
}

func chunkRun(r *R, timely, big bool) {
	w := &r.W
	size := One(w, 1, 2, 3, 4, 5, 8)
	period := One(w, 20*ms, ms, 5*ms, 50*ms)
	inBuf := One(w, 10, 0, 1, 2)
	outBuf := One(w, 3, 0, 1, 8)
	few := 3
	if big {
		size = One(w, 3, 16, 33, 64, 100, 130, 257)
		inBuf, outBuf = One(w, 10, 0, 100, 1000), One(w, 3, 0, 100)
		few = 1
	}
	mode := w.N(3)
	useFunc := w.Pct(50)
	slow := int64(0)
	if !timely && w.Pct(40) {
		slow = One(w, ms, 5*ms, period+ms)
	}
	keep := w.Pct(70)
	ctx, _ := r.Ctx()
	s := &sink{r: r}
	consume := func(c []int) {
		s.chunk(0, c, keep)
		if !keep {
			spoil(c)
		}
		if slow > 0 {
			r.Fault(FSlowConsumer)
			Sleep(slow)
		}
	}
	b := chans.NewChunkChan[int]().WithContext(ctx).WithChunkSize(size).WithChunkTimeout(time.Duration(period)).WithIncomingBufferSize(inBuf).WithOutgoingBufferSize(outBuf)
	var own chan int
	if mode == 2 {
		own = make(chan int, inBuf)
		b.WithIncomingChan(own)
	}
	if useFunc {
		b.WithChunkFunc(consume)
	}
	cc := b.Build()
	np := w.In(1, few)
	closing := mode == 2 && w.Pct(30)
	r.Cfg("size=%d period=%dms in=%d out=%d mode=%d func=%v slow=%d keep=%v close=%v", size, period/ms, inBuf, outBuf, mode, useFunc, slow/ms, keep, closing)
	if !useFunc {
		go func() {
			for {
				select {
				case <-ctx.Done():
					return
				case c := <-cc.C():
					consume(c)
				}
			}
		}()
	}
	for p := 0; p < np; p++ {
		n := crowd(w, 1, 12, 120)
		if big {
			n = One(w, 100, 300, 1200, 2400)
		}
		pause := make([]int64, n)
		for i := range pause {
			if big && !w.Pct(3) {
				continue
			}
			switch w.W(5, 2, 2, 1) {
			case 1:
				pause[i] = int64(w.In(1, 2000)) * (ms / 1000)
			case 2:
				pause[i] = period/2 + int64(w.N(3))*1000
			case 3:
				pause[i] = period * int64(w.In(1, 3))
			}
		}
		r.Go(func(c int) {
			for i := 0; i < n; i++ {
				Sleep(pause[i])
				v := c*10000 + i + 1
				h := r.Inv(c, kAdd, int64(v), 0, 0)
				switch mode {
				case 0:
					cc.Add(v)
				case 1:
					cc.Incoming() <- v
				default:
					own <- v
				}
				r.Ret(h, 0, 0)
			}
		})
	}
	if !r.Wait(60000 * ms) {
		r.Fail("stuck", "adding blocks for ever although the chunks are consumed")
		return
	}
	if closing {
		r.Fault(FClosed)
		close(own)
	}
	settleStream(r, period+slow)
	checkStream(r, true, true, nil)
	checkChunkSizes(r, size)
	if keep && !r.Failed() {
		if a, b := s.changed(); a != b {
			r.Fail("aliasing", "a delivered chunk changed afterwards: %d became %d", a, b)
		}
	}
	if a, b := cc.Sizes(); !r.Failed() && (a != 0 || b != 0) {
		r.Fail("sizes", "everything was consumed, and Sizes reports %d and %d", a, b)
	}
	if timely {
		checkTimely(r, int64(size), period, true)
	}
}

// checkTimely: without stalls and with a consumer that is always ready.
//
// eager: incomplete chunks come by the timeout only.
func checkTimely(r *R, size, period int64, eager bool) {
	if r.Failed() {
		return
	}
	type ev struct{ t, d int64 }
	perShard := map[int64][]Op{}
	got := map[int64]Op{}
	for _, o := range r.Sel(kItem) {
		got[o.A] = o
	}
	evs := map[int64][]ev{}
	for _, o := range r.Sel(kAdd) {
		g, ok := got[o.A]
		if !ok {
			continue
		}
		if g.T0-o.T1 > period {
			r.Fail("late", "item %d was accepted at %.3f ms and delivered at %.3f ms; the timeout is %.3f ms", o.A, float64(o.T1)/1e6, float64(g.T0)/1e6, float64(period)/1e6)
			return
		}
		evs[g.D] = append(evs[g.D], ev{o.T1, 1}, ev{g.T0, -1})
	}
	for sh, l := range evs {
		at := map[int64]int64{}
		for _, e := range l {
			at[e.t] += e.d
		}
		n := int64(0)
		for _, t := range slices.Sorted(maps.Keys(at)) {
			n += at[t]
			if n >= size {
				r.Fail("late", "at %.3f ms %d items were waiting in shard %d; a full chunk has %d", float64(t)/1e6, n, sh, size)
				return
			}
		}
	}
	for _, o := range r.Sel(kChunk) {
		if o.B < size && eager {
			perShard[o.D] = append(perShard[o.D], o)
		}
	}
	for _, l := range perShard {
		for i := 1; i < len(l); i++ {
			if d := l[i].T0 - l[i-1].T0; d < period || d%period != 0 {
				r.Fail("eager", "two incomplete chunks (%d and %d items of %d) were delivered %.3f ms apart, which is no number of timeouts; the timeout is %.3f ms", l[i-1].B, l[i].B, size, float64(d)/1e6, float64(period)/1e6)
				return
			}
		}
	}
}

// shard functions, by number
func shardValue(kind int, v int) int {
	if v <= 0 {
		curR.failLater("invented", "the shard function was asked about an item nobody added")
	}
	switch kind {
	case 0:
		return v
	case 1:
		return -v
	case 2:
		return v*7 - 3000
	case 3:
		return math.MinInt + v%3
	case 4:
		return math.MaxInt - v%5
	default:
		return 1
	}
}

func shardIndex(kind int, v int64, n int) int {
	k := shardValue(kind, int(v)) % n
	if k < 0 {
		k += n
	}
	return k
}

// busy notes that at most one worker of a shard runs at a time.
type busy struct{ n [256]int64 }

//go:norace
func (b *busy) enter(r *R, shard int, item int64) {
	r.Obs(-1, kBegin, item, 0, int64(shard))
	b.n[shard&255]++
	if b.n[shard&255] > 1 {
		r.failLater("overlap", "two workers of a shard ran at once")
	}
}

//go:norace
func (b *busy) leave(r *R, shard int, item int64) {
	b.n[shard&255]--
	r.Obs(-1, kEnd, item, 0, int64(shard))
}

func producers(r *R, np, maxItems int, big bool, add func(v int) error) {
	w := &r.W
	for p := 0; p < np; p++ {
		n := crowd(w, 1, maxItems, 10*maxItems)
		if big {
			n = w.In(maxItems, 3*maxItems)
		}
		pause := make([]int64, n)
		for i := range pause {
			if w.Pct(25) && (!big || w.Pct(10)) {
				pause[i] = int64(w.In(1, 6000)) * (ms / 1000)
			}
		}
		r.Go(func(c int) {
			for i := 0; i < n; i++ {
				Sleep(pause[i])
				v := c*10000 + i + 1
				h := r.Inv(c, kAdd, int64(v), 0, 0)
				err := add(v)
				r.Ret(h, 0, b2i(err != nil))
			}
		})
	}
}

func shardRun(r *R, big bool) {
	w := &r.W
	n := w.In(1, 4)
	kind := w.W(6, 2, 2, 1, 1, 1)
	inBuf, outBuf := One(w, 10, 0, 1, 3), One(w, 10, 0, 1, 3)
	items := 10
	if big {
		n = One(w, 2, 7, 16, 33, 64)
		kind = One(w, 0, 1, 2)
		inBuf, outBuf = One(w, 10, 0, 100, 1000), One(w, 10, 0, 100)
		items = One(w, 30, 100, 180)
	}
	useFunc := w.Pct(65)
	slow := int64(0)
	if w.Pct(40) {
		slow = One(w, ms, 5*ms)
	}
	block := -1 // one shard's worker never finishes; the others must not mind
	if useFunc && w.Pct(15) {
		block = w.N(n)
		outBuf = 4096
	}
	own := w.Pct(40)
	ctx, _ := r.Ctx()
	s := &sink{r: r}
	bz := &busy{}
	work := func(shard, v int) {
		s.one(shard, v)
		bz.enter(r, shard, int64(v))
		if shard == block {
			r.Fault(FSlowCallback)
			<-ctx.Done()
		}
		if slow > 0 {
			r.Fault(FSlowConsumer)
			Sleep(slow)
		} else {
			Pause()
		}
		bz.leave(r, shard, int64(v))
	}
	b := chans.NewShardChan[int]().WithContext(ctx).WithShardCount(n).WithIncomingBufferSize(inBuf).WithOutgoingBufferSize(outBuf).WithShardFunc(func(v int) int { return shardValue(kind, v) })
	var ch chan int
	if own {
		ch = make(chan int, inBuf)
		b.WithIncomingChan(ch)
	}
	if useFunc {
		b.WithWorkerFunc(work)
	}
	sc, err := b.Build()
	if err != nil {
		r.Fail("build", "Build: %v", err)
		return
	}
	r.Cfg("shards=%d func=%d in=%d out=%d worker=%v slow=%d block=%d own=%v", n, kind, inBuf, outBuf, useFunc, slow/ms, block, own)
	if sc.ShardCount() != n {
		r.Fail("count", "ShardCount() is %d, want %d", sc.ShardCount(), n)
	}
	if sc.C(-1) != nil || sc.C(n) != nil || sc.C(0) == nil {
		r.Fail("range", "C of a shard out of range must be nil, of one in range not")
	}
	if !useFunc {
		for i := 0; i < n; i++ {
			c := sc.C(i)
			go func() {
				for {
					select {
					case <-ctx.Done():
						return
					case v := <-c:
						work(i, v)
					}
				}
			}()
		}
	}
	both := own && w.Pct(50)
	closing := own && w.Pct(30)
	producers(r, w.In(1, 3), items, big, func(v int) error {
		if own && !(both && v%2 == 0) {
			ch <- v
			return nil
		}
		return sc.Add(v)
	})
	if !r.Wait(60000 * ms) {
		r.Fail("stuck", "adding blocks for ever although everything is consumed")
		return
	}
	if closing {
		r.Fault(FClosed)
		close(ch)
	}
	if block >= 0 {
		r.Probe(0)
		r.Calm()
		r.Settle(1000*ms + 2000*slow)
		got := map[int64]bool{}
		for _, o := range r.Sel(kItem) {
			got[o.A] = true
		}
		checkStream(r, false, true, func(v int64) int { return shardIndex(kind, v, n) })
		for _, o := range r.Sel(kAdd) {
			if sh := shardIndex(kind, o.A, n); sh != block && !got[o.A] && o.R2 == 0 {
				r.Fail("blocked", "item %d of shard %d was not processed because the worker of shard %d is busy", o.A, sh, block)
				return
			}
		}
	} else {
		settleStream(r, slow+ms)
		checkStream(r, true, true, func(v int64) int { return shardIndex(kind, v, n) })
		for i, x := range sc.Sizes() {
			if x != 0 {
				r.Fail("sizes", "everything was consumed, and Sizes reports %d for shard %d", x, i)
			}
		}
	}
	for _, o := range r.Sel(kAdd) {
		if o.R2 != 0 {
			r.Fail("refused", "Add of %d failed although the context is alive", o.A)
		}
	}
}

//go:norace
func (s *sink) one(shard, v int) {
	n := s.chunks
	s.chunks++
	s.r.Obs(-1, kItem, int64(v), n, int64(shard))
}

func shardChunkRun(r *R, timely, big bool) {
	w := &r.W
	n := w.In(1, 3)
	kind := w.W(6, 2, 2, 1, 1, 1)
	size := One(w, 1, 2, 3, 5)
	period := One(w, 20*ms, 2*ms, 7*ms, 50*ms)
	inBuf, outBuf := One(w, 12, 0, 1, 4), One(w, 3, 0, 1)
	items := 10
	if big {
		n = One(w, 1, 2, 7, 16, 33)
		kind = One(w, 0, 1, 2)
		size = One(w, 3, 16, 33, 64, 100)
		inBuf, outBuf = One(w, 64, 100, 1000), One(w, 3, 0, 100)
		items = One(w, 30, 100, 180)
	}
	useFunc := w.Pct(60)
	slow := int64(0)
	if !timely && w.Pct(40) {
		slow = One(w, ms, 5*ms, period+ms)
	}
	own := w.Pct(50)
	keep := w.Pct(70)
	ctx, _ := r.Ctx()
	s := &sink{r: r}
	bz := &busy{}
	consume := func(shard int, c []int) {
		bz.enter(r, shard, 0)
		s.chunk(shard, c, keep)
		if !keep {
			spoil(c)
		}
		if slow > 0 {
			r.Fault(FSlowConsumer)
			Sleep(slow)
		} else {
			Pause()
		}
		bz.leave(r, shard, 0)
	}
	b := chans.NewShardChunk[int]().WithContext(ctx).WithShardCount(n).WithChunkSize(size).WithChunkTimeout(time.Duration(period)).
		WithIncomingBufferSize(inBuf).WithOutgoingBufferSize(outBuf).WithShardFunc(func(v int) int { return shardValue(kind, v) })
	var ch chan int
	if own {
		ch = make(chan int, inBuf)
		b.WithIncomingChan(ch)
	}
	if useFunc {
		b.WithShardWorker(consume)
	}
	sc, err := b.Build()
	if err != nil {
		r.Fail("build", "Build: %v", err)
		return
	}
	r.Cfg("shards=%d func=%d size=%d period=%dms in=%d out=%d worker=%v slow=%d own=%v keep=%v", n, kind, size, period/ms, inBuf, outBuf, useFunc, slow/ms, own, keep)
	if sc.ShardCount() != n || sc.C(-1) != nil || sc.C(n) != nil {
		r.Fail("count", "ShardCount() is %d, want %d; C out of range must be nil", sc.ShardCount(), n)
	}
	if !useFunc {
		for i := 0; i < n; i++ {
			c := sc.C(i)
			go func() {
				for {
					select {
					case <-ctx.Done():
						return
					case v := <-c:
						consume(i, v)
					}
				}
			}()
		}
	}
	closing := own && w.Pct(30)
	producers(r, w.In(1, 3), items, big, func(v int) error {
		if own {
			ch <- v
			return nil
		}
		return sc.Add(v)
	})
	if !r.Wait(60000 * ms) {
		r.Fail("stuck", "adding blocks for ever although everything is consumed")
		return
	}
	if closing {
		r.Fault(FClosed)
		close(ch)
	}
	settleStream(r, period+slow)
	checkStream(r, true, true, func(v int64) int { return shardIndex(kind, v, n) })
	checkChunkSizes(r, size)
	if keep && !r.Failed() {
		if a, b := s.changed(); a != b {
			r.Fail("aliasing", "a delivered chunk changed afterwards: %d became %d", a, b)
		}
	}
	if !r.Failed() {
		sh, a, b := sc.Sizes()
		t := a + b
		for _, x := range sh {
			t += x
		}
		if t != 0 || len(sh) != n {
			r.Fail("sizes", "everything was consumed, and Sizes reports %v, %d, %d", sh, a, b)
		}
	}
	if timely {
		checkTimely(r, int64(size), period, false)
	}
}

// cancelRun: after cancellation everything ends, whoever was blocked.
func cancelRun(r *R) {
	w := &r.W
	what := w.N(3)
	at := int64(w.N(40)) * ms / 2
	how := w.W(6, 2, 1) // cancelled, past its deadline, cancelled before anything was built
	ctx, cancel := context.WithCancel(context.Background())
	switch how {
	case 1:
		ctx, cancel = context.WithTimeout(ctx, time.Duration(at))
	case 2:
		cancel()
	}
	r.Defer(cancel)
	inBuf, outBuf := One(w, 0, 1, 3, 12), One(w, 0, 1, 3)
	period := One(w, 5*ms, 20*ms, ms)
	size := w.In(1, 4)
	n := w.In(1, 3)
	useFunc := w.Pct(50)
	consumed := 0 // how many chunks the consumer takes before it stops
	if w.Pct(60) {
		consumed = w.N(6)
	}
	s := &sink{r: r}
	left := &Cell{v: int64(consumed)}
	take := func(shard int, c []int) {
		s.chunk(shard, c, false)
		if useFunc && left.Add(-1) < 0 {
			// a worker that only ends with its context
			r.Fault(FSlowCallback)
			<-ctx.Done()
		}
	}
	var add func(v int) error
	var outs []chan []int
	var outs1 []chan int
	own := make(chan int, inBuf) // looked into at the end
	switch what {
	case 0:
		b := chans.NewChunkChan[int]().WithContext(ctx).WithChunkSize(size).WithChunkTimeout(time.Duration(period)).WithIncomingChan(own).WithOutgoingBufferSize(outBuf)
		if useFunc {
			b.WithChunkFunc(func(c []int) { take(0, c) })
		}
		cc := b.Build()
		add = func(v int) error { cc.Add(v); return ctxErr(ctx) }
		outs = append(outs, cc.C())
	case 1:
		b := chans.NewShardChan[int]().WithContext(ctx).WithShardCount(n).WithIncomingChan(own).WithOutgoingBufferSize(outBuf).WithShardFunc(func(v int) int { return v })
		if useFunc {
			b.WithWorkerFunc(func(k, v int) { take(k, []int{v}) })
		}
		sc, err := b.Build()
		if err != nil {
			r.Fail("build", "Build: %v", err)
			return
		}
		add = sc.Add
		for i := 0; i < n; i++ {
			outs1 = append(outs1, sc.C(i))
		}
	default:
		b := chans.NewShardChunk[int]().WithContext(ctx).WithShardCount(n).WithChunkSize(size).WithChunkTimeout(time.Duration(period)).
			WithIncomingBufferSize(inBuf).WithIncomingChan(own).WithOutgoingBufferSize(outBuf).WithShardFunc(func(v int) int { return v })
		if useFunc {
			b.WithShardWorker(take)
		}
		sc, err := b.Build()
		if err != nil {
			r.Fail("build", "Build: %v", err)
			return
		}
		add = sc.Add
		for i := 0; i < n; i++ {
			outs = append(outs, sc.C(i))
		}
	}
	r.Cfg("what=%d in=%d out=%d size=%d shards=%d period=%dms worker=%v consumed=%d", what, inBuf, outBuf, size, n, period/ms, useFunc, consumed)
	if !useFunc && consumed > 0 {
		r.Go(func(c int) {
			for i := 0; i < consumed; i++ {
				if len(outs) > 0 {
					select {
					case <-ctx.Done():
						return
					case x := <-outs[i%len(outs)]:
						take(i%len(outs), x)
					}
				} else {
					select {
					case <-ctx.Done():
						return
					case x := <-outs1[i%len(outs1)]:
						take(i%len(outs1), []int{x})
					}
				}
			}
		})
	}
	np := w.In(1, 3)
	for p := 0; p < np; p++ {
		k := w.In(1, 25)
		pause := int64(0)
		if w.Pct(30) {
			pause = int64(w.In(1, 5000)) * 1000
		}
		r.Go(func(c int) {
			for i := 0; i < k; i++ {
				Sleep(pause)
				v := c*10000 + i + 1
				h := r.Inv(c, kAdd, int64(v), 0, 0)
				err := add(v)
				r.Ret(h, 0, b2i(err != nil))
				if err != nil && err != ctxErr(ctx) {
					r.failLater("refused", "Add failed with an error that is not the context's")
				}
			}
		})
	}
	r.Go(func(c int) {
		Sleep(at)
		h := r.Inv(c, kCancel, 0, 0, 0)
		if how != 1 {
			cancel()
		}
		r.Ret(h, 0, 0)
		r.Fault(FCancel)
	})
	if !r.Wait(60000 * ms) {
		r.Fail("stuck", "somebody adding is still blocked long after cancellation")
		return
	}
	if n := r.Ended(10000 * ms); n != 0 {
		r.Fail("leak", "%d goroutines are left long after cancellation", n)
		return
	}
	checkStream(r, false, false, nil)
	if what == 1 && !r.Failed() {
		// what ShardChan's Add accepted was delivered, is in a channel, or was in the dispatcher's hands
		there := len(own) + 1 + len(r.Sel(kItem))
		for _, c := range outs1 {
			there += len(c)
		}
		for _, o := range r.Sel(kAdd) {
			there -= int(1 - o.R2)
		}
		if there < 0 {
			r.Fail("refused", "%d items that Add said it had accepted are nowhere", -there)
		}
	}
}

func ctxErr(ctx context.Context) error { return ctx.Err() }

func init() {
	for _, st := range []bool{false, true} {
		sfx := map[bool]string{false: "", true: "-stalls"}[st]
		reg(&Scenario{Prop: "C01", Name: "chunk" + sfx, Stalls: st, Names: chanNames, Fn: func(r *R) { chunkRun(r, false, false) }})
		reg(&Scenario{Prop: "C03", Name: "shard" + sfx, Stalls: st, Names: chanNames, Probes: []string{"one shard's worker blocks for ever"}, Fn: func(r *R) { shardRun(r, false) }})
		reg(&Scenario{Prop: "C04", Name: "shardchunk" + sfx, Stalls: st, Weight: 1, Names: chanNames, Fn: func(r *R) { shardChunkRun(r, false, false) }})
		reg(&Scenario{Prop: "C01", Name: "chunk-big" + sfx, Rare: true, Stalls: st, Names: chanNames, Fn: func(r *R) { chunkRun(r, false, true) }})
		reg(&Scenario{Prop: "C03", Name: "shard-big" + sfx, Rare: true, Stalls: st, Names: chanNames, Fn: func(r *R) { shardRun(r, true) }})
		reg(&Scenario{Prop: "C04", Name: "shardchunk-big" + sfx, Rare: true, Stalls: st, Names: chanNames, Fn: func(r *R) { shardChunkRun(r, false, true) }})
		reg(&Scenario{Prop: "C05", Name: "chans-cancel" + sfx, Stalls: st, Names: chanNames, Fn: cancelRun})
	}
	reg(&Scenario{Prop: "C02", Name: "chunk-timely", Scale: true, Names: chanNames, Fn: func(r *R) { chunkRun(r, true, false) }})
	reg(&Scenario{Prop: "C02", Name: "chunk-timely-big", Rare: true, Names: chanNames, Fn: func(r *R) { chunkRun(r, true, true) }})
	reg(&Scenario{Prop: "C04", Name: "shardchunk-timely-big", Rare: true, Names: chanNames, Fn: func(r *R) { shardChunkRun(r, true, true) }})
	reg(&Scenario{Prop: "C04", Name: "shardchunk-timely", Scale: true, Weight: 2, Names: chanNames, Fn: func(r *R) { shardChunkRun(r, true, false) }})
}
