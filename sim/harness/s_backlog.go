package main

import (
	"time"

	"github.com/axgrid/axutils/chans"
)

// ---- C46: what is not consumed holds back the producers, and Sizes tells it -----------------
//
// Consumers stop, go on for a few steps, stop again and in the end take everything. Whenever
// all is at rest, what was accepted and not delivered must be where Sizes says it is.

// backlog is one channel of any kind.
type backlog struct {
	r      *R
	s      *sink
	n      int // shards, 0: a ChunkChan
	size   int // of a chunk, 1 for a ShardChan
	in     int // buffers asked for
	out    int
	own    chan int
	add    func(v int) error
	open   chan struct{}
	step   chan struct{}
	take   []func() // takes one thing of one shard, when there is one
	queued func() (least, most int, full bool, room bool)
	useFn  bool
}

// hold is where a consumer function waits until it may go on.
func (b *backlog) hold() {
	b.r.Fault(FSlowConsumer)
	select {
	case <-b.open:
	case <-b.step:
	}
}

func (b *backlog) fail(class, format string, a ...any) { b.r.Fail(class, format, a...) }

// tally counts what was accepted, what is being added, and what was delivered.
func (b *backlog) tally() (acc, adding, got int) {
	for _, o := range b.r.Ops() {
		switch {
		case o.K == kAdd && o.Ret != 0:
			acc++
		case o.K == kAdd:
			adding++
		case o.K == kItem:
			got++
		}
	}
	return
}

// rest checks the account when nothing moves.
func (b *backlog) rest(when string) {
	if b.r.Failed() {
		return
	}
	acc, adding, got := b.tally()
	back := acc - got
	lo, hi, full, room := b.queued()
	if b.r.Failed() {
		return
	}
	switch {
	case back < lo:
		b.fail("sizes", "%s: %d accepted, %d delivered, and Sizes tells of at least %d that are queued", when, acc, got, lo)
	case back > hi:
		b.fail("sizes", "%s: %d accepted, %d delivered, and Sizes tells of at most %d that are queued", when, acc, got, hi)
	case adding > 0 && !full:
		b.fail("blocked", "%s: %d are blocked adding (%d accepted, %d delivered) and there is room", when, adding, acc, got)
	case room && back > lo*b.size:
		b.fail("held", "%s: %d accepted, %d delivered; there is room in the outgoing buffers, and they hold fewer than these", when, acc, got)
	}
}

func (b *backlog) chunk(period int64) {
	r := b.r
	ctx, _ := r.Ctx()
	q := chans.NewChunkChan[int]().WithContext(ctx).WithChunkSize(b.size).WithChunkTimeout(time.Duration(period)).WithIncomingBufferSize(b.in).WithOutgoingBufferSize(b.out)
	if b.own != nil {
		q.WithIncomingChan(b.own)
	}
	if b.useFn {
		q.WithChunkFunc(func(c []int) { b.s.chunk(0, c, false); b.hold() })
	}
	c := q.Build()
	b.add = func(v int) error { c.Add(v); return nil }
	b.take = append(b.take, func() {
		select {
		case x := <-c.C():
			b.s.chunk(0, x, false)
		default:
		}
	})
	b.queued = func() (int, int, bool, bool) {
		i, o := c.Sizes()
		if i != len(c.Incoming()) || o != len(c.C()) {
			b.fail("sizes", "Sizes reports %d and %d; %d items and %d chunks are queued", i, o, len(c.Incoming()), len(c.C()))
		}
		if i > b.in || o > b.out {
			b.fail("cap", "Sizes reports %d and %d; the buffers asked for are %d and %d", i, o, b.in, b.out)
		}
		if cap(c.Incoming()) != b.in {
			b.fail("cap", "the incoming buffer holds %d; asked for were %d", cap(c.Incoming()), b.in)
		}
		return i + o, i + (o+1)*b.size + 1, i == b.in && o == b.out, o < b.out
	}
}

func (b *backlog) shard() {
	r := b.r
	ctx, _ := r.Ctx()
	q := chans.NewShardChan[int]().WithContext(ctx).WithShardCount(b.n).WithShardFunc(func(v int) int { return shardValue(0, v) }).WithIncomingBufferSize(b.in).WithOutgoingBufferSize(b.out)
	if b.own != nil {
		q.WithIncomingChan(b.own)
	}
	if b.useFn {
		q.WithWorkerFunc(func(k, v int) { b.s.one(k, v); b.hold() })
	}
	c, err := q.Build()
	if err != nil {
		b.fail("build", "Build: %v", err)
		return
	}
	b.add = c.Add
	for k := 0; k < b.n; k++ {
		b.take = append(b.take, func() {
			select {
			case x := <-c.C(k):
				b.s.one(k, x)
			default:
			}
		})
	}
	b.queued = func() (int, int, bool, bool) {
		t, full, room := 0, false, true
		z := c.Sizes()
		if len(z) != b.n || c.ShardCount() != b.n {
			b.fail("sizes", "Sizes reports %v, ShardCount %d; there are %d shards", z, c.ShardCount(), b.n)
			return 0, 0, false, false
		}
		for k, x := range z {
			if x != len(c.C(k)) {
				b.fail("sizes", "Sizes reports %v; %d are queued in shard %d", z, len(c.C(k)), k)
			}
			if x > b.out {
				b.fail("cap", "Sizes reports %v; the buffer of a shard is to hold %d", z, b.out)
			}
			t += x
			if x == b.out {
				full, room = true, false
			}
		}
		lo, in := t, b.in
		if b.own != nil {
			lo, in = t+len(b.own), len(b.own)
			full = full && in == b.in
			room = room && in == 0
		}
		return lo, t + in + 2, full, room
	}
}

func (b *backlog) shardChunk(period int64) {
	r := b.r
	ctx, _ := r.Ctx()
	q := chans.NewShardChunk[int]().WithContext(ctx).WithShardCount(b.n).WithShardFunc(func(v int) int { return shardValue(0, v) }).WithChunkSize(b.size).WithChunkTimeout(time.Duration(period)).WithIncomingBufferSize(b.in).WithOutgoingBufferSize(b.out)
	if b.own != nil {
		q.WithIncomingChan(b.own)
	}
	if b.useFn {
		q.WithShardWorker(func(k int, c []int) { b.s.chunk(k, c, false); b.hold() })
	}
	c, err := q.Build()
	if err != nil {
		b.fail("build", "Build: %v", err)
		return
	}
	b.add = c.Add
	for k := 0; k < b.n; k++ {
		b.take = append(b.take, func() {
			select {
			case x := <-c.C(k):
				b.s.chunk(k, x, false)
			default:
			}
		})
	}
	b.queued = func() (int, int, bool, bool) {
		z, i, o := c.Sizes()
		if len(z) != b.n || c.ShardCount() != b.n {
			b.fail("sizes", "Sizes reports %v, ShardCount %d; there are %d shards", z, c.ShardCount(), b.n)
			return 0, 0, false, false
		}
		t, out, room := 0, 0, true
		for k, x := range z {
			t += x
			if x > b.in {
				b.fail("cap", "Sizes reports %v; the incoming buffer asked for is to hold %d", z, b.in)
			}
			out += len(c.C(k))
			room = room && len(c.C(k)) < b.out
		}
		if o != out {
			b.fail("sizes", "Sizes reports %d outgoing chunks; %d are queued", o, out)
		}
		in := b.in
		if b.own != nil {
			in = len(b.own)
		}
		lo := t + i + o
		if b.own != nil {
			lo += in
		}
		return lo, t + i + in + 1 + b.n + (o+b.n)*b.size, o > 0 || b.out == 0, room && b.out > 0
	}
}

func backlogRun(r *R) {
	w := &r.W
	what := w.N(3)
	period := One(w, 5*ms, ms, 20*ms)
	b := &backlog{r: r, s: &sink{r: r}, size: 1, in: One(w, 3, 0, 1, 8), out: One(w, 2, 0, 1, 5), open: make(chan struct{}), step: make(chan struct{}), useFn: w.Pct(50)}
	if w.Pct(40) {
		b.own = make(chan int, b.in)
	}
	if what != 1 {
		b.size = w.In(1, 4)
	}
	if what != 0 {
		b.n = w.In(1, 3)
	}
	switch what {
	case 0:
		b.chunk(period)
	case 1:
		b.shard()
	case 2:
		b.shardChunk(period)
	}
	if r.Failed() {
		return
	}
	if w.Pct(20) {
		b.refusals(what)
	}
	np := w.In(1, 4)
	most := 2 * (b.in + (b.out+1)*b.size*max(b.n, 1))
	heavy := what == 2 && w.Pct(4)
	if heavy {
		np, most = 1, 2500 // past the buffers between the stages
	}
	r.Cfg("kind=%d in=%d out=%d size=%d shards=%d own=%v function=%v period=%v", what, b.in, b.out, b.size, b.n, b.own != nil, b.useFn, period)
	for p := 0; p < np; p++ {
		n := w.In(0, most/np+1)
		pause := int64(0)
		if w.Pct(30) {
			pause = int64(w.In(1, 3000)) * 1000
		}
		direct := b.own != nil && w.Pct(50)
		only := -1
		if b.n > 0 && (heavy || w.Pct(30)) {
			only = w.N(b.n)
		}
		r.Go(func(c int) {
			for i := 0; i < n; i++ {
				Sleep(pause)
				v := (c*5000+i+1)*60 + i%6
				if only >= 0 {
					v += only - i%6
				}
				o := r.Inv(c, kAdd, int64(v), 0, 0)
				if direct {
					b.own <- v
				} else if b.add(v) != nil {
					r.failLater("refused", "Add failed although the context is alive")
				}
				r.Ret(o, 0, 0)
			}
		})
	}
	rest := func() {
		r.Calm()
		for i, last := 0, -1; i < 40; i++ {
			r.Settle(4*period + 3*ms)
			acc, adding, got := b.tally()
			if now := acc*7 + adding + got*100003; now == last {
				return
			} else {
				last = now
			}
		}
	}
	rest()
	b.rest("nobody consumes")
	if what == 2 {
		acc, _, got := b.tally()
		if lim := 1500*b.n + 4*(b.in+(b.out+2)*b.size*b.n); acc-got > lim && !r.Failed() {
			b.fail("unbounded", "%d were accepted and nobody takes them", acc-got)
		}
	}
	for i, n := 0, w.N(4); i < n && !r.Failed(); i++ {
		for j, k := 0, w.In(1, 3); j < k; j++ {
			if b.useFn {
				select {
				case b.step <- struct{}{}:
				default:
				}
			} else {
				b.take[w.N(len(b.take))]()
			}
		}
		rest()
		b.rest("after some were taken")
	}
	if r.Failed() {
		return
	}
	close(b.open)
	if !b.useFn {
		for i := 0; i < 20; {
			before := b.s.chunks
			for _, f := range b.take {
				f()
			}
			if b.s.chunks > before {
				i = 0
				Pause()
			} else {
				i++
				r.Settle(period)
			}
		}
	}
	if !r.Wait(int64(time.Hour)) {
		r.Fail("stuck", "adding blocks for ever although everything is consumed")
		return
	}
	if !b.useFn {
		r.Calm()
		for i := 0; i < 20; i++ {
			before := b.s.chunks
			for _, f := range b.take {
				f()
			}
			if b.s.chunks > before {
				i = 0
			}
			r.Settle(period)
		}
	} else {
		settleStream(r, period)
	}
	var of func(int64) int
	if b.n > 0 {
		of = func(v int64) int { return int(v % int64(b.n)) }
	}
	checkStream(r, true, true, of)
	b.rest("everything was consumed")
}

// refusals: a channel without a shard function is not built.
func (b *backlog) refusals(what int) {
	switch what {
	case 1:
		if c, err := chans.NewShardChan[int]().Build(); err != chans.ErrShardFuncIsNil || c != nil {
			b.fail("build", "a ShardChan without a shard function was built (%v)", err)
		}
	case 2:
		if c, err := chans.NewShardChunk[int]().Build(); err != chans.ErrShardFuncIsNil || c != nil {
			b.fail("build", "a ShardChunk without a shard function was built (%v)", err)
		}
	}
}

func init() {
	for _, st := range []bool{false, true} {
		sfx := map[bool]string{true: "-stalls"}[st]
		reg(&Scenario{Prop: "C46", Name: "backlog" + sfx, Stalls: st, Names: chanNames, Fn: backlogRun})
	}
}
