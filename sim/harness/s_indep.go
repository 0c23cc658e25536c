package main

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"time"

	"github.com/axgrid/axutils/chans"
	"github.com/axgrid/axutils/collections"
	"github.com/axgrid/axutils/flow"
	"github.com/axgrid/axutils/workers"
)

// ---- C42: instances are independent of each other ---------------------------------------
//
// Every plan is executed twice: on an instance of a builder of its own while nothing else is
// there, and on one that was built, with the same settings, from a builder that also built
// the other instances, while those execute their plans. What an instance gave, and when,
// must be the same. Values carry the tag of their instance.

type iobs struct {
	t       int64
	k       int
	a, b, d int64
}

// ienv is what belongs to one instance.
type ienv struct {
	r      *R
	c      int // client
	tag    int64
	t0     int64
	ctx    context.Context
	cancel func()
	closed bool
	n      int
	log    [600]iobs
}

//go:norace
func (e *ienv) note(k int, a, b, d int64) {
	if e.closed || e.n == len(e.log) {
		return
	}
	e.log[e.n] = iobs{e.r.Now() - e.t0, k, a, b, d}
	e.n++
}

//go:norace
func (e *ienv) close() { e.closed = true }

// sees is note of something that does not come from the client.
func (e *ienv) sees(k int, a, b, d int64) {
	e.note(k, a, b, d)
	e.r.Obs(-1, uint8(k), a, b, d)
}

// val makes a value of this instance.
func (e *ienv) val(x int64) int64 { return e.tag<<16 | 1<<15 | x }

// norm takes the tag off again.
func (e *ienv) norm(v int64) int64 {
	if v == 0 {
		return 0
	}
	if v>>16 != e.tag {
		e.r.failLater("foreign", fmt.Sprintf("a value of instance %d came out of instance %d", v>>16, e.tag))
		return v
	}
	return v & 0xffff
}

func (e *ienv) hash(l []int64) int64 {
	h := uint64(len(l))
	for _, v := range l {
		h = mix(h ^ uint64(e.norm(v)))
	}
	return int64(h >> 32)
}

func (e *ienv) set(l []int64) int64 {
	l = append([]int64(nil), l...)
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return e.hash(l)
}

type iset [6]int64 // settings

type idoer func(op int, a, b int64) (int64, int64)

type ikind struct {
	names []string
	wt    []int
	draw  func(w *Chooser) iset
	newB  func() any // a builder
	// build sets everything in the builder and builds; prev: settings of the instances the shared builder
	// built before that the builder of this one does not know
	build func(b any, prev []iset, s iset, e *ienv) idoer
}

type istep struct {
	at   int64
	op   int
	a, b int64
}

const iTail = 80 * int64(time.Millisecond)

// play executes a plan on an instance; its client does.
func (e *ienv) play(k *ikind, do idoer, plan []istep) {
	r := e.r
	for i, st := range plan {
		at := e.t0 + st.at
		for r.Now() >= at {
			at += ms // late: at the next such instant
		}
		Sleep(at - r.Now())
		h := r.Inv(e.c, uint8(st.op), st.a, st.b, e.tag)
		x, y := do(st.op, st.a, st.b)
		r.Ret(h, x, y)
		e.note(100+i, x, y, 0)
	}
	Sleep(iTail + 500)
	e.close()
	if e.cancel != nil {
		e.cancel()
	}
}

// result is what came of it, ordered where simultaneous things have no order.
func (e *ienv) result() []iobs {
	l := append([]iobs(nil), e.log[:e.n]...)
	sort.SliceStable(l, func(i, j int) bool {
		x, y := l[i], l[j]
		switch {
		case x.t != y.t:
			return x.t < y.t
		case x.k != y.k:
			return x.k < y.k
		case x.a != y.a:
			return x.a < y.a
		case x.b != y.b:
			return x.b < y.b
		}
		return x.d < y.d
	})
	return l
}

func indep(r *R, k *ikind) {
	w := &r.W
	n := w.In(2, 3)
	alike := w.Pct(40)
	oneCtx := w.Pct(30)
	ghost := w.Pct(40)
	var all context.Context
	if oneCtx {
		all, _ = r.Ctx()
	}
	sets := make([]iset, n)
	plans := make([][]istep, n)
	starts := make([]int64, n)
	for i := range sets {
		sets[i] = k.draw(w)
		if alike {
			sets[i] = sets[0]
		}
		span := int64(w.In(1, 30)) * ms
		l := make([]istep, w.In(2, 12))
		for j := range l {
			l[j] = istep{int64(w.N(int(span/ms))) * ms, w.W(k.wt...), int64(w.N(3)), int64(w.N(4))}
		}
		sort.SliceStable(l, func(x, y int) bool { return l[x].at < l[y].at })
		for j := range l {
			l[j].at += int64(j+1) * 1003
		}
		plans[i] = l
		starts[i] = int64(w.N(8)) * ms / 2
	}
	r.Cfg("instances=%d settings=%v one context=%v ghost=%v", n, sets, oneCtx, ghost)
	tag := int64(r.K%100000)*16 + 1
	mk := func() *ienv {
		e := &ienv{r: r, tag: tag, ctx: all}
		tag++
		if !oneCtx {
			ctx, cancel := context.WithCancel(context.Background())
			e.ctx, e.cancel = ctx, cancel
			r.Defer(cancel)
		}
		return e
	}
	lone := make([][]iobs, n)
	for i := range plans {
		e := mk()
		e.t0 = r.Now()
		do := k.build(k.newB(), sets[:i], sets[i], e)
		e.c = r.nocli
		r.Go(func(int) { e.play(k, do, plans[i]) })
		if !r.Wait(100000 * ms) {
			r.Fail("stuck", "an operation does not return")
			return
		}
		if r.Failed() {
			return
		}
		lone[i] = e.result()
		r.Settle(50 * ms)
	}
	b := k.newB()
	envs := make([]*ienv, n)
	for i := range plans {
		e := mk()
		envs[i] = e
		Sleep(starts[i])
		e.t0 = r.Now()
		do := k.build(b, nil, sets[i], e)
		e.c = r.nocli
		r.Go(func(int) { e.play(k, do, plans[i]) })
	}
	if ghost {
		Sleep(starts[0] + 300)
		e := mk()
		e.t0 = r.Now()
		k.build(b, nil, k.draw(w), e)
		if e.cancel != nil {
			r.Fault(FCancel)
			e.cancel()
		}
		e.close()
	}
	if !r.Wait(100000 * ms) {
		r.Fail("stuck", "an operation does not return while there are other instances")
		return
	}
	for i, e := range envs {
		got := e.result()
		for j := 0; j < max(len(got), len(lone[i])); j++ {
			var x, y iobs
			if j < len(got) {
				x = got[j]
			}
			if j < len(lone[i]) {
				y = lone[i][j]
			}
			if x != y {
				r.Fail("differs", "instance %d (%d of %d, from one builder) gave %s, alone %s", e.tag, i+1, n, k.show(x, plans[i]), k.show(y, plans[i]))
				return
			}
		}
	}
}

func (k *ikind) show(o iobs, plan []istep) string {
	if o == (iobs{}) {
		return "nothing"
	}
	if o.k >= 100 {
		st := plan[o.k-100]
		return fmt.Sprintf("(%d,%d) at +%.3f ms for %s(%d,%d)", o.a, o.b, msec(o.t), k.names[st.op], st.a, st.b)
	}
	name := fmt.Sprint(o.k)
	if o.k < len(k.names) {
		name = k.names[o.k]
	}
	return fmt.Sprintf("%s (%d,%d,%d) at +%.3f ms", name, o.a, o.b, o.d, msec(o.t))
}

// ---- the components -------------------------------------------------------------------

func drawn(l ...func(w *Chooser) int64) func(w *Chooser) iset {
	return func(w *Chooser) (s iset) {
		for i, f := range l {
			s[i] = f(w)
		}
		return
	}
}

func from(v ...int64) func(w *Chooser) int64 {
	return func(w *Chooser) int64 { return v[w.N(len(v))] }
}

var indepChunk = ikind{
	names: []string{"Add", "C", "Sizes", "chunk func"},
	wt:    []int{8, 2, 1},
	// room for every chunk: after a send that had to wait, the timeout and the next item may both be there
	draw: drawn(from(1, 2, 3, 7), from(1, 2, 5, 20), from(64, 100), from(40, 50), from(0, 1)),
	newB: func() any { return chans.NewChunkChan[int64]() },
	build: func(bb any, _ []iset, s iset, e *ienv) idoer {
		b := bb.(*chans.ChunkChanBuilder[int64])
		b.WithContext(e.ctx).WithChunkSize(int(s[0])).WithChunkTimeout(time.Duration(s[1] * ms)).WithIncomingBufferSize(int(s[2])).WithOutgoingBufferSize(int(s[3]))
		b.WithChunkFunc(nil)
		if s[4] == 1 {
			b.WithChunkFunc(func(l []int64) { e.sees(3, int64(len(l)), e.hash(l), 0) })
		}
		c := b.Build()
		n := int64(0)
		return func(op int, a, bv int64) (int64, int64) {
			switch op {
			case 0:
				n++
				c.Add(e.val(n))
			case 1:
				select {
				case l := <-c.C():
					return int64(len(l)), e.hash(l)
				default:
					return -1, 0
				}
			case 2:
				x, y := c.Sizes()
				return int64(x), int64(y)
			}
			return 0, 0
		}
	},
}

var indepShard = ikind{
	names: []string{"Add", "C", "Sizes", "worker func"},
	wt:    []int{8, 3, 1},
	draw:  drawn(from(1, 2, 3, 5), from(64, 100), from(0, 1, 40), from(0, 1), from(0, 1, 7)),
	newB:  func() any { return chans.NewShardChan[int64]() },
	build: func(bb any, _ []iset, s iset, e *ienv) idoer {
		b := bb.(*chans.ShardChanBuilder[int64])
		b.WithContext(e.ctx).WithShardCount(int(s[0])).WithIncomingBufferSize(int(s[1])).WithOutgoingBufferSize(int(s[2]))
		b.WithShardFunc(func(v int64) int { return int(e.norm(v) + s[4]) })
		b.WithWorkerFunc(nil)
		if s[3] == 1 {
			b.WithWorkerFunc(func(k int, v int64) { e.sees(3, int64(k), e.norm(v), 0) })
		}
		c, err := b.Build()
		if err != nil {
			e.r.failLater("build", "Build failed")
			return nil
		}
		n := int64(0)
		return func(op int, a, bv int64) (int64, int64) {
			switch op {
			case 0:
				n++
				if c.Add(e.val(n)) != nil {
					return 1, 0
				}
			case 1:
				select {
				case v := <-c.C(int(a)):
					return 1, e.norm(v)
				default:
					return -1, 0
				}
			case 2:
				x := int64(0)
				for _, l := range c.Sizes() {
					x = x*100 + int64(l)
				}
				return x, int64(c.ShardCount())
			}
			return 0, 0
		}
	},
}

var indepShardChunk = ikind{
	names: []string{"Add", "C", "Sizes", "worker func"},
	wt:    []int{8, 3, 1},
	draw:  drawn(from(1, 2, 3), from(1, 2, 3, 7), from(1, 2, 5, 20), from(40, 50), from(0, 1), from(0, 1, 7)),
	newB:  func() any { return chans.NewShardChunk[int64]() },
	build: func(bb any, _ []iset, s iset, e *ienv) idoer {
		b := bb.(*chans.ShardChunkBuilder[int64])
		b.WithContext(e.ctx).WithShardCount(int(s[0])).WithChunkSize(int(s[1])).WithChunkTimeout(time.Duration(s[2] * ms)).WithIncomingBufferSize(120).WithOutgoingBufferSize(int(s[3]))
		b.WithShardFunc(func(v int64) int { return int(e.norm(v) + s[5]) })
		b.WithShardWorker(nil)
		if s[4] == 1 {
			b.WithShardWorker(func(k int, l []int64) { e.sees(3, int64(k), int64(len(l)), e.hash(l)) })
		}
		c, err := b.Build()
		if err != nil {
			e.r.failLater("build", "Build failed")
			return nil
		}
		n := int64(0)
		return func(op int, a, bv int64) (int64, int64) {
			switch op {
			case 0:
				n++
				if c.Add(e.val(n)) != nil {
					return 1, 0
				}
			case 1:
				select {
				case l := <-c.C(int(a)):
					return int64(len(l)), e.hash(l)
				default:
					return -1, 0
				}
			case 2:
				l, x, y := c.Sizes()
				for _, v := range l {
					x += 1000 * v
				}
				return int64(x), int64(y*100 + c.ShardCount())
			}
			return 0, 0
		}
	},
}

var indepRunner = ikind{
	names: []string{"Run", "RunWithContext", "function begins", "function ends"},
	wt:    []int{1, 0},
	draw:  drawn(from(1, 2, 3), from(0, 1)),
	newB:  func() any { return workers.NewRunner() },
	build: func(bb any, _ []iset, s iset, e *ienv) idoer {
		c := bb.(*workers.RunnerBuilder).WithContext(e.ctx).WithWorkerCount(int(s[0])).Build()
		n := int64(0)
		return func(op int, a, d int64) (int64, int64) {
			n++
			i := n
			work := func() {
				e.sees(2, i, 0, 0)
				Sleep(d * 2 * ms)
				e.sees(3, i, 0, 0)
			}
			if s[1] == 0 {
				c.Run(work)
			} else {
				c.RunWithContext(func(ctx context.Context) {
					if ctx != e.ctx {
						e.r.failLater("context", "a function got the context of another Runner")
					}
					work()
				})
			}
			return 0, 0
		}
	},
}

var errIndep = errors.New("indep")

var indepGuava = ikind{
	names: []string{"Set", "Get", "Has", "HasOrCreate", "Delete", "Clear", "Size", "GetStored", "LockForUpdate", "load", "unload"},
	wt:    []int{4, 6, 2, 2, 2, 1, 3, 1, 2},
	draw:  drawn(from(0, 0, 1, 2), from(0, 0, 3, 9), from(0, 0, 3, 9), from(0, 1, 2), from(0, 1), from(0, 1)),
	newB:  func() any { return collections.NewGuavaMap[int, int64]() },
	build: func(bb any, _ []iset, s iset, e *ienv) idoer {
		b := bb.(*collections.GuavaMapBuilder[int, int64])
		b.WithContext(e.ctx).WithMaxCount(int(s[0])).WithReadTimeout(time.Duration(s[1] * ms)).WithWriteTimeout(time.Duration(s[2] * ms)).WithLockLoad(s[4] == 1)
		b.WithLoadFunc(nil).WithUnloadFunc(nil)
		n := int64(0)
		if s[3] > 0 {
			b.WithLoadFunc(func(k int) (int64, error) {
				e.sees(9, int64(k), 0, 0)
				Sleep(int64(k) * ms)
				if s[3] == 2 && k == 1 {
					return 0, errIndep
				}
				n++
				return e.val(1000 + n), nil
			})
		}
		if s[5] == 1 {
			b.WithUnloadFunc(func(k int, v int64) { e.sees(10, int64(k), e.norm(v), 0) })
		}
		m := b.Build()
		return func(op int, a, d int64) (int64, int64) {
			k := int(a)
			n++
			switch op {
			case 0:
				m.Set(k, e.val(n))
			case 1:
				v, err := m.Get(k)
				return e.norm(v), b2i(err != nil)
			case 2:
				return b2i(m.Has(k)), 0
			case 3:
				return b2i(m.HasOrCreate(k, e.val(n))), 0
			case 4:
				m.Delete(k)
			case 5:
				m.Clear()
			case 6:
				return int64(m.Size()), 0
			case 7:
				h := int64(0)
				l := m.GetStored()
				for k := 0; k < 3; k++ {
					if v, ok := l[k]; ok {
						h = h*70000 + e.norm(v)
					}
				}
				return h, int64(len(l))
			case 8:
				return e.norm(m.LockForUpdate(k, func() int64 { Sleep(d * ms); return e.val(n) })), 0
			}
			return 0, 0
		}
	},
}

var indepHashSet = ikind{
	names: []string{"Add", "Has", "HasOrCreate", "Delete", "Count", "Clear", "Keys"},
	wt:    []int{4, 3, 3, 2, 1, 1, 1},
	draw:  drawn(from(0, 1, 2, 3)),
	newB:  func() any { return collections.NewHashSet[int64]() },
	build: func(bb any, _ []iset, s iset, e *ienv) idoer {
		m := bb.(*collections.HashSetBuilder[int64]).WithMaxCount(int(s[0])).Build()
		return func(op int, a, d int64) (int64, int64) {
			k := a*4 + d/2
			switch op {
			case 0:
				m.Add(k)
			case 1:
				return b2i(m.Has(k)), 0
			case 2:
				return b2i(m.HasOrCreate(k)), 0
			case 3:
				m.Delete(k)
			case 4:
				return int64(m.Count()), 0
			case 5:
				m.Clear()
			case 6:
				x := int64(0)
				for _, k := range m.Keys() {
					x |= 1 << k
				}
				return x, 0
			}
			return 0, 0
		}
	},
}

var indepShardMap = ikind{
	names: []string{"Get", "Set", "Delete", "Has", "SetIfNotExists", "SetIfNotExistsWithFunc", "Clear", "Size"},
	wt:    []int{4, 4, 2, 1, 1, 1, 1, 2},
	draw:  drawn(from(1, 2, 6), from(0, 1)),
	newB:  func() any { return collections.NewShardMap[int, int64]() },
	build: func(bb any, _ []iset, s iset, e *ienv) idoer {
		m := bb.(*collections.ShardMapBuilder[int, int64]).WithShardsCount(int(s[0])).WithShardsFunc(func(k int) int { return (k + int(s[1])) % int(s[0]) }).Build()
		n := int64(0)
		return func(op int, a, d int64) (int64, int64) {
			k := int(a)
			n++
			switch op {
			case 0:
				v, ok := m.Get(k)
				return e.norm(v), b2i(ok)
			case 1:
				m.Set(k, e.val(n))
			case 2:
				m.Delete(k)
			case 3:
				return b2i(m.Has(k)), 0
			case 4:
				return b2i(m.SetIfNotExists(k, e.val(n))), 0
			case 5:
				v, ok := m.SetIfNotExistsWithFunc(k, func() int64 { return e.val(n) })
				return e.norm(v), b2i(ok)
			case 6:
				m.Clear()
			case 7:
				return int64(m.Size()), 0
			}
			return 0, 0
		}
	},
}

// none is the builder of what has none.
func none() any { return nil }

var indepMaps = ikind{
	names: []string{"Get", "Set", "Delete", "Has", "SetIfNotExists", "Size", "TwoKeyMap.Put", "TwoKeyMap.Get", "TwoKeyMap.GetByK2", "TwoKeyMap.Remove", "TwoKeyMap.Keys", "Set.Add", "Set.Remove", "Set.Values", "Set.Clone"},
	wt:    []int{3, 3, 1, 1, 1, 1, 3, 2, 2, 1, 1, 2, 1, 1, 1},
	draw:  drawn(from(0, 1)),
	newB:  none,
	build: func(_ any, _ []iset, s iset, e *ienv) idoer {
		m := collections.NewSimpleMap[int, int64]()
		t := collections.NewTwoKeyMap[int, int, int64]()
		c := collections.NewSet[int64]()
		n := int64(0)
		return func(op int, a, d int64) (int64, int64) {
			k := int(a)
			n++
			switch op {
			case 0:
				v, ok := m.Get(k)
				return e.norm(v), b2i(ok)
			case 1:
				m.Set(k, e.val(n))
			case 2:
				m.Delete(k)
			case 3:
				return b2i(m.Has(k)), 0
			case 4:
				return b2i(m.SetIfNotExists(k, e.val(n))), 0
			case 5:
				return int64(m.Size()), int64(t.Len())
			case 6:
				t.Put(k, int(d), e.val(n))
			case 7:
				v, ok := t.Get(k)
				return e.norm(v), b2i(ok)
			case 8:
				v, ok := t.GetByK2(int(d))
				return e.norm(v), b2i(ok)
			case 9:
				t.Remove(k)
			case 10:
				x := int64(0)
				for _, k := range t.Keys() {
					x |= 1 << k
				}
				return x, int64(len(t.KeysK2()))
			case 11:
				c.AddAll(e.val(a), e.val(d))
			case 12:
				c.Remove(e.val(a))
			case 13:
				return e.set(c.Values()), int64(c.Size())
			case 14:
				// a copy is an instance of its own
				o := c.Clone()
				o.Add(e.val(50 + n))
				o.Remove(e.val(a))
				return e.set(o.All()), b2i(c.Equals(o))
			}
			return 0, 0
		}
	},
}

var indepRequest = ikind{
	names: []string{"GetOrCreate", "GetOrCreateWithErr", "Count", "Timeout", "f", "result"},
	wt:    []int{4, 4, 2, 2},
	draw:  drawn(from(1, 50, 400), from(0, 1, 3)),
	newB:  none,
	build: func(_ any, _ []iset, s iset, e *ienv) idoer {
		var init []*collections.RequestMapInitializer[int, int64]
		for i := int64(0); i < s[1]; i++ {
			init = append(init, &collections.RequestMapInitializer[int, int64]{Key: int(i), Result: e.val(2000 + i)})
		}
		m := collections.NewRequestMap(e.ctx, time.Duration(s[0]*ms), init...)
		n := int64(0)
		return func(op int, a, d int64) (int64, int64) {
			n++
			id := n
			f := func(k int) (int64, error) {
				e.sees(4, int64(k), id, 0)
				Sleep(d * 2 * ms)
				if d == 2 {
					return 0, errIndep
				}
				return e.val(id), nil
			}
			switch op {
			case 0:
				go func() {
					v := m.GetOrCreate(int(a), func(k int) int64 { v, _ := f(k); return v })
					e.sees(5, id, e.norm(v), 0)
				}()
			case 1:
				go func() {
					v, err := m.GetOrCreateWithErr(int(a), f)
					e.sees(5, id, e.norm(v), b2i(err != nil))
				}()
			case 2:
				return int64(m.Count()), 0
			case 3:
				go func() {
					v, err := m.Timeout(time.Duration(a*3*ms+500), f)(int(a))
					e.sees(5, id, e.norm(v), b2i(err != nil))
				}()
			}
			return 0, 0
		}
	},
}

var indepResponse = ikind{
	names: []string{"Set", "Wait", "result"},
	wt:    []int{2, 3},
	draw:  drawn(from(2, 5, 20), from(3, 10, 40)),
	newB:  func() any { return nil },
	build: func(_ any, _ []iset, s iset, e *ienv) idoer {
		// the builder takes its context when it is made
		m := collections.NewResponseMap[int, int64](e.ctx).WithResponseTimeout(time.Duration(s[0] * ms)).WithClearTimeout(time.Duration(s[1] * ms)).Build()
		n := int64(0)
		return func(op int, a, d int64) (int64, int64) {
			n++
			id := n
			switch op {
			case 0:
				m.Set(int(a), e.val(n))
			case 1:
				go func() { e.sees(2, id, e.norm(m.Wait(int(a))), 0) }()
			}
			return 0, 0
		}
	},
}

// indepResponse1 is ResponseMap with one context and one builder.
var indepResponse1 = ikind{
	names: indepResponse.names,
	wt:    indepResponse.wt,
	draw:  indepResponse.draw,
	newB: func() any {
		ctx, _ := curR.Ctx()
		return collections.NewResponseMap[int, int64](ctx)
	},
	build: func(bb any, _ []iset, s iset, e *ienv) idoer {
		m := bb.(*collections.ResponseMapBuilder[int, int64]).WithResponseTimeout(time.Duration(s[0] * ms)).WithClearTimeout(time.Duration(s[1] * ms)).Build()
		n := int64(0)
		return func(op int, a, d int64) (int64, int64) {
			n++
			id := n
			switch op {
			case 0:
				m.Set(int(a), e.val(n))
			case 1:
				go func() { e.sees(2, id, e.norm(m.Wait(int(a))), 0) }()
			}
			return 0, 0
		}
	},
}

var indepWait = ikind{
	names: []string{"Set", "Wait", "Count", "result"},
	wt:    []int{3, 4, 2},
	draw:  drawn(from(2, 5, 20), from(3, 10, 40)),
	newB:  func() any { return collections.NewWaitMap[int, int64]() },
	build: func(bb any, _ []iset, s iset, e *ienv) idoer {
		m := bb.(*collections.WaitMapBuilder[int, int64]).WithContext(e.ctx).WithRequestTimeout(time.Duration(s[0] * ms)).WithResponseTtl(time.Duration(s[1] * ms)).Build()
		n := int64(0)
		return func(op int, a, d int64) (int64, int64) {
			n++
			id := n
			switch op {
			case 0:
				m.Set(int(a), e.val(n))
			case 1:
				go func() { e.sees(3, id, e.norm(m.Wait(int(a))), 0) }()
			case 2:
				return int64(m.Count()), 0
			}
			return 0, 0
		}
	},
}

var indepHolder = ikind{
	names: []string{"Wait", "Release", "Error", "Update", "Get", "Count", "result"},
	wt:    []int{5, 2, 1, 1, 2, 2},
	draw:  drawn(from(2, 5, 20), from(3, 10, 40)),
	newB:  func() any { return collections.NewHolderMap[int, int64]() },
	build: func(bb any, _ []iset, s iset, e *ienv) idoer {
		m := bb.(*collections.HolderMapBuilder[int, int64]).WithContext(e.ctx).WithTimeout(time.Duration(s[0] * ms)).WithTTL(time.Duration(s[1] * ms)).Build()
		n := int64(0)
		return func(op int, a, d int64) (int64, int64) {
			n++
			id := n
			k := int(a)
			switch op {
			case 0:
				go func() { e.sees(6, id, outcome(m.Wait(k, e.val(id))), 0) }()
			case 1:
				return outcome(m.Release(k)), 0
			case 2:
				return outcome(m.Error(k, callErr(200+n))), 0
			case 3:
				return outcome(m.Update(k, e.val(n))), 0
			case 4:
				v, err := m.Get(k)
				return e.norm(v), outcome(err)
			case 5:
				return int64(m.Count()), 0
			}
			return 0, 0
		}
	},
}

var indepUniq = ikind{
	names: []string{"Add", "Has", "Remove", "Count"},
	wt:    []int{4, 3, 1, 1},
	draw:  drawn(from(2, 7, 30), from(1, 3, 10), from(0, 1)),
	newB:  func() any { return collections.NewStructUniqSet[int64]() },
	build: func(bb any, _ []iset, s iset, e *ienv) idoer {
		m := bb.(*collections.StructUniqSetBuilder[int64]).WithContext(e.ctx).WithElementTtl(time.Duration(s[0] * ms)).WithCheckInterval(time.Duration(s[1] * ms)).
			WithBuildFunc(func(v int64, _ ...any) (h [16]byte, err error) {
				h[0] = byte(v)
				if s[2] == 1 {
					h[0] /= 2
				}
				return
			}).Build()
		return func(op int, a, d int64) (int64, int64) {
			var ok bool
			var err error
			switch op {
			case 0:
				ok, err = m.Add(a + d/2)
			case 1:
				ok, err = m.Has(a + d/2)
			case 2:
				ok, err = m.Remove(a + d/2)
			case 3:
				return int64(m.Count()), 0
			}
			return b2i(ok), b2i(err != nil)
		}
	},
}

// igob is hashed by the set's own function, which does not work for some values.
type igob struct {
	V    int64
	Fail bool
}

func (g igob) GobEncode() ([]byte, error) {
	if g.Fail {
		return nil, errIndep
	}
	return []byte{byte(g.V)}, nil
}

var indepGob = ikind{
	names: indepUniq.names,
	wt:    []int{4, 3, 1, 1},
	draw:  drawn(from(7, 30, 1000), from(1, 10), from(0, 2, 3)),
	newB:  func() any { return collections.NewStructUniqSet[igob]() },
	build: func(bb any, _ []iset, s iset, e *ienv) idoer {
		m := bb.(*collections.StructUniqSetBuilder[igob]).WithContext(e.ctx).WithElementTtl(time.Duration(s[0] * ms)).WithCheckInterval(time.Duration(s[1] * ms)).Build()
		return func(op int, a, d int64) (int64, int64) {
			g := igob{a, s[2] > 0 && d%s[2] == 1}
			if g.Fail && op < 3 {
				e.r.Fault(FLoaderErr)
			}
			var ok bool
			var err error
			switch op {
			case 0:
				ok, err = m.Add(g)
			case 1:
				ok, err = m.Has(g)
			case 2:
				ok, err = m.Remove(g)
			case 3:
				return int64(m.Count()), 0
			}
			return b2i(ok), b2i(err != nil)
		}
	},
}

var indepLocks = ikind{
	names: []string{"MapMutex", "MapRWMutex", "MapRWMutex for reading"},
	wt:    []int{1, 1, 1},
	draw:  drawn(from(0, 1)),
	newB:  none,
	build: func(_ any, _ []iset, s iset, e *ienv) idoer {
		m := collections.NewMapMutex[int]()
		rw := collections.NewMapRWMutex[int]()
		var held [3][3]bool
		return func(op int, a, d int64) (int64, int64) {
			k := int(a)
			if op == 1 && held[2][k] || op == 2 && held[1][k] {
				op = 0
			}
			h := held[op][k]
			held[op][k] = !h
			switch {
			case op == 0 && !h:
				m.Lock(k)
			case op == 0:
				m.Unlock(k)
			case op == 1 && !h:
				rw.Lock(k)
			case op == 1:
				rw.Unlock(k)
			case !h:
				rw.RLock(k)
			default:
				rw.RUnlock(k)
			}
			return int64(op), b2i(h)
		}
	},
}

type iev struct {
	e  *ienv
	ev int64
}

var indepFlow = ikind{
	names: []string{"process", "step"},
	wt:    []int{1},
	draw:  drawn(from(1, 2, 3), from(1, 2, 3), from(0, 2, 3), from(0, 1)),
	newB:  func() any { return flow.NewProcessor[iev, int64]() },
	build: func(bb any, prev []iset, s iset, e *ienv) idoer {
		b := bb.(*flow.ProcessorBuilder[iev, int64])
		add := func(s iset) {
			for i := int64(0); i < s[0]; i++ {
				step := func(x iev, st int64) error {
					x.e.sees(1, s[1]*10+i, x.ev, st)
					if s[2] > 0 && (x.ev+i)%s[2] == 0 {
						return errIndep
					}
					return nil
				}
				if s[3] == 1 {
					b.RouteOn(func(x iev) bool { return x.ev != 2 }, step, step)
				} else {
					b.Route(func(rb *flow.ProcessorRouterBuilder[iev, int64]) { rb.Do(step) })
				}
			}
		}
		for _, p := range prev {
			add(p)
		}
		add(s)
		f := b.Build()
		return func(op int, a, d int64) (int64, int64) { return b2i(f(iev{e, a}, d) != nil), 0 }
	},
}

func init() {
	for _, s := range []struct {
		name   string
		weight int
		k      *ikind
	}{
		{"indep-chunk", 3, &indepChunk},
		{"indep-shard", 3, &indepShard},
		{"indep-shardchunk", 3, &indepShardChunk},
		{"indep-runner", 1, &indepRunner},
		{"indep-guava", 4, &indepGuava},
		{"indep-hashset", 1, &indepHashSet},
		{"indep-shardmap", 1, &indepShardMap},
		{"indep-maps", 2, &indepMaps},
		{"indep-request", 2, &indepRequest},
		{"indep-response", 1, &indepResponse},
		{"indep-response-one", 1, &indepResponse1},
		{"indep-wait", 2, &indepWait},
		{"indep-holder", 2, &indepHolder},
		{"indep-uniq", 1, &indepUniq},
		{"indep-gob", 1, &indepGob},
		{"indep-locks", 1, &indepLocks},
		{"indep-flow", 2, &indepFlow},
	} {
		reg(&Scenario{Prop: "C42", Name: s.name, Weight: s.weight, Names: s.k.names, Fn: func(r *R) { indep(r, s.k) }})
	}
}
