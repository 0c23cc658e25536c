package main

import (
	"errors"
	"runtime"
	"time"
	"unsafe"
	"weak"

	"github.com/axgrid/axutils/collections"
)

// Keys and values that can be watched: they refer to objects of their own. Keys are text, for a map
// hashes what it says and not where it is: the order of a map's keys is the same in every execution.
type ckey struct{ s string }

type cbuf struct {
	text [8]byte
	_    [3]int64
}

func newKey(id int64) ckey {
	b := &cbuf{}
	for i := range b.text {
		b.text[i] = byte(id >> (8 * i))
	}
	return ckey{unsafe.String(&b.text[0], len(b.text))}
}

func (k ckey) buf() *cbuf { return (*cbuf)(unsafe.Pointer(unsafe.StringData(k.s))) }

func (k ckey) id() (id int64) {
	for i := 0; i < len(k.s); i++ {
		id |= int64(k.s[i]) << (8 * i)
	}
	return id
}

type cval struct {
	id int64
	_  [5]int64
}

// churner is a collection through which many keys pass.
type churner struct {
	kinds []string
	exec  func(kind int, k ckey, v *cval, arg int64)
	// after this time nothing may be left of what is no longer used (simulated time)
	gone  int64
	purge func(k ckey) // what a client does to have it gone; nil: nothing is needed
	clear func()       // all at once instead of purge, when there is such a thing
	keep  int          // this many entries may stay
	blind bool         // keys and values are not kept at all: only the heap and the goroutines tell
}

const churnUnit = int64(time.Millisecond)

func churnGuava(r *R) *churner {
	w := &r.W
	ctx, _ := r.Ctx()
	c := &churner{kinds: []string{"Set", "Get", "Has", "HasOrCreate", "LockForUpdate", "Delete"}}
	b := collections.NewGuavaMap[ckey, *cval]().WithContext(ctx)
	max := One(w, 0, 0, 1, 4)
	timed := w.Pct(50)
	if max > 0 {
		b = b.WithMaxCount(max)
	}
	rt, wt := int64(0), int64(0)
	if timed {
		switch w.N(3) {
		case 0:
			rt = 5 * churnUnit
		case 1:
			wt = 5 * churnUnit
		default:
			rt, wt = 3*churnUnit, 6*churnUnit
		}
		b = b.WithReadTimeout(time.Duration(rt)).WithWriteTimeout(time.Duration(wt))
	}
	loader, failing, panics := w.N(3), false, w.Pct(20)
	lock := w.Pct(50)
	if loader > 0 {
		failing = loader == 2 && w.Pct(50)
		b = b.WithLoadFunc(func(k ckey) (*cval, error) {
			Pause()
			if failing {
				if panics {
					r.Fault(FPanic)
					panic("loader")
				}
				r.Fault(FLoaderErr)
				return nil, errors.New("no")
			}
			return &cval{id: k.id()}, nil
		}).WithLockLoad(lock)
	}
	unload := w.Pct(40)
	if unload {
		b = b.WithUnloadFunc(func(k ckey, v *cval) { Pause() })
	}
	m := b.Build()
	c.exec = func(kind int, k ckey, v *cval, arg int64) {
		if panics {
			defer func() { recover() }()
		}
		switch kind {
		case 0:
			m.Set(k, v)
		case 1:
			m.Get(k)
		case 2:
			m.Has(k)
		case 3:
			m.HasOrCreate(k, v)
		case 4:
			m.LockForUpdate(k, func() *cval {
				Pause()
				if panics {
					r.Fault(FPanic)
					panic("update")
				}
				return v
			})
		case 5:
			m.Delete(k)
		}
	}
	c.gone = 2*(rt+wt) + churnUnit
	switch {
	case timed && w.Pct(50):
	case max > 0 && w.Pct(50):
		c.keep = max
	case w.Pct(50):
		c.clear = m.Clear
	default:
		c.purge = m.Delete
	}
	if timed && max > 0 {
		c.keep = max
	}
	r.Cfg("GuavaMap max=%d read=%d write=%d loader=%d failing=%v lockload=%v unload=%v", max, rt, wt, loader, failing, lock, unload)
	return c
}

func slow(r *R, d int64) {
	if d > 0 {
		r.Fault(FSlowCallback)
		Sleep(d)
	}
}

func churnRequest(r *R) *churner {
	ctx, _ := r.Ctx()
	ttl := One[int64](&r.W, 20, 150) * churnUnit
	m := collections.NewRequestMap[ckey, *cval](ctx, time.Duration(ttl))
	r.Cfg("RequestMap ttl=%d", ttl)
	return &churner{
		kinds: []string{"GetOrCreate", "GetOrCreateWithErr", "Timeout"},
		gone:  2*ttl + 300*churnUnit,
		exec: func(kind int, k ckey, v *cval, arg int64) {
			switch kind {
			case 0:
				m.GetOrCreate(k, func(ckey) *cval { slow(r, arg); return v })
			case 1:
				m.GetOrCreateWithErr(k, func(ckey) (*cval, error) { slow(r, arg); r.Fault(FLoaderErr); return nil, errors.New("no") })
			case 2:
				m.Timeout(time.Duration(churnUnit), func(ckey) (*cval, error) { slow(r, arg); return v, nil })(k)
			}
		},
	}
}

func churnResponse(r *R) *churner {
	ctx, _ := r.Ctx()
	rt, ct := One[int64](&r.W, 2, 20)*churnUnit, One[int64](&r.W, 10, 40)*churnUnit
	m := collections.NewResponseMap[ckey, *cval](ctx).WithResponseTimeout(time.Duration(rt)).WithClearTimeout(time.Duration(ct)).Build()
	r.Cfg("ResponseMap response=%d clear=%d", rt, ct)
	return &churner{
		kinds: []string{"Set", "Wait"},
		gone:  3*ct + rt + churnUnit,
		exec: func(kind int, k ckey, v *cval, arg int64) {
			switch kind {
			case 0:
				m.Set(k, v)
			case 1:
				m.Wait(k)
			}
		},
	}
}

func churnWait(r *R) *churner {
	ctx, _ := r.Ctx()
	rt, ttl := One[int64](&r.W, 2, 20)*churnUnit, One[int64](&r.W, 10, 40)*churnUnit
	m := collections.NewWaitMap[ckey, *cval]().WithContext(ctx).WithRequestTimeout(time.Duration(rt)).WithResponseTtl(time.Duration(ttl)).Build()
	r.Cfg("WaitMap request=%d ttl=%d", rt, ttl)
	return &churner{
		kinds: []string{"Set", "Wait"},
		gone:  rt + ttl + churnUnit,
		exec: func(kind int, k ckey, v *cval, arg int64) {
			switch kind {
			case 0:
				m.Set(k, v)
			case 1:
				m.Wait(k)
			}
		},
	}
}

func churnHolder(r *R) *churner {
	ctx, _ := r.Ctx()
	to, ttl := One[int64](&r.W, 2, 20)*churnUnit, One[int64](&r.W, 10, 40)*churnUnit
	m := collections.NewHolderMap[ckey, *cval]().WithContext(ctx).WithTimeout(time.Duration(to)).WithTTL(time.Duration(ttl)).Build()
	r.Cfg("HolderMap timeout=%d ttl=%d", to, ttl)
	return &churner{
		kinds: []string{"Wait", "Release", "Error", "Update", "Get"},
		gone:  to + ttl + churnUnit,
		exec: func(kind int, k ckey, v *cval, arg int64) {
			switch kind {
			case 0:
				m.Wait(k, v)
			case 1:
				m.Release(k)
			case 2:
				m.Error(k, errors.New("no"))
			case 3:
				m.Update(k, v)
			case 4:
				m.Get(k)
			}
		},
	}
}

func churnHashSet(r *R) *churner {
	max := One(&r.W, 0, 1, 4)
	m := collections.NewHashSet[ckey]().WithMaxCount(max).Build()
	r.Cfg("HashSet max=%d", max)
	c := &churner{
		kinds: []string{"Add", "HasOrCreate", "Delete", "Has"},
		exec: func(kind int, k ckey, v *cval, arg int64) {
			switch kind {
			case 0:
				m.Add(k)
			case 1:
				m.HasOrCreate(k)
			case 2:
				m.Delete(k)
			case 3:
				m.Has(k)
			}
		},
	}
	switch {
	case max > 0 && r.W.Pct(60):
		c.keep = max
	case r.W.Pct(40):
		c.clear = m.Clear
	default:
		c.purge = m.Delete
	}
	return c
}

func churnTwoKey(r *R) *churner {
	m := collections.NewTwoKeyMap[ckey, *cval, *cval]()
	by := r.W.N(2)
	fixed := [4]ckey{}
	for i := range fixed {
		fixed[i] = newKey(int64(i))
	}
	r.Cfg("TwoKeyMap by=%d", by)
	c := &churner{
		kinds: []string{"Put", "PutOver", "Remove", "Get"},
		exec: func(kind int, k ckey, v *cval, arg int64) {
			switch kind {
			case 0:
				m.Put(k, v, v)
				if by == 1 {
					m.RemoveByK2(v)
				}
			case 1:
				m.Put(fixed[arg/churnUnit%4], v, v) // a new second key each time
			case 2:
				m.Remove(k)
			case 3:
				m.Get(k)
			}
		},
		keep: 8,
	}
	c.purge = m.Remove
	return c
}

func churnMap(r *R) *churner {
	var m collections.Map[ckey, *cval]
	var clear func()
	if r.W.Pct(50) {
		s := collections.NewSimpleMap[ckey, *cval]()
		m = s
		r.Cfg("SimpleMap")
	} else {
		s := collections.NewShardMap[ckey, *cval]().WithShardsCount(3).WithShardsFunc(func(k ckey) int { return int(k.id() % 3) }).Build()
		m, clear = s, s.Clear
		r.Cfg("ShardMap")
	}
	c := &churner{
		kinds: []string{"Set", "SetIfNotExists", "SetIfNotExistsWithFunc", "Delete", "Get"},
		exec: func(kind int, k ckey, v *cval, arg int64) {
			switch kind {
			case 0:
				m.Set(k, v)
			case 1:
				m.SetIfNotExists(k, v)
			case 2:
				m.SetIfNotExistsWithFunc(k, func() *cval { return v })
			case 3:
				m.Delete(k)
			case 4:
				m.Get(k)
			}
		},
	}
	if clear != nil && r.W.Pct(50) {
		c.clear = clear
	} else {
		c.purge = m.Delete
	}
	return c
}

func churnLock(r *R) *churner {
	rw := r.W.Pct(50)
	r.Cfg("locks rw=%v", rw)
	if rw {
		m := collections.NewMapRWMutex[ckey]()
		return &churner{
			kinds: []string{"Lock", "RLock"},
			exec: func(kind int, k ckey, v *cval, arg int64) {
				switch kind {
				case 0:
					m.Lock(k)
					Sleep(arg)
					m.Unlock(k)
				case 1:
					m.RLock(k)
					Sleep(arg)
					m.RUnlock(k)
				}
			},
		}
	}
	m := collections.NewMapMutex[ckey]()
	return &churner{
		kinds: []string{"Lock"},
		exec: func(kind int, k ckey, v *cval, arg int64) {
			m.Lock(k)
			Sleep(arg)
			m.Unlock(k)
		},
	}
}

func churnUniq(r *R) *churner {
	ctx, _ := r.Ctx()
	ttl, iv := One[int64](&r.W, 10, 40)*churnUnit, One[int64](&r.W, 2, 15)*churnUnit
	m := collections.NewStructUniqSet[ckey]().WithContext(ctx).WithElementTtl(time.Duration(ttl)).WithCheckInterval(time.Duration(iv)).
		WithBuildFunc(func(k ckey, _ ...any) ([16]byte, error) {
			var h [16]byte
			for i := 0; i < 8; i++ {
				h[i] = byte(k.id() >> (8 * i))
			}
			return h, nil
		}).Build()
	r.Cfg("StructUniqSet ttl=%d interval=%d", ttl, iv)
	return &churner{
		blind: true,
		kinds: []string{"Add", "Remove", "Has"},
		gone:  2*ttl + 3*iv + churnUnit,
		exec: func(kind int, k ckey, v *cval, arg int64) {
			switch kind {
			case 0:
				m.Add(k)
			case 1:
				m.Remove(k)
			case 2:
				m.Has(k)
			}
		},
	}
}

type churnOp struct {
	kind, key int
	val, arg  int64
	pause     int64
}

const (
	churnSegs   = 4
	churnRounds = 6
	churnKeys   = 10
)

func churn(r *R, c *churner) {
	w := &r.W
	heap := c.blind || w.Pct(30)
	// mostly one kind of operation: what leaks may leak on one path only
	weight := make([]int, len(c.kinds))
	for i := range weight {
		weight[i] = 1
	}
	weight[w.N(len(weight))] += One(w, 0, 4, 20)
	clients := w.In(1, 3)
	each := One(w, 1, 2)
	r.Cfg("clients=%d each=%d heap=%v weights=%v keep=%d purge=%v clear=%v", clients, each, heap, weight, c.keep, c.purge != nil, c.clear != nil)
	var keys []weak.Pointer[cbuf]
	var vals []weak.Pointer[cval]
	note := func(k *cbuf, v *cval) {
		if heap {
			return
		}
		if k != nil {
			keys = append(keys, weak.Make(k))
		}
		if v != nil {
			vals = append(vals, weak.Make(v))
		}
	}
	if !heap {
		keys = make([]weak.Pointer[cbuf], 0, 4096)
		vals = make([]weak.Pointer[cval], 0, 4096)
	}
	r.Settle(1)
	base := r.Goroutines()
	id := int64(0)
	var plan [3][churnKeys * 2]churnOp
	round := func() {
		id += churnKeys
		first := id
		n := churnKeys * each
		for cl := 0; cl < clients; cl++ {
			for i := 0; i < n; i++ {
				plan[cl][i] = churnOp{kind: w.W(weight...), key: i * churnKeys / n, arg: int64(w.N(4)) * churnUnit, pause: int64(w.W(6, 1, 1)) * churnUnit}
			}
		}
		ks := new([churnKeys]ckey)
		for i := range ks {
			ks[i] = newKey(first + int64(i))
			note(ks[i].buf(), nil)
		}
		vs := new([3][churnKeys * 2]*cval)
		for cl := 0; cl < clients; cl++ {
			for i := 0; i < n; i++ {
				vs[cl][i] = &cval{id: first}
				note(nil, vs[cl][i])
			}
		}
		for cl := 0; cl < clients; cl++ {
			r.Go(func(int) {
				for i := 0; i < n; i++ {
					o := plan[cl][i]
					o2 := r.Inv(cl, uint8(o.kind), first+int64(o.key), o.arg, 0)
					c.exec(o.kind, ks[o.key], vs[cl][i], o.arg)
					r.Ret(o2, 0, 0)
					Sleep(o.pause)
				}
			})
		}
		if !r.Wait(100000 * ms) {
			r.Fail("stuck", "operations have not ended")
			return
		}
		if c.purge != nil {
			for cl := 0; cl < clients; cl++ {
				r.Go(func(int) {
					for i := cl; i < churnKeys; i += clients {
						c.purge(ks[i])
					}
				})
			}
			r.Wait(100000 * ms)
		}
		if c.clear != nil {
			c.clear()
		}
		r.Settle(c.gone + 1 + 2*r.maxStall)
	}
	var objs [churnSegs]uint64
	for s := 0; s < churnSegs; s++ {
		for i := 0; i < churnRounds; i++ {
			round()
			if r.Failed() {
				return
			}
		}
		if s == churnSegs-1 {
			r.Calm()
			r.Settle(c.gone + 1)
		}
		if heap {
			objs[s] = runtime.AxHeapObjects()
		}
	}
	left := c.keep
	if n := r.Goroutines(); n > base+left+4 {
		r.Fail("goroutines", "%d goroutines are left after %d keys have come and gone, %d before", n-1, id, base-1)
		return
	}
	if heap {
		least := int64(1) << 60
		for s := 1; s < churnSegs; s++ {
			least = min(least, int64(objs[s])-int64(objs[s-1]))
		}
		if least >= churnRounds*churnKeys*3/4 {
			r.Fail("memory", "every %d keys that come and go leave %d objects or more on the heap", churnRounds*churnKeys, least)
		}
		return
	}
	runtime.AxGC()
	alive := 0
	for _, k := range keys {
		if k.Value() != nil {
			alive++
		}
	}
	if bound := 4*churnKeys + 4*left; alive > bound {
		r.Fail("memory", "%d of %d keys that have come and gone are still kept", alive, len(keys))
		return
	}
	alive = 0
	for _, v := range vals {
		if v.Value() != nil {
			alive++
		}
	}
	if bound := 4*churnKeys*clients*each + 4*left; alive > bound {
		r.Fail("memory", "%d of %d values that have come and gone are still kept", alive, len(vals))
	}
}

func init() {
	for _, s := range []struct {
		name   string
		weight int
		mk     func(*R) *churner
	}{
		{"churn-guava", 5, churnGuava},
		{"churn-request", 2, churnRequest},
		{"churn-response", 1, churnResponse},
		{"churn-wait", 2, churnWait},
		{"churn-holder", 2, churnHolder},
		{"churn-hashset", 1, churnHashSet},
		{"churn-twokey", 1, churnTwoKey},
		{"churn-map", 1, churnMap},
		{"churn-lock", 2, churnLock},
		{"churn-uniq", 1, churnUniq},
	} {
		reg(&Scenario{Prop: "C41", Name: s.name, Weight: s.weight, Stalls: true, MaxY: 6000000, Fn: func(r *R) { churn(r, s.mk(r)) }})
	}
}
