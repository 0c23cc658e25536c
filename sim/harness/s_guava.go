package main

import (
	"context"
	"sort"
	"time"
)

const (
	gSet     = iota // A: key, B: value
	gGet            // A: key; R: value, R2: error (the number of the load)
	gHas            // A: key; R
	gHoc            // A: key, B: value; R
	gDel            // A: key
	gClear          //
	gSize           // R
	gStored         // R: digest, R2: number of entries
	gUpd            // A: key, B: value; R: value
	gLoad           // a load begins: A: key, B: load
	gLoadEnd        // A: key, B: load, D: fails
	gUnload         // A: key, B: value
	gEnd            // nothing is left to be unloaded (only in the linearizability check)
	gUpdBegin
	gUpdEnd
	gCancel
)

var guavaNames = []string{"Set", "Get", "Has", "HasOrCreate", "Delete", "Clear", "Size", "GetStored", "LockForUpdate", "load begins", "load ends", "unload", "end", "update begins", "update ends", "cancel"}

const (
	guavaKeys = 6
	guavaTop  = 256
)

// cache lists the entries, oldest first.
type cache struct {
	n   int8
	k   [guavaKeys + 1]int8
	v   [guavaKeys + 1]int64
	out [8]int64 // removed and not yet unloaded (key<<32 | value), sorted; only when unloads are watched
}

func (s cache) find(k int64) int {
	for i := 0; i < int(s.n); i++ {
		if int64(s.k[i]) == k {
			return i
		}
	}
	return -1
}

// drop removes entry i; with watch the removal is noted (false: no room).
func (s cache) drop(i int, watch bool) (cache, bool) {
	if watch {
		if s.out[0] != 0 {
			return s, false
		}
		s.out[0] = int64(s.k[i])<<32 | (s.v[i] + 1)
		sort.Slice(s.out[:], func(a, b int) bool { return s.out[a] < s.out[b] })
	}
	copy(s.k[i:], s.k[i+1:])
	copy(s.v[i:], s.v[i+1:])
	s.n--
	s.k[s.n], s.v[s.n] = 0, 0
	return s, true
}

func (s cache) unloaded(k, v int64) (cache, bool) {
	x := k<<32 | (v + 1)
	for i := range s.out {
		if s.out[i] == x {
			s.out[i] = 0
			sort.Slice(s.out[:], func(a, b int) bool { return s.out[a] < s.out[b] })
			return s, true
		}
	}
	return s, false
}

// insert adds an absent key; the oldest entry makes room.
func (s cache) insert(k, v int64, max int, watch bool) (cache, bool) {
	if max > 0 && int(s.n) >= max {
		var ok bool
		if s, ok = s.drop(0, watch); !ok {
			return s, false
		}
	}
	s.k[s.n], s.v[s.n] = int8(k), v
	s.n++
	return s, true
}

func (s cache) digest() int64 {
	d := int64(0)
	for i := 0; i < int(s.n); i++ {
		d += int64(mix(uint64(s.k[i])<<32|uint64(s.v[i])) >> 8)
	}
	return d
}

func storedDigest(m map[int]int64) int64 {
	d := int64(0)
	for k, v := range m {
		d += int64(mix(uint64(k)<<32|uint64(v)) >> 8)
	}
	return d
}

type guavaSys struct {
	r          *R
	m          guavaI
	cancel     context.CancelFunc
	loader     bool
	dur        int64 // of a load
	failing    int   // percent of loads that fail
	nested     bool
	locked     bool // WithLockLoad
	loads      Cell
	plan       []loadPlan
	busy       [guavaTop]Cell
	slowUnload int64
	last       [64]Cell // what each client's own load was
}

type loadPlan struct {
	dur    int64
	fails  bool
	nested bool
	panics bool // when it fails
}

// drawLoads decides beforehand how the loads will go.
func (s *guavaSys) drawLoads(n int, durs ...int64) {
	w := &s.r.W
	s.plan = make([]loadPlan, n)
	p := One(w, 0, 20, 60)
	for i := range s.plan {
		s.plan[i] = loadPlan{dur: One(w, durs...), fails: w.Pct(p), nested: w.Pct(15), panics: w.Pct(15)}
	}
}

func (s *guavaSys) load(k int) (int64, error) {
	r := s.r
	id := s.loads.Add(1)
	p := s.plan[int(id)%len(s.plan)]
	if k < 0 || k >= guavaTop {
		r.failLater("argument", "the load function was called with a key nobody asked for")
		return 0, nil
	}
	r.Obs(-1, gLoad, int64(k), 1000+id, 0)
	if s.locked && s.busy[k].Add(1) > 1 {
		r.failLater("flights", "two loads of one key run at once in spite of LockLoad")
	}
	Pause()
	if p.nested && s.nested && k+1 < guavaKeys {
		// a load may use the map, for other keys
		r.Probe(0)
		s.m.Has(k + 1)
	}
	if p.dur > 0 {
		r.Fault(FSlowCallback)
		Sleep(p.dur)
	}
	Pause()
	s.busy[k].Add(-1)
	r.Obs(-1, gLoadEnd, int64(k), 1000+id, b2i(p.fails))
	if p.fails {
		r.Fault(FLoaderErr)
		if p.panics {
			r.Fault(FPanic)
			panic(callErr(1000 + id))
		}
		return 7, callErr(1000 + id)
	}
	return 1000 + id, nil
}

func (s *guavaSys) do(c int, a act) {
	r := s.r
	h := r.Inv(c, a.op, a.a, a.b, 0)
	k := int(a.a)
	switch a.op {
	case gSet:
		s.m.Set(k, a.b)
		r.Ret(h, 0, 0)
	case gGet:
		v, err := s.get(k)
		r.Ret(h, v, outcome(err))
	case gHas:
		r.Ret(h, b2i(s.m.Has(k)), 0)
	case gHoc:
		r.Ret(h, b2i(s.m.HasOrCreate(k, a.b)), 0)
	case gDel:
		s.m.Delete(k)
		r.Ret(h, 0, 0)
	case gClear:
		s.m.Clear()
		r.Ret(h, 0, 0)
	case gSize:
		r.Ret(h, int64(s.m.Size()), 0)
	case gStored:
		m := s.m.GetStored()
		r.Ret(h, storedDigest(m), int64(len(m)))
		m[99] = 1 // it is the caller's
	case gUpd:
		r.Ret(h, s.m.LockForUpdate(k, func() int64 { Pause(); return a.b }), 0)
	case gCancel:
		r.Fault(FCancel)
		s.cancel()
		r.Ret(h, 0, 0)
	}
}

// get turns a panic of the load into its error.
func (s *guavaSys) get(k int) (v int64, err error) {
	defer func() {
		if e := recover(); e != nil {
			ce, ok := e.(callErr)
			if !ok {
				panic(e)
			}
			v, err = 0, ce
		}
	}()
	return s.m.Get(k)
}

// unloader records what is unloaded; it may be slow and use the map.
func (s *guavaSys) unloader() func(int, int64) {
	r := s.r
	s.slowUnload = One(&r.W, 0, 0, 0, ms, 40*ms)
	use := r.W.Pct(30)
	r.Cfg("unload=%.0fms uses=%v", msec(s.slowUnload), use)
	return func(k int, v int64) {
		r.Obs(-1, gUnload, int64(k), v, 0)
		if s.slowUnload > 0 {
			r.Fault(FSlowCallback)
			Sleep(s.slowUnload)
		}
		if use {
			s.m.Size()
			s.m.Delete(guavaTop) // never there
			s.m.GetStored()
		}
	}
}

// guavaStep is the sequential map.
func guavaStep(max int, loader, watch bool) func(st cache, o *Op, emit func(cache)) {
	return func(st cache, o *Op, emit func(cache)) {
		i := st.find(o.A)
		ok := true
		switch o.K {
		case gSet, gUpd:
			if o.K == gUpd && o.R != o.B {
				return
			}
			if i >= 0 {
				st.v[i] = o.B
			} else {
				st, ok = st.insert(o.A, o.B, max, watch)
			}
			if ok {
				emit(st)
			}
		case gGet:
			switch {
			case o.R2 != 0: // its load failed
				if i < 0 && o.R == 0 {
					emit(st)
				}
			case i >= 0:
				if o.R == st.v[i] {
					emit(st)
				}
			case !loader:
				if o.R == 0 {
					emit(st)
				}
			case o.R == o.D: // loaded by this call
				if st, ok = st.insert(o.A, o.R, max, watch); ok {
					emit(st)
				}
			}
		case gHas:
			if o.R == b2i(i >= 0) {
				emit(st)
			}
		case gHoc:
			if o.R != b2i(i >= 0) {
				return
			}
			if i < 0 {
				st, ok = st.insert(o.A, o.B, max, watch)
			}
			if ok {
				emit(st)
			}
		case gDel:
			if i >= 0 {
				st, ok = st.drop(i, watch)
			}
			if ok {
				emit(st)
			}
		case gClear:
			for ok && st.n > 0 {
				st, ok = st.drop(0, watch)
			}
			if ok {
				emit(st)
			}
		case gSize:
			if o.R == int64(st.n) {
				emit(st)
			}
		case gStored:
			if o.R2 == int64(st.n) && o.R == st.digest() {
				emit(st)
			}
		case gUnload:
			if st, ok = st.unloaded(o.A, o.B); ok {
				emit(st)
			}
		case gEnd:
			if st.out == [8]int64{} {
				emit(st)
			}
		}
	}
}

// guavaLin: no timeouts; the history has a sequential explanation. max > 0: with eviction; loader:
// with a load function; unload: every removal is reported exactly once.
func guavaLin(r *R, withMax, loader, unload bool) {
	w := &r.W
	s := &guavaSys{r: r, loader: loader, nested: true}
	b := newGuava(r)
	max := 0
	if withMax {
		max = w.In(1, 4)
		b = b.WithMaxCount(max)
	}
	if loader {
		s.locked = w.Pct(60)
		s.drawLoads(16, 0, 0, ms, 3*ms)
		b = b.WithLoadFunc(s.load).WithLockLoad(s.locked)
	}
	if unload {
		b = b.WithUnloadFunc(s.unloader())
	}
	s.m = b.Build()
	keys := w.In(1, guavaKeys-1)
	nc := w.In(2, 4)
	wt := []int{w.In(1, 5), w.In(1, 5), w.N(4), w.N(5), w.N(4), w.W(4, 1), w.N(2), w.N(2), w.N(2)}
	if loader {
		wt[gGet] += 5
	}
	if unload {
		wt[gClear] = 1
		wt[gDel] += 2
	}
	r.Cfg("max=%d keys=%d lockload=%v", max, keys, s.locked)
	most := 9
	if unload {
		most = 5
	}
	id := int64(100)
	for i := 0; i < nc; i++ {
		l := make([]act, w.In(2, most))
		for j := range l {
			id++
			l[j] = act{op: uint8(w.W(wt...)), a: int64(w.N(keys)), b: id}
		}
		zeroSome(w, l)
		r.At(int64(w.N(2))*ms, func(c int) {
			for _, a := range l {
				s.do(c, a)
			}
		})
	}
	if !r.Wait(60000 * ms) {
		r.Fail("stuck", "an operation does not return")
		return
	}
	r.Calm()
	for k := 0; k < keys; k++ {
		s.do(-1, act{op: gHas, a: int64(k)})
	}
	s.do(-1, act{op: gStored})
	if max > 0 {
		// fill up and see who goes
		for i := 0; i < w.N(max+1); i++ {
			id++
			s.do(-1, act{op: gHoc, a: int64(guavaKeys - 1), b: id})
			s.do(-1, act{op: gStored})
			s.do(-1, act{op: gDel, a: int64(guavaKeys - 1)})
		}
	}
	r.Settle(ms)
	slack := r.Stalled()
	var ops []Op
	loads := r.Sel(gLoad)
	ends := map[int64]Op{}
	for _, e := range r.Sel(gLoadEnd) {
		ends[e.B] = e
	}
	for _, o := range r.Ops() {
		switch o.K {
		case gLoad, gLoadEnd:
			continue
		case gUnload:
			o.Inv = 0
			if o.Ret == 0 {
				continue
			}
		case gSize, gStored:
			if max > 0 && (o.K == gSize && o.R > int64(max) || o.K == gStored && o.R2 > int64(max)) {
				r.Fail("capacity", "the map has more than its %d entries", max)
				return
			}
		case gGet:
			if o.R2 > 1000 {
				// the error is that of a load of this key within the call
				e, ok := ends[o.R2]
				if !ok || e.D != 1 || e.A != o.A || e.Inv < o.Inv || e.Inv > o.Ret {
					r.Fail("error", "Get(%d) returned an error that no load within it returned", o.A)
					return
				}
			} else if o.R2 != 0 {
				r.Fail("error", "Get(%d) returned an unknown error", o.A)
				return
			}
			if e, ok := ends[o.R]; ok && e.A == o.A && e.D == 0 && e.Inv > o.Inv && e.Inv < o.Ret {
				o.D = o.R
			}
		}
		if !loader && o.T1-o.T0 > slack {
			r.Fail("blocked", "%s took %.3f ms", guavaNames[o.K], msec(o.T1-o.T0))
			return
		}
		ops = append(ops, o)
	}
	if unload {
		ops = append(ops, Op{K: gEnd, Inv: 1<<31 - 2, Ret: 1<<31 - 1})
	}
	if len(ops) > 128 {
		return
	}
	if !Lin(ops, cache{}, guavaStep(max, loader, unload)) {
		r.Fail("linearizable", "the history has no sequential explanation (maximum %d)", max)
		return
	}
	if loader {
		checkLoads(r, loads)
	}
}

// checkLoads: every load belongs to a Get of its key.
func checkLoads(r *R, loads []Op) {
	gets := r.Sel(gGet)
	for _, l := range loads {
		ok := false
		for _, g := range gets {
			ok = ok || g.A == l.A && g.Inv < l.Inv && l.Inv < g.Ret
		}
		if !ok {
			r.Fail("stray", "key %d was loaded although nobody asked for it", l.A)
			return
		}
	}
}

// guavaShare: LockLoad, no removals: each key is loaded once, however many ask, until a load succeeds.
func guavaShare(r *R) {
	w := &r.W
	s := &guavaSys{r: r, loader: true, locked: true}
	s.drawLoads(16, 0, ms, 4*ms, 10*ms)
	b := newGuava(r).WithLoadFunc(s.load).WithLockLoad(true)
	if w.Pct(30) {
		b = b.WithMaxCount(guavaKeys)
	}
	s.m = b.Build()
	keys := w.In(1, 3)
	nc := crowd(w, 2, 7, 20)
	r.Cfg("keys=%d clients=%d", keys, nc)
	spread := w.In(1, 8)
	for i := 0; i < nc; i++ {
		l := make([]int64, w.In(1, 3))
		for j := range l {
			l[j] = int64(w.N(keys))
		}
		r.At(int64(w.N(spread))*ms, func(c int) {
			for _, k := range l {
				s.do(c, act{op: gGet, a: k})
			}
		})
	}
	if !r.Wait(60000 * ms) {
		r.Fail("stuck", "a Get does not return although loads do")
		return
	}
	slack := r.Stalled()
	ends := map[int64]Op{}
	for _, e := range r.Sel(gLoadEnd) {
		ends[e.B] = e
	}
	for k := int64(0); k < int64(keys); k++ {
		var good *Op
		loads := pickKey(r.Sel(gLoad), k)
		for _, l := range loads {
			e := ends[l.B]
			if good != nil {
				r.Fail("again", "key %d was loaded again at %.3f ms although it had been loaded at %.3f ms", k, msec(l.T0), msec(good.T0))
				return
			}
			if e.D == 0 {
				good = &e
			}
		}
		gets := pickKey(r.Sel(gGet), k)
		for _, g := range gets {
			if g.R2 != 0 {
				if e, ok := ends[g.R2]; !ok || e.D != 1 || e.A != k || e.Inv < g.Inv || e.Inv > g.Ret || g.R != 0 {
					r.Fail("error", "Get(%d) returned (%d, error %d), which no load within it returned", k, g.R, g.R2)
					return
				}
				for _, h := range gets {
					if h != g && h.R2 == g.R2 {
						r.Fail("error", "one failed load ended two Gets of key %d", k)
						return
					}
				}
				continue
			}
			if good == nil || g.R != good.B {
				r.Fail("value", "Get(%d) returned %d, which was not loaded", k, g.R)
				return
			}
			if at := max(g.T0, good.T0); g.T1 > at+slack {
				r.Fail("late", "Get(%d) returned at %.3f ms; its value was there at %.3f ms", k, msec(g.T1), msec(at))
				return
			}
			if g.T1 < good.T0 {
				r.Fail("value", "Get(%d) returned before its value was loaded", k)
				return
			}
		}
	}
}

// guavaIndependent: a slow load or update keeps nobody from the rest of the map.
func guavaIndependent(r *R) {
	w := &r.W
	s := &guavaSys{r: r, locked: w.Pct(50)}
	update := w.Pct(50)
	b := newGuava(r).WithLockLoad(s.locked).WithLoadFunc(func(k int) (int64, error) {
		if k == 0 {
			Sleep(1000 * ms)
		}
		return int64(1000 + k), nil
	})
	s.m = b.Build()
	s.m.Set(1, 11)
	r.Cfg("update=%v lockload=%v", update, s.locked)
	r.Fault(FSlowCallback)
	r.Go(func(c int) {
		if update {
			s.m.LockForUpdate(0, func() int64 { Sleep(1000 * ms); return 5 })
		} else {
			s.m.Get(0)
		}
	})
	n := w.In(1, 5)
	acts := planActs(w, n, 40*ms, 1, 3, 4, 2, 2, 2, 1, 1, 1, 2)
	for i := range acts {
		acts[i].a = int64(w.In(1, 3))
		acts[i].at += ms
		r.At(acts[i].at, func(c int) { s.do(c, acts[i]) })
	}
	r.Settle(500 * ms)
	for _, o := range r.Ops() {
		if o.Ret == 0 || o.T1 != o.T0 {
			r.Fail("blocked", "%s(%d) waits for a load or update of another key", guavaNames[o.K], o.A)
			return
		}
	}
	if !r.Wait(60000 * ms) {
		r.Fail("stuck", "an operation does not return")
	}
}

// ---- expiry ---------------------------------------------------------------------------------

// guavaTimes: an entry lasts for w since it was stored or overwritten last, or rd since it was used
// last, whichever was later; one of them may be missing.
type guavaTimes struct {
	w, rd int64
	max   int
}

func (t *guavaTimes) draw(w *Chooser, most int) {
	mode := w.W(2, 2, 2)
	if mode != 1 {
		t.w = int64(w.In(1, most)) * ms
	}
	if mode != 0 {
		t.rd = int64(w.In(1, most)) * ms
	}
	t.max = w.W(3, 1, 1, 1)
}

// onWrite is how long an entry lasts from a write on, onUse from a use on (0: a use changes nothing).
func (t *guavaTimes) onWrite() int64 {
	if t.w > 0 {
		return t.w
	}
	return t.rd
}

func (t *guavaTimes) onUse() int64 { return t.rd }

func (t *guavaTimes) longest() int64 { return max(t.w, t.rd) }

func (t *guavaTimes) build(r *R, s *guavaSys, unload bool) {
	ctx, cancel := context.WithCancel(context.Background())
	r.Defer(cancel)
	s.cancel = cancel
	b := newGuava(r).WithContext(ctx).WithMaxCount(t.max)
	if t.w > 0 {
		b = b.WithWriteTimeout(time.Duration(t.w))
	}
	if t.rd > 0 {
		b = b.WithReadTimeout(time.Duration(t.rd))
	}
	if s.loader {
		b = b.WithLoadFunc(s.load).WithLockLoad(s.locked)
	}
	if unload {
		b = b.WithUnloadFunc(s.unloader())
	}
	s.m = b.Build()
	r.Cfg("write=%.0fms read=%.0fms max=%d loader=%v locked=%v", msec(t.w), msec(t.rd), t.max, s.loader, s.locked)
}

type gEntry struct{ k, v, until int64 }

// guavaTimed: operations at instants of their own; everything is exact.
func guavaTimed(r *R, unload, withMax bool) {
	w := &r.W
	s := &guavaSys{r: r, loader: w.Pct(50)}
	s.locked = s.loader && w.Pct(50)
	var t guavaTimes
	t.draw(w, 30)
	if withMax && t.max == 0 {
		t.max = 2
	}
	s.drawLoads(32, 0, 0, ms, 5*ms, 20*ms)
	keys, n := manyKeys(w, 4, 24)
	if t.max > 0 && keys > 4 {
		t.max += w.N(keys)
	}
	t.build(r, s, unload)
	span := int64(w.In(1, 5)) * t.longest()
	plan := planActs(w, n, span, keys, 5, 6, 3, 4, 2, w.N(2), 1, 1, 1)
	zeroSome(w, plan)
	empty := w.W(4, 1, 1) // emptied at the end, by Clear or by Delete
	timed(r, plan, s.do)
	if !r.Wait(span + 60000*ms) {
		r.Fail("stuck", "an operation does not return")
		return
	}
	if empty > 0 {
		r.Settle(ms/2 + 500) // an instant of its own
		if empty == 1 {
			s.do(-1, act{op: gClear})
		} else {
			for k := 0; k < keys; k++ {
				s.do(-1, act{op: gDel, a: int64(k)})
			}
		}
		r.Settle(s.slowUnload + 1)
	} else {
		r.Settle(2*t.longest() + s.slowUnload)
	}
	if g := r.Goroutines() - 1; g != 0 {
		r.Fail("goroutines", "%d goroutines are left although every entry is gone", g)
		return
	}
	if c := s.m.Size(); c != 0 {
		r.Fail("late", "%d entries are there long after their time", c)
		return
	}
	var es []gEntry // oldest first
	type removal struct{ k, v, at int64 }
	var gone []removal
	find := func(k int64) int {
		for i := range es {
			if es[i].k == k {
				return i
			}
		}
		return -1
	}
	drop := func(i int, at int64) {
		gone = append(gone, removal{es[i].k, es[i].v, at})
		es = append(es[:i:i], es[i+1:]...)
	}
	pass := func(now int64) {
		for i := 0; i < len(es); {
			if es[i].until <= now {
				r.Probe(1)
				drop(i, es[i].until)
				continue
			}
			i++
		}
	}
	insert := func(k, v, at int64) {
		if t.max > 0 && len(es) >= t.max {
			drop(0, at)
		}
		es = append(es, gEntry{k, v, at + t.onWrite()})
	}
	// events: the begin of each operation, and the end of each Get that loaded
	type event struct {
		at   int64
		o    Op
		load *Op // the end of its load
	}
	flight := map[int64][]Op{} // with LockLoad: the Gets of a key that is being loaded
	var evs []event
	ends := map[int64]Op{}
	for _, e := range r.Sel(gLoadEnd) {
		ends[e.B] = e
	}
	var loads []Op
	for _, o := range r.Ops() {
		switch o.K {
		case gLoad:
			loads = append(loads, o)
		case gLoadEnd, gUnload:
		default:
			evs = append(evs, event{at: o.T0, o: o})
		}
	}
	for i := 0; i < len(evs); i++ {
		sort.SliceStable(evs[i:], func(a, b int) bool { return evs[i+a].at < evs[i+b].at })
		ev := evs[i]
		o := ev.o
		pass(ev.at)
		x := find(o.A)
		bad := func(want, want2 int64) {
			r.Fail("result", "%s(%d) at %.3f ms returned (%d, %d), not (%d, %d)", guavaNames[o.K], o.A, msec(o.T0), o.R, o.R2, want, want2)
		}
		expect := func(want, want2 int64) {
			if o.R != want || o.R2 != want2 {
				bad(want, want2)
			} else if o.T1 != ev.at {
				r.Fail("blocked", "%s(%d) at %.3f ms returned at %.3f ms, not at %.3f ms", guavaNames[o.K], o.A, msec(o.T0), msec(o.T1), msec(ev.at))
			}
		}
		use := func(write bool) {
			if write {
				es[x].until = ev.at + t.onWrite()
			} else if t.onUse() > 0 {
				es[x].until = ev.at + t.onUse()
			}
		}
		begins := func() { // a load begins now
			for j, l := range loads {
				if l.T0 == ev.at && l.A == o.A {
					e := ends[l.B]
					loads = append(loads[:j:j], loads[j+1:]...)
					evs = append(evs, event{at: e.T0, o: o, load: &e})
					return
				}
			}
			r.Fail("load", "Get(%d) at %.3f ms did not load its key, which was not there", o.A, msec(ev.at))
		}
		if s.locked && o.K == gGet && (ev.load != nil || x < 0) {
			// those who ask for a key that is being loaded wait for that
			if ev.load == nil {
				flight[o.A] = append(flight[o.A], o)
				if len(flight[o.A]) == 1 {
					begins()
				}
			} else {
				l := flight[o.A]
				if ev.load.D == 1 {
					at := -1
					for i, o := range l {
						if o.R == 0 && o.R2 == ev.load.B {
							at = i
						}
					}
					if at < 0 {
						r.Fail("result", "the load of key %d that failed at %.3f ms failed for nobody", o.A, msec(ev.at))
						return
					}
					o = l[at]
					expect(0, ev.load.B)
					l = append(l[:at:at], l[at+1:]...)
				} else if x < 0 {
					o = l[0]
					expect(ev.load.B, 0)
					insert(o.A, ev.load.B, ev.at)
					l = l[1:]
					x = find(o.A)
				}
				if x >= 0 {
					for _, o = range l {
						r.Probe(2)
						expect(es[x].v, 0)
						use(false)
					}
					l = nil
				} else if len(l) > 0 {
					begins()
				}
				flight[o.A] = l
			}
			if r.Failed() {
				return
			}
			continue
		}
		switch o.K {
		case gSet, gUpd:
			if o.K == gUpd {
				expect(o.B, 0)
			} else {
				expect(0, 0)
			}
			if x >= 0 {
				es[x].v = o.B
				use(true)
			} else {
				insert(o.A, o.B, ev.at)
			}
		case gGet:
			switch {
			case ev.load != nil && ev.load.D == 1:
				// the load failed, whatever came meanwhile
				expect(0, ev.load.B)
			case x >= 0:
				expect(es[x].v, 0)
				use(false)
			case !s.loader:
				expect(0, 0)
			case ev.load == nil:
				begins()
			default:
				expect(ev.load.B, 0)
				insert(o.A, ev.load.B, ev.at)
			}
		case gHas:
			expect(b2i(x >= 0), 0)
			if x >= 0 {
				use(false)
			}
		case gHoc:
			expect(b2i(x >= 0), 0)
			if x >= 0 {
				use(false)
			} else {
				insert(o.A, o.B, ev.at)
			}
		case gDel:
			expect(0, 0)
			if x >= 0 {
				drop(x, ev.at)
			}
		case gClear:
			expect(0, 0)
			for len(es) > 0 {
				drop(0, ev.at)
			}
		case gSize:
			expect(int64(len(es)), 0)
		case gStored:
			m := map[int]int64{}
			for _, e := range es {
				m[int(e.k)] = e.v
			}
			expect(storedDigest(m), int64(len(es)))
		}
		if r.Failed() {
			return
		}
	}
	if len(loads) > 0 {
		r.Fail("load", "key %d was loaded at %.3f ms although it was there", loads[0].A, msec(loads[0].T0))
		return
	}
	if !unload {
		return
	}
	pass(1 << 61)
	// Clear may report its entries in any order, and what is due at one instant too
	us := r.Sel(gUnload)
	for _, g := range gone {
		ok := false
		for j, u := range us {
			if u.A == g.k && u.B == g.v && u.T0 == g.at {
				us = append(us[:j:j], us[j+1:]...)
				ok = true
				break
			}
		}
		if !ok {
			r.Fail("unload", "entry (%d, %d) went at %.3f ms and was not unloaded then", g.k, g.v, msec(g.at))
			return
		}
	}
	if len(us) > 0 {
		r.Fail("unload", "(%d, %d) was unloaded at %.3f ms although it did not go then", us[0].A, us[0].B, msec(us[0].T0))
	}
}

// guavaTies: operations meet the timeouts, deletions too; nothing goes early, nothing stays.
func guavaTies(r *R, unload bool) {
	w := &r.W
	s := &guavaSys{r: r}
	var t guavaTimes
	t.draw(w, 3)
	t.max = 0
	unload = w.Pct(50) || unload
	t.build(r, s, unload)
	keys := w.In(1, 2)
	nc := w.In(1, 4)
	dels := w.W(1, 1) * 3
	clears := w.W(4, 1)
	r.Cfg("keys=%d clients=%d delete=%d clear=%d", keys, nc, dels, clears)
	lw := One(w, t.onWrite(), t.longest())
	for i := 0; i < nc; i++ {
		type one struct {
			act
			wait int64
		}
		l := make([]one, w.In(1, 6))
		for j := range l {
			l[j] = one{act: act{op: uint8(w.W(4, 5, 4, 3, dels, clears, 0, 0, 1)), a: int64(w.N(keys)), b: int64(100 + i*10 + j)}, wait: One(w, 0, lw, lw, ms, lw+ms/2)}
		}
		r.Go(func(c int) {
			for _, a := range l {
				Sleep(a.wait)
				s.do(c, a.act)
			}
		})
	}
	if !r.Wait(60000 * ms) {
		r.Fail("stuck", "an operation does not return")
		return
	}
	slack := r.Stalled()
	for k := int64(0); k < int64(keys); k++ {
		ops := pickKey(r.Sel(gSet, gGet, gHas, gHoc, gUpd), k)
		// there: whether o saw the entry; keeps: whether it makes the entry last
		there := func(o Op) bool {
			switch o.K {
			case gGet:
				return o.R != 0
			case gHas, gHoc:
				return o.R == 1
			}
			return false
		}
		absent := func(o Op) bool {
			return o.K != gSet && o.K != gUpd && !there(o)
		}
		// keeps: for how long o makes the entry last, 0 if it does not
		keeps := func(o Op) int64 {
			switch {
			case o.K == gSet, o.K == gUpd, o.K == gHoc && o.R == 0:
				return t.onWrite()
			case there(o):
				return t.onUse()
			}
			return 0
		}
		var del []Op
		for _, o := range r.Sel(gDel, gClear) {
			if o.K == gClear || o.A == k {
				del = append(del, o)
			}
		}
		for _, o := range ops {
			if absent(o) {
				for _, p := range ops {
					sure := keeps(p) > 0 && p.Ret < o.Inv && o.T1 < p.T0+keeps(p)
					for _, q := range ops { // with both timeouts, what comes later may cut the time short
						sure = sure && !(q != o && q.Ret > p.Inv && q.Inv < o.Ret && keeps(q) > 0 && o.T1 >= q.T0+keeps(q) && keeps(q) < keeps(p))
					}
					for _, d := range del {
						sure = sure && (d.Ret < p.Inv || d.Inv > o.Ret)
					}
					if sure {
						r.Fail("early", "%s(%d) at %.3f ms found nothing although %s at %.3f ms had made the entry last", guavaNames[o.K], k, msec(o.T1), guavaNames[p.K], msec(p.T0))
						return
					}
				}
			}
			if there(o) {
				ok := false
				for _, p := range ops {
					ok = ok || p != o && keeps(p) > 0 && p.Inv < o.Ret && p.T1+keeps(p)+slack >= o.T0
				}
				if !ok {
					r.Fail("late", "%s(%d) at %.3f ms found an entry whose time was over", guavaNames[o.K], k, msec(o.T0))
					return
				}
			}
			if there(o) {
				for _, d := range del {
					ok := d.Ret > o.Inv
					for _, p := range ops {
						ok = ok || p != o && keeps(p) > 0 && !there(p) && p.Ret > d.Inv && p.Inv < o.Ret
					}
					if !ok {
						r.Fail("deleted", "%s(%d) at %.3f ms found an entry that %s had removed at %.3f ms", guavaNames[o.K], k, msec(o.T0), guavaNames[d.K], msec(d.T1))
						return
					}
				}
			}
			if o.T1-o.T0 > slack {
				r.Fail("blocked", "%s took %.3f ms", guavaNames[o.K], msec(o.T1-o.T0))
				return
			}
		}
		// values: Gets see values of this key that were set
		for _, o := range ops {
			if o.K == gGet && o.R != 0 {
				ok := false
				for _, p := range ops {
					ok = ok || p.K != gGet && p.K != gHas && p.B == o.R && p.Inv < o.Ret
				}
				if !ok {
					r.Fail("value", "Get(%d) returned %d, which nobody had stored", k, o.R)
					return
				}
			}
		}
	}
	r.Calm()
	r.Settle(2*t.longest() + slack + ms + s.slowUnload)
	if c := s.m.Size(); c != 0 {
		r.Fail("late", "%d entries are there long after their time", c)
		return
	}
	if g := r.Goroutines() - 1; g != 0 {
		r.Fail("goroutines", "%d goroutines are left although every entry is gone", g)
		return
	}
	if unload {
		// every life of an entry is unloaded once; a life begins with a HasOrCreate or Set
		created := int64(0)
		writes := int64(0)
		for _, o := range r.Ops() {
			switch o.K {
			case gHoc:
				created += 1 - o.R
			case gSet, gUpd:
				writes++
			}
		}
		n := int64(0)
		seen := map[int64]bool{}
		for _, u := range r.Sel(gUnload) {
			n++
			if seen[u.B] {
				r.Fail("unload", "(%d, %d) was unloaded twice", u.A, u.B)
				return
			}
			seen[u.B] = true
		}
		if n < created || n > created+writes || n == 0 && writes > 0 {
			r.Fail("unload", "%d unloads for %d to %d entries", n, created, created+writes)
		}
	}
}

// guavaCancel: after cancellation nothing is left running.
func guavaCancel(r *R) {
	w := &r.W
	s := &guavaSys{r: r}
	var t guavaTimes
	t.draw(w, 20)
	t.build(r, s, false)
	n := w.In(1, 12)
	for _, a := range planActs(w, n, 20*ms, 4, 5, 3, 2, 3, 2, 1) {
		r.At(a.at, func(c int) { s.do(c, a) })
	}
	r.At(int64(w.N(20))*ms, func(c int) { r.Fault(FCancel); s.cancel() })
	if !r.Wait(60000 * ms) {
		r.Fail("stuck", "an operation does not return")
		return
	}
	if g := r.Ended(ms); g != 0 {
		r.Fail("goroutines", "%d goroutines are left after cancellation", g)
	}
}

// guavaUpdate: LockForUpdate is exclusive per key.
func guavaUpdate(r *R, many bool) {
	w := &r.W
	s := &guavaSys{r: r}
	b := newGuava(r)
	keys := w.In(1, 3)
	max := 0
	if w.Pct(30) {
		max = keys
		b = b.WithMaxCount(max)
	}
	s.m = b.Build()
	nc, spread := w.In(2, 6), 2
	if many {
		nc, spread = One(w, 10, 10, 20, 20, 40, 140, 270), One(w, 1, 4, 20, 100)
	}
	r.Cfg("keys=%d clients=%d max=%d", keys, nc, max)
	var inside, count [guavaKeys]Cell
	var panics Cell
	for i := 0; i < nc; i++ {
		type one struct {
			k     int
			dur   int64
			panic bool
			other int
		}
		l := make([]one, w.In(1, 4-2*int(b2i(many))))
		for j := range l {
			l[j] = one{k: w.N(keys), dur: One(w, 0, 0, 0, ms, 3*ms), panic: w.Pct(8), other: w.N(4)}
		}
		r.At(int64(w.N(spread))*ms, func(c int) {
			for _, a := range l {
				func() {
					defer func() {
						if e := recover(); e != nil {
							if _, ok := e.(callErr); !ok {
								panic(e)
							}
							panics.Add(1)
						}
					}()
					h := r.Inv(c, gUpd, int64(a.k), a.dur, 0)
					v := s.m.LockForUpdate(a.k, func() int64 {
						r.Obs(-1, gUpdBegin, int64(a.k), int64(c), 0)
						if inside[a.k].Add(1) > 1 {
							r.failLater("exclusion", "two updates of one key run at once")
						}
						x, _ := s.m.Get(a.k)
						Pause()
						Sleep(a.dur)
						if a.other == 0 {
							s.m.Has((a.k + 1) % keys) // the map may be used
						}
						Pause()
						inside[a.k].Add(-1)
						r.Obs(-1, gUpdEnd, int64(a.k), int64(c), 0)
						if a.panic {
							r.Fault(FPanic)
							panic(callErr(1))
						}
						count[a.k].Add(1)
						return x + 1
					})
					r.Ret(h, v, 0)
					if v == 0 {
						r.failLater("value", "LockForUpdate does not return what the function returned")
					}
				}()
			}
		})
	}
	if !r.Wait(60000 * ms) {
		r.Fail("stuck", "LockForUpdate does not return although the functions did")
		return
	}
	r.Calm()
	slack := r.Stalled()
	for k := 0; k < keys; k++ {
		v, _ := s.m.Get(k)
		if v != count[k].Get() {
			r.Fail("lost", "key %d was updated %d times and counts %d", k, count[k].Get(), v)
			return
		}
		if s.m.Has(k) != (count[k].Get() > 0) {
			r.Fail("lost", "key %d was updated %d times and is there: %v", k, count[k].Get(), s.m.Has(k))
			return
		}
	}
	// nobody waits but for updates of the same key
	ups := r.Sel(gUpd)
	type span struct{ k, a, b int64 }
	var spans []span
	begun := map[int64]Op{}
	for _, o := range r.Sel(gUpdBegin, gUpdEnd) {
		if o.K == gUpdBegin {
			begun[o.A] = o
		} else {
			spans = append(spans, span{o.A, begun[o.A].T0, o.T0})
		}
	}
	for _, u := range ups {
		if u.Ret == 0 {
			continue
		}
		busy := int64(0)
		for _, p := range spans {
			if p.k == u.A {
				if a, b := max64(p.a, u.T0), min(p.b, u.T1); b > a {
					busy += b - a
				}
			}
		}
		if u.T1-u.T0-busy > slack {
			r.Fail("blocked", "LockForUpdate(%d) took %.3f ms; updates of the key took %.3f ms of it", u.A, msec(u.T1-u.T0), msec(busy))
			return
		}
	}
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

func init() {
	exp := []string{"a load uses the map", "an entry expired", "a Get got what another one loaded"}
	for i, sfx := range []string{"", "-stalls"} {
		st := i == 1
		reg(&Scenario{Prop: "C22", Name: "guava-lin" + sfx, Stalls: st, Names: guavaNames, Fn: func(r *R) { guavaLin(r, false, false, false) }})
		reg(&Scenario{Prop: "C23", Name: "guava-max" + sfx, Stalls: st, Names: guavaNames, Fn: func(r *R) { guavaLin(r, true, false, false) }})
		reg(&Scenario{Prop: "C23", Name: "guava-max-load" + sfx, Stalls: st, Names: guavaNames, Probes: exp, Fn: func(r *R) { guavaLin(r, true, true, false) }})
		reg(&Scenario{Prop: "C24", Name: "guava-ties" + sfx, Stalls: st, Names: guavaNames, Fn: func(r *R) { guavaTies(r, false) }})
		reg(&Scenario{Prop: "C26", Name: "guava-unload-ties" + sfx, Stalls: st, Names: guavaNames, Fn: func(r *R) { guavaTies(r, true) }})
		reg(&Scenario{Prop: "C25", Name: "guava-load" + sfx, Stalls: st, Names: guavaNames, Probes: exp, Fn: func(r *R) { guavaLin(r, false, true, false) }})
		reg(&Scenario{Prop: "C25", Name: "guava-share" + sfx, Stalls: st, Names: guavaNames, Fn: guavaShare})
		reg(&Scenario{Prop: "C26", Name: "guava-unload" + sfx, Stalls: st, Names: guavaNames, Fn: func(r *R) { guavaLin(r, true, false, true) }})
		reg(&Scenario{Prop: "C27", Name: "guava-update" + sfx, Stalls: st, Weight: 2, Names: guavaNames, Fn: func(r *R) { guavaUpdate(r, false) }})
	}
	reg(&Scenario{Prop: "C24", Name: "guava-timed", Scale: true, Weight: 3, Names: guavaNames, Probes: exp, Fn: func(r *R) { guavaTimed(r, false, false) }})
	reg(&Scenario{Prop: "C23", Name: "guava-max-timed", Scale: true, Names: guavaNames, Probes: exp, Fn: func(r *R) { guavaTimed(r, false, true) }})
	reg(&Scenario{Prop: "C24", Name: "guava-cancel", Names: guavaNames, Fn: guavaCancel})
	reg(&Scenario{Prop: "C25", Name: "guava-independent", Names: guavaNames, Fn: guavaIndependent})
	reg(&Scenario{Prop: "C27", Name: "guava-independent-update", Names: guavaNames, Fn: guavaIndependent})
	reg(&Scenario{Prop: "C26", Name: "guava-unload-timed", Scale: true, Weight: 2, Names: guavaNames, Probes: exp, Fn: func(r *R) { guavaTimed(r, true, false) }})
	reg(&Scenario{Prop: "C26", Name: "guava-unload-nomax", Names: guavaNames, Fn: func(r *R) { guavaLin(r, false, false, true) }})
}
