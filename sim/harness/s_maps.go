package main

import (
	"runtime"
	"time"

	"github.com/axgrid/axutils/collections"
)

// ---- SimpleMap and ShardMap -----------------------------------------------

const (
	mGet = iota // A: key; R: value, R2: ok
	mSet        // A: key, B: value
	mDel
	mHas   // R: ok
	mSine  // A, B; R: stored
	mSineF // A, B; R: value, R2: stored; D: what the function does
	mSize  // R
	mClear
	mFn // callback: A: key, B: value
)

var mapNames = []string{"Get", "Set", "Delete", "Has", "SetIfNotExists", "SetIfNotExistsWithFunc", "Size", "Clear", "the function runs"}

type mstate [6]int16 // value by key; 0: absent

func mapStep(s mstate, o *Op, emit func(mstate)) {
	v := s[o.A]
	done := o.Ret != 0
	switch o.K {
	case mGet:
		if !done || (o.R == int64(v) && o.R2 == b2i(v != 0)) {
			emit(s)
		}
	case mHas:
		if !done || o.R == b2i(v != 0) {
			emit(s)
		}
	case mSet:
		s[o.A] = int16(o.B)
		emit(s)
	case mDel:
		s[o.A] = 0
		emit(s)
	case mSine:
		if done && o.R != b2i(v == 0) {
			return
		}
		if v == 0 {
			s[o.A] = int16(o.B)
		}
		emit(s)
	case mSineF:
		if o.R2 == 2 { // the function panicked: it was absent and nothing happened
			if v == 0 {
				emit(s)
			}
			return
		}
		if v == 0 {
			if done && (o.R != o.B || o.R2 != 1) {
				return
			}
			s[o.A] = int16(o.B)
		} else if done && (o.R != int64(v) || o.R2 != 0) {
			return
		}
		emit(s)
	case mSize:
		n := int64(0)
		for _, v := range s {
			if v != 0 {
				n++
			}
		}
		if !done || n == o.R {
			emit(s)
		}
	case mClear:
		emit(mstate{})
	}
}

type theMap interface {
	collections.Map[int, int]
}

// fnState watches the functions given to SetIfNotExistsWithFunc.
type fnState struct {
	calls [2048]uint8
}

//go:norace
func (f *fnState) call(v int64) { f.calls[v&2047]++ }

//go:norace
func (f *fnState) count(v int64) int { return int(f.calls[v&2047]) }

type fnPanic struct{}

// mapClients runs random operations.
func mapClients(r *R, m theMap, clear func(), keys, maxOpsPer int, whole bool) *fnState {
	w := &r.W
	fs := &fnState{}
	nc := w.In(2, 4)
	// how often each operation is used
	wt := []int{w.N(4) + 1, w.N(4) + 1, w.N(4) + 1, w.N(3), w.N(4) + 1, w.N(4) + 1, 0, 0}
	if whole {
		wt[mSize] = w.N(3)
	}
	if clear != nil {
		wt[mClear] = w.N(2)
	}
	for p := 0; p < nc; p++ {
		k := w.In(2, maxOpsPer)
		type act struct{ op, key, how int }
		acts := make([]act, k)
		for i := range acts {
			acts[i] = act{w.W(wt...), w.N(keys), w.W(6, 2, 1, 1)}
		}
		r.Go(func(c int) {
			for i, a := range acts {
				v := c*100 + i + 1
				mapOp(r, m, clear, fs, c, a.op, a.key, v, a.how)
			}
		})
	}
	return fs
}

func mapOp(r *R, m theMap, clear func(), fs *fnState, c, op, key, v, how int) {
	h := r.Inv(c, uint8(op), int64(key), int64(v), 0)
	switch op {
	case mGet:
		x, ok := m.Get(key)
		r.Ret(h, int64(x), b2i(ok))
	case mSet:
		m.Set(key, v)
		r.Ret(h, 0, 0)
	case mDel:
		m.Delete(key)
		r.Ret(h, 0, 0)
	case mHas:
		r.Ret(h, b2i(m.Has(key)), 0)
	case mSine:
		r.Ret(h, b2i(m.SetIfNotExists(key, v)), 0)
	case mSineF:
		panicked := true
		func() {
			defer func() {
				if panicked {
					if e := recover(); e != (fnPanic{}) {
						panic(e)
					}
					r.Fault(FPanic)
					r.Ret(h, 0, 2)
				}
			}()
			x, ok := m.SetIfNotExistsWithFunc(key, func() int {
				fs.call(int64(v))
				r.Obs(-1, mFn, int64(key), int64(v), 0)
				Pause()
				if how == 1 {
					Sleep(ms)
				}
				if how == 2 {
					panic(fnPanic{})
				}
				Pause()
				return v
			})
			panicked = false
			r.Ret(h, int64(x), b2i(ok))
		}()
	case mSize:
		r.Ret(h, int64(m.Size()), 0)
	case mClear:
		clear()
		r.Ret(h, 0, 0)
	}
}

func checkFnCalls(r *R, fs *fnState) {
	for _, o := range r.Sel(mSineF) {
		n := fs.count(o.B)
		if o.Ret == 0 {
			continue
		}
		if want := b2i(o.R2 != 0); int64(n) != want {
			r.Fail("function", "the function of SetIfNotExistsWithFunc(%d) was called %d times and the result says %d", o.A, n, want)
			return
		}
	}
}

func mapOps(r *R) []Op { return r.Sel(mGet, mSet, mDel, mHas, mSine, mSineF, mSize, mClear) }

func simpleMapRun(r *R) {
	m := newSimple(r)
	fs := mapClients(r, m, nil, r.W.In(1, 3), 9, true)
	if !r.Wait(int64(time.Minute)) {
		r.Fail("stuck", "an operation does not return")
		return
	}
	final(r, m, 3)
	if !Lin(mapOps(r), mstate{}, mapStep) {
		r.Fail("linearizable", "the history has no sequential explanation")
		return
	}
	checkFnCalls(r, fs)
}

// final reads everything once more.
func final(r *R, m theMap, keys int) {
	for k := 0; k < keys; k++ {
		mapOp(r, m, nil, nil, 99, mGet, k, 0, 0)
		mapOp(r, m, nil, nil, 99, mHas, k, 0, 0)
	}
	mapOp(r, m, nil, nil, 99, mSize, 0, 0, 0)
}

func shardMapRun(r *R) {
	w := &r.W
	n := w.In(1, 4)
	kind := w.N(3)
	keys := w.In(1, 5)
	shards := n
	if n == 4 {
		shards, n = 0, 6
	}
	m := newShard(r, shards, func(k int) int {
		switch kind {
		case 0:
			return k % n
		case 1:
			return (k / 2) % n
		}
		return n - 1
	})
	r.Cfg("shards=%d func=%d keys=%d", n, kind, keys)
	fs := mapClients(r, m, m.Clear, keys, 9, true)
	if !r.Wait(int64(time.Minute)) {
		r.Fail("stuck", "an operation does not return")
		return
	}
	final(r, m, keys)
	all := mapOps(r)
	if n == 1 || kind == 2 {
		r.Probe(0)
		if n == 1 && !Lin(all, mstate{}, mapStep) {
			r.Fail("linearizable", "the history has no sequential explanation")
			return
		}
	}
	// every key for itself; Clear deletes it
	for k := 0; k < keys; k++ {
		var ops []Op
		for _, o := range all {
			if o.K == mClear {
				o.K, o.A = mDel, int64(k)
				ops = append(ops, o)
			} else if o.K != mSize && o.A == int64(k) {
				ops = append(ops, o)
			}
		}
		if !Lin(ops, mstate{}, mapStep) {
			r.Fail("linearizable", "the operations on key %d have no sequential explanation", k)
			return
		}
	}
	checkFnCalls(r, fs)
	// Size lies between what is certainly there and what may be there
	for _, s := range all {
		if s.K != mSize || s.C != 99 {
			continue
		}
		n := int64(0)
		for _, o := range all {
			if o.C == 99 && o.K == mHas {
				n += o.R
			}
		}
		if s.R != n {
			r.Fail("size", "Size is %d at rest and %d keys are there", s.R, n)
			return
		}
	}
	for _, s := range all {
		if s.K == mSize && s.C != 99 {
			hi := int64(0)
			for k := 0; k < keys; k++ {
				may := false
				for _, o := range all {
					if (o.K == mSet || o.K == mSine || o.K == mSineF) && o.A == int64(k) && o.Inv < s.Ret {
						may = true
					}
				}
				hi += b2i(may)
			}
			lo := int64(0)
			for k := 0; k < keys; k++ {
				// present throughout: a completed Set, and no delete that may come after it
				must := false
				for _, o := range all {
					if o.K == mSet && o.A == int64(k) && o.Ret != 0 && o.Ret < s.Inv {
						must = true
						for _, d := range all {
							if (d.K == mClear || (d.K == mDel && d.A == int64(k))) && d.Inv < s.Ret && !(d.Ret != 0 && d.Ret < o.Inv) {
								must = false
							}
						}
						if must {
							break
						}
					}
				}
				lo += b2i(must)
			}
			if s.R < lo || s.R > hi {
				r.Fail("size", "Size returned %d; at least %d and at most %d keys can have been there", s.R, lo, hi)
				return
			}
		}
	}
}

// slow function: one shard's function does not keep the others from working
func shardMapIndependent(r *R) {
	w := &r.W
	n := w.In(2, 4)
	m := newShard(r, n, func(k int) int { return k % n })
	hold := w.N(n)
	rel := make(chan struct{})
	r.Defer(func() { close(rel) })
	go m.SetIfNotExistsWithFunc(hold, func() int { <-rel; return 1 })
	r.Settle(ms)
	ops := w.In(2, 8)
	for p := 0; p < 2; p++ {
		type act struct{ op, key int }
		acts := make([]act, ops)
		for i := range acts {
			k := w.N(n - 1)
			if k >= hold {
				k++
			}
			acts[i] = act{w.N(6), k}
		}
		fs := &fnState{}
		r.Go(func(c int) {
			for i, a := range acts {
				mapOp(r, m, nil, fs, c, a.op, a.key, c*100+i+1, 0)
			}
		})
	}
	if !r.Wait(int64(10 * time.Second)) {
		r.Fail("blocked", "keys of other shards are blocked by a function that takes its time")
		return
	}
	for k := 0; k < n; k++ {
		var ops []Op
		for _, o := range mapOps(r) {
			if o.A == int64(k) {
				ops = append(ops, o)
			}
		}
		if !Lin(ops, mstate{}, mapStep) {
			r.Fail("linearizable", "the operations on key %d have no sequential explanation", k)
			return
		}
	}
}

// ---- HashSet -----------------------------------------------------------------

const (
	hAdd = iota
	hHas
	hHoc
	hDel
	hCount
	hClear
	hKeys // R: bit mask, R2: length
)

var hashNames = []string{"Add", "Has", "HasOrCreate", "Delete", "Count", "Clear", "Keys"}

// hset lists the members, oldest first.
type hset struct {
	n int8
	k [7]int8
}

func (s hset) find(k int64) int {
	for i := 0; i < int(s.n); i++ {
		if int64(s.k[i]) == k {
			return i
		}
	}
	return -1
}

func (s hset) drop(i int) hset {
	copy(s.k[i:], s.k[i+1:])
	s.n--
	s.k[s.n] = 0
	return s
}

func (s hset) add(k int64, max int) hset {
	s.k[s.n] = int8(k)
	s.n++
	if max > 0 && int(s.n) > max {
		s = s.drop(0)
	}
	return s
}

func hashRun(r *R) {
	w := &r.W
	max := w.W(2, 2, 3, 3, 1)
	keys := w.In(1, 6)
	s := newHash(r, max)
	r.Cfg("max=%d keys=%d", max, keys)
	nc := w.In(2, 4)
	wt := []int{w.N(4) + 1, w.N(3) + 1, w.N(4) + 1, w.N(3), w.N(3), w.W(4, 1), w.N(2)}
	do := func(c, op, k int) {
		h := r.Inv(c, uint8(op), int64(k), 0, 0)
		switch op {
		case hAdd:
			s.Add(k)
			r.Ret(h, 0, 0)
		case hHas:
			r.Ret(h, b2i(s.Has(k)), 0)
		case hHoc:
			r.Ret(h, b2i(s.HasOrCreate(k)), 0)
		case hDel:
			s.Delete(k)
			r.Ret(h, 0, 0)
		case hCount:
			r.Ret(h, int64(s.Count()), 0)
		case hClear:
			s.Clear()
			r.Ret(h, 0, 0)
		case hKeys:
			l := s.Keys()
			m := int64(0)
			for _, x := range l {
				m |= 1 << x
			}
			r.Ret(h, m, int64(len(l)))
		}
	}
	for p := 0; p < nc; p++ {
		k := w.In(2, 10)
		acts := make([][2]int, k)
		for i := range acts {
			acts[i] = [2]int{w.W(wt...), w.N(keys)}
		}
		r.Go(func(c int) {
			for _, a := range acts {
				do(c, a[0], a[1])
			}
		})
	}
	if !r.Wait(int64(time.Minute)) {
		r.Fail("stuck", "an operation does not return")
		return
	}
	// afterwards, alone: look, then fill up and see who goes
	do(99, hKeys, 0)
	do(99, hCount, 0)
	for i := 0; i < w.N(6); i++ {
		do(99, w.W(3, 0, 3, 1), w.N(keys))
		do(99, hKeys, 0)
	}
	ok := Lin(r.Ops(), hset{}, func(s hset, o *Op, emit func(hset)) {
		i := s.find(o.A)
		done := o.Ret != 0
		switch o.K {
		case hAdd:
			if i < 0 {
				s = s.add(o.A, max)
			}
		case hHas:
			if done && o.R != b2i(i >= 0) {
				return
			}
		case hHoc:
			if done && o.R != b2i(i >= 0) {
				return
			}
			if i < 0 {
				s = s.add(o.A, max)
			}
		case hDel:
			if i >= 0 {
				s = s.drop(i)
			}
		case hCount:
			if done && o.R != int64(s.n) {
				return
			}
		case hClear:
			s = hset{}
		case hKeys:
			m := int64(0)
			for j := 0; j < int(s.n); j++ {
				m |= 1 << s.k[j]
			}
			if done && (m != o.R || o.R2 != int64(s.n)) {
				return
			}
		}
		emit(s)
	})
	if !ok {
		r.Fail("linearizable", "the history has no sequential explanation (at most %d members, the oldest goes first)", max)
	}
}

// ---- MapMutex, MapRWMutex -------------------------------------------------------

const (
	lLock = iota
	lUnlock
	lRLock
	lRUnlock
)

var lockNames = []string{"Lock", "Unlock", "RLock", "RUnlock"}

type lockState struct {
	r      *R
	writer [8]int64
	reader [8]int64
}

//go:norace
func (s *lockState) enter(k int, write bool) {
	if s.writer[k] > 0 || (write && s.reader[k] > 0) {
		s.r.failLater("exclusion", "two holders of one key's lock")
	}
	if write {
		s.writer[k]++
	} else {
		s.reader[k]++
	}
}

//go:norace
func (s *lockState) leave(k int, write bool) {
	if write {
		s.writer[k]--
	} else {
		s.reader[k]--
	}
}

type keyLocks interface {
	Lock(int)
	Unlock(int)
}

func lockRun(r *R) {
	w := &r.W
	rw := w.Pct(60)
	keys := w.In(1, 3)
	var l keyLocks
	var rl rwLocks
	if rw {
		rl = newRWMutex(r)
		l = rl
	} else {
		l = newMutex(r)
	}
	st := &lockState{r: r}
	var shared [8]int // written under the lock: the race detector sees a lock that does not order its holders
	r.Cfg("rw=%v keys=%d", rw, keys)
	held := -1
	if w.Pct(40) {
		// one more key, held throughout: it must not matter
		held = keys
		if rw && w.Pct(30) {
			rl.RLock(held)
		} else {
			l.Lock(held)
		}
		r.Probe(0)
	}
	if w.Pct(30) {
		// unlocking what was never locked is a no-op
		l.Unlock(77)
		if rw {
			rl.RUnlock(78)
		}
	}
	nc := w.In(2, 4)
	for p := 0; p < nc; p++ {
		n := w.In(1, 6)
		type act struct {
			key       int
			read      bool
			hold, nap int64
		}
		acts := make([]act, n)
		for i := range acts {
			a := act{key: w.N(keys)}
			if rw {
				a.read = w.Pct(60)
			}
			if w.Pct(30) {
				a.hold = int64(w.In(1, 3)) * ms
			}
			if w.Pct(20) {
				a.nap = int64(w.In(1, 3)) * ms / 2
			}
			acts[i] = a
		}
		r.Go(func(c int) {
			for _, a := range acts {
				Sleep(a.nap)
				if a.read {
					h := r.Inv(c, lRLock, int64(a.key), 0, 0)
					rl.RLock(a.key)
					st.enter(a.key, false)
					r.Ret(h, 0, 0)
					_ = shared[a.key]
				} else {
					h := r.Inv(c, lLock, int64(a.key), 0, 0)
					l.Lock(a.key)
					st.enter(a.key, true)
					r.Ret(h, 0, 0)
					shared[a.key]++
				}
				Pause()
				Sleep(a.hold)
				if a.read {
					h := r.Inv(c, lRUnlock, int64(a.key), 0, 0)
					st.leave(a.key, false)
					rl.RUnlock(a.key)
					r.Ret(h, 0, 0)
				} else {
					h := r.Inv(c, lUnlock, int64(a.key), 0, 0)
					st.leave(a.key, true)
					l.Unlock(a.key)
					r.Ret(h, 0, 0)
				}
			}
		})
	}
	if !r.Wait(int64(time.Minute)) {
		r.Fail("stuck", "a lock is not granted although its holders have let go")
		return
	}
	if !r.stalls {
		checkLockWaits(r)
	}
}

// checkLockWaits: nobody waits for a key unless somebody else held it (or, for readers, a writer was waiting) meanwhile.
func checkLockWaits(r *R) {
	ops := r.Ops()
	for _, o := range ops {
		if (o.K != lLock && o.K != lRLock) || o.T1 == o.T0 {
			continue
		}
		// somebody else held or wanted this key for a time that overlaps the wait
		ok := false
		for _, p := range ops {
			if (p.K == lLock || p.K == lRLock) && p.A == o.A && p.C != o.C && p.T0 <= o.T1 {
				// when did p let go?
				end := int64(1 << 62)
				for _, u := range ops {
					if u.C == p.C && u.Inv > p.Inv && (u.K == lUnlock || u.K == lRUnlock) {
						end = u.T1
						break
					}
				}
				if end > o.T0 && !(o.K == lRLock && p.K == lRLock && !writerAround(ops, o)) {
					ok = true
				}
			}
		}
		if !ok {
			r.Fail("independence", "client %d waited for key %d from %.3f to %.3f ms although nobody kept it from it", o.C, o.A, float64(o.T0)/1e6, float64(o.T1)/1e6)
			return
		}
	}
}

func writerAround(ops []Op, o Op) bool {
	for _, p := range ops {
		if p.K == lLock && p.A == o.A && p.T0 <= o.T1 {
			end := int64(1 << 62)
			for _, u := range ops {
				if u.C == p.C && u.Inv > p.Inv && u.K == lUnlock {
					end = u.T1
					break
				}
			}
			if end >= o.T0 {
				return true
			}
		}
	}
	return false
}

// readersTogether: readers of one key hold it at once.
func readersTogether(r *R) {
	w := &r.W
	l := newRWMutex(r)
	n := w.In(2, 4)
	in := &Cell{}
	gate := make(chan struct{})
	r.Defer(func() {
		select {
		case <-gate:
		default:
			close(gate)
		}
	})
	for i := 0; i < n; i++ {
		r.Go(func(c int) {
			h := r.Inv(c, lRLock, 0, 0, 0)
			l.RLock(0)
			r.Ret(h, 0, 0)
			if in.Add(1) == int64(n) {
				close(gate)
			}
			<-gate
			l.RUnlock(0)
		})
	}
	if !r.Wait(int64(10 * time.Second)) {
		r.Fail("readers", "%d readers of one key do not hold it at once", n)
		return
	}
	// and a writer gets it afterwards
	r.Go(func(c int) {
		h := r.Inv(c, lLock, 0, 0, 0)
		l.Lock(0)
		r.Ret(h, 0, 0)
		l.Unlock(0)
	})
	if !r.Wait(int64(10 * time.Second)) {
		r.Fail("stuck", "a writer does not get the lock its readers have let go")
	}
}

// ---- TwoKeyMap -----------------------------------------------------------------

const (
	tPut  = iota // A: k1, B: k2, D: value
	tGet         // A; R: value, R2: ok
	tGet2        // B
	tRem         // A
	tRem2        // B
	tLen         // R
	tKeys        // R: mask, R2: len
	tKeys2
)

var twoNames = []string{"Put", "Get", "GetByK2", "Remove", "RemoveByK2", "Len", "Keys", "KeysK2"}

type two struct {
	k2 [4]int8 // by k1, 0: absent, else k2+1
	v  [4]int16
}

func (s *two) by2(k2 int64) int {
	for i, x := range s.k2 {
		if x != 0 && int64(x-1) == k2 {
			return i
		}
	}
	return -1
}

func (s *two) del(i int) { s.k2[i], s.v[i] = 0, 0 }

func twoRun(r *R) {
	w := &r.W
	m := newTwo(r)
	n1, n2 := w.In(1, 4), w.In(1, 4)
	nc := w.In(2, 4)
	wt := []int{w.N(4) + 2, w.N(3) + 1, w.N(3) + 1, w.N(3), w.N(3), w.N(2), w.N(2), w.N(2)}
	do := func(c, op, a, b, v int) {
		h := r.Inv(c, uint8(op), int64(a), int64(b), int64(v))
		switch op {
		case tPut:
			m.Put(a, b, v)
			r.Ret(h, 0, 0)
		case tGet:
			x, ok := m.Get(a)
			r.Ret(h, int64(x), b2i(ok))
		case tGet2:
			x, ok := m.GetByK2(b)
			r.Ret(h, int64(x), b2i(ok))
		case tRem:
			m.Remove(a)
			r.Ret(h, 0, 0)
		case tRem2:
			m.RemoveByK2(b)
			r.Ret(h, 0, 0)
		case tLen:
			r.Ret(h, int64(m.Len()), 0)
		case tKeys:
			l := m.Keys()
			x := int64(0)
			for _, k := range l {
				x |= 1 << k
			}
			r.Ret(h, x, int64(len(l)))
		case tKeys2:
			l := m.KeysK2()
			x := int64(0)
			for _, k := range l {
				x |= 1 << k
			}
			r.Ret(h, x, int64(len(l)))
		}
	}
	for p := 0; p < nc; p++ {
		k := w.In(2, 9)
		acts := make([][3]int, k)
		for i := range acts {
			acts[i] = [3]int{w.W(wt...), w.N(n1), w.N(n2)}
		}
		r.Go(func(c int) {
			for i, a := range acts {
				do(c, a[0], a[1], a[2], c*100+i+1)
			}
		})
	}
	if !r.Wait(int64(time.Minute)) {
		r.Fail("stuck", "an operation does not return")
		return
	}
	look := func() {
		do(99, tLen, 0, 0, 0)
		do(99, tKeys, 0, 0, 0)
		do(99, tKeys2, 0, 0, 0)
		for i := 0; i < 4; i++ {
			do(99, tGet, i, 0, 0)
			do(99, tGet2, 0, i, 0)
		}
	}
	look()
	for i := 0; i < w.N(3); i++ {
		do(99, w.W(2, 0, 0, 2, 2), w.N(n1), w.N(n2), 9000+i)
		look()
	}
	ok := Lin(r.Ops(), two{}, func(s two, o *Op, emit func(two)) {
		done := o.Ret != 0
		switch o.K {
		case tPut:
			if i := s.by2(o.B); i >= 0 {
				s.del(i)
			}
			s.k2[o.A], s.v[o.A] = int8(o.B+1), int16(o.D)
		case tGet:
			if done && (o.R != int64(s.v[o.A]) || o.R2 != b2i(s.k2[o.A] != 0)) {
				return
			}
		case tGet2:
			i := s.by2(o.B)
			v := int64(0)
			if i >= 0 {
				v = int64(s.v[i])
			}
			if done && (o.R != v || o.R2 != b2i(i >= 0)) {
				return
			}
		case tRem:
			s.del(int(o.A))
		case tRem2:
			if i := s.by2(o.B); i >= 0 {
				s.del(i)
			}
		default:
			n, m1, m2 := int64(0), int64(0), int64(0)
			for i, x := range s.k2 {
				if x != 0 {
					n++
					m1 |= 1 << i
					m2 |= 1 << (x - 1)
				}
			}
			switch {
			case !done:
			case o.K == tLen && o.R != n:
				return
			case o.K == tKeys && (o.R != m1 || o.R2 != n):
				return
			case o.K == tKeys2 && (o.R != m2 || o.R2 != n):
				return
			}
		}
		emit(s)
	})
	if !ok {
		r.Fail("linearizable", "the history has no sequential explanation with every entry under exactly one key of each kind")
	}
}

func init() {
	_ = runtime.AxNow
	for _, st := range []bool{false, true} {
		sfx := map[bool]string{false: "", true: "-stalls"}[st]
		reg(&Scenario{Prop: "C08", Name: "simplemap" + sfx, Stalls: st, Names: mapNames, Fn: simpleMapRun})
		reg(&Scenario{Prop: "C09", Name: "shardmap" + sfx, Stalls: st, Weight: 3, Names: mapNames, Probes: []string{"all keys in one shard"}, Fn: shardMapRun})
		reg(&Scenario{Prop: "C10", Name: "hashset" + sfx, Stalls: st, Names: hashNames, Fn: hashRun})
		reg(&Scenario{Prop: "C11", Name: "keylocks" + sfx, Stalls: st, Weight: 4, Names: lockNames, Probes: []string{"another key held throughout"}, Fn: lockRun})
		reg(&Scenario{Prop: "C12", Name: "twokeymap" + sfx, Stalls: st, Names: twoNames, Fn: twoRun})
	}
	reg(&Scenario{Prop: "C09", Name: "shardmap-independent", Names: mapNames, Fn: shardMapIndependent})
	reg(&Scenario{Prop: "C11", Name: "readers-together", Names: lockNames, Fn: readersTogether})
}
