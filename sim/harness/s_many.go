package main

import "sort"

// Large collections: hundreds of keys. Either one client does everything and the whole history is
// compared with a plain model, or several have keys of their own and each one's history is.

type manyAct struct {
	op   int
	a, b int
}

// manyPlan draws clients, their operations and the number of keys each has.
func manyPlan(r *R, together bool, wt ...int) (nk int, plans [][]manyAct) {
	w := &r.W
	nk = One(w, 5, 20, 40, 70, 130, 300)
	nc, ops := 1, w.In(10, 500)
	if together && w.Pct(60) {
		nc = w.In(2, 3)
		ops /= nc
	}
	r.Cfg("clients=%d keys of each=%d operations of each=%d", nc, nk, ops)
	fill := w.Pct(50) // first all keys in their order
	for c := 0; c < nc; c++ {
		var l []manyAct
		if fill {
			for k := 0; k < nk; k++ {
				l = append(l, manyAct{-1, c*nk + k, w.N(nk)})
			}
		}
		for i := 0; i < ops; i++ {
			l = append(l, manyAct{w.W(wt...), c*nk + w.N(nk), w.N(nk)})
		}
		plans = append(plans, l)
	}
	return nk, plans
}

// manyClients runs the plans.
func manyClients(r *R, plans [][]manyAct, do func(c int, a manyAct, id int)) bool {
	for c, l := range plans {
		r.Go(func(int) {
			for i, a := range l {
				do(c, a, c*1000+i+1)
			}
		})
	}
	if !r.Wait(3600000 * ms) {
		r.Fail("stuck", "an operation does not return")
		return false
	}
	return true
}

func ofClient(ops []Op, c int) []Op {
	var l []Op
	for _, o := range ops {
		if int(o.C) == c {
			l = append(l, o)
		}
	}
	return l
}

func manyCheck(r *R, o Op, ok bool, want ...int64) bool {
	if !ok {
		r.Fail("result", "%s(%d, %d) returned (%d, %d), not %v", r.name(o.K), o.A, o.B, o.R, o.R2, want)
	}
	return ok
}

func mapMany(r *R, shard bool) {
	w := &r.W
	nk, plans := manyPlan(r, true, 3, 3, 3, 1, 1, 1, 1)
	var m theMap
	clear := func() {}
	if shard {
		n := One(w, 1, 2, 6, 16, 64)
		s := newShard(r, n, func(k int) int { return k % n })
		m, clear = s, s.Clear
	} else {
		m = newSimple(r)
	}
	fs := &fnState{}
	if !manyClients(r, plans, func(c int, a manyAct, id int) {
		op := a.op
		if op < 0 {
			op = mSet
		}
		if op == mSize && len(plans) > 1 {
			op = mHas
		}
		mapOp(r, m, clear, fs, c, op, a.a, id, 0)
	}) {
		return
	}
	r.Calm()
	total := 0
	for c := range plans {
		st := map[int64]int64{}
		for _, o := range ofClient(r.Ops(), c) {
			v, in := st[o.A]
			ok := true
			switch o.K {
			case mGet:
				ok = manyCheck(r, o, o.R == v && o.R2 == b2i(in), v, b2i(in))
			case mSet:
				st[o.A] = o.B
			case mDel:
				delete(st, o.A)
			case mHas:
				ok = manyCheck(r, o, o.R == b2i(in), b2i(in))
			case mSine:
				ok = manyCheck(r, o, o.R == b2i(!in), b2i(!in))
				if !in {
					st[o.A] = o.B
				}
			case mSineF:
				if !in {
					v = o.B
					st[o.A] = v
				}
				ok = manyCheck(r, o, o.R == v && o.R2 == b2i(!in), v, b2i(!in))
			case mSize:
				ok = manyCheck(r, o, int(o.R) == len(st), int64(len(st)))
			}
			if !ok {
				return
			}
		}
		for k := c * nk; k < (c+1)*nk; k++ {
			v, in := m.Get(k)
			if want, ok := st[int64(k)]; ok != in || in && int64(v) != want {
				r.Fail("final", "key %d is (%d, %v) in the end, not (%d, %v)", k, v, in, want, ok)
				return
			}
		}
		total += len(st)
	}
	if n := m.Size(); n != total {
		r.Fail("size", "Size is %d and not %d", n, total)
		return
	}
	if shard {
		clear()
		if n := m.Size(); n != 0 {
			r.Fail("size", "Size is %d after Clear", n)
		}
	}
}

// sameKeys: l lists the keys of the model, each once.
func sameKeys(l []int, has func(int) bool, n int) bool {
	seen := map[int]bool{}
	for _, k := range l {
		if seen[k] || !has(k) {
			return false
		}
		seen[k] = true
	}
	return len(l) == n
}

func hashMany(r *R) {
	w := &r.W
	nk, plans := manyPlan(r, true, 5, 3, 5, 3, 1, 0, 1)
	max := 0
	if len(plans) == 1 {
		max = One(w, 0, 1, nk/2, nk, nk-1, 32, 64, 100)
	}
	s := newHash(r, max)
	r.Cfg("max=%d", max)
	if !manyClients(r, plans, func(c int, a manyAct, id int) {
		op := a.op
		if op < 0 {
			op = hAdd
		}
		if (op == hCount || op == hKeys) && len(plans) > 1 {
			op = hHas
		}
		h := r.Inv(c, uint8(op), int64(a.a), 0, 0)
		switch op {
		case hAdd:
			s.Add(a.a)
			r.Ret(h, 0, 0)
		case hHas:
			r.Ret(h, b2i(s.Has(a.a)), 0)
		case hHoc:
			r.Ret(h, b2i(s.HasOrCreate(a.a)), 0)
		case hDel:
			s.Delete(a.a)
			r.Ret(h, 0, 0)
		case hCount:
			r.Ret(h, int64(s.Count()), 0)
		case hKeys:
			d := int64(0)
			l := s.Keys()
			for _, k := range l {
				d += int64(mix(uint64(k)) >> 16)
			}
			r.Ret(h, d, int64(len(l)))
		}
	}) {
		return
	}
	r.Calm()
	all := map[int]bool{}
	for c := range plans {
		var order []int64 // oldest first
		st := map[int64]bool{}
		add := func(k int64) {
			if st[k] {
				return
			}
			st[k] = true
			order = append(order, k)
			if max > 0 && len(order) > max {
				delete(st, order[0])
				order = order[1:]
			}
		}
		for _, o := range ofClient(r.Ops(), c) {
			ok := true
			switch o.K {
			case hAdd:
				add(o.A)
			case hHas:
				ok = manyCheck(r, o, o.R == b2i(st[o.A]), b2i(st[o.A]))
			case hHoc:
				ok = manyCheck(r, o, o.R == b2i(st[o.A]), b2i(st[o.A]))
				add(o.A)
			case hDel:
				if st[o.A] {
					delete(st, o.A)
					for i, k := range order {
						if k == o.A {
							order = append(order[:i:i], order[i+1:]...)
							break
						}
					}
				}
			case hCount:
				ok = manyCheck(r, o, int(o.R) == len(st), int64(len(st)))
			case hKeys:
				d := int64(0)
				for k := range st {
					d += int64(mix(uint64(k)) >> 16)
				}
				ok = manyCheck(r, o, int(o.R2) == len(st) && o.R == d, d, int64(len(st)))
			}
			if !ok {
				return
			}
		}
		for k := range st {
			all[int(k)] = true
		}
	}
	if l := s.Keys(); !sameKeys(l, func(k int) bool { return all[k] }, len(all)) {
		sort.Ints(l)
		r.Fail("keys", "Keys is %v; there are %d members", l, len(all))
		return
	}
	if n := s.Count(); n != len(all) {
		r.Fail("count", "Count is %d and not %d", n, len(all))
		return
	}
	s.Clear()
	if n := s.Count(); n != 0 || len(s.Keys()) != 0 {
		r.Fail("count", "Count is %d after Clear", n)
	}
}

func twoMany(r *R) {
	nk, plans := manyPlan(r, true, 6, 3, 3, 1, 1, 1, 1, 1)
	m := newTwo(r)
	if !manyClients(r, plans, func(c int, a manyAct, id int) {
		op := a.op
		if op < 0 {
			op = tPut
		}
		if op >= tLen && len(plans) > 1 {
			op = tGet
		}
		b := c*nk + a.b
		h := r.Inv(c, uint8(op), int64(a.a), int64(b), int64(id))
		digest := func(l []int) {
			d := int64(0)
			for _, k := range l {
				d += int64(mix(uint64(k)) >> 16)
			}
			r.Ret(h, d, int64(len(l)))
		}
		switch op {
		case tPut:
			m.Put(a.a, b, id)
			r.Ret(h, 0, 0)
		case tGet:
			x, ok := m.Get(a.a)
			r.Ret(h, int64(x), b2i(ok))
		case tGet2:
			x, ok := m.GetByK2(b)
			r.Ret(h, int64(x), b2i(ok))
		case tRem:
			m.Remove(a.a)
			r.Ret(h, 0, 0)
		case tRem2:
			m.RemoveByK2(b)
			r.Ret(h, 0, 0)
		case tLen:
			r.Ret(h, int64(m.Len()), 0)
		case tKeys:
			digest(m.Keys())
		case tKeys2:
			digest(m.KeysK2())
		}
	}) {
		return
	}
	r.Calm()
	type entry struct{ k1, k2, v int64 }
	total := 0
	k1s, k2s := map[int]bool{}, map[int]bool{}
	for c := range plans {
		by1, by2 := map[int64]entry{}, map[int64]entry{}
		drop := func(e entry, ok bool) {
			if ok {
				delete(by1, e.k1)
				delete(by2, e.k2)
			}
		}
		for _, o := range ofClient(r.Ops(), c) {
			e1, ok1 := by1[o.A]
			e2, ok2 := by2[o.B]
			ok := true
			switch o.K {
			case tPut:
				drop(e1, ok1)
				drop(e2, ok2)
				e := entry{o.A, o.B, o.D}
				by1[o.A], by2[o.B] = e, e
			case tGet:
				ok = manyCheck(r, o, o.R == e1.v && o.R2 == b2i(ok1), e1.v, b2i(ok1))
			case tGet2:
				ok = manyCheck(r, o, o.R == e2.v && o.R2 == b2i(ok2), e2.v, b2i(ok2))
			case tRem:
				drop(e1, ok1)
			case tRem2:
				drop(e2, ok2)
			case tLen:
				ok = manyCheck(r, o, int(o.R) == len(by1), int64(len(by1)))
			case tKeys, tKeys2:
				d := int64(0)
				for _, e := range by1 {
					k := e.k1
					if o.K == tKeys2 {
						k = e.k2
					}
					d += int64(mix(uint64(k)) >> 16)
				}
				ok = manyCheck(r, o, int(o.R2) == len(by1) && o.R == d, d, int64(len(by1)))
			}
			if !ok {
				return
			}
		}
		total += len(by1)
		for k := range by1 {
			k1s[int(k)] = true
		}
		for k := range by2 {
			k2s[int(k)] = true
		}
		for k := int64(c * nk); k < int64((c+1)*nk); k++ {
			e1, ok1 := by1[k]
			e2, ok2 := by2[k]
			v1, in1 := m.Get(int(k))
			v2, in2 := m.GetByK2(int(k))
			if ok1 != in1 || ok2 != in2 || in1 && int64(v1) != e1.v || in2 && int64(v2) != e2.v {
				r.Fail("final", "key %d is (%d, %v) as a first and (%d, %v) as a second key in the end, not (%d, %v) and (%d, %v)", k, v1, in1, v2, in2, e1.v, ok1, e2.v, ok2)
				return
			}
		}
	}
	if m.Len() != total || !sameKeys(m.Keys(), func(k int) bool { return k1s[k] }, total) || !sameKeys(m.KeysK2(), func(k int) bool { return k2s[k] }, total) {
		r.Fail("keys", "Len is %d with %d first and %d second keys; there are %d entries", m.Len(), len(m.Keys()), len(m.KeysK2()), total)
	}
}

// guavaMany: max: with eviction (one client); unload: who goes is reported exactly once.
func guavaMany(r *R, withMax, unload bool) {
	w := &r.W
	nk, plans := manyPlan(r, !withMax, 5, 4, 2, 3, 2, w.N(2)*b2n(withMax), 1, 1, 1)
	max := 0
	if withMax {
		max = One(w, 1, nk/2, nk, nk-1, 32, 64, 100)
	}
	b := newGuava(r).WithMaxCount(max)
	r.Cfg("max=%d", max)
	if unload {
		b = b.WithUnloadFunc(func(k int, v int64) { r.Obs(-1, gUnload, int64(k), v, 0) })
	}
	m := b.Build()
	if !manyClients(r, plans, func(c int, a manyAct, id int) {
		op := a.op
		if op < 0 {
			op = gSet
		}
		if len(plans) > 1 && (op == gSize || op == gStored) {
			op = gGet
		}
		h := r.Inv(c, uint8(op), int64(a.a), int64(id), 0)
		switch op {
		case gSet:
			m.Set(a.a, int64(id))
			r.Ret(h, 0, 0)
		case gGet:
			v, _ := m.Get(a.a)
			r.Ret(h, v, 0)
		case gHas:
			r.Ret(h, b2i(m.Has(a.a)), 0)
		case gHoc:
			r.Ret(h, b2i(m.HasOrCreate(a.a, int64(id))), 0)
		case gDel:
			m.Delete(a.a)
			r.Ret(h, 0, 0)
		case gClear:
			m.Clear()
			r.Ret(h, 0, 0)
		case gSize:
			r.Ret(h, int64(m.Size()), 0)
		case gStored:
			x := m.GetStored()
			r.Ret(h, storedDigest(x), int64(len(x)))
		case gUpd:
			r.Ret(h, m.LockForUpdate(a.a, func() int64 { return int64(id) }), 0)
		}
	}) {
		return
	}
	r.Settle(ms)
	r.Calm()
	all := map[int]int64{}
	gone := map[int64]int64{} // values that went, to their keys
	for c := range plans {
		st := map[int64]int64{}
		var order []int64
		drop := func(k int64) {
			gone[st[k]] = k
			delete(st, k)
			for i, x := range order {
				if x == k {
					order = append(order[:i:i], order[i+1:]...)
					return
				}
			}
		}
		set := func(k, v int64) {
			if _, in := st[k]; !in {
				if max > 0 && len(order) >= max {
					drop(order[0])
				}
				order = append(order, k)
			}
			st[k] = v
		}
		for _, o := range ofClient(r.Ops(), c) {
			v, in := st[o.A]
			ok := true
			switch o.K {
			case gSet:
				set(o.A, o.B)
			case gUpd:
				ok = manyCheck(r, o, o.R == o.B, o.B)
				set(o.A, o.B)
			case gGet:
				ok = manyCheck(r, o, o.R == v, v)
			case gHas:
				ok = manyCheck(r, o, o.R == b2i(in), b2i(in))
			case gHoc:
				ok = manyCheck(r, o, o.R == b2i(in), b2i(in))
				if !in {
					set(o.A, o.B)
				}
			case gDel:
				if in {
					drop(o.A)
				}
			case gClear:
				for len(order) > 0 {
					drop(order[0])
				}
			case gSize:
				ok = manyCheck(r, o, int(o.R) == len(st), int64(len(st)))
			case gStored:
				d := int64(0)
				for k, v := range st {
					d += int64(mix(uint64(k)<<32|uint64(v)) >> 8)
				}
				ok = manyCheck(r, o, int(o.R2) == len(st) && o.R == d, d, int64(len(st)))
			}
			if !ok {
				return
			}
		}
		for k, v := range st {
			all[int(k)] = v
		}
	}
	if x := m.GetStored(); len(x) != len(all) || storedDigest(x) != storedDigest(all) || m.Size() != len(all) {
		r.Fail("stored", "GetStored has %d entries and Size is %d in the end; there are %d", len(x), m.Size(), len(all))
		return
	}
	m.Clear()
	r.Settle(ms)
	r.Calm()
	if n := m.Size(); n != 0 {
		r.Fail("stored", "Size is %d after Clear", n)
		return
	}
	if !unload {
		return
	}
	for k, v := range all {
		gone[v] = int64(k)
	}
	for _, o := range r.Sel(gUnload) {
		if k, ok := gone[o.B]; !ok || k != o.A {
			r.Fail("unload", "(%d, %d) was unloaded once too often or never went", o.A, o.B)
			return
		}
		delete(gone, o.B)
	}
	if len(gone) > 0 {
		r.Fail("unload", "%d entries went and were not unloaded", len(gone))
	}
}

func b2n(b bool) int { return int(b2i(b)) }

// locksMany: many keys are locked at once; nobody who wants another one has to wait.
func locksMany(r *R) {
	w := &r.W
	n := One(w, 5, 20, 64, 150, 300)
	rw := w.Pct(50)
	var l keyLocks
	var rl rwLocks
	if rw {
		rl = newRWMutex(r)
		l = rl
	} else {
		l = newMutex(r)
	}
	r.Cfg("rw=%v locks held=%d", rw, n)
	r.Go(func(c int) {
		for k := 0; k < n; k++ {
			l.Lock(k)
		}
	})
	if !r.Wait(60000 * ms) {
		r.Fail("blocked", "with some keys locked another one cannot be")
		return
	}
	tries := w.In(1, 20)
	for i := 0; i < tries; i++ {
		k, read := w.N(2*n), rw && w.Pct(50)
		r.At(ms, func(c int) {
			h := r.Inv(c, lLock, int64(k), 0, 0)
			if read {
				rl.RLock(k)
				r.Ret(h, 0, 0)
				rl.RUnlock(k)
			} else {
				l.Lock(k)
				r.Ret(h, 0, 0)
				l.Unlock(k)
			}
		})
	}
	r.Settle(100 * ms)
	r.Calm()
	r.Settle(100 * ms)
	rel := int64(0)
	check := func(done bool) bool {
		for _, o := range r.Ops() {
			if o.A < int64(n) {
				if !done && o.Ret != 0 {
					r.Fail("exclusion", "key %d was locked while another held it", o.A)
					return false
				}
				if done && o.T1 < rel {
					r.Fail("exclusion", "key %d was locked while another held it", o.A)
					return false
				}
			} else if o.Ret == 0 || o.T1-o.T0 > r.Stalled() {
				r.Fail("blocked", "key %d could not be locked while other keys were", o.A)
				return false
			}
		}
		return true
	}
	if !check(false) {
		return
	}
	rel = r.Now()
	for k := n - 1; k >= 0; k-- {
		l.Unlock(k)
	}
	if !r.Wait(60000 * ms) {
		r.Fail("stuck", "a lock is not granted although its holder has let go")
		return
	}
	check(true)
}

// locksCrowd: tens to hundreds want the lock of one key at once, and others come while they get it one by one.
func locksCrowd(r *R) {
	w := &r.W
	rw := w.Pct(50)
	var l keyLocks
	var rl rwLocks
	if rw {
		rl = newRWMutex(r)
		l = rl
	} else {
		l = newMutex(r)
	}
	keys := One(w, 1, 1, 2, 3)
	crowd := One(w, 10, 20, 40, 70, 140, 270)
	late := w.In(0, crowd/4)
	readers := One(w, 0, 0, 20, 80)
	hold := int64(w.N(3)) * ms
	st := &lockState{r: r}
	var shared [8]int
	r.Cfg("rw=%v keys=%d crowd=%d late=%d readers=%d%% hold=%dms", rw, keys, crowd, late, readers, hold/ms)
	for i := 0; i < crowd+late; i++ {
		k, read, at, again := w.N(keys), rw && w.Pct(readers), int64(0), w.Pct(20)
		if i >= crowd {
			at = 1 + int64(w.N(crowd*2+2))*(hold+ms/4)/2
		}
		r.At(at, func(c int) {
			for {
				if read {
					rl.RLock(k)
					st.enter(k, false)
					_ = shared[k]
					Sleep(hold)
					st.leave(k, false)
					rl.RUnlock(k)
				} else {
					l.Lock(k)
					st.enter(k, true)
					shared[k]++
					Sleep(hold)
					st.leave(k, true)
					l.Unlock(k)
				}
				if !again {
					return
				}
				again = false
			}
		})
	}
	if !r.Wait(60000 * ms) {
		r.Fail("stuck", "a lock is not granted although its holders have let go")
	}
}

func init() {
	for i, sfx := range []string{"", "-stalls"} {
		st := i == 1
		reg(&Scenario{Prop: "C08", Name: "simplemap-many" + sfx, Rare: true, Stalls: st, Names: mapNames, Fn: func(r *R) { mapMany(r, false) }})
		reg(&Scenario{Prop: "C09", Name: "shardmap-many" + sfx, Rare: true, Stalls: st, Names: mapNames, Fn: func(r *R) { mapMany(r, true) }})
		reg(&Scenario{Prop: "C10", Name: "hashset-many" + sfx, Rare: true, Stalls: st, Names: hashNames, Fn: hashMany})
		reg(&Scenario{Prop: "C11", Name: "keylocks-many" + sfx, Rare: true, Stalls: st, Names: lockNames, Fn: locksMany})
		reg(&Scenario{Prop: "C11", Name: "keylocks-crowd" + sfx, Rare: true, Stalls: st, Names: lockNames, Fn: locksCrowd})
		reg(&Scenario{Prop: "C27", Name: "guava-update-crowd" + sfx, Rare: true, Stalls: st, Names: guavaNames, Fn: func(r *R) { guavaUpdate(r, true) }})
		reg(&Scenario{Prop: "C12", Name: "twokeymap-many" + sfx, Rare: true, Stalls: st, Names: twoNames, Fn: twoMany})
		reg(&Scenario{Prop: "C22", Name: "guava-many" + sfx, Rare: true, Stalls: st, Names: guavaNames, Fn: func(r *R) { guavaMany(r, false, false) }})
		reg(&Scenario{Prop: "C23", Name: "guava-many-max" + sfx, Rare: true, Stalls: st, Names: guavaNames, Fn: func(r *R) { guavaMany(r, true, false) }})
		reg(&Scenario{Prop: "C26", Name: "guava-many-unload" + sfx, Rare: true, Stalls: st, Names: guavaNames, Fn: func(r *R) { guavaMany(r, r.W.Pct(60), true) }})
	}
}
