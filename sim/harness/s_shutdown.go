package main

import (
	"context"
	"time"

	"github.com/axgrid/axutils/collections"
)

// ---- C48: collections whose context ends ---------------------------------------------------
//
// The context of a collection ends at some instant, before, while or after its clients do what
// they do; they go on afterwards. Durations are either short or far longer than any run, so that
// what ends only with those is seen to be left.

const shutLong = 200 * int64(time.Hour)

const (
	sdSet = iota
	sdGet
	sdHas
	sdDelete
	sdLook
	sdFunc
	sdEnd
)

var shutNames = []string{"set", "get or wait", "has", "delete", "look", "function", "context ends"}

type shut struct {
	r      *R
	ctx    context.Context
	cancel func()
	endAt  int64
	ids    Cell
}

// val is a new value for a key.
func (d *shut) val(k int) int64 { return d.ids.Add(1)*8 + int64(k) + 1 }

func (d *shut) check(k int, v int64) {
	if v != 0 && int(v%8)-1 != k {
		d.r.failLater("value", "a value of another key came out")
	}
	if v/8 > d.ids.Get() || v < 0 {
		d.r.failLater("value", "a value nobody gave came out")
	}
}

// fn is what a user's function does: it takes some time.
func (d *shut) fn(k int, long int64) {
	o := d.r.Inv(-1, sdFunc, int64(k), 0, 0)
	Sleep(long)
	d.r.Ret(o, 0, 0)
}

type shutSys struct {
	what string
	op   func(c int, kind, k int) // one operation
	wait int64                    // an operation takes no longer by itself; what waits for longer ends with the context
	// once is called when everything is over and the context has ended, to look at what is left
	once func()
}

// shutdown plays a plan against an instance.
func shutdown(r *R, build func(d *shut) *shutSys) {
	w := &r.W
	d := &shut{r: r}
	mode := w.N(4)
	d.endAt = int64(w.N(30))*ms + int64(w.N(3))*ms/2
	switch mode {
	case 0: // it is cancelled
		d.ctx, d.cancel = r.Ctx()
		r.At(d.endAt, func(c int) {
			r.Fault(FCancel)
			o := r.Inv(c, sdEnd, 0, 0, 0)
			d.cancel()
			r.Ret(o, 0, 0)
		})
	case 1: // its deadline passes
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(d.endAt))
		d.ctx, d.cancel = ctx, cancel
		r.Defer(cancel)
		r.Fault(FTimeout)
	case 2: // it has ended before it is used
		d.ctx, d.cancel = r.Ctx()
		r.Fault(FCancel)
		d.cancel()
		d.endAt = 0
	case 3: // its parent is cancelled
		p, cancel := r.Ctx()
		d.ctx, d.cancel = context.WithCancel(context.WithValue(p, "a", 1))
		r.Defer(d.cancel)
		r.At(d.endAt, func(c int) {
			r.Fault(FCancel)
			o := r.Inv(c, sdEnd, 1, 0, 0)
			cancel()
			r.Ret(o, 0, 0)
		})
	}
	r.Cfg("mode=%d end=%.1fms", mode, msec(d.endAt))
	s := build(d)
	for i, n := 0, crowd(w, 1, 5, 16); i < n; i++ {
		type step struct {
			kind, k int
			after   int64
		}
		l := make([]step, w.In(1, 7))
		for j := range l {
			l[j] = step{w.W(3, 5, 1, 1, 1), w.W(4, 2, 1), int64(w.W(3, 2, 1, 1)) * (3*ms + int64(w.N(8))*ms)}
		}
		r.At(int64(w.N(3))*5*ms, func(c int) {
			for _, x := range l {
				t0 := r.Now()
				if t0 > d.endAt {
					r.Probe(0)
				}
				o := r.Inv(c, uint8(x.kind), int64(x.k), 0, 0)
				s.op(c, x.kind, x.k)
				r.Ret(o, 0, 0)
				if t0 <= d.endAt && r.Now() > d.endAt {
					r.Probe(1)
				}
				// what the context does not end ends by itself
				if took := r.Now() - max(t0, d.endAt) - 2*r.Stalled(); took > s.wait*2+100*ms {
					r.failLater("slow", "an operation went on for long after the context had ended")
				}
				Sleep(x.after)
			}
		})
	}
	if !r.Wait(int64(time.Hour)) {
		r.Fail("stuck", "an operation on the %s does not return although the context has ended", s.what)
		return
	}
	r.Calm()
	d.cancel()
	if l := r.Ended(int64(time.Minute)); l != 0 {
		r.Fail("goroutines", "%d goroutines of the %s are left after its context has ended", l, s.what)
		return
	}
	if s.once != nil {
		s.once()
	}
}

func shutGuava(d *shut) *shutSys {
	w := &d.r.W
	rt, wt := One(w, 0, 4*ms, shutLong), One(w, 0, 0, 7*ms, shutLong)
	maxn := One(w, 0, 0, 1, 2)
	load, slow := w.Pct(60), int64(w.N(3))*4*ms
	d.r.Cfg("read=%.0fms write=%.0fms max=%d load=%v/%.0fms", msec(rt), msec(wt), maxn, load, msec(slow))
	b := newGuava(d.r).WithContext(d.ctx).WithMaxCount(maxn).WithReadTimeout(time.Duration(rt)).WithWriteTimeout(time.Duration(wt)).WithLockLoad(w.Pct(50)).
		WithUnloadFunc(func(k int, v int64) {
			d.check(k, v)
			d.fn(k, slow)
		})
	if load {
		b.WithLoadFunc(func(k int) (int64, error) {
			d.fn(k, slow)
			if k == 2 {
				return 0, errIndep
			}
			return d.val(k), nil
		})
	}
	m := b.Build()
	update := w.Pct(30)
	return &shutSys{what: "GuavaMap", wait: 17 * 2 * slow,
		op: func(c, kind, k int) {
			switch kind {
			case sdSet:
				if update {
					d.check(k, m.LockForUpdate(k, func() int64 { d.fn(k, slow); return d.val(k) }))
				} else {
					m.Set(k, d.val(k))
				}
			case sdGet:
				v, err := m.Get(k)
				d.check(k, v)
				if err != nil && (err != errIndep || !load || k != 2) {
					d.r.failLater("error", "an error nobody gave")
				}
			case sdHas:
				m.HasOrCreate(k, d.val(k))
			case sdDelete:
				m.Delete(k)
			case sdLook:
				m.Has(k)
				for k, v := range m.GetStored() {
					d.check(k, v)
				}
				if n := m.Size(); maxn > 0 && n > maxn {
					d.r.failLater("size", "there are more entries than the maximum")
				}
			}
		},
		once: func() {
			// it goes on as a map without time
			v := d.val(0)
			m.Clear()
			m.Set(0, v)
			if got, err := m.Get(0); err != nil || got != v {
				d.r.Fail("unusable", "Get after Set gives %d, %v and not %d", got, err, v)
			}
			m.Delete(0)
			if m.Has(0) || m.Size() != 0 {
				d.r.Fail("unusable", "the key is there after Delete")
			}
			if l := d.r.Ended(int64(time.Minute)); l != 0 {
				d.r.Fail("goroutines", "%d goroutines are left after further use", l)
			}
		}}
}

func shutRequest(d *shut) *shutSys {
	w := &d.r.W
	ttl := One(w, ms, 110*ms, shutLong)
	slow := int64(w.N(4)) * 3 * ms
	m := newRequest(d.r, d.ctx, time.Duration(ttl))
	d.r.Cfg("ttl=%.0fms f=%.0fms", msec(ttl), msec(slow))
	to := One(w, ms, shutLong)
	f := func(k int) (int64, error) {
		d.fn(k, slow)
		if k == 2 {
			return 0, errIndep
		}
		return d.val(k), nil
	}
	return &shutSys{what: "RequestMap", wait: 17 * slow,
		op: func(c, kind, k int) {
			var v int64
			var err error
			switch kind {
			case sdSet:
				v, err = m.GetOrCreateWithErr(k, f)
			case sdGet:
				v = m.GetOrCreate(k, func(k int) int64 { d.fn(k, slow); return d.val(k) })
			case sdHas, sdDelete:
				v, err = m.Timeout(time.Duration(to), f)(k)
				if to == shutLong && err != nil && err != errIndep {
					d.r.failLater("timeout", "a timeout long before its time")
				}
				err = nil
			case sdLook:
				m.Count()
			}
			d.check(k, v)
			if err != nil && (err != errIndep || k != 2) {
				d.r.failLater("error", "an error nobody gave")
			}
		},
		once: func() {
			v := m.GetOrCreate(5, func(int) int64 { return 77 })
			if v != 77 {
				d.r.Fail("unusable", "GetOrCreate of a new key gives %d and not what its function gives", v)
			}
			if v = m.GetOrCreate(5, func(int) int64 { return 77 }); v != 77 {
				d.r.Fail("unusable", "GetOrCreate gives %d and not what its function gives", v)
			}
		}}
}

func shutResponse(d *shut) *shutSys {
	w := &d.r.W
	rt, ct := One(w, ms, 12*ms, 40*ms), One(w, ms, 15*ms, 1000*ms, shutLong)
	m := newResponse(d.r, d.ctx, time.Duration(rt), time.Duration(ct))
	d.r.Cfg("response=%.0fms clear=%.0fms", msec(rt), msec(ct))
	return &shutSys{what: "ResponseMap", wait: rt,
		op: func(c, kind, k int) {
			switch kind {
			case sdSet:
				m.Set(k, d.val(k))
			default:
				d.check(k, m.Wait(k))
			}
		},
		once: func() {
			m.Set(5, 6)
			if v := m.Wait(5); v != 6 {
				d.r.Fail("unusable", "Wait gives %d and not the value that was set, 6", v)
			}
		}}
}

func shutWait(d *shut) *shutSys {
	w := &d.r.W
	rt, ttl := One(w, ms, 12*ms, shutLong), One(w, ms, 15*ms, shutLong)
	m := newWait(d.r, d.ctx, time.Duration(rt), time.Duration(ttl))
	d.r.Cfg("request=%.0fms ttl=%.0fms", msec(rt), msec(ttl))
	return &shutSys{what: "WaitMap",
		op: func(c, kind, k int) {
			switch kind {
			case sdSet:
				m.Set(k, d.val(k))
			case sdLook:
				m.Count()
			default:
				d.check(k, m.Wait(k))
			}
		},
		once: func() {
			if n := m.Count(); n != 0 {
				d.r.Fail("count", "Count is %d after the context has ended", n)
			}
		}}
}

func shutHolder(d *shut) *shutSys {
	w := &d.r.W
	to, ttl := One(w, ms, 12*ms, shutLong), One(w, ms, 15*ms, shutLong)
	m := newHolder(d.r, d.ctx, time.Duration(to), time.Duration(ttl))
	d.r.Cfg("timeout=%.0fms ttl=%.0fms", msec(to), msec(ttl))
	return &shutSys{what: "HolderMap",
		op: func(c, kind, k int) {
			switch kind {
			case sdSet:
				m.Release(k)
			case sdGet:
				m.Wait(k, d.val(k))
			case sdHas:
				v, _ := m.Get(k)
				d.check(k, v)
			case sdDelete:
				m.Error(k, errIndep)
			case sdLook:
				m.Update(k, d.val(k))
				m.Count()
			}
		},
		once: func() {
			if n := m.Count(); n != 0 {
				d.r.Fail("count", "Count is %d after the context has ended", n)
			}
			if err := m.Wait(1, 10); err == nil {
				d.r.Fail("unusable", "Wait succeeds although the context has ended")
			}
			if l := d.r.Ended(int64(time.Minute)); l != 0 {
				d.r.Fail("goroutines", "%d goroutines are left after further use", l)
			}
		}}
}

func shutUniq(d *shut) *shutSys {
	w := &d.r.W
	ttl, iv := One(w, ms, 10*ms, shutLong), One(w, ms, 7*ms, shutLong)
	m := collections.NewStructUniqSet[int]().WithContext(d.ctx).WithElementTtl(time.Duration(ttl)).WithCheckInterval(time.Duration(iv)).
		WithBuildFunc(func(v int, _ ...any) (h [16]byte, err error) {
			h[0] = byte(v)
			return
		}).Build()
	d.r.Cfg("ttl=%.0fms interval=%.0fms", msec(ttl), msec(iv))
	fail := func(err error) {
		if err != nil {
			d.r.failLater("error", "an error nobody gave")
		}
	}
	return &shutSys{what: "StructUniqSet",
		op: func(c, kind, k int) {
			var err error
			switch kind {
			case sdSet, sdGet:
				_, err = m.Add(k)
			case sdHas:
				_, err = m.Has(k)
			case sdDelete:
				_, err = m.Remove(k)
			case sdLook:
				if n := m.Count(); n < 0 || n > 3 {
					d.r.failLater("count", "Count is more than the elements there are")
				}
			}
			fail(err)
		},
		once: func() {
			// without anyone who forgets elements, they stay
			m.Remove(4)
			if ok, err := m.Add(4); !ok || err != nil {
				d.r.Fail("unusable", "Add of a new element gives %v, %v", ok, err)
			}
			if ok, err := m.Remove(4); !ok || err != nil {
				d.r.Fail("unusable", "Remove of an element gives %v, %v", ok, err)
			}
			if ok, err := m.Has(4); ok || err != nil {
				d.r.Fail("unusable", "Has of a removed element gives %v, %v", ok, err)
			}
		}}
}

func init() {
	for _, x := range []struct {
		name   string
		weight int
		f      func(*shut) *shutSys
	}{
		{"shutdown-guava", 3, shutGuava},
		{"shutdown-request", 2, shutRequest},
		{"shutdown-response", 1, shutResponse},
		{"shutdown-wait", 2, shutWait},
		{"shutdown-holder", 2, shutHolder},
		{"shutdown-uniq", 1, shutUniq},
	} {
		for _, stalls := range []bool{false, true} {
			name := x.name
			if stalls {
				name += "-stalls"
			}
			reg(&Scenario{Prop: "C48", Name: name, Weight: x.weight, Stalls: stalls, Names: shutNames,
				Probes: []string{"operation after the context has ended", "operation under way when the context ends"},
				Fn:     func(r *R) { shutdown(r, x.f) }})
		}
	}
}
