package main

import (
	"context"
	"errors"
	"time"

	"github.com/axgrid/axutils/collections"
)

const (
	uAdd    = iota // A: value; R: 1 added, R2: 1 error
	uHas           // A: value; R, R2
	uRemove        // A: value; R, R2
	uCount         // R
	uCancel
)

var uniqNames = []string{"Add", "Has", "Remove", "Count", "cancel"}

// uval is an element; two with equal content are one.
type uval struct {
	Name  string
	N     int64
	Parts []byte
	Sub   *struct{ X, Y int32 }
	Map   map[string]int
	Skip  int
}

// makeVal builds the value of an index anew each time; copies differ in Skip when that is not to count.
func makeVal(i int, skip int, withMap bool) uval {
	v := uval{Skip: skip}
	switch i % 4 {
	case 0:
		v.N = int64(i / 4)
	case 1:
		v.Name = "a" + string(rune('a'+i/4))
	case 2:
		v.Parts = []byte{1, byte(i / 4)}
	case 3:
		v.Sub = &struct{ X, Y int32 }{int32(i / 4), 1}
	}
	if withMap {
		v.Map = map[string]int{}
		for j := 0; j < 12; j++ {
			v.Map[string(rune('a'+j))] = j + i
		}
	}
	return v
}

var errBuild = errors.New("build")

type uniqSys struct {
	r    *R
	s    *collections.StructUniqSet[uval]
	skip bool // Skip is part of the value, ignored by the build function
	n    Cell
	withMap,
	failing bool
	pad    int // values are that long, and differ at their end
	cancel context.CancelFunc
}

func (s *uniqSys) start(ttl, interval int64) {
	r := s.r
	ctx, cancel := context.WithCancel(context.Background())
	r.Defer(cancel)
	s.cancel = cancel
	b := collections.NewStructUniqSet[uval]().WithContext(ctx).WithElementTtl(time.Duration(ttl)).WithCheckInterval(time.Duration(interval))
	if r.W.Pct(40) {
		s.skip = true
		s.failing = r.W.Pct(30)
		b = b.WithBuildFunc(func(v uval, _ ...any) ([16]byte, error) {
			if v.Skip == -1 {
				return [16]byte{0: byte(v.N), 5: byte(len(v.Parts))}, errBuild // it does not matter which
			}
			if v.Skip == -2 {
				r.Fault(FPanic)
				panic(errBuild)
			}
			var h [16]byte
			h[0], h[1] = byte(v.N), byte(len(v.Parts))
			if len(v.Parts) > 1 {
				h[2] = v.Parts[1]
			}
			copy(h[4:], v.Name)
			if v.Sub != nil {
				h[15], h[14] = byte(v.Sub.X), 1
			}
			return h, nil
		})
	}
	s.s = b.Build()
	r.Cfg("ttl=%.0fms interval=%.0fms own-build=%v", msec(ttl), msec(interval), s.skip)
}

func (s *uniqSys) do(c int, a act) {
	r := s.r
	skip := 0
	if s.skip {
		skip = int(s.n.Add(1))
		if s.failing && a.b%5 == 0 {
			skip = -1
			if a.b%10 == 0 {
				skip = -2
			}
		}
	}
	h := r.Inv(c, a.op, a.a, a.b, int64(b2i(skip < 0)))
	v := makeVal(int(a.a), skip, s.withMap)
	if s.pad > 0 {
		switch pad := make([]byte, s.pad); a.a % 4 {
		case 1:
			v.Name = string(pad) + v.Name
		default:
			v.Parts = append(pad, byte(a.a))
		}
	}
	var ok bool
	var err error
	defer func() {
		if e := recover(); e != nil {
			if e != errBuild {
				panic(e)
			}
			r.Ret(h, 0, 1)
		}
	}()
	switch a.op {
	case uAdd:
		ok, err = s.s.Add(v)
	case uHas:
		ok, err = s.s.Has(v)
	case uRemove:
		ok, err = s.s.Remove(v)
	case uCount:
		r.Ret(h, int64(s.s.Count()), 0)
		return
	case uCancel:
		r.Fault(FCancel)
		s.cancel()
	}
	r2 := b2i(err != nil)
	if err != nil && err != errBuild {
		r2 = 2
	}
	r.Ret(h, b2i(ok), r2)
}

// uniqErrs: a value whose build function fails is refused with that error; the rest of the history is returned.
func uniqErrs(r *R) []Op {
	var ops []Op
	for _, o := range r.Ops() {
		if o.K == uCancel {
			continue
		}
		if o.K != uCount && o.R2 != o.D || o.R2 != 0 && o.R != 0 {
			r.Fail("error", "%s(%d) returned (%d, error %d); the build function's error is %d", uniqNames[o.K], o.A, o.R, o.R2, o.D)
		}
		if o.D == 0 {
			ops = append(ops, o)
		}
	}
	return ops
}

func uniqLin(r *R) {
	w := &r.W
	s := &uniqSys{r: r}
	interval := int64(w.In(1, 50)) * ms
	s.start(int64(1000*time.Hour), interval)
	if !s.skip && w.Pct(15) {
		s.pad = One(w, 40, 100, 300, 2000, 70_000)
		if s.pad > 5000 && w.Pct(80) {
			s.pad = 600
		}
	}
	vals := w.In(1, 8)
	nc := w.In(2, 4)
	wt := []int{w.In(1, 5), w.N(4), w.N(4), w.N(3)}
	id := int64(0)
	for i := 0; i < nc; i++ {
		l := make([]act, w.In(1, 8))
		for j := range l {
			id++
			l[j] = act{op: uint8(w.W(wt...)), a: int64(w.N(vals)), b: id}
			if w.Pct(20) {
				l[j].at = int64(w.N(80)) * ms
			}
		}
		r.Go(func(c int) {
			for _, a := range l {
				Sleep(a.at)
				s.do(c, a)
			}
		})
	}
	if !r.Wait(60000 * ms) {
		r.Fail("stuck", "an operation does not return")
		return
	}
	r.Calm()
	// what is added once more, and the count
	for i := 0; i < vals; i++ {
		s.do(-1, act{op: uHas, a: int64(i), b: 1})
	}
	s.do(-1, act{op: uCount})
	ops := uniqErrs(r)
	if r.Failed() {
		return
	}
	if !Lin(ops, uint32(0), func(m uint32, o *Op, emit func(uint32)) {
		in := int64(m >> uint(o.A) & 1)
		switch o.K {
		case uAdd:
			if o.R == 1-in {
				emit(m | 1<<uint(o.A))
			}
		case uHas:
			if o.R == in {
				emit(m)
			}
		case uRemove:
			if o.R == in {
				emit(m &^ (1 << uint(o.A)))
			}
		case uCount:
			n := int64(0)
			for x := m; x != 0; x &= x - 1 {
				n++
			}
			if o.R == n {
				emit(m)
			}
		}
	}) {
		r.Fail("linearizable", "the history has no sequential explanation")
		return
	}
	s.cancel()
	if l := r.Ended(2 * interval); l != 0 {
		r.Fail("goroutines", "%d goroutines are left after cancellation", l)
	}
}

// uniqTTL: elements stay for their time, and at most one check interval longer.
func uniqTTL(r *R) {
	w := &r.W
	s := &uniqSys{r: r}
	ttl, ci := int64(w.In(1, 40))*ms, int64(w.In(1, 30))*ms
	s.start(ttl, ci)
	vals := w.In(1, 5)
	n := w.In(1, 24)
	span := int64(w.In(1, 5)) * max(ttl, ci)
	plan := planActs(w, n, span, vals, 6, 4, 2, 2)
	cancelAt := int64(1 << 61)
	if w.Pct(15) {
		cancelAt = int64(w.N(int(span/ms)))*ms + ms*9/10
		plan = append(plan, act{at: cancelAt, op: uCancel})
	}
	timed(r, plan, s.do)
	if !r.Wait(span + 60000*ms) {
		r.Fail("stuck", "an operation does not return")
		return
	}
	if cancelAt > span {
		r.Settle(ttl + ci + ms)
		if c := s.s.Count(); c != 0 {
			r.Fail("late", "%d elements are there long after their time", c)
			return
		}
	}
	ops := uniqErrs(r)
	added := make([]int64, vals) // when it was added; -1: not there
	for i := range added {
		added[i] = -1
	}
	for _, o := range byTime(ops) {
		if o.T0 != o.T1 {
			r.Fail("blocked", "%s took %.3f ms", uniqNames[o.K], msec(o.T1-o.T0))
			return
		}
		if o.T0 > cancelAt {
			break // nothing is promised about expiry then
		}
		sure := func(i int) bool { return added[i] >= 0 && o.T0 < added[i]+ttl }
		may := func(i int) bool { return added[i] >= 0 && o.T0 <= added[i]+ttl+ci }
		if o.K == uCount {
			lo, hi := int64(0), int64(0)
			for i := range added {
				lo += b2i(sure(i))
				hi += b2i(may(i))
			}
			if o.R < lo || o.R > hi {
				r.Fail("count", "Count is %d at %.3f ms, not between %d and %d", o.R, msec(o.T0), lo, hi)
				return
			}
			continue
		}
		i := int(o.A)
		there := o.R == 1
		if o.K == uAdd {
			there = o.R == 0
		}
		if sure(i) && !there {
			r.Fail("early", "%s(%d) at %.3f ms does not find the element added at %.3f ms", uniqNames[o.K], i, msec(o.T0), msec(added[i]))
			return
		}
		if !may(i) && there {
			r.Fail("late", "%s(%d) at %.3f ms finds an element that is not there (added at %.3f ms)", uniqNames[o.K], i, msec(o.T0), msec(added[i]))
			return
		}
		switch {
		case o.K == uAdd && !there:
			added[i] = o.T0
		case o.K == uRemove, !there:
			added[i] = -1
		}
	}
	s.cancel()
	if l := r.Ended(2 * ci); l != 0 {
		r.Fail("goroutines", "%d goroutines are left after cancellation", l)
	}
}

// uniqTies: adding, removing and checking meet; nothing crashes and nothing stays for ever.
func uniqTies(r *R) {
	w := &r.W
	s := &uniqSys{r: r}
	ttl, ci := int64(w.N(4))*ms, int64(w.In(1, 3))*ms
	s.start(ttl, ci)
	vals := w.In(1, 3)
	nc := w.In(1, 4)
	for i := 0; i < nc; i++ {
		l := make([]act, w.In(1, 6))
		for j := range l {
			l[j] = act{op: uint8(w.W(5, 2, 3, 1)), a: int64(w.N(vals)), b: 1, at: int64(w.N(3)) * ms}
		}
		r.Go(func(c int) {
			for _, a := range l {
				Sleep(a.at)
				s.do(c, a)
			}
		})
	}
	if !r.Wait(60000 * ms) {
		r.Fail("stuck", "an operation does not return")
		return
	}
	slack := r.Stalled()
	ops := uniqErrs(r)
	if r.Failed() {
		return
	}
	for _, o := range ops {
		if o.K == uCount || o.K == uRemove {
			continue
		}
		absent := o.K == uAdd && o.R == 1 || o.K == uHas && o.R == 0
		ok := false
		for _, p := range ops {
			if p.A != o.A {
				continue
			}
			if p.K == uAdd && p.R == 1 {
				// certainly there, unless something removed it
				if absent && p.Ret < o.Inv && o.T1 < p.T0+ttl {
					gone := false
					for _, q := range ops {
						gone = gone || q.K == uRemove && q.A == o.A && q.R == 1 && q.Ret > p.Inv && q.Inv < o.Ret
					}
					if !gone {
						r.Fail("early", "%s(%d) at %.3f ms does not find the element added at %.3f ms", uniqNames[o.K], o.A, msec(o.T1), msec(p.T0))
						return
					}
				}
				if p != o && p.Inv < o.Ret && o.T0 <= p.T1+ttl+ci+slack {
					ok = true
				}
			}
		}
		if !absent && !ok {
			r.Fail("late", "%s(%d) at %.3f ms finds an element that is not there", uniqNames[o.K], o.A, msec(o.T0))
			return
		}
	}
	r.Calm()
	r.Settle(ttl + 2*ci + slack)
	if c := s.s.Count(); c != 0 {
		r.Fail("late", "%d elements are there long after their time", c)
		return
	}
	s.cancel()
	if l := r.Ended(2 * ci); l != 0 {
		r.Fail("goroutines", "%d goroutines are left after cancellation", l)
	}
}

// uniqMany: very many elements, some of them due at once.
func uniqMany(r *R) {
	w := &r.W
	ctx, cancel := context.WithCancel(context.Background())
	r.Defer(cancel)
	ttl, ci := int64(w.In(1, 40))*ms, int64(w.In(1, 30))*ms
	b := collections.NewStructUniqSet[int64]().WithContext(ctx).WithElementTtl(time.Duration(ttl)).WithCheckInterval(time.Duration(ci))
	if w.Pct(80) {
		b = b.WithBuildFunc(func(v int64, _ ...any) (h [16]byte, err error) {
			h[0], h[5], h[15] = byte(v), byte(v>>8), byte(v>>16)
			return
		})
	}
	s := b.Build()
	type group struct{ at, from, n int64 }
	gs := make([]group, w.In(1, 4))
	at, id := int64(0), int64(0)
	for i := range gs {
		at += One(w, 1000, ms+1000, ci+1000, ttl+1000)
		n := int64(One(w, 1, 10, 70, 150, 300, 700))
		gs[i] = group{at, id, n}
		id += n
	}
	end := at + ttl + ci + ms
	checks := make([]int64, w.In(1, 10))
	for i := range checks {
		checks[i] = int64(w.N(int(end/ms)+1))*ms + ms/2
	}
	checks = append(checks, end)
	removed := w.N(3) == 0
	r.Cfg("ttl=%.0fms interval=%.0fms groups=%v removed=%v", msec(ttl), msec(ci), gs, removed)
	for _, g := range gs {
		r.At(g.at, func(c int) {
			for i := g.from; i < g.from+g.n; i++ {
				if ok, err := s.Add(i); !ok || err != nil {
					r.failLater("result", "Add of a new element returned false")
				}
			}
			if removed && g.n > 1 { // the first of the group
				if ok, err := s.Remove(g.from); !ok || err != nil {
					r.failLater("early", "Remove does not find an element just added")
				}
			}
		})
	}
	for _, at := range checks {
		r.At(at, func(c int) {
			lo, hi := int64(0), int64(0)
			for _, g := range gs {
				n := g.n
				if removed && n > 1 {
					n--
				}
				if g.at <= at && at < g.at+ttl {
					lo += n
				}
				if g.at <= at && at <= g.at+ttl+ci {
					hi += n
				}
			}
			if n := int64(s.Count()); n < lo {
				r.failLater("early", "Count is less than the number of elements whose time is not over")
			} else if n > hi {
				r.failLater("late", "Count is more than the number of elements whose time can still last")
			}
		})
	}
	if !r.Wait(end + 60000*ms) {
		r.Fail("stuck", "an operation does not return")
		return
	}
	cancel()
	if l := r.Ended(2 * ci); l != 0 {
		r.Fail("goroutines", "%d goroutines are left after cancellation", l)
	}
}

// uniqMap: elements that hold a map are elements like others.
func uniqMap(r *R) {
	ctx, cancel := context.WithCancel(context.Background())
	r.Defer(cancel)
	s := collections.NewStructUniqSet[uval]().WithContext(ctx).WithElementTtl(time.Hour).WithCheckInterval(time.Hour).Build()
	for i := 0; i < 20; i++ {
		ok, err := s.Add(makeVal(1, 0, true))
		if err != nil {
			r.Fail("error", "Add: %v", err)
			return
		}
		if ok != (i == 0) {
			r.Fail("mapfield", "Add of a value with a map in it, equal to one added before, returned %v", ok)
			return
		}
	}
}

// opaque has nothing the default hash function could see, which it says.
type opaque struct{ a int }

func uniqOpaque(r *R) {
	w := &r.W
	ctx, cancel := context.WithCancel(context.Background())
	r.Defer(cancel)
	b := collections.NewStructUniqSet[any]().WithContext(ctx).WithElementTtl(time.Hour).WithCheckInterval(time.Hour)
	s := b.Build()
	good := int64(0)
	for i, n := 0, w.In(1, 3); i < n; i++ {
		type one struct {
			op, v int
			bad   bool
		}
		l := make([]one, w.In(1, 6))
		for j := range l {
			l[j] = one{w.N(3), w.In(1, 3), w.Pct(60)}
			if !l[j].bad {
				l[j].op = 0
				good |= 1 << l[j].v
			}
		}
		r.Go(func(c int) {
			for _, o := range l {
				var v any = opaque{o.v}
				if !o.bad {
					v = uplain{o.v}
				}
				h := r.Inv(c, uint8(o.op), int64(o.v), 0, b2i(o.bad))
				ok, err := false, error(nil)
				switch o.op {
				case 0:
					ok, err = s.Add(v)
				case 1:
					ok, err = s.Has(v)
				case 2:
					ok, err = s.Remove(v)
				}
				r.Ret(h, b2i(ok), b2i(err != nil))
				if o.bad && (ok || err == nil) {
					r.failLater("error", "an operation with a value the hash function refuses gave no error")
				}
				if !o.bad && err != nil {
					r.failLater("error", "an operation gave an error though its value can be hashed")
				}
			}
		})
	}
	if !r.Wait(60e9) {
		r.Fail("stuck", "an operation does not return")
		return
	}
	n := 0
	for ; good != 0; good &= good - 1 {
		n++
	}
	if c := s.Count(); c != n {
		r.Fail("count", "%d elements are in the set, and %d different ones were added", c, n)
	}
}

type uplain struct{ A int }

func init() {
	for i, sfx := range []string{"", "-stalls"} {
		st := i == 1
		reg(&Scenario{Prop: "C28", Name: "uniq-lin" + sfx, Stalls: st, Weight: 20, Names: uniqNames, Fn: uniqLin})
		reg(&Scenario{Prop: "C29", Name: "uniq-ties" + sfx, Stalls: st, Names: uniqNames, Fn: uniqTies})
	}
	reg(&Scenario{Prop: "C28", Name: "uniq-opaque", Weight: 2, Names: uniqNames, Fn: uniqOpaque})
	reg(&Scenario{Prop: "C28", Name: "uniq-map", Names: uniqNames, Fn: uniqMap})
	reg(&Scenario{Prop: "C29", Name: "uniq-many", Scale: true, Names: uniqNames, Fn: uniqMany})
	reg(&Scenario{Prop: "C29", Name: "uniq-ttl", Scale: true, Weight: 3, Names: uniqNames, Fn: uniqTTL})
}
