package main

import (
	"context"
	"errors"
	"strconv"
	"strings"
	"time"

	"github.com/axgrid/axutils/collections"
)

// The collections are generic. The scenarios speak of keys 0, 1, 2 …; which type and which values
// these stand for is drawn per run, so that code that takes two different keys for one (by their
// text, their hash, their low bits) or one key for two is seen by every scenario.

// conv is an injection of the scenarios' keys into K, and its inverse.
type conv[K comparable] struct {
	to   func(int) K
	from func(K) int
}

// hkey prints the same whatever it is.
type hkey struct {
	n    int
	salt uint64
}

func (hkey) String() string               { return "key" }
func (hkey) GoString() string             { return "key" }
func (hkey) MarshalText() ([]byte, error) { return []byte("key"), nil }

const (
	kPlain = iota
	kString
	kStruct
	kAny
	kWide
	kKinds
)

var keyKinds = [kKinds]string{"0,1,2", "strings", "structs that print alike", "any", "wide"}

type keyKind struct {
	kind, off int
	mult      int
	salt      uint64
}

func drawKeys(r *R) keyKind {
	w := &r.W
	k := keyKind{kind: w.W(5, 1, 2, 1, 1)}
	switch k.kind {
	case kString, kAny:
		k.off = w.N(8)
	case kWide:
		k.mult = One(w, 256, 1<<16, 1<<32, -1, 1<<48, 64)
		k.off = One(w, 0, -1, 1<<31, 1<<40)
	case kStruct:
		k.salt = uint64(w.N(4))
	}
	if k.kind != kPlain {
		r.Cfg("keys: %s", keyKinds[k.kind])
	}
	return k
}

var stringKeys = [8]string{"", " ", "a", "A", "a:a", "a::", ":a", "\x00"}

var anyKeys = [8]any{nil, 1, int64(1), "1", float64(1), uint8(1), [1]int{1}, struct{}{}}

func tabled[K comparable](tab []K, off int, beyond func(int) K, back func(K) int) conv[K] {
	n := len(tab)
	return conv[K]{
		to: func(i int) K {
			if i >= 0 && i < n {
				return tab[(i+off)%n]
			}
			return beyond(i)
		},
		from: func(k K) int {
			for j, t := range tab {
				if t == k {
					return (j - off + n) % n
				}
			}
			return back(k)
		},
	}
}

func plainConv() conv[int] {
	return conv[int]{func(i int) int { return i }, func(k int) int { return k }}
}

func (k keyKind) wide() conv[int] {
	return conv[int]{func(i int) int { return k.off + i*k.mult }, func(v int) int { return (v - k.off) / k.mult }}
}

func (k keyKind) strings() conv[string] {
	return tabled(stringKeys[:], k.off, func(i int) string { return "k" + strconv.Itoa(i) }, func(s string) int {
		if i, err := strconv.Atoi(strings.TrimPrefix(s, "k")); err == nil {
			return i
		}
		return -1
	})
}

func (k keyKind) structs() conv[hkey] {
	return conv[hkey]{func(i int) hkey { return hkey{i, k.salt} }, func(h hkey) int {
		if h.salt != k.salt {
			return -1
		}
		return h.n
	}}
}

func (k keyKind) anys() conv[any] {
	return tabled(anyKeys[:], k.off, func(i int) any { return 100 + i }, func(v any) int {
		if i, ok := v.(int); ok {
			return i - 100
		}
		return -1
	})
}

// Values too: the zero value is a value, and values need not be comparable.
type vals[V any] struct {
	to   func(int64) V
	from func(V) int64
	off  *bool
}

type valKind struct {
	any bool
	off *bool
	z   int64 // this one is the zero value, unless off
}

func drawVals(r *R, swap bool) valKind {
	w := &r.W
	v := valKind{any: w.Pct(20), off: new(bool)}
	if swap && w.Pct(30) {
		v.z = int64(One(w, 1, 100, 1000) + w.N(8))
	}
	if v.any {
		r.Cfg("values: any")
	}
	if v.z > 0 {
		r.Cfg("value %d is the zero value", v.z)
	}
	return v
}

func (k valKind) swap(v int64) int64 {
	if *k.off {
		return v
	}
	switch v {
	case k.z:
		return 0
	case 0:
		return k.z
	}
	return v
}

func (k valKind) ints() vals[int64] { return vals[int64]{k.swap, k.swap, k.off} }

func (k valKind) anys() vals[any] {
	return vals[any]{
		func(v int64) any {
			if v = k.swap(v); v == 0 {
				return nil
			}
			return []int64{v}
		},
		func(v any) int64 {
			if v == nil {
				return k.swap(0)
			}
			return k.swap(v.([]int64)[0])
		},
		k.off,
	}
}

func isZero[V any](c vals[V], v V) bool {
	var zero V
	return c.from(v) == c.from(zero)
}

// ---- GuavaMap ----------------------------------------------------------------------------

type guavaI interface {
	Has(int) bool
	HasOrCreate(int, int64) bool
	LockForUpdate(int, func() int64) int64
	Delete(int)
	Clear()
	Size() int
	Get(int) (int64, error)
	GetStored() map[int]int64
	Set(int, int64)
}

type guavaB interface {
	WithContext(context.Context) guavaB
	WithLockLoad(bool) guavaB
	WithLoadFunc(func(int) (int64, error)) guavaB
	WithMaxCount(int) guavaB
	WithUnloadFunc(func(int, int64)) guavaB
	WithWriteTimeout(time.Duration) guavaB
	WithReadTimeout(time.Duration) guavaB
	Build() guavaI
}

type guavaBA[K comparable, V any] struct {
	b *collections.GuavaMapBuilder[K, V]
	c conv[K]
	v vals[V]
}

type guavaA[K comparable, V any] struct {
	m *collections.GuavaMap[K, V]
	c conv[K]
	v vals[V]
}

func newGuava(r *R) guavaB {
	k, v := drawKeys(r), drawVals(r, true)
	if v.any {
		return newGuavaOf(k, v.anys())
	}
	return newGuavaOf(k, v.ints())
}

func newGuavaOf[V any](k keyKind, v vals[V]) guavaB {
	*v.off = true // until there is a load function: the zero value says that a key is not there
	switch k.kind {
	case kString:
		return guavaBA[string, V]{collections.NewGuavaMap[string, V](), k.strings(), v}
	case kStruct:
		return guavaBA[hkey, V]{collections.NewGuavaMap[hkey, V](), k.structs(), v}
	case kAny:
		return guavaBA[any, V]{collections.NewGuavaMap[any, V](), k.anys(), v}
	case kWide:
		return guavaBA[int, V]{collections.NewGuavaMap[int, V](), k.wide(), v}
	}
	return guavaBA[int, V]{collections.NewGuavaMap[int, V](), plainConv(), v}
}

func (a guavaBA[K, V]) WithContext(c context.Context) guavaB {
	a.b = a.b.WithContext(c)
	return a
}

func (a guavaBA[K, V]) WithLockLoad(v bool) guavaB {
	a.b = a.b.WithLockLoad(v)
	return a
}

func (a guavaBA[K, V]) WithMaxCount(n int) guavaB {
	a.b = a.b.WithMaxCount(n)
	return a
}

func (a guavaBA[K, V]) WithWriteTimeout(d time.Duration) guavaB {
	a.b = a.b.WithWriteTimeout(d)
	return a
}

func (a guavaBA[K, V]) WithReadTimeout(d time.Duration) guavaB {
	a.b = a.b.WithReadTimeout(d)
	return a
}

func (a guavaBA[K, V]) WithLoadFunc(f func(int) (int64, error)) guavaB {
	*a.v.off = false
	a.b = a.b.WithLoadFunc(func(k K) (v V, err error) {
		x, err := f(a.c.from(k))
		if x != 0 || err == nil {
			v = a.v.to(x)
		}
		return v, err
	})
	return a
}

func (a guavaBA[K, V]) WithUnloadFunc(f func(int, int64)) guavaB {
	a.b = a.b.WithUnloadFunc(func(k K, v V) { f(a.c.from(k), a.v.from(v)) })
	return a
}

func (a guavaBA[K, V]) Build() guavaI { return guavaA[K, V]{a.b.Build(), a.c, a.v} }

func (a guavaA[K, V]) Has(k int) bool                  { return a.m.Has(a.c.to(k)) }
func (a guavaA[K, V]) HasOrCreate(k int, v int64) bool { return a.m.HasOrCreate(a.c.to(k), a.v.to(v)) }
func (a guavaA[K, V]) Delete(k int)                    { a.m.Delete(a.c.to(k)) }
func (a guavaA[K, V]) Clear()                          { a.m.Clear() }
func (a guavaA[K, V]) Size() int                       { return a.m.Size() }
func (a guavaA[K, V]) Set(k int, v int64)              { a.m.Set(a.c.to(k), a.v.to(v)) }

func (a guavaA[K, V]) Get(k int) (int64, error) {
	v, err := a.m.Get(a.c.to(k))
	if err != nil && isZero(a.v, v) {
		return 0, err
	}
	return a.v.from(v), err
}

func (a guavaA[K, V]) GetStored() map[int]int64 {
	m := a.m.GetStored()
	res := make(map[int]int64, len(m))
	for k, v := range m {
		res[a.c.from(k)] = a.v.from(v)
	}
	return res
}

func (a guavaA[K, V]) LockForUpdate(k int, f func() int64) int64 {
	return a.v.from(a.m.LockForUpdate(a.c.to(k), func() V { return a.v.to(f()) }))
}

// ---- RequestMap --------------------------------------------------------------------------

type requestI interface {
	Count() int
	GetOrCreate(int, func(int) int64) int64
	GetOrCreateWithErr(int, func(int) (int64, error)) (int64, error)
	Timeout(time.Duration, func(int) (int64, error)) func(int) (int64, error)
}

type requestInitial struct {
	Key    int
	Result int64
	Err    error
}

type requestA[K comparable, V any] struct {
	m *collections.RequestMap[K, V]
	c conv[K]
	v vals[V]
}

func newRequest(r *R, ctx context.Context, ttl time.Duration, init ...requestInitial) requestI {
	k, v := drawKeys(r), drawVals(r, true)
	if v.any {
		return newRequestOf(k, v.anys(), ctx, ttl, init)
	}
	return newRequestOf(k, v.ints(), ctx, ttl, init)
}

func newRequestOf[V any](k keyKind, v vals[V], ctx context.Context, ttl time.Duration, init []requestInitial) requestI {
	switch k.kind {
	case kString:
		return requestOf(k.strings(), v, ctx, ttl, init)
	case kStruct:
		return requestOf(k.structs(), v, ctx, ttl, init)
	case kAny:
		return requestOf(k.anys(), v, ctx, ttl, init)
	case kWide:
		return requestOf(k.wide(), v, ctx, ttl, init)
	}
	return requestOf(plainConv(), v, ctx, ttl, init)
}

func requestOf[K comparable, V any](c conv[K], v vals[V], ctx context.Context, ttl time.Duration, init []requestInitial) requestI {
	var l []*collections.RequestMapInitializer[K, V]
	for _, i := range init {
		l = append(l, &collections.RequestMapInitializer[K, V]{Key: c.to(i.Key), Result: v.to(i.Result), Err: i.Err})
	}
	return requestA[K, V]{collections.NewRequestMap[K, V](ctx, ttl, l...), c, v}
}

func (a requestA[K, V]) Count() int { return a.m.Count() }

func (a requestA[K, V]) GetOrCreate(k int, f func(int) int64) int64 {
	return a.v.from(a.m.GetOrCreate(a.c.to(k), func(k K) V { return a.v.to(f(a.c.from(k))) }))
}

func (a requestA[K, V]) give(f func(int) (int64, error)) func(K) (V, error) {
	return func(k K) (V, error) {
		v, err := f(a.c.from(k))
		return a.v.to(v), err
	}
}

func (a requestA[K, V]) GetOrCreateWithErr(k int, f func(int) (int64, error)) (int64, error) {
	v, err := a.m.GetOrCreateWithErr(a.c.to(k), a.give(f))
	return a.v.from(v), err
}

func (a requestA[K, V]) Timeout(d time.Duration, f func(int) (int64, error)) func(int) (int64, error) {
	g := a.m.Timeout(d, a.give(f))
	return func(k int) (int64, error) {
		v, err := g(a.c.to(k))
		if errors.Is(err, collections.ErrTimeout) && isZero(a.v, v) {
			return 0, err
		}
		return a.v.from(v), err
	}
}

// ---- ResponseMap, WaitMap, HolderMap -----------------------------------------------------

type responseA[K comparable, V any] struct {
	m *collections.ResponseMap[K, V]
	c conv[K]
	v vals[V]
}

func newResponse(r *R, ctx context.Context, rt, ct time.Duration) waiterMap {
	k, v := drawKeys(r), drawVals(r, false)
	if v.any {
		return newResponseOf(k, v.anys(), ctx, rt, ct)
	}
	return newResponseOf(k, v.ints(), ctx, rt, ct)
}

func newResponseOf[V any](k keyKind, v vals[V], ctx context.Context, rt, ct time.Duration) waiterMap {
	switch k.kind {
	case kString:
		return responseOf(k.strings(), v, ctx, rt, ct)
	case kStruct:
		return responseOf(k.structs(), v, ctx, rt, ct)
	case kAny:
		return responseOf(k.anys(), v, ctx, rt, ct)
	case kWide:
		return responseOf(k.wide(), v, ctx, rt, ct)
	}
	return responseOf(plainConv(), v, ctx, rt, ct)
}

func responseOf[K comparable, V any](c conv[K], v vals[V], ctx context.Context, rt, ct time.Duration) waiterMap {
	return responseA[K, V]{collections.NewResponseMap[K, V](ctx).WithResponseTimeout(rt).WithClearTimeout(ct).Build(), c, v}
}

func (a responseA[K, V]) Set(k int, v int64) { a.m.Set(a.c.to(k), a.v.to(v)) }
func (a responseA[K, V]) Wait(k int) int64   { return a.v.from(a.m.Wait(a.c.to(k))) }

type waitI interface {
	waiterMap
	Count() int
}

type waitA[K comparable, V any] struct {
	m *collections.WaitMap[K, V]
	c conv[K]
	v vals[V]
}

func newWait(r *R, ctx context.Context, rt, ttl time.Duration) waitI {
	k, v := drawKeys(r), drawVals(r, false)
	if v.any {
		return newWaitOf(k, v.anys(), ctx, rt, ttl)
	}
	return newWaitOf(k, v.ints(), ctx, rt, ttl)
}

func newWaitOf[V any](k keyKind, v vals[V], ctx context.Context, rt, ttl time.Duration) waitI {
	switch k.kind {
	case kString:
		return waitOf(k.strings(), v, ctx, rt, ttl)
	case kStruct:
		return waitOf(k.structs(), v, ctx, rt, ttl)
	case kAny:
		return waitOf(k.anys(), v, ctx, rt, ttl)
	case kWide:
		return waitOf(k.wide(), v, ctx, rt, ttl)
	}
	return waitOf(plainConv(), v, ctx, rt, ttl)
}

func waitOf[K comparable, V any](c conv[K], v vals[V], ctx context.Context, rt, ttl time.Duration) waitI {
	return waitA[K, V]{collections.NewWaitMap[K, V]().WithContext(ctx).WithRequestTimeout(rt).WithResponseTtl(ttl).Build(), c, v}
}

func (a waitA[K, V]) Count() int         { return a.m.Count() }
func (a waitA[K, V]) Set(k int, v int64) { a.m.Set(a.c.to(k), a.v.to(v)) }
func (a waitA[K, V]) Wait(k int) int64   { return a.v.from(a.m.Wait(a.c.to(k))) }

type holderI interface {
	Get(int) (int64, error)
	Count() int
	Wait(int, int64) error
	Update(int, int64) error
	Release(int) error
	Error(int, error) error
}

type holderA[K comparable, V any] struct {
	m *collections.HolderMap[K, V]
	c conv[K]
	v vals[V]
}

func newHolder(r *R, ctx context.Context, to, ttl time.Duration) holderI {
	k, v := drawKeys(r), drawVals(r, true)
	if v.any {
		return newHolderOf(k, v.anys(), ctx, to, ttl)
	}
	return newHolderOf(k, v.ints(), ctx, to, ttl)
}

func newHolderOf[V any](k keyKind, v vals[V], ctx context.Context, to, ttl time.Duration) holderI {
	switch k.kind {
	case kString:
		return holderOf(k.strings(), v, ctx, to, ttl)
	case kStruct:
		return holderOf(k.structs(), v, ctx, to, ttl)
	case kAny:
		return holderOf(k.anys(), v, ctx, to, ttl)
	case kWide:
		return holderOf(k.wide(), v, ctx, to, ttl)
	}
	return holderOf(plainConv(), v, ctx, to, ttl)
}

func holderOf[K comparable, V any](c conv[K], v vals[V], ctx context.Context, to, ttl time.Duration) holderI {
	return holderA[K, V]{collections.NewHolderMap[K, V]().WithContext(ctx).WithTimeout(to).WithTTL(ttl).Build(), c, v}
}

func (a holderA[K, V]) Get(k int) (int64, error) {
	v, err := a.m.Get(a.c.to(k))
	if outcome(err) == outNotFound && isZero(a.v, v) {
		return 0, err
	}
	return a.v.from(v), err
}

func (a holderA[K, V]) Count() int                   { return a.m.Count() }
func (a holderA[K, V]) Wait(k int, v int64) error    { return a.m.Wait(a.c.to(k), a.v.to(v)) }
func (a holderA[K, V]) Update(k int, v int64) error  { return a.m.Update(a.c.to(k), a.v.to(v)) }
func (a holderA[K, V]) Release(k int) error          { return a.m.Release(a.c.to(k)) }
func (a holderA[K, V]) Error(k int, err error) error { return a.m.Error(a.c.to(k), err) }

// ---- HashSet -----------------------------------------------------------------------------

type hashI interface {
	Add(int)
	Has(int) bool
	HasOrCreate(int) bool
	Delete(int)
	Count() int
	Clear()
	Keys() []int
}

type hashA[K comparable] struct {
	s *collections.HashSet[K]
	c conv[K]
}

func newHash(r *R, max int) hashI {
	k := drawKeys(r)
	switch k.kind {
	case kString:
		return hashOf(k.strings(), max)
	case kStruct:
		return hashOf(k.structs(), max)
	case kAny:
		return hashOf(k.anys(), max)
	case kWide:
		return hashOf(k.wide(), max)
	}
	return hashOf(plainConv(), max)
}

func hashOf[K comparable](c conv[K], max int) hashI {
	return hashA[K]{collections.NewHashSet[K]().WithMaxCount(max).Build(), c}
}

func (a hashA[K]) Add(k int)              { a.s.Add(a.c.to(k)) }
func (a hashA[K]) Has(k int) bool         { return a.s.Has(a.c.to(k)) }
func (a hashA[K]) HasOrCreate(k int) bool { return a.s.HasOrCreate(a.c.to(k)) }
func (a hashA[K]) Delete(k int)           { a.s.Delete(a.c.to(k)) }
func (a hashA[K]) Count() int             { return a.s.Count() }
func (a hashA[K]) Clear()                 { a.s.Clear() }
func (a hashA[K]) Keys() []int            { return unkeys(a.s.Keys(), a.c) }

func unkeys[K comparable](l []K, c conv[K]) []int {
	res := make([]int, len(l))
	for i, k := range l {
		res[i] = c.from(k)
	}
	return res
}

// ---- SimpleMap, ShardMap -----------------------------------------------------------------

type mapA[K comparable] struct {
	m collections.Map[K, int]
	c conv[K]
}

// clear is there for ShardMap only.
type clearMapA[K comparable] struct {
	mapA[K]
	clear func()
}

func newSimple(r *R) collections.Map[int, int] {
	k := drawKeys(r)
	switch k.kind {
	case kString:
		return mapA[string]{collections.NewSimpleMap[string, int](), k.strings()}
	case kStruct:
		return mapA[hkey]{collections.NewSimpleMap[hkey, int](), k.structs()}
	case kAny:
		return mapA[any]{collections.NewSimpleMap[any, int](), k.anys()}
	case kWide:
		return mapA[int]{collections.NewSimpleMap[int, int](), k.wide()}
	}
	return mapA[int]{collections.NewSimpleMap[int, int](), plainConv()}
}

type shardI interface {
	collections.Map[int, int]
	Clear()
}

// newShard: shards 0 for the default.
func newShard(r *R, shards int, f func(int) int) shardI {
	k := drawKeys(r)
	switch k.kind {
	case kString:
		return shardOf(k.strings(), shards, f)
	case kStruct:
		return shardOf(k.structs(), shards, f)
	case kAny:
		return shardOf(k.anys(), shards, f)
	case kWide:
		return shardOf(k.wide(), shards, f)
	}
	return shardOf(plainConv(), shards, f)
}

func shardOf[K comparable](c conv[K], shards int, f func(int) int) shardI {
	b := collections.NewShardMap[K, int]()
	if shards > 0 {
		b.WithShardsCount(shards)
	}
	m := b.WithShardsFunc(func(k K) int { return f(c.from(k)) }).Build()
	return clearMapA[K]{mapA[K]{m, c}, m.Clear}
}

func (a clearMapA[K]) Clear() { a.clear() }

func (a mapA[K]) Get(k int) (int, bool)            { return a.m.Get(a.c.to(k)) }
func (a mapA[K]) Set(k int, v int)                 { a.m.Set(a.c.to(k), v) }
func (a mapA[K]) Delete(k int)                     { a.m.Delete(a.c.to(k)) }
func (a mapA[K]) Has(k int) bool                   { return a.m.Has(a.c.to(k)) }
func (a mapA[K]) SetIfNotExists(k int, v int) bool { return a.m.SetIfNotExists(a.c.to(k), v) }
func (a mapA[K]) SetIfNotExistsWithFunc(k int, f func() int) (int, bool) {
	return a.m.SetIfNotExistsWithFunc(a.c.to(k), f)
}
func (a mapA[K]) Size() int { return a.m.Size() }

// ---- MapMutex, MapRWMutex ----------------------------------------------------------------

type mutexA[K comparable] struct {
	l interface {
		Lock(K)
		Unlock(K)
	}
	c conv[K]
}

func (a mutexA[K]) Lock(k int)   { a.l.Lock(a.c.to(k)) }
func (a mutexA[K]) Unlock(k int) { a.l.Unlock(a.c.to(k)) }

func newMutex(r *R) keyLocks {
	k := drawKeys(r)
	switch k.kind {
	case kString:
		return mutexA[string]{collections.NewMapMutex[string](), k.strings()}
	case kStruct:
		return mutexA[hkey]{collections.NewMapMutex[hkey](), k.structs()}
	case kAny:
		return mutexA[any]{collections.NewMapMutex[any](), k.anys()}
	case kWide:
		return mutexA[int]{collections.NewMapMutex[int](), k.wide()}
	}
	return mutexA[int]{collections.NewMapMutex[int](), plainConv()}
}

type rwLocks interface {
	keyLocks
	RLock(int)
	RUnlock(int)
}

type rwA[K comparable] struct {
	l *collections.MapRWMutex[K]
	c conv[K]
}

func (a rwA[K]) Lock(k int)    { a.l.Lock(a.c.to(k)) }
func (a rwA[K]) Unlock(k int)  { a.l.Unlock(a.c.to(k)) }
func (a rwA[K]) RLock(k int)   { a.l.RLock(a.c.to(k)) }
func (a rwA[K]) RUnlock(k int) { a.l.RUnlock(a.c.to(k)) }

func newRWMutex(r *R) rwLocks {
	k := drawKeys(r)
	switch k.kind {
	case kString:
		return rwA[string]{collections.NewMapRWMutex[string](), k.strings()}
	case kStruct:
		return rwA[hkey]{collections.NewMapRWMutex[hkey](), k.structs()}
	case kAny:
		return rwA[any]{collections.NewMapRWMutex[any](), k.anys()}
	case kWide:
		return rwA[int]{collections.NewMapRWMutex[int](), k.wide()}
	}
	return rwA[int]{collections.NewMapRWMutex[int](), plainConv()}
}

// ---- TwoKeyMap ---------------------------------------------------------------------------

type twoI interface {
	Put(int, int, int)
	Get(int) (int, bool)
	GetByK2(int) (int, bool)
	Remove(int)
	RemoveByK2(int)
	Len() int
	Keys() []int
	KeysK2() []int
}

type twoA[K1, K2 comparable] struct {
	m  *collections.TwoKeyMap[K1, K2, int]
	c1 conv[K1]
	c2 conv[K2]
}

func newTwo(r *R) twoI {
	k := drawKeys(r)
	switch k.kind {
	case kString:
		return newTwoOf(r, k.strings())
	case kStruct:
		return newTwoOf(r, k.structs())
	case kAny:
		return newTwoOf(r, k.anys())
	case kWide:
		return newTwoOf(r, k.wide())
	}
	return newTwoOf(r, plainConv())
}

func newTwoOf[K1 comparable](r *R, c conv[K1]) twoI {
	k := drawKeys(r)
	switch k.kind {
	case kString:
		return twoA[K1, string]{collections.NewTwoKeyMap[K1, string, int](), c, k.strings()}
	case kStruct:
		return twoA[K1, hkey]{collections.NewTwoKeyMap[K1, hkey, int](), c, k.structs()}
	case kAny:
		return twoA[K1, any]{collections.NewTwoKeyMap[K1, any, int](), c, k.anys()}
	case kWide:
		return twoA[K1, int]{collections.NewTwoKeyMap[K1, int, int](), c, k.wide()}
	}
	return twoA[K1, int]{collections.NewTwoKeyMap[K1, int, int](), c, plainConv()}
}

func (a twoA[K1, K2]) Put(k1, k2, v int)         { a.m.Put(a.c1.to(k1), a.c2.to(k2), v) }
func (a twoA[K1, K2]) Get(k int) (int, bool)     { return a.m.Get(a.c1.to(k)) }
func (a twoA[K1, K2]) GetByK2(k int) (int, bool) { return a.m.GetByK2(a.c2.to(k)) }
func (a twoA[K1, K2]) Remove(k int)              { a.m.Remove(a.c1.to(k)) }
func (a twoA[K1, K2]) RemoveByK2(k int)          { a.m.RemoveByK2(a.c2.to(k)) }
func (a twoA[K1, K2]) Len() int                  { return a.m.Len() }
func (a twoA[K1, K2]) Keys() []int               { return unkeys(a.m.Keys(), a.c1) }
func (a twoA[K1, K2]) KeysK2() []int             { return unkeys(a.m.KeysK2(), a.c2) }
