From b11d12922d0c7dca01145fcbbfbcfe4622c4d096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:28 +0000
Subject: [PATCH 01/35] fix: ChunkChan stays blocked after its context is
 cancelled

run kept blocking on a full outgoing channel and Add on a full incoming one, so
the goroutines never ended.
---
 chans/chunk_chan.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/chans/chunk_chan.go b/chans/chunk_chan.go
index 689a321..d3dcc91 100644
--- a/chans/chunk_chan.go
+++ b/chans/chunk_chan.go
@@ -15,8 +15,12 @@ type ChunkChan[T any] struct {
 	outgoingChan chan []T
 }
 
+// Add blocks until the item is accepted or the context is done
 func (c *ChunkChan[T]) Add(item T) {
-	c.incomingChan <- item
+	select {
+	case <-c.ctx.Done():
+	case c.incomingChan <- item:
+	}
 }
 
 func (c *ChunkChan[T]) Incoming() chan T {
@@ -31,6 +35,15 @@ func (c *ChunkChan[T]) Sizes() (int, int) {
 	return len(c.incomingChan), len(c.outgoingChan)
 }
 
+func (c *ChunkChan[T]) send(chunk []T) bool {
+	select {
+	case <-c.ctx.Done():
+		return false
+	case c.outgoingChan <- chunk:
+		return true
+	}
+}
+
 func (c *ChunkChan[T]) run() {
 	t := time.NewTicker(c.chunkTimeout)
 	defer t.Stop()
@@ -41,13 +54,17 @@ func (c *ChunkChan[T]) run() {
 			return
 		case <-t.C:
 			if len(chunk) > 0 {
-				c.outgoingChan <- chunk
+				if !c.send(chunk) {
+					return
+				}
 				chunk = make([]T, 0, c.chunkSize)
 			}
 		case item := <-c.incomingChan:
 			chunk = append(chunk, item)
 			if len(chunk) >= c.chunkSize {
-				c.outgoingChan <- chunk
+				if !c.send(chunk) {
+					return
+				}
 				chunk = make([]T, 0, c.chunkSize)
 			}
 		}
-- 
2.43.0


From 3da448f523a3c58bb72bf36aedcab6fe211d50c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:28 +0000
Subject: [PATCH 02/35] fix: ShardChan dispatcher stays blocked on a full shard
 after its context is cancelled

---
 chans/shard_chan.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/chans/shard_chan.go b/chans/shard_chan.go
index a967941..e0586f2 100644
--- a/chans/shard_chan.go
+++ b/chans/shard_chan.go
@@ -132,7 +132,11 @@ func (b *ShardChanBuilder[T]) Build() (*ShardChan[T], error) {
 				return
 			case msg := <-res.incomingChan:
 				key := res.shardFunc(msg) % res.shardCount
-				res.outgoingChans[key] <- msg
+				select {
+				case <-res.ctx.Done():
+					return
+				case res.outgoingChans[key] <- msg:
+				}
 			}
 		}
 	}()
-- 
2.43.0


From 88256c53522976f79f2032c9a592c51685cddf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:28 +0000
Subject: [PATCH 03/35] fix: a negative shard key stops ShardChan for ever

The remainder of a negative key is negative, no such channel exists, and the
dispatcher blocked on sending to nil.
---
 chans/shard_chan.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chans/shard_chan.go b/chans/shard_chan.go
index e0586f2..967afe2 100644
--- a/chans/shard_chan.go
+++ b/chans/shard_chan.go
@@ -132,6 +132,9 @@ func (b *ShardChanBuilder[T]) Build() (*ShardChan[T], error) {
 				return
 			case msg := <-res.incomingChan:
 				key := res.shardFunc(msg) % res.shardCount
+				if key < 0 {
+					key += res.shardCount
+				}
 				select {
 				case <-res.ctx.Done():
 					return
-- 
2.43.0


From 871288ea68d88e5f03de9e657bf3378cf64642b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:28 +0000
Subject: [PATCH 04/35] fix: Runner.Run and RunWithContext block for ever on a
 full buffer after cancellation

---
 workers/runner.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/workers/runner.go b/workers/runner.go
index 4b20cc0..5ab7731 100644
--- a/workers/runner.go
+++ b/workers/runner.go
@@ -20,11 +20,17 @@ type Runner struct {
 }
 
 func (r *Runner) Run(fn RunnerFn) {
-	r.runners <- fn
+	select {
+	case <-r.ctx.Done():
+	case r.runners <- fn:
+	}
 }
 
 func (r *Runner) RunWithContext(fn RunnerContextFn) {
-	r.runnersCtx <- fn
+	select {
+	case <-r.ctx.Done():
+	case r.runnersCtx <- fn:
+	}
 }
 
 type RunnerBuilder struct {
-- 
2.43.0


From 34bd30fce6410909ef57d0eafc746a58d8bc7793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:28 +0000
Subject: [PATCH 05/35] fix: ShardChunk has no Add, so without WithIncomingChan
 nothing can be put in

The README documents it.
---
 chans/shard_chunk_chan.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/chans/shard_chunk_chan.go b/chans/shard_chunk_chan.go
index 95f2f53..b2b72bc 100644
--- a/chans/shard_chunk_chan.go
+++ b/chans/shard_chunk_chan.go
@@ -24,6 +24,10 @@ func (s *ShardChunk[T]) ShardCount() int {
 	return s.sharder.ShardCount()
 }
 
+func (s *ShardChunk[T]) Add(item T) error {
+	return s.sharder.Add(item)
+}
+
 func (s *ShardChunk[T]) C(key int) chan []T {
 	if key < 0 || key >= s.sharder.ShardCount() {
 		return nil
-- 
2.43.0


From 320f14c325a21768f2326d2c79e3c0ed5c9aea43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:58 +0000
Subject: [PATCH 06/35] fix: HashSet.Add of a present key breaks eviction

The key was queued for eviction a second time: the set then evicted keys that
were not the oldest, or none at all and grew over its maximum.
---
 collections/hash_set.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collections/hash_set.go b/collections/hash_set.go
index c8377c6..9ce29fd 100644
--- a/collections/hash_set.go
+++ b/collections/hash_set.go
@@ -27,6 +27,9 @@ func (s *HashSet[K]) Add(key K) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
+	if _, ok := s.m[key]; ok {
+		return
+	}
 	s.m[key] = true
 	s.ml = append(s.ml, key)
 	if s.maxCount > 0 && len(s.m) > s.maxCount {
-- 
2.43.0


From ca3775f1da11d2a5d872900f95f2dcc84bb5b8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:58 +0000
Subject: [PATCH 07/35] fix: TwoKeyMap keys fall out of step

Put left the previous pairs of its keys behind, so a second key could lead to
another entry's value; removing an unknown key removed the entry of the zero key.
---
 collections/two_key_map.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/collections/two_key_map.go b/collections/two_key_map.go
index 1b73024..90cef46 100644
--- a/collections/two_key_map.go
+++ b/collections/two_key_map.go
@@ -28,6 +28,13 @@ func NewTwoKeyMap[K1, K2 comparable, V any]() *TwoKeyMap[K1, K2, V] {
 func (m *TwoKeyMap[K1, K2, V]) Put(k1 K1, k2 K2, v V) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
+	if old, ok := m.k1Tok2[k1]; ok {
+		delete(m.k2Tok1, old)
+	}
+	if old, ok := m.k2Tok1[k2]; ok {
+		delete(m.data, old)
+		delete(m.k1Tok2, old)
+	}
 	m.data[k1] = v
 	m.k1Tok2[k1] = k2
 	m.k2Tok1[k2] = k1
@@ -55,16 +62,24 @@ func (m *TwoKeyMap[K1, K2, V]) GetByK2(k2 K2) (v V, ok bool) {
 func (m *TwoKeyMap[K1, K2, V]) Remove(k1 K1) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
+	k2, ok := m.k1Tok2[k1]
+	if !ok {
+		return
+	}
 	delete(m.data, k1)
-	delete(m.k2Tok1, m.k1Tok2[k1])
+	delete(m.k2Tok1, k2)
 	delete(m.k1Tok2, k1)
 }
 
 func (m *TwoKeyMap[K1, K2, V]) RemoveByK2(k2 K2) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
-	delete(m.data, m.k2Tok1[k2])
-	delete(m.k1Tok2, m.k2Tok1[k2])
+	k1, ok := m.k2Tok1[k2]
+	if !ok {
+		return
+	}
+	delete(m.data, k1)
+	delete(m.k1Tok2, k1)
 	delete(m.k2Tok1, k2)
 }
 
-- 
2.43.0


From 3b2f4815255c6276bf79e63b05b901f6168e2aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:26 +0000
Subject: [PATCH 08/35] fix: RequestMap drops fresh results once all its
 results expired together

The list of results was not cut when every one of them had expired; the next
pass deleted their keys again, whatever was cached under them by then.
---
 collections/request_map.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/collections/request_map.go b/collections/request_map.go
index e882ea6..9e9768a 100644
--- a/collections/request_map.go
+++ b/collections/request_map.go
@@ -71,6 +71,7 @@ func (rm *RequestMap[K, V]) rmWorker() {
 			}
 			delete(rm.response, r.key)
 		}
+		rm.resultSlice = nil
 	}
 
 	for {
-- 
2.43.0


From 1017225f2e293dc70dd5fc23d1ad876fe56b0156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:26 +0000
Subject: [PATCH 09/35] fix: results a RequestMap starts with never expire

---
 collections/request_map.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/collections/request_map.go b/collections/request_map.go
index 9e9768a..65ffdb6 100644
--- a/collections/request_map.go
+++ b/collections/request_map.go
@@ -41,7 +41,11 @@ func NewRequestMap[K comparable, V any](ctx context.Context, ttl time.Duration,
 	}
 	if len(init) > 0 {
 		for _, i := range init {
-			res.response[i.Key] = resultHolder[K, V]{key: i.Key, result: i.Result, err: i.Err, resultTime: time.Now()}
+			r := resultHolder[K, V]{key: i.Key, result: i.Result, err: i.Err, resultTime: time.Now()}
+			if _, ok := res.response[i.Key]; !ok {
+				res.resultSlice = append(res.resultSlice, r)
+			}
+			res.response[i.Key] = r
 		}
 	}
 	go res.rmWorker()
-- 
2.43.0


From f44ffa1a4cf3a8121b1fa037aa71203b0b20f54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:26 +0000
Subject: [PATCH 10/35] fix: WaitMap request timeout hits the wrong waiters

The timeout of waiters that had been served still fired: it ended later waits
for the key too early, or stored a zero value nobody had asked for.
---
 collections/wait_map.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/collections/wait_map.go b/collections/wait_map.go
index aaaf10f..5d76383 100644
--- a/collections/wait_map.go
+++ b/collections/wait_map.go
@@ -64,8 +64,13 @@ func (wm *WaitMap[K, V]) Wait(key K) V {
 				}
 				wm.mu.Unlock()
 			case <-time.After(wm.requestTimeout): // TIMEOUT
-				var v V
-				wm.Set(key, v)
+				wm.mu.Lock()
+				// Those who waited with ch may be long served, and others wait by now
+				if chans := wm.waiterChannels[key]; len(chans) > 0 && chans[0] == ch {
+					var v V
+					wm.set(key, v)
+				}
+				wm.mu.Unlock()
 			}
 		}()
 	}
@@ -79,7 +84,11 @@ func (wm *WaitMap[K, V]) Wait(key K) V {
 func (wm *WaitMap[K, V]) Set(key K, value V) {
 	wm.mu.Lock()
 	defer wm.mu.Unlock()
+	wm.set(key, value)
+}
 
+// set must be called with the lock held
+func (wm *WaitMap[K, V]) set(key K, value V) {
 	if _, ok := wm.dataHolder[key]; ok {
 		return
 	}
-- 
2.43.0


From 5a2113a10cb3062119a29403769fd74ab780f714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:33 +0000
Subject: [PATCH 11/35] fix: ResponseMap loses waiters, overwrites its answer,
 panics and deadlocks

The goroutine of a key shared its listeners, its data channel and its data with
Set and Wait without a common lock: a second Set replaced the value or blocked
the goroutine for ever with the lock held, Set after the cleaning panicked on a
closed channel, waiters were lost on a timeout or hung after one, and nothing
ended the goroutine after the map's context was cancelled. A key now has a value
under a lock and one channel that is closed when it is there; every waiter has
its own timeout.
---
 collections/response_map.go | 96 +++++++++++++------------------------
 1 file changed, 33 insertions(+), 63 deletions(-)

diff --git a/collections/response_map.go b/collections/response_map.go
index ccf1803..782f38a 100644
--- a/collections/response_map.go
+++ b/collections/response_map.go
@@ -66,86 +66,56 @@ type ResponseMap[K comparable, V any] struct {
 }
 
 type chansHolder[K comparable, V any] struct {
-	ctx       context.Context
-	cancelCtx context.CancelFunc
 	trx       K
-	t         *time.Timer
+	timeout   time.Duration
 	createdAt time.Time
 	mu        sync.RWMutex
 	isExist   bool
+	closed    bool
 	data      V
-	dataCh    chan V
-	listeners []chan V
+	doneCh    chan struct{} // closed when data has come or the holder is cancelled
 }
 
 func newChansHolder[K comparable, V any](trx K, timeout time.Duration) *chansHolder[K, V] {
-	ctx, cancel := context.WithCancel(context.Background())
-	h := &chansHolder[K, V]{
-		ctx:       ctx,
-		cancelCtx: cancel,
+	return &chansHolder[K, V]{
 		trx:       trx,
-		t:         time.NewTimer(timeout),
+		timeout:   timeout,
 		createdAt: time.Now(),
-		dataCh:    make(chan V, 1),
+		doneCh:    make(chan struct{}),
 	}
-	go func() {
-		defer h.t.Stop()
-		for {
-			select {
-			case <-h.ctx.Done():
-				close(h.dataCh)
-				for _, ch := range h.listeners {
-					close(ch)
-				}
-				return
-			case <-h.t.C:
-				for _, ch := range h.listeners {
-					close(ch)
-				}
-				h.mu.Lock()
-				h.listeners = nil
-				h.mu.Unlock()
-			case d := <-h.dataCh:
-				h.mu.Lock()
-				h.data = d
-				h.isExist = true
-				for _, ch := range h.listeners {
-					ch <- d
-				}
-				h.mu.Unlock()
-			}
-		}
-	}()
-	return h
 }
 
 func (h *chansHolder[K, V]) set(data V) {
-	h.mu.RLock()
-	exist := h.isExist
-	h.mu.RUnlock()
-	if exist {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	if h.isExist || h.closed {
 		return
 	}
-	h.dataCh <- data
+	h.data = data
+	h.isExist = true
+	close(h.doneCh)
 }
 
-func (h *chansHolder[K, V]) wait() V {
-	h.mu.RLock()
-	e := h.isExist
-	h.mu.RUnlock()
-	if e {
-		return h.data
-	}
+func (h *chansHolder[K, V]) cancel() {
 	h.mu.Lock()
-	e = h.isExist
-	if e {
-		h.mu.Unlock()
-		return h.data
+	defer h.mu.Unlock()
+	if h.isExist || h.closed {
+		return
 	}
-	ch := make(chan V, 1)
-	h.listeners = append(h.listeners, ch)
-	h.mu.Unlock()
-	return <-ch
+	h.closed = true
+	close(h.doneCh)
+}
+
+func (h *chansHolder[K, V]) wait() V {
+	t := time.NewTimer(h.timeout)
+	defer t.Stop()
+	select {
+	case <-h.doneCh:
+	case <-t.C:
+	}
+	h.mu.RLock()
+	defer h.mu.RUnlock()
+	return h.data
 }
 
 func (r *ResponseMap[K, V]) Set(key K, value V) {
@@ -184,9 +154,9 @@ func (r *ResponseMap[K, V]) clear(ctx context.Context) {
 		case <-ctx.Done():
 			return
 		case <-t.C:
-			r.logger.Debug().Int("holders count", len(r.m)).Msg("start cleaning response map")
 			var remove []*chansHolder[K, V]
 			r.mu.RLock()
+			r.logger.Debug().Int("holders count", len(r.m)).Msg("start cleaning response map")
 			for _, holder := range r.m {
 				if time.Now().After(holder.createdAt.Add(r.clearTimeout)) {
 					remove = append(remove, holder)
@@ -196,11 +166,11 @@ func (r *ResponseMap[K, V]) clear(ctx context.Context) {
 			r.logger.Debug().Int("should remove", len(remove)).Msg("collect expired holders")
 			r.mu.Lock()
 			for _, holder := range remove {
-				holder.cancelCtx()
+				holder.cancel()
 				delete(r.m, holder.trx)
 			}
-			r.mu.Unlock()
 			r.logger.Debug().Int("holders count", len(r.m)).Msg("successfully cleaned expired holders")
+			r.mu.Unlock()
 		}
 	}
 }
-- 
2.43.0


From cfe4e8fd11149f842ffa363b7244f8b93c0349d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:14 +0000
Subject: [PATCH 12/35] fix: HolderMap loses waiters, hangs them after
 cancellation, and blocks a second Release

The outcome of a key was read and written without a common lock: a Wait that
came during the release was never answered, waiters hung once the context was
cancelled, and Release or Error of an already released key blocked for ever.
The outcome is now set under the key's lock by whoever comes first.
---
 collections/holder_map.go | 85 +++++++++++++++++++++------------------
 1 file changed, 46 insertions(+), 39 deletions(-)

diff --git a/collections/holder_map.go b/collections/holder_map.go
index e0b1935..700cf61 100644
--- a/collections/holder_map.go
+++ b/collections/holder_map.go
@@ -10,12 +10,41 @@ import (
 type holderMapHolder[V any] struct {
 	Object          V
 	Err             error
-	inChan          chan error
 	released        bool
+	releasedChan    chan struct{}
 	releaseChanList []chan error
 	timeOutTimer    *time.Timer
 	mu              sync.Mutex
 }
+
+// release ends the wait of everyone waiting, and of everyone still to come; the first call counts
+func (h *holderMapHolder[V]) release(err error) {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	if h.released {
+		return
+	}
+	h.released = true
+	h.Err = err
+	for _, ch := range h.releaseChanList {
+		ch <- err
+	}
+	h.releaseChanList = nil
+	close(h.releasedChan)
+}
+
+func (h *holderMapHolder[V]) wait() error {
+	h.mu.Lock()
+	if h.released {
+		defer h.mu.Unlock()
+		return h.Err
+	}
+	waitChan := make(chan error, 1)
+	h.releaseChanList = append(h.releaseChanList, waitChan)
+	h.mu.Unlock()
+	return <-waitChan
+}
+
 type HolderMap[K comparable, V any] struct {
 	mu                     sync.RWMutex
 	m                      map[K]*holderMapHolder[V]
@@ -29,6 +58,8 @@ func (c *HolderMap[K, V]) Get(trx K) (V, error) {
 	h, ok := c.m[trx]
 	c.mu.RUnlock()
 	if ok {
+		h.mu.Lock()
+		defer h.mu.Unlock()
 		return h.Object, h.Err
 	}
 	var defaultV V
@@ -46,34 +77,18 @@ func (c *HolderMap[K, V]) Wait(trx K, target V) error {
 	h, ok := c.m[trx]
 	c.mu.RUnlock()
 	if ok { // Has holder
-		if h.released {
-			return h.Err
-		} else {
-			waitChan := make(chan error, 1)
-			h.mu.Lock()
-			h.releaseChanList = append(h.releaseChanList, waitChan)
-			h.mu.Unlock()
-			return <-waitChan
-		}
+		return h.wait()
 	} else {
 		c.mu.Lock()
 		h, ok = c.m[trx]
 		if ok {
 			c.mu.Unlock()
-			if h.released {
-				return h.Err
-			} else {
-				waitChan := make(chan error, 1)
-				h.mu.Lock()
-				h.releaseChanList = append(h.releaseChanList, waitChan)
-				h.mu.Unlock()
-				return <-waitChan
-			}
+			return h.wait()
 		} else {
 			waitChan := make(chan error, 1)
 			h = &holderMapHolder[V]{
 				Object:          target,
-				inChan:          make(chan error, 1),
+				releasedChan:    make(chan struct{}),
 				releaseChanList: []chan error{waitChan},
 				timeOutTimer:    time.NewTimer(c.timeoutDuration),
 			}
@@ -81,26 +96,18 @@ func (c *HolderMap[K, V]) Wait(trx K, target V) error {
 				defer h.timeOutTimer.Stop()
 				select {
 				case <-h.timeOutTimer.C:
-					h.mu.Lock()
-					h.released = true
-					h.Err = errors.New("timeout")
+					h.release(errors.New("timeout"))
 				case <-c.ctx.Done():
-					return
-				case errInChan := <-h.inChan:
-					h.mu.Lock()
-					h.released = true
-					h.Err = errInChan
+					h.release(c.ctx.Err())
+				case <-h.releasedChan:
 				}
-				for _, ch := range h.releaseChanList {
-					ch <- h.Err
+				select {
+				case <-c.ctx.Done():
+				case <-time.After(c.destroyElementDuration):
 				}
-				h.mu.Unlock()
-				go func() {
-					time.Sleep(c.destroyElementDuration)
-					c.mu.Lock()
-					delete(c.m, trx)
-					c.mu.Unlock()
-				}()
+				c.mu.Lock()
+				delete(c.m, trx)
+				c.mu.Unlock()
 			}()
 			c.m[trx] = h
 			c.mu.Unlock()
@@ -128,7 +135,7 @@ func (c *HolderMap[K, V]) Release(trx K) error {
 	h, ok := c.m[trx]
 	c.mu.RUnlock()
 	if ok {
-		h.inChan <- nil
+		h.release(nil)
 		return nil
 	} else {
 		return errors.New("not found")
@@ -140,7 +147,7 @@ func (c *HolderMap[K, V]) Error(trx K, err error) error {
 	h, ok := c.m[trx]
 	c.mu.RUnlock()
 	if ok {
-		h.inChan <- err
+		h.release(err)
 		return nil
 	} else {
 		return errors.New("not found")
-- 
2.43.0


From 97747aada29bff0c2cbe9391ef1ae532a535da15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:08 +0000
Subject: [PATCH 13/35] fix: GuavaMap.Delete of an absent key panics when there
 is an unload function

It can also happen on its own: a key deleted just before its timeout is dealt with.
---
 collections/guava_map.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index 4f2257e..44cde8e 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -117,6 +117,9 @@ func (m *GuavaMap[K, V]) HasOrCreate(key K, value V) bool {
 }
 
 func (m *GuavaMap[K, V]) safeDelete(key K) {
+	if _, ok := m.stored[key]; !ok {
+		return
+	}
 	if m.unloadFunc != nil {
 		v := m.stored[key].v
 		go m.unloadFunc(key, v)
-- 
2.43.0


From 3c317773c9f45f5b14b67b994aa8279fdc1d9f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:08 +0000
Subject: [PATCH 14/35] fix: the timeout of a removed GuavaMap entry deletes
 its successor

Clear without an unload function left the timers running, and a timer that had
fired deleted whatever was stored under the key by the time it got the lock.
---
 collections/guava_map.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index 44cde8e..4948a88 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -74,9 +74,10 @@ func (m *GuavaMap[K, V]) createHolder(key K, value V) *guavaHolder[V] {
 				return
 			case <-res.timer.C:
 				m.mu.Lock()
-				m.safeDelete(key)
+				if m.stored[key] == res {
+					m.safeDelete(key)
+				}
 				m.mu.Unlock()
-
 			}
 		}()
 	}
@@ -194,12 +195,12 @@ func (m *GuavaMap[K, V]) Delete(key K) {
 func (m *GuavaMap[K, V]) Clear() {
 	m.mu.Lock()
 	defer m.mu.Unlock()
-	if m.unloadFunc != nil {
-		for k, v := range m.stored {
+	for k, v := range m.stored {
+		if m.unloadFunc != nil {
 			go m.unloadFunc(k, v.v)
-			if v.cancelFn != nil {
-				v.cancelFn()
-			}
+		}
+		if v.cancelFn != nil {
+			v.cancelFn()
 		}
 	}
 	m.stored = make(map[K]*guavaHolder[V])
-- 
2.43.0


From d9432a0edade683378acc6b8e2c4dc8976a054cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:08 +0000
Subject: [PATCH 15/35] fix: GuavaMap drops an entry that was just used

An access between the timer's firing and the removal did not count. Get also
read the value outside the lock under which Set writes it.
---
 collections/guava_map.go | 66 +++++++++++++++++++++++++++++-----------
 1 file changed, 48 insertions(+), 18 deletions(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index 4948a88..34e7969 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -24,10 +24,30 @@ type timeoutHolder[K comparable] struct {
 
 type guavaHolder[V any] struct {
 	timer    *time.Timer
+	deadline time.Time
+	mu       sync.Mutex // timer and deadline
 	cancelFn context.CancelFunc
 	v        V
 }
 
+func (h *guavaHolder[V]) touch(d time.Duration) {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	h.deadline = time.Now().Add(d)
+	h.timer.Reset(d)
+}
+
+// expired rearms the timer when the entry was used after it had fired
+func (h *guavaHolder[V]) expired() bool {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	if left := time.Until(h.deadline); left > 0 {
+		h.timer.Reset(left)
+		return false
+	}
+	return true
+}
+
 type GuavaMap[K comparable, V any] struct {
 	stored             map[K]*guavaHolder[V]
 	storedSlice        []K
@@ -62,22 +82,31 @@ func (m *GuavaMap[K, V]) createHolder(key K, value V) *guavaHolder[V] {
 	if m.readTimeout > 0 || m.writeTimeout > 0 {
 		ctx, cancelFn := context.WithCancel(m.ctx)
 		res.cancelFn = cancelFn
+		timeout := m.readTimeout
 		if m.writeTimeout > 0 {
-			res.timer = time.NewTimer(m.writeTimeout)
-		} else {
-			res.timer = time.NewTimer(m.readTimeout)
+			timeout = m.writeTimeout
 		}
+		res.timer = time.NewTimer(timeout)
+		res.deadline = time.Now().Add(timeout)
 		go func() {
 			defer res.timer.Stop()
-			select {
-			case <-ctx.Done():
-				return
-			case <-res.timer.C:
-				m.mu.Lock()
-				if m.stored[key] == res {
-					m.safeDelete(key)
+			for {
+				select {
+				case <-ctx.Done():
+					return
+				case <-res.timer.C:
+					m.mu.Lock()
+					if m.stored[key] != res {
+						m.mu.Unlock()
+						return
+					}
+					if res.expired() {
+						m.safeDelete(key)
+						m.mu.Unlock()
+						return
+					}
+					m.mu.Unlock()
 				}
-				m.mu.Unlock()
 			}
 		}()
 	}
@@ -90,7 +119,7 @@ func (m *GuavaMap[K, V]) Has(key K) bool {
 	v, ok := m.stored[key]
 	if ok {
 		if v.timer != nil && m.readTimeout > 0 {
-			v.timer.Reset(m.readTimeout)
+			v.touch(m.readTimeout)
 		}
 	}
 	return ok
@@ -111,7 +140,7 @@ func (m *GuavaMap[K, V]) HasOrCreate(key K, value V) bool {
 		m.storedSlice = append(m.storedSlice, key)
 	} else {
 		if m.stored[key].timer != nil && m.readTimeout > 0 {
-			m.stored[key].timer.Reset(m.readTimeout)
+			m.stored[key].touch(m.readTimeout)
 		}
 	}
 	return ok
@@ -223,13 +252,14 @@ func (m *GuavaMap[K, V]) Size() int {
 func (m *GuavaMap[K, V]) Get(key K) (V, error) {
 	m.mu.RLock()
 	val, ok := m.stored[key]
-	m.mu.RUnlock()
 	if ok {
+		defer m.mu.RUnlock()
 		if val.timer != nil && m.readTimeout > 0 {
-			val.timer.Reset(m.readTimeout)
+			val.touch(m.readTimeout)
 		}
 		return val.v, nil
 	}
+	m.mu.RUnlock()
 	if m.loadFunc == nil {
 		var v V
 		return v, nil
@@ -256,7 +286,7 @@ func (m *GuavaMap[K, V]) Get(key K) (V, error) {
 	val, ok = m.stored[key]
 	if ok {
 		if val.timer != nil && m.readTimeout > 0 {
-			val.timer.Reset(m.readTimeout)
+			val.touch(m.readTimeout)
 		}
 		return val.v, nil
 	}
@@ -296,9 +326,9 @@ func (m *GuavaMap[K, V]) Set(key K, val V) {
 	} else {
 		if v.timer != nil {
 			if m.writeTimeout > 0 {
-				v.timer.Reset(m.writeTimeout)
+				v.touch(m.writeTimeout)
 			} else {
-				v.timer.Reset(m.readTimeout)
+				v.touch(m.readTimeout)
 			}
 		}
 		v.v = val
-- 
2.43.0


From ed62e4ca8721a3c8e9b872b05a91e99bd4e0583a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:09 +0000
Subject: [PATCH 16/35] fix: GuavaMap.GetStored reads the size outside the lock

---
 collections/guava_map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index 34e7969..4c32b16 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -301,8 +301,8 @@ func (m *GuavaMap[K, V]) Get(key K) (V, error) {
 }
 
 func (m *GuavaMap[K, V]) GetStored() map[K]V {
-	resStored := make(map[K]V, len(m.stored))
 	m.mu.RLock()
+	resStored := make(map[K]V, len(m.stored))
 	for k, v := range m.stored {
 		resStored[k] = v.v
 	}
-- 
2.43.0


From da93653db0ec350ad4392a7e2015a3715775e113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:09 +0000
Subject: [PATCH 17/35] fix: GuavaMap with LockLoad loads twice, or stores a
 zero value nobody loaded

The key's lock was released before the value was stored, and a value that was
there under the lock but gone afterwards was replaced by the zero value.
---
 collections/guava_map.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index 4c32b16..2ec7bd1 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -269,14 +269,19 @@ func (m *GuavaMap[K, V]) Get(key K) (V, error) {
 
 	if m.lockLoad != nil {
 		m.lockLoad.Lock(key)
-		if !m.Has(key) {
-			loadedVal, err = m.loadFunc(key)
+		defer m.lockLoad.Unlock(key)
+		m.mu.RLock()
+		val, ok = m.stored[key]
+		if ok {
+			defer m.mu.RUnlock()
+			if val.timer != nil && m.readTimeout > 0 {
+				val.touch(m.readTimeout)
+			}
+			return val.v, nil
 		}
-		m.lockLoad.Unlock(key)
-	} else {
-		loadedVal, err = m.loadFunc(key)
+		m.mu.RUnlock()
 	}
-
+	loadedVal, err = m.loadFunc(key)
 	if err != nil {
 		var v V
 		return v, err
-- 
2.43.0


From f6ca715637114e2449dad311b74f17d38a2bda90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:09 +0000
Subject: [PATCH 18/35] fix: GuavaMap.HasOrCreate remembers every key for ever
 when there is no maximum

---
 collections/guava_map.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index 2ec7bd1..741e7f4 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -137,7 +137,9 @@ func (m *GuavaMap[K, V]) HasOrCreate(key K, value V) bool {
 				m.safeDelete(m.storedSlice[0])
 			}
 		}
-		m.storedSlice = append(m.storedSlice, key)
+		if m.maxCount > 0 {
+			m.storedSlice = append(m.storedSlice, key)
+		}
 	} else {
 		if m.stored[key].timer != nil && m.readTimeout > 0 {
 			m.stored[key].touch(m.readTimeout)
-- 
2.43.0


From 9479e691f613d798a90b8b5707c2d4110295b0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:09 +0000
Subject: [PATCH 19/35] fix: GuavaMap.LockForUpdate lets two updates of a key
 run at once

Deleting the key, its eviction, its timeout and Clear threw away the lock while
it was held. The map of locks was also read without its own lock.
---
 collections/guava_map.go | 73 +++++++++++++++-------------------------
 1 file changed, 28 insertions(+), 45 deletions(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index 741e7f4..f943b3a 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -51,8 +51,8 @@ func (h *guavaHolder[V]) expired() bool {
 type GuavaMap[K comparable, V any] struct {
 	stored             map[K]*guavaHolder[V]
 	storedSlice        []K
-	updateLockMap      map[K]*sync.Mutex
-	updateLockMapMu    sync.RWMutex
+	updateLockMap      map[K]*guavaUpdateLock
+	updateLockMapMu    sync.Mutex
 	mu                 sync.RWMutex
 	maxCount           int
 	loadFunc           GuavaLoadFunc[K, V]
@@ -64,17 +64,38 @@ type GuavaMap[K comparable, V any] struct {
 	ctx                context.Context
 }
 
-func (m *GuavaMap[K, V]) getKeyLock(key K) *sync.Mutex {
+type guavaUpdateLock struct {
+	mu    sync.Mutex
+	count int
+}
+
+func (m *GuavaMap[K, V]) lockKey(key K) *guavaUpdateLock {
 	m.updateLockMapMu.Lock()
-	defer m.updateLockMapMu.Unlock()
+	if m.updateLockMap == nil {
+		m.updateLockMap = make(map[K]*guavaUpdateLock)
+	}
 	lock, ok := m.updateLockMap[key]
 	if !ok {
-		lock = &sync.Mutex{}
+		lock = &guavaUpdateLock{}
 		m.updateLockMap[key] = lock
 	}
+	lock.count++
+	m.updateLockMapMu.Unlock()
+	lock.mu.Lock()
 	return lock
 }
 
+// unlockKey forgets the lock when nobody holds it or waits for it
+func (m *GuavaMap[K, V]) unlockKey(key K, lock *guavaUpdateLock) {
+	lock.mu.Unlock()
+	m.updateLockMapMu.Lock()
+	defer m.updateLockMapMu.Unlock()
+	lock.count--
+	if lock.count == 0 {
+		delete(m.updateLockMap, key)
+	}
+}
+
 func (m *GuavaMap[K, V]) createHolder(key K, value V) *guavaHolder[V] {
 	res := &guavaHolder[V]{
 		v: value,
@@ -164,9 +185,6 @@ func (m *GuavaMap[K, V]) safeDelete(key K) {
 	}
 
 	delete(m.stored, key)
-	//m.updateLockMapMu.Lock()
-	//delete(m.updateLockMap, key)
-	//m.updateLockMapMu.Unlock()
 	if m.maxCount > 0 {
 		for i, k := range m.storedSlice {
 			if k == key {
@@ -175,41 +193,11 @@ func (m *GuavaMap[K, V]) safeDelete(key K) {
 			}
 		}
 	}
-
-	if m.updateLockMap != nil {
-		m.updateLockMapMu.RLock()
-		_, ok := m.updateLockMap[key]
-		m.updateLockMapMu.RUnlock()
-		if ok {
-			m.updateLockMapMu.Lock()
-			delete(m.updateLockMap, key)
-			m.updateLockMapMu.Unlock()
-		}
-	}
 }
 
 func (m *GuavaMap[K, V]) LockForUpdate(key K, update func() V) V {
-	if m.updateLockMap == nil {
-		m.updateLockMapMu.Lock()
-		if m.updateLockMap == nil {
-			m.updateLockMap = make(map[K]*sync.Mutex)
-		}
-		m.updateLockMapMu.Unlock()
-	}
-	m.updateLockMapMu.RLock()
-	lock, ok := m.updateLockMap[key]
-	m.updateLockMapMu.RUnlock()
-	if !ok {
-		m.updateLockMapMu.Lock()
-		lock, ok = m.updateLockMap[key]
-		if !ok {
-			lock = &sync.Mutex{}
-			m.updateLockMap[key] = lock
-		}
-		m.updateLockMapMu.Unlock()
-	}
-	lock.Lock()
-	defer lock.Unlock()
+	lock := m.lockKey(key)
+	defer m.unlockKey(key, lock)
 	res := update()
 	m.mu.Lock()
 	defer m.mu.Unlock()
@@ -238,11 +226,6 @@ func (m *GuavaMap[K, V]) Clear() {
 	if m.maxCount > 0 {
 		m.storedSlice = make([]K, 0, m.maxCount)
 	}
-	if m.updateLockMap != nil {
-		m.updateLockMapMu.Lock()
-		defer m.updateLockMapMu.Unlock()
-		m.updateLockMap = make(map[K]*sync.Mutex)
-	}
 }
 
 func (m *GuavaMap[K, V]) Size() int {
-- 
2.43.0


From 711695b8b862d984a0cd6f23ef826052e5f23c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:09 +0000
Subject: [PATCH 20/35] fix: GuavaMap.LockForUpdate ignores the maximum and
 leaves old timers behind

It replaced the entry behind the back of the eviction order: keys stored by it
were never evicted, and the timer of the entry it replaced went on.
---
 collections/guava_map.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index f943b3a..36ef5a6 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -199,9 +199,7 @@ func (m *GuavaMap[K, V]) LockForUpdate(key K, update func() V) V {
 	lock := m.lockKey(key)
 	defer m.unlockKey(key, lock)
 	res := update()
-	m.mu.Lock()
-	defer m.mu.Unlock()
-	m.stored[key] = m.createHolder(key, res)
+	m.Set(key, res)
 	return res
 }
 
-- 
2.43.0


From e8c942a1cc08187b10561aa97c68e2caec2bb1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:09 +0000
Subject: [PATCH 21/35] fix: an empty StructUniqSet crashes the program at its
 first check

---
 collections/struct_uniq_set.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/collections/struct_uniq_set.go b/collections/struct_uniq_set.go
index 2ce3ff9..4041047 100644
--- a/collections/struct_uniq_set.go
+++ b/collections/struct_uniq_set.go
@@ -77,6 +77,10 @@ func (b *StructUniqSetBuilder[V]) Build() *StructUniqSet[V] {
 				return
 			case <-time.After(res.checkInterval):
 				res.elementsMu.RLock()
+				if len(res.ttlElements) == 0 {
+					res.elementsMu.RUnlock()
+					continue
+				}
 				first := res.ttlElements[0]
 				res.elementsMu.RUnlock()
 				if time.Since(first.createdAt) < res.ttl {
-- 
2.43.0


From 374e53414f8ae0b95444ae6edd4b05a45ebd1f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:09 +0000
Subject: [PATCH 22/35] fix: StructUniqSet expires elements that were added
 again before their time

The list of elements was not cut when all had expired, and an element that was
removed and added again went with its predecessor.
---
 collections/struct_uniq_set.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/collections/struct_uniq_set.go b/collections/struct_uniq_set.go
index 4041047..705e0bf 100644
--- a/collections/struct_uniq_set.go
+++ b/collections/struct_uniq_set.go
@@ -87,13 +87,17 @@ func (b *StructUniqSetBuilder[V]) Build() *StructUniqSet[V] {
 					continue
 				}
 				res.elementsMu.Lock()
-				for i, el := range res.ttlElements {
+				expired := 0
+				for _, el := range res.ttlElements {
 					if time.Since(el.createdAt) < res.ttl {
-						res.ttlElements = res.ttlElements[i:]
 						break
 					}
-					delete(res.elements, el.hash)
+					if res.elements[el.hash] == el {
+						delete(res.elements, el.hash)
+					}
+					expired++
 				}
+				res.ttlElements = res.ttlElements[expired:]
 				res.elementsMu.Unlock()
 			}
 		}
-- 
2.43.0


From 38d46f08b179a3a6a983c5f3af65169414b538c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:09 +0000
Subject: [PATCH 23/35] fix: StructUniqSet ignores WithBuildFunc

---
 collections/struct_uniq_set.go | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/collections/struct_uniq_set.go b/collections/struct_uniq_set.go
index 705e0bf..1e09a51 100644
--- a/collections/struct_uniq_set.go
+++ b/collections/struct_uniq_set.go
@@ -105,17 +105,6 @@ func (b *StructUniqSetBuilder[V]) Build() *StructUniqSet[V] {
 	return res
 }
 
-func (s *StructUniqSet[V]) getHashCode(v V) ([16]byte, error) {
-	var buffer bytes.Buffer
-	enc := gob.NewEncoder(&buffer)
-	err := enc.Encode(v)
-	if err != nil {
-		return [16]byte{}, err
-	}
-	md5.Sum(buffer.Bytes())
-	return md5.Sum(buffer.Bytes()), nil
-}
-
 func (s *StructUniqSet[V]) Count() int {
 	s.elementsMu.RLock()
 	defer s.elementsMu.RUnlock()
@@ -123,7 +112,7 @@ func (s *StructUniqSet[V]) Count() int {
 }
 
 func (s *StructUniqSet[V]) Has(v V) (bool, error) {
-	hash, err := s.getHashCode(v)
+	hash, err := s.build(v)
 	if err != nil {
 		return false, err
 	}
@@ -134,7 +123,7 @@ func (s *StructUniqSet[V]) Has(v V) (bool, error) {
 }
 
 func (s *StructUniqSet[V]) Add(v V) (bool, error) {
-	hash, err := s.getHashCode(v)
+	hash, err := s.build(v)
 	if err != nil {
 		return false, err
 	}
@@ -155,7 +144,7 @@ func (s *StructUniqSet[V]) Add(v V) (bool, error) {
 }
 
 func (s *StructUniqSet[V]) Remove(v V) (bool, error) {
-	hash, err := s.getHashCode(v)
+	hash, err := s.build(v)
 	if err != nil {
 		return false, err
 	}
-- 
2.43.0


From 77ceddf30c9be870233ad2b1582e7d54ed156f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:35 +0000
Subject: [PATCH 24/35] fix: AES.Decrypt panics on data shorter than a nonce

---
 crypto/aes.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crypto/aes.go b/crypto/aes.go
index a848755..0dd9cbc 100644
--- a/crypto/aes.go
+++ b/crypto/aes.go
@@ -4,8 +4,11 @@ import (
 	"crypto/aes"
 	"crypto/cipher"
 	"crypto/rand"
+	"errors"
 )
 
+var ErrCipherDataTooShort = errors.New("cipher data too short")
+
 type AES struct {
 	secretKey []byte
 }
@@ -54,6 +57,9 @@ func (a *AES) Decrypt(cipherData []byte) ([]byte, error) {
 	// Since we know the ciphertext is actually nonce+ciphertext
 	// And len(nonce) == NonceSize(). We can separate the two.
 	nonceSize := gcm.NonceSize()
+	if len(cipherData) < nonceSize {
+		return nil, ErrCipherDataTooShort
+	}
 	nonce, ciphertext := cipherData[:nonceSize], cipherData[nonceSize:]
 
 	plaintext, err := gcm.Open(nil, nonce, ciphertext, nil)
-- 
2.43.0


From 2706a2add73b60406f1b9bfaa1d9031279a5997f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:35 +0000
Subject: [PATCH 25/35] fix: CryptoFSBuilder.AddFolder panics on a folder it
 cannot read

---
 crypto_fs/crypto_fs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crypto_fs/crypto_fs.go b/crypto_fs/crypto_fs.go
index 570e972..3214ab9 100644
--- a/crypto_fs/crypto_fs.go
+++ b/crypto_fs/crypto_fs.go
@@ -49,6 +49,9 @@ func (b *CryptoFSBuilder) AddFile(path string) *CryptoFSBuilder {
 func (b *CryptoFSBuilder) AddFolder(folderPath string) *CryptoFSBuilder {
 	folderPath = path.Join(b.rootDir, folderPath)
 	err := filepath.Walk(folderPath, func(root string, info fs.FileInfo, err error) error {
+		if err != nil {
+			return err
+		}
 		if info.IsDir() {
 			entries, err := os.ReadDir(root)
 			if err != nil {
-- 
2.43.0


From af65a0c6c5ea09520e845d34de15096b3ddebdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:35 +0000
Subject: [PATCH 26/35] fix: CryptoFSBuilder saves an incomplete file system
 without an error

A file or folder that could not be read was left out and nobody was told; Save
now returns the first such error.
---
 crypto_fs/crypto_fs.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/crypto_fs/crypto_fs.go b/crypto_fs/crypto_fs.go
index 3214ab9..cca30be 100644
--- a/crypto_fs/crypto_fs.go
+++ b/crypto_fs/crypto_fs.go
@@ -19,6 +19,14 @@ type CryptoFSBuilder struct {
 	rootDir   string
 	files     map[string]file
 	aesSecret []byte
+	err       error // the first error of AddFile and AddFolder, for Save
+}
+
+func (b *CryptoFSBuilder) fail(err error) *CryptoFSBuilder {
+	if b.err == nil {
+		b.err = err
+	}
+	return b
 }
 
 func NewCryptoFSBuilder() *CryptoFSBuilder {
@@ -30,12 +38,12 @@ func NewCryptoFSBuilder() *CryptoFSBuilder {
 func (b *CryptoFSBuilder) AddFile(path string) *CryptoFSBuilder {
 	of, err := os.Open(path)
 	if err != nil {
-		return b
+		return b.fail(err)
 	}
 	defer of.Close()
 	data, err := os.ReadFile(path)
 	if err != nil {
-		return b
+		return b.fail(err)
 	}
 	f := file{
 		FileName: of.Name(),
@@ -87,7 +95,7 @@ func (b *CryptoFSBuilder) AddFolder(folderPath string) *CryptoFSBuilder {
 		return nil
 	})
 	if err != nil {
-		return b
+		return b.fail(err)
 	}
 	return b
 }
@@ -108,6 +116,9 @@ func (b *CryptoFSBuilder) WithAES(secret []byte) *CryptoFSBuilder {
 }
 
 func (b *CryptoFSBuilder) Save() error {
+	if b.err != nil {
+		return b.err
+	}
 	var buf bytes.Buffer
 	enc := gob.NewEncoder(&buf)
 	err := enc.Encode(b.files)
-- 
2.43.0


From b1266a0b4e939a42d920cda40c2a4d9faa197451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:36 +0000
Subject: [PATCH 27/35] fix: CryptoFSBuilder.Save ignores the error of closing
 the file

---
 crypto_fs/crypto_fs.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crypto_fs/crypto_fs.go b/crypto_fs/crypto_fs.go
index cca30be..28c7057 100644
--- a/crypto_fs/crypto_fs.go
+++ b/crypto_fs/crypto_fs.go
@@ -137,12 +137,11 @@ func (b *CryptoFSBuilder) Save() error {
 	if err != nil {
 		return err
 	}
-	defer target.Close()
 	_, err = target.Write(data)
-	if err != nil {
-		return err
+	if closeErr := target.Close(); err == nil {
+		err = closeErr
 	}
-	return nil
+	return err
 }
 
 type CryptoFS interface {
-- 
2.43.0


From 7b7282d0bc6a9387a3a099717560580b3ad3fb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:36 +0000
Subject: [PATCH 28/35] fix: reading a CryptoFS file never gets to its end

Every Read began at the first byte, so io.ReadAll and io.Copy ran for ever.
---
 crypto_fs/crypto_fs.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/crypto_fs/crypto_fs.go b/crypto_fs/crypto_fs.go
index 28c7057..8a1dc55 100644
--- a/crypto_fs/crypto_fs.go
+++ b/crypto_fs/crypto_fs.go
@@ -183,7 +183,7 @@ func (c *cryptoFS) Open(path string) (fs.File, error) {
 	if !ok {
 		return nil, fs.ErrNotExist
 	}
-	return f, nil
+	return &openFile{file: f, data: bytes.NewReader(f.Data)}, nil
 }
 
 func (c *cryptoFS) ReadDir(name string) ([]fs.DirEntry, error) {
@@ -245,9 +245,14 @@ func (f file) Stat() (fs.FileInfo, error) {
 	return f, nil
 }
 
-func (f file) Read(i []byte) (int, error) {
-	buf := bytes.NewBuffer(f.Data)
-	return buf.Read(i)
+// openFile is an open file with its own read position
+type openFile struct {
+	file
+	data *bytes.Reader
+}
+
+func (f *openFile) Read(i []byte) (int, error) {
+	return f.data.Read(i)
 }
 
-func (f file) Close() error { return nil }
+func (f *openFile) Close() error { return nil }
-- 
2.43.0


From e7b45dad763ccd8d8d816a511564b2e47a44cde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:36 +0000
Subject: [PATCH 29/35] fix: the timeout of ReadNBytesWithTimeout stays on the
 connection

Reads after it failed once the time was up.
---
 net/read.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/net/read.go b/net/read.go
index 1586108..77469ae 100644
--- a/net/read.go
+++ b/net/read.go
@@ -33,6 +33,7 @@ func ReadNBytesWithTimeout(conn net.Conn, n int, timeout time.Duration) ([]byte,
 	if err != nil {
 		return nil, err
 	}
+	defer conn.SetReadDeadline(time.Time{})
 	buff := make([]byte, n)
 	nRead, err := io.ReadFull(conn, buff)
 	if err != nil {
-- 
2.43.0


From fa88bb8762c62b0dfc11c9c28e3bf76d3cb8c3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:51 +0000
Subject: [PATCH 30/35] fix: ChunkChan and ShardChan deliver zero values once
 their incoming channel is closed

---
 chans/chunk_chan.go | 8 +++++++-
 chans/shard_chan.go | 5 ++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/chans/chunk_chan.go b/chans/chunk_chan.go
index d3dcc91..0e94dec 100644
--- a/chans/chunk_chan.go
+++ b/chans/chunk_chan.go
@@ -48,6 +48,7 @@ func (c *ChunkChan[T]) run() {
 	t := time.NewTicker(c.chunkTimeout)
 	defer t.Stop()
 	chunk := make([]T, 0, c.chunkSize)
+	incoming := c.incomingChan
 	for {
 		select {
 		case <-c.ctx.Done():
@@ -59,7 +60,12 @@ func (c *ChunkChan[T]) run() {
 				}
 				chunk = make([]T, 0, c.chunkSize)
 			}
-		case item := <-c.incomingChan:
+		case item, ok := <-incoming:
+			if !ok {
+				// closed: what is left goes out with the timeout
+				incoming = nil
+				continue
+			}
 			chunk = append(chunk, item)
 			if len(chunk) >= c.chunkSize {
 				if !c.send(chunk) {
diff --git a/chans/shard_chan.go b/chans/shard_chan.go
index 967afe2..5007e39 100644
--- a/chans/shard_chan.go
+++ b/chans/shard_chan.go
@@ -130,7 +130,10 @@ func (b *ShardChanBuilder[T]) Build() (*ShardChan[T], error) {
 			select {
 			case <-res.ctx.Done():
 				return
-			case msg := <-res.incomingChan:
+			case msg, ok := <-res.incomingChan:
+				if !ok {
+					return
+				}
 				key := res.shardFunc(msg) % res.shardCount
 				if key < 0 {
 					key += res.shardCount
-- 
2.43.0


From 28c9a299c8d3d8341e64462effd51e87af957f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:46 +0000
Subject: [PATCH 31/35] fix: MapMutex and MapRWMutex keep every key ever locked

---
 collections/lock_map.go | 94 +++++++++++++++++++++++------------------
 1 file changed, 53 insertions(+), 41 deletions(-)

diff --git a/collections/lock_map.go b/collections/lock_map.go
index e32ead0..26a1309 100644
--- a/collections/lock_map.go
+++ b/collections/lock_map.go
@@ -10,99 +10,111 @@ import "sync"
 zed (14.03.2024)
 */
 
+// A lock of a key is kept as long as somebody holds it or waits for it.
+
+type mapMutexEntry struct {
+	sync.Mutex
+	users int
+}
+
 type MapMutex[K comparable] struct {
-	m  map[K]*sync.Mutex
+	m  map[K]*mapMutexEntry
 	mu sync.RWMutex
 }
 
 func NewMapMutex[K comparable]() *MapMutex[K] {
 	return &MapMutex[K]{
-		m: make(map[K]*sync.Mutex),
+		m: make(map[K]*mapMutexEntry),
 	}
 }
 
 func (mm *MapMutex[K]) Lock(k K) {
-	mm.mu.RLock()
+	mm.mu.Lock()
 	m, ok := mm.m[k]
-	mm.mu.RUnlock()
 	if !ok {
-		mm.mu.Lock()
-		m, ok = mm.m[k]
-		if !ok {
-			m = &sync.Mutex{}
-			mm.m[k] = m
-		}
-		mm.mu.Unlock()
+		m = &mapMutexEntry{}
+		mm.m[k] = m
 	}
+	m.users++
+	mm.mu.Unlock()
 	m.Lock()
 }
 
 func (mm *MapMutex[K]) Unlock(k K) {
-	mm.mu.RLock()
+	mm.mu.Lock()
+	defer mm.mu.Unlock()
 	m, ok := mm.m[k]
-	mm.mu.RUnlock()
 	if ok {
 		m.Unlock()
+		m.users--
+		if m.users == 0 {
+			delete(mm.m, k)
+		}
 	}
 }
 
+type mapRWMutexEntry struct {
+	sync.RWMutex
+	users int
+}
+
 type MapRWMutex[K comparable] struct {
-	m  map[K]*sync.RWMutex
+	m  map[K]*mapRWMutexEntry
 	mu sync.RWMutex
 }
 
 func NewMapRWMutex[K comparable]() *MapRWMutex[K] {
 	return &MapRWMutex[K]{
-		m: make(map[K]*sync.RWMutex),
+		m: make(map[K]*mapRWMutexEntry),
 	}
 }
 
-func (mm *MapRWMutex[K]) RLock(k K) {
-	mm.mu.RLock()
+func (mm *MapRWMutex[K]) use(k K) *mapRWMutexEntry {
+	mm.mu.Lock()
+	defer mm.mu.Unlock()
 	m, ok := mm.m[k]
-	mm.mu.RUnlock()
 	if !ok {
-		mm.mu.Lock()
-		m, ok = mm.m[k]
-		if !ok {
-			m = &sync.RWMutex{}
-			mm.m[k] = m
-		}
-		mm.mu.Unlock()
+		m = &mapRWMutexEntry{}
+		mm.m[k] = m
 	}
+	m.users++
+	return m
+}
+
+// unused must be called with the lock held
+func (mm *MapRWMutex[K]) unused(k K, m *mapRWMutexEntry) {
+	m.users--
+	if m.users == 0 {
+		delete(mm.m, k)
+	}
+}
+
+func (mm *MapRWMutex[K]) RLock(k K) {
+	m := mm.use(k)
 	m.RLock()
 }
 
 func (mm *MapRWMutex[K]) RUnlock(k K) {
-	mm.mu.RLock()
+	mm.mu.Lock()
+	defer mm.mu.Unlock()
 	m, ok := mm.m[k]
-	mm.mu.RUnlock()
 	if ok {
 		m.RUnlock()
+		mm.unused(k, m)
 	}
 }
 
 func (mm *MapRWMutex[K]) Lock(k K) {
-	mm.mu.RLock()
-	m, ok := mm.m[k]
-	mm.mu.RUnlock()
-	if !ok {
-		mm.mu.Lock()
-		m, ok = mm.m[k]
-		if !ok {
-			m = &sync.RWMutex{}
-			mm.m[k] = m
-		}
-		mm.mu.Unlock()
-	}
+	m := mm.use(k)
 	m.Lock()
 }
 
 func (mm *MapRWMutex[K]) Unlock(k K) {
-	mm.mu.RLock()
+	mm.mu.Lock()
+	defer mm.mu.Unlock()
 	m, ok := mm.m[k]
-	mm.mu.RUnlock()
 	if ok {
 		m.Unlock()
+		mm.unused(k, m)
 	}
 }
-- 
2.43.0


From 4fc22b6dba89e501ef085d6aa9c0b974701e3694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 32/35] fix: ChunkChans of one builder share their incoming
 channel

Build kept the channel it made in the builder, so what was added to one
ChunkChan came out of another. A running ChunkChan with a chunk func also
read the context and the func from the builder, which may have been given
others for the next Build by then.
---
 chans/chunk_chan.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/chans/chunk_chan.go b/chans/chunk_chan.go
index 0e94dec..c8dbff2 100644
--- a/chans/chunk_chan.go
+++ b/chans/chunk_chan.go
@@ -133,26 +133,28 @@ func (b *ChunkChanBuilder[T]) WithIncomingChan(incomingChan chan T) *ChunkChanBu
 }
 
 func (b *ChunkChanBuilder[T]) Build() *ChunkChan[T] {
-	if b.incomingChan == nil {
-		b.incomingChan = make(chan T, b.incomingBufferSize)
+	incomingChan := b.incomingChan
+	if incomingChan == nil {
+		incomingChan = make(chan T, b.incomingBufferSize)
 	}
+	chunkFunc := b.chunkFunc
 	res := &ChunkChan[T]{
 		ctx:          b.ctx,
 		chunkSize:    b.chunkSize,
 		chunkTimeout: b.chunkTimeout,
-		incomingChan: b.incomingChan,
+		incomingChan: incomingChan,
 		outgoingChan: make(chan []T, b.outgoingBufferSize),
 	}
 
 	go res.run()
-	if b.chunkFunc != nil {
+	if chunkFunc != nil {
 		go func() {
 			for {
 				select {
-				case <-b.ctx.Done():
+				case <-res.ctx.Done():
 					return
 				case chunk := <-res.outgoingChan:
-					b.chunkFunc(chunk)
+					chunkFunc(chunk)
 				}
 			}
 		}()
-- 
2.43.0


From 1ce6e51412f5932f00d2216dba6fbf9f1bd992d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 33/35] fix: ShardChans of one builder share their incoming
 channel

Build kept the channel it made in the builder, so messages added to one
ShardChan came out of another, and running workers read their func from
the builder, which may have been given another one for the next Build.
---
 chans/shard_chan.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/chans/shard_chan.go b/chans/shard_chan.go
index 5007e39..bec48ec 100644
--- a/chans/shard_chan.go
+++ b/chans/shard_chan.go
@@ -112,13 +112,15 @@ func (b *ShardChanBuilder[T]) Build() (*ShardChan[T], error) {
 	if b.shardFunc == nil {
 		return nil, ErrShardFuncIsNil
 	}
-	if b.incomingChan == nil {
-		b.incomingChan = make(chan T, b.incomingBufferSize)
+	incomingChan := b.incomingChan
+	if incomingChan == nil {
+		incomingChan = make(chan T, b.incomingBufferSize)
 	}
+	workerFunc := b.workerFunc
 	res := &ShardChan[T]{
 		ctx:           b.ctx,
 		shardFunc:     b.shardFunc,
-		incomingChan:  b.incomingChan,
+		incomingChan:  incomingChan,
 		shardCount:    b.shardCount,
 		outgoingChans: make(map[int]chan T, b.shardCount),
 	}
@@ -146,7 +148,7 @@ func (b *ShardChanBuilder[T]) Build() (*ShardChan[T], error) {
 			}
 		}
 	}()
-	if b.workerFunc != nil {
+	if workerFunc != nil {
 		for i := 0; i < b.shardCount; i++ {
 			go func(k int) {
 				for {
@@ -154,7 +156,7 @@ func (b *ShardChanBuilder[T]) Build() (*ShardChan[T], error) {
 					case <-res.ctx.Done():
 						return
 					case msg := <-res.outgoingChans[k]:
-						b.workerFunc(k, msg)
+						workerFunc(k, msg)
 					}
 				}
 			}(i)
-- 
2.43.0


From 09105d75afcff335db05b8cf1204c48b2b904804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 34/35] fix: ShardChunks of one builder share their incoming
 channel

Build kept the channel it made in the builder, so items added to one
ShardChunk came out of another, and its goroutines read the context and
the worker from the builder, which may have been given others by then.
---
 chans/shard_chunk_chan.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/chans/shard_chunk_chan.go b/chans/shard_chunk_chan.go
index b2b72bc..5d24653 100644
--- a/chans/shard_chunk_chan.go
+++ b/chans/shard_chunk_chan.go
@@ -116,10 +116,12 @@ func (b *ShardChunkBuilder[T]) WithIncomingChan(incomingChan chan T) *ShardChunk
 }
 
 func (b *ShardChunkBuilder[T]) Build() (*ShardChunk[T], error) {
-	if b.incomingChan == nil {
-		b.incomingChan = make(chan T, b.incomingBufferSize)
+	incomingChan := b.incomingChan
+	if incomingChan == nil {
+		incomingChan = make(chan T, b.incomingBufferSize)
 	}
-	sharder, err := NewShardChan[T]().WithContext(b.ctx).WithOutgoingBufferSize(b.incomingBufferSize / b.shardCount).WithShardCount(b.shardCount).WithShardFunc(b.shardFunc).WithIncomingChan(b.incomingChan).Build()
+	ctx, shardWorker := b.ctx, b.shardWorker
+	sharder, err := NewShardChan[T]().WithContext(b.ctx).WithOutgoingBufferSize(b.incomingBufferSize / b.shardCount).WithShardCount(b.shardCount).WithShardFunc(b.shardFunc).WithIncomingChan(incomingChan).Build()
 	if err != nil {
 		return nil, err
 	}
@@ -129,7 +131,7 @@ func (b *ShardChunkBuilder[T]) Build() (*ShardChunk[T], error) {
 		go func(k int) {
 			for {
 				select {
-				case <-b.ctx.Done():
+				case <-ctx.Done():
 					return
 				case m := <-sharder.C(k):
 					chunkers[k].Add(m)
@@ -137,15 +139,15 @@ func (b *ShardChunkBuilder[T]) Build() (*ShardChunk[T], error) {
 			}
 		}(i)
 	}
-	if b.shardWorker != nil {
+	if shardWorker != nil {
 		for i := 0; i < b.shardCount; i++ {
 			go func(k int) {
 				for {
 					select {
-					case <-b.ctx.Done():
+					case <-ctx.Done():
 						return
 					case batch := <-chunkers[k].C():
-						b.shardWorker(k, batch)
+						shardWorker(k, batch)
 					}
 				}
 			}(i)
-- 
2.43.0


From f7d974b42c81c33ab92e5985867c68b488ae4106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 35/35] fix: routes added to a builder change the processors it
 has built

A processor read the routes from its builder on every event, so a Route
added for a further Build also ran in the processors already in use, and
raced with their events.
---
 flow/processor.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flow/processor.go b/flow/processor.go
index 88eb7fa..465cf48 100644
--- a/flow/processor.go
+++ b/flow/processor.go
@@ -66,8 +66,9 @@ func (fb *ProcessorBuilder[E, S]) RouteOn(cond func(event E) bool, do ...func(ev
 }
 
 func (fb *ProcessorBuilder[E, S]) Build() func(event E, state S) error {
+	routes := append([]ProcessorRouter[E, S](nil), fb.routes...)
 	return func(event E, state S) error {
-		for _, route := range fb.routes {
+		for _, route := range routes {
 			for _, fn := range route.chain {
 				if err := fn(event, state); err != nil {
 					return err
-- 
2.43.0

