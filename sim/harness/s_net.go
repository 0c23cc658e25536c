package main

import (
	"bytes"
	"errors"
	"io"
	stdnet "net"
	"os"
	"sync"
	"time"

	"github.com/axgrid/axutils/net"
)

// ---- the simulated connection ------------------------------------------------------

// seg is a piece of the incoming stream.
type seg struct {
	at   int64 // when it is there
	data []byte
}

// simConn is a connection whose peer follows a script.
type simConn struct {
	big bool // there is much to read

	mu      sync.Mutex
	r       *R
	segs    []seg
	end     error // what comes after the segments, nil: silence
	endAt   int64
	withEnd bool  // the end comes along with the last bytes
	frag    []int // at most so many bytes in the i-th Read; 0: an empty Read without an error
	reads   int
	used    int // bytes handed out
	rdl     time.Time
	rat     int64 // when it comes, as the system sees it when it is set
	wdl     time.Time
	wake    chan struct{}
	setErr  error // of SetReadDeadline
	setFail int   // the setFail-th call of it fails (from 1)
	sets    int
	wTime   int64 // a Write takes so long
	written []byte
	pipe    bool // an empty Read waits as any other does
}

func (c *simConn) avail(now int64) (b []byte, next int64) {
	left := c.used
	next = -1
	for _, s := range c.segs {
		if s.at > now {
			next = s.at
			break
		}
		if left < len(s.data) {
			b = append(b, s.data[left:]...)
			left = 0
		} else {
			left -= len(s.data)
		}
	}
	return
}

func (c *simConn) total() (n int) {
	for _, s := range c.segs {
		n += len(s.data)
	}
	return
}

func (c *simConn) Read(p []byte) (int, error) {
	for {
		c.mu.Lock()
		now := c.r.Now()
		if !c.rdl.IsZero() && now >= c.rat {
			c.mu.Unlock()
			return 0, os.ErrDeadlineExceeded
		}
		if len(p) == 0 && !c.pipe {
			c.mu.Unlock()
			return 0, nil
		}
		b, next := c.avail(now)
		if len(b) > 0 {
			n := min(len(p), len(b))
			f := c.frag[c.reads%len(c.frag)]
			c.reads++
			if f == 0 {
				c.mu.Unlock()
				return 0, nil
			}
			if f < n {
				n = f
				c.r.Fault(FNetFrag)
			}
			copy(p, b[:n])
			c.used += n
			var err error
			if c.withEnd && c.end != nil && c.used == c.total() && now >= c.endAt {
				err = c.end
			}
			c.mu.Unlock()
			return n, err
		}
		if next < 0 && c.end != nil {
			if now >= c.endAt {
				c.mu.Unlock()
				if c.end == io.EOF {
					c.r.Fault(FNetEOF)
				} else {
					c.r.Fault(FNetErr)
				}
				return 0, c.end
			}
			next = c.endAt
		}
		// wait for the next bytes, the deadline or a change of it
		d := int64(3600e9)
		if next >= 0 {
			d = next - now
		}
		if !c.rdl.IsZero() {
			d = min(d, c.rat-now)
		}
		wake := c.wake
		c.mu.Unlock()
		t := time.NewTimer(time.Duration(d))
		select {
		case <-t.C:
		case <-wake:
			t.Stop()
		}
	}
}

func (c *simConn) Write(p []byte) (int, error) {
	start := c.r.Now()
	for {
		c.mu.Lock()
		now := c.r.Now()
		if !c.wdl.IsZero() && !time.Now().Before(c.wdl) {
			c.mu.Unlock()
			return 0, os.ErrDeadlineExceeded
		}
		d := start + c.wTime - now
		if d <= 0 {
			c.written = append(c.written, p...)
			c.mu.Unlock()
			return len(p), nil
		}
		if !c.wdl.IsZero() {
			d = min(d, int64(time.Until(c.wdl)))
		}
		wake := c.wake
		c.mu.Unlock()
		t := time.NewTimer(time.Duration(d))
		select {
		case <-t.C:
		case <-wake:
			t.Stop()
		}
	}
}

func (c *simConn) poke() {
	close(c.wake)
	c.wake = make(chan struct{})
}

func (c *simConn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.sets++
	if c.sets == c.setFail {
		c.r.Fault(FNetErr)
		return c.setErr
	}
	c.rdl, c.rat = t, c.r.Now()+int64(time.Until(t))
	c.poke()
	return nil
}

func (c *simConn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.wdl = t
	c.poke()
	return nil
}

func (c *simConn) SetDeadline(t time.Time) error {
	if err := c.SetReadDeadline(t); err != nil {
		return err
	}
	return c.SetWriteDeadline(t)
}

func (c *simConn) Close() error            { return nil }
func (c *simConn) LocalAddr() stdnet.Addr  { return &stdnet.TCPAddr{} }
func (c *simConn) RemoteAddr() stdnet.Addr { return &stdnet.TCPAddr{} }

// ---- C34, C35 ------------------------------------------------------------------------

const (
	nRead  = iota // A: bytes asked for, B: timeout in µs (-1: none); R: bytes got, R2: error (0 none, 1 EOF, 2 unexpected EOF, 3 timeout, 4 the connection's, 5 of SetReadDeadline, 6 other)
	nWrite        // A: bytes; R: bytes, R2: error
)

var netNames = []string{"ReadNBytes", "Write"}

var errConn = errors.New("connection reset by the simulated peer")
var errSet = errors.New("deadline refused")

func netErr(err error) int64 {
	switch {
	case err == nil:
		return 0
	case errors.Is(err, io.ErrUnexpectedEOF):
		return 2
	case errors.Is(err, io.EOF):
		return 1
	case errors.Is(err, os.ErrDeadlineExceeded):
		return 3
	case errors.Is(err, errConn):
		return 4
	case errors.Is(err, errSet):
		return 5
	}
	return 6
}

type netCall struct {
	n       int
	timeout int64 // -1: none
	after   int64 // pause before the call
	past    bool  // the timeout is over when the call begins
}

type netClient struct {
	c     *simConn
	calls []netCall
	got   []pair
	write int
}

func (k *netCall) timed() bool { return k.timeout >= 0 || k.past }

// script is a connection with a drawn script.
func (r *R) script(tag uint64) *simConn {
	w := &r.W
	c := &simConn{r: r, wake: make(chan struct{}), setErr: errSet, pipe: w.Pct(30)}
	at := int64(0)
	step := One(w, ms, 0, 10*ms, 300*ms)
	for i, n := 0, w.In(0, 6); i < n; i++ {
		if step > 0 && w.Pct(60) {
			at += int64(w.N(5)) * step
		}
		// never at the instant of a deadline: those are at whole multiples of 10 µs
		l := One(w, 1, 2, 3, 8, 50, 600)
		if w.Pct(2) {
			l, c.big = One(w, 4000, 66000, 150000), true
		}
		c.segs = append(c.segs, seg{at + int64(1+i)*1003, fill(r, tag+uint64(i), l)})
	}
	switch w.W(4, 3, 3) {
	case 1:
		c.end = io.EOF
	case 2:
		c.end = errConn
	}
	if c.end != nil {
		c.endAt = at + int64(len(c.segs)+1)*1003 + int64(w.N(4))*step
		if c.withEnd = w.Pct(50); c.withEnd && len(c.segs) > 0 {
			c.endAt = c.segs[len(c.segs)-1].at
		}
	}
	c.frag = []int{1 << 20}
	if w.Pct(70) {
		c.frag = nil
		for i := 0; i < 5; i++ {
			c.frag = append(c.frag, One(w, 1, 2, 3, 7, 100, 1<<20))
			if c.big {
				c.frag[i] = c.frag[i]*500 + 7
			}
		}
		if w.Pct(20) {
			c.frag[w.N(5)] = 0
		}
	}
	return c
}

// at is when the byte with the given index is there (-1: never).
func (c *simConn) at(i int) int64 {
	for _, s := range c.segs {
		if i < len(s.data) {
			return s.at
		}
		i -= len(s.data)
	}
	return -1
}

func runNet(r *R, timed bool) {
	var cls []*netClient
	for i, n := 0, r.W.In(1, 4); i < n; i++ {
		x := &netClient{c: r.script(uint64(5000 + 100*i))}
		for j, m := 0, r.W.In(1, 8); j < m; j++ {
			call := netCall{n: One(&r.W, 4, 0, 1, 2, 3, 8, 60, 500), timeout: -1}
			if x.c.big && r.W.Pct(40) {
				call.n = One(&r.W, 4095, 4096, 4097, 5000, 65536, 70000, 150000)
			}
			if timed && r.W.Pct(75) {
				call.timeout = One(&r.W, 10*ms, 10_000, ms, 40*ms, 700*ms, 5000*ms)
			}
			if timed && r.W.Pct(5) {
				call.timeout = One(&r.W, 0, -1000, -ms, -3000*ms)
				call.past = true
			}
			if r.W.Pct(40) {
				call.after = One(&r.W, ms, 30*ms, 1500*ms)
			}
			x.calls = append(x.calls, call)
		}
		if timed {
			if r.W.Pct(15) {
				x.c.setFail = 1 + r.W.N(6)
			}
			if r.W.Pct(40) {
				x.write = r.W.In(1, 3)
				x.c.wTime = One(&r.W, 5*ms, 100*ms, 2000*ms)
			}
		}
		cls = append(cls, x)
	}
	r.Cfg("connections=%d", len(cls))
	for _, x := range cls {
		x := x
		r.Go(func(c int) {
			for _, k := range x.calls {
				Sleep(k.after)
				// calls begin at whole multiples of 10 µs, the peer acts in between
				if d := r.Now() % 10_000; d > 0 {
					Sleep(10_000 - d)
				}
				if !x.call(r, c, k) {
					return
				}
			}
		})
		if x.write > 0 {
			r.Go(func(c int) {
				for j := 0; j < x.write; j++ {
					h := r.Inv(c, nWrite, 100, 0, 0)
					n, err := x.c.Write(make([]byte, 100))
					r.Ret(h, int64(n), netErr(err))
					if err != nil {
						r.failLater("write", "a Write on the connection failed because of the timeout of a read")
					}
				}
			})
		}
	}
	if !r.Wait(100e9) {
		r.Fail("stuck", "a call did not return")
		return
	}
	for _, x := range cls {
		for _, g := range x.got {
			if !bytes.Equal(g.got, g.want) {
				r.Fail("changed", "bytes changed after they were returned")
				return
			}
		}
	}
}

// state is what the connection has seen.
func (c *simConn) state() (used, sets int, dl bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.used, c.sets, !c.rdl.IsZero()
}

const never = int64(1) << 62

// call makes one call and compares it with what the script gives; false when the client is to stop.
func (x *netClient) call(r *R, c int, k netCall) bool {
	conn := x.c
	var stream []byte
	for _, s := range conn.segs {
		stream = append(stream, s.data...)
	}
	pos, sets, _ := conn.state()
	t0 := r.Now()
	need := pos + k.n
	tData, tEnd, tDl := never, never, never
	if k.n == 0 {
		tData = t0
	} else {
		if at := conn.at(need - 1); at >= 0 {
			tData = max(t0, at)
		} else if conn.end != nil {
			tEnd = max(t0, conn.endAt)
		}
		if k.timed() {
			tDl = t0 + max(k.timeout, 0)
		}
	}
	setFails := conn.setFail == sets+1 && k.timed()
	if tData == never && tEnd == never && tDl == never && !setFails {
		return false // it would wait for ever
	}
	us := int64(-1)
	if k.timed() {
		us = k.timeout / 1000
	}
	h := r.Inv(c, nRead, int64(k.n), us, int64(pos))
	var b []byte
	var err error
	if !k.timed() {
		b, err = net.ReadNBytes(conn, k.n)
	} else {
		b, err = net.ReadNBytesWithTimeout(conn, k.n, time.Duration(k.timeout))
	}
	e := netErr(err)
	r.Ret(h, int64(len(b)), e)
	t1 := r.Now()
	used, sets2, dl := conn.state()
	if conn.setFail > sets && conn.setFail <= sets2 {
		if setFails && (e != 5 || used != pos) {
			r.failLater("set", "SetReadDeadline failed, and the call did not return its error without reading")
		}
		return false
	}
	if used > need {
		r.failLater("greedy", "the call took more bytes off the connection than it was asked for")
		return false
	}
	if dl {
		r.failLater("left", "the call left a read deadline on the connection")
		return false
	}
	if k.past && k.n > 0 && tDl <= min(tData, tEnd) && e == 3 {
		tData, tEnd = never, never // what is there already may count as late
	}
	switch {
	case tDl < tData && tDl < tEnd:
		r.Fault(FTimeout)
		switch {
		case e == 0:
			r.failLater("late", "the call succeeded, though its bytes came after the timeout")
		case e != 3:
			r.failLater("error", "the call gave another error than that of the timeout")
		case t1 != tDl:
			r.failLater("deadline", "the call did not give up at its timeout")
		}
	case tData < tEnd:
		switch {
		case e != 0:
			r.failLater("refused", "the call failed, though all its bytes came in time")
		case len(b) != k.n || !bytes.Equal(b, stream[pos:need]):
			r.failLater("bytes", "the call did not give the next bytes of the stream")
		case used != need:
			r.failLater("bytes", "the call did not take the bytes it gave off the connection")
		case t1 != tData:
			r.failLater("slow", "the call did not return when its bytes were there")
		}
		x.got = append(x.got, pair{b, bytes.Clone(b)})
		if k.n > 0 {
			b[0] ^= 0xff // it is the caller's
			x.got[len(x.got)-1].want[0] ^= 0xff
		}
	default:
		want := int64(4)
		if conn.end == io.EOF {
			want = 1
			if len(stream) > pos {
				want = 2
			}
		}
		switch {
		case e == 0:
			r.failLater("partial", "the call succeeded, though the connection ended before all its bytes came")
		case e != want:
			r.failLater("error", "the call gave another error than the one that ended the stream")
		case t1 != tEnd:
			r.failLater("slow", "the call did not return when the connection ended")
		}
	}
	return r.lclass == ""
}

func init() {
	reg(&Scenario{Prop: "C34", Name: "net-read", Names: netNames, Fn: func(r *R) { runNet(r, false) }})
	reg(&Scenario{Prop: "C35", Name: "net-timeout", Names: netNames, Fn: func(r *R) { runNet(r, true) }})
}
