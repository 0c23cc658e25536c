package main

import (
	"bytes"
	"syscall"

	"github.com/axgrid/axutils/crypto_fs"
)

// ---- C47: every file that was opened is closed again -----------------------------------------

// lowestFd is the lowest number of a descriptor that is free. One that is left open raises it,
// sooner or later: the numbers are given out from below.
func lowestFd() int {
	fd, err := syscall.Dup(0)
	if err != nil {
		die("dup: %v", err)
	}
	syscall.Close(fd)
	return fd
}

func runFiles(r *R) {
	s := newCFS(r, false)
	d := s.d
	kinds := []int{dkError, dkShort, dkIntr, dkFull}
	before := lowestFd()
	look := func(what string) bool {
		if n := lowestFd(); n != before {
			r.Fail("open", "%s left a file open (the lowest free descriptor was %d, and is %d)", what, before, n)
		}
		return !r.Failed()
	}
	var b *crypto_fs.CryptoFSBuilder
	for i, n := 0, r.W.In(1, 4); i < n; i++ {
		if b == nil || r.W.Pct(50) {
			b = s.builder()
		}
		if r.W.Pct(50) {
			d.arm(10+10*len(s.t), kinds...)
		}
		d.full = false
		if r.W.Pct(20) {
			b.AddFile("cfs/none")
			b.AddFolder("cfs/none")
			b.AddFile("cfs/in")
		}
		d.during(func() { s.build(b, image{}, nil) })
		if !look("adding files") {
			return
		}
		d.n, d.plan, d.full = 0, nil, false
		if r.W.Pct(70) {
			d.arm(8, kinds...)
		}
		if r.W.Pct(10) {
			b.WithAES(make([]byte, 5))
		}
		d.during(func() { s.save(-1, int64(i), b) })
		if !look("Save") {
			return
		}
		d.n, d.plan, d.full = 0, nil, false
		if r.W.Pct(70) {
			d.arm(6, kinds...)
		}
		key := bytes.Clone(s.key)
		if r.W.Pct(15) {
			key = fill(r, 89, One(&r.W, 16, 7))
		}
		var f crypto_fs.CryptoFS
		d.during(func() {
			h := r.Inv(-1, fLoad, 0, 0, 0)
			var err error
			f, err = crypto_fs.CryptoFSFromFile(outFile, key)
			r.Ret(h, b2i(err != nil), 0)
		})
		if !look("loading") {
			return
		}
		d.n, d.plan, d.full = 0, nil, false
		if f != nil && r.W.Pct(50) {
			for _, p := range s.t.sorted() {
				if h, err := f.Open(p); err == nil {
					h.Stat()
					h.Read(make([]byte, 3))
				}
			}
			if !look("reading from what was loaded") {
				return
			}
		}
	}
}

func init() {
	reg(&Scenario{Prop: "C47", Name: "files", Names: cfsNames, Fn: runFiles})
}
