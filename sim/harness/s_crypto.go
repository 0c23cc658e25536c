package main

import (
	"bytes"

	"github.com/axgrid/axutils/crypto"
	"github.com/axgrid/axutils/zip"
)

// ---- C30: AES ------------------------------------------------------------------

const (
	aEnc   = iota // A: instance, B: plaintext; R: number of the ciphertext, -1 error
	aDec          // A: instance, B: ciphertext; R: 0 right, 1 wrong content, 2 error
	aBad          // A: instance, B: ciphertext, D: kind of damage; R: 0 refused, 1 accepted
	aWrong        // A: instance, B: ciphertext of another key; R: 0 refused, 1 accepted
)

var aesNames = []string{"Encrypt", "Decrypt", "Decrypt damaged", "Decrypt with another key"}

// sealed is one ciphertext.
type sealed struct {
	key, plain int
	ct, copy   []byte
}

type aesSys struct {
	r      *R
	keys   [][]byte
	good   []bool
	inst   []*crypto.AES
	keyOf  []int
	plains [][]byte
	per    [6]struct { // of each client (root first): nothing is shared
		all  []sealed
		outs []pair // kept to see whether later calls change them
	}
}

type pair struct{ got, want []byte }

// fill makes n bytes that depend on the run and on tag.
func fill(r *R, tag uint64, n int) []byte {
	b := make([]byte, n)
	s := mix(r.K*31 + tag)
	for i := range b {
		if i%8 == 0 {
			s = mix(s)
		}
		b[i] = byte(s >> (8 * (i % 8)))
	}
	return b
}

func (s *aesSys) add(c int, x sealed) int64 {
	p := &s.per[c+1]
	p.all = append(p.all, x)
	return int64(len(p.all) - 1)
}

func (s *aesSys) get(c, i int) (x sealed, ok bool) {
	p := &s.per[c+1]
	if len(p.all) == 0 {
		return
	}
	return p.all[i%len(p.all)], true
}

// roomy is a copy of b with room behind it, which nobody but its owner may write.
func roomy(b []byte, room int) []byte {
	x := make([]byte, len(b)+room)
	copy(x, b)
	for i := len(b); i < len(x); i++ {
		x[i] = 0xa5
	}
	return x[:len(b):len(x)]
}

// same tells whether a buffer from roomy is as it was.
func same(b, was []byte) bool {
	if !bytes.Equal(b, was) {
		return false
	}
	for _, v := range b[len(b):cap(b)] {
		if v != 0xa5 {
			return false
		}
	}
	return true
}

func (s *aesSys) enc(c, i, p int) {
	r := s.r
	data := roomy(s.plains[p], (p*7)%64)
	h := r.Inv(c, aEnc, int64(i), int64(p), 0)
	ct, err := s.inst[i].Encrypt(data)
	if !same(data, s.plains[p]) {
		r.failLater("input", "Encrypt changed the buffer it was given")
	}
	if err != nil {
		r.Ret(h, -1, 0)
		if s.good[s.keyOf[i]] {
			r.failLater("encrypt", "Encrypt failed with a key of 16, 24 or 32 bytes")
		}
		return
	}
	if !s.good[s.keyOf[i]] {
		r.failLater("badkey", "Encrypt worked with a key that is not 16, 24 or 32 bytes long")
	}
	// what the caller does with its buffer afterwards is its own business
	for j := range data {
		data[j] ^= 0xff
	}
	r.Ret(h, s.add(c, sealed{s.keyOf[i], p, ct, bytes.Clone(ct)}), 0)
}

func (s *aesSys) dec(c, i, n int) {
	r := s.r
	x, ok := s.get(c, n)
	if !ok {
		return
	}
	if x.key != s.keyOf[i] {
		s.refuse(c, aWrong, i, n, 0, x.copy)
		return
	}
	in := roomy(x.copy, n%32)
	h := r.Inv(c, aDec, int64(i), int64(n), 0)
	out, err := s.inst[i].Decrypt(in)
	if !same(in, x.copy) {
		r.failLater("input", "Decrypt changed the buffer it was given")
	}
	for j := range in {
		in[j] ^= 0xff
	}
	switch {
	case err != nil:
		r.Ret(h, 2, 0)
		r.failLater("roundtrip", "Decrypt failed on what Encrypt gave for the same key")
	case !bytes.Equal(out, s.plains[x.plain]):
		r.Ret(h, 1, 0)
		r.failLater("roundtrip", "Decrypt of what Encrypt gave is not the plaintext")
	default:
		r.Ret(h, 0, 0)
		s.per[c+1].outs = append(s.per[c+1].outs, pair{out, s.plains[x.plain]})
	}
}

func (s *aesSys) refuse(c int, k uint8, i, n, kind int, data []byte) {
	r := s.r
	in := roomy(data, n%32)
	h := r.Inv(c, k, int64(i), int64(n), int64(kind))
	r.Fault(FCorrupt)
	_, err := s.inst[i].Decrypt(in)
	if !same(in, data) {
		r.failLater("input", "Decrypt changed the buffer it was given")
	}
	r.Ret(h, b2i(err == nil), 0)
	if err == nil {
		r.failLater("forged", "Decrypt accepted "+damageNames[kind])
	}
}

var damageNames = []string{"a ciphertext of another key", "a ciphertext with a bit flipped", "a truncated ciphertext", "a ciphertext with bytes added", "a ciphertext with two parts exchanged", "a splice of two ciphertexts", "a ciphertext with a part zeroed", "a ciphertext without its first bytes", "bytes that are no ciphertext", "a ciphertext with a byte replaced"}

// damage changes x in one of several ways; nil when nothing came of it.
func (r *R) damage(x, other []byte, kind int) []byte {
	n := len(x)
	d := bytes.Clone(x)
	switch kind {
	case 1:
		if n == 0 {
			return nil
		}
		i := r.W.N(n * 8)
		d[i/8] ^= 1 << (i % 8)
	case 2:
		d = d[:r.W.N(n)]
	case 3:
		d = append(d, fill(r, uint64(n)+77, 1+r.W.N(40))...)
	case 4:
		if n < 4 {
			return nil
		}
		l := 1 + r.W.N(min(16, n/2))
		a := r.W.N(n - 2*l + 1)
		b := a + l + r.W.N(n-a-2*l+1)
		copy(d[a:], x[b:b+l])
		copy(d[b:], x[a:a+l])
	case 5:
		if n == 0 || len(other) == 0 {
			return nil
		}
		c := r.W.N(n + 1)
		o := r.W.N(len(other) + 1)
		if r.W.Pct(60) {
			o = min(c, len(other))
		}
		d = append(d[:c:c], other[o:]...)
	case 6:
		if n == 0 {
			return nil
		}
		a := r.W.N(n)
		clear(d[a : a+r.W.N(n-a)+1])
	case 7:
		d = d[r.W.N(n+1):]
	case 8:
		d = fill(r, uint64(n)+99, r.W.N(64))
	case 9:
		if n == 0 {
			return nil
		}
		d[r.W.N(n)] = byte(r.W.N(256))
	}
	if bytes.Equal(d, x) || bytes.Equal(d, other) {
		return nil
	}
	return d
}

func runAES(r *R, big bool) {
	s := &aesSys{r: r}
	sizes := []int{16, 24, 32}
	for i, n := 0, r.W.In(1, 3); i < n; i++ {
		l := sizes[r.W.N(3)]
		good := true
		if i > 0 && r.W.Pct(15) {
			l, good = One(&r.W, 0, 1, 15, 17, 20, 31, 33, 64), false
		}
		k := fill(r, uint64(1000+i), l)
		if l > 0 {
			k[0] = byte(i)
		}
		s.keys, s.good = append(s.keys, k), append(s.good, good)
	}
	ni := r.W.In(1, 4)
	for i := 0; i < ni; i++ {
		k := i % len(s.keys)
		if i >= len(s.keys) {
			k = r.W.N(len(s.keys))
		}
		s.keyOf = append(s.keyOf, k)
		s.inst = append(s.inst, crypto.NewAES(bytes.Clone(s.keys[k])))
	}
	np := r.W.In(1, 4)
	for i := 0; i < np; i++ {
		l := One(&r.W, 16, 0, 1, 15, 17, 64, 100, 1000, 5000)
		if r.W.Pct(1) {
			l = One(&r.W, 16384, 65536, 70000)
		}
		if big && r.W.Pct(50) {
			l = One(&r.W, 1<<17+5, 1<<20, 1<<20+17, 2_300_000)
		}
		s.plains = append(s.plains, fill(r, uint64(2000+i), l))
	}
	// a weak but correct random source: blocks never repeat, though they differ in one byte only
	if r.W.Pct(50) {
		randSource.narrow, randSource.at, randSource.stream = true, r.W.N(12), r.W.Pct(50)
	}
	if r.W.Pct(30) {
		randSource.short = 1 + r.W.N(12)
	}
	r.Defer(func() { randSource.narrow, randSource.short = false, 0 })
	r.Cfg("keys=%d instances=%v plaintexts=%d narrow=%v/%d short=%d", len(s.keys), s.keyOf, np, randSource.narrow, randSource.at, randSource.short)
	for i, n := 0, r.W.N(4); i < n; i++ {
		s.enc(-1, r.W.N(ni), r.W.N(np))
	}
	type step struct{ op, i, n, kind int }
	plan := func() (l []step) {
		for j, n := 0, r.W.In(2, 7); j < n; j++ {
			st := step{r.W.W(5, 4, 4), r.W.N(ni), r.W.N(64), 1 + r.W.N(9)}
			l = append(l, st)
		}
		return
	}
	one := func(c int, st step) {
		switch st.op {
		case 0:
			s.enc(c, st.i, st.n%np)
		case 1:
			s.dec(c, st.i, st.n)
		case 2:
			x, ok := s.get(c, st.n)
			if !ok {
				return
			}
			o, _ := s.get(c, st.n+1)
			if d := r.damage(x.copy, o.copy, st.kind); d != nil {
				s.refuse(c, aBad, st.i, st.n, st.kind, d)
			}
		}
	}
	for c, n := 0, r.W.In(1, 4); c < n; c++ {
		p := plan()
		s.per[c+1].all = append([]sealed(nil), s.per[0].all...)
		r.Go(func(c int) {
			for _, st := range p {
				one(c, st)
			}
		})
	}
	if !r.Wait(3600e9) {
		r.Fail("stuck", "Encrypt or Decrypt did not return")
		return
	}
	all := s.per[0].all
	for _, p := range s.per[1:] {
		if len(p.all) > len(s.per[0].all) {
			all = append(all, p.all[len(s.per[0].all):]...)
		}
	}
	for i, x := range all {
		if !bytes.Equal(x.ct, x.copy) {
			r.Fail("changed", "ciphertext %d changed after Encrypt returned it", i)
			return
		}
		if len(x.ct) < len(s.plains[x.plain]) {
			r.Fail("short", "ciphertext %d is shorter than its plaintext", i)
			return
		}
		for j, y := range all[:i] {
			if x.plain != y.plain || x.key != y.key {
				continue
			}
			if bytes.Equal(x.ct, y.ct) {
				r.Fail("equal", "two encryptions of one plaintext of %d bytes are equal (ciphertexts %d and %d)", len(s.plains[x.plain]), j, i)
				return
			}
			run := 0
			for p := 0; p < min(len(x.ct), len(y.ct)); p++ {
				if x.ct[p] != y.ct[p] {
					run = 0
				} else if run++; run >= 14 {
					r.Fail("equal", "two encryptions of one plaintext have equal parts (ciphertexts %d and %d up to byte %d)", j, i, p)
					return
				}
			}
		}
		if len(s.plains[x.plain]) >= 12 && bytes.Contains(x.ct, s.plains[x.plain]) {
			r.Fail("plain", "ciphertext %d contains its plaintext", i)
			return
		}
		// any instance of the key opens it, no other
		for k := range s.inst {
			out, err := s.inst[k].Decrypt(x.ct)
			switch {
			case s.keyOf[k] == x.key && (err != nil || !bytes.Equal(out, s.plains[x.plain])):
				r.Fail("roundtrip", "ciphertext %d does not open: %v", i, err)
				return
			case s.keyOf[k] != x.key && err == nil:
				r.Fail("forged", "ciphertext %d opens with another key", i)
				return
			}
		}
	}
	for _, p := range s.per {
		for _, o := range p.outs {
			if !bytes.Equal(o.got, o.want) {
				r.Fail("changed", "a plaintext changed after Decrypt returned it")
				return
			}
		}
	}
	if randSource.narrow {
		r.Probe(0)
	}
}

// ---- C33: gzip ------------------------------------------------------------------

const (
	zZip   = iota // A: data; R: length, -1 error
	zUnzip        // A: number; R: 0 right, 1 wrong, 2 error
	zBad          // A: number, B: kind; R: 0 refused, 1 original, 2 other data accepted
)

var zipNames = []string{"GZipData", "GUnzipData", "GUnzipData of damaged data"}

type zipped struct {
	n       int
	z, copy []byte
}

type zipSys struct {
	r    *R
	data [][]byte
	per  [6]struct {
		all  []zipped
		outs []pair
	}
}

func (s *zipSys) get(c, i int) (x zipped, ok bool) {
	p := &s.per[c+1]
	if len(p.all) == 0 {
		return
	}
	return p.all[i%len(p.all)], true
}

func (s *zipSys) zip(c, n int) {
	r := s.r
	in := roomy(s.data[n], n%16)
	h := r.Inv(c, zZip, int64(n), int64(len(in)), 0)
	z, err := zip.GZipData(in)
	if !same(in, s.data[n]) {
		r.failLater("input", "GZipData changed the buffer it was given")
	}
	for j := range in {
		in[j] ^= 0xff
	}
	if err != nil {
		r.Ret(h, -1, 0)
		r.failLater("zip", "GZipData failed")
		return
	}
	r.Ret(h, int64(len(z)), 0)
	s.per[c+1].all = append(s.per[c+1].all, zipped{n, z, bytes.Clone(z)})
}

func (s *zipSys) unzip(c, i int) {
	r := s.r
	x, ok := s.get(c, i)
	if !ok {
		return
	}
	in := roomy(x.copy, i%16)
	h := r.Inv(c, zUnzip, int64(i), 0, 0)
	out, err := zip.GUnzipData(in)
	if !same(in, x.copy) {
		r.failLater("input", "GUnzipData changed the buffer it was given")
	}
	for j := range in {
		in[j] ^= 0xff
	}
	switch {
	case err != nil:
		r.Ret(h, 2, 0)
		r.failLater("roundtrip", "GUnzipData failed on what GZipData gave")
	case !bytes.Equal(out, s.data[x.n]):
		r.Ret(h, 1, 0)
		r.failLater("roundtrip", "GUnzipData of what GZipData gave is not the original")
	default:
		r.Ret(h, 0, 0)
		s.per[c+1].outs = append(s.per[c+1].outs, pair{out, s.data[x.n]})
	}
}

func (s *zipSys) bad(c, i, kind int) {
	r := s.r
	x, ok := s.get(c, i)
	if !ok {
		return
	}
	o, _ := s.get(c, i+1)
	d := r.damage(x.copy, o.copy, kind)
	if d == nil {
		return
	}
	if kind == 5 || kind == 3 {
		// a concatenation of whole members is a file of its own
		for _, y := range s.per[c+1].all {
			if bytes.HasPrefix(d, y.copy) {
				return
			}
		}
	}
	in := roomy(d, i%16)
	h := r.Inv(c, zBad, int64(i), int64(kind), 0)
	r.Fault(FCorrupt)
	out, err := zip.GUnzipData(in)
	if !same(in, d) {
		r.failLater("input", "GUnzipData changed the buffer it was given")
	}
	res := int64(0)
	if err == nil {
		res = 1
		if !bytes.Equal(out, s.data[x.n]) && !(kind == 5 && bytes.Equal(out, s.data[o.n])) {
			res = 2
			r.failLater("corrupt", "GUnzipData gave other data, without an error, for "+damageNames[kind])
		}
		if kind == 2 {
			r.failLater("truncated", "GUnzipData accepted truncated data")
		}
	}
	r.Ret(h, res, 0)
}

func runZip(r *R, big bool) {
	s := &zipSys{r: r}
	nd := r.W.In(1, 5)
	if big {
		nd = r.W.In(1, 2)
	}
	for i := 0; i < nd; i++ {
		n := One(&r.W, 100, 0, 1, 2, 10, 33, 511, 512, 513, 1000, 1500, 2000, 5000, 40000)
		if r.W.Pct(1) {
			n = One(&r.W, 65536, 100000, 300000)
		}
		if big {
			n = One(&r.W, 1<<20+1, 1<<19, 2_200_000)
		}
		b := fill(r, uint64(3000+i), n)
		switch r.W.N(4) {
		case 0:
			for j := range b {
				b[j] = byte(i)
			}
		case 1:
			for j := range b {
				b[j] = "abcd"[b[j]&3]
			}
		case 2:
			for j := 40; j < len(b); j++ {
				b[j] = b[j-40]
			}
		}
		s.data = append(s.data, b)
	}
	type step struct{ op, n, kind int }
	for i, n := 0, r.W.N(3); i < n; i++ {
		s.zip(-1, r.W.N(nd))
	}
	most := 5
	if big {
		most = 3
	}
	for c, n := 0, r.W.In(1, most-1); c < n; c++ {
		var l []step
		for j, m := 0, r.W.In(1, most); j < m; j++ {
			l = append(l, step{r.W.W(2, 4, 8), r.W.N(32), 1 + r.W.N(9)})
		}
		s.per[c+1].all = append([]zipped(nil), s.per[0].all...)
		r.Go(func(c int) {
			for _, st := range l {
				switch st.op {
				case 0:
					s.zip(c, st.n%nd)
				case 1:
					s.unzip(c, st.n)
				case 2:
					s.bad(c, st.n, st.kind)
				}
			}
		})
	}
	if !r.Wait(3600e9) {
		r.Fail("stuck", "GZipData or GUnzipData did not return")
		return
	}
	for _, p := range s.per {
		for i, x := range p.all {
			if !bytes.Equal(x.z, x.copy) {
				r.Fail("changed", "compressed data %d changed after GZipData returned it", i)
				return
			}
			if out, err := zip.GUnzipData(x.z); err != nil || !bytes.Equal(out, s.data[x.n]) {
				r.Fail("roundtrip", "compressed data %d (of %d bytes) does not give the original back: %v", i, len(s.data[x.n]), err)
				return
			}
		}
		for _, o := range p.outs {
			if !bytes.Equal(o.got, o.want) {
				r.Fail("changed", "data changed after GUnzipData returned it")
				return
			}
		}
	}
}

func init() {
	reg(&Scenario{Prop: "C30", Name: "aes", Names: aesNames, Probes: []string{"random source with one live byte"}, Fn: func(r *R) { runAES(r, false) }})
	reg(&Scenario{Prop: "C30", Name: "aes-big", Rare: true, Names: aesNames, Probes: []string{"random source with one live byte"}, Fn: func(r *R) { runAES(r, true) }})
	reg(&Scenario{Prop: "C33", Name: "zip", Names: zipNames, Fn: func(r *R) { runZip(r, false) }})
	reg(&Scenario{Prop: "C33", Name: "zip-big", Rare: true, Names: zipNames, Fn: func(r *R) { runZip(r, true) }})
}
