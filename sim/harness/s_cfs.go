package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"unsafe"

	"github.com/axgrid/axutils/crypto_fs"
)

// ---- the simulated disk --------------------------------------------------------

const (
	dkError = iota // the call fails
	dkShort        // fewer bytes than asked for
	dkIntr         // interrupted before anything happened
	dkFull         // part of a write goes through, then the disk is full
	dkCrash        // part of a write goes through, then the process is gone
	dkGone         // part of a read goes through, then nothing can be read any more
)

// disk decides the outcome of the file system calls of the code under test.
type disk struct {
	r       *R
	n       int // calls so far
	plan    []dfault
	crashed bool
	full    bool
	gone    bool
	yield   bool // calls are scheduling points
	hard    int  // faults that fired and may show
	soft    int  // faults that fired and may not show
	wrote   [1024]bool
}

type dfault struct {
	at, kind int
	errno    syscall.Errno
	part     int
}

//go:norace
func (d *disk) hook(op, fd int, p string, flags, n int) (int, syscall.Errno, bool) {
	if d.yield {
		Pause()
	}
	i := d.n
	d.n++
	wrote := false
	if fd >= 0 && fd < len(d.wrote) && (op == syscall.AxWrite || op == syscall.AxClose) {
		wrote = d.wrote[fd]
		d.wrote[fd] = op == syscall.AxWrite
	}
	if d.crashed {
		if op == syscall.AxClose {
			return -1, 0, false
		}
		return -1, syscall.EIO, false
	}
	if d.full && op == syscall.AxWrite {
		d.hard++
		return -1, syscall.ENOSPC, false
	}
	if d.gone && op == syscall.AxRead {
		d.hard++
		return -1, syscall.EIO, false
	}
	for _, f := range d.plan {
		if f.at != i {
			continue
		}
		part := -1
		if n > 1 {
			part = 1 + f.part%(n-1)
		}
		switch f.kind {
		case dkError:
			d.hard++
			runtime.AxMark(uint64(i)<<8 | uint64(f.errno))
			d.r.Fault(FDiskErr)
			if wrote && op == syscall.AxClose {
				// what was written did not reach the disk, as close tells on a network file system or with a quota
				d.r.Probe(1)
				var st syscall.Stat_t
				if _, _, e := syscall.RawSyscall(syscall.SYS_FSTAT, uintptr(fd), uintptr(unsafe.Pointer(&st)), 0); e == 0 && st.Size > 0 {
					syscall.RawSyscall(syscall.SYS_FTRUNCATE, uintptr(fd), uintptr(int64(f.part)%st.Size), 0)
				}
			}
			return -1, f.errno, op == syscall.AxClose
		case dkShort:
			if part > 0 && (op == syscall.AxRead || op == syscall.AxWrite) {
				d.soft++
				runtime.AxMark(uint64(i)<<8 | 0xfe)
				d.r.Fault(FDiskShort)
				return part, 0, false
			}
		case dkIntr:
			if op != syscall.AxClose {
				d.soft++
				runtime.AxMark(uint64(i)<<8 | 0xfe)
				d.r.Fault(FDiskErr)
				return -1, syscall.EINTR, false
			}
		case dkFull:
			d.full = true
			if op == syscall.AxWrite {
				d.hard++
				d.r.Fault(FDiskErr)
				return part, 0, false
			}
		case dkGone:
			if part > 0 && op == syscall.AxRead {
				d.gone = true
				d.hard++
				runtime.AxMark(uint64(i)<<8 | 0xfd)
				d.r.Fault(FDiskErr)
				return min(part, 1+f.part%5), 0, false
			}
		case dkCrash:
			runtime.AxMark(uint64(i)<<8 | 0xff)
			d.crashed = true
			d.hard++
			d.r.Fault(FDiskCrash)
			if op == syscall.AxWrite && f.part%3 > 0 {
				return part, 0, false
			}
			if op == syscall.AxOpen && f.part%2 > 0 {
				return -1, 0, false
			}
			if op == syscall.AxClose {
				return -1, 0, false
			}
			return -1, syscall.EIO, false
		}
	}
	return -1, 0, false
}

// arm plans faults among the next span calls.
func (d *disk) arm(span int, kinds ...int) {
	w := &d.r.W
	d.n, d.plan = 0, nil
	for i, n := 0, w.In(1, 3); i < n; i++ {
		d.plan = append(d.plan, dfault{w.N(span), kinds[w.N(len(kinds))], One(w, syscall.EIO, syscall.ENOSPC, syscall.EACCES, syscall.EMFILE, syscall.ENOENT), w.N(4096)})
	}
}

func (d *disk) during(f func()) {
	syscall.AxFault = d.hook
	defer func() { syscall.AxFault = nil }()
	f()
}

// ---- the model ------------------------------------------------------------------

type tnode struct {
	dir  bool
	data []byte
}

// tree is what is on the disk, by path.
type tree map[string]tnode

func (t tree) sorted() []string {
	var l []string
	for p := range t {
		l = append(l, p)
	}
	sort.Strings(l)
	return l
}

func (t tree) write() error {
	for _, p := range t.sorted() {
		var err error
		if n := t[p]; n.dir {
			err = os.MkdirAll(p, 0o755)
		} else {
			err = os.WriteFile(p, n.data, 0o644)
		}
		if err != nil {
			return err
		}
	}
	return nil
}

type mnode struct {
	dir  bool
	data []byte
	name string // base name, when the node came with its folder
	kids []mkid
}

type mkid struct {
	name string
	dir  bool
}

// image is what a file system should hold.
type image map[string]mnode

func (m image) addFile(t tree, p string) { m[p] = mnode{data: t[p].data} }

func (m image) addFolder(t tree, root string) {
	for _, p := range t.sorted() {
		if p != root && !strings.HasPrefix(p, root+"/") {
			continue
		}
		n := mnode{dir: t[p].dir, data: t[p].data, name: path.Base(p)}
		if n.dir {
			for _, q := range t.sorted() {
				if path.Dir(q) == p {
					n.kids = append(n.kids, mkid{path.Base(q), t[q].dir})
				}
			}
		}
		m[p] = n
	}
}

func (m image) clone() image {
	c := image{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

func (m image) paths() []string {
	var l []string
	for p := range m {
		l = append(l, p)
	}
	sort.Strings(l)
	return l
}

var absent = []string{"", "cfs", "cfs/nothing", "in", "/", ".", "cfs/in/", "cfs//in", "a"}

// differs tells in what the file system differs from the image ("" when in nothing).
func (m image) differs(f crypto_fs.CryptoFS) string {
	for _, p := range m.paths() {
		if s := m[p].differs(f, p); s != "" {
			return s
		}
	}
	for _, p := range absent {
		if _, ok := m[p]; ok {
			continue
		}
		if _, err := f.Open(p); err == nil {
			return fmt.Sprintf("%q opens, though it was never added", p)
		} else if !errors.Is(err, fs.ErrNotExist) {
			return fmt.Sprintf("opening %q, which was never added, gives %v", p, err)
		}
	}
	return ""
}

func (n mnode) differs(f crypto_fs.CryptoFS, p string) string {
	h, err := f.Open(p)
	if err != nil {
		return fmt.Sprintf("%q does not open: %v", p, err)
	}
	defer h.Close()
	st, err := h.Stat()
	if err != nil {
		return fmt.Sprintf("Stat of %q: %v", p, err)
	}
	if st.IsDir() != n.dir {
		return fmt.Sprintf("%q: IsDir is %v", p, st.IsDir())
	}
	if n.name != "" && st.Name() != n.name {
		return fmt.Sprintf("%q: its name is %q", p, st.Name())
	}
	if !n.dir {
		if st.Size() != int64(len(n.data)) {
			return fmt.Sprintf("%q: its size is %d, not %d", p, st.Size(), len(n.data))
		}
		b, err := io.ReadAll(io.LimitReader(h, int64(len(n.data))+100))
		if err != nil {
			return fmt.Sprintf("reading %q: %v", p, err)
		}
		if !bytes.Equal(b, n.data) {
			return fmt.Sprintf("%q holds other data (%d bytes for %d)", p, len(b), len(n.data))
		}
		if _, err := f.ReadDir(p); err == nil {
			return fmt.Sprintf("ReadDir of the file %q gives no error", p)
		}
		return ""
	}
	return n.differsDir(f, p)
}

func (n mnode) differsDir(f crypto_fs.CryptoFS, p string) string {
	l, err := f.ReadDir(p)
	if err != nil {
		return fmt.Sprintf("ReadDir of %q: %v", p, err)
	}
	if len(l) != len(n.kids) {
		return fmt.Sprintf("ReadDir of %q gives %d entries, not %d", p, len(l), len(n.kids))
	}
	for i, k := range n.kids {
		if l[i].Name() != k.name || l[i].IsDir() != k.dir {
			return fmt.Sprintf("ReadDir of %q: entry %d is %q (directory: %v), not %q", p, i, l[i].Name(), l[i].IsDir(), k.name)
		}
		if in, err := l[i].Info(); err != nil || in.Name() != k.name || in.IsDir() != k.dir {
			return fmt.Sprintf("ReadDir of %q: Info of entry %d is wrong", p, i)
		}
	}
	return ""
}

// ---- C31: Save and load ----------------------------------------------------------

const (
	fSave     = iota // A: which; R: 0 nil, 1 error
	fLoad            // A: which key (0 right, 1 none, 2 other); R: 0 error, 1 the old image, 2 the new one, 3 something else
	fDamaged         // A: kind; R: 0 error, 1 accepted
	fOpen            // A: path number; R
	fRead            // A: path number, B: buffer, D: position; R: n, R2: 0 nil, 1 EOF, 2 other
	fReadDir         // A: path number
	fStat            // A: path number
	fWalk            // A: path number
	fAbsent          // A: number
	fWriteOff        // the files on the disk go away
)

var cfsNames = []string{"Save", "load", "load damaged", "Open", "Read", "ReadDir", "Stat", "WalkDir", "Open of what is not there", "the disk's files change"}

const outFile = "cfs/out.bin"

type cfsSys struct {
	r    *R
	t    tree
	dirs []string
	d    *disk
	key  []byte
}

func newCFS(r *R, big bool) *cfsSys {
	s := &cfsSys{r: r, t: tree{}, d: &disk{r: r}}
	os.RemoveAll("cfs")
	r.Defer(func() { os.RemoveAll("cfs") })
	s.t["cfs/in"] = tnode{dir: true}
	s.dirs = []string{"cfs/in"}
	for i, n := 0, r.W.In(1, 8); i < n; i++ {
		s.grow(i)
	}
	if big {
		s.large()
	}
	if err := s.t.write(); err != nil {
		die("preparing the disk: %v", err)
	}
	if r.W.Pct(60) {
		s.key = fill(r, 71, One(&r.W, 16, 24, 32))
	}
	r.Cfg("files=%d encrypted=%v", len(s.t), s.key != nil)
	return s
}

var baseNames = []string{"a.txt", "b", "файл", "x y", ".hidden", "UPPER", "a", "..c"}

// large adds many files, a deep folder or a large file.
func (s *cfsSys) large() {
	r := s.r
	switch r.W.N(3) {
	case 0:
		for i, n := 0, One(&r.W, 130, 300, 600, 1100); i < n; i++ {
			s.t[fmt.Sprintf("cfs/in/f%04d", i)] = tnode{data: []byte{byte(i)}}
		}
	case 1:
		p := "cfs/in"
		for i, n := 0, One(&r.W, 12, 20, 40, 70); i < n; i++ {
			p += fmt.Sprintf("/d%d", i)
			s.t[p] = tnode{dir: true}
			s.t[p+"/f"] = tnode{data: []byte{byte(i)}}
		}
		s.dirs = append(s.dirs, p)
	case 2:
		s.t["cfs/in/large"] = tnode{data: fill(r, 4099, One(&r.W, 70_000, 300_000, 1_100_000, 2_500_000))}
	}
}

// grow adds a file or directory to the tree.
func (s *cfsSys) grow(i int) {
	r := s.r
	parent := s.dirs[r.W.N(len(s.dirs))]
	p := parent + "/" + baseNames[r.W.N(len(baseNames))]
	for {
		if _, ok := s.t[p]; !ok {
			break
		}
		p += fmt.Sprint(i)
	}
	if r.W.Pct(30) && strings.Count(p, "/") < 5 {
		s.t[p] = tnode{dir: true}
		s.dirs = append(s.dirs, p)
		return
	}
	l := One(&r.W, 5, 0, 1, 100, 511, 512, 513, 2000, 6000)
	if r.W.Pct(1) {
		l = One(&r.W, 32768, 70000)
	}
	s.t[p] = tnode{data: fill(r, uint64(4000+i), l)}
}

// change changes the tree on the disk.
func (s *cfsSys) change(round int) {
	r := s.r
	for i, n := 0, r.W.In(1, 3); i < n; i++ {
		l := s.t.sorted()
		p := l[r.W.N(len(l))]
		switch {
		case !s.t[p].dir && r.W.Pct(50):
			s.t[p] = tnode{data: fill(r, uint64(round*100+i), r.W.N(700))}
		case !s.t[p].dir:
			delete(s.t, p)
			os.Remove(p)
		default:
			s.grow(round*10 + i)
		}
	}
	if err := s.t.write(); err != nil {
		die("preparing the disk: %v", err)
	}
}

// build adds files and folders to a builder and to the image.
func (s *cfsSys) build(b *crypto_fs.CryptoFSBuilder, m image, between func()) {
	r := s.r
	for i, n := 0, r.W.In(1, 3); i < n; i++ {
		l := s.t.sorted()
		p := l[r.W.N(len(l))]
		if i == 0 && r.W.Pct(50) {
			p = "cfs/in"
		}
		if s.t[p].dir {
			rel := p
			switch r.W.N(3) {
			case 1:
				b.WithRootDir("cfs")
				rel = strings.TrimPrefix(p, "cfs/")
			case 2:
				b.WithRootDir("cfs/in")
				rel = strings.TrimPrefix(strings.TrimPrefix(p, "cfs/in"), "/")
			default:
				b.WithRootDir("")
			}
			b.AddFolder(rel)
			m.addFolder(s.t, p)
		} else {
			b.AddFile(p)
			m.addFile(s.t, p)
		}
		if between != nil {
			between()
		}
	}
}

func (s *cfsSys) builder() *crypto_fs.CryptoFSBuilder {
	b := crypto_fs.NewCryptoFSBuilder().WithSavePath(outFile)
	if s.key != nil {
		b.WithAES(bytes.Clone(s.key))
	}
	return b
}

func (s *cfsSys) save(c int, which int64, b *crypto_fs.CryptoFSBuilder) error {
	h := s.r.Inv(c, fSave, which, 0, 0)
	err := b.Save()
	s.r.Ret(h, b2i(err != nil), 0)
	return err
}

// load loads the file system and tells what it got: 0 an error, 1 the old image, 2 the new one, 3 something else.
func (s *cfsSys) load(c int, old, new image) (int64, string) {
	h := s.r.Inv(c, fLoad, 0, 0, 0)
	f, err := crypto_fs.CryptoFSFromFile(outFile, s.key)
	if err != nil {
		s.r.Ret(h, 0, 0)
		return 0, err.Error()
	}
	got, why := int64(3), ""
	syscall.AxFault = nil
	if new != nil {
		if why = new.differs(f); why == "" {
			got = 2
		}
	}
	if old != nil && got == 3 {
		w := old.differs(f)
		if w == "" {
			got = 1
		}
		why += "; " + w
	}
	s.r.Ret(h, got, 0)
	return got, why
}

func runSave(r *R, big bool) {
	s := newCFS(r, big)
	d := s.d
	// a first image, without faults
	m1 := image{}
	b := s.builder()
	s.build(b, m1, nil)
	if r.W.Pct(30) {
		s.change(1)
	}
	d.during(func() {
		if err := s.save(-1, 1, b); err != nil {
			r.Fail("save", "Save failed without any fault: %v", err)
		}
	})
	if r.Failed() {
		return
	}
	span := d.n
	if got, why := s.load(-1, nil, m1); got != 2 {
		r.Fail("content", "loaded after Save: %s", why)
		return
	}
	// a key AES does not have cannot encrypt: it is an error, and nothing is given to those who load
	if r.W.Pct(15) {
		s.badKey(m1)
		if r.Failed() {
			return
		}
	}
	// damage at rest
	if r.W.Pct(30) {
		s.damaged(m1)
		if r.Failed() {
			return
		}
	}
	// a second image, with faults
	s.change(2)
	m2 := image{}
	again := r.W.Pct(30)
	if again {
		m2 = m1.clone() // the same builder goes on
	} else {
		b = s.builder()
	}
	kinds := []int{dkError, dkShort, dkIntr, dkFull, dkCrash, dkGone}
	if r.W.Pct(25) {
		kinds = []int{dkShort, dkIntr}
	}
	d.hard, d.soft, d.crashed, d.full, d.gone = 0, 0, false, false, false
	var err error
	if r.W.Pct(35) {
		// while it reads the files
		span := 10 + 10*len(s.t)
		if r.W.Pct(40) {
			span = 9
		}
		d.arm(span, kinds...)
		d.during(func() { s.build(b, m2, nil) })
		d.plan, d.n = nil, 0
		if !d.crashed {
			d.full, d.gone = false, false
			d.during(func() { err = s.save(-1, 2, b) })
		} else {
			err = syscall.EIO
		}
	} else {
		s.build(b, m2, nil)
		d.arm(span+2, kinds...)
		d.during(func() { err = s.save(-1, 2, b) })
	}
	torn := false
	if d.crashed && r.W.Pct(40) {
		torn = s.tear()
	}
	got, why := s.load(-1, m1, m2)
	switch {
	case d.crashed:
		if got == 3 {
			r.Fail("torn", "after a crash during Save (torn: %v) the file loads without an error, with neither the old nor the new content: %s", torn, why)
		}
	case err == nil:
		if got != 2 {
			r.Fail("lost", "Save returned nil (%d faults), but what loads is not what was added: %s", d.hard+d.soft, why)
		}
	default:
		if d.hard == 0 {
			r.Fail("save", "Save failed, though the disk did all it was asked to: %v", err)
		} else if got == 3 {
			r.Fail("torn", "after a failed Save the file loads without an error, with neither the old nor the new content: %s", why)
		}
	}
	if r.Failed() {
		return
	}
	// once the faults are over, saving works again
	d.hard, d.soft, d.crashed, d.full, d.gone, d.plan = 0, 0, false, false, false, nil
	m3 := image{}
	b = s.builder()
	s.build(b, m3, func() {
		if r.W.Pct(30) {
			s.change(3) // what changes on the disk after it was added does not matter
		}
	})
	if err := s.save(-1, 3, b); err != nil {
		r.Fail("save", "Save failed after the faults were over: %v", err)
		return
	}
	if got, why := s.load(-1, nil, m3); got != 2 {
		r.Fail("content", "loaded after the last Save: %s", why)
		return
	}
	// loading with faults
	d.arm(6, kinds...)
	d.n = 0
	syscall.AxFault = d.hook
	got, why = s.load(-1, nil, m3)
	syscall.AxFault = nil
	switch {
	case got == 3:
		r.Fail("load", "loading with read faults gave other data without an error: %s", why)
	case got == 0 && d.hard == 0:
		r.Fail("load", "loading failed, though the disk did all it was asked to: %s", why)
	}
	if got == 0 {
		r.Probe(0)
	}
}

// badKey saves with a key whose length AES does not know.
func (s *cfsSys) badKey(old image) {
	r := s.r
	x, _ := os.ReadFile(outFile)
	key := make([]byte, One(&r.W, 1, 5, 15, 17, 23, 31, 33, 64))
	b := s.builder().WithAES(key)
	s.build(b, image{}, nil)
	if err := s.save(-1, 9, b); err == nil {
		r.Fail("key", "Save returned nil with a key of %d bytes, with which nothing can be encrypted", len(key))
		return
	}
	if got, why := s.load(-1, old, nil); got == 3 {
		r.Fail("torn", "after a Save that failed for its key the file loads without an error, with other content: %s", why)
		return
	}
	if err := os.WriteFile(outFile, x, 0o644); err != nil {
		panic(err)
	}
}

// tear leaves on the disk what a loss of power may: a prefix, or (of an encrypted file) blocks of zeros.
func (s *cfsSys) tear() bool {
	r := s.r
	x, err := os.ReadFile(outFile)
	if err != nil || len(x) == 0 {
		return false
	}
	if s.key != nil && r.W.Pct(50) {
		a := r.W.N(len(x))
		clear(x[a:min(len(x), a+512)])
	} else {
		x = x[:r.W.N(len(x))]
	}
	r.Fault(FDiskTorn)
	if err := os.WriteFile(outFile, x, 0o644); err != nil {
		die("preparing the disk: %v", err)
	}
	return true
}

// damaged loads damaged copies of the file, and the file with a wrong key.
func (s *cfsSys) damaged(m image) {
	r := s.r
	x, err := os.ReadFile(outFile)
	if err != nil {
		die("reading the file: %v", err)
	}
	if s.key == nil {
		if n := r.W.N(len(x)); true {
			s.refuse(2, x[:n], nil, "a truncated file")
		}
		s.refuse(0, x, fill(r, 88, 16), "a file that is not encrypted, given a key,")
		return
	}
	for i, n := 0, r.W.In(1, 3); i < n; i++ {
		kind := 1 + r.W.N(9)
		if y := r.damage(x, x, kind); y != nil {
			s.refuse(kind, y, s.key, "damaged: "+damageNames[kind])
		}
	}
	if r.W.Pct(30) {
		k := bytes.Clone(s.key)
		k[r.W.N(len(k))] ^= byte(1 << r.W.N(8))
		s.refuse(0, x, k, "a file encrypted with another key")
		s.refuse(0, x, k[:len(k)-1], "an encrypted file, given a key of no right length,")
		s.refuse(0, x, nil, "an encrypted file, given no key,")
	}
	if err := os.WriteFile(outFile, x, 0o644); err != nil {
		die("preparing the disk: %v", err)
	}
}

func (s *cfsSys) refuse(kind int, data, key []byte, what string) {
	r := s.r
	if err := os.WriteFile("cfs/damaged.bin", data, 0o644); err != nil {
		die("preparing the disk: %v", err)
	}
	h := r.Inv(-1, fDamaged, int64(kind), 0, 0)
	r.Fault(FCorrupt)
	_, err := crypto_fs.CryptoFSFromFile("cfs/damaged.bin", key)
	r.Ret(h, b2i(err == nil), 0)
	if err == nil {
		r.Fail("damaged", "%s loads without an error", what)
	}
}

// runSaveRace loads while another client saves.
func runSaveRace(r *R) {
	s := newCFS(r, false)
	if s.key == nil {
		s.key = fill(r, 72, 16)
	}
	d := s.d
	m1, m2 := image{}, image{}
	b := s.builder()
	s.build(b, m1, nil)
	if err := s.save(-1, 1, b); err != nil {
		r.Fail("save", "Save failed without any fault: %v", err)
		return
	}
	s.change(2)
	b = s.builder()
	s.build(b, m2, nil)
	d.yield = true
	if r.W.Pct(50) {
		d.arm(12, dkShort, dkIntr)
	}
	var saved error
	syscall.AxFault = d.hook
	defer func() { syscall.AxFault = nil }()
	r.Go(func(c int) { saved = s.save(c, 2, b) })
	for i, n := 0, r.W.In(1, 3); i < n; i++ {
		k := r.W.In(1, 3)
		key := bytes.Clone(s.key)
		r.Go(func(c int) {
			for j := 0; j < k; j++ {
				h := r.Inv(c, fLoad, 0, 0, 0)
				f, err := crypto_fs.CryptoFSFromFile(outFile, key)
				got := int64(0)
				if err == nil {
					got = 3
					if m2.differs(f) == "" {
						got = 2
					} else if m1.differs(f) == "" {
						got = 1
					} else {
						r.failLater("torn", "a load during Save gave neither the old nor the new content")
					}
				}
				r.Ret(h, got, 0)
			}
		})
	}
	if !r.Wait(3600e9) {
		r.Fail("stuck", "Save or load did not return")
		return
	}
	syscall.AxFault = nil
	if saved != nil {
		r.Fail("save", "Save failed, though the disk did all it was asked to: %v", saved)
		return
	}
	if got, why := s.load(-1, nil, m2); got != 2 {
		r.Fail("lost", "Save returned nil, but what loads is not what was added: %s", why)
	}
}

// ---- C32: reading ----------------------------------------------------------------

func runRead(r *R) {
	s := newCFS(r, false)
	m := image{}
	b := s.builder()
	s.build(b, m, nil)
	if err := s.save(-1, 1, b); err != nil {
		r.Fail("save", "Save failed without any fault: %v", err)
		return
	}
	f, err := crypto_fs.CryptoFSFromFile(outFile, s.key)
	if err != nil {
		r.Fail("load", "loading failed: %v", err)
		return
	}
	if r.W.Pct(50) {
		r.Obs(-1, fWriteOff, 0, 0, 0)
		os.RemoveAll("cfs")
	}
	paths := m.paths()
	type step struct{ op, p, n int }
	for c, n := 0, r.W.In(1, 4); c < n; c++ {
		var l []step
		for j, k := 0, r.W.In(3, 14); j < k; j++ {
			l = append(l, step{r.W.W(4, 12, 2, 2, 1, 2), r.W.N(64), One(&r.W, 16, 0, 1, 7, 100, 512, 1000, 8192)})
		}
		r.Go(func(c int) {
			type handle struct {
				f   fs.File
				p   int
				pos int
			}
			var hs []*handle
			for _, st := range l {
				p := st.p % len(paths)
				name, node := paths[p], m[paths[p]]
				switch st.op {
				case 0:
					h := r.Inv(c, fOpen, int64(p), 0, 0)
					x, err := f.Open(name)
					r.Ret(h, b2i(err != nil), 0)
					if err != nil {
						r.failLater("open", "Open of an added path failed: "+name)
						return
					}
					if !node.dir {
						hs = append(hs, &handle{x, p, 0})
					}
				case 1:
					if len(hs) == 0 {
						continue
					}
					x := hs[st.p%len(hs)]
					want := m[paths[x.p]].data
					buf := roomy(make([]byte, st.n), 16)
					h := r.Inv(c, fRead, int64(x.p), int64(st.n), int64(x.pos))
					n, err := x.f.Read(buf)
					e := int64(0)
					if err != nil {
						e = 1 + b2i(err != io.EOF)
					}
					r.Ret(h, int64(n), e)
					switch {
					case n < 0 || n > len(buf) || x.pos+n > len(want) || !bytes.Equal(buf[:n], want[x.pos:x.pos+n]):
						r.failLater("read", "Read gave bytes that are not the next bytes of the file")
						return
					case e == 2:
						r.failLater("read", "Read failed")
						return
					case e == 1 && x.pos+n < len(want):
						r.failLater("eof", "Read said EOF before the end of the file")
						return
					case e == 0 && n == 0 && st.n > 0:
						r.failLater("eof", "Read gave nothing and no EOF")
						return
					case !same(buf[:len(buf):cap(buf)], buf):
						r.failLater("read", "Read wrote behind its buffer")
						return
					}
					x.pos += n
					for i := range buf {
						buf[i] ^= 0xff // the buffer is the caller's
					}
				case 2:
					h := r.Inv(c, fReadDir, int64(p), 0, 0)
					bad := ""
					if node.dir {
						bad = node.differsDir(f, name)
						if x, err := f.ReadDir(name); err == nil && len(x) > 0 {
							x[0] = nil // the list is the caller's
						}
					} else if _, err := f.ReadDir(name); err == nil {
						bad = "ReadDir of a file gives no error"
					}
					r.Ret(h, b2i(bad != ""), 0)
					if bad != "" {
						r.failLater("readdir", bad)
						return
					}
				case 3:
					h := r.Inv(c, fStat, int64(p), 0, 0)
					bad := node.differs(f, name)
					r.Ret(h, b2i(bad != ""), 0)
					if bad != "" {
						r.failLater("content", bad)
						return
					}
				case 4:
					if !node.dir || node.name == "" {
						continue
					}
					h := r.Inv(c, fWalk, int64(p), 0, 0)
					var got []string
					err := fs.WalkDir(f, name, func(q string, d fs.DirEntry, err error) error {
						if err != nil {
							return err
						}
						if d.IsDir() != m[q].dir {
							return errors.New("kind of " + q)
						}
						if got = append(got, q); len(got) > 1000 {
							return errors.New("no end")
						}
						return nil
					})
					r.Ret(h, int64(len(got)), b2i(err != nil))
					sort.Strings(got)
					if err != nil || !equalStrings(got, under(m, name)) {
						r.failLater("walk", "WalkDir of "+name+" does not give the folder's files")
						return
					}
				case 5:
					a := absent[st.p%len(absent)]
					if st.p%3 == 0 {
						a = name + "x"
					}
					if _, ok := m[a]; ok {
						continue
					}
					h := r.Inv(c, fAbsent, int64(st.p), 0, 0)
					_, e1 := f.Open(a)
					_, e2 := f.ReadDir(a)
					r.Ret(h, b2i(e1 != nil), b2i(e2 != nil))
					if !errors.Is(e1, fs.ErrNotExist) || !errors.Is(e2, fs.ErrNotExist) {
						r.failLater("absent", "Open and ReadDir of a path that was never added give no fs.ErrNotExist")
						return
					}
				}
			}
			for _, x := range hs {
				want := m[paths[x.p]].data
				rest, err := io.ReadAll(io.LimitReader(x.f, int64(len(want))+100))
				if err != nil || !bytes.Equal(rest, want[x.pos:]) {
					r.failLater("read", "what was left of a file is not what is read")
					return
				}
				if n, err := x.f.Read(make([]byte, 4)); n != 0 || err != io.EOF {
					r.failLater("eof", "Read at the end gives no EOF")
					return
				}
				if x.f.Close() != nil {
					r.failLater("close", "Close failed")
				}
			}
		})
	}
	if !r.Wait(3600e9) {
		r.Fail("stuck", "reading did not end")
		return
	}
	if d := m.differs(f); d != "" {
		r.Fail("content", "afterwards: %s", d)
	}
}

func under(m image, root string) (l []string) {
	for _, p := range m.paths() {
		if p == root || strings.HasPrefix(p, root+"/") {
			l = append(l, p)
		}
	}
	return
}

func equalStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func init() {
	reg(&Scenario{Prop: "C31", Name: "cfs-save", Weight: 3, Names: cfsNames, Probes: []string{"load refused because of a read fault", "written data lost at close"}, Fn: func(r *R) { runSave(r, false) }})
	reg(&Scenario{Prop: "C31", Name: "cfs-save-big", Rare: true, Names: cfsNames, Probes: []string{"load refused because of a read fault", "written data lost at close"}, Fn: func(r *R) { runSave(r, true) }})
	reg(&Scenario{Prop: "C31", Name: "cfs-save-load", Weight: 1, Names: cfsNames, Fn: runSaveRace})
	reg(&Scenario{Prop: "C32", Name: "cfs-read", Names: cfsNames, Fn: runRead})
}
