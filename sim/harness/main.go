// Command harness runs simulated executions of axutils. See /verif/DESIGN.md.
package main

import (
	"crypto/rand"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/rs/zerolog"
)

const (
	wMax = 1 << 14
	sMax = 1 << 18
	hdr  = 16 // uint64 words
)

// shared is a file mapped by the worker; what is in it survives any end of the worker.
type shared struct {
	h []uint64 // 0: phase 1: run index 2: scenario 3: heartbeat
	w []uint32
	s []uint32
}

const (
	phIdle = iota
	phRunning
	phViolation
	phRunaway
	phDone
	phDrain
)

var sh shared

func mapShared(path string) {
	size := hdr*8 + wMax*4 + sMax*4
	var b []byte
	if path == "" {
		b = make([]byte, size)
	} else {
		f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
		if err != nil {
			die("open %s: %v", path, err)
		}
		if err := f.Truncate(int64(size)); err != nil {
			die("truncate: %v", err)
		}
		b, err = syscall.Mmap(int(f.Fd()), 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		if err != nil {
			die("mmap: %v", err)
		}
		f.Close()
	}
	p := unsafe.Pointer(&b[0])
	sh.h = unsafe.Slice((*uint64)(p), hdr)
	sh.w = unsafe.Slice((*uint32)(unsafe.Add(p, hdr*8)), wMax)
	sh.s = unsafe.Slice((*uint32)(unsafe.Add(p, hdr*8+wMax*4)), sMax)
}

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "harness: "+format+"\n", a...)
	os.Exit(4)
}

//go:norace
func setPhase(p uint64) { sh.h[0] = p }

func runaway() {
	setPhase(phRunaway)
	syscall.Exit(12)
}

type Totals struct {
	Runs, Choices, Picks, Preempts, Stalls, Selects, Yields, Goroutines, Jumps uint64
	MaxRunnable                                                                uint64
	StallNanos                                                                 int64
	SimNanos                                                                   float64
	Ops                                                                        uint64
	Contended                                                                  uint64
	Faults                                                                     [24]uint64
	Probes                                                                     map[string]uint64
	PerScenario                                                                map[string]uint64
	Overflow                                                                   uint64
	LogOverflow                                                                uint64
	Known                                                                      map[string]uint64 // listed findings met again
}

// finding is a line of known-findings.txt.
type finding struct {
	scenario, class, what string
	rx                    *regexp.Regexp
}

var findingLine = regexp.MustCompile(`^finding: property=(\S+) scenario=(\S+) class=(\S+) match=/(.*)/ (.*)$`)

func loadKnown(path, prop string) (out []finding) {
	if path == "" {
		return nil
	}
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		if m := findingLine.FindStringSubmatch(strings.TrimSpace(l)); m != nil && m[1] == prop {
			out = append(out, finding{m[2], m[3], m[5], regexp.MustCompile(m[4])})
		}
	}
	return
}

type result struct {
	Class string   `json:"class"`
	Msg   string   `json:"msg"`
	Trace []string `json:"trace,omitempty"`
	W     []uint32 `json:"w,omitempty"`
	S     []uint32 `json:"s,omitempty"`
	Hash  uint64   `json:"hash"`
	Scen  string   `json:"scenario"`
	K     uint64   `json:"k"`
	Live  int      `json:"live"`
	Sched []string `json:"sched,omitempty"`
	Time  int64    `json:"sim_ns"`
}

var opsBuf []Op

// runOne executes one simulation. repW/repS nil: generate from the seed.
func runOne(sc *Scenario, seed, k uint64, rep bool, repW, repS []uint32, tot *Totals, wantTrace bool) result {
	r := &R{K: k, ops: opsBuf, names: sc.Names, done: make(chan struct{})}
	curR = r
	r.W = Chooser{log: sh.w, replay: repW, isRep: rep, s: mix(seed ^ mix(k))}
	sh.w[0], sh.s[0] = 0, 0
	randSource = seededRand{s: mix(seed ^ mix(k^0x7777))}
	sh.h[1] = k
	before := raceErrors()
	// swarm configuration of the scheduler
	c := &runtime.AxConfig{Seed: mix(seed) ^ mix(k*3+1), Log: sh.s, MaxYields: sc.MaxY, OverFn: runaway}
	setMs(time.Millisecond)
	c.PreemptEvery = []uint32{0, 2, 4, 8, 16, 40, 120}[r.W.W(2, 3, 4, 4, 3, 2, 2)]
	c.Policy = uint32(r.W.W(4, 2, 3, 2))
	if sc.Stalls && r.W.Pct(45) {
		c.StallPer1k = []uint32{20, 100, 400}[r.W.N(3)]
		u := []int64{ms / 1000, ms, 10 * ms, 50 * ms, 300 * ms, 2000 * ms}
		c.StallTab = []int64{u[r.W.N(len(u))], u[r.W.N(len(u))]}
		r.stalls = true
		r.maxStall = max(c.StallTab[0], c.StallTab[1])
	}
	if sc.Scale && r.W.Pct(25) {
		setMs(One(&r.W, time.Second, time.Minute, time.Hour, 24*time.Hour))
		r.Cfg("a millisecond lasts %v", time.Duration(ms))
	}
	if sc.Wall {
		wallConfig(r, c)
	}
	if rep {
		c.Replay = true
		copy(sh.s[1:], repS)
		c.ReplayN = len(repS)
	}
	r.Cfg("scenario=%s preempt=%d policy=%d stalls=%v", sc.Name, c.PreemptEvery, c.Policy, c.StallTab)
	sh.h[3]++
	setPhase(phRunning)
	runtime.AxStart(c)
	sc.Fn(r)
	if r.lclass != "" {
		r.viol, r.msg = r.lclass, r.lmsg
	}
	if r.pclass != "" {
		r.viol, r.msg = "panic", r.pclass
	}
	simT := runtime.AxNow()
	hash := runtime.AxHash()
	st0 := runtime.AxStatsNow()
	setPhase(phDrain)
	for i := len(r.defers) - 1; i >= 0; i-- {
		r.defers[i]()
	}
	live := drain()
	runtime.AxStop()
	setPhase(phDone)
	if r.viol == "" && raceErrors() > before {
		r.viol, r.msg = "race", "data race (see the report)"
	}
	if tot != nil {
		tot.Runs++
		tot.Choices += st0.Choices
		tot.Picks += st0.Picks
		tot.Preempts += st0.Preempts
		tot.Stalls += st0.Stalls
		tot.Selects += st0.Selects
		tot.Yields += st0.Yields
		tot.Goroutines += st0.Goroutines
		tot.Jumps += st0.TimeJumps
		if st0.MaxRunnable > tot.MaxRunnable {
			tot.MaxRunnable = st0.MaxRunnable
		}
		tot.SimNanos += float64(simT)
		tot.StallNanos += st0.StallTime
		tot.Ops += uint64(r.nops)
		tot.Faults[FStall] += st0.Stalls
		tot.Faults[FWall] += st0.WallJumps
		for i := 1; i < len(r.fault); i++ {
			tot.Faults[i] += r.fault[i]
		}
		tot.PerScenario[sc.Name]++
		for i, v := range r.probes {
			if v > 0 {
				n := fmt.Sprint(i)
				if i < len(sc.Probes) {
					n = sc.Probes[i]
				}
				tot.Probes[sc.Name+": "+n] += v
			}
		}
		if r.nops >= maxOps {
			tot.Overflow++
		}
		if sh.s[0] >= sMax-1 {
			tot.LogOverflow++
		}
	}
	res := result{Class: r.viol, Msg: r.msg, Hash: hash, Scen: sc.Name, K: k, Live: live, Time: simT}
	faults := uint64(0)
	for _, f := range r.fault {
		faults += f
	}
	if st0.Choices == 0 && faults == 0 {
		res.Hash = 0
	} else if tot != nil {
		tot.Contended++
	}
	if wantTrace || r.viol != "" {
		res.Trace = r.Trace(400)
		res.W = append([]uint32(nil), sh.w[1:1+sh.w[0]]...)
		res.S = append([]uint32(nil), sh.s[1:1+sh.s[0]]...)
	}
	return res
}

// drain lets leftover timers fire and goroutines end; it returns how many goroutines are left.
func drain() int {
	for i := 0; i < 400; i++ {
		if runtime.AxLive() == 1 && runtime.AxTimers() == 0 {
			return 0
		}
		switch {
		case i < 40:
			time.Sleep(time.Duration(ms))
		case i < 100:
			time.Sleep(time.Duration(1000 * ms))
		default:
			time.Sleep(time.Duration(min(3600*1000*ms, 1e16)))
		}
	}
	if n := runtime.AxTimers(); n > 0 {
		return n + 1000
	}
	return runtime.AxLive() - 1
}

func pick(list []*Scenario, k uint64) *Scenario {
	t := 0
	for _, s := range list {
		t += s.Weight
	}
	x := int(mix(k^0x1234567) % uint64(t))
	for _, s := range list {
		if x < s.Weight {
			return s
		}
		x -= s.Weight
	}
	return list[0]
}

func main() {
	var (
		prop   = flag.String("prop", "", "property")
		seed   = flag.Uint64("seed", 1, "VERIF_SEED")
		from   = flag.Uint64("from", 0, "first run index")
		step   = flag.Uint64("step", 1, "distance of run indices")
		count  = flag.Uint64("count", 0, "number of runs (0: no limit)")
		budget = flag.Int("budget", 0, "milliseconds (0: no limit)")
		shm    = flag.String("shm", "", "shared state file")
		out    = flag.String("out", "", "result file")
		hashes = flag.String("hashes", "", "file for execution hashes")
		replay = flag.String("replay", "", "replay file")
		show   = flag.Bool("show", false, "print results of every run")
		list   = flag.Bool("list", false, "list scenarios")
		sample = flag.Int("samples", 0, "keep this many sample histories")
		scen   = flag.String("scenario", "", "only this scenario")
		knownF = flag.String("known", "", "file of known findings")
	)
	flag.BoolVar(&steady, "steady", false, "no faults of the wall clock")
	flag.Parse()
	if *list {
		for _, s := range scenarios {
			fmt.Println(s.Prop, s.Name)
		}
		return
	}
	zerolog.SetGlobalLevel(zerolog.Disabled)
	debug.SetGCPercent(-1)
	runtime.MemProfileRate = 0
	mapShared(*shm)
	opsBuf = make([]Op, maxOps)
	setup()
	if *replay != "" {
		doReplay(*replay, *out)
		return
	}
	var l []*Scenario
	for _, s := range scenarios {
		if s.Prop == *prop && (*scen == "" || s.Name == *scen) {
			l = append(l, s)
		}
	}
	if len(l) == 0 {
		die("no scenario for %q", *prop)
	}
	tot := Totals{Probes: map[string]uint64{}, PerScenario: map[string]uint64{}, Known: map[string]uint64{}}
	known := loadKnown(*knownF, *prop)
	t0 := runtime.AxRealNano()
	var hs []uint64
	var samples []result
	finish := func(code int, v *result) {
		o := map[string]any{"totals": tot, "samples": samples, "violation": v, "next": sh.h[1] + *step}
		b, err := json.Marshal(o)
		if err != nil {
			die("%v", err)
		}
		if *out != "" {
			if err := os.WriteFile(*out, b, 0o600); err != nil {
				die("%v", err)
			}
		} else if !*show {
			fmt.Println(string(b))
		}
		if *hashes != "" {
			buf := make([]byte, 8*len(hs))
			for i, h := range hs {
				binary.LittleEndian.PutUint64(buf[8*i:], h)
			}
			if err := os.WriteFile(*hashes, buf, 0o600); err != nil {
				die("%v", err)
			}
		}
		os.Exit(code)
	}
	for n, k := uint64(0), *from; *count == 0 || n < *count; n, k = n+1, k+*step {
		if *budget > 0 && runtime.AxRealNano()-t0 > int64(*budget)*int64(time.Millisecond) {
			break
		}
		sc := pick(l, k)
		sh.h[2] = uint64(indexOf(sc))
		want := len(samples) < *sample
		res := runOne(sc, *seed, k, false, nil, nil, &tot, want)
		if *show {
			fmt.Printf("%d %s %x live=%d w=%d s=%d sim=%d %s %s\n", k, sc.Name, res.Hash, res.Live, sh.w[0], sh.s[0], res.Time, res.Class, strings.SplitN(res.Msg, "\n", 2)[0])
		}
		if res.Hash != 0 {
			hs = append(hs, res.Hash)
		}
		if want {
			s := res
			if len(s.Trace) > 40 {
				s.Trace = append(s.Trace[:40:40], "...")
			}
			s.S, s.W = nil, nil
			samples = append(samples, s)
		}
		for _, f := range known {
			if res.Class == f.class && sc.Name == f.scenario && f.rx.MatchString(res.Msg) {
				tot.Known[f.what]++
				res.Class = ""
				break
			}
		}
		if res.Class != "" && !*show {
			setPhase(phViolation)
			finish(10, &res)
		}
		if res.Live != 0 {
			if *show {
				fmt.Println("recycle", res.Live)
			}
			finish(3, nil)
		}
		if n%64 == 63 || sc.Rare {
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 256<<20 {
				runtime.GC()
			}
		}
	}
	finish(0, nil)
}

func indexOf(s *Scenario) int {
	for i, x := range scenarios {
		if x == s {
			return i
		}
	}
	return -1
}

type replayFile struct {
	Property string   `json:"property"`
	Scenario string   `json:"scenario"`
	Seed     uint64   `json:"seed"`
	K        uint64   `json:"k"`
	W        []uint32 `json:"w"`
	S        []uint32 `json:"s"`
	Class    string   `json:"class"`
}

func doReplay(path, out string) {
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	var f replayFile
	if err := json.Unmarshal(b, &f); err != nil {
		die("%v", err)
	}
	for i, s := range scenarios {
		if s.Name == f.Scenario {
			sh.h[2] = uint64(i)
			res := runOne(s, f.Seed, f.K, true, f.W, f.S, nil, true)
			b, _ := json.Marshal(res)
			if out != "" {
				if err := os.WriteFile(out, b, 0o600); err != nil {
					die("%v", err)
				}
			} else {
				fmt.Println(string(b))
			}
			if res.Class != "" {
				setPhase(phViolation)
				os.Exit(10)
			}
			os.Exit(0)
		}
	}
	die("no scenario %q", f.Scenario)
}

// seededRand stands in for the machine's random source.
type seededRand struct {
	s      uint64
	narrow bool // what is read differs from what was read before in one byte only
	at     int
	n      byte
	short  int  // at most so many bytes at once
	stream bool // the byte that differs is one of every twelve, whatever the size of the reads
	pos    int
}

//go:norace
func (s *seededRand) Read(p []byte) (int, error) {
	if s.short > 0 && len(p) > s.short {
		p = p[:s.short]
	}
	if s.narrow && s.stream && s.short == 0 {
		for i := range p {
			p[i] = byte(s.pos % 12)
			if s.pos%12 == s.at {
				s.n++
				p[i] = s.n
			}
			s.pos++
		}
		return len(p), nil
	}
	if s.narrow && len(p) > 0 {
		for i := range p {
			p[i] = byte(i)
		}
		s.n++
		p[s.at%len(p)] = s.n
		return len(p), nil
	}
	for i := range p {
		if i%8 == 0 {
			s.s += 0x9e3779b97f4a7c15
		}
		p[i] = byte(mix(s.s) >> (8 * (i % 8)))
	}
	return len(p), nil
}

var randSource seededRand

func setup() {
	rand.Reader = &randSource
}
