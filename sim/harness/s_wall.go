package main

import (
	"runtime"
)

// C45: every wait of the library is for elapsed time. The scenarios of the properties about time
// run once more, under a wall clock that somebody sets, or that runs fast or slow. What the
// library may see of it is time.Now; timers and the monotonic part of a time stay right.

var wallScenarios = []string{
	"chunk-timely", "shardchunk-timely", "guava-timed", "guava-unload-timed", "guava-max-timed", "request-ttl", "request-timeout",
	"response-timed", "wait-timed", "holder-timed", "uniq-ttl", "net-timeout",
}

func wallConfig(r *R, c *runtime.AxConfig) {
	sec := 1000 * ms
	every := []int64{ms / 2, ms, 7 * ms, 50 * ms, 333 * ms, sec, 10 * sec, 3600 * sec}
	amp := []int64{ms, 40 * ms, sec, 60 * sec, 3600 * sec, 24 * 3600 * sec, 3650 * 24 * 3600 * sec}
	drift := []int64{-2000, -1000, -500, -10, 10, 500, 1000, 9000}
	c.WallEvery = every[r.W.N(len(every))]
	kind := r.W.W(4, 2, 1)
	if kind != 1 {
		c.WallAmp = amp[r.W.N(len(amp))]
	}
	if kind != 0 {
		c.WallDrift = drift[r.W.N(len(drift))]
	}
	r.Cfg("the wall clock: every %v to within %v, drift %d/1000", c.WallEvery, c.WallAmp, c.WallDrift)
	if steady {
		c.WallEvery, c.WallAmp, c.WallDrift = 0, 0, 0
	}
}

// steady keeps the wall clock right: a run that fails then too does not fail because of the clock.
var steady bool

func init() {
	want := map[string]bool{}
	for _, n := range wallScenarios {
		want[n] = true
	}
	for _, s := range scenarios {
		if want[s.Name] {
			w := *s
			w.Prop, w.Name, w.Weight, w.Wall, w.Scale = "C45", "wall-"+s.Name, 1, true, false
			reg(&w)
			delete(want, s.Name)
		}
	}
	if len(want) > 0 {
		panic("s_wall.go: a scenario is missing")
	}
}
