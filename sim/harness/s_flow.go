package main

import (
	"errors"

	"github.com/axgrid/axutils/flow"
)

// ---- C36: flow processor -------------------------------------------------------------

const (
	wProcess = iota // A: event; R: number of steps done, R2: error (0 none, 1 a condition's, else 2+step)
)

var flowNames = []string{"process"}

type fstate struct {
	ran []int16
	sum int64
}

type fstep struct {
	id   int
	kind int // 0 Do, 1 On, 2 OnEvent
	mod  int // On: true when (event+id) % mod != 0; Do: an error when (event+id) % mod == 0, mod 0 never
	late bool
}

type froute struct {
	on    bool // RouteOn: steps[0] is the condition of every step
	steps []fstep
}

type stepErr int

func (e stepErr) Error() string { return "step" }

func (st fstep) hit(ev int) bool { return st.mod > 0 && (ev+st.id)%st.mod == 0 }

func (st fstep) do(ev int, s *fstate) error {
	Pause()
	if st.hit(ev) {
		return stepErr(st.id)
	}
	s.ran = append(s.ran, int16(st.id))
	s.sum = s.sum*31 + int64(st.id)
	if st.late {
		Sleep(int64(1+ev%3) * ms)
	}
	return nil
}

// model runs the routes the plain way.
func model(rs []froute, ev int, s *fstate) int64 {
	for _, rt := range rs {
		for i, st := range rt.steps {
			if rt.on && i == 0 {
				continue
			}
			if rt.on {
				s.sum = s.sum*31 + int64(1000+rt.steps[0].id)
				if rt.steps[0].hit(ev) {
					return 1
				}
			}
			if st.kind != 0 {
				s.sum = s.sum*31 + int64(1000+st.id)
				if st.hit(ev) {
					return 1
				}
				continue
			}
			if st.hit(ev) {
				return int64(2 + st.id)
			}
			s.ran = append(s.ran, int16(st.id))
			s.sum = s.sum*31 + int64(st.id)
		}
	}
	return 0
}

// fevent is an event that knows its state, for the conditions that see the event only.
type fevent struct {
	n int
	s *fstate
}

func runFlow(r *R, big bool) {
	var rs []froute
	id := 1
	routes, steps := 5, 5
	if big {
		routes, steps = One(&r.W, 3, 20, 50, 100), One(&r.W, 3, 20, 50)
	}
	for i, n := 0, r.W.In(1, routes); i < n; i++ {
		rt := froute{on: r.W.Pct(40)}
		for j, m := 0, r.W.N(steps); j < m; j++ {
			st := fstep{id: id, kind: r.W.W(3, 1, 1), late: r.W.Pct(20) && (!big || r.W.Pct(5))}
			if st.kind > 0 || r.W.Pct(30) {
				st.mod = r.W.In(2, 9)
			}
			if rt.on {
				st.kind = 0
			}
			if rt.on && j == 0 {
				st.kind, st.mod = 2, r.W.In(2, 9)
			}
			if big && st.mod > 0 && r.W.Pct(97) {
				st.mod = 200 + st.id // hardly ever
			}
			rt.steps = append(rt.steps, st)
			id++
		}
		rs = append(rs, rt)
	}
	cond := func(st fstep, ev fevent) bool {
		Pause()
		ev.s.sum = ev.s.sum*31 + int64(1000+st.id)
		return !st.hit(ev.n)
	}
	b := flow.NewProcessor[fevent, *fstate]()
	for _, rt := range rs {
		if rt.on {
			var do []func(fevent, *fstate) error
			if len(rt.steps) > 0 {
				for _, st := range rt.steps[1:] {
					do = append(do, func(ev fevent, s *fstate) error { return st.do(ev.n, s) })
				}
			}
			b = b.RouteOn(func(ev fevent) bool { return cond(rt.steps[0], ev) }, do...)
			for i := range do {
				do[i] = nil // the list is the caller's
			}
			continue
		}
		b = b.Route(func(rb *flow.ProcessorRouterBuilder[fevent, *fstate]) {
			for _, st := range rt.steps {
				switch st.kind {
				case 0:
					rb = rb.Do(func(ev fevent, s *fstate) error { return st.do(ev.n, s) })
				case 1:
					rb = rb.On(func(ev fevent, s *fstate) bool {
						if s != ev.s {
							return false
						}
						return cond(st, ev)
					})
				case 2:
					rb = rb.OnEvent(func(ev fevent) bool { return cond(st, ev) })
				}
			}
		})
	}
	process := b.Build()
	r.Cfg("routes=%d steps=%d", len(rs), id-1)
	for c, n := 0, r.W.In(1, 4); c < n; c++ {
		var evs []int
		for j, m := 0, r.W.In(1, 4); j < m; j++ {
			evs = append(evs, r.W.N(60))
		}
		r.Go(func(c int) {
			for _, ev := range evs {
				var got, want fstate
				h := r.Inv(c, wProcess, int64(ev), 0, 0)
				err := process(fevent{ev, &got}, &got)
				e := int64(0)
				var se stepErr
				if errors.As(err, &se) {
					e = int64(2 + se)
				} else if err != nil {
					e = 1
				}
				r.Ret(h, int64(len(got.ran)), e)
				we := model(rs, ev, &want)
				switch {
				case len(got.ran) != len(want.ran) || got.sum != want.sum:
					r.failLater("order", "the steps and conditions that ran are not those of the routes, in their order, up to the first that failed")
				case e != we:
					r.failLater("error", "the error is not that of the first step or condition that failed")
				}
				if r.lclass != "" {
					return
				}
			}
		})
	}
	if !r.Wait(3600e9) {
		r.Fail("stuck", "processing did not end")
	}
}

func init() {
	reg(&Scenario{Prop: "C36", Name: "flow", Names: flowNames, Fn: func(r *R) { runFlow(r, false) }})
	reg(&Scenario{Prop: "C36", Name: "flow-big", Rare: true, Names: flowNames, Fn: func(r *R) { runFlow(r, true) }})
}
