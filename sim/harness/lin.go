package main

// Linearizability (Wing and Gong, with Lowe's memoisation) of a history against a sequential model
// that may be nondeterministic. Operations that never returned may have taken effect or not.

type linKey[S comparable] struct {
	m0, m1 uint64
	s      S
}

// Lin tells whether ops has a linearization: step offers (through emit) every state the model may be
// in after o took effect in state s with o's results; for an operation that never returned, results are free.
func Lin[S comparable](ops []Op, init S, step func(s S, o *Op, emit func(S))) bool {
	n := len(ops)
	if n > 128 {
		panic("harness: history too long")
	}
	must := 0
	for i := range ops {
		if ops[i].Ret != 0 {
			must++
		}
	}
	seen := map[linKey[S]]bool{}
	var rec func(m0, m1 uint64, s S, left int) bool
	rec = func(m0, m1 uint64, s S, left int) bool {
		if left == 0 {
			return true
		}
		k := linKey[S]{m0, m1, s}
		if seen[k] {
			return false
		}
		seen[k] = true
		// the earliest return among those left bounds what may come next
		min := int32(1<<31 - 1)
		for i := range ops {
			if !has(m0, m1, i) && ops[i].Ret != 0 && ops[i].Ret < min {
				min = ops[i].Ret
			}
		}
		for i := range ops {
			if has(m0, m1, i) || ops[i].Inv > min {
				continue
			}
			n0, n1 := m0, m1
			if i < 64 {
				n0 |= 1 << i
			} else {
				n1 |= 1 << (i - 64)
			}
			l := left
			if ops[i].Ret != 0 {
				l--
			}
			ok := false
			step(s, &ops[i], func(t S) {
				if !ok && rec(n0, n1, t, l) {
					ok = true
				}
			})
			if ok {
				return true
			}
		}
		return false
	}
	return rec(0, 0, init, must)
}

func has(m0, m1 uint64, i int) bool {
	if i < 64 {
		return m0>>i&1 == 1
	}
	return m1>>(i-64)&1 == 1
}
