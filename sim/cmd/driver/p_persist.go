package main

import "fmt"

// C03: persistent slices.

func init() {
	properties["C03"] = &Property{
		gen: func(r *RNG) *Case { return genPersist(r, false) }, check: checkC03, quick: 50, thorough: 1200,
		rule: "a case is a sequence of append, set, resize, publish, derive and read operations on persistent slices, including batches run by concurrent tasks under a seeded schedule, checked against plain Go slices after every step and inside every task; it is non-trivial if a batch ran concurrently; distinct by the schedule's interleaving hash",
		real: []string{"value/persist"},
		stub: []string{"the callers (simulated tasks)", "goroutine scheduler (locks and atomics wrap the real ones)"},
	}
}

// sizes near which the tree changes shape.
func pSize(r *RNG) int {
	switch r.n(6) {
	case 0:
		return r.n(5)
	case 1:
		return 16*r.n(20) + r.rng(0, 2)
	case 2:
		return []int{15, 16, 17, 31, 32, 33, 127, 128, 129, 255, 256, 257, 271, 272, 273}[r.n(15)]
	case 3:
		return r.n(40)
	case 4:
		if r.p(1, 6) {
			return []int{2047, 2048, 2049, 4095, 4096, 4097, 4112}[r.n(7)]
		}
		return r.n(300)
	default:
		return r.n(100)
	}
}

func genPersist(r *RNG, race bool) *Case {
	c := &Case{Kind: "par", Procs: 4, Sched: genSched(r)}
	next := 1000
	val := func() int { next += 1000; return next }
	// Lengths, so that concurrent tasks can be given distinct elements.
	var tl []int
	var sl []int
	add := func(op POp) { c.Persist = append(c.Persist, op) }
	add(POp{Op: "empty"})
	tl = append(tl, 0)
	n := r.rng(4, 18)
	for i := 0; i < n; i++ {
		t := r.n(len(tl))
		switch r.n(12) {
		case 0, 1, 2:
			k := pSize(r)
			if tl[t]+k > 6000 {
				k = r.n(20)
			}
			add(POp{Op: "append", T: t, N: k, V: val()})
			tl[t] += k
		case 3:
			add(POp{Op: "set", T: t, I: r.n(5000), V: val()})
		case 4, 5:
			add(POp{Op: "persist", T: t})
			sl = append(sl, tl[t])
		case 6:
			if len(sl) > 0 && len(tl) < 6 {
				s := r.n(len(sl))
				add(POp{Op: "transient", S: s})
				tl = append(tl, sl[s])
			}
		case 7:
			var k int
			switch r.n(3) {
			case 0:
				k = pSize(r)
			case 1:
				k = max(0, tl[t]+r.rng(-40, 40))
			default:
				k = max(0, tl[t]+r.rng(-3, 3))
			}
			add(POp{Op: "resize", T: t, N: k})
			tl[t] = k
		case 8:
			if len(sl) > 0 {
				add(POp{Op: "slice", S: r.n(len(sl)), I: r.n(5000), J: r.n(5000), N: r.n(3) * r.n(40)})
			}
		default:
			add(genPar(r, tl, sl, val, race))
		}
	}
	add(POp{Op: "append", T: 0, N: pSize(r), V: val()})
	add(POp{Op: "persist", T: 0})
	sl = append(sl, 0)
	add(genPar(r, tl, sl, val, race))
	add(POp{Op: "persist", T: 0})
	return c
}

// genPar writes a batch of tasks. Each element of a transient is touched by
// at most one of them.
func genPar(r *RNG, tl, sl []int, val func() int, race bool) POp {
	p := POp{Op: "par"}
	k := r.rng(2, 5)
	t := r.n(len(tl))
	own := r.n(len(sl) + 1)
	near := r.p(1, 2)
	base := 0
	if tl[t] > 40 && near {
		base = r.n(tl[t] - 20)
	}
	for i := 0; i < k; i++ {
		var ops []POp
		for j := r.rng(1, 6); j > 0; j-- {
			switch {
			case tl[t] > 0 && r.p(3, 4):
				// Elements congruent to i belong to task i.
				span := tl[t]
				if near {
					span = min(span-base, 40)
				}
				x := base + r.n(span)
				x = x - x%k + i
				if x >= tl[t] {
					continue
				}
				op := POp{Op: "set", T: t, I: x, V: val()}
				if r.p(1, 5) && !race {
					op.Op = "get"
				}
				ops = append(ops, op)
			case len(sl) > 0 && r.p(1, 2):
				ops = append(ops, POp{Op: "read", S: own})
			case len(sl) > 0:
				ops = append(ops, POp{Op: "slice", S: r.n(len(sl)), I: r.n(300), J: r.n(300)})
			default:
				ops = append(ops, POp{Op: "tlen", T: t})
			}
		}
		p.Par = append(p.Par, ops)
	}
	return p
}

func checkC03(e *Env, c *Case) *Violation {
	sched := c.Sched
	for k := 0; k < 4; k++ {
		s := &Spec{Kind: "persist", Persist: c.Persist, Sched: sched, Clock: c.Clock}
		s.Sched.Seed += uint64(k) * 104729
		r := e.run(s)
		if r == nil {
			return nil
		}
		if r.Stats.Tasks > 1 {
			e.nontrivial = true
			e.key = fmt.Sprint(r.Stats.Hash)
		}
		if r.Violation != "" {
			c.Sched.Seed = s.Sched.Seed
			v := viol("model", "%s", r.Violation)
			v.sched = r
			return v
		}
		if bad(r) {
			c.Sched.Seed = s.Sched.Seed
			return badViol("persistent slices", r)
		}
		if sched.Replay || sched.Strategy == "default" || sched.Strategy == "lifo" || sched.Strategy == "rr" {
			break
		}
	}
	return nil
}
