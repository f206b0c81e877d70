package main

import (
	"sort"
	"time"
)

// minimize shrinks a failing case while it fails in the same way. First the
// program and the faults, searching again for a schedule that fails; then
// the schedule, as an explicit list of decisions.
func minimize(p *Property, c *Case, v *Violation) (*Case, *Violation) {
	deadline := time.Now().Add(60 * time.Second)
	best, bestV := c.clone(), v
	// fails checks one candidate, with some retries over schedules.
	fails := func(d *Case, tries int) *Violation {
		for i := 0; i < tries; i++ {
			if time.Now().After(deadline) {
				return nil
			}
			if i > 0 {
				d.Sched.Seed += 7919
			}
			e := &Env{race: p.race}
			w := p.try(e, d)
			if e.err == nil && w != nil && w.Class == v.Class {
				return w
			}
			if d.Sched.Replay || d.Sched.Strategy == "" || d.Sched.Strategy == "default" || d.Procs <= 1 && d.Kind != "par" {
				break
			}
		}
		return nil
	}
	try := func(mut func(d *Case) bool) bool {
		if time.Now().After(deadline) {
			return false
		}
		d := best.clone()
		if !mut(d) {
			return false
		}
		tries := 1
		if bestV.sched != nil {
			tries = 6
		}
		if w := fails(d, tries); w != nil {
			best, bestV = d, w
			return true
		}
		return false
	}
	// Does it need a schedule at all?
	try(func(d *Case) bool { d.Sched = Sched{Strategy: "default"}; return true })
	for pass := 0; pass < 3; pass++ {
		before := size(best)
		ddmin(func() int { return len(best.Lines) }, func(lo, hi int) bool {
			return try(func(d *Case) bool {
				d.Lines = append(append([]string{}, d.Lines[:lo]...), d.Lines[hi:]...)
				if len(d.Marks) > 0 {
					var m []int
					for _, x := range d.Marks {
						switch {
						case x < lo:
							m = append(m, x)
						case x >= hi:
							m = append(m, x-(hi-lo))
						}
					}
					d.Marks = m
				}
				return true
			})
		})
		ddmin(func() int { return len(best.Setup) }, func(lo, hi int) bool {
			return try(func(d *Case) bool {
				d.Setup = append(append([]string{}, d.Setup[:lo]...), d.Setup[hi:]...)
				return true
			})
		})
		ddmin(func() int { return len(best.Extra) }, func(lo, hi int) bool {
			return try(func(d *Case) bool {
				d.Extra = append(append([]string{}, d.Extra[:lo]...), d.Extra[hi:]...)
				return true
			})
		})
		ddmin(func() int { return len(best.Faults) }, func(lo, hi int) bool {
			return try(func(d *Case) bool {
				d.Faults = append(append([]Fault{}, d.Faults[:lo]...), d.Faults[hi:]...)
				return true
			})
		})
		ddmin(func() int { return len(best.Mobile) }, func(lo, hi int) bool {
			return try(func(d *Case) bool {
				d.Mobile = append(append([]MobileCall{}, d.Mobile[:lo]...), d.Mobile[hi:]...)
				return true
			})
		})
		ddmin(func() int { return len(best.Persist) }, func(lo, hi int) bool {
			return try(func(d *Case) bool {
				d.Persist = append(append([]POp{}, d.Persist[:lo]...), d.Persist[hi:]...)
				return true
			})
		})
		for i := range best.Persist {
			if i >= len(best.Persist) {
				break
			}
			ddmin(func() int { return len(best.Persist[i].Par) }, func(lo, hi int) bool {
				return try(func(d *Case) bool {
					q := &d.Persist[i]
					q.Par = append(append([][]POp{}, q.Par[:lo]...), q.Par[hi:]...)
					return true
				})
			})
			for j := 0; j < len(best.Persist[i].Par); j++ {
				ddmin(func() int { return len(best.Persist[i].Par[j]) }, func(lo, hi int) bool {
					return try(func(d *Case) bool {
						q := &d.Persist[i].Par[j]
						*q = append(append([]POp{}, (*q)[:lo]...), (*q)[hi:]...)
						return true
					})
				})
			}
		}
		ddmin(func() int { return len(best.Clock.Jumps) }, func(lo, hi int) bool {
			return try(func(d *Case) bool {
				d.Clock.Jumps = append(append([]Jump{}, d.Clock.Jumps[:lo]...), d.Clock.Jumps[hi:]...)
				return true
			})
		})
		ddmin(func() int { return len(best.Chunks) }, func(lo, hi int) bool {
			return try(func(d *Case) bool {
				d.Chunks = append(append([]int{}, d.Chunks[:lo]...), d.Chunks[hi:]...)
				return true
			})
		})
		var names []string
		for n := range best.Files {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			try(func(d *Case) bool { delete(d.Files, n); return true })
		}
		try(func(d *Case) bool { ok := d.Short != 0; d.Short = 0; return ok })
		try(func(d *Case) bool { ok := d.Procs > 2; d.Procs = 2; return ok })
		if size(best) == before {
			break
		}
	}
	// Now the schedule.
	if bestV.sched != nil && !best.Sched.Replay && best.Sched.Strategy != "default" {
		st := bestV.sched.Stats
		if try(func(d *Case) bool {
			d.Sched = Sched{Replay: true, Strategy: "replay", Pre: st.Pre, Forced: st.Forced}
			return true
		}) {
			ddmin(func() int { return len(best.Sched.Pre) }, func(lo, hi int) bool {
				return try(func(d *Case) bool {
					d.Sched.Pre = append(append([]Choice{}, d.Sched.Pre[:lo]...), d.Sched.Pre[hi:]...)
					return true
				})
			})
			ddmin(func() int { return len(best.Sched.Forced) }, func(lo, hi int) bool {
				return try(func(d *Case) bool {
					d.Sched.Forced = append(append([]Choice{}, d.Sched.Forced[:lo]...), d.Sched.Forced[hi:]...)
					return true
				})
			})
		}
	}
	// What replay will say.
	deadline = time.Now().Add(30 * time.Second)
	if w := fails(best, 1); w != nil {
		bestV = w
	}
	return best, bestV
}

func size(c *Case) int {
	n := len(c.Lines) + len(c.Setup) + len(c.Extra) + len(c.Faults) + len(c.Mobile) + len(c.Persist) + len(c.Files) + len(c.Chunks)
	for _, p := range c.Persist {
		for _, q := range p.Par {
			n += 1 + len(q)
		}
	}
	return n
}

// ddmin removes ranges of a list while remove(lo, hi) succeeds.
func ddmin(length func() int, remove func(lo, hi int) bool) {
	for w := (length() + 1) / 2; w >= 1; w /= 2 {
		for lo := 0; lo < length(); {
			hi := min(lo+w, length())
			if !remove(lo, hi) {
				lo = hi
			}
		}
	}
}
