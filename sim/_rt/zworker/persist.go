package main

import (
	"fmt"

	"robpike.io/ivy/value/persist"
	"robpike.io/ivy/zzsim"
	"robpike.io/ivy/zzsim/zsync"
)

// A POp is an operation on persistent slices. T and S number the transients
// and the published slices.
type POp struct {
	Op  string  `json:"op"`
	T   int     `json:"t,omitempty"`
	S   int     `json:"s,omitempty"`
	I   int     `json:"i,omitempty"`
	J   int     `json:"j,omitempty"`
	N   int     `json:"n,omitempty"`
	V   int     `json:"v,omitempty"`
	Par [][]POp `json:"par,omitempty"` // for "par": what each task does
}

type cell struct {
	v     int
	known bool
}

type tmodel struct {
	t     *persist.TransientSlice[int]
	cells []cell
}

type smodel struct {
	s    *persist.Slice[int]
	want []int
}

var (
	transients []*tmodel
	published  []*smodel
)

func fail(format string, args ...any) {
	violation = fmt.Sprintf(format, args...)
	zzsim.Exit(0)
}

func runPersist(ops []POp) {
	for step, op := range ops {
		what := fmt.Sprintf("step %d (%s)", step, op.Op)
		if op.Op == "par" {
			runPar(op.Par, what)
		} else {
			pop(op, what, true)
		}
		// Nothing published has changed, and every transient holds what was
		// put there.
		for i, s := range published {
			checkPublished(i, s, what)
		}
		for i, t := range transients {
			checkTransient(i, t, what)
		}
	}
}

func checkPublished(i int, s *smodel, what string) {
	checks++
	if s.s.Len() != len(s.want) {
		fail("%s: published slice %d has length %d, want %d", what, i, s.s.Len(), len(s.want))
	}
	n := 0
	for k, v := range s.s.All() {
		if k != n || k >= len(s.want) || v != s.want[k] {
			fail("%s: published slice %d: element %d is %d (iterating at %d), want %v", what, i, k, v, n, at(s.want, k))
		}
		n++
	}
	if n != len(s.want) {
		fail("%s: published slice %d: iteration gave %d elements, want %d", what, i, n, len(s.want))
	}
	for k, w := range s.want {
		if v := s.s.At(k); v != w {
			fail("%s: published slice %d: At(%d) is %d, want %d", what, i, k, v, w)
		}
	}
}

func at(w []int, k int) any {
	if k < len(w) {
		return w[k]
	}
	return "none"
}

func checkTransient(i int, t *tmodel, what string) {
	checks++
	if t.t.Len() != len(t.cells) {
		fail("%s: transient %d has length %d, want %d", what, i, t.t.Len(), len(t.cells))
	}
	n := 0
	for k, v := range t.t.All() {
		if k != n || k >= len(t.cells) || t.cells[k].known && t.cells[k].v != v {
			fail("%s: transient %d: element %d is %d, want %v", what, i, k, v, t.cells[min(k, len(t.cells)-1)])
		}
		n++
	}
	if n != len(t.cells) {
		fail("%s: transient %d: iteration gave %d elements, want %d", what, i, n, len(t.cells))
	}
	for k, c := range t.cells {
		if c.known {
			if v := t.t.At(k); v != c.v {
				fail("%s: transient %d: At(%d) is %d, want %d", what, i, k, v, c.v)
			}
		}
	}
}

// pop does one operation. With alone false it runs beside others, and only
// operations that are allowed to do so are given.
func pop(op POp, what string, alone bool) {
	var t *tmodel
	if len(transients) > 0 {
		t = transients[op.T%len(transients)]
	}
	var s *smodel
	if len(published) > 0 {
		s = published[op.S%len(published)]
	}
	switch op.Op {
	case "empty":
		transients = append(transients, &tmodel{t: new(persist.Slice[int]).Transient()})
	case "transient":
		if s == nil {
			return
		}
		m := &tmodel{t: s.s.Transient()}
		for _, v := range s.want {
			m.cells = append(m.cells, cell{v, true})
		}
		transients = append(transients, m)
	case "drop":
		if len(transients) > 1 {
			i := op.T % len(transients)
			transients = append(transients[:i], transients[i+1:]...)
		}
	case "append":
		if t == nil {
			return
		}
		var vs []int
		for i := 0; i < op.N; i++ {
			vs = append(vs, op.V+i)
			t.cells = append(t.cells, cell{op.V + i, true})
		}
		t.t.Append(vs...)
		for i := range vs {
			vs[i] = -12345 // the caller may reuse its slice
		}
	case "set":
		if t == nil || len(t.cells) == 0 {
			return
		}
		if !alone && op.I >= len(t.cells) {
			return // keep the tasks' elements distinct
		}
		i := op.I % len(t.cells)
		t.t.Set(i, op.V)
		t.cells[i] = cell{op.V, true}
	case "get":
		if t == nil || len(t.cells) == 0 {
			return
		}
		if !alone && op.I >= len(t.cells) {
			return
		}
		i := op.I % len(t.cells)
		v := t.t.At(i)
		checks++
		if c := t.cells[i]; c.known && c.v != v {
			fail("%s: transient %d: At(%d) is %d, want %d", what, op.T, i, v, c.v)
		}
	case "tlen":
		if t == nil {
			return
		}
		if n := t.t.Len(); n != len(t.cells) {
			fail("%s: transient %d: length %d, want %d", what, op.T, n, len(t.cells))
		}
	case "resize":
		if t == nil {
			return
		}
		t.t.Resize(op.N)
		for len(t.cells) < op.N {
			t.cells = append(t.cells, cell{})
		}
		t.cells = append([]cell(nil), t.cells[:op.N]...)
	case "persist":
		if t == nil {
			return
		}
		m := &smodel{s: t.t.Persist()}
		for i, v := range m.s.All() {
			if i >= len(t.cells) || t.cells[i].known && t.cells[i].v != v {
				fail("%s: slice published from transient %d: element %d is %d, want %v", what, op.T, i, v, t.cells[min(i, len(t.cells)-1)])
			}
			m.want = append(m.want, v)
			// What an unset element holds is not specified, but having been
			// published it is settled.
			t.cells[i] = cell{v, true}
		}
		if len(m.want) != len(t.cells) {
			fail("%s: slice published from transient %d has %d elements, want %d", what, op.T, len(m.want), len(t.cells))
		}
		published = append(published, m)
	case "read":
		if s != nil {
			checkPublished(op.S, s, what)
		}
	case "slice":
		if s == nil || len(s.want) == 0 {
			return
		}
		lo := op.I % (len(s.want) + 1)
		hi := lo + op.J%(len(s.want)-lo+1)
		n := lo
		for k, v := range s.s.Slice(lo, hi) {
			checks++
			if k != n || v != s.want[k] {
				fail("%s: published slice %d: Slice(%d, %d) gave %d at %d, want %d", what, op.S, lo, hi, v, k, s.want[k])
			}
			n++
			if op.N > 0 && n-lo == op.N {
				return
			}
		}
		if n != hi {
			fail("%s: published slice %d: Slice(%d, %d) stopped at %d", what, op.S, lo, hi, n)
		}
	}
}

func runPar(par [][]POp, what string) {
	var wg zsync.WaitGroup
	for i, ops := range par {
		wg.Add(1)
		zzsim.Go(func() {
			defer wg.Done()
			for j, op := range ops {
				pop(op, fmt.Sprintf("%s task %d.%d (%s)", what, i, j, op.Op), false)
			}
		})
	}
	wg.Wait()
}
