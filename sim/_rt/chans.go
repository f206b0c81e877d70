package zzsim

import (
	"fmt"
	"iter"
	"sort"
	"unsafe"
)

// Unbuffered channels are real channels of capacity one, with the rendezvous
// done here. A registry tells them from real one-slot channels.
type unbuf struct {
	key     uintptr
	ack     chan struct{} // carries the receive-before-send-completes edge
	waiting int           // receivers blocked
	pending bool          // a value has been deposited and not yet taken
	tickets int64         // values deposited
	taken   int64         // values taken
}

const regSize = 1 << 14

var (
	registry [regSize]*unbuf
	nreg     int
	keep     [regSize]any
)

func lookup(key uintptr) *unbuf {
	for i := (key >> 4) % regSize; registry[i] != nil; i = (i + 1) % regSize {
		if registry[i].key == key {
			return registry[i]
		}
	}
	return nil
}

func register(key uintptr, ch any) {
	if nreg > regSize/2 {
		finish("noprogress", 2, "too many channels")
	}
	i := (key >> 4) % regSize
	for registry[i] != nil {
		i = (i + 1) % regSize
	}
	registry[i] = &unbuf{key: key, ack: make(chan struct{}, 1)}
	keep[i] = ch
	nreg++
}

func chanKey[C ~chan E | ~<-chan E | ~chan<- E, E any](c C) uintptr {
	return *(*uintptr)(unsafe.Pointer(&c))
}

func MakeChan[C ~chan E, E any](n int) C {
	if n == 0 {
		c := make(C, 1)
		register(chanKey[C, E](c), c)
		return c
	}
	return make(C, n)
}

func blockForever() {
	for {
		block(0, 0)
	}
}

// sendReady reports whether a send would proceed at once.
func sendReady(u *unbuf, length, capacity int) bool {
	if u != nil {
		return !u.pending && u.waiting > 0
	}
	return length < capacity
}

// Sender returns a function that sends on c. (The function takes the value so
// that an untyped or assignable argument converts implicitly.)
func Sender[C ~chan E | ~chan<- E, E any](c C) func(E) {
	return func(v E) { send(c, v) }
}

//go:norace
func send[C ~chan E | ~chan<- E, E any](c C, v E) {
	Point()
	if c == nil {
		blockForever()
	}
	key := chanKey[C, E](c)
	u := lookup(key)
	if u == nil {
		for {
			select {
			case c <- v: // panics if closed
				wake(key)
				return
			default:
			}
			cur.keys[0] = key
			block(0, 1)
		}
	}
	for u.pending {
		cur.keys[0] = key
		block(0, 1)
	}
	deposit(u, func() { c <- v })
}

// deposit completes an unbuffered send.
func deposit(u *unbuf, put func()) {
	put()
	u.pending = true
	u.tickets++
	mine := u.tickets
	wake(u.key)
	for u.taken < mine {
		cur.keys[0] = u.key
		block(0, 1)
	}
	select {
	case <-u.ack:
	default:
	}
}

func took(u *unbuf, ok bool) {
	if u == nil || !ok {
		return
	}
	u.pending = false
	u.taken++
	select {
	case u.ack <- struct{}{}:
	default:
	}
}

func Recv[C ~chan E | ~<-chan E, E any](c C) E {
	v, _ := Recv2(c)
	return v
}

//go:norace
func Recv2[C ~chan E | ~<-chan E, E any](c C) (E, bool) {
	Point()
	if c == nil {
		blockForever()
	}
	key := chanKey[C, E](c)
	u := lookup(key)
	for {
		select {
		case v, ok := <-c:
			took(u, ok)
			wake(key)
			return v, ok
		default:
		}
		if u != nil {
			u.waiting++
			wake(key) // a select waiting to send
		}
		cur.keys[0] = key
		block(0, 1)
		if u != nil {
			u.waiting--
		}
	}
}

//go:norace
func Close[C ~chan E | ~chan<- E, E any](c C) {
	Point()
	close(c)
	key := chanKey[C, E](c)
	if nclosed < len(closedKeys) {
		closedKeys[nclosed] = key
		keepClosed[nclosed] = c
		nclosed++
	}
	wake(key)
}

func ChanLen[C ~chan E | ~<-chan E | ~chan<- E, E any](c C) int {
	Point()
	if lookup(chanKey[C, E](c)) != nil {
		return 0
	}
	return len(c)
}

func ChanCap[C ~chan E | ~<-chan E | ~chan<- E, E any](c C) int {
	if lookup(chanKey[C, E](c)) != nil {
		return 0
	}
	return cap(c)
}

func ChanSeq[C ~chan E | ~<-chan E, E any](c C) iter.Seq[E] {
	return func(yield func(E) bool) {
		for {
			v, ok := Recv2[C, E](c)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// A Case is one communication of a select statement.
type Case interface {
	ready() bool
	do() // only if ready
	chkey() uintptr
	recving() bool
}

type SendCaseT[E any] struct {
	key      uintptr
	put      func(E)
	len, cap func() int
	v        E
}

func SendCase[C ~chan E | ~chan<- E, E any](c C) *SendCaseT[E] {
	s := &SendCaseT[E]{}
	if c != nil {
		s.key = chanKey[C, E](c)
	}
	s.put = func(v E) { c <- v }
	s.len = func() int { return len(c) }
	s.cap = func() int { return cap(c) }
	return s
}

func (s *SendCaseT[E]) Set(v E)        { s.v = v }
func (s *SendCaseT[E]) chkey() uintptr { return s.key }
func (s *SendCaseT[E]) recving() bool  { return false }
func (s *SendCaseT[E]) ready() bool {
	return s.key != 0 && sendReady(lookup(s.key), s.len(), s.cap())
}
func (s *SendCaseT[E]) do() {
	if u := lookup(s.key); u != nil {
		deposit(u, func() { s.put(s.v) })
		return
	}
	s.put(s.v)
	wake(s.key)
}

type RecvCaseT[E any] struct {
	key uintptr
	try func() (E, bool, bool)
	Val E
	Ok  bool
	got bool
}

func RecvCase[C ~chan E | ~<-chan E, E any](c C) *RecvCaseT[E] {
	r := &RecvCaseT[E]{}
	if c != nil {
		r.key = chanKey[C, E](c)
	}
	r.try = func() (v E, ok, done bool) {
		select {
		case v, ok = <-c:
			return v, ok, true
		default:
			return v, false, false
		}
	}
	return r
}

func (r *RecvCaseT[E]) chkey() uintptr { return r.key }
func (r *RecvCaseT[E]) recving() bool  { return true }
func (r *RecvCaseT[E]) ready() bool {
	if r.key == 0 {
		return false
	}
	if r.got {
		return true
	}
	// Only the chosen case may receive, so look without taking: a real
	// channel's length says it unless it is closed.
	return chanReadable(r.key)
}

func (r *RecvCaseT[E]) do() {
	r.Val, r.Ok, _ = r.try()
	took(lookup(r.key), r.Ok)
	wake(r.key)
}

func chanReadable(key uintptr) bool {
	c := *(*chan struct{})(unsafe.Pointer(&key))
	if len(c) > 0 {
		return true
	}
	return closed(key)
}

// closedKeys holds the channels closed so far that a select asked about.
func closed(key uintptr) bool {
	for i := 0; i < nclosed; i++ {
		if closedKeys[i] == key {
			return true
		}
	}
	return false
}

var (
	closedKeys [1 << 12]uintptr
	keepClosed [1 << 12]any // so that the keys are not reused
	nclosed    int
)

// Select returns the index of the communication that proceeded, or -1.
func Select(hasDefault bool, cases ...Case) int {
	Point()
	for {
		n := 0
		for _, c := range cases {
			if c.ready() {
				n++
			}
		}
		if n > 0 {
			k := 0
			if n > 1 {
				k = seamRNG.Intn(n)
			}
			for i, c := range cases {
				if c.ready() {
					if k == 0 {
						c.do()
						return i
					}
					k--
				}
			}
		}
		if hasDefault {
			return -1
		}
		nk := 0
		for _, c := range cases {
			if c.chkey() == 0 {
				continue
			}
			if c.recving() {
				if u := lookup(c.chkey()); u != nil {
					u.waiting++
					wake(u.key)
				}
			}
			if nk < len(cur.keys) {
				cur.keys[nk] = c.chkey()
				nk++
			}
		}
		block(0, nk)
		for _, c := range cases {
			if c.chkey() != 0 && c.recving() {
				if u := lookup(c.chkey()); u != nil {
					u.waiting--
				}
			}
		}
	}
}

// MapSeq iterates over m in an order chosen by the seed.
func MapSeq[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		names := make([]string, len(keys))
		for i, k := range keys {
			names[i] = fmt.Sprint(k)
		}
		sort.Sort(&byName[K]{keys, names})
		for i := len(keys) - 1; i > 0; i-- {
			j := seamRNG.Intn(i + 1)
			keys[i], keys[j] = keys[j], keys[i]
		}
		for _, k := range keys {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

type byName[K any] struct {
	keys  []K
	names []string
}

func (b *byName[K]) Len() int           { return len(b.keys) }
func (b *byName[K]) Less(i, j int) bool { return b.names[i] < b.names[j] }
func (b *byName[K]) Swap(i, j int) {
	b.keys[i], b.keys[j] = b.keys[j], b.keys[i]
	b.names[i], b.names[j] = b.names[j], b.names[i]
}

var seamRNG = NewRNG(1)

// SeedSeams seeds the choices made outside the scheduler (map iteration,
// select, pools, global random numbers).
func SeedSeams(seed uint64) { seamRNG = NewRNG(seed ^ 0x5ea5) }

func SeamRNG() *RNG { return &seamRNG }
