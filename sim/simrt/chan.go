package simrt

import (
	"reflect"
	"unsafe"
)

// Channels. The types of the code under test stay as they are: a channel made
// by it is a real one that is never used, and its address leads to the
// simulated one. Channels made elsewhere (time.After, context) are used
// natively. Each operation synchronises, for the race detector, what the real
// one does and nothing else.

type hchan struct {
	ptr    uintptr
	keep   interface{} // keeps the address taken
	gen    uint64      // last run it was used in
	fixed  bool        // made before any run
	cap    int
	buf    []interface{}
	slots  []*Edge
	sendx  int
	recvx  int
	closed bool
	mu     Edge // the edge from close to receive
	recvq  []*waiter
	sendq  []*waiter
}

type waiter struct {
	sel *selection
	i   int
	val interface{}
}

// selection is one task waiting for one of several operations.
type selection struct {
	mu     Edge
	done   bool
	i      int
	val    interface{}
	ok     bool
	closed bool // woken by a close while sending
}

const buckets = 1 << 12

var (
	chans  [buckets][]*hchan
	swept  uint64
	nchans int
)

func address[T any](c *T) uintptr { return *(*uintptr)(unsafe.Pointer(c)) }

//go:norace
func bucket(p uintptr) int { return int(mix(uint64(p)) % buckets) }

//go:norace
func find(p uintptr) *hchan {
	if p == 0 {
		return nil
	}
	for _, h := range chans[bucket(p)] {
		if h.ptr == p {
			h.gen = Generation
			return h
		}
	}
	return nil
}

//go:norace
func enter(h *hchan) {
	h.gen = Generation
	h.fixed = !running()
	b := bucket(h.ptr)
	chans[b] = append(chans[b], h)
	nchans++
	if nchans > 1000 && Generation > swept+500 {
		swept = Generation
		nchans = 0
		for b := range chans {
			var keep []*hchan
			for _, h := range chans[b] {
				if h.fixed || h.gen+500 > Generation {
					keep = append(keep, h)
				}
			}
			chans[b] = keep
			nchans += len(keep)
		}
	}
}

// MakeChan is make of a channel.
func MakeChan[C ~chan T, T any](n ...int) C {
	size := 0
	if len(n) > 0 {
		size = n[0]
	}
	if Free() {
		return make(C, size)
	}
	if size < 0 {
		panic("makechan: size out of range")
	}
	c := make(C, 1)
	h := &hchan{ptr: address(&c), keep: c, cap: size}
	for i := 0; i < size; i++ {
		h.buf = append(h.buf, nil)
		h.slots = append(h.slots, &Edge{})
	}
	enter(h)
	return c
}

// the number of values in the buffer
//
//go:norace
func (h *hchan) count() int { return h.sendx - h.recvx }

// next returns the first waiter that still waits.
//
//go:norace
func next1(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		if !w.sel.done {
			return w
		}
		*q = (*q)[1:]
	}
	return nil
}

// op is one case of a select.
type op struct {
	h    *hchan
	dir  int // 0 nothing, 1 send, 2 receive
	val  interface{}
	poll func() (bool, bool) // native channels: done, ok
}

// Case is one case of a select.
type Case interface {
	op() *op
	native() reflect.SelectCase
	got(v reflect.Value, ok bool)
	set(v interface{}, ok bool)
}

//go:norace
func (h *hchan) ready(o *op) bool {
	switch o.dir {
	case 1:
		return h.closed || next1(&h.recvq) != nil || h.count() < h.cap
	case 2:
		return h.closed || next1(&h.sendq) != nil || h.count() > 0
	}
	return false
}

//go:norace
func (h *hchan) push(v interface{}) *Edge {
	i := h.sendx % h.cap
	h.buf[i] = v
	h.sendx++
	return h.slots[i]
}

//go:norace
func (h *hchan) pop() (interface{}, *Edge) {
	i := h.recvx % h.cap
	v := h.buf[i]
	h.buf[i] = nil
	h.recvx++
	return v, h.slots[i]
}

//go:norace
func (w *waiter) wake(v interface{}, ok, closed bool) {
	w.sel.done = true
	w.sel.i = w.i
	w.sel.val, w.sel.ok, w.sel.closed = v, ok, closed
	Progress()
}

//go:norace
func (w *waiter) value() interface{} { return w.val }

//go:norace
func (h *hchan) isClosed() bool { return h.closed }

//go:norace
func (h *hchan) sender() *waiter { return next1(&h.sendq) }

//go:norace
func (h *hchan) receiver() *waiter { return next1(&h.recvq) }

//go:norace
func (h *hchan) size() int { return h.cap }

// perform carries out an operation that is ready.
//
//go:norace
func (h *hchan) perform(o *op) (v interface{}, ok bool) {
	Progress()
	if o.dir == 1 {
		if h.isClosed() {
			panic("send on closed channel")
		}
		if w := h.receiver(); w != nil {
			w.sel.mu.Both()
			w.wake(o.val, true, false)
			return nil, true
		}
		h.push(o.val).Both()
		return nil, true
	}
	if h.count() > 0 {
		v, m := h.pop()
		m.Both()
		if w := h.sender(); w != nil {
			// as the real one: the value of the first waiting sender takes
			// the slot that got free
			w.sel.mu.Both()
			h.push(w.value()).Both()
			w.wake(nil, true, false)
		}
		return v, true
	}
	if w := h.sender(); w != nil {
		w.sel.mu.Both()
		v := w.value()
		w.wake(nil, true, false)
		return v, true
	}
	h.mu.Both()
	return nil, false
}

//go:norace
func (h *hchan) enqueue(o *op, w *waiter) {
	if o.dir == 1 {
		h.sendq = append(h.sendq, w)
	} else {
		h.recvq = append(h.recvq, w)
	}
}

// drop takes a finished selection out of the queues it still is in.
//
//go:norace
func (h *hchan) drop(s *selection) {
	for _, q := range []*[]*waiter{&h.sendq, &h.recvq} {
		n := 0
		for _, w := range *q {
			if w.sel != s {
				(*q)[n] = w
				n++
			}
		}
		*q = (*q)[:n]
	}
}

//go:norace
func drawOne(n int) int {
	if n < 2 || schedDraw == nil {
		return 0
	}
	return int(schedDraw(uint64(n)))
}

// Select carries out one of the cases and returns its number, or -1.
func Select(hasDefault bool, cases ...Case) int {
	if Free() {
		var rs []reflect.SelectCase
		for _, c := range cases {
			rs = append(rs, c.native())
		}
		if hasDefault {
			rs = append(rs, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(rs)
		if i == len(cases) {
			return -1
		}
		cases[i].got(v, ok)
		return i
	}
	return sel(hasDefault, cases)
}

// scan carries out an operation that is ready and returns its number, or -1.
//
//go:norace
func scan(ops []*op, cases []Case) int {
	n := 0
	for i, o := range ops {
		if o.h != nil && o.h.ready(o) {
			n++
		} else if o.poll != nil {
			// a native one is taken at once if it is ready
			if done, ok := o.poll(); done {
				cases[i].set(nil, ok)
				return i
			}
		}
	}
	if n == 0 {
		return -1
	}
	k := drawOne(n)
	for i, o := range ops {
		if o.h != nil && o.h.ready(o) {
			if k == 0 {
				v, ok := o.h.perform(o)
				cases[i].set(v, ok)
				return i
			}
			k--
		}
	}
	return -1
}

//go:norace
func sel(hasDefault bool, cases []Case) int {
	Yield()
	ops := make([]*op, len(cases))
	native := false
	for i, c := range cases {
		ops[i] = c.op()
		if ops[i].poll != nil {
			native = true
		}
	}
	if i := scan(ops, cases); i >= 0 || hasDefault {
		return i
	}
	s := &selection{}
	s.mu.Both()
	for i, o := range ops {
		if o.h != nil {
			o.h.enqueue(o, &waiter{s, i, o.val})
		}
	}
	outside := -1
	for !s.done {
		if !native {
			Block("channel")
			continue
		}
		BlockOutside()
		for i, o := range ops {
			if o.poll == nil || s.done {
				continue
			}
			if done, ok := o.poll(); done {
				cases[i].set(nil, ok)
				s.done, outside = true, i
			}
		}
	}
	s.mu.Both()
	for _, o := range ops {
		if o.h != nil {
			o.h.drop(s)
		}
	}
	if outside >= 0 {
		return outside
	}
	if s.closed {
		panic("send on closed channel")
	}
	cases[s.i].set(s.val, s.ok)
	return s.i
}

// Forever blocks.
func Forever() string {
	Select(false)
	return "unreachable"
}

// RC is a receive case.
type RC[T any] struct {
	c  <-chan T
	V  T
	OK bool
}

type box[T any] struct{ v T }

func (r *RC[T]) op() *op {
	if r.c == nil {
		return &op{}
	}
	if h := find(address(&r.c)); h != nil {
		return &op{h: h, dir: 2}
	}
	return &op{poll: func() (bool, bool) {
		select {
		case v, ok := <-r.c:
			r.V, r.OK = v, ok
			return true, ok
		default:
			return false, false
		}
	}}
}

func (r *RC[T]) set(v interface{}, ok bool) {
	r.OK = ok
	if b, is := v.(*box[T]); is {
		r.V = b.v
	}
}

func (r *RC[T]) native() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(r.c)}
}

func (r *RC[T]) got(v reflect.Value, ok bool) {
	r.OK = ok
	if ok {
		reflect.ValueOf(&r.V).Elem().Set(v)
	}
}

// RecvCase is a case that receives.
func RecvCase[T any](c <-chan T) *RC[T] { return &RC[T]{c: c} }

// SC is a send case.
type SC[T any] struct {
	c chan<- T
	v T
}

func (s *SC[T]) op() *op {
	if s.c == nil {
		return &op{}
	}
	if h := find(address(&s.c)); h != nil {
		return &op{h: h, dir: 1, val: &box[T]{s.v}}
	}
	return &op{poll: func() (bool, bool) {
		select {
		case s.c <- s.v:
			return true, true
		default:
			return false, false
		}
	}}
}

func (s *SC[T]) set(interface{}, bool) {}

func (s *SC[T]) native() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(s.c), Send: reflect.ValueOf(&s.v).Elem()}
}

func (s *SC[T]) got(reflect.Value, bool) {}

// SendCase is a case that sends.
func SendCase[T any](c chan<- T) func(T) *SC[T] {
	return func(v T) *SC[T] { return &SC[T]{c, v} }
}

// SendTo is a send statement.
func SendTo[T any](c chan<- T) func(T) {
	return func(v T) {
		if Free() {
			c <- v
			return
		}
		Select(false, &SC[T]{c, v})
	}
}

// Recv receives.
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// Recv2 receives and tells whether the channel was open.
func Recv2[T any](c <-chan T) (T, bool) {
	if Free() {
		v, ok := <-c
		return v, ok
	}
	r := &RC[T]{c: c}
	Select(false, r)
	return r.V, r.OK
}

// Close closes a channel.
func Close[T any](c chan<- T) {
	if h := find(address(&c)); h != nil {
		h.close()
		return
	}
	close(c)
}

//go:norace
func (h *hchan) close() {
	Yield()
	if h.isClosed() {
		panic("close of closed channel")
	}
	h.mu.Both()
	h.closed = true
	Progress()
	for w := h.receiver(); w != nil; w = h.receiver() {
		w.sel.mu.Both()
		w.wake(nil, false, false)
	}
	for w := h.sender(); w != nil; w = h.sender() {
		w.sel.mu.Both()
		w.wake(nil, false, true)
	}
}

// ChanLen is len of a channel.
func ChanLen[C any](c C) int {
	if h := find(address(&c)); h != nil {
		return h.count()
	}
	return reflect.ValueOf(c).Len()
}

// ChanCap is cap of a channel.
func ChanCap[C any](c C) int {
	if h := find(address(&c)); h != nil {
		return h.size()
	}
	return reflect.ValueOf(c).Cap()
}

// CI iterates over a channel.
type CI[T any] struct{ c <-chan T }

// ChanIter starts an iteration.
func ChanIter[T any](c <-chan T) *CI[T] { return &CI[T]{c} }

// ChanIter2 starts an iteration and declares its variable.
func ChanIter2[T any](c <-chan T) (*CI[T], T) {
	var v T
	return &CI[T]{c}, v
}

// Next receives the next value.
func (i *CI[T]) Next(v *T) bool {
	x, ok := Recv2(i.c)
	if ok && v != nil {
		*v = x
	}
	return ok
}
