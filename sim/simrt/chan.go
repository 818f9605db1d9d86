package simrt

import (
	"strconv"
	"unsafe"
)

type rtError string

func (e rtError) Error() string { return string(e) }
func (e rtError) RuntimeError() {}

type selState struct {
	done bool
	idx  int
}

type waiter[T any] struct {
	t      *Task
	sel    *selState
	idx    int
	val    T
	ok     bool
	closed bool // sender woken by close
}

type tchan[T any] struct {
	id      int
	cap     int
	closed  bool
	foreign bool
	buf     []T
	recvq   []*waiter[T]
	sendq   []*waiter[T]
	keep    any
	hb      *chanHB // see race.go
}

var madeOutside = map[unsafe.Pointer]any{}

//go:norace
func ptrOf[T any](c <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

// Made registers a channel created by instrumented code.
//
//go:norace
func Made[C ~chan T, T any](c C) C {
	p := ptrOf[T]((chan T)(c))
	s := S
	if s == nil {
		madeOutside[p] = c
		return c
	}
	s.chans[p] = &tchan[T]{id: s.nchan, cap: cap(c), keep: c}
	s.nchan++
	return c
}

//go:norace
func get[T any](s *Sim, c <-chan T) *tchan[T] {
	p := ptrOf(c)
	if p == nil {
		return nil
	}
	if x, ok := s.chans[p]; ok {
		return x.(*tchan[T])
	}
	_, made := madeOutside[p]
	x := &tchan[T]{id: s.nchan, cap: cap(c), keep: c, foreign: !made}
	if x.foreign {
		s.hasFor = true
	}
	s.nchan++
	s.chans[p] = x
	return x
}

// poll moves what a channel of uninstrumented code has to offer into the simulated channel.
//
//go:norace
func (x *tchan[T]) poll() {
	if !x.foreign || x.closed {
		return
	}
	c, ok := x.keep.(<-chan T)
	if !ok {
		return
	}
	for {
		select {
		case v, ok := <-c:
			x.hbForeign()
			if !ok {
				x.closed = true
				return
			}
			x.buf = append(x.buf, v)
			continue
		default:
		}
		return
	}
}

//go:norace
func (x *tchan[T]) pump(s *Sim) bool {
	x.poll()
	woke := false
	for len(x.recvq) > 0 && (len(x.buf) > 0 || x.closed) {
		w := x.popRecv()
		if w == nil {
			break
		}
		if len(x.buf) > 0 {
			w.val, w.ok = x.buf[0], true
			x.buf = x.buf[1:]
		}
		x.hbForeign()
		w.fire(s)
		woke = true
	}
	return woke
}

func (s *Sim) pollForeign() bool {
	if !s.hasFor {
		return false
	}
	woke := false
	for _, x := range s.chans {
		if p, ok := x.(interface{ pump(*Sim) bool }); ok {
			if f, ok := x.(interface{ isForeign() bool }); ok && f.isForeign() && p.pump(s) {
				woke = true
			}
		}
	}
	return woke
}

//go:norace
func (x *tchan[T]) isForeign() bool { return x.foreign }

//go:norace
func (w *waiter[T]) fire(s *Sim) {
	w.sel.done, w.sel.idx = true, w.idx
	s.ready(w.t)
}

//go:norace
func (x *tchan[T]) popRecv() *waiter[T] {
	for len(x.recvq) > 0 {
		w := x.recvq[0]
		x.recvq = x.recvq[1:]
		if !w.sel.done {
			return w
		}
	}
	return nil
}

//go:norace
func (x *tchan[T]) popSend() *waiter[T] {
	for len(x.sendq) > 0 {
		w := x.sendq[0]
		x.sendq = x.sendq[1:]
		if !w.sel.done {
			return w
		}
	}
	return nil
}

//go:norace
func live[T any](q []*waiter[T]) bool {
	for _, w := range q {
		if !w.sel.done {
			return true
		}
	}
	return false
}

//go:norace
func (x *tchan[T]) canSend() bool {
	return x.closed || len(x.buf) < x.cap || live(x.recvq)
}

//go:norace
func (x *tchan[T]) canRecv() bool {
	x.poll()
	return len(x.buf) > 0 || x.closed || live(x.sendq)
}

// trySend performs a send that canSend allowed; woke tells whether another task became runnable.
//
//go:norace
func (x *tchan[T]) doSend(s *Sim, v T) (woke bool) {
	if x.closed {
		panic(rtError("send on closed channel"))
	}
	if w := x.popRecv(); w != nil {
		w.val, w.ok = v, true
		if Race {
			x.hbSend(unsafe.Pointer(w))
		}
		w.fire(s)
		return true
	}
	x.buf = append(x.buf, v)
	if Race {
		x.hbSend(nil)
	}
	return false
}

//go:norace
func (x *tchan[T]) doRecv(s *Sim) (v T, ok, woke bool) {
	if len(x.buf) > 0 {
		v = x.buf[0]
		x.buf = x.buf[1:]
		w := x.popSend()
		if Race {
			x.hbRecv(unsafe.Pointer(w))
		}
		if w != nil {
			x.buf = append(x.buf, w.val)
			w.fire(s)
			woke = true
		}
		return v, true, woke
	}
	if w := x.popSend(); w != nil {
		v = w.val
		if Race {
			x.hbRecv(unsafe.Pointer(w))
		}
		w.fire(s)
		return v, true, true
	}
	if Race {
		x.hbClosed()
	}
	return v, false, false
}

func (s *Sim) chname(id int) string { return "ch" + strconv.Itoa(id) }

func forever(s *Sim, site string) {
	for {
		s.block("blocked forever (nil channel or empty select)", site)
	}
}

// Sender implements the send statement: Sender(site, c)(v).
//
//go:norace
func Sender[T any](site string, c chan<- T) func(T) {
	return func(v T) { send(site, c, v) }
}

//go:norace
func send[T any](site string, c chan<- T, v T) {
	s := inTask()
	if s == nil {
		if S == nil {
			panic("simrt: send outside of a simulation at " + site)
		}
		return
	}
	p := *(*unsafe.Pointer)(unsafe.Pointer(&c))
	if p == nil {
		s.point('s', 0)
		forever(s, site)
	}
	x := get(s, *(*<-chan T)(unsafe.Pointer(&c)))
	s.point('s', x.id)
	if x.canSend() {
		woke := x.doSend(s, v)
		if s.Verbose {
			s.Logf("send ch%d at %s", x.id, site)
		}
		if woke {
			s.point('p', x.id)
		}
		return
	}
	w := &waiter[T]{t: s.cur, sel: &selState{}, val: v}
	x.sendq = append(x.sendq, w)
	hbWait(unsafe.Pointer(w))
	for !w.sel.done {
		s.block("send on "+s.chname(x.id), site)
	}
	hbWoken(unsafe.Pointer(w))
	if w.closed {
		panic(rtError("send on closed channel"))
	}
	if s.Verbose {
		s.Logf("sent ch%d at %s", x.id, site)
	}
}

// Recv implements <-c.
//
//go:norace
func Recv[T any](site string, c <-chan T) T {
	v, _ := Recv2(site, c)
	return v
}

// Recv2 implements v, ok := <-c.
//
//go:norace
func Recv2[T any](site string, c <-chan T) (T, bool) {
	s := inTask()
	if s == nil {
		if S == nil {
			panic("simrt: receive outside of a simulation at " + site)
		}
		var z T
		return z, false
	}
	if c == nil {
		s.point('r', 0)
		forever(s, site)
	}
	x := get(s, c)
	s.point('r', x.id)
	if x.canRecv() {
		v, ok, woke := x.doRecv(s)
		if s.Verbose {
			s.Logf("recv ch%d ok=%v at %s", x.id, ok, site)
		}
		if woke {
			s.point('p', x.id)
		}
		return v, ok
	}
	w := &waiter[T]{t: s.cur, sel: &selState{}}
	x.recvq = append(x.recvq, w)
	hbWait(unsafe.Pointer(w))
	for !w.sel.done {
		s.block("receive on "+s.chname(x.id), site)
	}
	hbWoken(unsafe.Pointer(w))
	if Race && (!w.ok || x.foreign) {
		x.hbClosed()
	}
	if s.Verbose {
		s.Logf("received ch%d ok=%v at %s", x.id, w.ok, site)
	}
	return w.val, w.ok
}

// Close implements close(c).
//
//go:norace
func Close[T any](site string, c chan<- T) {
	s := S
	if s == nil || s.killing {
		return
	}
	p := *(*unsafe.Pointer)(unsafe.Pointer(&c))
	if p == nil {
		panic(rtError("close of nil channel"))
	}
	x := get(s, *(*<-chan T)(unsafe.Pointer(&c)))
	if s.cur != nil {
		s.point('c', x.id)
	}
	if x.closed {
		panic(rtError("close of closed channel"))
	}
	x.closed = true
	x.hbClose()
	if s.Verbose {
		s.Logf("close ch%d at %s", x.id, site)
	}
	woke := false
	for {
		w := x.popRecv()
		if w == nil {
			break
		}
		w.fire(s)
		woke = true
	}
	for {
		w := x.popSend()
		if w == nil {
			break
		}
		w.closed = true
		w.fire(s)
		woke = true
	}
	if woke && s.cur != nil {
		s.point('p', x.id)
	}
}

// Len and Cap implement len(c) and cap(c).
//
//go:norace
func Len[T any](c <-chan T) int {
	if c == nil || S == nil || S.killing {
		return 0
	}
	return len(get(S, c).buf)
}

//go:norace
func Cap[T any](c <-chan T) int { return cap(c) }

// It drives range over a channel.
type It[T any] struct {
	site string
	c    <-chan T
}

// RangeChan starts a range loop over a channel.
//
//go:norace
func RangeChan[T any](site string, c <-chan T) (*It[T], T, bool) {
	v, ok := Recv2(site, c)
	return &It[T]{site, c}, v, ok
}

// Next receives the next value of the loop.
//
//go:norace
func (i *It[T]) Next() (T, bool) { return Recv2(i.site, i.c) }

// ---- select

// Case is a select case.
type Case interface {
	isReady() bool
	perform(s *Sim) bool
	enqueue(s *Sim, sel *selState, idx int)
	dequeue(sel *selState)
	finish()
	name() string
}

// RCase is a receive case; V and OK hold the result.
type RCase[T any] struct {
	x  *tchan[T]
	w  *waiter[T]
	V  T
	OK bool
}

// SCase is a send case.
type SCase[T any] struct {
	x *tchan[T]
	w *waiter[T]
	v T
}

// RecvCase evaluates the channel of a receive case.
//
//go:norace
func RecvCase[T any](c <-chan T) *RCase[T] {
	r := &RCase[T]{}
	if s := inTask(); s != nil && c != nil {
		r.x = get(s, c)
	}
	return r
}

// SendCase evaluates the channel of a send case; the result takes the value.
//
//go:norace
func SendCase[T any](c chan<- T) func(T) *SCase[T] {
	return func(v T) *SCase[T] { return sendCase(c, v) }
}

//go:norace
func sendCase[T any](c chan<- T, v T) *SCase[T] {
	r := &SCase[T]{v: v}
	if s := inTask(); s != nil && *(*unsafe.Pointer)(unsafe.Pointer(&c)) != nil {
		r.x = get(s, *(*<-chan T)(unsafe.Pointer(&c)))
	}
	return r
}

//go:norace
func (r *RCase[T]) isReady() bool { return r.x != nil && r.x.canRecv() }

//go:norace
func (r *RCase[T]) perform(s *Sim) (woke bool) {
	r.V, r.OK, woke = r.x.doRecv(s)
	return
}

//go:norace
func (r *RCase[T]) enqueue(s *Sim, sel *selState, idx int) {
	if r.x != nil {
		r.w = &waiter[T]{t: s.cur, sel: sel, idx: idx}
		r.x.recvq = append(r.x.recvq, r.w)
		hbWait(unsafe.Pointer(r.w))
	}
}

//go:norace
func (r *RCase[T]) dequeue(sel *selState) {
	if r.x != nil {
		r.x.recvq = drop(r.x.recvq, sel)
	}
}

//go:norace
func (r *RCase[T]) finish() {
	r.V, r.OK = r.w.val, r.w.ok
	hbWoken(unsafe.Pointer(r.w))
	if Race && (!r.OK || r.x.foreign) {
		r.x.hbClosed()
	}
}

//go:norace
func (r *RCase[T]) name() string {
	if r.x == nil {
		return "recv nil"
	}
	return "recv ch" + strconv.Itoa(r.x.id)
}

//go:norace
func (r *SCase[T]) isReady() bool { return r.x != nil && r.x.canSend() }

//go:norace
func (r *SCase[T]) perform(s *Sim) bool { return r.x.doSend(s, r.v) }

//go:norace
func (r *SCase[T]) enqueue(s *Sim, sel *selState, idx int) {
	if r.x != nil {
		r.w = &waiter[T]{t: s.cur, sel: sel, idx: idx, val: r.v}
		r.x.sendq = append(r.x.sendq, r.w)
		hbWait(unsafe.Pointer(r.w))
	}
}

//go:norace
func (r *SCase[T]) dequeue(sel *selState) {
	if r.x != nil {
		r.x.sendq = drop(r.x.sendq, sel)
	}
}

//go:norace
func (r *SCase[T]) finish() {
	hbWoken(unsafe.Pointer(r.w))
	if r.w.closed {
		panic(rtError("send on closed channel"))
	}
}

//go:norace
func (r *SCase[T]) name() string {
	if r.x == nil {
		return "send nil"
	}
	return "send ch" + strconv.Itoa(r.x.id)
}

//go:norace
func drop[T any](q []*waiter[T], sel *selState) []*waiter[T] {
	out := q[:0]
	for _, w := range q {
		if w.sel != sel {
			out = append(out, w)
		}
	}
	return out
}

// Select implements the select statement; -1 is the default clause.
func Select(site string, hasDefault bool, cases ...Case) int {
	s := inTask()
	if s == nil {
		if S == nil {
			panic("simrt: select outside of a simulation at " + site)
		}
		if hasDefault {
			return -1
		}
		// torn down: leave the goroutine
		killExit()
	}
	s.point('l', len(cases))
	var ready [16]int
	n := 0
	for i, c := range cases {
		if n < len(ready) && c.isReady() {
			ready[n] = i
			n++
		}
	}
	if n > 0 {
		k := 0
		if n > 1 {
			k = s.Src.Intn(KSelect, "", n)
		}
		i := ready[k]
		s.event('k', i)
		if s.Verbose {
			s.Logf("select case %d (%s) of %d ready at %s", i, cases[i].name(), n, site)
		}
		if cases[i].perform(s) {
			s.point('p', 0)
		}
		return i
	}
	if hasDefault {
		return -1
	}
	sel := &selState{}
	for i, c := range cases {
		c.enqueue(s, sel, i)
	}
	for !sel.done {
		s.block("select", site)
	}
	for _, c := range cases {
		c.dequeue(sel)
	}
	s.event('k', sel.idx)
	if s.Verbose {
		s.Logf("select woke with case %d (%s) at %s", sel.idx, cases[sel.idx].name(), site)
	}
	cases[sel.idx].finish()
	return sel.idx
}

// BlockForever implements select {}.
func BlockForever(site string) {
	s := inTask()
	if s == nil {
		killExit()
	}
	forever(s, site)
}
