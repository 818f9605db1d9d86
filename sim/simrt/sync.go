package simrt

import (
	"bufio"
	"fmt"
	"io"
	"math/rand"
	rand2 "math/rand/v2"
	"reflect"
	"runtime"
	"sort"
	"time"
	"unsafe"
)

func killExit() { runtime.Goexit() }

// Mutex replaces sync.Mutex.
type Mutex struct {
	locked bool
	q      []*Task
}

// Lock locks m.
func (m *Mutex) Lock() {
	s := inTask()
	if s == nil {
		m.locked = true
		return
	}
	s.point('m', 0)
	for m.locked {
		m.q = append(m.q, s.cur)
		s.block("mutex", "")
	}
	m.locked = true
	acq(unsafe.Pointer(m))
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	if s := inTask(); s != nil {
		s.point('m', 1)
	}
	if m.locked {
		return false
	}
	m.locked = true
	acq(unsafe.Pointer(m))
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	s := inTask()
	if s == nil {
		m.locked = false
		return
	}
	if !m.locked {
		panic(rtError("fatal error: sync: unlock of unlocked mutex"))
	}
	m.locked = false
	rel(unsafe.Pointer(m))
	q := m.q
	m.q = nil
	for _, t := range q {
		s.ready(t)
	}
	s.point('u', len(q))
}

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// RWMutex replaces sync.RWMutex.
type RWMutex struct {
	w  bool
	r  int
	ww int
	q  []*Task
	// clocks of the readers and the writers
	hbR, hbW uint64
}

func (m *RWMutex) wake(s *Sim) {
	q := m.q
	m.q = nil
	for _, t := range q {
		s.ready(t)
	}
	s.point('u', len(q))
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	s := inTask()
	if s == nil {
		return
	}
	s.point('m', 2)
	m.ww++
	for m.w || m.r > 0 {
		m.q = append(m.q, s.cur)
		s.block("rwmutex (write)", "")
	}
	m.ww--
	m.w = true
	acq(unsafe.Pointer(&m.hbW))
	acq(unsafe.Pointer(&m.hbR))
}

// Unlock unlocks for writing.
func (m *RWMutex) Unlock() {
	s := inTask()
	if s == nil {
		return
	}
	if !m.w {
		panic(rtError("fatal error: sync: Unlock of unlocked RWMutex"))
	}
	m.w = false
	rel(unsafe.Pointer(&m.hbW))
	m.wake(s)
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	s := inTask()
	if s == nil {
		return
	}
	s.point('m', 3)
	for m.w || m.ww > 0 {
		m.q = append(m.q, s.cur)
		s.block("rwmutex (read)", "")
	}
	m.r++
	acq(unsafe.Pointer(&m.hbW))
}

// RUnlock unlocks for reading.
func (m *RWMutex) RUnlock() {
	s := inTask()
	if s == nil {
		return
	}
	if m.r == 0 {
		panic(rtError("fatal error: sync: RUnlock of unlocked RWMutex"))
	}
	m.r--
	rel(unsafe.Pointer(&m.hbR))
	m.wake(s)
}

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	acq(unsafe.Pointer(&m.hbW))
	acq(unsafe.Pointer(&m.hbR))
	return true
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	if m.w {
		return false
	}
	m.r++
	acq(unsafe.Pointer(&m.hbW))
	return true
}

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	n int
	q []*Task
}

// Add adds delta.
func (w *WaitGroup) Add(delta int) {
	s := inTask()
	if s != nil {
		s.point('w', 0)
	}
	w.n += delta
	if s == nil {
		return
	}
	if delta < 0 {
		rel(unsafe.Pointer(w))
	}
	if w.n < 0 {
		panic(rtError("sync: negative WaitGroup counter"))
	}
	if w.n == 0 {
		q := w.q
		w.q = nil
		for _, t := range q {
			s.ready(t)
		}
		if len(q) > 0 {
			s.point('p', 0)
		}
	}
}

// Done decrements the counter.
func (w *WaitGroup) Done() { w.Add(-1) }

// Go runs f in a new goroutine.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go("WaitGroup.Go", func() {
		defer w.Done()
		f()
	})
}

// Wait waits for the counter to reach zero.
func (w *WaitGroup) Wait() {
	s := inTask()
	if s == nil {
		return
	}
	s.point('w', 1)
	for w.n > 0 {
		w.q = append(w.q, s.cur)
		s.block("waitgroup", "")
	}
	acq(unsafe.Pointer(w))
}

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do runs f once.
func (o *Once) Do(f func()) {
	if o.done {
		acq(unsafe.Pointer(o))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			o.done = true
			rel(unsafe.Pointer(o))
		}()
		f()
	}
}

// Cond replaces sync.Cond.
type Cond struct {
	L Locker
	q []*condW
}
type condW struct {
	t  *Task
	ok bool
}

// NewCond makes a Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits.
func (c *Cond) Wait() {
	s := inTask()
	if s == nil {
		return
	}
	w := &condW{t: s.cur}
	c.q = append(c.q, w)
	c.L.Unlock()
	for !w.ok {
		s.block("cond", "")
	}
	c.L.Lock()
}

// Signal wakes one waiter.
func (c *Cond) Signal() {
	if s := inTask(); s != nil && len(c.q) > 0 {
		c.q[0].ok = true
		s.ready(c.q[0].t)
		c.q = c.q[1:]
		s.point('p', 0)
	}
}

// Broadcast wakes all waiters.
func (c *Cond) Broadcast() {
	if s := inTask(); s != nil {
		for _, w := range c.q {
			w.ok = true
			s.ready(w.t)
		}
		c.q = nil
		s.point('p', 0)
	}
}

// ---- time

var epoch = time.Date(2021, 3, 1, 12, 0, 0, 0, time.UTC)

// Now is the simulated time.
func Now() time.Time { return epoch.Add(time.Duration(NowNanos())) }

// Since and Until mirror package time.
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep suspends the task in simulated time.
func Sleep(d time.Duration) {
	s := inTask()
	if s == nil {
		return
	}
	if d <= 0 {
		s.point('p', 0)
		return
	}
	c := s.cur
	fired := false
	s.addTimer(int64(d), func() { fired = true; s.ready(c) })
	for !fired {
		s.block("sleep", "")
	}
}

// Timer replaces time.Timer.
type Timer struct {
	C <-chan time.Time
	c chan time.Time
	t *timer
	f func()
}

func (t *Timer) arm(d time.Duration) {
	s := S
	rel(unsafe.Pointer(t))
	t.t = s.addTimer(int64(d), func() {
		if t.f != nil {
			s.newTask("time.AfterFunc", func() {
				acq(unsafe.Pointer(t))
				t.f()
			}, true)
			return
		}
		acq(unsafe.Pointer(t))
		x := get(s, t.C)
		if len(x.buf) < x.cap || live(x.recvq) {
			x.doSend(s, Now())
		}
	})
}

// NewTimer makes a timer.
func NewTimer(d time.Duration) *Timer {
	c := Made(make(chan time.Time, 1))
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}

// AfterFunc runs f later.
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}

// Stop stops the timer.
func (t *Timer) Stop() bool {
	was := !t.t.off
	t.t.off = true
	if t.C != nil {
		get(S, t.C).buf = nil
	}
	return was
}

// Reset re-arms the timer.
func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	t.arm(d)
	return was
}

// After is time.After.
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Ticker replaces time.Ticker.
type Ticker struct {
	C   <-chan time.Time
	t   *timer
	d   time.Duration
	off bool
}

// NewTicker makes a ticker.
func NewTicker(d time.Duration) *Ticker {
	t := &Ticker{C: Made(make(chan time.Time, 1)), d: d}
	t.arm()
	return t
}
func (t *Ticker) arm() {
	s := S
	rel(unsafe.Pointer(t))
	t.t = s.addTimer(int64(t.d), func() {
		if t.off {
			return
		}
		acq(unsafe.Pointer(t))
		x := get(s, t.C)
		if len(x.buf) < x.cap || live(x.recvq) {
			x.doSend(s, Now())
		}
		t.arm()
	})
}

// Stop stops the ticker.
func (t *Ticker) Stop() { t.off = true; t.t.off = true }

// Reset changes the period.
func (t *Ticker) Reset(d time.Duration) { t.t.off = true; t.off = false; t.d = d; t.arm() }

// Tick is time.Tick.
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

// ---- map iteration

type mapIt[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

// MapRange starts a range loop over a map, in an order decided by the run's map-order knob.
//
//go:norace
func MapRange[M ~map[K]V, K comparable, V any](m M) (*mapIt[K, V], K, V, bool) {
	it := &mapIt[K, V]{m: m}
	if Race {
		raceRead(*(*unsafe.Pointer)(unsafe.Pointer(&m)))
	}
	if len(m) > 0 {
		it.keys = make([]K, 0, len(m))
		for k := range m {
			it.keys = append(it.keys, k)
		}
		if len(m) > 1 {
			seed := uint64(0)
			if S != nil {
				seed = S.mapSeed
			}
			type hk struct {
				h uint64
				s string
				k K
			}
			hs := make([]hk, len(it.keys))
			for i, k := range it.keys {
				h, str := keyHash(any(k))
				x := h ^ seed*0x9e3779b97f4a7c15
				if seed == 0 {
					x = h
				} else {
					x = splitmix(&x)
				}
				hs[i] = hk{x, str, k}
			}
			sort.Slice(hs, func(a, b int) bool {
				if hs[a].h != hs[b].h {
					return hs[a].h < hs[b].h
				}
				return hs[a].s < hs[b].s
			})
			for i := range hs {
				it.keys[i] = hs[i].k
			}
		}
	}
	k, v, ok := it.Next()
	return it, k, v, ok
}

func keyHash(k any) (uint64, string) {
	v := reflect.ValueOf(k)
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return uint64(v.Int()) + 1<<63, ""
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return v.Uint(), ""
	}
	s := fmt.Sprintf("%v", k)
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h, s
}

// Next advances the loop.
//
//go:norace
func (i *mapIt[K, V]) Next() (k K, v V, ok bool) {
	if Race {
		raceRead(*(*unsafe.Pointer)(unsafe.Pointer(&i.m)))
	}
	for i.i < len(i.keys) {
		k = i.keys[i.i]
		i.i++
		if v, ok = i.m[k]; ok {
			return
		}
		if k != k { // NaN keys
			return k, v, true
		}
	}
	return k, v, false
}

// ---- tuning knobs

// BufSize is the run's cap on buffered reader and writer sizes (0: as asked for).
var BufSize int

func knob(n int) int {
	if BufSize > 0 && n > BufSize {
		return BufSize
	}
	return n
}

// BufReaderSize replaces bufio.NewReaderSize so that small files meet the refill path too.
func BufReaderSize(r io.Reader, n int) *bufio.Reader { return bufio.NewReaderSize(r, knob(n)) }

// BufReader replaces bufio.NewReader.
func BufReader(r io.Reader) *bufio.Reader { return bufio.NewReaderSize(r, knob(4096)) }

// BufWriterSize replaces bufio.NewWriterSize.
func BufWriterSize(w io.Writer, n int) *bufio.Writer { return bufio.NewWriterSize(w, knob(n)) }

// BufWriter replaces bufio.NewWriter.
func BufWriter(w io.Writer) *bufio.Writer { return bufio.NewWriterSize(w, knob(4096)) }

// Pool replaces sync.Pool: last in, first out, nothing is ever dropped.
type Pool struct {
	New func() any
	x   []any
}

// Get takes an item.
func (p *Pool) Get() any {
	Point()
	acq(unsafe.Pointer(p))
	if n := len(p.x); n > 0 {
		v := p.x[n-1]
		p.x = p.x[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put returns an item.
func (p *Pool) Put(v any) {
	if v != nil {
		p.x = append(p.x, v)
		rel(unsafe.Pointer(p))
	}
	Point()
}

// Rand replaces the global generator of math/rand, Rand2 that of math/rand/v2; both are fixed at
// the start of each run.
func Rand() *rand.Rand {
	if S == nil {
		return rand.New(rand.NewSource(1))
	}
	if S.rnd == nil {
		S.rnd = rand.New(rand.NewSource(int64(S.mapSeed) + 1))
	}
	return S.rnd
}

// Rand2 see Rand.
func Rand2() *rand2.Rand {
	if S == nil {
		return rand2.New(rand2.NewPCG(1, 2))
	}
	if S.rnd2 == nil {
		S.rnd2 = rand2.New(rand2.NewPCG(S.mapSeed, 2))
	}
	return S.rnd2
}
