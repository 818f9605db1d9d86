package simrt

import (
	"context"
	"errors"
	"io"
	"time"
	"unsafe"
)

// ---- package-level state of the code under test

var resetters [][]func()

// OnReset registers how a package's variables and init functions are executed again. Packages
// register in initialisation order.
func OnReset(fs ...func()) { resetters = append(resetters, fs) }

// ResetState gives the code under test fresh package-level state, as in a new process.
func ResetState() {
	for i, fs := range resetters {
		if fs == nil {
			continue
		}
		func() {
			defer func() {
				if recover() != nil { // not repeatable (such as a registration elsewhere): leave the package alone
					resetters[i] = nil
				}
			}()
			for _, f := range fs {
				f()
			}
		}()
	}
}

// ---- more of package sync

// OnceFunc replaces sync.OnceFunc.
func OnceFunc(f func()) func() {
	g := OnceValue(func() struct{} { f(); return struct{}{} })
	return func() { g() }
}

// OnceValue replaces sync.OnceValue.
//
//go:norace
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	var p any
	ok := false
	return func() T {
		o.Do(func() {
			defer func() {
				if !ok {
					p = recover()
					panic(p)
				}
			}()
			v = f()
			ok = true
		})
		if !ok {
			panic(p)
		}
		return v
	}
}

// OnceValues replaces sync.OnceValues.
//
//go:norace
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	type pair struct {
		a T1
		b T2
	}
	g := OnceValue(func() pair { a, b := f(); return pair{a, b} })
	return func() (T1, T2) { p := g(); return p.a, p.b }
}

// Map replaces sync.Map; Range goes in insertion order.
type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) point() {
	Point()
	acq(unsafe.Pointer(m))
	rel(unsafe.Pointer(m))
}

// Load and the other methods mirror sync.Map.
func (m *Map) Load(k any) (any, bool) {
	m.point()
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) put(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) del(k any) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i := range m.keys {
		if m.keys[i] == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			return
		}
	}
}

func (m *Map) Store(k, v any) { m.point(); m.put(k, v) }
func (m *Map) Delete(k any)   { m.point(); m.del(k) }
func (m *Map) Clear()         { m.point(); m.m, m.keys = nil, nil }

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.point()
	if old, ok := m.m[k]; ok {
		return old, true
	}
	m.put(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.point()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}

func (m *Map) Swap(k, v any) (any, bool) {
	m.point()
	old, ok := m.m[k]
	m.put(k, v)
	return old, ok
}

func (m *Map) CompareAndSwap(k, old, v any) bool {
	m.point()
	if x, ok := m.m[k]; !ok || x != old {
		return false
	}
	m.put(k, v)
	return true
}

func (m *Map) CompareAndDelete(k, old any) bool {
	m.point()
	if x, ok := m.m[k]; !ok || x != old {
		return false
	}
	m.del(k)
	return true
}

func (m *Map) Range(f func(k, v any) bool) {
	m.point()
	for _, k := range append([]any{}, m.keys...) {
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}

// ---- io.Pipe

type pipe struct {
	wr   Mutex
	mu   Mutex
	cond *Cond
	data []byte
	open bool // a write is in progress
	rerr error
	werr error
}

// PipeReader and PipeWriter replace those of package io.
type PipeReader struct{ p *pipe }
type PipeWriter struct{ p *pipe }

// Pipe replaces io.Pipe.
func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipe{}
	p.cond = NewCond(&p.mu)
	return &PipeReader{p}, &PipeWriter{p}
}

func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.p
	p.mu.Lock()
	defer p.mu.Unlock()
	for {
		switch {
		case p.rerr != nil:
			return 0, io.ErrClosedPipe
		case p.open:
			n := copy(b, p.data)
			Reads(p.data[:n])
			Wrote(b[:n])
			p.data = p.data[n:]
			if len(p.data) == 0 {
				p.open = false
			}
			p.cond.Broadcast()
			return n, nil
		case p.werr != nil:
			return 0, p.werr
		}
		p.cond.Wait()
	}
}

func (r *PipeReader) Close() error { return r.CloseWithError(nil) }

func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = io.ErrClosedPipe
	}
	p := r.p
	p.mu.Lock()
	if p.rerr == nil {
		p.rerr = err
	}
	p.cond.Broadcast()
	p.mu.Unlock()
	return nil
}

func (w *PipeWriter) Write(b []byte) (int, error) {
	p := w.p
	p.wr.Lock()
	defer p.wr.Unlock()
	p.mu.Lock()
	defer p.mu.Unlock()
	fail := func() error {
		switch {
		case p.werr != nil:
			return io.ErrClosedPipe
		case p.rerr != nil:
			return p.rerr
		}
		return nil
	}
	if err := fail(); err != nil {
		return 0, err
	}
	p.data, p.open = b, true
	p.cond.Broadcast()
	for p.open {
		if err := fail(); err != nil {
			n := len(b) - len(p.data)
			p.data, p.open = nil, false
			return n, err
		}
		p.cond.Wait()
	}
	return len(b), nil
}

func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }

func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = io.EOF
	}
	p := w.p
	p.mu.Lock()
	if p.werr == nil {
		p.werr = err
	}
	p.cond.Broadcast()
	p.mu.Unlock()
	return nil
}

// ---- context deadlines in simulated time

type deadlineCtx struct {
	context.Context
	at      time.Time
	expired bool
}

func (d *deadlineCtx) Deadline() (time.Time, bool) {
	if t, ok := d.Context.Deadline(); ok && t.Before(d.at) {
		return t, true
	}
	return d.at, true
}

func (d *deadlineCtx) Err() error {
	err := d.Context.Err()
	if err != nil && (d.expired || errors.Is(context.Cause(d.Context), context.DeadlineExceeded)) {
		return context.DeadlineExceeded
	}
	return err
}

// WithDeadline replaces context.WithDeadline.
func WithDeadline(parent context.Context, at time.Time) (context.Context, context.CancelFunc) {
	return WithTimeout(parent, at.Sub(Now()))
}

// WithTimeout replaces context.WithTimeout.
func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancelCause(parent)
	dc := &deadlineCtx{Context: ctx, at: Now().Add(d)}
	fire := func() {
		if ctx.Err() == nil {
			dc.expired = true
			cancel(context.DeadlineExceeded)
		}
	}
	if d <= 0 {
		fire()
		return dc, func() {}
	}
	t := AfterFunc(d, fire)
	return dc, func() { t.Stop(); cancel(nil) }
}

// Noise is where a function returns, in builds that test the harness: it may take long.
func Noise() {
	if s := S; s != nil && !s.killing && s.cur != nil && s.Src.Chance(KKnob, "noise", 1, 8) {
		Point()
	}
}
