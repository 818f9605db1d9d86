package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/Redundancy/go-sync/util/readers"
	"verif.local/sim/simrt"
)

func init() {
	register("C29", 50, "generated streams, faults", func(c *Ctx) { readersScenario(c, true) })
	register("C29", 50, "generated streams, no faults", func(c *Ctx) { readersScenario(c, false) })
}

// brokenReader delivers data and then a persistent error, or the end.
type brokenReader struct {
	c     *Ctx
	data  []byte
	pos   int
	err   error
	mode  IOMode
	zeros int
}

func (r *brokenReader) end() error {
	if r.err != io.EOF {
		r.c.Fault("inner-read-error")
	}
	return r.err
}

func (r *brokenReader) Read(b []byte) (int, error) {
	simrt.Touch(&r.pos)
	pause(r.c, r.mode.slow)
	if len(b) == 0 {
		return 0, nil
	}
	if r.pos == len(r.data) {
		return 0, r.end()
	}
	if r.mode.zero == 1 && r.zeros < 5 && r.c.WC("zero-read", 1, 8) {
		r.zeros++
		return 0, nil
	}
	r.zeros = 0
	n := len(b)
	switch r.mode.chunk {
	case 1:
		n = 1 + r.c.W("chunk", n)
	case 2:
		n = 1
	}
	n = copy(b[:min(n, len(r.data)-r.pos)], r.data[r.pos:])
	simrt.Wrote(b[:n])
	r.pos += n
	if r.mode.eofWith == 1 && r.pos == len(r.data) {
		return n, r.end()
	}
	return n, nil
}

// stream is a reader, how to make it, and what it has to deliver.
type stream struct {
	name string
	open func() io.Reader
	data []byte
	err  error // what ends it
}

// cut is what a limit leaves of s. The limit never falls on an error.
func (s *stream) safeLimit(n int) int {
	if s.err != io.EOF && n == len(s.data) {
		return n + 1
	}
	return n
}

func (s *stream) cut(n int) ([]byte, error) {
	if n <= len(s.data) && (n < len(s.data) || s.err == io.EOF) {
		return s.data[:n], io.EOF
	}
	return s.data, s.err
}

func cat(parts ...*stream) *stream {
	t := &stream{err: io.EOF}
	for _, p := range parts {
		t.data = append(t.data[:len(t.data):len(t.data)], p.data...)
		if p.err != io.EOF {
			t.err = p.err
			break
		}
	}
	return t
}

// genStream makes a stream of up to about max bytes.
func genStream(c *Ctx, depth, max int, faulty bool) *stream {
	kind := c.WW("stream", 15, 15, 25, 20, 15, 15)
	if depth == 0 && kind > 3 {
		kind -= 3
	}
	n := c.W("stream-len", max+1)
	switch kind {
	case 0:
		return &stream{fmt.Sprintf("ZeroReader(%d)", n), func() io.Reader { return readers.ZeroReader(n) }, make([]byte, n), io.EOF}
	case 1:
		return &stream{fmt.Sprintf("OneReader(%d)", n), func() io.Reader { return readers.OneReader(n) }, bytes.Repeat([]byte{1}, n), io.EOF}
	case 2:
		seed := c.W("sequence", 1000000)
		if c.WC("big-sequence", 1, 5) {
			seed = seed*1000003 + 1<<33
		}
		data := make([]byte, n)
		io.ReadFull(readers.NewNonRepeatingSequence(seed), data) // in one piece
		if c.WC("sized", 1, 2) {
			return &stream{fmt.Sprintf("NewSizedNonRepeatingSequence(%d, %d)", seed, n), func() io.Reader { return readers.NewSizedNonRepeatingSequence(seed, int64(n)) }, data, io.EOF}
		}
		return &stream{fmt.Sprintf("SequenceLimit(%d, NewNonRepeatingSequence(%d))", n, seed), func() io.Reader {
			return readers.SequenceLimit(int64(n), readers.NewNonRepeatingSequence(seed))
		}, data, io.EOF}
	case 3:
		p := prng(c.Src.Seed32('W', "inner-seed"))
		data := p.bytes(n, 256)
		s := &stream{fmt.Sprintf("reader of %d bytes", n), nil, data, io.EOF}
		mode := genIOMode(c)
		if n > 4000 && mode.chunk == 2 {
			mode.chunk = 1
		}
		if faulty && c.FC("inner-fails", 1, 2) {
			s.data = data[:c.F("inner-fails-at", n+1)]
			s.err = readErr(c)
			s.name = fmt.Sprintf("reader that fails after %d bytes", len(s.data))
		}
		s.open = func() io.Reader { return &brokenReader{c: c, data: s.data, err: s.err, mode: mode} }
		return s
	case 4:
		var parts []*stream
		var names []string
		for k := c.W("parts", 4); k >= 0; k-- {
			p := genStream(c, depth-1, max, faulty)
			parts = append(parts, p)
			names = append(names, p.name)
		}
		t := cat(parts...)
		lim := t.safeLimit(c.W("limit", max*2+1))
		data, err := t.cut(lim)
		return &stream{fmt.Sprintf("SequenceLimit(%d, %s)", lim, strings.Join(names, ", ")), func() io.Reader {
			var rs []io.Reader
			for _, p := range parts {
				rs = append(rs, p.open())
			}
			return readers.SequenceLimit(int64(lim), rs...)
		}, data, err}
	}
	base, in := genStream(c, depth-1, max, faulty), genStream(c, depth-1, max, faulty)
	off := base.safeLimit(c.W("offset", max+1))
	head, herr := base.cut(off)
	t := cat(&stream{data: head, err: herr}, in, &stream{data: base.data[len(head):], err: base.err})
	t.name = fmt.Sprintf("InjectedReader(%d, %s, %s)", off, base.name, in.name)
	t.open = func() io.Reader { return readers.InjectedReader(int64(off), base.open(), in.open()) }
	return t
}

// readersScenario reads several streams at the same time, in every possible way.
func readersScenario(c *Ctx, faulty bool) {
	max := []int{20, 200, 3000, 70000}[c.WW("stream-max", 35, 45, 15, 5)]
	k := c.WR("streams", 1, 3)
	var streams []*stream
	var names []string
	for i := 0; i < k; i++ {
		s := genStream(c, 2, max, faulty)
		if i > 0 && c.WC("same-again", 1, 4) {
			s = streams[i-1]
		}
		streams = append(streams, s)
		names = append(names, s.name)
	}
	c.Describe("%s", strings.Join(names, "; "))
	oc := c.Sim(simrt.Config{}, func() {
		for i, s := range streams {
			simrt.Spawn("reader", func() { readStream(c, i, s, max) })
		}
		simrt.WaitIdle()
	})
	c.Report(oc, "C29", "generated streams")
}

func readStream(c *Ctx, id int, s *stream, max int) {
	r := s.open()
	var got []byte
	var err error
	switch how := c.WW("read-by", 70, 15, 15); how {
	case 0:
		small := c.WW("read-size", 30, 40, 30)
		empty := 0
		for steps := 0; err == nil; steps++ {
			n := 0
			switch {
			case c.WC("empty-read", 1, 8):
			case small == 0 && len(s.data) < 4000:
				n = c.WR("read-few", 1, 4)
			default:
				n = c.WR("read-some", 1, max+20)
			}
			b := make([]byte, n)
			var m int
			m, err = r.Read(b)
			simrt.Logf("stream %d: read of %d: %d, %v", id, n, m, err)
			simrt.Point()
			if m < 0 || m > n {
				c.Fail("C29", "count", "%s: a read into %d bytes returned %d", s.name, n, m)
				return
			}
			if n == 0 {
				c.Hit("empty read")
			} else if empty++; m > 0 {
				empty = 0
			}
			if empty > 200 {
				c.Fail("C29", "stuck", "%s: %d reads in a row delivered nothing", s.name, empty)
				return
			}
			got = append(got, b[:m]...)
			if !bytes.HasPrefix(s.data, got) {
				c.Fail("C29", "wrong-data", "%s: what was read is not its content: %s", s.name, describeDiff(got, s.data))
				return
			}
		}
		if err == io.EOF {
			b := make([]byte, 10)
			if m, e := r.Read(b); m != 0 || e == nil {
				c.Fail("C29", "after-end", "%s: a read after the end returned %d, %v", s.name, m, e)
				return
			}
		}
	case 1:
		got, err = io.ReadAll(r)
		if err == nil {
			err = io.EOF
		}
	case 2:
		var buf bytes.Buffer
		_, err = io.Copy(&buf, r)
		got = buf.Bytes()
		if err == nil {
			err = io.EOF
		}
	}
	switch {
	case !bytes.Equal(got, s.data):
		c.Fail("C29", "wrong-data", "%s: delivered other bytes (and %v): %s", s.name, err, describeDiff(got, s.data))
	case s.err == io.EOF && err != io.EOF:
		c.Fail("C29", "invented-error", "%s: ended with the error %q", s.name, err)
	case s.err != io.EOF && !errors.Is(err, s.err):
		c.Fail("C29", "lost-error", "%s: ended with %v although what it reads from failed with %q", s.name, err, s.err)
	case s.err != io.EOF:
		c.Hit("inner error passed on")
	}
}
