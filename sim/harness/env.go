package main

import (
	"errors"
	"fmt"
	"io"
	"slices"
	"time"

	"github.com/Redundancy/go-sync/blocksources"

	"verif.local/sim/simrt"
)

var errInjected = errors.New("injected I/O error")

// readErr is what a failing read returns: any error but io.EOF itself, also those that helpers
// such as io.ReadFull use for the end of a stream (a truncated gzip stream or HTTP body ends in
// io.ErrUnexpectedEOF).
func readErr(c *Ctx) error {
	switch c.FW("error-value", 60, 25, 10, 5) {
	case 1:
		c.Hit("read error io.ErrUnexpectedEOF")
		return io.ErrUnexpectedEOF
	case 2:
		return io.ErrNoProgress
	case 3:
		return io.ErrClosedPipe
	}
	return errInjected
}

// opErr is what another failing operation returns; for those io.EOF is an error like any other.
func opErr(c *Ctx) (err error) {
	if c.sameErr != nil {
		return c.sameErr
	}
	if c.opErrs++; c.opErrs == 1 && c.FC("same-error", 1, 3) {
		defer func() { c.sameErr = err }()
	}
	switch c.FW("error-value", 50, 15, 10, 10, 10, 10) {
	case 1:
		c.Hit("error io.EOF from something else than a read")
		return io.EOF
	case 2:
		return io.ErrUnexpectedEOF
	case 3:
		return io.ErrShortWrite
	case 4:
		return fmt.Errorf("connection closed: %w", io.EOF)
	case 5:
		return timeoutErr{errInjected}
	}
	return errInjected
}

// timeoutErr is an error of which the caller may believe that it passes.
type timeoutErr struct{ error }

func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }
func (e timeoutErr) Unwrap() error { return e.error }

// IOMode describes how a simulated reader hands out its data; every mode is legal.
type IOMode struct {
	chunk   int // 0 = as much as asked for, 1 = random short reads, 2 = one byte at a time
	eofWith int // 1 = the last data comes together with io.EOF
	zero    int // 1 = sometimes returns 0, nil
	slow    int // 1 = sometimes takes simulated time
}

func genIOMode(c *Ctx) IOMode {
	return IOMode{
		chunk:   c.WW("io-chunk", 50, 35, 15),
		eofWith: c.WW("io-eof", 60, 40),
		zero:    c.WW("io-zero", 85, 15),
		slow:    c.WW("io-slow", 70, 30),
	}
}

// cutTo chooses to how many bytes, less than n, something is cut; of something long also such that
// a multiple of 256 is lost.
func cutTo(c *Ctx, label string, n int) int {
	if n > 256 && c.FC("cut-round", 1, 3) {
		unit := 256
		if n > 1<<16 && c.FC("cut-round-more", 1, 2) {
			unit = 1 << 16
		}
		return n - unit*(1+c.F(label, n/unit))
	}
	return c.F(label, n)
}

// pause lets simulated time pass.
func pause(c *Ctx, slow int) {
	if slow == 0 {
		simrt.Point()
		return
	}
	switch c.FW("delay", 60, 25, 15) {
	case 0:
		simrt.Point()
	case 1:
		simrt.Sleep(time.Duration(1+c.F("delay-us", 1000)) * time.Microsecond)
	case 2:
		simrt.Sleep(time.Duration(1+c.F("delay-s", 120)) * time.Second)
	}
}

// faulter decides when operations of one kind fail.
type faulter struct {
	c     *Ctx
	kind  string
	on    bool
	num   int // probability 1/num per operation
	left  int // faults left
	at    int // fail exactly at this operation (1-based), 0 = by chance
	seen  int
	fired int
	stick bool // keeps failing
}

func newFaulter(c *Ctx, kind string, on bool) *faulter {
	f := &faulter{c: c, kind: kind, on: on}
	if on {
		f.left = 1 + c.F(kind+"-count", 3)
		switch c.FW(kind+"-when", 60, 40) {
		case 0:
			f.at = 1 + c.F(kind+"-at", []int{2, 6, 30}[c.F(kind+"-span", 3)])
		case 1:
			f.num = []int{2, 5, 20}[c.F(kind+"-rate", 3)]
		}
		f.stick = c.FC(kind+"-sticky", 1, 3)
	}
	return f
}

// hit tells whether this operation fails.
func (f *faulter) hit() bool {
	if !f.on {
		return false
	}
	f.seen++
	if f.stick && f.fired > 0 {
		f.fired++
		f.c.Fault(f.kind)
		return true
	}
	if f.left <= 0 {
		return false
	}
	if f.at > 0 && f.seen != f.at {
		return false
	}
	if f.num > 0 && !f.c.FC(f.kind, 1, f.num) {
		return false
	}
	f.left--
	f.fired++
	f.c.Fault(f.kind)
	return true
}

// simReader is a sequential stream with faults.
type simReader struct {
	c    *Ctx
	data []byte
	pos  int
	mode IOMode
	err  *faulter
	// sentinel returned instead of io.EOF data end, nil = io.EOF
	failed  int // reads that returned an error and less than was asked for
	bufs    int
	lastErr error
	grace   int // bytes that came with the last failed read
}

func (r *simReader) Read(b []byte) (int, error) {
	simrt.Touch(&r.pos)
	pause(r.c, r.mode.slow)
	if len(b) == 0 {
		return 0, nil
	}
	n := len(b)
	switch r.mode.chunk {
	case 1:
		n = 1 + r.c.W("chunk", n)
	case 2:
		if n = 1; len(r.data) > 4000 {
			n = min(len(b), 97)
		}
	}
	if r.mode.zero == 1 && r.bufs < 20 && r.c.WC("zero-read", 1, 8) {
		r.bufs++
		return 0, nil
	}
	r.bufs = 0
	n = min(n, len(r.data)-r.pos)
	if r.err.hit() {
		n = r.c.F("short-before-error", n+1)
		if n < len(b) {
			r.failed++
		}
		r.grace = n
		copy(b, r.data[r.pos:r.pos+n])
		simrt.Wrote(b[:n])
		r.pos += n
		r.lastErr = readErr(r.c)
		return n, r.lastErr
	}
	if n == 0 {
		return 0, io.EOF
	}
	copy(b, r.data[r.pos:r.pos+n])
	simrt.Wrote(b[:n])
	r.pos += n
	if r.mode.eofWith == 1 && r.pos == len(r.data) {
		return n, io.EOF
	}
	return n, nil
}

// simInput is a local file as the patcher sees it: reads, seeks and positioned reads.
type simInput struct {
	simReader
	base    int64 // the data begins this far into the file, zeros come before
	before  int64 // how far before base the position is
	seekErr *faulter
	lie     *faulter // the file turns out shorter than it was
}

func newInput(c *Ctx, data []byte, mode IOMode, readF, seekF, shortF bool) *simInput {
	return &simInput{
		simReader: simReader{c: c, data: data, mode: mode, err: newFaulter(c, "local-read-error", readF)},
		seekErr:   newFaulter(c, "local-seek-error", seekF),
		lie:       newFaulter(c, "local-file-shrank", shortF),
	}
}

func (r *simInput) Read(b []byte) (int, error) {
	if r.before > 0 && len(b) > 0 {
		pause(r.c, r.mode.slow)
		n := int(min(int64(len(b)), r.before))
		clear(b[:n])
		simrt.Wrote(b[:n])
		r.before -= int64(n)
		return n, nil
	}
	return r.simReader.Read(b)
}

func (r *simInput) Seek(off int64, whence int) (int64, error) {
	simrt.Touch(&r.pos)
	pause(r.c, r.mode.slow)
	if r.seekErr.hit() {
		return 0, opErr(r.c)
	}
	switch whence {
	case io.SeekCurrent:
		off += r.base - r.before + int64(r.pos)
	case io.SeekEnd:
		off += r.base + int64(len(r.data))
	}
	if off < 0 {
		return 0, errors.New("seek before start")
	}
	if len(r.data) > 0 && r.lie.hit() {
		r.data = r.data[:r.c.F("shrink-to", len(r.data))]
	}
	r.before = max(0, r.base-off)
	// reads beyond the end give EOF
	r.pos = int(min(max(0, off-r.base), int64(len(r.data))))
	return off, nil
}

func (r *simInput) ReadAt(b []byte, off int64) (int, error) {
	pause(r.c, r.mode.slow)
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	n := 0
	if off < int64(len(r.data)) {
		n = copy(b, r.data[off:])
		simrt.Wrote(b[:n])
	}
	if r.err.hit() {
		r.failed++
		return r.c.F("short-before-error", n+1), readErr(r.c)
	}
	if n < len(b) {
		return n, io.EOF
	}
	if r.mode.eofWith == 1 && off+int64(n) == int64(len(r.data)) {
		return n, io.EOF
	}
	return n, nil
}

// simOutput receives the patched file and checks it byte by byte.
type simOutput struct {
	c      *Ctx
	want   []byte
	got    []byte
	err    *faulter
	slow   int
	check  bool // the output has to be a prefix of want at every moment
	failed bool
	after  int // writes after a failed one
	why    func() string
	prop   string // judged property, C03 if empty
}

func (o *simOutput) Write(b []byte) (int, error) {
	simrt.Touch(&o.after)
	simrt.Reads(b)
	pause(o.c, o.slow)
	if o.failed {
		o.after++
	}
	n := len(b)
	var err error
	if o.err.hit() {
		n, err = o.c.F("short-write", n+1), opErr(o.c)
		if n == len(b) && n > 0 {
			n--
		}
		o.failed = true
	}
	o.got = append(o.got, b[:n]...)
	if o.check {
		if len(o.got) > len(o.want) || string(o.got[len(o.got)-n:]) != string(o.want[len(o.got)-n:len(o.got)]) {
			prop := o.prop
			if prop == "" {
				prop = "C03"
			}
			o.c.Fail(prop, "bad-byte", "a write of %d bytes put wrong data into the output: %s %s", n, describeDiff(o.got, o.want[:min(len(o.got), len(o.want))]), o.reason())
			o.check = false
		}
	}
	return n, err
}

func (o *simOutput) reason() string {
	if o.why == nil {
		return ""
	}
	return "(" + o.why() + ")"
}

// fetch is one DoRequest call.
type fetch struct {
	id         int
	start, end int64
	t0, t1     int64 // event numbers
	done       bool
	err        error
	data       []byte
	bad        bool // returned damaged data
}

// simRequester serves ranges of a reference file.
type simRequester struct {
	c       *Ctx
	ref     []byte
	off     int64 // where ref begins in the remote file; everything recorded is relative to it
	slow    int
	gate    bool // fetches wait until released
	open    []*fetch
	fetches []*fetch
	running int
	maxRun  int

	fail    *faulter // fetch fails
	corrupt *faulter // bytes are damaged
	trunc   *faulter // response is short
	long    *faulter // response is over-long
	swap    *faulter // response is another range
	onStart func(f *fetch)
	onEnd   func(f *fetch)
}

func newRequester(c *Ctx, ref []byte) *simRequester {
	off := func(k string) *faulter { return newFaulter(c, k, false) }
	return &simRequester{c: c, ref: ref, fail: off("fetch-error"), corrupt: off("fetch-corrupt"), trunc: off("fetch-truncated"),
		long: off("fetch-overlong"), swap: off("fetch-wrong-range")}
}

func (r *simRequester) clip(x int64) int64 {
	if x < 0 {
		return 0
	}
	return min(x, int64(len(r.ref)))
}

// DoRequest implements blocksources.BlockSourceRequester.
func (r *simRequester) DoRequest(start, end int64) ([]byte, error) {
	start, end = start-r.off, end-r.off
	f := &fetch{id: len(r.fetches), start: start, end: end, t0: simrt.Seq()}
	r.fetches = append(r.fetches, f)
	r.running++
	r.maxRun = max(r.maxRun, r.running)
	simrt.Note('f', int(start))
	simrt.Logf("fetch %d starts: bytes %d-%d", f.id, start, end)
	if r.onStart != nil {
		r.onStart(f)
	}
	pause(r.c, r.slow)
	data := append([]byte(nil), r.ref[r.clip(start):r.clip(end)]...)
	var err error
	switch {
	case r.fail.hit():
		if err = fmt.Errorf("fetch %d: %w", f.id, errInjected); r.c.FC("bare-error", 1, 4) {
			err = opErr(r.c)
		}
		data = data[:r.c.F("fetch-partial", len(data)+1)]
		if r.c.FC("fetch-nil-data", 1, 2) {
			data = nil
		}
	case len(data) > 0 && r.corrupt.hit():
		for k := 1 + r.c.F("flips", 3); k > 0; k-- {
			data[r.c.F("flip-at", len(data))] ^= byte(1 + r.c.F("flip", 255))
		}
	case len(data) > 0 && r.trunc.hit():
		data = data[:cutTo(r.c, "trunc-to", len(data))]
	case r.long.hit():
		extra := r.c.F("extra", 40) + 1
		if e := r.clip(end); int(e)+extra <= len(r.ref) && r.c.FC("extra-true", 1, 2) {
			data = append(data, r.ref[e:int(e)+extra]...)
		} else {
			p := prng(r.c.F("extra-seed", 1000))
			data = append(data, p.bytes(extra, 256)...)
		}
	case len(r.ref) > 0 && r.swap.hit():
		at := r.c.F("swap-to", len(r.ref))
		data = append([]byte(nil), r.ref[at:min(at+len(data), len(r.ref))]...)
	}
	f.bad = err == nil && string(data) != string(r.ref[r.clip(start):r.clip(end)])
	f.err, f.data = err, append([]byte(nil), data...)
	f.done = true
	r.running--
	f.t1 = simrt.Seq()
	simrt.Logf("fetch %d ends: %d bytes, err=%v", f.id, len(data), err)
	if r.onEnd != nil {
		r.onEnd(f)
	}
	return data, err
}

// IsFatal implements blocksources.BlockSourceRequester.
func (r *simRequester) IsFatal(err error) bool { return !r.c.FC("not-fatal", 1, 3) }

// okBytes is the number of bytes returned by fetches without error.
func (r *simRequester) okBytes() (n int64) {
	for _, f := range r.fetches {
		if f.done && f.err == nil {
			n += int64(len(f.data))
		}
	}
	return
}

// packedStore is a user's own resolver and requester of blocks that take a different number of
// bytes each where they are stored, as BlockSourceOffsetResolver documents for compressed blocks.
type packedStore struct {
	*simRequester
	bs, base int
	whole    bool    // spans are not split
	size     int64   // of the unpacked blocks, from block 0 on
	at, end  []int64 // where each block is stored
}

func newPacked(c *Ctx, req *simRequester, bs, n, base int, size int64) *packedStore {
	s := &packedStore{simRequester: req, bs: bs, base: base, size: size}
	p := prng(c.Src.Seed32('W', "packed-seed"))
	at := int64(c.W("packed-header", 20))
	gaps := c.WC("packed-gaps", 1, 2)
	for i := 0; i < n; i++ {
		s.at = append(s.at, at)
		at += 1 + int64(p.n(2*bs))
		s.end = append(s.end, at)
		if gaps {
			at += int64(p.n(4))
		}
	}
	c.Hit("packed blocks")
	return s
}

func (s *packedStore) offset(what string, id uint, of []int64) int64 {
	i := int(id) - s.base
	if i < 0 || i >= len(of) {
		s.c.Fail("C05", "resolved-range", "the resolver was asked for the %s of block %d of %d", what, i, len(of))
		return -1
	}
	return of[i]
}

// GetBlockStartOffset implements blocksources.BlockSourceOffsetResolver.
func (s *packedStore) GetBlockStartOffset(id uint) int64 { return s.offset("start", id, s.at) }

// GetBlockEndOffset implements blocksources.BlockSourceOffsetResolver.
func (s *packedStore) GetBlockEndOffset(id uint) int64 { return s.offset("end", id, s.end) }

// SplitBlockRangeToDesiredSize implements blocksources.BlockSourceOffsetResolver.
func (s *packedStore) SplitBlockRangeToDesiredSize(from, to uint) (r []blocksources.QueuedRequest) {
	for from <= to {
		end := from
		for end < to && (s.whole || !s.c.WC("packed-split", 1, 3)) {
			end++
		}
		r = append(r, blocksources.QueuedRequest{StartBlockID: from, EndBlockID: end})
		from = end + 1
	}
	return r
}

// DoRequest implements blocksources.BlockSourceRequester.
func (s *packedStore) DoRequest(start, end int64) ([]byte, error) {
	i, foundI := slices.BinarySearch(s.at, start)
	j, foundJ := slices.BinarySearch(s.end, end)
	if !foundI || !foundJ || i > j {
		s.c.Fail("C05", "resolved-range", "bytes %d-%d were requested, which are not whole blocks as resolved: %v %v", start, end, s.at, s.end)
		return nil, fmt.Errorf("no blocks at %d-%d", start, end)
	}
	return s.simRequester.DoRequest(int64(s.base+i)*int64(s.bs), min(int64(s.base+j+1)*int64(s.bs), s.size))
}
