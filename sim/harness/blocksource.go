package main

import (
	"bytes"
	"crypto/md5"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/patcher"
	"verif.local/sim/simrt"
)

func init() {
	register("C05", 55, "block source, no faults", func(c *Ctx) { bsScenario(c, bsOpts{}) })
	register("C05", 30, "block source, released in any order", func(c *Ctx) { bsScenario(c, bsOpts{gate: true}) })
	register("C05", 15, "block source, many at once", func(c *Ctx) { bsScenario(c, bsOpts{many: true}) })
	register("C06", 70, "block source, stalled fetches", func(c *Ctx) { bsScenario(c, bsOpts{gate: true}) })
	register("C06", 30, "block source, stalled fetches, many at once", func(c *Ctx) { bsScenario(c, bsOpts{gate: true, many: true}) })
	register("C07", 60, "block source, failing fetches", func(c *Ctx) { bsScenario(c, bsOpts{faults: true}) })
	register("C07", 40, "block source, failing fetches released in any order", func(c *Ctx) { bsScenario(c, bsOpts{faults: true, gate: true}) })
	register("C08", 40, "block source, closed at any time", func(c *Ctx) { bsScenario(c, bsOpts{closers: true}) })
	register("C08", 20, "block source, closed with stalled fetches", func(c *Ctx) { bsScenario(c, bsOpts{closers: true, gate: true}) })
	register("C08", 25, "block source, closed around failures", func(c *Ctx) { bsScenario(c, bsOpts{closers: true, faults: true}) })
	register("C08", 15, "block source, closed around failures of stalled fetches", func(c *Ctx) { bsScenario(c, bsOpts{closers: true, faults: true, gate: true}) })
	register("C11", 15, "block source byte counter", func(c *Ctx) { bsScenario(c, bsOpts{faults: c.WC("bytes-faults", 1, 2)}) })
	register("C19", 40, "block source, damaged responses", func(c *Ctx) { bsScenario(c, bsOpts{faults: true, damage: true}) })
	register("C19", 60, "verifier history", verifierScenario)
}

type bsOpts struct {
	gate    bool // fetches wait until a controller releases them
	faults  bool
	damage  bool // only damaged data, always verified
	closers bool
	many    bool
}

type delivery struct {
	start int
	data  []byte
	seq   int64
	raw   []byte // as it was received, to see whether it changes later
}

type bsRequest struct {
	from, to int
	err      error
	done     bool
}

type bsClose struct {
	t0, t1  int64
	done    bool
	err     error
	running int
	started int
}

// gate is a fetch waiting to be released.
type gate struct {
	f  *fetch
	ch chan struct{}
}

// bsWorld is one block source with everything around it.
type bsWorld struct {
	c          *Ctx
	o          bsOpts
	bs, n      int
	base       int // block number of the first block of ref
	ref        []byte
	conc       int
	verified   bool
	src        *blocksources.BlockSourceBase
	req        *simRequester
	gates      []*gate
	deliveries []delivery
	errs       []error
	errSeq     []int64
	resClosed  bool
	errClosed  bool
	requests   []*bsRequest
	closes     []*bsClose
	consumers  int
	clients    int
	ending     bool // the run's own work is over
	ended      int  // consumers that saw both channels closed
}

func bsScenario(c *Ctx, o bsOpts) {
	w := &bsWorld{c: c, o: o}
	w.bs = c.WR("bs", 1, 6)
	w.n = c.WR("blocks", 1, 12)
	if o.many {
		w.n = c.WR("blocks-many", 10, 60)
	}
	huge := c.oversized(40)
	if huge {
		w.bs, w.n = hugeShape(c, 330)
	}
	size := w.n * w.bs
	if w.bs > 1 && c.WC("short-tail", 1, 2) {
		size -= 1 + c.W("tail-cut", w.bs-1)
	}
	p := prng(c.Src.Seed32('W', "ref-seed"))
	w.ref = p.bytes(size, 256)
	w.conc = c.WR("concurrency", 1, 5)
	if o.many {
		w.conc = c.WR("concurrency-many", 4, 24)
	}
	if c.WC("concurrency-high", 1, 12) {
		w.conc = []int{8, 9, 16, 17, 32, 33, 64, 65, 100, 256, 300}[c.W("concurrency-of", 11)]
	}
	inFlight := int64(1) << 40
	if c.Prop != "C06" && c.WC("bytes-limited", 1, 4) {
		inFlight = []int64{1, int64(w.bs), int64(3 * w.bs), 4 << 20}[c.W("bytes-limit", 4)]
	}
	w.base = genBase(c, w.bs, w.n)
	w.verified = o.damage || c.WC("verified", 1, 2)
	maxReq := 0
	resolverKind := c.WW("resolver", 30, 30, 25, 15)
	if resolverKind == 2 {
		maxReq = w.bs*c.WR("max-request-blocks", 1, 4) + c.W("max-request-extra", w.bs)
		if c.WC("tiny-max", 1, 8) {
			maxReq = 1
		}
		if huge {
			maxReq = w.bs*c.WR("max-request-blocks-huge", 1, 300) + c.W("max-request-extra", w.bs)
		}
	}
	longest := 4
	if huge && c.WC("long-spans", 1, 2) {
		longest = w.n
	}
	// which spans are requested, by whom
	style := c.WW("request-style", 35, 15, 25, 25)
	var spans []patcher.MissingBlockSpan
	at := 0
	for at < w.n {
		ln := 1
		if c.WC("span-longer", 1, 2) {
			ln = 1 + c.W("span-len", longest)
		}
		end := min(at+ln, w.n)
		if !c.WC("span-gap", 1, 5) || end == w.n && len(spans) == 0 {
			spans = append(spans, patcher.MissingBlockSpan{StartBlock: uint(at), EndBlock: uint(end - 1), BlockSize: int64(w.bs)})
		}
		at = end
	}
	clients := 1
	if style != 0 {
		clients = c.WR("clients", 1, 3)
	}
	switch style {
	case 1:
		for i, j := 0, len(spans)-1; i < j; i, j = i+1, j-1 {
			spans[i], spans[j] = spans[j], spans[i]
		}
	case 3:
		for k := c.WR("duplicates", 1, 5); k > 0; k-- {
			s := spans[c.W("dup-of", len(spans))]
			if c.WC("dup-longer", 1, 3) {
				s.EndBlock = uint(min(w.n-1, int(s.EndBlock)+1+c.W("dup-more", 3)))
			}
			spans = append(spans, s)
		}
		fallthrough
	case 2:
		for i := len(spans) - 1; i > 0; i-- {
			j := c.W("shuffle", i+1)
			spans[i], spans[j] = spans[j], spans[i]
		}
	}
	w.clients = clients
	perClient := make([][]patcher.MissingBlockSpan, clients)
	for _, s := range spans {
		k := c.W("client-of", clients)
		perClient[k] = append(perClient[k], s)
	}
	reqSlow := c.WW("request-slow", 60, 40)
	consSlow := c.WW("consumer-slow", 60, 40)

	req := newRequester(c, w.ref)
	w.req = req
	req.off = int64(w.base * w.bs)
	req.slow = c.WW("fetch-slow", 40, 60)
	if o.faults {
		m := 1 + c.F("fault-mask", 15)
		if o.damage {
			m = 0
		}
		req.fail = newFaulter(c, "fetch-error", m&1 != 0)
		if w.verified {
			if o.damage {
				m = 2 * (1 + c.F("damage-mask", 7))
			}
			req.corrupt = newFaulter(c, "fetch-corrupt", m&2 != 0)
			req.trunc = newFaulter(c, "fetch-truncated", m&4 != 0)
			req.swap = newFaulter(c, "fetch-wrong-range", m&8 != 0)
		}
	}
	if o.gate {
		req.onStart = func(f *fetch) {
			g := &gate{f: f, ch: simrt.Made(make(chan struct{}))}
			w.gates = append(w.gates, g)
			simrt.Recv2("gate", g.ch)
		}
	}
	// who listens
	listen := 0 // both channels until they are closed
	if o.closers {
		listen = c.WW("listener", 45, 12, 12, 16, 15)
	}
	nCons := 1
	if !o.closers && c.WC("second-consumer", 1, 8) {
		nCons = 2
	}
	nClose := 0
	if o.closers {
		nClose = c.WR("closers", 1, 3)
	}
	c.Describe("block size %d, %d blocks (%d bytes), concurrency %d, resolver %d (max request %d), verified %v, style %d, %d clients, %d spans, listener %d x%d, %d closers",
		w.bs, w.n, size, w.conc, resolverKind, maxReq, w.verified, style, clients, len(spans), listen, nCons, nClose)

	oc := c.Sim(simrt.Config{}, func() {
		var resolver blocksources.BlockSourceOffsetResolver
		var requester blocksources.BlockSourceRequester = req
		switch resolverKind {
		case 0:
			resolver = blocksources.MakeFileSizedBlockResolver(uint64(w.bs), req.off+int64(size))
		case 1:
			resolver = blocksources.MakeNullFixedSizeResolver(uint64(w.bs))
		case 2:
			resolver = &blocksources.FixedSizeBlockResolver{BlockSize: uint64(w.bs), FileSize: req.off + int64(size), MaxDesiredRequestSize: uint64(maxReq)}
		case 3:
			st := newPacked(c, req, w.bs, w.n, w.base, req.off+int64(size))
			resolver, requester = st, st
		}
		var v blocksources.BlockVerifier
		if w.verified {
			sums := fixedSums{base: w.base, sums: make([][]byte, w.n)}
			for i := range sums.sums {
				sums.sums[i] = md5sum(w.ref[i*w.bs : min((i+1)*w.bs, size)])
			}
			v = &filechecksum.HashVerifier{Hash: md5.New(), BlockSize: uint(w.bs), BlockChecksumGetter: sums}
		}
		w.src = blocksources.NewBlockSourceBase(requester, resolver, v, w.conc, inFlight)
		req.onEnd = sampleCounter(c, w.src)
		for k := range perClient {
			if len(perClient[k]) == 0 {
				continue
			}
			simrt.Spawn(fmt.Sprintf("client%d", k), func() { w.client(perClient[k], reqSlow) })
		}
		for k := 0; k < nCons; k++ {
			w.consumers++
			simrt.Spawn("consumer", func() { w.consume(listen, consSlow) })
		}
		for k := 0; k < nClose; k++ {
			simrt.Spawn("closer", func() {
				for j := c.W("close-after", 12); j > 0; j-- {
					pause(c, 1)
				}
				w.close()
			})
		}
		if o.gate {
			w.control()
		} else {
			simrt.WaitIdle()
		}
		if c.Infra != "" || len(c.Viol) > 0 {
			return
		}
		w.settled(true)
		w.ending = true
		// the end of every run: close, and everything has to be gone
		n := len(w.req.fetches)
		w.close()
		simrt.WaitIdle()
		if len(w.req.fetches) != n {
			c.Fail("C08", "fetch-after-close", "a fetch started after Close returned on a quiet source: %s", fetchList(w.req.fetches[n:]))
		}
		w.settled(false)
	})
	if !c.Report(oc, "C08", "block source") {
		if len(c.Viol) > 0 {
			// whichever part of the contract was being exercised, this breaks it
			v := c.Viol[len(c.Viol)-1]
			if v.Kind == "panic" && w.anyFailed() {
				c.Fail("C07", v.Kind, "%s", v.Msg)
			}
			if w.ending {
				return
			}
			for _, pr := range []string{"C05", "C06", "C07", "C19"} {
				if c.Prop == pr {
					c.Fail(pr, v.Kind, "%s", v.Msg)
				}
			}
		}
		return
	}
}

// fixedSums are the checksums of the blocks from base on.
type fixedSums struct {
	base int
	sums [][]byte
}

func (s fixedSums) GetStrongChecksumForBlock(i int) []byte {
	if i < s.base || i-s.base >= len(s.sums) {
		return nil
	}
	return s.sums[i-s.base]
}

func (w *bsWorld) client(spans []patcher.MissingBlockSpan, slow int) {
	for _, s := range spans {
		pause(w.c, slow)
		r := &bsRequest{from: int(s.StartBlock), to: int(s.EndBlock)}
		w.requests = append(w.requests, r)
		simrt.Logf("request blocks %d-%d", r.from, r.to)
		s.StartBlock += uint(w.base)
		s.EndBlock += uint(w.base)
		r.err = w.src.RequestBlocks(s)
		r.done = true
		simrt.Logf("request blocks %d-%d: %v", r.from, r.to, r.err)
	}
}

// consume reads results and errors. Listener kinds: 0 both until closed, 1 results only, 2 errors
// only, 3 both but stops after a few, 4 nobody.
func (w *bsWorld) consume(kind, slow int) {
	res, errs := w.src.GetResultChannel(), w.src.EncounteredError()
	if kind == 4 {
		return
	}
	if kind == 1 {
		errs = nil
	}
	if kind == 2 {
		res = nil
	}
	left := 1 << 30
	if kind == 3 {
		left = w.c.W("reads", 4)
	}
	for (res != nil || errs != nil) && left > 0 {
		left--
		pause(w.c, slow)
		rc, ec := simrt.RecvCase(res), simrt.RecvCase(errs)
		if simrt.Select("consumer", false, rc, ec) == 0 {
			if !rc.OK {
				w.resClosed = true
				res = nil
				continue
			}
			w.deliver(rc.V)
		} else {
			if !ec.OK {
				w.errClosed = true
				errs = nil
				continue
			}
			simrt.Logf("received error %v", ec.V)
			w.errs = append(w.errs, ec.V)
			w.errSeq = append(w.errSeq, simrt.Seq())
			w.checkError(ec.V)
		}
	}
	if left > 0 {
		w.ended++
	}
}

func (w *bsWorld) startOf(f *fetch) int { return int(f.start) / w.bs }

// good tells whether a fetch delivered data that passes verification.
func (w *bsWorld) good(f *fetch) bool {
	if !f.done || f.err != nil {
		return false
	}
	if !w.verified || !f.bad {
		return true
	}
	for i := 0; i*w.bs < len(f.data); i++ {
		b := f.start + int64(i*w.bs)
		if b < int64(len(w.ref)) && !bytes.Equal(f.data[i*w.bs:min((i+1)*w.bs, len(f.data))], w.ref[b:w.req.clip(b+int64(w.bs))]) {
			return false
		}
	}
	return true
}

func (w *bsWorld) deliver(r patcher.BlockReponse) {
	c := w.c
	simrt.Reads(r.Data)
	d := delivery{int(r.StartBlock) - w.base, append([]byte(nil), r.Data...), simrt.Seq(), r.Data}
	simrt.Note('d', d.start)
	simrt.Logf("received response for block %d, %d bytes", d.start, len(d.data))
	w.deliveries = append(w.deliveries, d)
	// it belongs to a fetch that was not delivered yet
	same := func(f *fetch) bool {
		return w.good(f) && f.start == int64(d.start*w.bs) && bytes.Equal(f.data, d.data)
	}
	have, got := 0, 0
	t1 := int64(1) << 62
	for _, f := range w.req.fetches {
		if same(f) {
			have++
			t1 = min(t1, f.t1)
		}
	}
	for _, e := range w.deliveries {
		if e.start == d.start && bytes.Equal(e.data, d.data) {
			got++
		}
	}
	if have < got {
		failed := false
		for _, f := range w.req.fetches {
			if f.done && !w.good(f) && f.start <= int64(d.start*w.bs) && int64(d.start*w.bs) < f.end {
				failed = true
			}
		}
		if failed {
			c.Fail("C07", "data-for-failed", "a response for block %d (%d bytes) was delivered although its fetch failed or did not verify: %s", d.start, len(d.data), w.history())
		}
		kind := "not-fetched"
		if have > 0 {
			kind = "repeated"
		}
		c.Fail("C05", kind, "response %d for block %d (%d bytes) matches %d finished fetches: %s", got, d.start, len(d.data), have, w.history())
		return
	}
	if w.consumers > 1 {
		return
	}
	// no lower block, whose fetch was already under way, is still undelivered
	type key struct {
		start int64
		n     int64
	}
	need := map[key]int{}
	for _, f := range w.req.fetches {
		if f.start < int64(d.start*w.bs) && f.t0 < t1 {
			need[key{f.start, min(f.end, int64(len(w.ref))) - f.start}]++
		}
	}
	for _, e := range w.deliveries {
		need[key{int64(e.start * w.bs), int64(len(e.data))}]--
	}
	for k, n := range need {
		if n > 0 {
			c.Fail("C05", "order", "the response for block %d was delivered before that for block %d, whose fetch had started before the former's ended: %s", d.start, int(k.start)/w.bs, w.history())
			return
		}
	}
}

func (w *bsWorld) checkError(err error) {
	if err == nil {
		w.c.Fail("C07", "nil-error", "a nil error was delivered: %s", w.history())
		return
	}
	for _, f := range w.req.fetches {
		if f.done && f.err != nil && (errors.Is(err, f.err) || strings.Contains(err.Error(), f.err.Error())) {
			return
		}
	}
	for _, f := range w.req.fetches {
		if f.done && f.err == nil && !w.good(f) {
			return // a verification failure
		}
	}
	prop := "C07"
	if w.verified {
		w.c.Fail("C19", "good-rejected", "the source reported %q although every fetch returned right data: %s", err, w.history())
	}
	w.c.Fail(prop, "invented-error", "the source reported %q, which none of the fetches explains: %s", err, w.history())
	w.c.Fail("C05", "error-without-fault", "the source reported %q, which none of the fetches explains: %s", err, w.history())
}

func (w *bsWorld) close() {
	cl := &bsClose{t0: simrt.Seq()}
	w.closes = append(w.closes, cl)
	simrt.Logf("Close called")
	cl.err = w.src.Close()
	cl.t1, cl.done = simrt.Seq(), true
	cl.running, cl.started = w.req.running, len(w.req.fetches)
	simrt.Logf("Close returned %v", cl.err)
	w.c.Hit("Close")
	if cl.err != nil && cl.err != blocksources.BlockSourceAlreadyClosedError {
		w.c.Fail("C08", "close-error", "Close returned %v", cl.err)
	}
}

// unstarted is the number of accepted blocks whose fetch has not started.
func (w *bsWorld) unstarted() int {
	n := 0
	for _, r := range w.requests {
		if r.done && r.err == nil {
			n += r.to - r.from + 1
		}
	}
	for _, f := range w.req.fetches {
		n -= blocksOf(int(f.end-f.start), w.bs)
	}
	return n
}

func (w *bsWorld) open() bool { return len(w.closes) == 0 && !w.anyFailed() }

func (w *bsWorld) anyFailed() bool {
	for _, f := range w.req.fetches {
		if f.done && !w.good(f) {
			return true
		}
	}
	return false
}

// control releases gated fetches in an order of its choosing, and looks at the source whenever it
// has come to rest.
func (w *bsWorld) control() {
	c := w.c
	order := c.WW("release-order", 40, 20, 20, 20)
	for {
		simrt.WaitIdle()
		w.checkRest()
		if len(c.Viol) > 0 {
			return
		}
		if len(w.gates) == 0 {
			return
		}
		k := 1
		if c.WC("release-several", 1, 4) {
			k = 1 + c.W("release-count", len(w.gates))
		}
		for ; k > 0 && len(w.gates) > 0; k-- {
			i := 0
			switch order {
			case 0:
				i = c.W("release", len(w.gates))
			case 1:
				i = len(w.gates) - 1
			case 2, 3: // highest or lowest block first
				for j := range w.gates {
					if (w.gates[j].f.start > w.gates[i].f.start) == (order == 2) {
						i = j
					}
				}
			}
			g := w.gates[i]
			w.gates = append(w.gates[:i], w.gates[i+1:]...)
			simrt.Close("release", g.ch)
		}
		if c.WC("control-wait", 1, 3) {
			simrt.Sleep(time.Duration(1+c.W("control-ms", 50)) * time.Millisecond)
		}
	}
}

// checkRest looks at a source that has come to rest with stalled fetches.
func (w *bsWorld) checkRest() {
	c := w.c
	if w.open() {
		if u := w.unstarted(); u > 0 && w.req.running < w.conc {
			c.Fail("C06", "idle-slot", "at rest, %d fetches in progress with a limit of %d while %d requested blocks wait: %s", w.req.running, w.conc, u, w.history())
		}
		if w.req.running == w.conc {
			c.Hit("limit reached")
		}
	}
	for _, cl := range w.closes {
		if !cl.done {
			c.Fail("C08", "close-blocked", "Close does not return while %d fetches are stalled: %s", w.req.running, w.history())
		}
	}
}

// settled checks a source at rest with no fetch in progress; open: before the final Close.
func (w *bsWorld) settled(before bool) {
	c := w.c
	if w.req.running > 0 {
		c.Infra = fmt.Sprintf("%d fetches in progress at rest", w.req.running)
		return
	}
	if w.req.maxRun > w.conc {
		c.Fail("C06", "limit-exceeded", "%d fetches were in progress at once, the limit is %d: %s", w.req.maxRun, w.conc, w.history())
	}
	for _, d := range w.deliveries {
		if !bytes.Equal(d.raw, d.data) {
			c.Fail("C05", "changed", "the data of the response for block %d was changed after it had been delivered: %s", d.start, w.history())
			return
		}
	}
	failed := w.anyFailed()
	closedFirst := false
	for _, cl := range w.closes {
		if !cl.done {
			c.Fail("C08", "close-blocked", "Close did not return: %s", w.history())
			return
		}
		closedFirst = true
		// nothing new was started after it returned, beyond what had been dispatched
		if n := len(w.req.fetches) - cl.started; n > w.conc-cl.running {
			c.Fail("C08", "fetch-after-close", "%d fetches started after Close returned with %d of %d in progress: %s", n, cl.running, w.conc, w.history())
		}
	}
	listening := w.ended == w.consumers || before && !w.o.closers
	for _, r := range w.requests {
		if !r.done {
			if before && !failed && !closedFirst {
				c.Fail("C05", "request-blocked", "RequestBlocks(%d-%d) did not return on an open source: %s", r.from, r.to, w.history())
			}
			if closedFirst || failed && listening {
				c.Fail("C08", "request-blocked", "RequestBlocks(%d-%d) did not return: %s", r.from, r.to, w.history())
				c.Fail("C07", "request-blocked", "RequestBlocks(%d-%d) did not return: %s", r.from, r.to, w.history())
			}
		} else if r.err != nil && !failed && !closedFirst {
			c.Fail("C05", "request-refused", "RequestBlocks(%d-%d) failed on an open source: %v", r.from, r.to, r.err)
		}
	}
	if got, want := w.src.ReadBytes(), w.req.okBytes(); got != want {
		c.Fail("C11", "byte-count", "the source counted %d bytes, its successful fetches returned %d: %s", got, want, w.history())
	}
	down := closedFirst
	if failed && !w.o.closers {
		// the consumer kept listening
		c.Hit("failure reported")
		down = true
		if len(w.errs) == 0 {
			c.Fail("C07", "not-reported", "a fetch failed but no error was delivered: %s", w.history())
			if w.verified {
				c.Fail("C19", "bad-accepted", "damaged data was not reported: %s", w.history())
			}
		}
	}
	if before && !failed && !closedFirst && !w.o.closers {
		// everything requested was delivered exactly once
		want, got := make([]int, w.n), make([]int, w.n)
		for _, r := range w.requests {
			for b := r.from; b <= r.to; b++ {
				want[b]++
			}
		}
		for _, d := range w.deliveries {
			for b := d.start; b < d.start+blocksOf(len(d.data), w.bs) && b < w.n; b++ {
				got[b]++
			}
		}
		for b := range want {
			if want[b] != got[b] {
				c.Fail("C05", "count", "block %d was requested %d times and delivered %d times: %s", b, want[b], got[b], w.history())
				break
			}
		}
		if len(w.requests) > 1 && w.clients == 1 {
			asc := true
			for i := 1; i < len(w.requests); i++ {
				asc = asc && w.requests[i].from > w.requests[i-1].to
			}
			if asc && w.consumers == 1 {
				c.Hit("ascending requests")
				for i := 1; i < len(w.deliveries); i++ {
					if w.deliveries[i].start <= w.deliveries[i-1].start {
						c.Fail("C05", "ascending", "requests were made in ascending order but block %d was delivered after block %d: %s", w.deliveries[i].start, w.deliveries[i-1].start, w.history())
						break
					}
				}
			}
		}
		if w.unstarted() != 0 {
			c.Fail("C06", "never-started", "%d requested blocks were never fetched: %s", w.unstarted(), w.history())
		}
	}
	if down {
		w.isDown(closedFirst)
	}
}

// isDown checks that the source is gone completely.
func (w *bsWorld) isDown(closed bool) {
	c := w.c
	w.ending = true
	prop := "C07"
	if closed {
		prop = "C08"
	}
	if n, d := simrt.LiveRepoTasks(); n > 0 {
		c.Fail(prop, "goroutine-left", "%d goroutines are left after the shutdown: %s; %s", n, strings.Join(d, "; "), w.history())
		return
	}
	var got patcher.BlockReponse
	gotRes, gotErr := 0, 0
	simrt.Spawn("probe-results", func() {
		var ok bool
		got, ok = simrt.Recv2("probe", w.src.GetResultChannel())
		gotRes = 1
		if ok {
			gotRes = 2
		}
	})
	simrt.Spawn("probe-errors", func() {
		_, ok := simrt.Recv2("probe", w.src.EncounteredError())
		gotErr = 1
		if ok {
			gotErr = 2
		}
	})
	var rerr error
	refused := false
	simrt.Spawn("probe-request", func() {
		rerr = w.src.RequestBlocks(patcher.MissingBlockSpan{StartBlock: 0, EndBlock: 0, BlockSize: int64(w.bs)})
		refused = true
	})
	n := len(w.req.fetches)
	simrt.WaitIdle()
	switch {
	case gotRes != 1:
		c.Fail(prop, "results-open", "after the shutdown the result channel is not closed (state %d, block %d): %s", gotRes, got.StartBlock, w.history())
	case gotErr != 1:
		c.Fail(prop, "errors-open", "after the shutdown the error channel is not closed (state %d): %s", gotErr, w.history())
	case !refused:
		c.Fail(prop, "late-request-blocked", "RequestBlocks after the shutdown does not return: %s", w.history())
	case rerr == nil:
		c.Fail(prop, "late-request-accepted", "RequestBlocks after the shutdown returned nil: %s", w.history())
	case len(w.req.fetches) != n:
		c.Fail(prop, "late-request-fetched", "a request after the shutdown was fetched: %s", w.history())
	}
}

func (w *bsWorld) history() string {
	var s []string
	for _, f := range w.req.fetches {
		st := "running"
		if f.done {
			st = fmt.Sprintf("ended@%d", f.t1)
			if f.err != nil {
				st += " failed"
			} else if f.bad {
				st += " damaged"
			}
		}
		s = append(s, fmt.Sprintf("fetch block %d (%d-%d) @%d %s", w.startOf(f), f.start, f.end, f.t0, st))
	}
	for _, d := range w.deliveries {
		s = append(s, fmt.Sprintf("delivered block %d (%d bytes) @%d", d.start, len(d.data), d.seq))
	}
	for i, e := range w.errs {
		s = append(s, fmt.Sprintf("error %q @%d", e, w.errSeq[i]))
	}
	for _, cl := range w.closes {
		s = append(s, fmt.Sprintf("Close @%d-%d %v", cl.t0, cl.t1, cl.err))
	}
	if len(s) > 40 {
		s = append(s[:40], "...")
	}
	return strings.Join(s, ", ")
}

// verifierScenario presents a history of ranges to one verifier.
func verifierScenario(c *Ctx) {
	bs := c.WR("bs", 1, 9)
	n := c.WR("blocks", 1, 12)
	longest := 5
	if c.oversized(40) {
		bs, n = hugeShape(c, 3000)
		longest = n
	}
	size := n * bs
	if bs > 1 && c.WC("short-tail", 1, 2) {
		size -= 1 + c.W("tail-cut", bs-1)
	}
	p := prng(c.Src.Seed32('W', "ref-seed"))
	ref := p.bytes(size, 256)
	if c.WC("low-entropy", 1, 3) {
		ref = p.bytes(size, 2)
	}
	base := genBase(c, bs, n)
	sums := fixedSums{base: base, sums: make([][]byte, n)}
	unknown := c.WW("unknown-sums", 3, 1)
	for i := range sums.sums {
		if unknown == 0 || !c.WC("unknown-sum", 1, 4) {
			sums.sums[i] = md5sum(ref[i*bs : min((i+1)*bs, size)])
		}
	}
	// the getter an index gives, if it can hold these
	var getter filechecksum.ChecksumLookup = sums
	if base == 0 && unknown == 0 && c.WC("index-getter", 1, 2) {
		g := make(chunks.StrongChecksumGetter, n)
		for i := range g {
			g[i] = chunks.ChunkChecksum{ChunkOffset: uint(i), StrongChecksum: sums.sums[i]}
		}
		getter = g
		c.Hit("the checksums of an index")
	}
	c.Describe("block size %d, %d blocks, %d bytes", bs, n, size)
	oc := c.Sim(simrt.Config{}, func() {
		v := &filechecksum.HashVerifier{Hash: md5.New(), BlockSize: uint(bs), BlockChecksumGetter: getter}
		var hist []string
		for k := c.WR("calls", 1, 10); k > 0; k-- {
			from := c.W("from", n)
			to := from + c.W("len", min(n-from, longest))
			data := append([]byte(nil), ref[from*bs:min((to+1)*bs, size)]...)
			how := "right"
			switch c.FW("damage", 45, 25, 12, 8, 10) {
			case 1:
				how = "flipped"
				c.Fault("fetch-corrupt")
				data[c.F("flip-at", len(data))] ^= byte(1 + c.F("flip", 255))
			case 2:
				how = "truncated"
				c.Fault("fetch-truncated")
				data = data[:cutTo(c, "trunc-to", len(data))]
			case 3:
				how = "extended"
				c.Fault("fetch-overlong")
				data = append(data, p.bytes(1+c.F("extra", 2*bs), 256)...)
			case 4:
				how = "other range"
				c.Fault("fetch-wrong-range")
				at := c.F("swap-to", size)
				data = append([]byte(nil), ref[at:min(at+len(data), size)]...)
			}
			want := true
			for i := 0; i*bs < len(data); i++ {
				e := sums.GetStrongChecksumForBlock(base + from + i)
				if e != nil && !bytes.Equal(e, md5sum(data[i*bs:min((i+1)*bs, len(data))])) {
					want = false
				}
			}
			before := append([]byte(nil), data...)
			got := v.VerifyBlockRange(uint(base+from), data)
			hist = append(hist, fmt.Sprintf("blocks %d-%d %s (%d bytes) -> %v", from, to, how, len(data), got))
			simrt.Logf("%s", hist[len(hist)-1])
			simrt.Point()
			if got != want {
				kind := "good-rejected"
				if got {
					kind = "bad-accepted"
				}
				c.Fail("C19", kind, "verifying block %d on gave %v, right is %v; calls so far: %s", from, got, want, strings.Join(hist, "; "))
				return
			}
			if !bytes.Equal(before, data) {
				c.Fail("C19", "data-changed", "verification changed the data: %s", strings.Join(hist, "; "))
				return
			}
			c.Hit(fmt.Sprintf("verdict %v for %s data", got, how))
		}
	})
	c.Report(oc, "C19", "verifier")
}

// sampleCounter reads the byte counter whenever a fetch ends: it never decreases. Several tasks
// may do so at once, so a value is only compared with those known before reading began.
func sampleCounter(c *Ctx, src *blocksources.BlockSourceBase) func(*fetch) {
	last := int64(0)
	return func(*fetch) {
		before := last
		b := src.ReadBytes()
		if b < before {
			c.Fail("C11", "counter-decreased", "the byte counter went from %d to %d", before, b)
		}
		last = max(last, b)
	}
}
