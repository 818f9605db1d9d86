package main

import (
	"crypto/md5"
	"fmt"
	"strings"

	gosync "github.com/Redundancy/go-sync"
	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/index"
	"github.com/Redundancy/go-sync/indexbuilder"
	"verif.local/sim/simrt"

	"bytes"
)

func init() {
	register("C01", 60, "patch, faults", func(c *Ctx) { patchScenario(c, patchOpts{faults: 75}) })
	register("C01", 25, "patch, no faults", func(c *Ctx) { patchScenario(c, patchOpts{}) })
	register("C01", 15, "patch, medium, faults", func(c *Ctx) { patchScenario(c, patchOpts{faults: 50, size: sizeMedium}) })
	register("C02", 75, "patch, no faults", func(c *Ctx) { patchScenario(c, patchOpts{split: true}) })
	register("C02", 25, "patch, medium, no faults", func(c *Ctx) { patchScenario(c, patchOpts{size: sizeMedium, split: true}) })
	register("C03", 70, "patch, damaged responses", func(c *Ctx) { patchScenario(c, patchOpts{faults: 100, damage: true}) })
	register("C03", 30, "patch, faults", func(c *Ctx) { patchScenario(c, patchOpts{faults: 100}) })
	register("C04", 85, "patch, faults", func(c *Ctx) { patchScenario(c, patchOpts{faults: 95}) })
	register("C04", 15, "patch, medium, faults", func(c *Ctx) { patchScenario(c, patchOpts{faults: 80, size: sizeMedium}) })
	register("C11", 70, "patch, no faults", func(c *Ctx) { patchScenario(c, patchOpts{}) })
	register("C11", 30, "patch, faults", func(c *Ctx) { patchScenario(c, patchOpts{faults: 100}) })
}

type patchOpts struct {
	faults int // percentage of runs with faults
	damage bool
	size   int
	split  bool
	seeker bool // the source is a seekable file
}

// buildIndex runs the real generator and loader over the reference.
func buildIndex(p *Pair) (*index.ChecksumIndex, filechecksum.ChecksumLookup, error) {
	g := filechecksum.NewFileChecksumGenerator(uint(p.bs))
	_, idx, lookup, err := indexbuilder.BuildChecksumIndex(g, bytes.NewReader(p.ref))
	return idx, lookup, err
}

func summaryOf(p *Pair, idx *index.ChecksumIndex, lookup filechecksum.ChecksumLookup) *gosync.BasicSummary {
	return &gosync.BasicSummary{BlockSize: uint(p.bs), BlockCount: uint(p.n), FileSize: int64(len(p.ref)), ChecksumIndex: idx, ChecksumLookup: lookup}
}

func patchScenario(c *Ctx, o patchOpts) {
	c.single = true
	p := genPair(c, o.size)
	gosync.DefaultConcurrency = genMatchers(c, 6)
	conc := c.WR("source-concurrency", 1, 4)
	if k := c.WW("bufsize", 30, 40, 30); k > 0 {
		simrt.BufSize = []int{0, 16, 64}[k]
	}
	inMode := genIOMode(c)
	verified := o.damage || c.WC("verified", 3, 4)
	nullResolver := c.WC("null-resolver", 1, 4)
	maxReq := 0
	if o.split && c.WC("split-resolver", 1, 12) {
		maxReq = p.bs * max(c.WR("max-request-blocks", 1, 4), p.n/300)
	}
	packed := maxReq == 0 && !o.seeker && c.WC("packed", 1, 8)
	faulty := o.faults > 0 && c.FC("faulty", o.faults, 100)
	mask := 0
	if faulty {
		mask = 1 + c.F("fault-mask", 255)
	}
	f := func(bit int) bool { return mask&(1<<bit) != 0 }
	in := newInput(c, p.local, inMode, f(0), f(1), f(2))
	if c.WC("position", 1, 4) {
		in.pos = c.W("position-at", len(p.local)+1)
	}
	req := newRequester(c, p.ref)
	req.slow = inMode.slow
	var remote *soloInput
	if o.seeker {
		remote = newSolo(c, p.ref, genIOMode(c), f(4), f(5), f(6))
	}
	out := &simOutput{c: c, want: p.ref, err: newFaulter(c, "output-write-error", f(3)), slow: c.WW("out-slow", 80, 20), check: true}
	req.fail = newFaulter(c, "fetch-error", f(4))
	if verified && (f(5) || o.damage) {
		kinds := 1 + c.F("damage-mask", 15)
		req.corrupt = newFaulter(c, "fetch-corrupt", kinds&1 != 0)
		req.trunc = newFaulter(c, "fetch-truncated", kinds&2 != 0)
		req.long = newFaulter(c, "fetch-overlong", kinds&4 != 0)
		req.swap = newFaulter(c, "fetch-wrong-range", kinds&8 != 0)
	}
	c.Describe("matchers %d, source concurrency %d, verified %v, buffers %d, io %+v, split %d", gosync.DefaultConcurrency, conc, verified, simrt.BufSize, inMode, maxReq)

	var err error
	patched := false
	var source *blocksources.BlockSourceBase
	var bytesEnd int64
	oc := c.Sim(simrt.Config{}, func() {
		idx, lookup, e := buildIndex(p)
		if e != nil {
			c.Fail("C02", "index", "building the index of the reference failed: %v", e)
			return
		}
		var resolver blocksources.BlockSourceOffsetResolver
		var requester blocksources.BlockSourceRequester = req
		switch {
		case packed:
			st := newPacked(c, req, p.bs, p.n, 0, int64(len(p.ref)))
			st.whole = true
			resolver, requester = st, st
		case maxReq > 0:
			resolver = &blocksources.FixedSizeBlockResolver{BlockSize: uint64(p.bs), FileSize: int64(len(p.ref)), MaxDesiredRequestSize: uint64(maxReq)}
		case nullResolver:
			resolver = blocksources.MakeNullFixedSizeResolver(uint64(p.bs))
		default:
			resolver = blocksources.MakeFileSizedBlockResolver(uint64(p.bs), int64(len(p.ref)))
		}
		var v blocksources.BlockVerifier
		if verified {
			v = &filechecksum.HashVerifier{Hash: md5.New(), BlockSize: uint(p.bs), BlockChecksumGetter: lookup}
		}
		source = blocksources.NewBlockSourceBase(requester, resolver, v, conc, []int64{1 << 20, int64(p.bs), 1}[c.WW("bytes-limit", 80, 10, 10)])
		if o.seeker {
			source.Close()
			source = blocksources.NewReadSeekerBlockSource(remote, resolver)
		}
		rs := &gosync.RSync{
			Input: in, Source: source, Output: out,
			Summary: summaryOf(p, idx, lookup),
		}
		req.onEnd = sampleCounter(c, source)
		err = rs.Patch()
		patched = true
		simrt.Logf("Patch returned %v", err)
		// no fetch is left waiting for anything: let the source settle, read its counter
		simrt.WaitIdle()
		bytesEnd = source.ReadBytes()
	})
	fired := len(c.Faults) > 0
	ok := c.Report(oc, "C04", "Patch")
	if !ok {
		if o.seeker && c.Infra == "" {
			c.Fail("C25", "no-result", "Patch from a seekable source did not return: panic=%q deadlock=%v limit=%v %v; faults %v", oc.Panic, oc.Deadlock, oc.LimitHit, oc.Blocked, c.Faults)
		}
		if !fired && c.Infra == "" {
			c.Fail("C02", "no-result", "Patch without any fault did not return: panic=%q deadlock=%v limit=%v %v", oc.Panic, oc.Deadlock, oc.LimitHit, oc.Blocked)
		}
		return
	}
	if !patched {
		return
	}
	if err == nil {
		c.Hit("patch succeeded")
		if !bytes.Equal(out.got, p.ref) {
			c.Fail("C01", "wrong-output", "Patch returned nil but wrote %s; faults %v", describeDiff(out.got, p.ref), c.Faults)
			if o.seeker {
				c.Fail("C25", "wrong-output", "Patch from a seekable source returned nil but wrote %s; faults %v", describeDiff(out.got, p.ref), c.Faults)
			}
		}
	} else {
		c.Hit("patch failed")
		if !fired {
			kind := "patch-failed"
			if maxReq > 0 && strings.Contains(err.Error(), "Unexpected reponse length") {
				kind = "split-response"
			}
			c.Fail("C02", kind, "Patch failed without any fault: %v", err)
			if o.seeker {
				c.Fail("C25", kind, "Patch from a seekable source failed without any fault: %v", err)
			}
		}
	}
	if o.seeker {
		if fired && err == nil && (remote.failed > 0 || remote.seekErr.fired > 0) {
			c.Fail("C25", "error-lost", "Patch returned nil although its source failed: %v", c.Faults)
		}
		return
	}
	checkFetches(c, "C11", p, req.fetches, !fired && err == nil, gosync.DefaultConcurrency, nullResolver)
	if bytesEnd != req.okBytes() {
		c.Fail("C11", "byte-count", "the source counted %d bytes, its successful fetches returned %d (%d fetches)", bytesEnd, req.okBytes(), len(req.fetches))
	}
}

// checkFetches checks which ranges of the reference were fetched.
func checkFetches(c *Ctx, prop string, p *Pair, fs []*fetch, complete bool, matchers int, unclipped bool) {
	covered := make([]int, p.n)
	for _, f := range fs {
		if f.start < 0 || f.end <= f.start || f.start%int64(p.bs) != 0 ||
			(f.end%int64(p.bs) != 0 && f.end != int64(len(p.ref))) || f.start >= int64(len(p.ref)) {
			c.Fail(prop, "bad-range", "fetched bytes %d-%d of a reference of %d bytes in blocks of %d", f.start, f.end, len(p.ref), p.bs)
			return
		}
		if f.end > int64(len(p.ref)) && !(unclipped && blocksOf(int(f.end), p.bs) == p.n) {
			c.Fail(prop, "outside", "fetched bytes %d-%d of a reference of %d bytes", f.start, f.end, len(p.ref))
			return
		}
		for b := int(f.start) / p.bs; b < blocksOf(int(f.end), p.bs) && b < p.n; b++ {
			covered[b]++
			if covered[b] > 1 {
				c.Fail(prop, "fetched-twice", "block %d was fetched twice: %s", b, fetchList(fs))
				return
			}
		}
	}
	if !complete || p.n == 0 {
		return
	}
	// what the matchers certainly scan: the windows inside the first FileSize bytes
	must, may := p.mustFind(len(p.ref))
	_, mayAll := p.mustFind(len(p.local))
	_ = may
	for b := 0; b < p.n; b++ {
		switch {
		case covered[b] > 0 && must[b]:
			c.Fail(prop, "fetched-local-block", "block %d of %d occurs in the local file but was fetched: %s", b, p.n, fetchList(fs))
			return
		case covered[b] == 0 && !mayAll[b]:
			c.Fail(prop, "not-fetched", "block %d of %d does not occur in the local file and was not fetched: %s", b, p.n, fetchList(fs))
			return
		}
	}
	if bytes.Equal(p.local, p.ref) && len(p.ref) >= p.bs {
		c.Hit("identical file, no fetch expected")
		if len(fs) > 0 {
			c.Fail(prop, "fetch-for-identical", "the local file is identical to the reference (%d bytes, block size %d, %d matchers) and still there were fetches: %s", len(p.ref), p.bs, matchers, fetchList(fs))
		}
	}
}

func fetchList(fs []*fetch) string {
	var s []string
	for i, f := range fs {
		if i == 20 {
			s = append(s, "...")
			break
		}
		s = append(s, fmt.Sprintf("%d-%d", f.start, f.end))
	}
	return strings.Join(s, " ")
}
