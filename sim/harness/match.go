package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	gosync "github.com/Redundancy/go-sync"
	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/comparer"
	"github.com/Redundancy/go-sync/filechecksum"
	"verif.local/sim/simrt"
)

func init() {
	register("C09", 55, "concurrent matching, faults", func(c *Ctx) { matchScenario(c, 70, sizeSmall, false) })
	register("C09", 10, "concurrent matching, medium", func(c *Ctx) { matchScenario(c, 30, sizeMedium, false) })
	register("C09", 35, "merging of result streams", mergeScenario)
	register("C10", 55, "concurrent matching twice", func(c *Ctx) { matchScenario(c, 0, sizeSmall, true) })
	register("C10", 15, "concurrent matching twice, medium", func(c *Ctx) { matchScenario(c, 0, sizeMedium, true) })
	register("C10", 30, "patch twice", patchTwice)
}

// section is a part of the local file given to one matcher.
type section struct{ from, to int }

func (s section) String() string { return fmt.Sprintf("%d-%d", s.from, s.to) }

// genSections cuts the local file; neighbours overlap by at least one block.
func genSections(c *Ctx, p *Pair) []section {
	n := len(p.local)
	var secs []section
	switch c.WW("sections", 25, 45, 30) {
	case 0:
		secs = []section{{0, n}}
	case 1: // like RSync.Patch: equal, aligned, cover the size of the reference
		k := max(2, genMatchers(c, 6))
		size := n / k
		size += p.bs - size%p.bs
		for i := 0; i < k; i++ {
			secs = append(secs, section{min(n, i*size), min(n, (i+1)*size+p.bs)})
		}
	case 2: // anywhere
		at := 0
		for at < n && len(secs) < 8 {
			end := min(n, at+1+c.W("section-len", max(1, min(n, 6*p.bs))))
			secs = append(secs, section{at, min(n, end+p.bs+c.W("overlap", 2*p.bs))})
			at = end
		}
		if at < n || len(secs) == 0 {
			secs = append(secs, section{at, n})
		}
	}
	if c.WC("sections-reversed", 1, 4) {
		sort.Slice(secs, func(i, j int) bool { return secs[i].from > secs[j].from })
	}
	return secs
}

// matchOnce runs the real matchers, which may share one Comparer, and the merger; it returns the
// found and missing spans.
func matchOnce(c *Ctx, p *Pair, secs []section, base int64, faulty bool, shared *comparer.Comparer) (found, missing comparer.BlockSpanList, ok bool) {
	idx, _, err := buildIndex(p)
	if err != nil {
		c.Fail("C12", "index", "building the index of the reference failed: %v", err)
		return
	}
	m := &comparer.MatchMerger{}
	tapped := c.WC("tapped", 1, 2)
	var taps []*tap
	for _, s := range secs {
		r := &simReader{c: c, data: p.local[s.from:s.to], mode: genIOMode(c), err: newFaulter(c, "local-read-error", faulty && c.FC("this-section", 1, 2))}
		cmp := shared
		if cmp == nil {
			cmp = &comparer.Comparer{}
		}
		st := cmp.StartFindMatchingBlocks(r, base+int64(s.from), filechecksum.NewFileChecksumGenerator(uint(p.bs)), idx)
		if tapped {
			t := &tap{r: r, sec: s}
			taps = append(taps, t)
			st = t.listen(c, st)
		}
		m.StartMergeResultStream(st, int64(p.bs))
	}
	found = m.GetMergedBlocks()
	missing = found.GetMissingBlocks(uint(p.n - 1))
	if !tapped {
		return found, missing, true
	}
	simrt.WaitIdle()
	have := map[uint]bool{}
	for _, f := range found {
		for b := f.StartBlock; b <= f.EndBlock; b++ {
			have[b] = true
		}
	}
	for _, t := range taps {
		if !t.check(c, p, base, have) {
			return nil, nil, false
		}
	}
	return found, missing, true
}

// tap records a result stream between matcher and merger.
type tap struct {
	r    *simReader
	sec  section
	got  []comparer.BlockMatchResult
	done bool
}

func (t *tap) listen(c *Ctx, from <-chan comparer.BlockMatchResult) <-chan comparer.BlockMatchResult {
	to := simrt.Made(make(chan comparer.BlockMatchResult))
	simrt.Spawn("tap", func() {
		defer simrt.Close("tap", to)
		failed := false
		for {
			r, ok := simrt.Recv2("tap", from)
			if !ok {
				t.done = true
				return
			}
			t.got = append(t.got, r)
			if !failed {
				simrt.Sender("tap", to)(r)
			}
			failed = failed || r.Err != nil
		}
	})
	return to
}

func (t *tap) check(c *Ctx, p *Pair, base int64, have map[uint]bool) bool {
	if !t.done {
		c.Fail("C09", "stream-open", "the result stream of section %v did not end", t.sec)
		return false
	}
	var err error
	for i, r := range t.got {
		if r.Err != nil {
			err = r.Err
			if i != len(t.got)-1 {
				c.Fail("C09", "results-after-error", "section %v: error %q is not the last of %d results", t.sec, r.Err, len(t.got))
				return false
			}
			break
		}
		x := []byte(nil)
		if int(r.BlockIdx) < p.n {
			x = p.block(int(r.BlockIdx))
		}
		off := r.ComparisonOffset - base
		if x == nil || off < int64(t.sec.from) || off+int64(len(x)) > int64(t.sec.to) || !bytes.Equal(p.local[off:off+int64(len(x))], x) {
			c.Fail("C09", "not-there", "section %v: block %d was reported at offset %d, which is not there", t.sec, r.BlockIdx, off)
			return false
		}
		if !have[r.BlockIdx] {
			c.Fail("C09", "reported-lost", "section %v: block %d was reported but is in no found span", t.sec, r.BlockIdx)
			return false
		}
	}
	switch {
	case t.r.failed > 0 && err == nil:
		c.Fail("C09", "failure-hidden", "section %v: reading failed with %q but the matcher ended as if all had been read", t.sec, t.r.lastErr)
		return false
	case t.r.failed > 0:
		c.Hit("matcher reports a failed read")
	case err != nil && t.r.err.fired == 0 && t.sec.to-t.sec.from >= p.bs:
		c.Fail("C09", "invented-error", "section %v: error %q although nothing failed", t.sec, err)
		return false
	}
	return true
}

func spanList(l comparer.BlockSpanList, offsets bool) string {
	var s []string
	for i, b := range l {
		if i == 30 {
			s = append(s, "...")
			break
		}
		if offsets {
			s = append(s, fmt.Sprintf("%d-%d@%d", b.StartBlock, b.EndBlock, b.ComparisonStartOffset))
		} else {
			s = append(s, fmt.Sprintf("%d-%d", b.StartBlock, b.EndBlock))
		}
	}
	return "[" + strings.Join(s, " ") + "]"
}

// checkPartition checks C09 and returns the set of found blocks. at tells whether a block really
// occurs at an offset.
func checkPartition(c *Ctx, n, bs int, found, missing comparer.BlockSpanList, at func(block int, off int64) bool) map[int]bool {
	desc := fmt.Sprintf("found %s missing %s of %d blocks", spanList(found, true), spanList(missing, false), n)
	have := map[int]bool{}
	last := -1
	for _, s := range found {
		if int(s.StartBlock) <= last || s.EndBlock < s.StartBlock || int(s.EndBlock) >= n {
			c.Fail("C09", "found-not-ascending", "the found spans are not ascending, disjoint and inside the reference: %s", desc)
			return nil
		}
		for b := int(s.StartBlock); b <= int(s.EndBlock); b++ {
			off := s.ComparisonStartOffset + int64(b-int(s.StartBlock))*int64(bs)
			if !at(b, off) {
				c.Fail("C09", "not-there", "block %d is not in the local file at offset %d as claimed: %s", b, off, desc)
				return nil
			}
			have[b] = true
		}
		last = int(s.EndBlock)
	}
	last = -1
	miss := 0
	for _, s := range missing {
		if int(s.StartBlock) <= last || s.EndBlock < s.StartBlock || int(s.EndBlock) >= n {
			c.Fail("C09", "missing-not-ascending", "the missing spans are not ascending, disjoint and inside the reference: %s", desc)
			return nil
		}
		for b := int(s.StartBlock); b <= int(s.EndBlock); b++ {
			if have[b] {
				c.Fail("C09", "both", "block %d is found and missing: %s", b, desc)
				return nil
			}
			miss++
		}
		last = int(s.EndBlock)
	}
	if miss+len(have) != n {
		c.Fail("C09", "neither", "%d blocks are neither found nor missing: %s", n-miss-len(have), desc)
		return nil
	}
	return have
}

func matchScenario(c *Ctx, faults, size int, twice bool) {
	c.single = true
	p := genPair(c, size)
	if p.n == 0 {
		return
	}
	secs := genSections(c, p)
	c.Describe("sections %v", secs)
	faulty := faults > 0 && c.FC("faulty", faults, 100)
	base := genOffset(c)
	rounds := 1
	if twice {
		rounds = 2
	}
	at := func(b int, off int64) bool {
		x := p.block(b)
		off -= base
		return off >= 0 && off+int64(len(x)) <= int64(len(p.local)) && bytes.Equal(p.local[off:off+int64(len(x))], x)
	}
	var sets []map[int]bool
	var counts []comparer.Comparer
	share := c.WC("one-comparer", 1, 3)
	for k := 0; k < rounds; k++ {
		var found, missing comparer.BlockSpanList
		var shared *comparer.Comparer
		if share {
			shared = &comparer.Comparer{}
		}
		ok := false
		oc := c.Sim(simrt.Config{}, func() { found, missing, ok = matchOnce(c, p, secs, base, faulty, shared) })
		if !c.Report(oc, "C09", "matching") {
			if c.Infra == "" && !faulty {
				c.Fail("C10", "no-result", "matching did not end normally: %s %v", oc.Panic, oc.Blocked)
			}
			return
		}
		if !ok {
			return
		}
		have := checkPartition(c, p.n, p.bs, found, missing, at)
		if have == nil {
			return
		}
		sets = append(sets, have)
		if share {
			c.Hit("one comparer for all sections")
			counts = append(counts, *shared)
			most := int64(0)
			for _, x := range secs {
				most += int64(x.to-x.from) + 1
			}
			places := map[int64]bool{} // where something was found
			for _, x := range found {
				for b := x.StartBlock; b <= x.EndBlock; b++ {
					places[x.ComparisonStartOffset+int64(b-x.StartBlock)*int64(p.bs)] = true
				}
			}
			if shared.Comparisons > most || shared.WeakHashHits > shared.Comparisons || shared.StrongHashHits > shared.WeakHashHits || shared.StrongHashHits < int64(len(places)) {
				c.Fail("C10", "counters", "matching counted %+v; blocks were found at %d places; sections %v have %d places", *shared, len(places), secs, most)
				return
			}
		}
		if len(c.Faults) > 0 {
			continue
		}
		must, may := p.mustFind(len(p.local))
		for b := 0; b < p.n; b++ {
			if must[b] && !have[b] {
				c.Fail("C10", "missed", "block %d occurs in the local file, not overlapped from before by another occurrence, and was not found; sections %v found %s", b, secs, spanList(found, true))
				return
			}
			if have[b] && !may[b] {
				c.Fail("C09", "not-there", "block %d does not occur in the local file but was found: %s", b, spanList(found, true))
				return
			}
		}
		if len(must) > 0 {
			c.Hit("blocks that have to be found")
		}
	}
	if len(counts) == 2 && counts[0] != counts[1] {
		c.Fail("C10", "counters-schedule-dependent", "two executions of the same matching counted %+v and %+v; sections %v", counts[0], counts[1], secs)
	}
	if len(sets) == 2 && fmt.Sprint(sets[0]) != fmt.Sprint(sets[1]) {
		c.Fail("C10", "schedule-dependent", "two executions of the same matching found different blocks: %v and %v; sections %v", setList(sets[0]), setList(sets[1]), secs)
	}
}

func setList(m map[int]bool) []int {
	var l []int
	for k, v := range m {
		if v {
			l = append(l, k)
		}
	}
	sort.Ints(l)
	return l
}

// mergeScenario feeds result streams straight into the merger.
func mergeScenario(c *Ctx) {
	bs := c.WR("bs", 1, 8)
	n := c.WR("blocks", 1, 14)
	if c.WC("many", 1, 6) {
		n = c.WR("blocks-many", 15, 70)
	}
	if c.oversized(150) {
		bs, n = hugeShape(c, 3000)
	}
	// blocks may be large: nothing here reads them
	scale := 1
	if k := c.WW("scale", 92, 2, 2, 2, 2); k > 0 {
		scale = []int{1, 1 << 20, 1 << 28, 1 << 30, 1<<31 - 1}[k] / bs
		scale = max(scale, 1)
		c.Hit("blocks of up to 2 GB")
	}
	// offsets at which a block occurs: mostly one layout, sometimes others
	type occ struct {
		block int
		off   int64
	}
	var occs []occ
	base := genOffset(c)
	layouts := c.WR("layouts", 1, 3)
	for l := 0; l < layouts; l++ {
		shift := base + int64(c.W("layout-shift", 5*bs)*scale)
		if scale > 1 && c.WC("layout-far", 1, 2) {
			shift = base + int64(c.WR("layout-times", 0, 3))<<32
		}
		skip := c.W("layout-skip", 4)
		for b := 0; b < n; b++ {
			if c.W("layout-has", 4) >= skip {
				occs = append(occs, occ{b, shift + int64(b*bs*scale)})
			}
		}
	}
	for k := c.W("stray", 5); k > 0; k-- {
		occs = append(occs, occ{c.W("stray-block", n), base + int64(c.W("stray-off", n*bs+1)*scale)})
	}
	bs *= scale
	streams := c.WR("streams", 1, 5)
	per := make([][]comparer.BlockMatchResult, streams)
	how := c.WW("deal", 40, 30, 30)
	known := map[occ]bool{}
	for i, o := range occs {
		known[o] = true
		k := 0
		switch how {
		case 0:
			k = c.W("stream-of", streams)
		case 1:
			k = i % streams
		case 2:
			k = i * streams / len(occs)
		}
		per[k] = append(per[k], comparer.BlockMatchResult{BlockIdx: uint(o.block), ComparisonOffset: o.off})
		if c.WC("report-twice", 1, 8) {
			k = c.W("again-on", streams)
			per[k] = append(per[k], comparer.BlockMatchResult{BlockIdx: uint(o.block), ComparisonOffset: o.off})
		}
	}
	for k := range per {
		if c.WC("shuffle", 1, 2) {
			for i := len(per[k]) - 1; i > 0; i-- {
				j := c.W("shuffle-to", i+1)
				per[k][i], per[k][j] = per[k][j], per[k][i]
			}
		}
	}
	fails := make([]int, streams) // results before an error, -1 = none
	reported := map[int]bool{}
	for k := range fails {
		fails[k] = -1
		if c.FC("stream-fails", 1, 6) {
			fails[k] = c.F("fails-after", len(per[k])+1)
			c.Fault("local-read-error")
		}
		for i, r := range per[k] {
			if fails[k] < 0 || i < fails[k] {
				reported[int(r.BlockIdx)] = true
			}
		}
	}
	c.Describe("block size %d, %d blocks, streams %v, fails %v", bs, n, per, fails)
	var found, missing comparer.BlockSpanList
	oc := c.Sim(simrt.Config{}, func() {
		m := &comparer.MatchMerger{}
		for k := range per {
			ch := simrt.Made(make(chan comparer.BlockMatchResult))
			m.StartMergeResultStream(ch, int64(bs))
			simrt.Spawn(fmt.Sprintf("stream%d", k), func() {
				defer simrt.Close("stream", ch)
				for i, r := range per[k] {
					if i == fails[k] {
						simrt.Sender("stream", ch)(comparer.BlockMatchResult{Err: opErr(c)})
						return
					}
					simrt.Note('m', int(r.BlockIdx))
					simrt.Sender("stream", ch)(r)
				}
				if fails[k] == len(per[k]) {
					simrt.Sender("stream", ch)(comparer.BlockMatchResult{Err: opErr(c)})
				}
			})
		}
		found = m.GetMergedBlocks()
		missing = found.GetMissingBlocks(uint(n - 1))
	})
	if !c.Report(oc, "C09", "merging") {
		return
	}
	have := checkPartition(c, n, bs, found, missing, func(b int, off int64) bool { return known[occ{b, off}] })
	if have == nil {
		return
	}
	for b := 0; b < n; b++ {
		if reported[b] != have[b] {
			c.Fail("C09", "lost", "block %d: reported by a matcher %v, in the found list %v; streams %v found %s", b, reported[b], have[b], per, spanList(found, true))
			return
		}
	}
}

// patchTwice runs the same fault-free patch under two schedules, chunkings and latencies; it has
// to fetch the same blocks, and none that has to be found locally.
func patchTwice(c *Ctx) {
	p := genPair(c, []int{sizeSmall, sizeSmall, sizeSmall, sizeMedium}[c.W("size", 4)])
	gosync.DefaultConcurrency = genMatchers(c, 6)
	var sets []map[int]bool
	for k := 0; k < 2; k++ {
		if k := c.WW("bufsize", 30, 40, 30); k > 0 {
			simrt.BufSize = []int{0, 16, 64}[k]
		} else {
			simrt.BufSize = 0
		}
		mode := genIOMode(c)
		in := newInput(c, p.local, mode, false, false, false)
		req := newRequester(c, p.ref)
		req.slow = mode.slow
		out := &simOutput{c: c, want: p.ref, err: newFaulter(c, "output-write-error", false)}
		var err error
		oc := c.Sim(simrt.Config{}, func() {
			idx, lookup, e := buildIndex(p)
			if e != nil {
				err = e
				return
			}
			src := blocksources.NewBlockSourceBase(req, blocksources.MakeFileSizedBlockResolver(uint64(p.bs), int64(len(p.ref))), nil, c.WR("source-concurrency", 1, 4), 1<<20)
			rs := &gosync.RSync{Input: in, Source: src, Output: out,
				Summary: &gosync.BasicSummary{BlockSize: uint(p.bs), BlockCount: uint(p.n), FileSize: int64(len(p.ref)), ChecksumIndex: idx, ChecksumLookup: lookup}}
			err = rs.Patch()
		})
		if !c.Report(oc, "C04", "Patch") || err != nil {
			return
		}
		got := map[int]bool{}
		for _, f := range req.fetches {
			for b := int(f.start) / p.bs; b < blocksOf(int(f.end), p.bs); b++ {
				got[b] = true
			}
		}
		must, _ := p.mustFind(len(p.ref))
		for b := range must {
			if got[b] {
				c.Fail("C10", "missed", "block %d occurs in the local file, not overlapped from before by another occurrence, and was fetched: %s", b, fetchList(req.fetches))
				return
			}
		}
		sets = append(sets, got)
	}
	if fmt.Sprint(sets[0]) != fmt.Sprint(sets[1]) {
		c.Fail("C10", "schedule-dependent", "two executions of the same patch with %d matchers fetched different blocks: %v and %v", gosync.DefaultConcurrency, setList(sets[0]), setList(sets[1]))
	}
}
