package main

import (
	"bytes"
	"errors"
	"fmt"
	"slices"
	"strings"

	"github.com/Redundancy/go-sync/patcher"
	"github.com/Redundancy/go-sync/patcher/sequential"
	"verif.local/sim/simrt"
)

func init() {
	register("C21", 30, "patcher, well-behaved source", func(c *Ctx) { patcherScenario(c, false) })
	register("C21", 70, "patcher, faults", func(c *Ctx) { patcherScenario(c, true) })
}

// fakeSource is a block source made of nothing but its contract.
type fakeSource struct {
	c       *Ctx
	p       *Pair
	slow    int
	results chan patcher.BlockReponse
	errs    chan error
	reqs    []patcher.MissingBlockSpan
	taken   []bool // whether request i has been answered
	failAt  int    // request at which it misbehaves, -1 = never
	how     int
	failed  string
	early   bool // reports its error before anything is requested
}

var errSource = errors.New("the source failed")

const (
	srcError = iota
	srcCloseBoth
	srcCloseResults
	srcCloseErrors
	srcRefuse
	srcWrongBlock
	srcShort
	srcLong
	srcEmpty
	srcKinds
)

var srcNames = []string{"source-error", "source-closed", "source-results-closed", "source-errors-closed", "source-refuses", "source-wrong-block", "source-short-answer", "source-long-answer", "source-empty-answer"}

func (s *fakeSource) RequestBlocks(b patcher.MissingBlockSpan) error {
	pause(s.c, s.slow)
	i := len(s.reqs)
	s.reqs = append(s.reqs, b)
	if i > 0 && !s.taken[i-1] {
		s.c.Fail("C21", "not-one-by-one", "blocks %d-%d were requested before the previous request was answered", b.StartBlock, b.EndBlock)
	}
	s.taken = append(s.taken, false)
	simrt.Logf("source: blocks %d-%d requested", b.StartBlock, b.EndBlock)
	if i == s.failAt && s.how == srcRefuse {
		s.fail()
		return errSource
	}
	simrt.Spawn("answer", func() { s.answer(i, b) })
	return nil
}

func (s *fakeSource) fail() {
	if s.failed == "" {
		s.failed = srcNames[s.how]
		s.c.Fault(s.failed)
	}
}

func (s *fakeSource) GetResultChannel() <-chan patcher.BlockReponse { return s.results }
func (s *fakeSource) EncounteredError() <-chan error                { return s.errs }

func (s *fakeSource) answer(i int, b patcher.MissingBlockSpan) {
	pause(s.c, s.slow)
	from := int(b.StartBlock) * s.p.bs
	to := min(int(b.EndBlock+1)*s.p.bs, len(s.p.ref))
	r := patcher.BlockReponse{StartBlock: b.StartBlock, Data: append([]byte(nil), s.p.ref[from:to]...)}
	if i == s.failAt {
		switch s.how {
		case srcError:
			s.fail()
			simrt.Sender("source error", s.errs)(errSource)
			return
		case srcCloseBoth:
			s.fail()
			simrt.Close("source", s.results)
			simrt.Close("source", s.errs)
			return
		case srcCloseResults:
			s.fail()
			simrt.Close("source", s.results)
			return
		case srcCloseErrors:
			s.fail()
			simrt.Close("source", s.errs)
			return
		case srcWrongBlock:
			k := 1 + s.c.F("wrong-by", 3)
			if s.c.FC("wrong-before", 1, 2) && int(r.StartBlock) >= k {
				r.StartBlock -= uint(k)
			} else {
				r.StartBlock += uint(k)
			}
			s.fail()
		case srcShort:
			// at least a block less, unless it is not the end of the file anyway
			blocks := blocksOf(len(r.Data), s.p.bs)
			max := (blocks - 1) * s.p.bs
			if to < len(s.p.ref) {
				max = len(r.Data) - 1
			}
			r.Data = r.Data[:cutTo(s.c, "short-to", max+1)]
			s.fail()
		case srcLong:
			blocks := blocksOf(len(r.Data), s.p.bs)
			pr := prng(s.c.F("long-seed", 100))
			n := blocks*s.p.bs - len(r.Data) + 1 + s.c.F("long-by", 3*s.p.bs)
			r.Data = append(r.Data, pr.bytes(n, 256)...)
			s.fail()
		case srcEmpty:
			r.Data = nil
			s.fail()
		}
	}
	s.taken[i] = true
	simrt.Sender("source result", s.results)(r)
}

// watchOutput notes writes that come after the first failure.
type watchOutput struct {
	simOutput
	late func(n int) string
}

func (o *watchOutput) Write(b []byte) (int, error) {
	if len(b) > 0 {
		if w := o.late(len(b)); w != "" {
			o.c.Fail("C21", "write-after-failure", "%d bytes were written after %s", len(b), w)
		}
	}
	return o.simOutput.Write(b)
}

func patcherScenario(c *Ctx, faulty bool) {
	p := &Pair{bs: c.WR("bs", 1, 9)}
	p.n = c.WR("blocks", 1, 14)
	longest := 4
	if c.oversized(40) {
		p.bs, p.n = hugeShape(c, 66000)
		longest = []int{4, 40, 400, p.n}[c.W("span-longest", 4)]
		if longest < p.n/200 {
			longest = p.n / 200
		}
	}
	size := p.n * p.bs
	if p.bs > 1 && c.WC("short-tail", 1, 2) {
		size -= 1 + c.W("tail-cut", p.bs-1)
	}
	pr := prng(c.Src.Seed32('W', "ref-seed"))
	p.ref = pr.bytes(size, 256)
	tail := size % p.bs
	// partition into found and missing spans; the found ones lie anywhere in the local file
	var found []patcher.FoundBlockSpan
	var missing []patcher.MissingBlockSpan
	type piece struct {
		span int
		data []byte
	}
	var pieces []piece
	for at := 0; at < p.n; {
		end := min(p.n, at+1+c.W("span-len", longest))
		if c.WC("found", 1, 2) {
			if tail != 0 && end == p.n && end-at > 1 {
				end-- // the short last block is a span of its own
			}
			bs := p.bs
			if tail != 0 && at == p.n-1 {
				bs = tail
			}
			found = append(found, patcher.FoundBlockSpan{StartBlock: uint(at), EndBlock: uint(end - 1), BlockSize: int64(bs)})
			pieces = append(pieces, piece{len(found) - 1, p.ref[at*p.bs : min(end*p.bs, size)]})
		} else {
			missing = append(missing, patcher.MissingBlockSpan{StartBlock: uint(at), EndBlock: uint(end - 1), BlockSize: int64(p.bs)})
		}
		at = end
	}
	// wrong use: spans that leave out blocks, or no source
	gap, sourceless := false, false
	switch c.WW("wrong-use", 90, 6, 4) {
	case 1:
		if k := c.W("gap-at", len(found)+len(missing)); k < len(found) {
			if gap = int(found[k].EndBlock) < p.n-1; gap {
				found = slices.Delete(found, k, k+1)
				kept := pieces[:0]
				for _, x := range pieces {
					if x.span != k {
						if x.span > k {
							x.span--
						}
						kept = append(kept, x)
					}
				}
				pieces = kept
			}
		} else if k -= len(found); int(missing[k].EndBlock) < p.n-1 {
			gap = true
			missing = slices.Delete(missing, k, k+1)
		}
		if gap {
			c.Hit("spans with a gap")
		}
	case 2:
		sourceless = true
		c.Hit("no source")
	}
	for i := len(pieces) - 1; i > 0; i-- {
		j := c.W("local-order", i+1)
		pieces[i], pieces[j] = pieces[j], pieces[i]
	}
	for _, x := range pieces {
		p.local = append(p.local, pr.bytes(c.W("gap", 2*p.bs), 256)...)
		found[x.span].MatchOffset = int64(len(p.local))
		p.local = append(p.local, x.data...)
	}
	p.local = append(p.local, pr.bytes(c.W("gap", 2*p.bs), 256)...)
	src := &fakeSource{c: c, p: p, failAt: -1, slow: c.WW("source-slow", 60, 40)}
	mask := 0
	if faulty {
		mask = 1 + c.F("fault-mask", 15)
	}
	if mask&1 != 0 && len(missing) > 0 {
		src.failAt = c.F("source-fails-at", len(missing))
		src.how = c.F("source-fails-how", srcKinds)
	}
	src.early = src.failAt >= 0 && src.how == srcError && c.FC("source-fails-early", 1, 3)
	cp := c.W("channel-buffer", 3)
	storage := []uint64{1 << 20, 20000000, uint64(p.bs), 1}[c.WW("block-storage", 40, 20, 20, 20)]
	mode := genIOMode(c)
	in := newInput(c, p.local, mode, mask&2 != 0, mask&4 != 0, false)
	in.base = genOffset(c)
	for i := range found {
		found[i].MatchOffset += in.base
	}
	if in.base > 0 {
		in.before = in.base
	}
	if c.WC("position", 1, 3) {
		in.pos, in.before = c.W("position-at", len(p.local)+1), 0
	}
	out := &watchOutput{simOutput: simOutput{c: c, want: p.ref, err: newFaulter(c, "output-write-error", mask&8 != 0), slow: c.WW("out-slow", 80, 20)}}
	out.late = func(n int) string {
		switch {
		case out.failed:
			return "a failed write"
		case in.failed > 0 && n <= in.grace:
			in.grace -= n // what the failed read delivered
		case in.failed > 0:
			return "a failed local read"
		case in.seekErr.fired > 0:
			return "a failed seek"
		case src.failed != "" && src.how == srcRefuse:
			return "a refused request"
		}
		return ""
	}
	c.Describe("block size %d, %d bytes, found %v, missing %v, source misbehaves at %d (%s), buffer %d", p.bs, size, found, missing, src.failAt, srcNames[src.how%srcKinds], cp)
	var err error
	done := false
	oc := c.Sim(simrt.Config{}, func() {
		src.results = simrt.Made(make(chan patcher.BlockReponse, cp))
		src.errs = simrt.Made(make(chan error, cp))
		if src.early {
			simrt.Spawn("early error", func() {
				src.fail()
				simrt.Sender("source error", src.errs)(errSource)
			})
		}
		if sourceless {
			err = sequential.SequentialPatcher(in, nil, missing, found, storage, out)
		} else {
			err = sequential.SequentialPatcher(in, src, missing, found, storage, out)
		}
		done = true
		simrt.Logf("patcher returned %v", err)
	})
	if !c.Report(oc, "C21", "SequentialPatcher") || !done {
		return
	}
	for i, r := range src.reqs {
		if i >= len(missing) || r.StartBlock != missing[i].StartBlock || r.EndBlock != missing[i].EndBlock {
			c.Fail("C21", "request-order", "request %d is for blocks %d-%d; missing are %v", i, r.StartBlock, r.EndBlock, missing)
			return
		}
	}
	localFault := out.failed || in.failed > 0 || in.seekErr.fired > 0
	if err != nil {
		c.Hit("patcher failed")
		if len(c.Faults) == 0 && !gap && !sourceless {
			c.Fail("C21", "invented-error", "the patcher failed although nothing had failed: %v", err)
		}
		if len(c.Faults) == 1 && !gap && !sourceless && (src.how == srcError || src.how == srcRefuse) && src.failed != "" && !strings.Contains(err.Error(), errSource.Error()) {
			c.Fail("C21", "cause-lost", "the source failed with %q, the patcher returned %q", errSource, err)
		}
		if len(out.got) > len(p.ref) || !bytes.Equal(out.got, p.ref[:len(out.got)]) {
			c.Fail("C21", "wrong-output", "the failed patcher wrote %s; faults %v", describeDiff(out.got, p.ref[:min(len(out.got), len(p.ref))]), c.Faults)
		}
		return
	}
	c.Hit("patcher succeeded")
	if gap || sourceless {
		c.Fail("C21", "wrong-use", "the patcher returned nil although the spans left out blocks (%v) or there was no source (%v)", gap, sourceless)
		return
	}
	if localFault || src.failed != "" && !src.early {
		c.Fail("C21", "error-lost", "the patcher returned nil in spite of %v", c.Faults)
		return
	}
	if !bytes.Equal(out.got, p.ref) {
		c.Fail("C21", "wrong-output", "the patcher returned nil and wrote %s", describeDiff(out.got, p.ref))
	}
	if len(src.reqs) != len(missing) {
		var s []string
		for _, r := range src.reqs {
			s = append(s, fmt.Sprintf("%d-%d", r.StartBlock, r.EndBlock))
		}
		c.Fail("C21", "request-count", "%d of %d missing spans were requested: %s", len(src.reqs), len(missing), strings.Join(s, " "))
	}
}
