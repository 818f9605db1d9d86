package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/patcher"
	"verif.local/sim/simrt"
)

func init() {
	register("C25", 40, "seekable source, no faults", func(c *Ctx) { seekerScenario(c, false) })
	register("C25", 40, "seekable source, faults", func(c *Ctx) { seekerScenario(c, true) })
	register("C25", 10, "patch from a seekable source, faults", func(c *Ctx) { patchScenario(c, patchOpts{faults: 100, seeker: true}) })
	register("C25", 10, "patch from a seekable source, no faults", func(c *Ctx) { patchScenario(c, patchOpts{seeker: true}) })
	register("C01", 10, "patch from a seekable source, faults", func(c *Ctx) { patchScenario(c, patchOpts{faults: 75, seeker: true}) })
	register("C02", 10, "patch from a seekable source, no faults", func(c *Ctx) { patchScenario(c, patchOpts{seeker: true}) })
}

// soloInput is a seekable file that must not be used by two goroutines at once.
type soloInput struct {
	*simInput
	busy  int
	calls int
}

func (s *soloInput) enter(what string) func() {
	s.calls++
	if s.busy > 0 {
		s.c.Fail("C25", "concurrent-use", "%s was called while another call on the same file was in progress", what)
	}
	s.busy++
	return func() { s.busy-- }
}

func (s *soloInput) Read(b []byte) (int, error) {
	defer s.enter("Read")()
	n, err := s.simInput.Read(b)
	simrt.Logf("remote read of %d bytes: %d, %v", len(b), n, err)
	return n, err
}

func (s *soloInput) Seek(off int64, whence int) (int64, error) {
	defer s.enter("Seek")()
	n, err := s.simInput.Seek(off, whence)
	simrt.Logf("remote seek to %d (%d): %d, %v", off, whence, n, err)
	return n, err
}

func newSolo(c *Ctx, ref []byte, mode IOMode, readF, seekF, shortF bool) *soloInput {
	in := newInput(c, ref, mode, false, false, false)
	in.simReader.err = newFaulter(c, "remote-read-error", readF)
	in.seekErr = newFaulter(c, "remote-seek-error", seekF)
	in.lie = newFaulter(c, "remote-file-shrank", shortF)
	if c.WC("remote-position", 1, 3) {
		in.pos = c.W("remote-position-at", len(ref)+1)
	}
	return &soloInput{simInput: in}
}

// seekerScenario runs a block source over a seekable file.
func seekerScenario(c *Ctx, faulty bool) {
	bs := c.WR("bs", 1, 12)
	n := c.WR("blocks", 1, 14)
	longest, most := 4, 4
	if c.oversized(150) {
		bs, n = hugeShape(c, 66000)
		longest, most = n, n
	}
	size := n * bs
	if bs > 1 && c.WC("short-tail", 1, 2) {
		size -= 1 + c.W("tail-cut", bs-1)
	}
	p := prng(c.Src.Seed32('W', "ref-seed"))
	ref := p.bytes(size, 256)
	mask := 0
	if faulty {
		mask = 1 + c.F("fault-mask", 3)
	}
	in := newSolo(c, ref, genIOMode(c), mask&1 != 0, mask&2 != 0, false)
	base := genBase(c, bs, n)
	in.base = int64(base * bs)
	kind := c.WW("resolver", 40, 40, 20)
	max := bs * c.WR("max-request-blocks", 1, most)
	clients := c.WR("clients", 1, 3)
	spans := make([][]patcher.MissingBlockSpan, clients)
	want := make([]int, n)
	for k := c.WR("requests", 1, 8); k > 0; k-- {
		from := c.W("from", n)
		to := min(n-1, from+c.W("len", longest))
		for b := from; b <= to; b++ {
			want[b]++
		}
		i := c.W("client-of", clients)
		spans[i] = append(spans[i], patcher.MissingBlockSpan{StartBlock: uint(base + from), EndBlock: uint(base + to), BlockSize: int64(bs)})
	}
	c.Describe("block size %d, %d bytes, resolver %d (split at %d), requests %v", bs, size, kind, max, spans)
	got := make([]int, n)
	var errs []error
	closed := 0
	var hist []string
	var raw [][]byte // what was received, to see whether it changes later
	var rawAt []int
	oc := c.Sim(simrt.Config{}, func() {
		var resolver blocksources.BlockSourceOffsetResolver
		switch kind {
		case 0:
			resolver = blocksources.MakeFileSizedBlockResolver(uint64(bs), in.base+int64(size))
		case 1:
			resolver = blocksources.MakeNullFixedSizeResolver(uint64(bs))
		case 2:
			resolver = &blocksources.FixedSizeBlockResolver{BlockSize: uint64(bs), FileSize: in.base + int64(size), MaxDesiredRequestSize: uint64(max)}
		}
		src := blocksources.NewReadSeekerBlockSource(in, resolver)
		for i := range spans {
			simrt.Spawn("client", func() {
				for _, s := range spans[i] {
					pause(c, 1)
					src.RequestBlocks(s)
				}
			})
		}
		simrt.Spawn("consumer", func() {
			res, ec := src.GetResultChannel(), src.EncounteredError()
			for res != nil || ec != nil {
				r, e := simrt.RecvCase(res), simrt.RecvCase(ec)
				if simrt.Select("consumer", false, r, e) == 0 {
					if !r.OK {
						res = nil
						closed++
						continue
					}
					b := int(r.V.StartBlock) - base
					hist = append(hist, fmt.Sprintf("block %d, %d bytes", b, len(r.V.Data)))
					simrt.Logf("received %s", hist[len(hist)-1])
					if b < 0 || b >= n {
						c.Fail("C25", "unknown-block", "a response is for block %d of %d", b, n)
						return
					}
					// whole blocks, or up to the end of the file
					end := b*bs + len(r.V.Data)
					if end > size || end%bs != 0 && end != size || len(r.V.Data) == 0 || !bytes.Equal(r.V.Data, ref[b*bs:end]) {
						c.Fail("C25", "wrong-data", "the response for block %d (%d bytes) is not what the file holds there; faults %v; responses: %s", b, len(r.V.Data), c.Faults, strings.Join(hist, "; "))
						return
					}
					raw = append(raw, r.V.Data)
					rawAt = append(rawAt, b*bs)
					for ; b < blocksOf(end, bs); b++ {
						got[b]++
					}
				} else {
					if !e.OK {
						ec = nil
						closed++
						continue
					}
					simrt.Logf("received error %v", e.V)
					errs = append(errs, e.V)
				}
				pause(c, 1)
			}
		})
		simrt.WaitIdle()
		c.Hit("seekable source")
	})
	if !c.Report(oc, "C25", "seekable block source") || len(c.Viol) > 0 {
		return
	}
	for i, d := range raw {
		if !bytes.Equal(d, ref[rawAt[i]:rawAt[i]+len(d)]) {
			c.Fail("C25", "changed", "the data of the response for block %d was changed after it had been delivered: %s", rawAt[i]/bs, strings.Join(hist, "; "))
			return
		}
	}
	fired := in.simReader.err.fired > 0 || in.seekErr.fired > 0
	// a read that failed after it had delivered everything asked for needs no report
	lost := in.seekErr.fired > 0 || in.failed > 0
	if lost && len(errs) == 0 {
		c.Fail("C25", "not-reported", "a seek or read failed (%v) and no error was reported; responses: %s", c.Faults, strings.Join(hist, "; "))
	}
	for b := range want {
		if got[b] > want[b] {
			c.Fail("C25", "repeated", "block %d was requested %d times and answered %d times: %s", b, want[b], got[b], strings.Join(hist, "; "))
			return
		}
	}
	if fired {
		c.Hit("failing file")
		return
	}
	if len(errs) > 0 {
		c.Fail("C25", "invented-error", "error %q although nothing failed", errs[0])
	}
	for b := range want {
		if got[b] != want[b] {
			c.Fail("C25", "not-answered", "block %d was requested %d times and answered %d times: %s", b, want[b], got[b], strings.Join(hist, "; "))
			return
		}
	}
}
