package main

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"fmt"
	"hash"
	"hash/fnv"
	"io"

	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/comparer"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/index"
	"github.com/Redundancy/go-sync/indexbuilder"
	"verif.local/sim/simrt"
)

func init() {
	register("C12", 60, "generation, faults", func(c *Ctx) { genScenario(c, 80) })
	register("C12", 40, "generation, no faults", func(c *Ctx) { genScenario(c, 0) })
	register("C13", 75, "generator history", reuseScenario)
	register("C13", 25, "generators used at the same time", parallelGenerators)
	register("C14", 100, "loading", loadScenario)
}

// genMaker makes equal generators.
type genMaker struct {
	bs           int
	strong, file int
}

func newGenMaker(c *Ctx, bs int) genMaker {
	m := genMaker{bs: bs}
	if c.WC("other-hashes", 1, 3) {
		m.strong, m.file = c.W("strong-hash", 4), c.W("file-hash", 4)
	}
	return m
}

func someHash(k int) hash.Hash {
	switch k {
	case 1:
		return sha1.New()
	case 2:
		return sha256.New()
	case 3:
		return fnv.New64a()
	}
	return md5.New()
}

func (m genMaker) make() *filechecksum.FileChecksumGenerator {
	g := filechecksum.NewFileChecksumGenerator(uint(m.bs))
	g.StrongHash, g.FileChecksumHash = someHash(m.strong), someHash(m.file)
	return g
}

// expect is the model of an index: the checksums of each block, each from a generator of its own.
type expect struct {
	weak, strong [][]byte
	file         []byte
}

func (m genMaker) expect(data []byte) *expect {
	e := &expect{}
	for at := 0; at < len(data); at += m.bs {
		b := data[at:min(at+m.bs, len(data))]
		g := m.make()
		g.WeakRollingHash.SetBlock(b)
		w := make([]byte, g.WeakRollingHash.Size())
		g.WeakRollingHash.GetSum(w)
		h := someHash(m.strong)
		h.Write(b)
		e.weak = append(e.weak, w)
		e.strong = append(e.strong, h.Sum(nil))
	}
	h := someHash(m.file)
	h.Write(data)
	e.file = h.Sum(nil)
	return e
}

func (e *expect) bytes() []byte {
	var b []byte
	for i := range e.weak {
		b = append(append(b, e.weak[i]...), e.strong[i]...)
	}
	return b
}

func (e *expect) checkChunks(got []chunks.ChunkChecksum) error {
	if len(got) != len(e.weak) {
		return fmt.Errorf("%d checksums for %d blocks", len(got), len(e.weak))
	}
	for i, g := range got {
		switch {
		case g.ChunkOffset != uint(i):
			return fmt.Errorf("checksum %d is numbered %d", i, g.ChunkOffset)
		case !bytes.Equal(g.WeakChecksum, e.weak[i]):
			return fmt.Errorf("the weak checksum of block %d is wrong", i)
		case !bytes.Equal(g.StrongChecksum, e.strong[i]):
			return fmt.Errorf("the strong checksum of block %d is wrong", i)
		}
	}
	return nil
}

// genData makes an input file for a generator.
func genData(c *Ctx, bs int) []byte {
	n := genBlockCount(c, sizeSmall)
	if c.WC("many-blocks", 1, 12) {
		n = []int{63, 64, 65, 127, 128, 129, 192, 200}[c.W("block-count", 8)]
	}
	size := n * bs
	if n > 0 && bs > 1 && c.WC("short-tail", 1, 2) {
		size -= 1 + c.W("tail-cut", bs-1)
	}
	p := prng(c.Src.Seed32('W', "data-seed"))
	return p.bytes(size, []int{256, 2}[c.WW("data-kind", 70, 30)])
}

// indexWriter receives an index, with faults.
type indexWriter struct {
	c    *Ctx
	got  []byte
	err  *faulter
	fail int
}

func (w *indexWriter) Write(b []byte) (int, error) {
	simrt.Touch(&w.fail)
	simrt.Reads(b)
	simrt.Point()
	if w.err.hit() {
		w.fail++
		n := 0
		if len(b) > 0 {
			n = w.c.F("short-write", len(b))
		}
		w.got = append(w.got, b[:n]...)
		return n, opErr(w.c)
	}
	w.got = append(w.got, b...)
	return len(b), nil
}

// genInput makes a block size and an input file for a generator.
func genInput(c *Ctx) (bs int, data []byte) {
	if !c.oversized(60) {
		bs = genBlockSize(c, false)
		return bs, genData(c, bs)
	}
	bs, n := hugeShape(c, 70000)
	p := prng(c.Src.Seed32('W', "data-seed"))
	return bs, p.bytes(n*bs-c.W("tail-cut", bs), 256)
}

func genScenario(c *Ctx, faults int) {
	bs, data := genInput(c)
	m := newGenMaker(c, bs)
	way := c.WW("how", 40, 40, 20) // GenerateChecksums, StartChecksumGeneration, BuildChecksumIndex
	batch := uint(64)
	if way == 1 {
		batch = uint([]int{1, 2, 3, 7, 64, 100, 255, 257, 1000}[c.WW("batch", 16, 16, 16, 16, 16, 8, 4, 4, 4)])
	}
	compress := way == 1 && c.WC("compress", 1, 2)
	faulty := faults > 0 && c.FC("faulty", faults, 100)
	mask := 0
	if faulty {
		mask = 1 + c.F("fault-mask", 7)
	}
	in := &simReader{c: c, data: data, mode: genIOMode(c), err: newFaulter(c, "read-error", mask&1 != 0)}
	out := &indexWriter{c: c, err: newFaulter(c, "index-write-error", mask&2 != 0 && way == 0)}
	cerr := newFaulter(c, "compression-error", mask&4 != 0 && compress)
	e := m.expect(data)
	c.Describe("block size %d, %d bytes, way %d, batches of %d, compression %v, io %+v, hashes %d %d", m.bs, len(data), way, batch, compress, in.mode, m.strong, m.file)
	c.Hit(fmt.Sprintf("way %d", way))

	var err error
	var file []byte
	var got []chunks.ChunkChecksum
	var batches [][]chunks.ChunkChecksum
	var compressed [][]byte
	var sizes []int64
	finals, after, ended := 0, 0, false
	var look filechecksum.ChecksumLookup
	var idx *index.ChecksumIndex
	oc := c.Sim(simrt.Config{}, func() {
		g := m.make()
		if weak, strong := g.GetChecksumSizes(); g.ChecksumSize() != weak+strong || weak != 4 || strong != someHash(m.strong).Size() {
			c.Fail("C12", "checksum-sizes", "the sizes of the checksums are given as %d and %d, together %d", weak, strong, g.ChecksumSize())
		}
		switch way {
		case 0:
			file, err = g.GenerateChecksums(in, out)
			ended = true
		case 1:
			var f filechecksum.CompressionFunction
			if compress {
				f = func(b []byte) (int64, error) {
					simrt.Point()
					if cerr.hit() {
						return int64(c.F("failed-size", 3)) - 1, opErr(c)
					}
					compressed = append(compressed, append([]byte(nil), b...))
					sizes = append(sizes, int64(c.W("compressed-size", len(b)+1)))
					return sizes[len(sizes)-1], nil
				}
			}
			ch := g.StartChecksumGeneration(in, batch, f)
			for {
				r, ok := simrt.Recv2("results", ch)
				if !ok {
					break
				}
				if finals > 0 {
					after++
				}
				if r.Err != nil {
					finals++
					err = r.Err
					continue
				}
				got = append(got, r.Checksums...)
				batches = append(batches, r.Checksums)
				if r.Filechecksum != nil {
					finals++
					file = r.Filechecksum
				}
				if c.WC("consumer-slow", 1, 4) {
					pause(c, 1)
				}
			}
			ended = true
		case 2:
			file, idx, look, err = indexOf(c, g, in)
			ended = true
		}
		simrt.WaitIdle()
		if n, d := simrt.LiveRepoTasks(); n > 0 && ended {
			c.Fail("C12", "goroutine-left", "%d goroutines are left after the generation: %v", n, d)
		}
	})
	if !c.Report(oc, "C12", "generation") || !ended {
		return
	}
	failed := in.failed + out.fail + cerr.fired
	if err != nil {
		c.Hit("generation failed")
		if len(c.Faults) == 0 {
			c.Fail("C12", "invented-error", "generation failed without any fault: %v", err)
		}
	} else {
		c.Hit("generation succeeded")
		if failed > 0 {
			c.Fail("C12", "error-lost", "generation reported success although %d reads, %d writes and %d compressions failed", in.failed, out.fail, cerr.fired)
			return
		}
		if !bytes.Equal(file, e.file) {
			c.Fail("C12", "file-checksum", "the file checksum is wrong (%x instead of %x)", file, e.file)
		}
	}
	switch way {
	case 0:
		if err == nil && !bytes.Equal(out.got, e.bytes()) {
			c.Fail("C12", "wrong-index", "the index is wrong: %s", describeDiff(out.got, e.bytes()))
		}
	case 1:
		k := 0
		for _, b := range batches {
			for _, x := range b {
				if y := got[k]; x.ChunkOffset != y.ChunkOffset || !bytes.Equal(x.WeakChecksum, y.WeakChecksum) || !bytes.Equal(x.StrongChecksum, y.StrongChecksum) {
					c.Fail("C12", "result-changed", "the checksums of block %d were changed after they had been delivered", y.ChunkOffset)
					return
				}
				k++
			}
		}
		if finals != 1 || after != 0 {
			c.Fail("C12", "final-result", "%d final results and %d results after one (error %v)", finals, after, err)
		}
		if err == nil {
			if x := e.checkChunks(got); x != nil {
				c.Fail("C12", "wrong-index", "%v", x)
			}
			if compress {
				if len(compressed) != len(e.weak) {
					c.Fail("C12", "compression", "%d blocks of %d were compressed", len(compressed), len(e.weak))
					return
				}
				for i, b := range compressed {
					if !bytes.Equal(b, data[i*m.bs:min((i+1)*m.bs, len(data))]) {
						c.Fail("C12", "compression", "what was compressed as block %d is not block %d", i, i)
						return
					}
					if got[i].Size != sizes[i] {
						c.Fail("C12", "compression", "the size of block %d is recorded as %d instead of %d", i, got[i].Size, sizes[i])
						return
					}
				}
			}
		} else {
			// what came before the error is a true beginning
			short := &expect{weak: e.weak[:min(len(got), len(e.weak))], strong: e.strong[:min(len(got), len(e.strong))]}
			if x := short.checkChunks(got); x != nil {
				c.Fail("C12", "wrong-index", "before the error: %v", x)
			}
		}
	case 2:
		if err == nil {
			for i := range e.strong {
				if !bytes.Equal(look.GetStrongChecksumForBlock(i), e.strong[i]) {
					c.Fail("C12", "wrong-index", "the strong checksum of block %d is wrong in the built index", i)
					return
				}
			}
			if x := look.GetStrongChecksumForBlock(len(e.strong)); x != nil {
				c.Fail("C12", "wrong-index", "the built index has more than %d blocks", len(e.strong))
			}
			if x := e.checkIndex(idx); x != "" {
				c.Fail("C12", "wrong-index", "%s", x)
			}
		}
	}
}

// indexOf builds an index from what is read, or from the same as a string.
func indexOf(c *Ctx, g *filechecksum.FileChecksumGenerator, in *simReader) ([]byte, *index.ChecksumIndex, filechecksum.ChecksumLookup, error) {
	if !in.err.on && c.WC("from-string", 1, 3) {
		c.Hit("index built from a string")
		return indexbuilder.BuildIndexFromString(g, string(in.data))
	}
	return indexbuilder.BuildChecksumIndex(g, in)
}

// checkIndex describes what is wrong with a built index.
func (e *expect) checkIndex(idx *index.ChecksumIndex) string {
	if idx.BlockCount != len(e.weak) || idx.WeakCount() != len(e.weak) {
		return fmt.Sprintf("the built index says it has %d blocks, %d findable, instead of %d", idx.BlockCount, idx.WeakCount(), len(e.weak))
	}
	for i := range e.weak {
		found := false
		if w := idx.FindWeakChecksum2(e.weak[i]); w != nil {
			for _, x := range idx.FindStrongChecksum2(e.strong[i], w) {
				found = found || x.ChunkOffset == uint(i)
			}
		}
		if !found {
			return fmt.Sprintf("block %d is not found in the built index", i)
		}
	}
	return ""
}

// checks are results that must not change any more.
type checks struct {
	file   [][2][]byte
	chunks [][2][]chunks.ChunkChecksum
}

func (k *checks) keep(file []byte, c []chunks.ChunkChecksum) {
	k.file = append(k.file, [2][]byte{file, append([]byte(nil), file...)})
	o := append([]chunks.ChunkChecksum(nil), c...)
	for i := range o {
		o[i].WeakChecksum = append([]byte(nil), o[i].WeakChecksum...)
		o[i].StrongChecksum = append([]byte(nil), o[i].StrongChecksum...)
	}
	k.chunks = append(k.chunks, [2][]chunks.ChunkChecksum{c, o})
}

// changed describes a result that has changed.
func (k *checks) changed() string {
	for _, x := range k.file {
		if !bytes.Equal(x[0], x[1]) {
			return "a file checksum"
		}
	}
	for _, x := range k.chunks {
		for i, y := range x[0] {
			if z := x[1][i]; y.ChunkOffset != z.ChunkOffset || y.Size != z.Size || !bytes.Equal(y.WeakChecksum, z.WeakChecksum) || !bytes.Equal(y.StrongChecksum, z.StrongChecksum) {
				return fmt.Sprintf("the checksum of block %d", z.ChunkOffset)
			}
		}
	}
	return ""
}

// job is one use of a generator.
type job struct {
	kind  int // 0 GenerateChecksums, 1 StartChecksumGeneration, 2 matching, 3 BuildChecksumIndex
	data  []byte
	fault int // 0 none, 1 read error, 2 write or compression error
	batch uint
	mode  IOMode
}

var jobNames = []string{"GenerateChecksums", "StartChecksumGeneration", "matching", "BuildChecksumIndex"}

func genJob(c *Ctx, bs int) job {
	j := job{kind: c.WW("job", 30, 35, 20, 15), data: genData(c, bs), mode: genIOMode(c)}
	j.batch = uint([]int{1, 2, 5, 64}[c.W("batch", 4)])
	j.fault = c.FW("job-fails", 65, 20, 15)
	return j
}

// run executes the job on a generator and describes its outcome; the outcome of a job that fails
// is only that it fails. What it delivered is added to what has to be the same later.
func (j job) run(c *Ctx, m genMaker, g *filechecksum.FileChecksumGenerator, ref comparer.Index, faultAt int, later *checks) string {
	in := &simReader{c: c, data: j.data, mode: j.mode, err: newFaulter(c, "read-error", false)}
	if j.fault == 1 {
		in.err = &faulter{c: c, kind: "read-error", on: true, left: 1, at: faultAt}
	}
	e := m.expect(j.data)
	switch j.kind {
	case 0:
		w := &indexWriter{c: c, err: newFaulter(c, "index-write-error", false)}
		if j.fault == 2 {
			w.err = &faulter{c: c, kind: "index-write-error", on: true, left: 1, at: faultAt}
		}
		file, err := g.GenerateChecksums(in, w)
		if in.failed+w.fail > 0 {
			if err == nil {
				return "no error although a read or write failed"
			}
			return ""
		}
		switch {
		case err != nil && in.err.fired > 0:
			return "" // a read that failed after it had delivered everything asked for
		case err != nil:
			return fmt.Sprintf("failed without a fault: %v", err)
		case !bytes.Equal(file, e.file):
			return "wrong file checksum"
		case !bytes.Equal(w.got, e.bytes()):
			return "wrong checksums: " + describeDiff(w.got, e.bytes())
		}
		later.keep(file, nil)
	case 1:
		var f filechecksum.CompressionFunction
		failed := false
		if j.fault == 2 {
			k := 0
			f = func(b []byte) (int64, error) {
				simrt.Point()
				if k++; k == faultAt {
					c.Fault("compression-error")
					failed = true
					return 0, opErr(c)
				}
				return int64(len(b)), nil
			}
		}
		ch := g.StartChecksumGeneration(in, j.batch, f)
		var got []chunks.ChunkChecksum
		for {
			r, ok := simrt.Recv2("results", ch)
			if !ok {
				return "the results ended without a final one"
			}
			if r.Err != nil {
				if in.err.fired == 0 && !failed {
					return fmt.Sprintf("failed without a fault: %v", r.Err)
				}
				return "" // the final result: the generator is free now
			}
			got = append(got, r.Checksums...)
			later.keep(r.Filechecksum, r.Checksums)
			if r.Filechecksum != nil {
				if in.failed > 0 || failed {
					return "no error although a read or compression failed"
				}
				if !bytes.Equal(r.Filechecksum, e.file) {
					return "wrong file checksum"
				}
				break
			}
		}
		if err := e.checkChunks(got); err != nil {
			return err.Error()
		}
	case 2:
		cmp := &comparer.Comparer{}
		run := func(g *filechecksum.FileChecksumGenerator, in io.Reader) (s []string, failed bool) {
			ch := cmp.StartFindMatchingBlocks(in, 0, g, ref)
			for {
				r, ok := simrt.Recv2("matches", ch)
				if !ok {
					return
				}
				if r.Err != nil {
					failed = true
				} else {
					s = append(s, fmt.Sprintf("%d@%d", r.BlockIdx, r.ComparisonOffset))
				}
			}
		}
		got, failed := run(g, in)
		if in.err.fired > 0 {
			// a truncated stream may be taken for one that ends there
			if !failed && in.failed > 0 && in.lastErr != io.ErrUnexpectedEOF {
				return "matching did not report the failing read"
			}
			return ""
		}
		want, _ := run(m.make(), bytes.NewReader(j.data))
		if fmt.Sprint(got) != fmt.Sprint(want) {
			return fmt.Sprintf("matched %v instead of %v", got, want)
		}
	case 3:
		file, idx, look, err := indexOf(c, g, in)
		if in.failed > 0 {
			if err == nil {
				return "no error although a read failed"
			}
			return ""
		}
		if err != nil && in.err.fired > 0 {
			return ""
		}
		if err != nil {
			return fmt.Sprintf("failed without a fault: %v", err)
		}
		if !bytes.Equal(file, e.file) {
			return "wrong file checksum"
		}
		for i := range e.strong {
			if !bytes.Equal(look.GetStrongChecksumForBlock(i), e.strong[i]) {
				return fmt.Sprintf("wrong strong checksum of block %d", i)
			}
		}
		if x := e.checkIndex(idx); x != "" {
			return x
		}
		all := make([]chunks.ChunkChecksum, len(e.strong))
		for i := range all {
			all[i].StrongChecksum = look.GetStrongChecksumForBlock(i)
		}
		later.keep(file, all)
	}
	return ""
}

// refIndex is an index some data can be matched against.
func (m genMaker) refIndex(c *Ctx, data []byte) (comparer.Index, error) {
	_, idx, _, err := indexbuilder.BuildChecksumIndex(m.make(), bytes.NewReader(data))
	return idx, err
}

func reuseScenario(c *Ctx) {
	bs := c.WR("bs", 1, 9)
	huge := c.oversized(150)
	var most int
	if huge {
		bs, most = hugeShape(c, 5000)
	}
	m := newGenMaker(c, bs)
	jobs := make([]job, c.WR("jobs", 2, 6))
	for i := range jobs {
		jobs[i] = genJob(c, m.bs)
		if huge {
			p := prng(c.Src.Seed32('W', "data-seed"))
			jobs[i].data = p.bytes(c.W("data-len", most*m.bs+1), 256)
		}
		c.Describe("job %d: %s, %d bytes, fault %d", i, jobNames[jobs[i].kind], len(jobs[i].data), jobs[i].fault)
	}
	ref := genData(c, m.bs)
	if len(jobs[0].data) > 0 && c.WC("ref-from-job", 1, 2) {
		ref = append([]byte(nil), jobs[len(jobs)-1].data...)
	}
	oc := c.Sim(simrt.Config{}, func() {
		idx, err := m.refIndex(c, ref)
		if err != nil {
			c.Fail("C12", "index", "building an index failed: %v", err)
			return
		}
		g := m.make()
		var later checks
		for i, j := range jobs {
			at := 0
			if j.fault != 0 {
				at = 1 + c.F("fails-at", 6)
			}
			if i > 0 && c.WC("reset-between", 1, 6) {
				g.Reset()
				c.Hit("reset by its user")
			}
			if bad := j.run(c, m, g, idx, at, &later); bad != "" {
				prev := "a fresh generator"
				kind := "first-use"
				if i > 0 {
					prev, kind = "a generator that had just finished "+jobNames[jobs[i-1].kind], "reuse"
				}
				c.Fail("C13", kind, "job %d, %s of %d bytes on %s: %s", i, jobNames[j.kind], len(j.data), prev, bad)
				return
			}
			c.Hit(jobNames[j.kind])
			if bad := later.changed(); bad != "" {
				c.Fail("C13", "result-changed", "%s delivered by an earlier use of the generator was changed by job %d, %s of %d bytes", bad, i, jobNames[j.kind], len(j.data))
				return
			}
		}
	})
	c.Report(oc, "C13", "reuse")
}

func parallelGenerators(c *Ctx) {
	m := newGenMaker(c, c.WR("bs", 1, 9))
	n := c.WR("generators", 2, 4)
	ref := genData(c, m.bs)
	jobs := make([][]job, n)
	for k := range jobs {
		jobs[k] = make([]job, c.WR("jobs", 1, 3))
		for i := range jobs[k] {
			jobs[k][i] = genJob(c, m.bs)
		}
	}
	oc := c.Sim(simrt.Config{}, func() {
		idx, err := m.refIndex(c, ref)
		if err != nil {
			c.Fail("C12", "index", "building an index failed: %v", err)
			return
		}
		laters := make([]checks, n)
		for k := range jobs {
			simrt.Spawn(fmt.Sprintf("user%d", k), func() {
				g := m.make()
				later := &laters[k]
				for i, j := range jobs[k] {
					at := 0
					if j.fault != 0 {
						at = 1 + c.F("fails-at", 6)
					}
					bad := j.run(c, m, g, idx, at, later)
					if bad == "" {
						if bad = later.changed(); bad != "" {
							bad += " delivered earlier was changed"
						}
					}
					if bad != "" {
						c.Fail("C13", "parallel", "generator %d of %d used at the same time, job %d, %s of %d bytes: %s", k, n, i, jobNames[j.kind], len(j.data), bad)
						return
					}
				}
			})
		}
		simrt.WaitIdle()
		for k := range laters {
			if bad := laters[k].changed(); bad != "" {
				c.Fail("C13", "parallel", "%s delivered by generator %d of %d was changed", bad, k, n)
			}
		}
	})
	c.Report(oc, "C13", "generators used at the same time")
}

func loadScenario(c *Ctx) {
	ws := []int{4, 2, 1, 8}[c.WW("weak-size", 60, 15, 10, 15)]
	ss := []int{16, 20, 32, 1, 5}[c.WW("strong-size", 55, 15, 10, 10, 10)]
	n := c.WR("records", 0, 12)
	if c.WC("many-records", 1, 8) {
		n = c.WR("records-many", 13, 150)
	}
	if c.oversized(60) {
		n = []int{250, 500, 1000, 2000, 4060, 8150, 16350, 32740, 65500}[c.W("records-huge", 9)] + c.W("records-over", 60)
		c.Hit("huge index")
	}
	p := prng(c.Src.Seed32('W', "data-seed"))
	data := p.bytes(n*(ws+ss), []int{256, 2}[c.WW("data-kind", 70, 30)])
	if c.WC("cut", 1, 2) && len(data) > 0 {
		c.Fault("index-truncated")
		data = data[:cutTo(c, "cut-at", len(data))]
	}
	in := &simReader{c: c, data: data, mode: genIOMode(c), err: newFaulter(c, "read-error", c.FC("faulty", 2, 5))}
	if c.WC("eof-mid", 1, 6) && in.err.on {
		in.err.kind = "read-error"
	}
	c.Describe("%d bytes in records of %d+%d, io %+v", len(data), ws, ss, in.mode)
	var got []chunks.ChunkChecksum
	var err error
	done := false
	oc := c.Sim(simrt.Config{}, func() {
		got, err = chunks.LoadChecksumsFromReader(in, ws, ss)
		done = true
	})
	if !c.Report(oc, "C14", "loading") || !done {
		return
	}
	rec := ws + ss
	whole := len(data)%rec == 0
	if err != nil {
		c.Hit("loading failed")
		if whole && c.Faults["read-error"] == 0 {
			c.Fail("C14", "invented-error", "loading %d whole records of %d bytes failed: %v", len(data)/rec, rec, err)
		}
		return
	}
	c.Hit("loading succeeded")
	if in.failed > 0 {
		c.Fail("C14", "error-lost", "loading succeeded with %d records although a read failed at byte %d of %d", len(got), in.pos, len(data))
		return
	}
	if !whole {
		c.Fail("C14", "partial", "loading %d bytes, not a multiple of %d, succeeded with %d records", len(data), rec, len(got))
		return
	}
	if len(got) != len(data)/rec {
		c.Fail("C14", "count", "%d records loaded of %d", len(got), len(data)/rec)
		return
	}
	for i, g := range got {
		d := data[i*rec : (i+1)*rec]
		if g.ChunkOffset != uint(i) || !bytes.Equal(g.WeakChecksum, d[:ws]) || !bytes.Equal(g.StrongChecksum, d[ws:]) {
			c.Fail("C14", "record", "record %d of %d is wrong: number %d", i, len(got), g.ChunkOffset)
			return
		}
	}
}
