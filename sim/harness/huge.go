package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"sort"
	"syscall"

	gosync "github.com/Redundancy/go-sync"
	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/index"
	"github.com/Redundancy/go-sync/patcher"
	"github.com/Redundancy/go-sync/patcher/sequential"
	"verif.local/sim/simrt"
)

func init() {
	register("C21", 1, "patcher, gigabytes", stampScenario)
	for _, p := range []string{"C01", "C02", "C03", "C04", "C11"} {
		register(p, 1, "patch, gigabytes", hugePatch)
	}
}

// seldom runs scenarios of gigabytes in one of n of their turns.
func seldom(c *Ctx, n int) bool {
	if c.limited || !c.WC("gigabytes", 1, n) {
		return false
	}
	c.limits = simrt.Config{MaxSteps: 50_000_000, MaxStmts: 1_000_000_000, NoPreempt: true}
	return true
}

// island is a piece of a virtual file that is not zero.
type island struct {
	at   int64
	data []byte
}

// virtualFile has a few bytes other than zero.
type virtualFile struct {
	size    int64
	islands []island // ascending, disjoint
}

// over returns the islands that overlap [from,to).
func (v *virtualFile) over(from, to int64) []island {
	i := sort.Search(len(v.islands), func(i int) bool { return v.islands[i].at+int64(len(v.islands[i].data)) > from })
	j := i
	for j < len(v.islands) && v.islands[j].at < to {
		j++
	}
	return v.islands[i:j]
}

// fill copies the content at off; b ends within the file.
func (v *virtualFile) fill(off int64, b []byte) {
	clear(b)
	for _, s := range v.over(off, off+int64(len(b))) {
		if d := s.at - off; d >= 0 {
			copy(b[d:], s.data)
		} else {
			copy(b, s.data[-d:])
		}
	}
}

// differs finds a position at which b is not the content at off, or -1. It looks at all the
// islands and at samples of the zeros between them.
func (v *virtualFile) differs(off int64, b []byte) int64 {
	if off+int64(len(b)) > v.size {
		return max(v.size, off)
	}
	want := make([]byte, 8)
	check := func(p int64, n int) int64 {
		for n > 0 && p < off+int64(len(b)) {
			k := min(n, len(want), int(off+int64(len(b))-p))
			v.fill(p, want[:k])
			if string(want[:k]) != string(b[p-off:p-off+int64(k)]) {
				return p
			}
			p, n = p+int64(k), n-k
		}
		return -1
	}
	for _, s := range v.over(off, off+int64(len(b))) {
		p, d := s.at, s.data
		if p < off {
			p, d = off, d[off-p:]
		}
		d = d[:min(int64(len(d)), off+int64(len(b))-p)]
		if string(d) != string(b[p-off:p-off+int64(len(d))]) {
			return p
		}
	}
	for p := off; p < off+int64(len(b)); p += 4093 {
		if x := check(p, 8); x >= 0 {
			return x
		}
	}
	return check(max(off, off+int64(len(b))-8), 8)
}

// virtualInput is a local file too large to scan in a test: what matchers read of it (ReadAt)
// fails behind every island, what is copied from it (Seek and Read) is all there.
type virtualInput struct {
	c   *Ctx
	f   *virtualFile
	pos int64
	bad int

	whole bool // small enough to be scanned: nothing fails
}

func (r *virtualInput) Read(b []byte) (int, error) {
	n := int(min(int64(len(b)), r.f.size-r.pos))
	if n <= 0 {
		return 0, io.EOF
	}
	r.f.fill(r.pos, b[:n])
	r.pos += int64(n)
	return n, nil
}

func (r *virtualInput) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += r.pos
	case io.SeekEnd:
		off += r.f.size
	}
	if off < 0 {
		return 0, errors.New("seek before start")
	}
	r.pos = off
	return off, nil
}

func (r *virtualInput) ReadAt(b []byte, off int64) (int, error) {
	if off >= r.f.size || off < 0 {
		return 0, io.EOF
	}
	n := int64(0)
	if s := r.f.over(off, off+1); len(s) > 0 {
		n = s[0].at + int64(len(s[0].data)) - off
	}
	if r.whole {
		n = r.f.size - off
	}
	n = min(n, int64(len(b)))
	r.f.fill(off, b[:n])
	switch {
	case off+n == r.f.size && n < int64(len(b)):
		return int(n), io.EOF
	case n < int64(len(b)):
		r.bad++
		if r.bad == 1 {
			r.c.Fault("local-read-error")
		}
		return int(n), syscall.EIO
	}
	return int(n), nil
}

// virtualOutput checks what is written to it and keeps none of it.
type virtualOutput struct {
	c    *Ctx
	want *virtualFile
	at   int64
	prop string
	bad  bool
	what string
}

func (o *virtualOutput) Write(b []byte) (int, error) {
	if p := o.want.differs(o.at, b); p >= 0 && !o.bad {
		o.bad = true
		o.what = fmt.Sprintf("wrong data or too much at byte %d of %d", p, o.want.size)
		o.c.Fail(o.prop, "bad-byte", "a write of %d bytes at %d put wrong data into the output at %d of %d", len(b), o.at, p, o.want.size)
	}
	o.at += int64(len(b))
	return len(b), nil
}

// virtualRequester serves ranges of a virtual file out of one piece of zeros.
type virtualRequester struct {
	c     *Ctx
	f     *virtualFile
	zeros []byte
	got   []*fetch
	bytes int64
	onEnd func(*fetch)
}

func (r *virtualRequester) DoRequest(start, end int64) ([]byte, error) {
	f := &fetch{id: len(r.got), start: start, end: end}
	r.got = append(r.got, f)
	simrt.Note('f', int(start>>16))
	pause(r.c, 0)
	start, end = max(0, min(start, r.f.size)), max(0, min(end, r.f.size))
	defer func() { f.done = true; r.onEnd(f) }()
	switch {
	case end-start > int64(len(r.zeros)):
		r.c.Fault("fetch-error")
		f.err = opErr(r.c)
		return nil, f.err
	case len(r.f.over(start, end)) > 0:
		f.data = make([]byte, end-start)
		r.f.fill(start, f.data)
	default:
		f.data = r.zeros[:max(0, end-start)]
	}
	r.bytes += int64(len(f.data))
	data := f.data
	f.data = nil
	return data, nil
}

func (r *virtualRequester) IsFatal(error) bool { return true }

// hugePatch patches files of more than 2 or 4 GB. Matchers find the first blocks of their parts
// and fail then, so that nothing has to be scanned, or the local file is small and has nothing
// but what they find; everything else is fetched.
func hugePatch(c *Ctx) {
	if !seldom(c, 8) {
		return
	}
	bs := []int{1000, 4096, 8192, 16381, 65536}[c.W("bs", 5)]
	size := []int64{1 << 31, 1 << 32, 1<<32 + 1<<30}[c.W("size", 3)] + int64(c.W("size-over", 1<<28))
	if c.WC("no-tail", 1, 4) {
		size -= size % int64(bs)
	}
	n := int((size + int64(bs) - 1) / int64(bs))
	most := 128 << 20 // bytes between islands
	parts := int64(2*size/int64(most)) + 1 + int64(c.W("matchers-more", 10))
	gosync.DefaultConcurrency = int(parts)
	section := size / parts
	section += int64(bs) - section%int64(bs)
	ref, local := &virtualFile{size: size}, &virtualFile{size: size}
	switch c.WW("local-size", 50, 25, 25) {
	case 1:
		local.size += int64(c.W("local-longer", 1<<20))
	case 2:
		local.size -= int64(c.W("local-shorter", 1<<28))
	}
	pr := prng(c.Src.Seed32('W', "seed"))
	// one island in each part of the reference and at the beginning of each part of the local file
	var blocks []int // which are not zero, and what they contain
	var content []byte
	where := make([]int, parts)
	for i := range where {
		where[i] = i
	}
	if c.WC("moved", 2, 3) {
		for i := len(where) - 1; i > 0; i-- {
			j := c.W("local-order", i+1)
			where[i], where[j] = where[j], where[i]
		}
	}
	locals := make([]island, parts)
	special := map[int]bool{}
	for i := int64(0); i < parts; i++ {
		from := section * i / int64(bs)
		to := min(section*(i+1)/int64(bs), int64(n-5))
		wide := 1 + c.W("island-blocks", 2)
		b := from
		if c.WC("inside", 1, 2) {
			b += int64(c.W("island-at", max(1, int(to-from)-wide)))
		}
		if b < from || b+int64(wide) > to {
			continue
		}
		data := pr.bytes(wide*bs, 256)
		ref.islands = append(ref.islands, island{b * int64(bs), data})
		if at := section * int64(where[i]); at+int64(len(data)) <= local.size {
			locals[where[i]] = island{at, data}
		}
		content = append(content, data...)
		for k := 0; k < wide; k++ {
			blocks = append(blocks, int(b)+k)
			special[int(b)+k] = true
		}
	}
	if c.WC("tail-found", 1, 2) {
		// the local file ends with the end of the reference
		wide := 1 + c.W("tail-blocks", 3)
		at := int64(n-wide) * int64(bs)
		data := pr.bytes(int(size-at), 256)
		ref.islands = append(ref.islands, island{at, data})
		content = append(content, data...)
		for k := n - wide; k < n; k++ {
			blocks = append(blocks, k)
			special[k] = true
		}
		k := parts - 1 - int64(c.W("tail-part", 3))
		locals = append(locals[:k], island{section * k, data})
		local.size = section*k + int64(len(data))
	}
	packed := c.WC("local-packed", 1, 3)
	if packed {
		// the local file has what can be found and little else
		local.size = 0
		order := make([]int, len(ref.islands))
		for i := range order {
			order[i] = i
		}
		whole := len(order) // which can be anywhere: not the last one if it is short
		if whole > 0 && len(ref.islands[whole-1].data)%bs != 0 {
			whole--
		}
		for i := whole - 1; i > 0; i-- {
			j := c.W("packed-order", i+1)
			order[i], order[j] = order[j], order[i]
		}
		for _, i := range order {
			if c.WC("packed-gap", 1, 3) {
				local.size += int64(c.W("packed-gap-len", min(bs, 200)))
			}
			if c.WC("packed-without", 1, 10) {
				continue
			}
			local.islands = append(local.islands, island{local.size, ref.islands[i].data})
			local.size += int64(len(ref.islands[i].data))
		}
		locals = nil
	}
	for _, s := range locals {
		if s.data != nil {
			local.islands = append(local.islands, s)
		}
	}
	zeros, err := syscall.Mmap(-1, 0, 2*most, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
	if err != nil {
		c.Infra = "mmap: " + err.Error()
		return
	}
	defer syscall.Munmap(zeros)
	in := &virtualInput{c: c, f: local, whole: packed}
	out := &virtualOutput{c: c, want: ref, prop: "C03"}
	req := &virtualRequester{c: c, f: ref, zeros: zeros}
	if c.WC("position", 1, 3) {
		in.pos = size - int64(c.W("position-at", 1<<20))
	}
	c.Describe("block size %d, %d bytes, %d blocks, %d matchers, local file %d bytes, %d blocks to find", bs, size, n, parts, local.size, len(blocks))
	patched := false
	var bytesEnd int64
	oc := c.Sim(simrt.Config{}, func() {
		sums, e := checksums(bs, content)
		if e != nil || len(sums) != len(blocks) {
			c.Fail("C02", "index", "%d checksums of %d blocks: %v", len(sums), len(blocks), e)
			return
		}
		for i := range sums {
			sums[i].ChunkOffset = uint(blocks[i])
		}
		resolver := blocksources.MakeFileSizedBlockResolver(uint64(bs), size)
		if c.WC("null-resolver", 1, 4) {
			resolver = blocksources.MakeNullFixedSizeResolver(uint64(bs))
		}
		source := blocksources.NewBlockSourceBase(req, resolver, nil, c.WR("source-concurrency", 1, 4), 1<<20)
		req.onEnd = sampleCounter(c, source)
		rs := &gosync.RSync{Input: in, Output: out, Source: source,
			Summary: &gosync.BasicSummary{BlockSize: uint(bs), BlockCount: uint(n), FileSize: size, ChecksumIndex: index.MakeChecksumIndex(sums)}}
		err = rs.Patch()
		patched = true
		simrt.Logf("Patch returned %v", err)
		simrt.WaitIdle()
		bytesEnd = source.ReadBytes()
	})
	if !c.Report(oc, "C04", "Patch of gigabytes") || !patched {
		return
	}
	if err == nil && (out.bad || out.at != size) {
		c.Fail("C01", "wrong-output", "Patch returned nil, wrote %d of %d bytes %s", out.at, size, out.what)
	}
	if err != nil && len(c.Faults) == 0 {
		c.Fail("C02", "failed", "Patch of %d bytes in %d blocks returned %q without any fault", size, n, err)
	}
	if bytesEnd != req.bytes {
		c.Fail("C11", "byte-count", "the source counted %d bytes, its successful fetches returned %d (%d fetches)", bytesEnd, req.bytes, len(req.got))
	}
	fs := append([]*fetch(nil), req.got...)
	sort.Slice(fs, func(i, j int) bool { return fs[i].start < fs[j].start })
	last := int64(0)
	found := 0
	for i := 0; i <= len(fs); i++ {
		f := &fetch{start: int64(n) * int64(bs)}
		if i < len(fs) {
			f = fs[i]
			if f.start < last || f.end <= f.start || f.start >= size || f.start%int64(bs) != 0 || f.end%int64(bs) != 0 && f.end != size || f.end > int64(n)*int64(bs) {
				c.Fail("C11", "bad-range", "fetched bytes %d-%d of a reference of %d bytes in blocks of %d, after bytes up to %d", f.start, f.end, size, bs, last)
				return
			}
		}
		for b := last / int64(bs); err == nil && b < f.start/int64(bs); b++ {
			if !special[int(b)] {
				c.Fail("C11", "not-fetched", "block %d of %d does not occur in the local file and was not fetched", b, n)
				return
			}
			found++
			if b == int64(n-1) {
				c.Hit("last block of gigabytes found")
			}
		}
		last = (f.end + int64(bs) - 1) / int64(bs) * int64(bs)
	}
	if err != nil {
		c.Hit("patch of gigabytes failed")
		return
	}
	c.Hit("patch of gigabytes succeeded")
	if packed && n > 1<<16 {
		c.Hit("found blocks of 65536 and more packed together")
	}
	if found > 0 {
		c.Hit("patch of gigabytes found blocks")
	}
	if bytesEnd > 1<<31 {
		c.Hit("more than 2 GB fetched")
	}
}

// checksums runs the real generator over data.
func checksums(bs int, data []byte) ([]chunks.ChunkChecksum, error) {
	g := filechecksum.NewFileChecksumGenerator(uint(bs))
	var b bytes.Buffer
	if _, err := g.GenerateChecksums(bytes.NewReader(data), &b); err != nil {
		return nil, err
	}
	weak, strong := g.GetChecksumSizes()
	return chunks.LoadChecksumsFromReader(&b, weak, strong)
}

// stampInput is a file of any size: every 512 bytes begin with their own number.
type stampInput struct {
	size, pos int64
}

func (r *stampInput) Read(b []byte) (int, error) {
	n := min(int64(len(b)), r.size-r.pos)
	if n <= 0 {
		return 0, io.EOF
	}
	clear(b[:n])
	for p := (r.pos + 511) &^ 511; p < r.pos+n; p += 512 {
		var s [8]byte
		binary.LittleEndian.PutUint64(s[:], uint64(p)*0x9E3779B97F4A7C15)
		copy(b[p-r.pos:n], s[:])
	}
	// the rest of a stamp that began before
	if q := r.pos &^ 511; q < r.pos && q+8 > r.pos {
		var s [8]byte
		binary.LittleEndian.PutUint64(s[:], uint64(q)*0x9E3779B97F4A7C15)
		copy(b[:n], s[r.pos-q:])
	}
	r.pos += n
	return int(n), nil
}

func (r *stampInput) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += r.pos
	case io.SeekEnd:
		off += r.size
	}
	if off < 0 {
		return 0, errors.New("seek before start")
	}
	r.pos = off
	return off, nil
}

// stampPiece is a part of the expected output: bytes of the local file, or an answer.
type stampPiece struct {
	to    int64 // end in the output
	local int64 // where its first byte is in the local file, or -1
}

// stampOutput checks what is copied from a file of stamps.
type stampOutput struct {
	c      *Ctx
	pieces []stampPiece
	at     int64
	i      int
	bad    bool
}

const answerByte = 0xA5

func (o *stampOutput) Write(b []byte) (int, error) {
	n := len(b)
	for len(b) > 0 && !o.bad {
		for o.i < len(o.pieces) && o.at >= o.pieces[o.i].to {
			o.i++
		}
		if o.i == len(o.pieces) {
			o.bad = true
			o.c.Fail("C21", "wrong-output", "%d bytes too many after %d", len(b), o.at)
			break
		}
		from := int64(0)
		if o.i > 0 {
			from = o.pieces[o.i-1].to
		}
		p := o.pieces[o.i]
		k := min(int64(len(b)), p.to-o.at)
		if p.local < 0 {
			if b[0] != answerByte || b[k-1] != answerByte || b[k/2] != answerByte {
				o.bad = true
			}
		} else {
			off := p.local + o.at - from
			for q := (off + 511) &^ 511; q+8 <= off+k; q += 512 {
				if binary.LittleEndian.Uint64(b[q-off:]) != uint64(q)*0x9E3779B97F4A7C15 {
					o.bad = true
					break
				}
			}
		}
		if o.bad {
			o.c.Fail("C21", "wrong-output", "wrong data in bytes %d-%d of the output (piece %d)", o.at, o.at+k, o.i)
		}
		o.at += k
		b = b[k:]
	}
	return n, nil
}

// stampSource answers with what is not in the local file.
type stampSource struct {
	bs      int
	results chan patcher.BlockReponse
	errs    chan error
}

func (s *stampSource) RequestBlocks(b patcher.MissingBlockSpan) error {
	n := int(b.EndBlock-b.StartBlock+1) * s.bs
	data := make([]byte, n)
	for i := range data {
		data[i] = answerByte
	}
	simrt.Spawn("answer", func() {
		simrt.Sender("source result", s.results)(patcher.BlockReponse{StartBlock: b.StartBlock, Data: data})
	})
	return nil
}

func (s *stampSource) GetResultChannel() <-chan patcher.BlockReponse { return s.results }
func (s *stampSource) EncounteredError() <-chan error                { return s.errs }

// stampScenario has the patcher copy spans of more than 2 or 4 GB.
func stampScenario(c *Ctx) {
	if !seldom(c, 40) {
		return
	}
	bs := []int{512, 65536, 100000, 1 << 20, 1 << 24}[c.W("bs", 5)]
	total := []int64{1<<31 + 1<<20, 1<<32 + 1<<20, 1<<32 + 1<<31}[c.WW("size", 50, 35, 15)]
	var pieces []stampPiece
	var found []patcher.FoundBlockSpan
	var missing []patcher.MissingBlockSpan
	in := &stampInput{size: 1<<33 + int64(c.W("local-size", 1<<20))}
	at := uint(0)
	end := int64(0)
	for i, spans := 0, c.WR("spans", 1, 4); i < spans; i++ {
		if c.WC("missing", 1, 3) {
			k := 1 + uint(c.W("missing-blocks", 3))
			missing = append(missing, patcher.MissingBlockSpan{StartBlock: at, EndBlock: at + k - 1, BlockSize: int64(bs)})
			at += k
			end = int64(at) * int64(bs)
			pieces = append(pieces, stampPiece{end, -1})
		}
		size := int64(bs) * int64(1+c.W("small-span", 5))
		if i == spans-1 {
			size = total - int64(c.W("span-less", 1<<20))
		}
		k := uint((size + int64(bs) - 1) / int64(bs))
		off := int64(c.W("match-at", 1<<30))
		if i < spans-1 && c.WC("far", 1, 2) {
			off += 1 << 32
		}
		found = append(found, patcher.FoundBlockSpan{StartBlock: at, EndBlock: at + k - 1, BlockSize: int64(bs), MatchOffset: off})
		at += k
		end = int64(at) * int64(bs)
		pieces = append(pieces, stampPiece{end, off})
	}
	if c.WC("missing-last", 1, 2) {
		missing = append(missing, patcher.MissingBlockSpan{StartBlock: at, EndBlock: at, BlockSize: int64(bs)})
		at++
		end = int64(at) * int64(bs)
		pieces = append(pieces, stampPiece{end, -1})
	}
	c.Describe("block size %d, %d bytes, found %v, missing %v", bs, end, found, missing)
	out := &stampOutput{c: c, pieces: pieces}
	var err error
	done := false
	oc := c.Sim(simrt.Config{}, func() {
		src := &stampSource{bs: bs, results: simrt.Made(make(chan patcher.BlockReponse)), errs: simrt.Made(make(chan error))}
		err = sequential.SequentialPatcher(in, src, missing, found, 20000000, out)
		done = true
		simrt.Logf("patcher returned %v", err)
	})
	if !c.Report(oc, "C21", "SequentialPatcher on gigabytes") || !done {
		return
	}
	if err != nil {
		c.Fail("C21", "invented-error", "the patcher failed although nothing had failed: %v", err)
		return
	}
	if out.at != end && !out.bad {
		c.Fail("C21", "wrong-output", "the patcher returned nil and wrote %d of %d bytes", out.at, end)
	}
	c.Hit("spans of gigabytes copied")
}
