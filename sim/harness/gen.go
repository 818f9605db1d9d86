package main

import (
	"bytes"
	"crypto/md5"
	"fmt"

	"verif.local/sim/simrt"
)

// prng makes content bytes; its seed is a recorded choice.
type prng uint64

func (p *prng) next() uint64 {
	*p += 0x9e3779b97f4a7c15
	z := uint64(*p)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (p *prng) n(n int) int { return int(p.next() % uint64(n)) }

func (p *prng) bytes(n int, alpha int) []byte {
	b := make([]byte, n)
	for i := range b {
		if alpha >= 256 {
			b[i] = byte(p.next())
		} else {
			b[i] = 'a' + byte(p.n(alpha))
		}
	}
	return b
}

// Pair is a reference file, a local file and a block size.
type Pair struct {
	bs    int
	ref   []byte
	local []byte
	n     int // blocks of ref
	kind  string
}

func (p *Pair) block(i int) []byte {
	return p.ref[i*p.bs : min((i+1)*p.bs, len(p.ref))]
}

func blocksOf(size, bs int) int { return (size + bs - 1) / bs }

// sizes of a generated pair
const (
	sizeSmall = iota // up to a few dozen blocks
	sizeMedium
	sizeLarge // hundreds of blocks, or large blocks
)

const maxContent = 12000

func genBlockSize(c *Ctx, large bool) int {
	if large && c.WC("big-blocks", 1, 6) {
		return []int{64, 100, 512, 1000, 4096, 8192}[c.W("bs-big", 6)]
	}
	switch c.WW("bs-kind", 50, 15, 35) {
	case 0:
		return c.WR("bs", 2, 9)
	case 1:
		return 1
	}
	return c.WR("bs-wide", 10, 70)
}

func genBlockCount(c *Ctx, size int) int {
	max := []int{24, 80, 400}[size]
	switch c.WW("blocks-kind", 50, 30, 8, 12) {
	case 0:
		return c.WR("blocks", 1, 8)
	case 1:
		return c.WR("blocks-more", 9, max)
	case 2:
		return 0
	}
	k := []int{1, 2, 16, 63, 64, 65, 127, 128, 129, 192, 256}
	for len(k) > 1 && k[len(k)-1] > max {
		k = k[:len(k)-1]
	}
	return k[c.W("blocks-special", len(k))]
}

// genRef makes reference content of n blocks with a possibly short last one.
func genRef(c *Ctx, bs, n int) []byte {
	if n == 0 {
		return nil
	}
	size := n * bs
	if bs > 1 && c.WC("short-tail", 1, 2) {
		size -= 1 + c.W("tail-cut", bs-1)
	}
	p := prng(c.Src.Seed32('W', "ref-seed"))
	switch c.WW("ref-kind", 45, 12, 8, 8, 15, 12) {
	case 0: // random
		return p.bytes(size, 256)
	case 1: // low entropy
		return p.bytes(size, 2)
	case 2: // constant
		return make([]byte, size)
	case 3: // periodic
		per := 1 + c.W("period", 2*bs+2)
		u := p.bytes(per, 256)
		b := make([]byte, size)
		for i := range b {
			b[i] = u[i%per]
		}
		return b
	case 4: // few distinct blocks
		k := 1 + c.W("dict", 4)
		d := p.bytes(k*bs, 256)
		var b []byte
		for len(b) < size {
			i := p.n(k)
			b = append(b, d[i*bs:(i+1)*bs]...)
		}
		return b[:size]
	}
	// blocks with equal weak checksums: the same block with pairs of bytes shifted
	base := p.bytes(bs, 256)
	var b []byte
	for len(b) < size {
		x := append([]byte(nil), base...)
		for k := p.n(3); k > 0; k-- {
			weakTwin(x, p.n(1<<20))
		}
		b = append(b, x...)
	}
	return b[:size]
}

// weakTwin changes b so that its rolling checksum stays the same (+1 -1 -1 +1).
func weakTwin(b []byte, at int) {
	if len(b) < 4 {
		return
	}
	i := at % (len(b) - 3)
	b[i]++
	b[i+1]--
	b[i+2]--
	b[i+3]++
}

// genLocal derives a local file.
func genLocal(c *Ctx, bs int, ref []byte) ([]byte, string) {
	p := prng(c.Src.Seed32('W', "local-seed"))
	switch c.WW("local-kind", 50, 10, 8, 8, 12, 12) {
	case 1:
		return append([]byte(nil), ref...), "identical"
	case 2:
		return nil, "empty"
	case 3:
		return p.bytes(c.WR("unrelated-len", 1, len(ref)+2*bs+1), 256), "unrelated"
	case 4: // assembled from blocks, partial blocks and noise
		var b []byte
		n := blocksOf(len(ref), bs)
		for k := c.WR("pieces", 1, 12); k > 0; k-- {
			if n == 0 || c.WC("noise", 1, 3) {
				b = append(b, p.bytes(1+c.W("noise-len", bs+1), 256)...)
				continue
			}
			i := c.W("piece", n)
			x := append([]byte(nil), ref[i*bs:min((i+1)*bs, len(ref))]...)
			switch c.WW("piece-how", 70, 15, 15) {
			case 1:
				weakTwin(x, p.n(1<<20))
			case 2:
				x = x[:len(x)/2]
			}
			b = append(b, x...)
		}
		return b, "assembled"
	case 5: // shifted
		b := append([]byte(nil), ref...)
		if c.WC("shift-cut", 1, 2) {
			return b[min(len(b), 1+c.W("cut", 2*bs)):], "shifted"
		}
		return append(p.bytes(1+c.W("shift", 2*bs), 256), b...), "shifted"
	}
	b := append([]byte(nil), ref...)
	for k := c.WR("edits", 1, 6); k > 0; k-- {
		at := 0
		if len(b) > 0 {
			at = c.W("edit-at", len(b))
		}
		ln := 1 + c.W("edit-len", 2*bs)
		end := min(at+ln, len(b))
		switch c.WW("edit", 30, 25, 20, 10, 10, 5) {
		case 0: // overwrite
			for i := at; i < end; i++ {
				b[i] ^= byte(1 + p.n(255))
			}
		case 1: // insert
			b = splice(b, at, at, p.bytes(ln, 256))
		case 2: // delete
			b = splice(b, at, end, nil)
		case 3: // duplicate
			b = splice(b, at, at, append([]byte(nil), b[at:end]...))
		case 4: // same weak checksum, other data
			if len(b) > 0 {
				s := at / bs * bs
				weakTwin(b[s:min(s+bs, len(b))], p.n(1<<20))
			}
		case 5: // move
			x := append([]byte(nil), b[at:end]...)
			b = splice(b, at, end, nil)
			to := 0
			if len(b) > 0 {
				to = c.W("move-to", len(b))
			}
			b = splice(b, to, to, x)
		}
	}
	return b, "edited"
}

func splice(b []byte, from, to int, ins []byte) []byte {
	out := make([]byte, 0, len(b)+len(ins))
	out = append(out, b[:from]...)
	out = append(out, ins...)
	return append(out, b[to:]...)
}

// genHuge makes pairs beyond the powers of two at which smaller integers overflow and buffers end:
// thousands of blocks, large blocks, or more than a megabyte.
func genHuge(c *Ctx) *Pair {
	p := &Pair{}
	megabytes := 0
	if c.single {
		megabytes = 3
	}
	switch c.WW("huge", 50, 40, 10, megabytes) {
	case 3:
		// more than the buffers of the matchers; nearly all of it matches, since a search is slow
		p.kind = "blocks of a megabyte"
		p.bs = []int{999999, 1000000, 1000001, 1 << 20, 1<<20 + 1}[c.W("bs-megabyte", 5)]
		p.n = 1 + c.W("blocks", 2)
		size := p.n * p.bs
		if c.WC("short-tail", 1, 2) {
			size -= p.bs - 1 - c.W("tail-len", 300)
		}
		pr := prng(c.Src.Seed32('W', "ref-seed"))
		p.ref = pr.bytes(size, 256)
		p.local = p.ref
		switch c.W("megabyte-local", 4) {
		case 1:
			p.local = append(pr.bytes(1+c.W("shift-by", 300), 256), p.local...)
		case 2:
			at := min(p.bs, size)
			p.local = append(append([]byte(nil), p.local[at:]...), p.local[:at]...)
		case 3:
			p.local = p.local[:min(p.bs, size)]
		}
		p.local = append([]byte(nil), p.local...)
		return p
	case 0:
		p.kind = "huge, many blocks"
		p.bs = []int{4, 5, 7, 8, 16, 33}[c.W("bs-many", 6)]
		p.n = []int{250, 500, 1000, 2000, 4060, 8150, 16350, 32740, 65510}[c.WW("blocks-huge", 16, 14, 13, 12, 12, 9, 8, 6, 10)] + c.W("blocks-over", 60)
		p.n = min(p.n, 530000/p.bs)
	case 1:
		p.kind = "huge blocks"
		p.bs = []int{255, 256, 257, 1000, 1024, 2000, 4096, 4097, 8192, 16384, 32768, 65535, 65536, 70000, 131077}[c.W("bs-huge", 15)]
		p.n = 1 + c.W("blocks", min(300, max(3, 200000/p.bs)))
	case 2:
		p.kind = "huge"
		p.bs = []int{1000, 8192, 30000, 65536, 100000, 300000}[c.W("bs-huge", 6)]
		p.n = blocksOf(1<<20+c.W("size-over", 100000), p.bs)
	}
	size := p.n * p.bs
	if c.WC("short-tail", 1, 2) {
		size -= 1 + c.W("tail-cut", p.bs-1)
	}
	pr := prng(c.Src.Seed32('W', "ref-seed"))
	p.ref = pr.bytes(size, 256)
	p.local = append([]byte(nil), p.ref...)
	for k := c.W("overwrites", 4); k > 0; k-- {
		p.local[c.W("overwrite-at", size)] ^= 1
	}
	switch c.WW("huge-local", 25, 20, 15, 25, 15) {
	case 1: // a part is missing
		at := c.W("gap-at", size)
		p.local = splice(p.local, at, at+c.W("gap", size-at+1), nil)
	case 2: // a part is something else
		at := c.W("gap-at", size)
		n := c.W("gap", size-at+1)
		p.local = splice(p.local, at, at+n, pr.bytes(n, 256))
	case 3: // shifted
		p.local = append(pr.bytes(1+c.W("shift-by", 300), 256), p.local...)
	case 4: // two parts swapped
		at := c.W("swap-at", size)
		p.local = append(append([]byte(nil), p.local[at:]...), p.local[:at]...)
	}
	return p
}

// oversized decides, once in n runs, that this run is a large one.
func (c *Ctx) oversized(n int) bool {
	if c.limited || !c.WC("oversized", 1, n) {
		return false
	}
	c.limits = simrt.Config{MaxSteps: 50_000_000, MaxStmts: 1_000_000_000, NoPreempt: c.WC("no-preempt", 1, 2)}
	return true
}

// hugeShape makes many blocks (at most most) or large ones.
func hugeShape(c *Ctx, most int) (bs, n int) {
	if c.WC("huge-blocks", 2, 5) {
		bs = []int{255, 256, 257, 1000, 1024, 2000, 4096, 4097, 8192, 16384, 32768, 65535, 65536, 70000, 131077}[c.W("bs-huge", 15)]
		n = 1 + c.W("blocks", min(most, max(3, 200000/bs)))
		c.Hit("huge blocks")
	} else {
		bs = []int{1, 2, 4, 5, 7, 16, 33}[c.W("bs-many", 7)]
		n = min(most, []int{70, 130, 250, 500, 1000, 2000, 4060, 8150, 16350, 32740, 65510}[c.WW("blocks-huge", 14, 14, 18, 16, 14, 12, 12, 9, 7, 6, 6)]+c.W("blocks-over", 60), 400000/bs)
		c.Hit("huge, many blocks")
	}
	return
}

func genPair(c *Ctx, size int) *Pair {
	if c.oversized(200) {
		p := genHuge(c)
		c.Hit(p.kind)
		c.Describe("block size %d, reference %d bytes (%d blocks), local %d bytes (%s)", p.bs, len(p.ref), p.n, len(p.local), p.kind)
		return p
	}
	p := &Pair{bs: genBlockSize(c, size >= sizeMedium)}
	n := genBlockCount(c, size)
	// keep the work of a run far below the step limit of the simulator
	if n*p.bs > maxContent {
		n = max(1, maxContent/p.bs)
	}
	p.ref = genRef(c, p.bs, n)
	p.n = n
	p.local, p.kind = genLocal(c, p.bs, p.ref)
	c.Hit("local:" + p.kind)
	if n == 0 {
		c.Hit("empty reference")
	}
	if len(p.ref)%p.bs != 0 {
		c.Hit("short last block")
	}
	c.Describe("block size %d, reference %d bytes (%d blocks), local %d bytes (%s)", p.bs, len(p.ref), p.n, len(p.local), p.kind)
	return p
}

// ---- reference model of the matcher

// occurrences lists, for every full block of the reference, the offsets at which its content
// occurs in local[:limit]. Equal blocks share the entry of the first of them, canon tells which.
func (p *Pair) occurrences(limit int) (occ map[int][]int, canon []int) {
	canon = make([]int, p.n)
	byHash := map[uint64][]int{}
	const m = 1099511628211
	hash := func(b []byte) (h uint64) {
		for _, x := range b {
			h = h*m + uint64(x) + 1
		}
		return
	}
	find := func(h uint64, b []byte) int {
		for _, i := range byHash[h] {
			if bytes.Equal(p.block(i), b) {
				return i
			}
		}
		return -1
	}
	for i := 0; i < p.n; i++ {
		b := p.block(i)
		if len(b) < p.bs {
			canon[i] = -1
			continue
		}
		h := hash(b)
		if canon[i] = find(h, b); canon[i] < 0 {
			canon[i] = i
			byHash[h] = append(byHash[h], i)
		}
	}
	occ = map[int][]int{}
	l := p.local[:min(limit, len(p.local))]
	if len(l) < p.bs {
		return
	}
	top := uint64(1)
	for k := 1; k < p.bs; k++ {
		top *= m
	}
	h := hash(l[:p.bs])
	for o := 0; ; o++ {
		if i := find(h, l[o:o+p.bs]); i >= 0 {
			occ[i] = append(occ[i], o)
		}
		if o+p.bs == len(l) {
			return
		}
		h = (h-top*(uint64(l[o])+1))*m + uint64(l[o+p.bs]) + 1
	}
}

// mustFind returns the full blocks a matcher has to find in local[:limit]: those with an
// occurrence that no other occurrence of a reference block overlaps from before.
// mayFind returns those that occur at all.
func (p *Pair) mustFind(limit int) (must, may map[int]bool) {
	occ, canon := p.occurrences(limit)
	at := make([]int, len(p.local)+1)
	for i, os := range occ {
		for _, o := range os {
			at[o] = i + 1
		}
	}
	clear := map[int]bool{}
	last := -1 << 40 // the closest occurrence strictly before o
	for o := range at {
		if at[o] != 0 {
			if o-last >= p.bs {
				clear[at[o]-1] = true
			}
			last = o
		}
	}
	must, may = map[int]bool{}, map[int]bool{}
	for i := 0; i < p.n; i++ {
		if k := canon[i]; k >= 0 {
			if len(occ[k]) > 0 {
				may[i] = true
			}
			if clear[k] {
				must[i] = true
			}
		}
	}
	// the short last block
	if t := len(p.ref) % p.bs; t != 0 && bytes.Contains(p.local, p.ref[len(p.ref)-t:]) {
		may[p.n-1] = true
	}
	return
}

func firstDiff(a, b []byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	if len(a) == len(b) {
		return -1
	}
	return min(len(a), len(b))
}

func describeDiff(got, want []byte) string {
	d := firstDiff(got, want)
	if d < 0 {
		return "equal"
	}
	return fmt.Sprintf("%d bytes instead of %d, first difference at byte %d", len(got), len(want), d)
}

func md5sum(b []byte) []byte {
	s := md5.Sum(b)
	return s[:]
}

// genBase chooses how far into a remote file the n blocks of interest lie: mostly at its beginning,
// sometimes around offsets and block numbers that do not fit into 31 or 32 bits.
func genBase(c *Ctx, bs, n int) int {
	k := 0
	if bs > 1 {
		k = c.WW("base", 76, 6, 6, 6, 6)
	} else {
		k = c.WW("base", 82, 6, 0, 6, 6)
	}
	b := 0
	switch k {
	case 1: // byte 2^31
		b = 1<<31/bs - c.W("base-before", n+1)
	case 2: // byte 2^32
		b = 1<<32/bs - c.W("base-before", n+1)
	case 3: // block 2^31
		b = 1<<31 - c.W("base-before", n+1)
	case 4: // the last block an index can have
		b = 1<<32 - 1 - n
	}
	if b > 0 {
		c.Describe("at block %d (byte %d)", b, b*bs)
		c.Hit("beyond 2 GB")
	}
	return b
}

// genMatchers chooses how many matchers, streams or parts there are; sometimes more than there are
// blocks or bytes.
func genMatchers(c *Ctx, most int) int {
	if c.WC("many-matchers", 1, 15) {
		return []int{7, 8, 9, 15, 16, 17, 31, 32, 33, 64}[c.W("matchers-of", 10)]
	}
	return c.WR("matchers", 1, most)
}

// genOffset chooses how far into the local file its content of interest lies.
func genOffset(c *Ctx) int64 {
	k := c.WW("local-offset", 80, 7, 7, 6)
	if k == 0 {
		return 0
	}
	o := int64(1)<<[]int{0, 31, 32, 40}[k] - int64(c.W("offset-before", 60))
	c.Describe("at local offset %d", o)
	c.Hit("local file beyond 2 GB")
	return o
}
