package main

import (
	"encoding/binary"
	"fmt"
	"regexp"
	"strconv"

	"verif.local/sim/simos"
	"verif.local/sim/simrt"
)

func init() {
	register("C26", 600, "build and diff", func(c *Ctx) { diffScenario(c, false, false) })
	register("C26", 100, "build, damaged index or wrong use, diff", func(c *Ctx) { diffDamaged(c) })
	register("C26", 296, "build and diff, faults", func(c *Ctx) { diffScenario(c, false, true) })
	register("C26", 4, "build and diff, several streams", func(c *Ctx) { diffScenario(c, true, false) })
}

// genBig makes a pair whose local file is large enough for gosync diff to split it.
func genBig(c *Ctx) *Pair {
	p := &Pair{kind: "big"}
	p.bs = []int{30000, 65536, 100000, 131072, 300000}[c.W("bs-huge", 5)]
	size := 1<<20 + c.W("size-over", 200000)
	pr := prng(c.Src.Seed32('W', "ref-seed"))
	p.ref = pr.bytes(size, 256)
	p.n = blocksOf(size, p.bs)
	p.local = append([]byte(nil), p.ref...)
	by := 1 + c.W("shift", p.bs)
	if c.WC("shift-to-edge", 1, 2) {
		// blocks begin shortly before or after the parts of the streams
		by = []int{1, 2, p.bs - 2, p.bs - 1}[c.W("shift-edge", 4)]
	}
	switch c.WW("big-local", 25, 45, 30) {
	case 1:
		p.local = append(pr.bytes(by, 256), p.local...)
	case 2:
		at := c.W("insert-at", size)
		p.local = splice(p.local, at, at, pr.bytes(by, 256))
	}
	for k := c.W("overwrites", 3); k > 0; k-- {
		p.local[c.W("overwrite-at", len(p.local))] ^= 1
	}
	if c.WC("cut", 1, 3) {
		p.local = p.local[:max(1<<20, len(p.local)-c.W("cut-by", 2*p.bs))]
	}
	c.Describe("block size %d, reference %d bytes (%d blocks), local %d bytes", p.bs, len(p.ref), p.n, len(p.local))
	return p
}

var diffLine = map[string]*regexp.Regexp{}

// reported finds a number in what gosync diff printed.
func reported(out, label string) (int64, bool) {
	re := diffLine[label]
	if re == nil {
		re = regexp.MustCompile(`(?m)^` + regexp.QuoteMeta(label) + `:? *(\d+) *$`)
		diffLine[label] = re
	}
	m := re.FindStringSubmatch(out)
	if m == nil {
		return 0, false
	}
	n, err := strconv.ParseInt(m[1], 10, 64)
	return n, err == nil
}

func init() {
	// compiled before several runs share them
	for _, l := range []string{"Total matched blocks", "Index blocks", "Approximate missing bytes", "Total matched bytes", "Comparisons", "Weak hash hits", "Strong hash hits"} {
		reported("", l)
	}
}

// diffScenario compares a file with an index through the command line tool.
func diffScenario(c *Ctx, big, faulty bool) {
	w := &cliWorld{c: c, fs: simos.New()}
	if big {
		w.p = genBig(c)
		c.limits = simrt.Config{MaxSteps: 100_000_000, MaxStmts: 2_000_000_000, NoPreempt: c.WC("no-preempt", 1, 2)}
	} else {
		w.p = genPair(c, sizeSmall)
	}
	p := w.p
	simos.Disk = w.fs
	if k := c.WW("bufsize", 20, 40, 40); k > 0 && !big {
		simrt.BufSize = []int{0, 16, 64}[k]
	}
	w.ref = "/tmp/ref.bin"
	w.fs.Put(w.ref, p.ref, 0644)
	w.index = "/tmp/ref.gosync"
	w.fs.Put("/work/local.bin", p.local, 0644)
	b := w.build()
	if c.Infra != "" {
		return
	}
	if idx, ok := w.fs.Get(w.index); b.status != 0 || !ok || !w.wellFormed(idx) {
		c.Fail("C20", "build-failed", "gosync build failed without any fault: %v", b)
		return
	}
	args := []string{"diff"}
	if big || c.WC("p-flag", 1, 3) {
		args = append(args, "-p", fmt.Sprint(genMatchers(c, 8)))
	}
	f := &cliFaults{df: newDiskFaults(c, faulty, false, nil), fs: w.fs, full: w.fs.Full}
	f.df.phase = ""
	if !big {
		w.fs.Hook = f.df.hook // legal short reads
	}
	before := contents(w.fs)
	r := command(c, w.fs, append(args, "local.bin", w.index)...)
	w.fs.Hook = nil
	if c.Infra != "" {
		return
	}
	switch {
	case r.status == -2:
		c.Fail("C26", "no-progress", "gosync diff does not end: %v %v", r.oc.Blocked, r.oc.LimitHit)
		return
	case r.oc.Panic != "":
		c.Fail("C26", "panic", "gosync diff: %s", r.oc.Panic)
		return
	case r.status != 0 && f.any(w.fs):
		c.Hit("failed")
		return
	case r.status != 0:
		c.Fail("C26", "failed", "gosync diff failed without any fault: %v: %s", r, cut(string(w.fs.Err.Data)))
		return
	}
	out := string(w.fs.Out.Data)
	blocks, ok1 := reported(out, "Index blocks")
	matched, ok2 := reported(out, "Total matched blocks")
	missing, ok3 := reported(out, "Approximate missing bytes")
	if !ok1 || !ok2 || !ok3 {
		c.Fail("C26", "no-report", "gosync diff did not report the matched blocks, index blocks and missing bytes: %q", cut(out))
		return
	}
	must, may := p.mustFind(len(p.local))
	if f.df.fired["read"] > 0 {
		must = nil // parts of the local file could not be read
	}
	if blocks != int64(p.n) {
		c.Fail("C26", "index-blocks", "gosync diff reports %d blocks in the index of a file of %d", blocks, p.n)
	}
	if matched < int64(len(must)) || matched > int64(len(may)) {
		c.Fail("C26", "matched", "gosync diff %v reports %d matched blocks of %d; at least %d have to be found and at most %d are there (block size %d, local file %d bytes)", args[1:], matched, p.n, len(must), len(may), p.bs, len(p.local))
	}
	// the last block counts with its size or as a full one
	if most := (int64(p.n) - matched) * int64(p.bs); missing > most || missing <= most-int64(p.bs) && most > 0 {
		c.Fail("C26", "missing", "gosync diff reports %d missing bytes although it matched %d of %d blocks of %d bytes", missing, matched, p.n, p.bs)
	}
	if bytes, ok := reported(out, "Total matched bytes"); ok && (bytes > matched*int64(p.bs) || bytes <= (matched-1)*int64(p.bs) && bytes != 0) {
		c.Fail("C26", "matched-bytes", "gosync diff reports %d matched bytes in %d blocks of %d", bytes, matched, p.bs)
	}
	comparisons, ok1 := reported(out, "Comparisons")
	weak, ok2 := reported(out, "Weak hash hits")
	strong, ok3 := reported(out, "Strong hash hits")
	if ok1 && ok2 && ok3 && (weak > comparisons || strong > weak || strong < 0 || strong == 0 && matched > 0) {
		c.Fail("C26", "counters", "gosync diff reports %d comparisons, %d weak and %d strong hits, and %d matched blocks", comparisons, weak, strong, matched)
	}
	for name := range w.fs.Files() {
		if !before.files[name] {
			c.Fail("C26", "left-behind", "gosync diff created %s", name)
		}
	}
	if len(must) > 0 {
		c.Hit("blocks that have to be found")
	}
	if big {
		c.Hit("split into sections")
	}
}

// diffDamaged calls gosync diff with an index that is not intact, or wrongly.
func diffDamaged(c *Ctx) {
	w := &cliWorld{c: c, fs: simos.New()}
	w.p = genPair(c, sizeSmall)
	p := w.p
	simos.Disk = w.fs
	w.ref = "/tmp/ref.bin"
	w.fs.Put(w.ref, p.ref, 0644)
	w.index = "/tmp/ref.gosync"
	local := p.local
	how := c.FW("diff-damage", 25, 10, 10, 15, 15, 10, 15)
	args := []string{"diff"}
	if c.WC("p-flag", 1, 3) {
		args = append(args, "-p", fmt.Sprint(genMatchers(c, 8)))
	}
	if how == 6 && c.FC("large-local", 1, 2) {
		pr := prng(c.Src.Seed32('W', "large-seed"))
		local = pr.bytes(1<<20+c.W("large-size", 3), 4)
	}
	w.fs.Put("/work/local.bin", local, 0644)
	b := w.build()
	if c.Infra != "" {
		return
	}
	idx, ok := w.fs.Get(w.index)
	if b.status != 0 || !ok || !w.wellFormed(idx) {
		c.Fail("C20", "build-failed", "gosync build failed without any fault: %v", b)
		return
	}
	idx = append([]byte(nil), idx...)
	files := []string{"local.bin", w.index}
	what, mustFail := "", true
	switch how {
	case 0:
		at := 0
		if c.FC("between-records", 1, 2) {
			at = min(len(idx)-1, 24+20*c.F("truncate-record", p.n+1))
		} else {
			at = c.F("truncate-at", len(idx))
		}
		what = fmt.Sprintf("index truncated from %d to %d bytes", len(idx), at)
		idx = idx[:at]
	case 1:
		at := c.F("magic-at", 8)
		idx[at] ^= byte(1 + c.F("flip", 255))
		what = fmt.Sprintf("byte %d of the index changed", at)
	case 2:
		if c.FC("no-block-size", 1, 2) {
			copy(idx[20:24], []byte{0, 0, 0, 0})
			what = "block size 0 in the index"
		} else {
			by := int64(p.bs) * int64(1+c.F("more-blocks", 300))
			size := int64(len(p.ref)) + by
			if c.FC("negative", 1, 3) {
				size = -size
			}
			binary.LittleEndian.PutUint64(idx[12:20], uint64(size))
			what = fmt.Sprintf("file size %d in the index instead of %d", size, len(p.ref))
		}
	case 3:
		n := 1 + c.F("more", 60)
		pr := prng(c.Src.Seed32('W', "junk-seed"))
		idx = append(idx, pr.bytes(n, 256)...)
		what = fmt.Sprintf("%d bytes behind the end of the index", n)
	case 4:
		if p.n == 0 {
			return
		}
		at := 24 + c.F("flip-at", len(idx)-24)
		idx[at] ^= byte(1 + c.F("flip", 255))
		what, mustFail = fmt.Sprintf("byte %d of the checksums changed", at), false
	case 5:
		switch c.F("missing-file", 4) {
		case 0:
			files[0] = "nothing.bin"
		case 1:
			files[1] = "/tmp/nothing.gosync"
		case 2:
			files = files[:1]
		case 3:
			files = nil
		}
		what = fmt.Sprintf("called with %q", files)
	case 6:
		args = append(args[:1], [][]string{{"-p", "0"}, {"-p", "-1"}, {"-p", "many"}, {"-p", "-100"}, {"--nosuch"}}[c.F("usage-kind", 5)]...)
		what = fmt.Sprintf("called with %q", args[1:])
	}
	c.Fault([]string{"index-truncated", "index-damaged", "index-damaged", "index-damaged", "index-damaged", "usage-error", "usage-error"}[how])
	c.Describe("%s; local file of %d bytes", what, len(local))
	w.fs.Put(w.index, idx, 0644)
	before := contents(w.fs)
	listed := listing(w.fs)
	r := command(c, w.fs, append(args, files...)...)
	if c.Infra != "" {
		return
	}
	out := string(w.fs.Out.Data)
	matched, reports := reported(out, "Total matched blocks")
	switch {
	case r.status == -2:
		c.Fail("C26", "no-progress", "gosync diff does not end (%s): %v %v", what, r.oc.Blocked, r.oc.LimitHit)
	case r.oc.Panic != "":
		c.Fail("C26", "panic", "gosync diff (%s): %s", what, r.oc.Panic)
	case r.status == 0 && mustFail:
		c.Fail("C26", "bad-index-accepted", "gosync diff exited with status 0 and reported %q (%s)", cut(out), what)
	case r.status != 0 && mustFail && reports:
		c.Fail("C26", "report-of-failure", "gosync diff failed (%v) but reported %d matched blocks (%s)", r, matched, what)
	case r.status == 0:
		_, may := p.mustFind(len(p.local))
		if !reports || matched > int64(len(may)) {
			c.Fail("C26", "matched", "gosync diff reports %d matched blocks, at most %d are there (%s)", matched, len(may), what)
		}
	}
	for name := range w.fs.Files() {
		if !before.files[name] {
			c.Fail("C26", "left-behind", "gosync diff created %s", name)
		}
	}
	if now := listing(w.fs); now != listed {
		c.Fail("C26", "changed", "gosync diff changed files: %s before, %s after", listed, now)
	}
	c.Hit("damaged: " + r.String())
}
