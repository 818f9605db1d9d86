package main

import (
	"bytes"
	"crypto/md5"
	"fmt"
	"sort"
	"strings"
	"syscall"

	gosync "github.com/Redundancy/go-sync"
	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/filechecksum"
	"verif.local/sim/simos"
	"verif.local/sim/simrt"
)

func init() {
	register("C27", 50, "patches at the same time", parallelPatches)
	register("C27", 50, "files patched at the same time", parallelFiles)
}

// parPatch is one of several patches in a process.
type parPatch struct {
	id     int
	p      *Pair
	sum    *gosync.BasicSummary // nil: builds its own
	in     *simInput
	req    *simRequester
	out    *simOutput
	conc   int
	fs     []*faulter
	closer bool // its source is closed while it runs

	started, ended bool
	err            error
	indexErr       string
	count          int64
}

func (o *parPatch) fired() (n int) {
	for _, f := range o.fs {
		n += f.fired
	}
	return
}

func (o *parPatch) String() string {
	return fmt.Sprintf("patch %d (block size %d, reference %d bytes, local %d bytes, %s)", o.id, o.p.bs, len(o.p.ref), len(o.p.local), o.p.kind)
}

// run builds the index unless it has one, and patches.
func (o *parPatch) run(c *Ctx) {
	o.started = true
	if o.sum == nil {
		idx, lookup, err := buildIndex(o.p)
		if err != nil {
			o.indexErr = err.Error()
			return
		}
		for i := 0; i < o.p.n; i++ {
			if !bytes.Equal(lookup.GetStrongChecksumForBlock(i), md5sum(o.p.block(i))) {
				o.indexErr = fmt.Sprintf("the strong checksum of block %d is wrong", i)
				return
			}
		}
		o.sum = summaryOf(o.p, idx, lookup)
	}
	v := &filechecksum.HashVerifier{Hash: md5.New(), BlockSize: uint(o.p.bs), BlockChecksumGetter: o.sum}
	source := blocksources.NewBlockSourceBase(o.req, blocksources.MakeFileSizedBlockResolver(uint64(o.p.bs), int64(len(o.p.ref))), v, o.conc, 1<<20)
	rs := &gosync.RSync{Input: o.in, Source: source, Output: o.out, Summary: o.sum}
	if o.closer {
		simrt.Spawn("closer", func() {
			pause(c, 1)
			c.Fault("source-closed")
			source.Close()
		})
	}
	o.err = rs.Patch()
	o.ended = true
	simrt.Logf("patch %d returned %v", o.id, o.err)
	if o.err == nil {
		o.count = source.ReadBytes()
	}
	source.Close()
}

func (o *parPatch) check(c *Ctx, others string) {
	switch {
	case !o.started:
		return
	case o.indexErr != "":
		c.Fail("C27", "index", "%v beside %s: index: %s", o, others, o.indexErr)
		return
	case !o.ended:
		return
	}
	faulty := o.fired() > 0 || o.closer
	if o.err == nil && !bytes.Equal(o.out.got, o.p.ref) {
		c.Fail("C27", "wrong-output", "%v beside %s returned nil but wrote %s", o, others, describeDiff(o.out.got, o.p.ref))
	}
	if o.err != nil && !faulty {
		c.Fail("C27", "patch-failed", "%v, in which nothing failed, beside %s: %v", o, others, o.err)
	}
	checkFetches(c, "C27", o.p, o.req.fetches, !faulty && o.err == nil, gosync.DefaultConcurrency, false)
	if o.err == nil && !faulty && o.count != o.req.okBytes() {
		c.Fail("C27", "byte-count", "%v beside %s: its source counted %d bytes, its fetches returned %d", o, others, o.count, o.req.okBytes())
	}
}

// parallelPatches runs patches in memory at the same time, and one more after them; faults hit
// only one of them.
func parallelPatches(c *Ctx) {
	n := c.WR("patches", 2, 3)
	gosync.DefaultConcurrency = genMatchers(c, 4)
	if k := c.WW("bufsize", 30, 40, 30); k > 0 {
		simrt.BufSize = []int{0, 16, 64}[k]
	}
	shared := c.WC("shared-summary", 1, 2)
	bad := -1
	if c.FC("one-fails", 1, 2) {
		bad = c.F("failing-patch", n)
	}
	var ops []*parPatch
	for i := 0; i <= n; i++ {
		o := &parPatch{id: i}
		if i > 0 && shared {
			q := *ops[0].p
			o.p = &q
			o.p.local, o.p.kind = genLocal(c, q.bs, q.ref)
			c.Describe("local %d bytes (%s)", len(o.p.local), o.p.kind)
		} else {
			o.p = genPair(c, sizeSmall)
		}
		mask := 0
		if i == bad {
			mask = 1 + c.F("fault-mask", 127)
			o.closer = mask&(1<<6) != 0 && c.FC("close-source", 1, 2)
		}
		f := func(bit int) bool { return mask&(1<<bit) != 0 }
		mode := genIOMode(c)
		o.in = newInput(c, o.p.local, mode, f(0), f(1), false)
		o.req = newRequester(c, o.p.ref)
		o.req.slow = c.WW("fetch-slow", 50, 50)
		o.req.fail = newFaulter(c, "fetch-error", f(2))
		o.req.corrupt = newFaulter(c, "fetch-corrupt", f(3))
		o.req.trunc = newFaulter(c, "fetch-truncated", f(4))
		o.out = &simOutput{c: c, want: o.p.ref, err: newFaulter(c, "output-write-error", f(5)), slow: c.WW("out-slow", 80, 20), check: true, prop: "C27"}
		o.fs = []*faulter{o.in.err, o.in.seekErr, o.req.fail, o.req.corrupt, o.req.trunc, o.out.err}
		o.conc = c.WR("source-concurrency", 1, 3)
		ops = append(ops, o)
	}
	c.Describe("%d patches at the same time and one after them, shared summary %v, failing %d, %d matchers each, buffers %d", n, shared, bad, gosync.DefaultConcurrency, simrt.BufSize)
	if shared {
		c.Hit("shared summary")
	}
	oc := c.Sim(simrt.Config{}, func() {
		if shared {
			idx, lookup, e := buildIndex(ops[0].p)
			if e != nil {
				c.Fail("C27", "index", "building the index of the reference failed: %v", e)
				return
			}
			for _, o := range ops {
				o.sum = summaryOf(o.p, idx, lookup)
			}
			if c.WC("same-summary", 1, 2) {
				for _, o := range ops {
					o.sum = ops[0].sum
				}
			}
		}
		var wg simrt.WaitGroup
		wg.Add(n)
		for _, o := range ops[:n] {
			o := o
			simrt.Spawn(fmt.Sprintf("patch-%d", o.id), func() {
				defer wg.Done()
				if c.WC("late", 1, 3) {
					pause(c, 1)
				}
				o.run(c)
			})
		}
		wg.Wait()
		if c.WC("settle", 1, 2) {
			simrt.WaitIdle()
		}
		ops[n].run(c)
		simrt.WaitIdle()
		if k, d := simrt.LiveRepoTasks(); k > 0 && bad < 0 {
			c.Fail("C27", "goroutines", "%d goroutines are left after %d patches without faults: %s", k, n+1, strings.Join(d, "; "))
		}
	})
	if !c.Report(oc, "C27", "patches at the same time") {
		return
	}
	for i, o := range ops {
		var others []string
		for j, q := range ops {
			if j != i {
				others = append(others, q.String())
			}
		}
		o.check(c, strings.Join(others, " and "))
	}
	c.Hit(fmt.Sprintf("%d patches at the same time", n))
}

// parFile is one of several files patched by a process.
type parFile struct {
	id             int
	p              *Pair
	in, out, url   string
	inPlace        bool
	sum            *gosync.BasicSummary
	doPatch        bool
	makeErr        error
	patchErr       error
	closeErr       error
	started, ended bool
	old            []byte // what the output held before
	existed        bool
}

func (f *parFile) run(c *Ctx) {
	f.started = true
	if f.sum == nil {
		idx, lookup, e := buildIndex(f.p)
		if e != nil {
			f.makeErr = e
			f.ended = true
			return
		}
		f.sum = summaryOf(f.p, idx, lookup)
	}
	rs, err := gosync.MakeRSync(f.in, f.url, f.out, f.sum)
	simrt.Logf("file %d: MakeRSync returned %v", f.id, err)
	if f.makeErr = err; err == nil {
		if f.doPatch {
			f.patchErr = rs.Patch()
			simrt.Logf("file %d: Patch returned %v", f.id, f.patchErr)
		}
		if c.WC("wait-before-close", 1, 4) {
			pause(c, 1)
		}
		f.closeErr = rs.Close()
		simrt.Logf("file %d: Close returned %v", f.id, f.closeErr)
	}
	f.ended = true
}

func (f *parFile) errs() string {
	return fmt.Sprintf("make: %v, patch: %v, close: %v", f.makeErr, f.patchErr, f.closeErr)
}

// parallelFiles patches several files of one directory at the same time; faults hit only one.
func parallelFiles(c *Ctx) {
	n := c.WR("files", 2, 3)
	gosync.DefaultConcurrency = c.WR("matchers", 1, 3)
	if k := c.WW("bufsize", 30, 40, 30); k > 0 {
		simrt.BufSize = []int{0, 16, 64}[k]
	}
	fs := simos.New()
	simos.Disk = fs
	defer func() { currentWeb = nil }()
	bad := -1
	badKind := 0
	if c.FC("one-fails", 1, 2) {
		bad = c.F("failing-file", n)
		badKind = c.FW("failure", 40, 45, 15)
	}
	mask := 0
	if bad >= 0 && badKind == 0 {
		mask = 1 + c.F("net-fault-mask", 255)
	}
	web := newWeb(c, mask)
	sharedRef := c.WC("shared-summary", 1, 3)
	var ops []*parFile
	for i := 0; i < n; i++ {
		f := &parFile{id: i, in: fmt.Sprintf("local%d.bin", i), doPatch: true}
		if i > 0 && sharedRef {
			q := *ops[0].p
			f.p = &q
			f.p.local, f.p.kind = genLocal(c, q.bs, q.ref)
			f.url = ops[0].url
		} else {
			f.p = genPair(c, sizeSmall)
			f.url = fmt.Sprintf("http://server/ref%d.bin", i)
			web.files[fmt.Sprintf("/ref%d.bin", i)] = f.p.ref
		}
		pr := prng(c.Src.Seed32('W', "old-out-seed"))
		switch c.WW("output", 55, 20, 15, 10) {
		case 0:
			f.inPlace, f.out = true, f.in
		case 1:
			f.out = fmt.Sprintf("out%d.bin", i)
		case 2:
			f.out = fmt.Sprintf("out%d.bin", i)
			f.old, f.existed = pr.bytes(c.W("old-len", 2*len(f.p.ref)+2), 256), true
			fs.Put("/work/"+f.out, f.old, 0644)
		case 3:
			f.out = fmt.Sprintf("/tmp/out%d.bin", i)
		}
		// several outputs from one input
		if i > 0 && !f.inPlace && !ops[i-1].inPlace && c.WC("same-input", 1, 2) {
			f.in = ops[i-1].in
			f.p.local, f.p.kind = ops[i-1].p.local, ops[i-1].p.kind
			c.Hit("same input")
		} else {
			fs.Put("/work/"+f.in, f.p.local, 0644)
		}
		if f.inPlace {
			f.old, f.existed = f.p.local, true
		}
		ops = append(ops, f)
	}
	if bad >= 0 {
		switch badKind {
		case 0:
			web.only = strings.TrimPrefix(ops[bad].url, "http://server")
		case 1: // system calls on its own files fail
			k := diskKinds[c.F("disk-fault-kind", len(diskKinds))]
			df := newFaulter(c, "disk-"+k+"-error", true)
			if df.at > 0 && k != "read" && k != "write" && k != "seek" {
				df.at = 1 + (df.at-1)%3
			}
			fs.Hook = func(op simos.Op) (v simos.Verdict) {
				base := op.Path[strings.LastIndexByte(op.Path, '/')+1:]
				if base != ops[bad].in && base != ops[bad].out || op.Kind != k || !df.hit() {
					return
				}
				v.Err = syscall.EIO
				if k == "write" && op.N > 0 {
					v.Short = c.F("short-write", op.N)
				}
				return
			}
		case 2:
			ops[bad].doPatch = false
			c.Fault("never-patched")
		}
	}
	// what fails is one operation, and those that share its reference or its input
	excused := func(f *parFile) bool {
		if bad < 0 || len(c.Faults) == 0 {
			return false
		}
		b := ops[bad]
		switch badKind {
		case 0:
			return f.url == b.url
		case 1:
			return f == b || f.in == b.in
		}
		return f == b
	}
	for _, f := range ops {
		c.Describe("file %d: %s -> %s from %s, block size %d, reference %d bytes, local %d bytes (%s)", f.id, f.in, f.out, f.url, f.p.bs, len(f.p.ref), len(f.p.local), f.p.kind)
	}
	c.Describe("failing file %d (%d), shared summary %v, %d matchers each, buffers %d", bad, badKind, sharedRef, gosync.DefaultConcurrency, simrt.BufSize)
	before := contents(fs)
	inPlaceCheck := func(when string) {
		for _, f := range ops {
			if f.inPlace {
				continue
			}
			if !fs.Lookup(f.in).Is(f.p.local) {
				cur, _ := fs.Get(f.in)
				c.Fail("C27", "input-changed", "the input of file %d was changed at %s: %s", f.id, when, describeDiff(cur, f.p.local))
			}
		}
	}
	fs.After = func(op simos.Op) { inPlaceCheck(op.Kind + " " + op.Path) }
	settled := false
	oc := c.Sim(simrt.Config{}, func() {
		if sharedRef {
			idx, lookup, e := buildIndex(ops[0].p)
			if e != nil {
				c.Fail("C27", "index", "building the index of the reference failed: %v", e)
				return
			}
			for _, f := range ops {
				f.sum = summaryOf(f.p, idx, lookup)
			}
		}
		var wg simrt.WaitGroup
		wg.Add(n)
		for _, f := range ops {
			f := f
			simrt.Spawn(fmt.Sprintf("file-%d", f.id), func() {
				defer wg.Done()
				if c.WC("late", 1, 3) {
					pause(c, 1)
				}
				f.run(c)
			})
		}
		wg.Wait()
		simrt.WaitIdle()
		settled = true
		if k, d := simrt.LiveRepoTasks(); k > 0 {
			c.Fail("C27", "goroutines", "%d goroutines are left after %d files: %s", k, n, strings.Join(d, "; "))
		}
	})
	if !c.Report(oc, "C27", "files patched at the same time") || !settled {
		return
	}
	inPlaceCheck("the end")
	outs := map[string]bool{}
	for _, f := range ops {
		outs[resolve(fs, f.out)] = true
		cur, ok := fs.Get(f.out)
		done := f.makeErr == nil && f.patchErr == nil && f.closeErr == nil
		switch {
		case done && f.doPatch:
			c.Hit("file patched")
			if !ok || !bytes.Equal(cur, f.p.ref) {
				c.Fail("C27", "wrong-file", "file %d was patched successfully beside %d others but does not hold its reference: exists %v, %s; faults %v", f.id, n-1, ok, describeDiff(cur, f.p.ref), c.Faults)
			}
		case f.inPlace && (f.makeErr != nil || f.patchErr != nil || !f.doPatch):
			if !ok || !bytes.Equal(cur, f.old) {
				c.Fail("C27", "local-lost", "file %d was not patched (%s) but was changed: exists %v, %s", f.id, f.errs(), ok, describeDiff(cur, f.old))
			}
		}
		if !done && !excused(f) {
			c.Fail("C27", "failed", "patching file %d, in which nothing failed, failed beside %d others: %s; faults %v", f.id, n-1, f.errs(), c.Faults)
		}
	}
	if hs := fs.OpenFiles(); len(hs) > 0 {
		c.Fail("C27", "open-files", "%d files are still open at the end, one of them %s", len(hs), hs[0].Name())
	}
	if k := web.openBodies(); k > 0 {
		c.Fail("C27", "open-bodies", "%d response bodies are not closed", k)
	}
	var left []string
	for name := range fs.Files() {
		if !before.files[name] && !outs[name] {
			left = append(left, name)
		}
	}
	sort.Strings(left)
	allowed := 0
	for _, f := range ops {
		if f.inPlace && f.closeErr != nil {
			allowed++ // the only complete new content
		}
	}
	if len(left) > allowed {
		c.Fail("C27", "temporary-file", "left behind: %s; faults %v", strings.Join(left, ", "), c.Faults)
	}
	c.Hit(fmt.Sprintf("%d files at the same time", n))
}
