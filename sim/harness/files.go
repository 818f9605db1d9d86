package main

import (
	"bytes"
	"fmt"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"

	gosync "github.com/Redundancy/go-sync"
	"verif.local/sim/simos"
	"verif.local/sim/simrt"
)

func init() {
	register("C15", 40, "files, no faults", func(c *Ctx) { fileScenario(c, fileOpts{}) })
	register("C15", 60, "files, faults", func(c *Ctx) { fileScenario(c, fileOpts{faults: true}) })
	register("C16", 55, "in place, faults", func(c *Ctx) { fileScenario(c, fileOpts{faults: true, inPlace: true}) })
	register("C16", 30, "in place, kill", func(c *Ctx) { fileScenario(c, fileOpts{faults: true, inPlace: true, kill: true}) })
	register("C16", 15, "in place, no faults", func(c *Ctx) { fileScenario(c, fileOpts{inPlace: true}) })
	register("C17", 75, "files, faults", func(c *Ctx) { fileScenario(c, fileOpts{faults: true}) })
	register("C17", 25, "files, no faults", func(c *Ctx) { fileScenario(c, fileOpts{}) })
	register("C04", 25, "files, faults", func(c *Ctx) { fileScenario(c, fileOpts{faults: true}) })
	register("C02", 20, "files, no faults", func(c *Ctx) { fileScenario(c, fileOpts{legal: true}) })
}

type fileOpts struct {
	faults, inPlace, kill, legal bool
}

// diskFaults injects faults into the file system calls of one process.
type diskFaults struct {
	c     *Ctx
	kind  map[string]*faulter
	phase string // only in this phase, "" = always
	now   *string
	short int // legal short reads
	kill  int // kill at this operation, 0 = never
	ops   int
	fired map[string]int // kind -> faults
}

var diskKinds = []string{"open", "create", "tempfile", "stat", "read", "write", "seek", "close", "remove", "rename", "truncate", "sync"}

// newDiskFaults draws which kinds fail. mask selects kinds, a kill comes on top.
func newDiskFaults(c *Ctx, on bool, kill bool, now *string) *diskFaults {
	d := &diskFaults{c: c, kind: map[string]*faulter{}, now: now, fired: map[string]int{}, short: c.WW("short-file-reads", 70, 30)}
	if on {
		mask := 0
		switch c.FW("disk-fault-mask", 3, 45, 52) {
		case 1: // one kind
			mask = 1 << c.F("disk-fault-kind", len(diskKinds))
		case 2:
			mask = 1 + c.F("disk-fault-kinds", 1<<len(diskKinds)-1)
		}
		for i, k := range diskKinds {
			if mask&(1<<i) != 0 {
				f := newFaulter(c, "disk-"+k+"-error", true)
				if f.at > 0 && k != "read" && k != "write" && k != "seek" {
					f.at = 1 + (f.at-1)%3 // there are only a few of these
				}
				d.kind[k] = f
			}
		}
		d.phase = []string{"", "make", "patch", "close"}[c.FW("disk-fault-phase", 45, 8, 12, 35)]
	}
	if kill {
		d.kill = 1 + c.F("kill-at", []int{8, 20, 50, 150}[c.F("kill-span", 4)])
		if c.FC("kill-in-close", 1, 2) {
			d.phase = "close"
		}
	}
	return d
}

func (d *diskFaults) hook(op simos.Op) (v simos.Verdict) {
	c := d.c
	if op.Kind == "read" && d.short == 1 && op.N > 1 {
		v.Short = 1 + c.W("file-read-chunk", op.N)
	}
	if d.phase != "" && d.now != nil && *d.now != d.phase {
		return
	}
	d.ops++
	if d.kill > 0 && d.ops == d.kill {
		c.Fault("kill")
		v.Crash = true
		if op.Kind == "write" && op.N > 0 {
			v.Short = 1 + c.F("kill-write", op.N)
		} else {
			v.Short = 0
		}
		return
	}
	f := d.kind[op.Kind]
	if f == nil || !f.hit() {
		return
	}
	d.fired[op.Kind]++
	v.Err, v.Short = syscall.EIO, 0
	switch op.Kind {
	case "write":
		if op.N > 0 {
			v.Short = c.F("short-write", op.N)
		}
		if c.FC("write-enospc", 1, 2) {
			v.Err = syscall.ENOSPC
		}
	case "close":
		if c.FC("close-loses", 2, 3) {
			v.Lose = 1 + c.F("close-lost", 1<<c.F("close-lost-bits", 12))
		}
	case "open", "create", "tempfile":
		v.Err = []error{syscall.EMFILE, syscall.EACCES, syscall.EIO, syscall.ENOSPC}[c.F("open-errno", 4)]
	case "stat", "remove", "rename":
		v.Err = []error{syscall.EACCES, syscall.EIO, syscall.EPERM}[c.F("path-errno", 3)]
	}
	return
}

func fileScenario(c *Ctx, o fileOpts) {
	p := genPair(c, sizeSmall)
	gosync.DefaultConcurrency = genMatchers(c, 5)
	if k := c.WW("bufsize", 20, 40, 40); k > 0 {
		simrt.BufSize = []int{0, 16, 64}[k]
	}
	fs := simos.New()
	simos.Disk = fs
	defer func() { currentWeb = nil }()

	// the files
	mode := os.FileMode(0644)
	legal := true // patching has to work unless something fails
	in := fs.Put("/work/local.bin", p.local, 0644)
	inDir := fs.Root.Dir["work"]
	sub := func(name string) *simos.Inode {
		fs.Put("/work/"+name+"-x", nil, 0)
		i := fs.Root.Dir["work"].Dir[name+"-x"]
		delete(fs.Root.Dir["work"].Dir, name+"-x")
		i.Mode, i.Dir = 0755|os.ModeDir, map[string]*simos.Inode{}
		inDir.Dir[name] = i
		return i
	}
	link := func(at, to string) {
		fs.Put(at, nil, 0777).Link = to
	}
	sub("sub")
	inName := []string{"local.bin", "/work/local.bin", "./local.bin", "sub/../local.bin"}[c.W("in-spelling", 4)]
	outName := ""
	inPlace := true
	place := c.WW("output", 25, 12, 12, 12, 10, 30, 9)
	if !o.inPlace {
		place = c.WW("output-any", 14, 7, 7, 7, 5, 10, 50)
	} else if place == 6 {
		place = 0
	}
	kind := ""
	switch place {
	case 0:
		kind, outName = "same name", inName
	case 1:
		kind, outName = "other spelling", []string{"/work/local.bin", "./local.bin", "/work/sub/../local.bin", "local.bin"}[c.W("out-spelling", 4)]
	case 2:
		kind, outName = "symbolic link to the input", "alias.bin"
		link("/work/alias.bin", []string{"local.bin", "/work/local.bin", "sub/../local.bin"}[c.W("link-to", 3)])
	case 3:
		kind, outName = "hard link to the input", "hard.bin"
		inDir.Dir["hard.bin"] = in
		in.Nlink++
	case 4:
		kind, outName, inName = "input through a symbolic link", inName, "alias.bin"
		link("/work/alias.bin", "local.bin")
	case 5:
		kind, outName = "same name", inName
		if c.WC("read-only", 1, 4) {
			kind, mode, legal = "same name, read-only", 0444, false
			in.Mode = mode
		}
	default:
		inPlace = false
		pr := prng(c.Src.Seed32('W', "old-out-seed"))
		w := []int{25, 20, 15, 15, 8, 6, 5, 6}
		if o.legal {
			w = w[:5]
		}
		switch c.WW("out-kind", w...) {
		case 0:
			kind, outName = "new file", []string{"out.bin", "/tmp/out.bin", "sub/out.bin"}[c.W("out-where", 3)]
		case 1:
			kind, outName = "existing longer file", "out.bin"
			fs.Put("/work/out.bin", pr.bytes(len(p.ref)+c.WR("longer-by", 1, 200), 256), 0644)
		case 2:
			kind, outName = "existing shorter file", "out.bin"
			fs.Put("/work/out.bin", pr.bytes(c.W("shorter", len(p.ref)+1), 256), 0644)
		case 3:
			kind, outName = "existing copy of the input", "out.bin"
			fs.Put("/work/out.bin", p.local, 0644)
		case 4:
			kind, outName = "symbolic link to another file", "link.bin"
			if c.WC("dangling", 1, 2) {
				link("/work/link.bin", "sub/target.bin")
			} else {
				fs.Put("/work/target.bin", pr.bytes(c.W("target-len", 2*len(p.ref)+2), 256), 0644)
				link("/work/link.bin", "target.bin")
			}
		case 5:
			kind, outName, legal = "read-only file", "out.bin", false
			fs.Put("/work/out.bin", pr.bytes(50, 256), 0444)
		case 6:
			kind, outName, legal = "missing directory", "nodir/out.bin", false
		case 7:
			kind, legal = "missing input", false
			outName = "out.bin"
			inName = "nothing.bin"
		}
	}
	c.Hit("output: " + kind)

	// a summary that claims more than there is: nothing is promised about the
	// result, but a patch that fails because of it is a failed patch
	claimed := len(p.ref)
	if over := p.n*p.bs - len(p.ref); inPlace && over > 0 && !o.legal && c.WC("claims-more", 1, 15) {
		claimed += 1 + c.W("claimed", over)
		legal = false
		kind += ", summary with a wrong size"
	}

	// faults
	disk, net, full, kill := false, false, false, o.kill
	if o.faults {
		switch c.FW("fault-family", 45, 20, 12, 10, 8) {
		case 0:
			disk = true
		case 1:
			net = true
		case 2:
			full = true
		case 3:
			disk, net = true, true
		case 4:
			kill = true
		}
	}
	mask := 0
	if net {
		mask = 1 + c.F("net-fault-mask", 255)
	}
	web := newWeb(c, mask)
	web.files["/ref.bin"] = p.ref
	phase := "start"
	df := newDiskFaults(c, disk, kill, &phase)
	fs.Hook = df.hook
	if full {
		room := c.F("room", 2*len(p.ref)+10)
		fs.Limit = fileBytes(fs) + int64(room)
		if fs.Limit == 0 {
			fs.Limit = 1
		}
	}
	before := contents(fs)
	outPath := resolve(fs, outName)
	doPatch := o.legal || !c.WC("no-patch", 1, 12)
	closes := 1 + c.WW("closes", 88, 12)
	c.Describe("%s: input %s, output %s; concurrency %d, buffers %d, patch %v, %d closes, disk faults %v, net faults %v, disk full %v, kill %v",
		kind, inName, outName, gosync.DefaultConcurrency, simrt.BufSize, doPatch, closes, disk, net, full, kill)

	// what has to hold at every instant
	var patchErr, makeErr error
	patched := false
	var closeErr error
	check := func(when string) {
		if !inPlace {
			if !bytes.Equal(in.Data, p.local) || inDir.Dir["local.bin"] != in {
				c.Fail("C15", "input-changed", "the input was changed although the output is another file (%s), at %s: %s", kind, when, describeDiff(in.Data, p.local))
			}
			return
		}
		if cur := fs.Lookup(before.inPath); !patched && !cur.Is(p.local) {
			cur, ok := fs.Get(before.inPath)
			c.Fail("C16", "touched-early", "the local file was changed at %s although no patch has succeeded (%s): exists %v, %s", when, kind, ok, describeDiff(cur, p.local))
		}
		if patched && claimed != len(p.ref) {
			return
		}
		for _, i := range fs.Files() {
			if i.Is(p.ref) || i.Is(p.local) {
				return
			}
		}
		c.Fail("C16", "lost", "at %s no file holds the complete old (%d bytes) or new (%d bytes) content: %s", when, len(p.local), len(p.ref), listing(fs))
	}
	before.inPath = "/work/local.bin"
	fs.After = func(op simos.Op) { check(op.Kind + " " + op.Path) }

	url := "http://server/ref.bin"
	finished := false
	settled := false
	oc := c.Sim(simrt.Config{}, func() {
		idx, lookup, e := buildIndex(p)
		if e != nil {
			c.Fail("C02", "index", "building the index of the reference failed: %v", e)
			return
		}
		if c.WC("ask-same", 1, 3) {
			names := []string{inName, outName, "local.bin", "sub", "nothing.bin"}
			for k := c.WR("questions", 1, 4); k > 0; k-- {
				a, b := names[c.W("same-a", len(names))], names[c.W("same-b", len(names))]
				x, y := fs.Lookup(a), fs.Lookup(b)
				same, err := gosync.IsSameFile(a, b)
				simrt.Logf("IsSameFile(%s, %s) returned %v, %v", a, b, same, err)
				if err == nil && same != (x != nil && x == y) {
					c.Fail("C15", "same-file", "IsSameFile(%q, %q) = %v (%s)", a, b, same, kind)
				}
				if err != nil && df.fired["stat"] == 0 {
					c.Fail("C15", "same-file", "IsSameFile(%q, %q) failed without any fault: %v", a, b, err)
				}
			}
		}
		phase = "make"
		summary := summaryOf(p, idx, lookup)
		summary.FileSize = int64(claimed)
		if !net && c.WC("unverified", 1, 10) {
			// as documented: no verification of what is downloaded
			summary.ChecksumLookup = nil
			c.Hit("without verification")
		}
		rs, err := gosync.MakeRSync(inName, url, outName, summary)
		makeErr = err
		simrt.Logf("MakeRSync returned %v", err)
		if err == nil {
			if doPatch {
				phase = "patch"
				patchErr = rs.Patch()
				patched = patchErr == nil
				simrt.Logf("Patch returned %v", patchErr)
			}
			phase = "close"
			for k := 0; k < closes; k++ {
				e := rs.Close()
				simrt.Logf("Close returned %v", e)
				if k == 0 {
					closeErr = e
				}
			}
		}
		phase = "end"
		finished = true
		simrt.WaitIdle()
		settled = true
		if n, d := simrt.LiveRepoTasks(); n > 0 {
			c.Fail("C17", "goroutines", "%d goroutines are left (make: %v, patch: %v, close: %v): %s", n, makeErr, patchErr, closeErr, strings.Join(d, "; "))
		}
	})
	fired := len(c.Faults) > 0 || fs.Full > 0
	if fs.Full > 0 {
		c.Faults["disk-full"] += fs.Full
	}
	phaseProp := map[string]string{"patch": "C04"}[phase]
	if phaseProp == "" {
		phaseProp = "C17"
	}
	if oc.Aborted {
		c.Hit("killed in " + phase)
		check("the kill")
		if legal {
			fs.NewProcess()
			rerun(c, p, fs, inName, outName, url, kind, "patching again after a kill")
		}
		return
	}
	if !c.Report(oc, phaseProp, "phase "+phase) {
		if phaseProp == "C04" && !fired && c.Infra == "" {
			c.Fail("C02", "no-result", "Patch without any fault did not return: panic=%q deadlock=%v limit=%v", oc.Panic, oc.Deadlock, oc.LimitHit)
		}
		if legal && !fired && c.Infra == "" {
			c.Fail("C15", "no-result", "patching without any fault did not end (phase %s): panic=%q deadlock=%v limit=%v", phase, oc.Panic, oc.Deadlock, oc.LimitHit)
		}
		return
	}
	if !finished || !settled {
		return
	}
	check("the end")
	errs := fmt.Sprintf("make: %v, patch: %v, close: %v", makeErr, patchErr, closeErr)
	allNil := makeErr == nil && patchErr == nil && closeErr == nil
	out, outOK := fs.Get(outName)
	if claimed != len(p.ref) {
		if patchErr != nil {
			c.Hit("wrong size noticed")
		}
	} else if allNil && doPatch {
		c.Hit("success")
		if !outOK || !bytes.Equal(out, p.ref) {
			c.Fail("C15", "wrong-file", "everything succeeded but the output (%s) does not hold the reference: exists %v, %s; faults %v", kind, outOK, describeDiff(out, p.ref), c.Faults)
			if inPlace {
				c.Fail("C16", "unreported", "Patch and Close succeeded but the local file does not hold the new content: exists %v, %s; faults %v", outOK, describeDiff(out, p.ref), c.Faults)
			}
		}
	}
	if !fired && legal && !allNil {
		if patchErr != nil {
			c.Fail("C02", "patch-failed", "Patch failed without any fault: %v", patchErr)
		}
		c.Fail("C15", "failed", "without any fault patching failed (%s): %s", kind, errs)
	}
	if makeErr != nil {
		c.Hit("not set up")
		now := contents(fs)
		for n := range before.files {
			if !now.files[n] || now.data[n] != before.data[n] {
				c.Fail("C15", "changed-by-failed-setup", "MakeRSync failed (%v) and yet changed %s (%s): exists %v, %s", makeErr, n, kind, now.files[n], describeDiff([]byte(now.data[n]), []byte(before.data[n])))
			}
		}
	}
	if closeErr != nil && len(df.fired) == 0 && fs.Full == 0 && (legal || !patched) {
		c.Fail("C17", "invented-close-error", "Close reports %q although every file could be closed (%s); make: %v, patch: %v; faults %v", closeErr, kind, makeErr, patchErr, c.Faults)
	}
	if !patched {
		c.Hit("no success")
	}
	if gone := web.missing404(); patchErr != nil && len(c.Faults) == 1 && gone && !strings.Contains(patchErr.Error(), "404") {
		c.Fail("C18", "404", "the server has no such file, Patch returned %q", patchErr)
	}
	// what is left
	if hs := fs.OpenFiles(); len(hs) > 0 {
		var n []string
		for _, h := range hs {
			n = append(n, h.Name())
		}
		c.Fail("C17", "open-files", "still open after %s: %s", errs, strings.Join(n, ", "))
	}
	if n := web.openBodies(); n > 0 {
		c.Fail("C17", "open-bodies", "%d of %d response bodies are not closed after %s", n, len(web.xs), errs)
	}
	var left []string
	keep := false
	for name, i := range fs.Files() {
		if before.files[name] || name == outPath || name == before.inPath {
			continue
		}
		left = append(left, fmt.Sprintf("%s (%d bytes)", name, len(i.Data)))
		// the complete new content, kept because it could not replace the old
		keep = patched && closeErr != nil && (bytes.Equal(i.Data, p.ref) || claimed != len(p.ref))
	}
	sort.Strings(left)
	if len(left) > 0 && !(keep && len(left) == 1) && df.fired["remove"]+df.fired["rename"] == 0 {
		c.Fail("C17", "temporary-file", "left behind after %s: %s; faults %v", errs, strings.Join(left, ", "), c.Faults)
	}
	if len(left) > 0 && makeErr == nil && closeErr == nil {
		c.Fail("C17", "left-unreported", "Close reports success but left %s behind; patch: %v; faults %v", strings.Join(left, ", "), patchErr, c.Faults)
	}
	if legal && len(c.Viol) == 0 && c.WC("again", 1, 4) {
		// whatever became of this patch, the next one is as good as any
		how := "patching again"
		if c.WC("next-version", 1, 2) {
			how = "patching to the next version"
			p = nextVersion(c, p)
		}
		if c.WC("next-process", 1, 2) {
			fs.NewProcess()
			how += " in a new process"
		}
		if !patched {
			how += " after a failure"
		}
		rerun(c, p, fs, inName, outName, url, kind, how)
	}
}

// nextVersion makes a later version of a reference.
func nextVersion(c *Ctx, p *Pair) *Pair {
	q := &Pair{bs: p.bs, ref: append([]byte(nil), p.ref...), kind: "next version"}
	pr := prng(c.Src.Seed32('W', "next-seed"))
	if c.WC("next-bs", 1, 4) {
		q.bs = c.WR("next-bs-of", (p.bs+1)/2, 2*p.bs)
	}
	for k := c.W("next-edits", 4); k > 0; k-- {
		at := c.W("next-at", len(q.ref)+1)
		switch c.W("next-edit", 3) {
		case 0:
			q.ref = splice(q.ref, at, at, pr.bytes(c.W("next-insert", 3*q.bs), 256))
		case 1:
			q.ref = splice(q.ref, at, min(len(q.ref), at+c.W("next-delete", 3*q.bs)), nil)
		case 2:
			if at < len(q.ref) {
				q.ref[at] ^= 1
			}
		}
	}
	q.n = blocksOf(len(q.ref), q.bs)
	return q
}

// rerun patches again, without faults.
func rerun(c *Ctx, p *Pair, fs *simos.FS, inName, outName, url, kind, how string) {
	fs.Hook, fs.After, fs.Limit = nil, nil, 0
	web := newWeb(c, 0)
	web.files["/ref.bin"] = p.ref
	c.Hit(how)
	var errs [3]error
	oc := c.Sim(simrt.Config{}, func() {
		idx, lookup, e := buildIndex(p)
		if e != nil {
			return
		}
		rs, err := gosync.MakeRSync(inName, url, outName, summaryOf(p, idx, lookup))
		if errs[0] = err; err == nil {
			errs[1] = rs.Patch()
			errs[2] = rs.Close()
		}
	})
	if !c.Report(oc, "C15", how) {
		return
	}
	out, ok := fs.Get(outName)
	for _, e := range errs {
		if e != nil {
			c.Fail("C15", "failed-again", "%s failed without any fault (%s): %v", how, kind, errs)
			return
		}
	}
	if !ok || !bytes.Equal(out, p.ref) {
		c.Fail("C15", "wrong-file", "%s succeeded but the output does not hold the reference (%s): exists %v, %s", how, kind, ok, describeDiff(out, p.ref))
	}
}

type snapshot struct {
	files  map[string]bool
	inPath string
	data   map[string]string
}

func contents(fs *simos.FS) *snapshot {
	s := &snapshot{files: map[string]bool{}, data: map[string]string{}}
	for n, i := range fs.Files() {
		s.files[n] = true
		s.data[n] = string(i.Data)
	}
	return s
}

func fileBytes(fs *simos.FS) (n int64) {
	seen := map[*simos.Inode]bool{}
	for _, i := range fs.Files() {
		if !seen[i] {
			seen[i] = true
			n += int64(len(i.Data))
		}
	}
	return
}

// resolve follows the links in the last element of a path.
func resolve(fs *simos.FS, name string) string {
	for k := 0; k < 5; k++ {
		if !strings.HasPrefix(name, "/") {
			name = fs.Cwd + "/" + name
		}
		name = path.Clean(name)
		to := fs.LinkOf(name)
		if to == "" {
			break
		}
		if !strings.HasPrefix(to, "/") {
			to = path.Dir(name) + "/" + to
		}
		name = to
	}
	return name
}

func listing(fs *simos.FS) string {
	var s []string
	for _, n := range fs.Names() {
		d, _ := fs.Get(n)
		s = append(s, fmt.Sprintf("%s (%d bytes)", n, len(d)))
	}
	return strings.Join(s, ", ")
}
