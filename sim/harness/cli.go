package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"strings"

	simcmd "github.com/Redundancy/go-sync/cmd/gosync"
	"github.com/urfave/cli/v2"
	"verif.local/sim/simos"
	"verif.local/sim/simrt"
)

func init() {
	register("C20", 50, "build and patch, faults", func(c *Ctx) { cliScenario(c, true) })
	register("C20", 25, "build, truncated index, patch", func(c *Ctx) { cliTruncated(c) })
	register("C20", 25, "build and patch, no faults", func(c *Ctx) { cliScenario(c, false) })
	register("C17", 12, "command line, faults", func(c *Ctx) { cliScenario(c, true) })
	register("C16", 12, "command line, faults", func(c *Ctx) { cliScenario(c, true) })
	register("C15", 12, "command line, faults", func(c *Ctx) { cliScenario(c, true) })
	cli.OsExiter = simos.Exit
	cli.ErrWriter = io.Discard
}

// process is the result of one run of the command line tool.
type process struct {
	status int // exit status, -1 = killed, -2 = no end
	oc     *simrt.Outcome
}

func (p process) String() string {
	switch p.status {
	case -1:
		return "killed"
	case -2:
		return "no end"
	}
	return fmt.Sprintf("exit status %d", p.status)
}

// command runs gosync with arguments as one simulated process.
func command(c *Ctx, fs *simos.FS, args ...string) (r process) {
	fs.NewProcess()
	simrt.ResetState()
	simos.Args = append([]string{"gosync"}, args...)
	c.Describe("gosync %s", strings.Join(args, " "))
	r.oc = c.Sim(c.limits, func() {
		simrt.Logf("gosync %s", strings.Join(args, " "))
		simcmd.SimMain()
		simos.Exit(0)
	})
	switch {
	case fs.Exited:
		r.status = fs.ExitCode
	case r.oc.Panic != "":
		r.status = 2
	case r.oc.Aborted:
		r.status = -1
	default:
		r.status = -2
	}
	simrt.Logf("%v", r)
	c.Describe("-> %v, stdout %q stderr %q", r, cut(string(fs.Out.Data)), cut(string(fs.Err.Data)))
	return r
}

func cut(s string) string {
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

type cliWorld struct {
	c       *Ctx
	p       *Pair
	fs      *simos.FS
	ref     string // path of the reference
	index   string // path of the index
	oldIdx  []byte // an index of older content that existed before
	oldRef  []byte
	buildOK bool

	mustFail bool // patching cannot succeed
}

// newCLI sets up the reference and the local file.
func newCLI(c *Ctx) *cliWorld {
	w := &cliWorld{c: c, fs: simos.New()}
	if c.WC("huge-blocks", 1, 150) {
		w.p = genHugeBlocks(c)
	} else {
		w.p = genPair(c, sizeSmall)
	}
	simos.Disk = w.fs
	if k := c.WW("bufsize", 20, 40, 40); k > 0 {
		simrt.BufSize = []int{0, 16, 64}[k]
	}
	name := []string{"ref.bin", "ref", "ref.tar.gz"}[c.WW("ref-name", 60, 20, 20)]
	dir := "/tmp"
	if c.WC("ref-dir", 1, 5) { // with an extension of its own
		dir = "/tmp/old.bin"
		w.fs.Put(dir, nil, 0)
		i := w.fs.Root.Dir["tmp"].Dir["old.bin"]
		i.Mode, i.Dir = 0755|os.ModeDir, map[string]*simos.Inode{}
	}
	w.ref = dir + "/" + name
	w.fs.Put(w.ref, w.p.ref, 0644)
	w.index = dir + "/" + strings.TrimSuffix(name, ".bin") + ".gosync"
	if name == "ref.tar.gz" {
		w.index = dir + "/ref.tar.gosync"
	}
	w.fs.Put("/work/local.bin", w.p.local, 0644)
	return w
}

func (w *cliWorld) refName() string {
	return w.ref
}

// build runs gosync build.
func (w *cliWorld) build() process {
	args := []string{[]string{"build", "b"}[w.c.WW("alias", 80, 20)]}
	args = append(args, []string{"--blocksize", "-blocksize"}[w.c.WW("dash", 70, 30)], fmt.Sprint(w.p.bs))
	if w.p.bs == 8192 && w.c.WC("default-blocksize", 3, 4) {
		args = args[:1]
	}
	return command(w.c, w.fs, append(args, w.refName())...)
}

// wellFormed tells whether the index is what a successful build of ref has to produce.
func (w *cliWorld) wellFormed(idx []byte) bool {
	return int64(len(idx)) == int64(6+3*2+8+4)+int64(w.p.n)*20
}

func cliScenario(c *Ctx, faulty bool) {
	w := newCLI(c)
	fs, p := w.fs, w.p
	defer func() { currentWeb = nil }()
	switch c.WW("old-index", 70, 15, 15) {
	case 1: // something that is no index
		pr := prng(c.Src.Seed32('W', "junk-seed"))
		fs.Put(w.index, pr.bytes(c.W("junk", 400), 256), 0644)
	case 2: // an index of other content of the same length and block size
		pr := prng(c.Src.Seed32('W', "oldref-seed"))
		w.oldRef = pr.bytes(len(p.ref), 256)
		ref := w.refName()
		fs.Put(ref, w.oldRef, 0644)
		r := w.build()
		if idx, ok := fs.Get(w.index); ok && r.status == 0 {
			w.oldIdx = append([]byte(nil), idx...)
		}
		if c.Infra != "" {
			return
		}
		fs.Put(ref, p.ref, 0644)
	}
	// build
	where := 0 // where faults happen: 1 build, 2 patch, 3 both
	if faulty {
		where = 1 + c.FW("faulty-process", 40, 45, 15)
	}
	build := w.faults(where&1 != 0)
	b := w.build()
	fs.Hook, fs.Limit = nil, 0
	if c.Infra != "" {
		return
	}
	buildFaults := build.any(fs)
	if b.status == -2 {
		c.Fail("C20", "build-hangs", "gosync build does not end: %v %v", b.oc.Blocked, b.oc.LimitHit)
		return
	}
	if !buildFaults && b.status != 0 {
		c.Fail("C20", "build-failed", "gosync build failed without any fault: %v: %s", b, cut(string(fs.Err.Data)))
		return
	}
	idx, _ := fs.Get(w.index)
	if buildFaults && b.status == 0 {
		// it claims to have written the index
		idx = append([]byte(nil), idx...)
		again := w.build()
		if c.Infra != "" {
			return
		}
		if now, _ := fs.Get(w.index); again.status == 0 && !bytes.Equal(now, idx) {
			c.Fail("C20", "index-incomplete", "gosync build exited with status 0, but its index (%d bytes) is not the one that another build writes (%d bytes); faults %v", len(idx), len(now), c.Faults)
			return
		}
		c.Hit("successful build with faults")
	}
	if c.WC("wrong-build", 1, 20) {
		// a wrongly called build has to fail and to leave everything alone
		ref := w.refName()
		args := [][]string{{"build", "--blocksize", "0", ref}, {"build"}, {"build", "--blocksize", "0"}, {"build", "--blocksize", "many", ref},
			{"build", "--nosuch", ref}, {"build", "/tmp/nothing.bin"}}[c.W("wrong-build-how", 6)]
		files := listing(fs)
		r := command(c, fs, args...)
		now, _ := fs.Get(w.index)
		if c.Infra != "" {
			return
		}
		if r.status == 0 || r.status == -2 || listing(fs) != files || !bytes.Equal(now, idx) {
			c.Fail("C20", "usage", "gosync %s: %v, files before: %s, after: %s", strings.Join(args, " "), r, files, listing(fs))
			return
		}
		c.Hit("wrongly called build")
	}
	if c.WC("index-is-input", 1, 15) {
		// the name of the index is that of the file to be indexed
		data := append([]byte(nil), p.ref...)
		how := c.W("index-is-input-how", 3)
		name := "/tmp/data.gosync"
		fs.Put(name, data, 0644)
		if how > 0 {
			name = "/tmp/data.bin"
			fs.Put(name, data, 0644)
			delete(fs.Root.Dir["tmp"].Dir, "data.gosync")
			if how == 1 {
				fs.Put("/tmp/data.gosync", nil, 0777).Link = "data.bin"
			} else {
				fs.Root.Dir["tmp"].Dir["data.gosync"] = fs.Root.Dir["tmp"].Dir["data.bin"]
				fs.Root.Dir["tmp"].Dir["data.bin"].Nlink++
			}
		}
		r := command(c, fs, "build", "--blocksize", fmt.Sprint(p.bs), name)
		if c.Infra != "" {
			return
		}
		if now, ok := fs.Get(name); r.status == 0 || r.status == -2 || !ok || !bytes.Equal(now, data) {
			c.Fail("C20", "input-destroyed", "gosync build %s, whose index has the name of the file itself: %v, the file exists: %v, %s", name, r, ok, describeDiff(now, data))
			return
		}
		c.Hit("index with the name of its input")
	}
	if !buildFaults && !w.wellFormed(idx) {
		c.Fail("C20", "index", "gosync build of %d blocks succeeded but the index has %d bytes", p.n, len(idx))
	}
	c.Hit("build: " + b.String())
	w.patch(b, buildFaults, where&2 != 0, c.WC("usage-error", 1, 25))
}

// cliTruncated cuts the index of a successful build.
func cliTruncated(c *Ctx) {
	w := newCLI(c)
	defer func() { currentWeb = nil }()
	b := w.build()
	if c.Infra != "" {
		return
	}
	if b.status != 0 {
		c.Fail("C20", "build-failed", "gosync build failed without any fault: %v: %s", b, cut(string(w.fs.Err.Data)))
		return
	}
	idx, _ := w.fs.Get(w.index)
	if len(idx) == 0 {
		c.Fail("C20", "index", "gosync build succeeded but left no index")
		return
	}
	if c.FC("other-damage", 1, 4) {
		w.damagedIndex(b, idx)
		return
	}
	at := 0
	switch c.FW("truncate-how", 50, 30, 20) {
	case 0:
		at = c.F("truncate-at", len(idx))
	case 1: // between records
		at = min(len(idx)-1, 24+20*c.F("truncate-record", w.p.n+1))
	case 2: // in the header
		at = c.F("truncate-header", min(len(idx), 24))
	}
	c.Fault("index-truncated")
	w.fs.Put(w.index, append([]byte(nil), idx[:at]...), 0644)
	c.Describe("index truncated from %d to %d bytes", len(idx), at)
	w.patch(b, true, c.FC("more-faults", 1, 4), false)
}

// damagedIndex patches with a file that is no index of this tool's format, or with one that has
// damaged checksums or goes on behind its end.
func (w *cliWorld) damagedIndex(b process, idx []byte) {
	c := w.c
	idx = append([]byte(nil), idx...)
	how := c.FW("damage", 20, 20, 30, 30)
	if len(idx) < 24 || how == 2 && len(idx) == 24 {
		return
	}
	what := ""
	switch how {
	case 0: // the magic string
		at := c.F("magic-at", 6)
		idx[at] ^= byte(1 + c.F("flip", 255))
		what = fmt.Sprintf("byte %d of the magic string changed", at)
	case 1: // the major version
		at := 6 + c.F("version-at", 2)
		idx[at] ^= byte(1 + c.F("flip", 255))
		what = "another major version"
	case 2: // checksums
		for k := 1 + c.F("flips", 4); k > 0; k-- {
			at := 24 + c.F("flip-at", len(idx)-24)
			idx[at] ^= byte(1 + c.F("flip", 255))
			what += fmt.Sprintf("byte %d changed ", at)
		}
	case 3: // more behind the end
		pr := prng(c.Src.Seed32('W', "junk-seed"))
		n := 1 + c.F("more", 60)
		if c.FC("whole-records", 1, 2) {
			n = 20 * (1 + c.F("more-records", 4))
			if len(idx) > 24 && c.FC("repeat-record", 1, 2) {
				n = 0
				at := 24 + 20*c.F("record", (len(idx)-24)/20)
				idx = append(idx, idx[at:at+20]...)
			}
		}
		idx = append(idx, pr.bytes(n, 256)...)
		what = "bytes behind the end"
	}
	c.Fault("index-damaged")
	c.Describe("index damaged: %s", what)
	w.fs.Put(w.index, idx, 0644)
	w.mustFail = how != 2
	w.patch(b, true, c.FC("more-faults", 1, 5), false)
}

type cliFaults struct {
	df   *diskFaults
	fs   *simos.FS
	full int
	n    int
}

func (f *cliFaults) any(fs *simos.FS) bool {
	n := 0
	for _, k := range f.df.fired {
		n += k
	}
	if fs.Full > f.full {
		f.df.c.Faults["disk-full"] += fs.Full - f.full
		n++
	}
	return n > 0 || f.df.kill > 0 && f.df.ops >= f.df.kill
}

// faults prepares the disk faults of the next process.
func (w *cliWorld) faults(on bool) *cliFaults {
	c := w.c
	disk, kill, full := false, false, false
	if on {
		switch c.FW("cli-fault-family", 45, 30, 25) {
		case 0:
			disk = true
		case 1:
			kill = true
		case 2:
			full = true
		}
	}
	f := &cliFaults{df: newDiskFaults(c, disk, kill, nil), fs: w.fs, full: w.fs.Full}
	f.df.phase = ""
	w.fs.Hook = f.df.hook
	if full {
		w.fs.Limit = max(1, fileBytes(w.fs)+int64(c.F("room", 2*len(w.p.ref)+60)))
	}
	return f
}

// patch runs gosync patch and judges the outcome.
func (w *cliWorld) patch(b process, buildFaults, faulty, usage bool) {
	c, fs, p := w.c, w.fs, w.p
	idx, haveIdx := fs.Get(w.index)
	idx = append([]byte(nil), idx...)
	expect := p.ref
	stale := haveIdx && w.oldIdx != nil && bytes.Equal(idx, w.oldIdx) && !bytes.Equal(w.oldRef, p.ref)
	inPlace := c.WC("in-place", 1, 2)
	out := "/work/local.bin"
	args := []string{[]string{"patch", "p"}[c.WW("alias", 80, 20)]}
	if c.WC("p-flag", 1, 5) {
		args = append(args, "-p", fmt.Sprint(genMatchers(c, 5)))
	}
	args = append(args, "local.bin", w.index, "http://server/ref.bin")
	if !inPlace {
		out = "/work/out.bin"
		args = append(args, "out.bin")
		if c.WC("old-output", 1, 2) {
			pr := prng(c.Src.Seed32('W', "old-out-seed"))
			fs.Put(out, pr.bytes(c.W("old-out-len", 2*len(p.ref)+50), 256), 0644)
		}
	}
	if usage {
		c.Fault("usage-error")
		switch c.F("usage-kind", 4) {
		case 0:
			args = args[:len(args)-2]
		case 1:
			args = append(args, "more", "and", "more")
		case 2:
			args = append([]string{args[0], "--nosuch"}, args[1:]...)
		case 3:
			args = append([]string{args[0], "-p", "many"}, args[1:]...)
		}
	}
	mask := 0
	if faulty && c.FC("net-faults", 1, 2) {
		mask = 1 + c.F("net-fault-mask", 255)
	}
	web := newWeb(c, mask)
	web.files["/ref.bin"] = p.ref
	remoteChanged := false
	if faulty && c.FC("remote-changed", 1, 6) {
		// the server has another version of the reference than the one that was indexed
		other, _ := genLocal(c, p.bs, p.ref)
		if c.FC("remote-grown", 1, 3) {
			other = append(append([]byte(nil), p.ref...), other[:min(len(other), 30)]...)
		}
		web.files["/ref.bin"] = other
		if !bytes.Equal(other, p.ref) {
			c.Fault("remote-changed")
			remoteChanged = true
		}
	}
	f := w.faults(faulty && (mask == 0 || c.FC("disk-too", 1, 2)))
	before := contents(fs)
	oldOut, hadOut := fs.Get(out)
	oldOut = append([]byte(nil), oldOut...)
	fs.After = func(op simos.Op) {
		if !inPlace {
			if !fs.Lookup("/work/local.bin").Is(p.local) {
				c.Fail("C15", "input-changed", "gosync patch changed its input although the output is another file, at %s %s", op.Kind, op.Path)
			}
			return
		}
		for _, i := range fs.Files() {
			if i.Is(p.local) || i.Is(p.ref) && i != fs.Files()[w.refName()] || stale && i.Is(w.oldRef) {
				return
			}
		}
		c.Fail("C16", "lost", "gosync patch, at %s %s: no file holds the complete old (%d bytes) or new (%d bytes) content: %s", op.Kind, op.Path, len(p.local), len(p.ref), listing(fs))
	}
	xs := len(web.xs)
	r := command(c, fs, args...)
	fs.After, fs.Hook, fs.Limit = nil, nil, 0
	if c.Infra != "" {
		return
	}
	fired := f.any(fs) || usage || remoteChanged
	for _, x := range web.xs[xs:] {
		fired = fired || x.err || !x.good() || !bytes.Equal(x.sent, p.ref[x.from:x.to])
	}
	c.Hit("patch: " + r.String())
	got, ok := fs.Get(out)
	complete := b.status == 0 && !buildFaults
	switch {
	case r.status == -2:
		if !fired && !buildFaults {
			c.Fail("C20", "no-result", "gosync patch does not end although nothing failed: %v %v", r.oc.Blocked, r.oc.LimitHit)
		}
		c.Fail("C04", "no-progress", "gosync patch does not end: %v %v", r.oc.Blocked, r.oc.LimitHit)
		return
	case r.oc.Panic != "":
		c.Fail("C04", "panic", "gosync patch: %s", r.oc.Panic)
	case r.status == 0:
		if w.mustFail {
			c.Fail("C20", "bad-index-accepted", "gosync patch exited with status 0 although the index is not one of this version of the tool or goes on behind its end; faults %v", c.Faults)
		}
		if stale && ok && bytes.Equal(got, w.oldRef) {
			break // the index of the older content is intact: the build never touched it
		}
		if !ok || !bytes.Equal(got, expect) {
			c.Fail("C20", "wrong-file", "gosync patch exited with status 0 but the output does not hold the reference: exists %v, %s; index of %d bytes, block size %d, %d blocks; build: %v; faults %v",
				ok, describeDiff(got, expect), len(idx), p.bs, p.n, b, c.Faults)
		}
	default:
		if complete && !fired {
			c.Fail("C20", "patch-failed", "gosync patch failed with the index of a successful build and no fault: %v: %s", r, cut(string(fs.Err.Data)))
		}
		if r.status > 0 && usage && (hadOut != ok || !bytes.Equal(got, oldOut)) {
			c.Fail("C20", "usage", "gosync patch was called wrongly but changed the output")
		}
	}
	if r.status < 0 {
		return
	}
	if n := web.openBodies(); n > 0 && r.status == 0 {
		c.Fail("C17", "open-bodies", "gosync patch: %d of %d response bodies are not closed", n, len(web.xs))
	}
	var left []string
	keep := 0
	for name, i := range fs.Files() {
		if before.files[name] || name == out {
			continue
		}
		left = append(left, fmt.Sprintf("%s (%d bytes)", name, len(i.Data)))
		if r.status != 0 && bytes.Equal(i.Data, p.ref) {
			keep++
		}
	}
	if len(left) > 0 && !(keep == 1 && len(left) == 1) && f.df.fired["remove"]+f.df.fired["rename"] == 0 && r.oc.Panic == "" {
		c.Fail("C17", "temporary-file", "gosync patch (%v) left behind %s; faults %v", r, strings.Join(left, ", "), c.Faults)
	}
}

// genHugeBlocks makes a pair with blocks that do not fit into small integers.
func genHugeBlocks(c *Ctx) *Pair {
	p := &Pair{bs: []int{8192, 32768, 65536, 70000, 131077}[c.W("bs-huge", 5)], kind: "huge blocks"}
	p.n = c.WR("blocks", 1, 3)
	size := p.n * p.bs
	if c.WC("short-tail", 2, 3) {
		size -= 1 + c.W("tail-cut", p.bs-1)
	}
	pr := prng(c.Src.Seed32('W', "ref-seed"))
	p.ref = pr.bytes(size, 256)
	p.local = append([]byte(nil), p.ref...)
	for k := c.W("overwrites", 3); k > 0; k-- {
		p.local[c.W("overwrite-at", len(p.local))] ^= 1
	}
	if c.WC("shift", 1, 3) {
		p.local = append(pr.bytes(1+c.W("shift-by", 300), 256), p.local...)
	}
	c.limits = simrt.Config{MaxSteps: 50_000_000, MaxStmts: 1_000_000_000}
	c.Hit("huge blocks")
	c.Describe("block size %d, reference %d bytes (%d blocks), local %d bytes", p.bs, len(p.ref), p.n, len(p.local))
	return p
}
