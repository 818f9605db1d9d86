// Package simos is the simulated operating system under the instrumented code: an in-memory file
// system with open-file tracking, faults, crash points and process exit.
package simos

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif.local/sim/simrt"
)

// Inode is a file, directory or symbolic link.
type Inode struct {
	ID    int
	Data  []byte
	Dir   map[string]*Inode
	Link  string
	Mode  os.FileMode
	Mtime time.Time
	Nlink int
	Dev   bool // character device or pipe: not truncatable, no position

	ver  int // counts the changes
	memo []memo
}

type memo struct {
	want *byte
	n    int
	ver  int
	same bool
}

// Is tells whether the file holds exactly want, which must not be changed any more.
func (i *Inode) Is(want []byte) bool {
	if i == nil || len(i.Data) != len(want) || len(want) < 256 {
		return i != nil && string(i.Data) == string(want)
	}
	for k := range i.memo {
		m := &i.memo[k]
		if m.want == &want[0] && m.n == len(want) {
			if m.ver != i.ver {
				m.ver, m.same = i.ver, string(i.Data) == string(want)
			}
			return m.same
		}
	}
	m := memo{&want[0], len(want), i.ver, string(i.Data) == string(want)}
	i.memo = append(i.memo, m)
	return m.same
}

// Op describes one system call for the fault hook.
type Op struct {
	Kind  string // open create read write seek close stat remove rename tempfile truncate sync ...
	Path  string
	N     int
	Write bool // handle or call can modify the file system
	File  *File
}

// Verdict is what the hook decides about an operation.
type Verdict struct {
	Err   error // fail with this error (reads and writes first transfer Short bytes)
	Short int   // bytes transferred before Err, or limit of a read if Err is nil (0 = no limit)
	Crash bool  // kill the process after the partial effect
	Lose  int   // close with Err: bytes of the last unsynced write that never reached the disk
}

// FS is the simulated disk; it outlives simulated processes.
type FS struct {
	Root  *Inode
	Cwd   string
	Hook  func(op Op) Verdict
	After func(op Op) // called after every operation that may have changed something
	Limit int64       // bytes of data the disk can hold, 0 = unlimited
	Count map[string]int
	Full  int // writes that met the full disk

	nextID  int
	tempSeq int
	open    map[*File]bool
	opens   int

	Exited   bool
	ExitCode int
	Out, Err *Inode
	TempBase string
}

// Disk is the disk of the running simulation.
var Disk *FS

// New makes an empty disk with /work (the working directory) and /tmp.
func New() *FS {
	f := &FS{Cwd: "/work", open: map[*File]bool{}, Count: map[string]int{}, TempBase: "/tmp"}
	f.Root = f.inode(0755 | os.ModeDir)
	f.Root.Dir["work"] = f.inode(0755 | os.ModeDir)
	f.Root.Dir["tmp"] = f.inode(0777 | os.ModeDir)
	f.NewProcess()
	return f
}

func (f *FS) inode(mode os.FileMode) *Inode {
	f.nextID++
	i := &Inode{ID: f.nextID, Mode: mode, Nlink: 1, Mtime: simrt.Now()}
	if mode.IsDir() {
		i.Dir = map[string]*Inode{}
	}
	return i
}

// NewProcess drops everything a dead process leaves in the kernel: handles are closed.
func (f *FS) NewProcess() {
	for h := range f.open {
		h.closed = true
	}
	f.open = map[*File]bool{}
	f.Exited, f.ExitCode = false, 0
	f.Out = &Inode{ID: -1, Mode: 0620 | os.ModeCharDevice | os.ModeDevice, Dev: true}
	f.Err = &Inode{ID: -2, Mode: 0620 | os.ModeCharDevice | os.ModeDevice, Dev: true}
	Stdout.ino, Stderr.ino = f.Out, f.Err
	Stdin.ino = &Inode{ID: -3, Mode: os.ModeNamedPipe, Dev: true}
	for _, s := range []*File{Stdin, Stdout, Stderr} {
		s.closed = false
	}
}

// Put creates or replaces a file without faults (harness set-up).
func (f *FS) Put(p string, data []byte, mode os.FileMode) *Inode {
	d, base, _, err := f.walk(p, true)
	if err != nil {
		panic("simos: Put " + p + ": " + err.Error())
	}
	i := f.inode(mode)
	i.Data = append([]byte(nil), data...)
	d.Dir[base] = i
	return i
}

// Lookup follows a path, nil if nothing is there.
func (f *FS) Lookup(p string) *Inode {
	_, _, ino, err := f.walk(p, true)
	if err != nil {
		return nil
	}
	return ino
}

// Get returns the content of a file, without faults.
func (f *FS) Get(p string) ([]byte, bool) {
	_, _, i, err := f.walk(p, true)
	if err != nil || i == nil || i.Dir != nil {
		return nil, false
	}
	return i.Data, true
}

// LinkOf returns the target of a symbolic link, or "".
func (f *FS) LinkOf(p string) string {
	if _, _, i, err := f.walk(p, false); err == nil && i != nil {
		return i.Link
	}
	return ""
}

// Files lists all regular files, by path.
func (f *FS) Files() map[string]*Inode {
	out := map[string]*Inode{}
	var rec func(p string, d *Inode)
	rec = func(p string, d *Inode) {
		for n, c := range d.Dir {
			if c.Dir != nil {
				rec(p+"/"+n, c)
			} else if c.Link == "" {
				out[p+"/"+n] = c
			}
		}
	}
	rec("", f.Root)
	return out
}

// Names lists all regular files, sorted.
func (f *FS) Names() []string {
	var r []string
	for p := range f.Files() {
		r = append(r, p)
	}
	sort.Strings(r)
	return r
}

// OpenFiles lists the handles still open.
func (f *FS) OpenFiles() []*File {
	var r []*File
	for h := range f.open {
		r = append(r, h)
	}
	sort.Slice(r, func(a, b int) bool { return r[a].id < r[b].id })
	return r
}

func (f *FS) used() (n int64) {
	seen := map[*Inode]bool{}
	for _, i := range f.Files() {
		if !seen[i] {
			seen[i] = true
			n += int64(len(i.Data))
		}
	}
	return
}

func (f *FS) abs(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = f.Cwd + "/" + p
	}
	return path.Clean(p)
}

// walk resolves p to its directory, base name and inode (nil if it does not exist).
func (f *FS) walk(p string, follow bool) (dir *Inode, base string, ino *Inode, err error) {
	return f.walkn(p, follow, 0)
}

func (f *FS) walkn(p string, follow bool, depth int) (dir *Inode, base string, ino *Inode, err error) {
	if depth > 10 {
		return nil, "", nil, syscall.ELOOP
	}
	if p == "" {
		return nil, "", nil, syscall.ENOENT
	}
	slash := strings.HasSuffix(p, "/")
	p = f.abs(p)
	if p == "/" {
		return f.Root, ".", f.Root, nil
	}
	parts := strings.Split(p[1:], "/")
	d := f.Root
	for i, n := range parts {
		last := i == len(parts)-1
		c := d.Dir[n]
		if c != nil && c.Link != "" && (!last || follow || slash) {
			t := c.Link
			if !strings.HasPrefix(t, "/") {
				t = "/" + strings.Join(parts[:i], "/") + "/" + t
			}
			if last {
				return f.walkn(t, true, depth+1)
			}
			return f.walkn(t+"/"+strings.Join(parts[i+1:], "/"), follow, depth+1)
		}
		if last {
			if c != nil && slash && c.Dir == nil {
				return nil, "", nil, syscall.ENOTDIR
			}
			return d, n, c, nil
		}
		if c == nil {
			return nil, "", nil, syscall.ENOENT
		}
		if c.Dir == nil {
			return nil, "", nil, syscall.ENOTDIR
		}
		d = c
	}
	return nil, "", nil, syscall.ENOENT
}

func cur() *FS {
	if Disk == nil {
		panic("simos: file operation outside of a simulation")
	}
	return Disk
}

var errGone = errors.New("simulated process is gone")

// begin is the entry of every system call.
func begin(op Op) (f *FS, v Verdict, err error) {
	f = cur()
	if simrt.Killed() {
		return f, v, errGone
	}
	simrt.Point()
	simrt.Note('o', len(op.Kind)<<8+op.N)
	f.Count[op.Kind]++
	if f.Hook != nil {
		v = f.Hook(op)
	}
	if v.Err != nil || v.Crash || v.Short > 0 {
		simrt.Logf("sys %s %s n=%d -> injected err=%v short=%d crash=%v", op.Kind, op.Path, op.N, v.Err, v.Short, v.Crash)
	} else {
		simrt.Logf("sys %s %s n=%d", op.Kind, op.Path, op.N)
	}
	return f, v, nil
}

func (f *FS) done(op Op, v Verdict) {
	if op.Write && f.After != nil {
		f.After(op)
	}
	if v.Crash {
		simrt.Abort()
	}
}

func perr(op, p string, err error) error { return &fs.PathError{Op: op, Path: p, Err: err} }

// ---- File

// File replaces os.File.
type File struct {
	id     int
	name   string
	ino    *Inode
	pos    int64
	r, w   bool
	app    bool
	closed bool

	lastOff, lastLen int64 // last write since the last sync
}

// Content is what the file holds.
func (h *File) Content() []byte { return h.ino.Data }

// Standard streams and process arguments.
var (
	Stdin  = &File{name: "/dev/stdin", r: true}
	Stdout = &File{name: "/dev/stdout", w: true}
	Stderr = &File{name: "/dev/stderr", w: true}
	Args   []string
)

// Writable tells whether the handle may modify the file.
func (h *File) Writable() bool { return h != nil && h.w }

// Open opens for reading.
func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }

// Create creates or truncates.
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

// OpenFile mirrors os.OpenFile.
func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	kind := "open"
	if flag&os.O_CREATE != 0 {
		kind = "create"
	}
	return openAs(kind, name, flag, perm)
}

func openAs(kind, name string, flag int, perm os.FileMode) (*File, error) {
	wr := flag&(os.O_WRONLY|os.O_RDWR) != 0
	op := Op{Kind: kind, Path: name, Write: wr || flag&(os.O_CREATE|os.O_TRUNC) != 0}
	f, v, err := begin(op)
	if err == nil && v.Err != nil {
		err = v.Err
	}
	if err != nil {
		f.done(op, v)
		return nil, perr("open", name, err)
	}
	d, base, i, err := f.walk(name, true)
	if err != nil {
		return nil, perr("open", name, err)
	}
	switch {
	case i == nil && flag&os.O_CREATE == 0:
		return nil, perr("open", name, syscall.ENOENT)
	case i == nil:
		if d.Mode&0200 == 0 {
			return nil, perr("open", name, syscall.EACCES)
		}
		i = f.inode(perm &^ 022)
		d.Dir[base] = i
	case flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0:
		return nil, perr("open", name, syscall.EEXIST)
	default:
		if i.Dir != nil && wr {
			return nil, perr("open", name, syscall.EISDIR)
		}
		if wr && i.Mode&0200 == 0 || flag&os.O_WRONLY == 0 && i.Mode&0400 == 0 {
			return nil, perr("open", name, syscall.EACCES)
		}
	}
	if flag&os.O_TRUNC != 0 && i.Dir == nil {
		i.Data = nil
		i.ver++
		i.Mtime = simrt.Now()
	}
	f.opens++
	h := &File{id: f.opens, name: name, ino: i, r: flag&os.O_WRONLY == 0, w: wr, app: flag&os.O_APPEND != 0}
	f.open[h] = true
	f.done(op, v)
	return h, nil
}

func (h *File) check(op string) error {
	if h == nil {
		return os.ErrInvalid
	}
	if h.closed {
		return perr(op, h.name, os.ErrClosed)
	}
	return nil
}

// Name returns the name as given to Open.
func (h *File) Name() string { return h.name }

// Fd returns a made-up descriptor.
func (h *File) Fd() uintptr { return uintptr(3 + h.id) }

// Read reads.
func (h *File) Read(b []byte) (int, error) {
	if err := h.check("read"); err != nil {
		return 0, err
	}
	n, err := h.readAt(b, h.pos, "read")
	h.pos += int64(n)
	return n, err
}

func (h *File) readAt(b []byte, off int64, kind string) (n int, err error) {
	if !h.r {
		return 0, perr("read", h.name, syscall.EBADF)
	}
	op := Op{Kind: "read", Path: h.name, N: len(b), File: h}
	f, v, err := begin(op)
	if err != nil {
		return 0, perr("read", h.name, err)
	}
	defer f.done(op, v)
	if h.closed {
		return 0, perr("read", h.name, os.ErrClosed)
	}
	if h.ino.Dir != nil {
		return 0, perr("read", h.name, syscall.EISDIR)
	}
	if len(b) == 0 {
		return 0, nil
	}
	lim := len(b)
	if v.Err != nil {
		lim = min(lim, v.Short)
	} else if v.Short > 0 {
		lim = min(lim, v.Short)
	}
	if off < int64(len(h.ino.Data)) {
		n = copy(b[:lim], h.ino.Data[off:])
		simrt.Wrote(b[:n])
	} else if v.Err == nil {
		return 0, io.EOF
	}
	if v.Err != nil {
		return 0, perr("read", h.name, v.Err)
	}
	return n, nil
}

// ReadAt mirrors os.File.ReadAt: it loops until the buffer is full.
func (h *File) ReadAt(b []byte, off int64) (n int, err error) {
	if err := h.check("read"); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, perr("readat", h.name, errors.New("negative offset"))
	}
	for len(b) > 0 {
		m, e := h.readAt(b, off, "pread")
		n += m
		b = b[m:]
		off += int64(m)
		if e != nil {
			return n, e
		}
	}
	return
}

// Write mirrors os.File.Write: it loops over short writes.
func (h *File) Write(b []byte) (n int, err error) {
	if err := h.check("write"); err != nil {
		return 0, err
	}
	off := h.pos
	if h.app {
		off = -1
	}
	n, err = h.writeAt(b, off)
	if !h.ino.Dev {
		h.pos += int64(n)
		if h.app {
			h.pos = int64(len(h.ino.Data))
		}
	}
	return n, err
}

func (h *File) writeAt(b []byte, off int64) (n int, err error) {
	if !h.w {
		return 0, perr("write", h.name, syscall.EBADF)
	}
	std := h.ino.Dev
	if std {
		if simrt.Killed() {
			return len(b), nil
		}
		h.ino.Data = append(h.ino.Data, b...)
		return len(b), nil
	}
	op := Op{Kind: "write", Path: h.name, N: len(b), Write: true, File: h}
	f, v, err := begin(op)
	if err != nil {
		return 0, perr("write", h.name, err)
	}
	if h.closed {
		return 0, perr("write", h.name, os.ErrClosed)
	}
	lim := len(b)
	if v.Err != nil || v.Crash && v.Short > 0 {
		lim = min(lim, v.Short)
	}
	simrt.Reads(b)
	if off < 0 {
		off = int64(len(h.ino.Data))
	}
	if f.Limit > 0 {
		if grow := off + int64(lim) - int64(len(h.ino.Data)); grow > 0 {
			if free := f.Limit - f.used(); grow > free {
				lim = max(0, lim-int(grow-max(free, 0)))
				if v.Err == nil {
					v.Err = syscall.ENOSPC
				}
				f.Full++
			}
		}
	}
	if lim > 0 {
		h.ino.write(b[:lim], off)
		h.lastOff, h.lastLen = off, int64(lim)
	}
	f.done(op, v)
	if v.Err != nil {
		return lim, perr("write", h.name, v.Err)
	}
	return lim, nil
}

func (i *Inode) write(b []byte, off int64) {
	i.ver++
	if need := int(off) + len(b); need > len(i.Data) {
		if need > cap(i.Data) {
			nd := make([]byte, len(i.Data), need+need/4)
			copy(nd, i.Data)
			i.Data = nd
		}
		old := len(i.Data)
		i.Data = i.Data[:need]
		for k := old; k < int(off); k++ {
			i.Data[k] = 0
		}
	}
	copy(i.Data[off:], b)
	i.Mtime = simrt.Now()
}

// WriteAt writes at an offset.
func (h *File) WriteAt(b []byte, off int64) (int, error) {
	if err := h.check("write"); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, perr("writeat", h.name, errors.New("negative offset"))
	}
	return h.writeAt(b, off)
}

// WriteString writes a string.
func (h *File) WriteString(s string) (int, error) { return h.Write([]byte(s)) }

// ReadFrom copies from r.
func (h *File) ReadFrom(r io.Reader) (int64, error) {
	if err := h.check("write"); err != nil {
		return 0, err
	}
	return io.Copy(struct{ io.Writer }{h}, r)
}

// WriteTo copies to w.
func (h *File) WriteTo(w io.Writer) (int64, error) {
	if err := h.check("read"); err != nil {
		return 0, err
	}
	return io.Copy(w, struct{ io.Reader }{h})
}

// Seek seeks.
func (h *File) Seek(off int64, whence int) (int64, error) {
	if err := h.check("seek"); err != nil {
		return 0, err
	}
	op := Op{Kind: "seek", Path: h.name, N: int(off), File: h}
	f, v, err := begin(op)
	if err == nil {
		err = v.Err
	}
	defer f.done(op, v)
	if err != nil {
		return 0, perr("seek", h.name, err)
	}
	switch whence {
	case io.SeekCurrent:
		off += h.pos
	case io.SeekEnd:
		off += int64(len(h.ino.Data))
	}
	if off < 0 {
		return 0, perr("seek", h.name, syscall.EINVAL)
	}
	h.pos = off
	return off, nil
}

// Close closes.
func (h *File) Close() error {
	if h == nil {
		return os.ErrInvalid
	}
	if h.closed {
		return perr("close", h.name, os.ErrClosed)
	}
	op := Op{Kind: "close", Path: h.name, Write: h.w, File: h}
	f, v, err := begin(op)
	if err != nil {
		return nil
	}
	// the descriptor is gone even if close reports an error
	h.closed = true
	delete(f.open, h)
	if v.Err != nil && h.w {
		h.ino.lose(h.lastOff, h.lastLen, int64(v.Lose))
	}
	f.done(op, v)
	if v.Err != nil {
		return perr("close", h.name, v.Err)
	}
	return nil
}

// Sync is fsync.
func (h *File) Sync() error { return h.simple("sync", func() { h.lastLen = 0 }) }

// lose drops the last k bytes of a write of n bytes at off.
func (i *Inode) lose(off, n, k int64) {
	i.ver++
	k = min(k, n)
	if k <= 0 || off+n > int64(len(i.Data)) {
		return
	}
	if off+n == int64(len(i.Data)) {
		i.Data = append([]byte(nil), i.Data[:off+n-k]...)
		return
	}
	for p := off + n - k; p < off+n; p++ {
		i.Data[p] = 0
	}
}

func (h *File) simple(kind string, do func()) error {
	if err := h.check(kind); err != nil {
		return err
	}
	op := Op{Kind: kind, Path: h.name, Write: true, File: h}
	f, v, err := begin(op)
	if err == nil {
		err = v.Err
	}
	if err != nil {
		return perr(kind, h.name, err)
	}
	do()
	f.done(op, v)
	return nil
}

// Truncate changes the size.
func (h *File) Truncate(size int64) error {
	if h != nil && !h.w {
		return perr("truncate", h.name, syscall.EINVAL)
	}
	return h.simple("truncate", func() { h.ino.resize(size) })
}

func (i *Inode) resize(size int64) {
	i.ver++
	if size < int64(len(i.Data)) {
		i.Data = append([]byte(nil), i.Data[:size]...)
	} else {
		i.Data = append(i.Data, make([]byte, size-int64(len(i.Data)))...)
	}
}

// Chmod changes the mode.
func (h *File) Chmod(m os.FileMode) error {
	return h.simple("chmod", func() { h.ino.Mode = h.ino.Mode&^0777 | m&0777 })
}

// Chown does nothing.
func (h *File) Chown(uid, gid int) error { return h.simple("chown", func() {}) }

// SetDeadline and friends do nothing.
func (h *File) SetDeadline(time.Time) error      { return nil }
func (h *File) SetReadDeadline(time.Time) error  { return nil }
func (h *File) SetWriteDeadline(time.Time) error { return nil }

// Stat describes the file.
func (h *File) Stat() (os.FileInfo, error) {
	if err := h.check("stat"); err != nil {
		return nil, err
	}
	op := Op{Kind: "stat", Path: h.name, File: h}
	f, v, err := begin(op)
	if err == nil {
		err = v.Err
	}
	defer f.done(op, v)
	if err != nil {
		return nil, perr("stat", h.name, err)
	}
	return info(path.Base(h.name), h.ino), nil
}

// ReadDir lists a directory.
func (h *File) ReadDir(n int) ([]os.DirEntry, error) {
	if err := h.check("readdir"); err != nil {
		return nil, err
	}
	return ReadDir(h.name)
}

// Readdir lists a directory.
func (h *File) Readdir(n int) ([]os.FileInfo, error) {
	es, err := h.ReadDir(n)
	var r []os.FileInfo
	for _, e := range es {
		i, _ := e.Info()
		r = append(r, i)
	}
	return r, err
}

// Readdirnames lists a directory.
func (h *File) Readdirnames(n int) ([]string, error) {
	es, err := h.ReadDir(n)
	var r []string
	for _, e := range es {
		r = append(r, e.Name())
	}
	return r, err
}

// ---- FileInfo

type fileInfo struct {
	name string
	ino  *Inode
	size int64
	mode os.FileMode
	mt   time.Time
}

func info(name string, i *Inode) os.FileInfo {
	m := i.Mode
	if i.Link != "" {
		m |= os.ModeSymlink
	}
	return &fileInfo{name, i, int64(len(i.Data)), m, i.Mtime}
}

func (i *fileInfo) Name() string       { return i.name }
func (i *fileInfo) Size() int64        { return i.size }
func (i *fileInfo) Mode() os.FileMode  { return i.mode }
func (i *fileInfo) ModTime() time.Time { return i.mt }
func (i *fileInfo) IsDir() bool        { return i.mode.IsDir() }
func (i *fileInfo) Sys() any {
	return &syscall.Stat_t{Ino: uint64(i.ino.ID), Dev: 1, Nlink: uint64(i.ino.Nlink), Size: i.size}
}
func (i *fileInfo) Type() os.FileMode          { return i.mode.Type() }
func (i *fileInfo) Info() (os.FileInfo, error) { return i, nil }

// SameFile mirrors os.SameFile.
func SameFile(a, b os.FileInfo) bool {
	x, ok1 := a.(*fileInfo)
	y, ok2 := b.(*fileInfo)
	return ok1 && ok2 && x.ino == y.ino
}

// Stat and Lstat describe files.
func Stat(name string) (os.FileInfo, error)  { return stat("stat", name, true) }
func Lstat(name string) (os.FileInfo, error) { return stat("lstat", name, false) }

func stat(kind, name string, follow bool) (os.FileInfo, error) {
	op := Op{Kind: "stat", Path: name}
	f, v, err := begin(op)
	if err == nil {
		err = v.Err
	}
	defer f.done(op, v)
	if err != nil {
		return nil, perr(kind, name, err)
	}
	_, base, i, err := f.walk(name, follow)
	if err == nil && i == nil {
		err = syscall.ENOENT
	}
	if err != nil {
		return nil, perr(kind, name, err)
	}
	return info(base, i), nil
}

func pathOp(kind, name string, do func(f *FS) error) error {
	op := Op{Kind: kind, Path: name, Write: true}
	f, v, err := begin(op)
	if err == nil {
		err = v.Err
	}
	if err == nil {
		err = do(f)
	}
	f.done(op, v)
	if err != nil {
		return perr(kind, name, err)
	}
	return nil
}

// Remove removes a file or empty directory.
func Remove(name string) error {
	return pathOp("remove", name, func(f *FS) error {
		d, base, i, err := f.walk(name, false)
		switch {
		case err != nil:
			return err
		case i == nil:
			return syscall.ENOENT
		case len(i.Dir) > 0:
			return syscall.ENOTEMPTY
		case d.Mode&0200 == 0:
			return syscall.EACCES
		}
		delete(d.Dir, base)
		i.Nlink--
		return nil
	})
}

// RemoveAll removes a tree.
func RemoveAll(name string) error {
	return pathOp("remove", name, func(f *FS) error {
		d, base, i, err := f.walk(name, false)
		if err == nil && i != nil {
			delete(d.Dir, base)
		}
		return nil
	})
}

// Rename renames atomically.
func Rename(from, to string) error {
	op := Op{Kind: "rename", Path: from, Write: true}
	f, v, err := begin(op)
	if err == nil {
		err = v.Err
	}
	if err == nil {
		err = func() error {
			d1, b1, i1, err := f.walk(from, false)
			if err != nil {
				return err
			}
			if i1 == nil {
				return syscall.ENOENT
			}
			d2, b2, i2, err := f.walk(to, false)
			switch {
			case err != nil:
				return err
			case i2 != nil && i2.Dir != nil && i1.Dir == nil:
				return syscall.EEXIST
			case d1.Mode&0200 == 0 || d2.Mode&0200 == 0:
				return syscall.EACCES
			case i1 == i2:
				return nil
			}
			if i2 != nil {
				i2.Nlink--
			}
			delete(d1.Dir, b1)
			d2.Dir[b2] = i1
			return nil
		}()
	}
	f.done(op, v)
	if err != nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: err}
	}
	return nil
}

// Link makes a hard link.
func Link(from, to string) error {
	return pathOp("link", to, func(f *FS) error {
		_, _, i, err := f.walk(from, false)
		if err != nil || i == nil {
			return syscall.ENOENT
		}
		d, b, j, err := f.walk(to, false)
		if err != nil {
			return err
		}
		if j != nil {
			return syscall.EEXIST
		}
		d.Dir[b] = i
		i.Nlink++
		return nil
	})
}

// Symlink makes a symbolic link.
func Symlink(from, to string) error {
	return pathOp("symlink", to, func(f *FS) error {
		d, b, j, err := f.walk(to, false)
		if err != nil {
			return err
		}
		if j != nil {
			return syscall.EEXIST
		}
		l := f.inode(0777)
		l.Link = from
		d.Dir[b] = l
		return nil
	})
}

// Readlink reads a symbolic link.
func Readlink(name string) (string, error) {
	_, _, i, err := cur().walk(name, false)
	if err == nil && (i == nil || i.Link == "") {
		err = syscall.EINVAL
	}
	if err != nil {
		return "", perr("readlink", name, err)
	}
	return i.Link, nil
}

// EvalSymlinks mirrors filepath.EvalSymlinks.
func EvalSymlinks(name string) (string, error) {
	for k := 0; k < 10; k++ {
		_, _, i, err := cur().walk(name, false)
		if err == nil && i == nil {
			err = syscall.ENOENT
		}
		if err != nil {
			return "", perr("lstat", name, err)
		}
		if i.Link == "" {
			return path.Clean(name), nil
		}
		if strings.HasPrefix(i.Link, "/") {
			name = i.Link
		} else {
			name = path.Dir(name) + "/" + i.Link
		}
	}
	return "", perr("evalsymlinks", name, syscall.ELOOP)
}

// Mkdir makes a directory.
func Mkdir(name string, perm os.FileMode) error {
	return pathOp("mkdir", name, func(f *FS) error {
		d, b, i, err := f.walk(name, false)
		if err != nil {
			return err
		}
		if i != nil {
			return syscall.EEXIST
		}
		d.Dir[b] = f.inode(perm | os.ModeDir)
		return nil
	})
}

// MkdirAll makes a directory and its parents.
func MkdirAll(name string, perm os.FileMode) error {
	f := cur()
	p := ""
	for _, n := range strings.Split(f.abs(name)[1:], "/") {
		p += "/" + n
		if _, _, i, err := f.walk(p, true); err == nil && i != nil && i.Dir != nil {
			continue
		}
		if err := Mkdir(p, perm); err != nil {
			return err
		}
	}
	return nil
}

// Truncate resizes a file.
func Truncate(name string, size int64) error {
	return pathOp("truncate", name, func(f *FS) error {
		_, _, i, err := f.walk(name, true)
		if err != nil || i == nil {
			return syscall.ENOENT
		}
		i.resize(size)
		return nil
	})
}

// Chmod changes a mode.
func Chmod(name string, m os.FileMode) error {
	return pathOp("chmod", name, func(f *FS) error {
		_, _, i, err := f.walk(name, true)
		if err != nil || i == nil {
			return syscall.ENOENT
		}
		i.Mode = i.Mode&^0777 | m&0777
		return nil
	})
}

// Chown, Lchown and Chtimes only check existence.
func Chown(name string, uid, gid int) error  { return Chtimes(name, time.Time{}, time.Time{}) }
func Lchown(name string, uid, gid int) error { return Chtimes(name, time.Time{}, time.Time{}) }
func Chtimes(name string, a, m time.Time) error {
	return pathOp("chtimes", name, func(f *FS) error {
		_, _, i, err := f.walk(name, true)
		if err != nil || i == nil {
			return syscall.ENOENT
		}
		return nil
	})
}

// CreateTemp mirrors os.CreateTemp and ioutil.TempFile.
func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = cur().TempBase
	}
	for try := 0; try < 1000; try++ {
		name := tempName(dir, pattern)
		h, err := openAs("tempfile", name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		if err != nil && os.IsExist(err) {
			continue
		}
		return h, err
	}
	return nil, perr("createtemp", dir, os.ErrExist)
}

func tempName(dir, pattern string) string {
	f := cur()
	f.tempSeq++
	pre, suf := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	n := pre + strconv.Itoa(100000000+f.tempSeq*7919) + suf
	if strings.HasSuffix(dir, "/") {
		return dir + n
	}
	return dir + "/" + n
}

// TempFile is ioutil.TempFile.
func TempFile(dir, pattern string) (*File, error) { return CreateTemp(dir, pattern) }

// MkdirTemp mirrors os.MkdirTemp.
func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = cur().TempBase
	}
	n := tempName(dir, pattern)
	return n, Mkdir(n, 0700)
}

// TempDir is os.TempDir.
func TempDir() string { return cur().TempBase }

// Getwd is os.Getwd.
func Getwd() (string, error) { return cur().Cwd, nil }

// Chdir is os.Chdir.
func Chdir(d string) error { cur().Cwd = cur().abs(d); return nil }

// ReadFile and WriteFile.
func ReadFile(name string) ([]byte, error) {
	h, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer h.Close()
	return io.ReadAll(h)
}

// WriteFile writes a whole file.
func WriteFile(name string, data []byte, perm os.FileMode) error {
	h, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = h.Write(data)
	if e := h.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

// ReadDir lists a directory.
func ReadDir(name string) ([]os.DirEntry, error) {
	op := Op{Kind: "readdir", Path: name}
	f, v, err := begin(op)
	if err == nil {
		err = v.Err
	}
	defer f.done(op, v)
	if err != nil {
		return nil, perr("open", name, err)
	}
	_, _, i, err := f.walk(name, true)
	if err != nil || i == nil || i.Dir == nil {
		return nil, perr("open", name, syscall.ENOENT)
	}
	var names []string
	for n := range i.Dir {
		names = append(names, n)
	}
	sort.Strings(names)
	var r []os.DirEntry
	for _, n := range names {
		r = append(r, info(n, i.Dir[n]).(*fileInfo))
	}
	return r, nil
}

// ReadDirInfo is ioutil.ReadDir.
func ReadDirInfo(name string) ([]os.FileInfo, error) {
	es, err := ReadDir(name)
	var r []os.FileInfo
	for _, e := range es {
		r = append(r, e.(*fileInfo))
	}
	return r, err
}

// Exit ends the simulated process.
func Exit(code int) {
	f := cur()
	if simrt.Killed() {
		return
	}
	simrt.Logf("exit %d", code)
	f.Exited, f.ExitCode = true, code
	simrt.Abort()
}
