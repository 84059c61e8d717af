// Package simos replaces os for the system under test: a disk, standard
// streams, arguments and process exit that live in memory and are controlled
// by the simulator. Nothing the system under test does through this package
// can reach the real file system.
//
// Crash model: data written to a file is volatile until Sync; directory
// operations (create, rename, remove) are journalled and become durable in
// order. A process crash keeps everything done so far; a power loss keeps any
// prefix of the not yet durable directory operations and any prefix of the
// data not yet synced.
package simos

import (
	"errors"
	"io"
	"io/fs"
	std "os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/mlange-42/bbn/internal/verifsim/simrt"
)

// Kind of an injected fault.
type Kind int

const (
	None        Kind = iota
	EIO              // the operation fails with EIO
	ENOSPC           // the operation fails with ENOSPC (writes: after part of the data)
	EACCES           // the operation fails with a permission error
	EMFILE           // too many open files
	ENOENT           // the file vanished
	Short            // short read, or a write that stops half way with an error
	Cut              // read: the file ends here
	Flip             // read: one bit is flipped
	Zero             // read: the rest of the block reads as zeros (lost write)
	Crash            // the process dies before the operation
	CrashMid         // the process dies in the middle of the operation
	PowerLoss        // power loss before the operation
	PowerMid         // power loss in the middle of the operation
	Interrupted      // EINTR
)

var kindNames = map[Kind]string{EIO: "eio", ENOSPC: "enospc", EACCES: "eacces", EMFILE: "emfile", ENOENT: "enoent",
	Short: "short", Cut: "truncated-file", Flip: "bit-flip", Zero: "zeroed-block", Crash: "crash", CrashMid: "crash-mid-op",
	PowerLoss: "power-loss", PowerMid: "power-loss-mid-op", Interrupted: "eintr"}

func (k Kind) String() string { return kindNames[k] }

// Op is one I/O operation, as counted and logged.
type Op struct {
	N    int
	Name string // open, create, read, write, sync, close, rename, remove, mkdir, stat, truncate, stdout
	Path string
	Size int
	Mut  bool // changes durable state
}

type inode struct {
	data   []byte
	synced []byte
	dir    bool
	mode   fs.FileMode
	ino    int
}

type dirOp struct {
	path string
	node *inode // nil: removed
}

// FS is the simulated disk and process environment.
type FS struct {
	cur     map[string]*inode
	durable map[string]*inode
	journal []dirOp
	nextIno int

	Ops     []Op
	open    int
	MaxOpen int

	// Decide is asked before every operation.
	Decide func(op Op) Kind
	// Chunk bounds the size of reads; 0 = as much as asked for.
	Chunk func(op Op, want int) int

	Frozen bool // after a crash or exit
	Exited bool // os.Exit was called
	Code   int
	Out    []byte
	Err    []byte
	In     []byte
	OutErr bool // a write to stdout was refused
	tmp    int

	// Touched lists paths that were opened for writing, truncated, renamed, removed.
	Touched map[string]bool
}

// Cur is the current disk.
var Cur *FS

// Cwd is the simulated working directory.
const Cwd = "/work"

// NewFS creates an empty disk with /work and /tmp.
func NewFS() *FS {
	f := &FS{cur: map[string]*inode{}, durable: map[string]*inode{}, Touched: map[string]bool{}}
	for _, d := range []string{"/", Cwd, "/tmp", "/dev"} {
		n := &inode{dir: true, mode: fs.ModeDir | 0o755, ino: f.ino()}
		f.cur[d] = n
		f.durable[d] = n
	}
	Cur = f
	return f
}

func (f *FS) ino() int { f.nextIno++; return f.nextIno }

func clean(p string) string {
	if p == "" {
		return ""
	}
	p = strings.ReplaceAll(p, "\\", "/")
	if !strings.HasPrefix(p, "/") {
		p = Cwd + "/" + p
	}
	return path.Clean(p)
}

// Put creates a durable file without any fault or accounting.
func (f *FS) Put(p string, data []byte) {
	n := &inode{data: append([]byte{}, data...), synced: append([]byte{}, data...), mode: 0o644, ino: f.ino()}
	f.cur[clean(p)] = n
	f.durable[clean(p)] = n
}

// MkdirRaw creates a directory without accounting.
func (f *FS) MkdirRaw(p string) {
	n := &inode{dir: true, mode: fs.ModeDir | 0o755, ino: f.ino()}
	f.cur[clean(p)] = n
	f.durable[clean(p)] = n
}

// Get reads a file without any fault or accounting.
func (f *FS) Get(p string) ([]byte, bool) {
	n, ok := f.cur[clean(p)]
	if !ok || n.dir {
		return nil, false
	}
	return n.data, true
}

// Files lists all regular files.
func (f *FS) Files() []string {
	var res []string
	for p, n := range f.cur {
		if !n.dir {
			res = append(res, p)
		}
	}
	sort.Strings(res)
	return res
}

// OpenFiles is the number of files not closed.
func (f *FS) OpenFiles() int { return f.open }

// Reset clears faults, streams and counters, but keeps the disk (a new process).
func (f *FS) NewProcess() {
	f.Ops = nil
	f.open = 0
	f.Decide = nil
	f.Chunk = nil
	f.Frozen = false
	f.Exited = false
	f.Code = 0
	f.Out, f.Err, f.In = nil, nil, nil
	f.OutErr = false
}

func (f *FS) dirSet(p string, n *inode) {
	if n == nil {
		delete(f.cur, p)
	} else {
		f.cur[p] = n
	}
	f.journal = append(f.journal, dirOp{p, n})
}

// syncDirs makes all directory operations durable.
func (f *FS) syncDirs() {
	for _, o := range f.journal {
		if o.node == nil {
			delete(f.durable, o.path)
		} else {
			f.durable[o.path] = o.node
		}
	}
	f.journal = nil
}

// powerLoss reduces the disk to what is durable plus what happened to get
// there before the power went away; the amounts are drawn from the fault stream.
func (f *FS) powerLoss() {
	s := simrt.S
	keep := 0
	if len(f.journal) > 0 {
		keep = len(f.journal) - s.F(len(f.journal)+1)
	}
	// a rename consists of two journal entries that belong together
	for keep > 0 && keep < len(f.journal) && f.journal[keep-1].node != nil && f.journal[keep].node == nil {
		keep--
	}
	for _, o := range f.journal[:keep] {
		if o.node == nil {
			delete(f.durable, o.path)
		} else {
			f.durable[o.path] = o.node
		}
	}
	f.journal = nil
	f.cur = map[string]*inode{}
	seen := map[*inode]bool{}
	var paths []string
	for p := range f.durable {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		n := f.durable[p]
		f.cur[p] = n
		if n.dir || seen[n] {
			continue
		}
		seen[n] = true
		if string(n.data) == string(n.synced) {
			continue
		}
		// what reached the disk of the unsynced data: synced state, a torn
		// prefix, zeros, or everything
		switch s.F(4) {
		case 0:
			n.data = append([]byte{}, n.synced...)
		case 1:
			n.data = append([]byte{}, n.data[:s.F(len(n.data)+1)]...)
		case 2:
			n.data = make([]byte, len(n.data))
		case 3:
		}
		n.synced = append([]byte{}, n.data...)
	}
}

func (f *FS) die(k Kind, op Op) {
	f.Frozen = true
	if k == PowerLoss || k == PowerMid {
		f.powerLoss()
	}
	panic(simrt.Crash{})
}

// begin accounts for an operation and asks for a fault.
func (f *FS) begin(name, p string, size int, mut bool) (Op, Kind) {
	if f.Frozen {
		panic(simrt.Crash{})
	}
	op := Op{len(f.Ops), name, p, size, mut}
	f.Ops = append(f.Ops, op)
	simrt.Y(-1)
	k := None
	if f.Decide != nil {
		k = f.Decide(op)
	}
	if k != None {
		simrt.S.Faultf(name+":"+k.String(), "op %d %s %s", op.N, name, p)
	} else if simrt.S != nil {
		simrt.S.Logf("io %d %s %s %d", op.N, name, p, size)
	}
	if k == Crash || k == PowerLoss {
		f.die(k, op)
	}
	return op, k
}

func kindErr(k Kind) error {
	switch k {
	case ENOSPC:
		return syscall.ENOSPC
	case EACCES:
		return syscall.EACCES
	case EMFILE:
		return syscall.EMFILE
	case ENOENT:
		return syscall.ENOENT
	case Interrupted:
		return syscall.EINTR
	}
	return syscall.EIO
}

func perr(op, p string, err error) error { return &fs.PathError{Op: op, Path: p, Err: err} }

// File is a simulated open file.
type File struct {
	name   string
	path   string
	n      *inode
	off    int
	flag   int
	closed bool
	std    int // 1 stdin 2 stdout 3 stderr
	fs     *FS
	rdpos  int
	chunks int
}

var (
	Stdin  = &File{name: "/dev/stdin", std: 1}
	Stdout = &File{name: "/dev/stdout", std: 2}
	Stderr = &File{name: "/dev/stderr", std: 3}
)

// Args are the arguments of the simulated process.
var Args = []string{"sim"}

// Environ of the simulated process.
var env = map[string]string{}

func (f *FS) parentOK(p string) bool {
	n, ok := f.cur[path.Dir(p)]
	return ok && n.dir
}

// OpenFile opens a file on the simulated disk.
func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	f := Cur
	if f == nil {
		return nil, perr("open", name, syscall.ENOENT)
	}
	p := clean(name)
	mut := flag&(O_CREATE|O_TRUNC) != 0
	opName := "open"
	if flag&(O_WRONLY|O_RDWR) != 0 {
		opName = "openw"
	}
	_, k := f.begin(opName, p, 0, mut)
	switch k {
	case EIO, ENOSPC, EACCES, EMFILE, ENOENT:
		return nil, perr("open", name, kindErr(k))
	}
	n, ok := f.cur[p]
	if name == "" || (!ok && flag&O_CREATE == 0) {
		return nil, perr("open", name, syscall.ENOENT)
	}
	if ok && flag&O_CREATE != 0 && flag&O_EXCL != 0 {
		return nil, perr("open", name, syscall.EEXIST)
	}
	if !ok {
		if !f.parentOK(p) {
			return nil, perr("open", name, syscall.ENOENT)
		}
		n = &inode{mode: perm, ino: f.ino()}
		f.dirSet(p, n)
		f.Touched[p] = true
	} else if n.dir && flag&(O_WRONLY|O_RDWR) != 0 {
		return nil, perr("open", name, syscall.EISDIR)
	}
	if flag&(O_WRONLY|O_RDWR) != 0 {
		f.Touched[p] = true
	}
	if flag&O_TRUNC != 0 && !n.dir {
		n.data = nil
		f.Touched[p] = true
	}
	f.open++
	if f.open > f.MaxOpen {
		f.MaxOpen = f.open
	}
	if k == CrashMid || k == PowerMid {
		f.die(k, Op{})
	}
	return &File{name: name, path: p, n: n, flag: flag, fs: f}, nil
}

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666) }

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr {
	if f.std > 0 {
		return uintptr(f.std - 1)
	}
	return 100
}

func (f *File) check(op string) error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, ErrClosed)
	}
	return nil
}

func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if f.std == 1 {
		if Cur == nil || len(Cur.In) == 0 {
			return 0, io.EOF
		}
		n := copy(b, Cur.In)
		Cur.In = Cur.In[n:]
		return n, nil
	}
	if f.std != 0 {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	if f.n.dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if f.flag&O_WRONLY != 0 {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	op, k := f.fs.begin("read", f.path, len(b), false)
	switch k {
	case EIO, Interrupted:
		return 0, perr("read", f.name, kindErr(k))
	case Cut:
		f.off = len(f.n.data)
		f.rdpos = -1
		return 0, io.EOF
	}
	if f.rdpos < 0 || f.off >= len(f.n.data) {
		return 0, io.EOF
	}
	want := len(b)
	if rest := len(f.n.data) - f.off; want > rest {
		want = rest
	}
	// large files are not read in small pieces to the end
	if f.fs.Chunk != nil && want > 0 && f.chunks < 20000 {
		f.chunks++
		if c := f.fs.Chunk(op, want); c > 0 && c < want {
			want = c
		}
	}
	if k == Short && want > 1 {
		want = 1
	}
	n := copy(b[:want], f.n.data[f.off:])
	switch k {
	case Flip:
		i := simrt.S.F(n * 8)
		b[i/8] ^= 1 << (i % 8)
	case Zero:
		from := simrt.S.F(n)
		for i := from; i < n; i++ {
			b[i] = 0
		}
	}
	f.off += n
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	_, k := f.fs.begin("read", f.path, len(b), false)
	if k == EIO || k == Interrupted {
		return 0, perr("read", f.name, kindErr(k))
	}
	if int(off) >= len(f.n.data) {
		return 0, io.EOF
	}
	n := copy(b, f.n.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	var total int64
	buf := make([]byte, 512)
	for {
		n, err := r.Read(buf)
		if n > 0 {
			w, werr := f.Write(buf[:n])
			total += int64(w)
			if werr != nil {
				return total, werr
			}
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}

func (f *File) WriteTo(w io.Writer) (int64, error) {
	var total int64
	buf := make([]byte, 512)
	for {
		n, err := f.Read(buf)
		if n > 0 {
			m, werr := w.Write(buf[:n])
			total += int64(m)
			if werr != nil {
				return total, werr
			}
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}

func (f *File) Write(b []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.std > 0 {
		return f.writeStd(b)
	}
	if f.flag&(O_WRONLY|O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	_, k := f.fs.begin("write", f.path, len(b), true)
	n := len(b)
	var err error
	switch k {
	case EIO, Interrupted:
		n = 0
		err = perr("write", f.name, kindErr(k))
	case ENOSPC, Short:
		n = simrt.S.F(len(b))
		err = perr("write", f.name, syscall.ENOSPC)
	case CrashMid, PowerMid:
		n = simrt.S.F(len(b) + 1)
	}
	if f.flag&O_APPEND != 0 {
		f.off = len(f.n.data)
	}
	for len(f.n.data) < f.off+n {
		f.n.data = append(f.n.data, 0)
	}
	copy(f.n.data[f.off:], b[:n])
	f.off += n
	if k == CrashMid || k == PowerMid {
		f.fs.die(k, Op{})
	}
	return n, err
}

func (f *File) writeStd(b []byte) (int, error) {
	c := Cur
	if c == nil {
		return len(b), nil
	}
	if f.std == 3 {
		c.Err = append(c.Err, b...)
		return len(b), nil
	}
	if len(b) == 0 {
		return 0, nil
	}
	_, k := c.begin("stdout", f.name, len(b), false)
	n := len(b)
	var err error
	switch k {
	case EIO, EACCES, Interrupted:
		n, err = 0, perr("write", f.name, kindErr(k))
	case ENOSPC, Short:
		n = simrt.S.F(len(b))
		err = perr("write", f.name, syscall.ENOSPC)
	}
	if err != nil {
		c.OutErr = true
	}
	c.Out = append(c.Out, b[:n]...)
	return n, err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	old := f.off
	f.off = int(off)
	n, err := f.Write(b)
	f.off = old
	return n, err
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	if f.n == nil {
		return 0, perr("seek", f.name, syscall.ESPIPE)
	}
	base := 0
	switch whence {
	case io.SeekCurrent:
		base = f.off
	case io.SeekEnd:
		base = len(f.n.data)
	}
	if base+int(off) < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.off = base + int(off)
	f.rdpos = 0
	return int64(f.off), nil
}

func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	if f.std > 0 {
		return nil
	}
	_, k := f.fs.begin("sync", f.path, 0, true)
	if k == EIO || k == ENOSPC {
		return perr("sync", f.name, kindErr(k))
	}
	if k == CrashMid || k == PowerMid {
		f.fs.die(k, Op{})
	}
	f.n.synced = append([]byte{}, f.n.data...)
	f.fs.syncDirs()
	return nil
}

func (f *File) Close() error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return perr("close", f.name, ErrClosed)
	}
	f.closed = true
	if f.std > 0 {
		return nil
	}
	f.fs.open--
	if f.fs.Frozen {
		return nil
	}
	_, k := f.fs.begin("close", f.path, 0, f.flag&(O_WRONLY|O_RDWR) != 0)
	if (k == EIO || k == ENOSPC) && f.flag&(O_WRONLY|O_RDWR) != 0 {
		return perr("close", f.name, kindErr(k))
	}
	return nil
}

func (f *File) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	_, k := f.fs.begin("truncate", f.path, int(size), true)
	if k == EIO || k == ENOSPC {
		return perr("truncate", f.name, kindErr(k))
	}
	f.fs.Touched[f.path] = true
	for len(f.n.data) < int(size) {
		f.n.data = append(f.n.data, 0)
	}
	f.n.data = append([]byte{}, f.n.data[:size]...)
	if k == CrashMid || k == PowerMid {
		f.fs.die(k, Op{})
	}
	return nil
}

func (f *File) Chmod(mode FileMode) error        { f.setMode(mode); return nil }
func (f *File) Chown(uid, gid int) error         { return nil }
func (f *File) Chdir() error                     { return nil }
func (f *File) SetDeadline(time.Time) error      { return nil }
func (f *File) SetReadDeadline(time.Time) error  { return nil }
func (f *File) SetWriteDeadline(time.Time) error { return nil }
func (f *File) Readdirnames(int) ([]string, error) {
	return nil, perr("readdir", f.name, syscall.ENOTDIR)
}
func (f *File) ReadDir(int) ([]DirEntry, error)       { return ReadDir(f.name) }
func (f *File) Readdir(int) ([]FileInfo, error)       { return nil, perr("readdir", f.name, syscall.ENOTDIR) }
func (f *File) SyscallConn() (syscall.RawConn, error) { return nil, errors.New("simulated file") }
func (f *File) setMode(mode FileMode) {
	if f.n != nil {
		f.n.mode = mode
	}
}

type info struct {
	name string
	n    *inode
	size int64
	mode fs.FileMode
}

func (i info) Name() string               { return path.Base(i.name) }
func (i info) Size() int64                { return i.size }
func (i info) Mode() fs.FileMode          { return i.mode }
func (i info) ModTime() time.Time         { return time.Unix(0, 0) }
func (i info) IsDir() bool                { return i.mode.IsDir() }
func (i info) Sys() any                   { return nil }
func (i info) Type() fs.FileMode          { return i.mode.Type() }
func (i info) Info() (fs.FileInfo, error) { return i, nil }

func (f *File) Stat() (FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	if f.std > 0 {
		return info{name: f.name, mode: fs.ModeCharDevice | 0o600}, nil
	}
	_, k := f.fs.begin("stat", f.path, 0, false)
	if k == EIO || k == EACCES {
		return nil, perr("stat", f.name, kindErr(k))
	}
	return info{f.name, f.n, int64(len(f.n.data)), f.n.mode}, nil
}

func Stat(name string) (FileInfo, error) {
	f := Cur
	p := clean(name)
	_, k := f.begin("stat", p, 0, false)
	if k == EIO || k == EACCES || k == ENOENT {
		return nil, perr("stat", name, kindErr(k))
	}
	n, ok := f.cur[p]
	if !ok {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return info{name, n, int64(len(n.data)), n.mode}, nil
}
func Lstat(name string) (FileInfo, error) { return Stat(name) }
func SameFile(a, b FileInfo) bool {
	x, ok1 := a.(info)
	y, ok2 := b.(info)
	return ok1 && ok2 && x.n == y.n
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	data := make([]byte, 0, 512)
	for {
		n, err := f.Read(data[len(data):cap(data)])
		data = data[:len(data)+n]
		if err != nil {
			if err == io.EOF {
				err = nil
			}
			return data, err
		}
		if len(data) >= cap(data) {
			d := append(data[:cap(data)], 0)
			data = d[:len(data)]
		}
	}
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Rename(oldpath, newpath string) error {
	f := Cur
	o, n := clean(oldpath), clean(newpath)
	_, k := f.begin("rename", o+" -> "+n, 0, true)
	switch k {
	case EIO, ENOSPC, EACCES, ENOENT:
		return &std.LinkError{Op: "rename", Old: oldpath, New: newpath, Err: kindErr(k)}
	}
	node, ok := f.cur[o]
	if !ok || !f.parentOK(n) {
		return &std.LinkError{Op: "rename", Old: oldpath, New: newpath, Err: syscall.ENOENT}
	}
	if d, ok := f.cur[n]; ok && d.dir && !node.dir {
		return &std.LinkError{Op: "rename", Old: oldpath, New: newpath, Err: syscall.EEXIST}
	}
	f.Touched[o] = true
	f.Touched[n] = true
	if o != n {
		f.dirSet(n, node)
		f.dirSet(o, nil)
	}
	if k == CrashMid || k == PowerMid {
		f.die(k, Op{})
	}
	return nil
}

func Link(oldname, newname string) error {
	f := Cur
	o, n := clean(oldname), clean(newname)
	_, k := f.begin("link", o+" -> "+n, 0, true)
	if k == EIO || k == ENOSPC || k == EACCES {
		return &std.LinkError{Op: "link", Old: oldname, New: newname, Err: kindErr(k)}
	}
	node, ok := f.cur[o]
	if !ok {
		return &std.LinkError{Op: "link", Old: oldname, New: newname, Err: syscall.ENOENT}
	}
	if _, ok := f.cur[n]; ok {
		return &std.LinkError{Op: "link", Old: oldname, New: newname, Err: syscall.EEXIST}
	}
	f.Touched[n] = true
	f.dirSet(n, node)
	return nil
}

func Symlink(oldname, newname string) error {
	return &std.LinkError{Op: "symlink", Old: oldname, New: newname, Err: syscall.EPERM}
}
func Readlink(name string) (string, error) { return "", perr("readlink", name, syscall.EINVAL) }

func Remove(name string) error {
	f := Cur
	p := clean(name)
	_, k := f.begin("remove", p, 0, true)
	if k == EIO || k == EACCES || k == ENOENT {
		return perr("remove", name, kindErr(k))
	}
	if _, ok := f.cur[p]; !ok {
		return perr("remove", name, syscall.ENOENT)
	}
	f.Touched[p] = true
	f.dirSet(p, nil)
	return nil
}

func RemoveAll(name string) error {
	f := Cur
	p := clean(name)
	_, k := f.begin("remove", p, 0, true)
	if k == EIO || k == EACCES {
		return perr("unlinkat", name, kindErr(k))
	}
	var del []string
	for q := range f.cur {
		if q == p || strings.HasPrefix(q, p+"/") {
			del = append(del, q)
		}
	}
	sort.Strings(del)
	for _, q := range del {
		f.Touched[q] = true
		f.dirSet(q, nil)
	}
	return nil
}

func Mkdir(name string, perm FileMode) error {
	f := Cur
	p := clean(name)
	_, k := f.begin("mkdir", p, 0, true)
	if k == EIO || k == EACCES || k == ENOSPC {
		return perr("mkdir", name, kindErr(k))
	}
	if _, ok := f.cur[p]; ok {
		return perr("mkdir", name, syscall.EEXIST)
	}
	if !f.parentOK(p) {
		return perr("mkdir", name, syscall.ENOENT)
	}
	f.dirSet(p, &inode{dir: true, mode: fs.ModeDir | perm, ino: f.ino()})
	return nil
}

func MkdirAll(name string, perm FileMode) error {
	f := Cur
	p := clean(name)
	if n, ok := f.cur[p]; ok {
		if n.dir {
			return nil
		}
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	if err := MkdirAll(path.Dir(p), perm); err != nil {
		return err
	}
	return Mkdir(p, perm)
}

func tempName(dir, pattern string) string {
	f := Cur
	if dir == "" {
		dir = TempDir()
	}
	f.tmp++
	num := "sim" + itoa(f.tmp)
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pattern = pattern[:i] + num + pattern[i+1:]
	} else {
		pattern += num
	}
	return path.Join(dir, pattern)
}

func CreateTemp(dir, pattern string) (*File, error) {
	return OpenFile(tempName(dir, pattern), O_RDWR|O_CREATE|O_EXCL, 0o600)
}

func MkdirTemp(dir, pattern string) (string, error) {
	name := tempName(dir, pattern)
	return name, Mkdir(name, 0o700)
}

func TempDir() string { return "/tmp" }

func ReadDir(name string) ([]DirEntry, error) {
	f := Cur
	p := clean(name)
	_, k := f.begin("readdir", p, 0, false)
	if k == EIO || k == EACCES {
		return nil, perr("open", name, kindErr(k))
	}
	n, ok := f.cur[p]
	if !ok || !n.dir {
		return nil, perr("open", name, syscall.ENOENT)
	}
	var names []string
	for q := range f.cur {
		if q != p && path.Dir(q) == p {
			names = append(names, q)
		}
	}
	sort.Strings(names)
	var res []DirEntry
	for _, q := range names {
		c := f.cur[q]
		res = append(res, info{q, c, int64(len(c.data)), c.mode})
	}
	return res, nil
}

func Truncate(name string, size int64) error {
	f, err := OpenFile(name, O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}

func Chmod(name string, mode FileMode) error {
	if n, ok := Cur.cur[clean(name)]; ok {
		n.mode = mode
		return nil
	}
	return perr("chmod", name, syscall.ENOENT)
}
func Chown(name string, uid, gid int) error     { return nil }
func Lchown(name string, uid, gid int) error    { return nil }
func Chtimes(name string, a, m time.Time) error { return nil }
func Chdir(dir string) error                    { return nil }
func Getwd() (string, error)                    { return Cwd, nil }
func Executable() (string, error)               { return "/bin/sim", nil }
func UserHomeDir() (string, error)              { return Cwd, nil }
func UserConfigDir() (string, error)            { return Cwd, nil }
func UserCacheDir() (string, error)             { return Cwd, nil }
func Hostname() (string, error)                 { return "sim", nil }
func Getpid() int                               { return 4242 }
func Getppid() int                              { return 1 }
func Getenv(key string) string                  { return env[key] }
func LookupEnv(key string) (string, bool)       { v, ok := env[key]; return v, ok }
func Setenv(key, value string) error            { env[key] = value; return nil }
func Unsetenv(key string) error                 { delete(env, key); return nil }
func Clearenv()                                 { env = map[string]string{} }
func Environ() []string                         { return nil }
func ExpandEnv(s string) string                 { return std.Expand(s, Getenv) }
func Pipe() (*File, *File, error)               { return nil, nil, syscall.ENOSYS }
func NewFile(fd uintptr, name string) *File {
	switch fd {
	case 0:
		return Stdin
	case 1:
		return Stdout
	case 2:
		return Stderr
	}
	return nil
}
func CopyFS(dir string, fsys fs.FS) error { return syscall.ENOSYS }

// Exit ends the simulated process.
func Exit(code int) {
	if Cur != nil && !Cur.Frozen {
		Cur.Exited = true
		Cur.Code = code
		Cur.Frozen = true // deferred functions do not run in a real exit
	}
	panic(simrt.ExitCode{Code: code})
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	var b []byte
	for n > 0 {
		b = append([]byte{byte('0' + n%10)}, b...)
		n /= 10
	}
	return string(b)
}
