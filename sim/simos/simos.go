// Package simos replaces package os in the code under test by a simulated
// disk: files live in memory, writes stay volatile until Sync, and the harness
// decides which operations fail and what a crash leaves behind.
package simos

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"time"

	"verifsim/simrt"
)

// Re-exported names of package os.
type (
	FileInfo  = os.FileInfo
	FileMode  = os.FileMode
	PathError = os.PathError
	DirEntry  = os.DirEntry
	Signal    = os.Signal
)

var (
	ErrNotExist   = os.ErrNotExist
	ErrExist      = os.ErrExist
	ErrInvalid    = os.ErrInvalid
	ErrPermission = os.ErrPermission
	ErrClosed     = os.ErrClosed
	Args          = os.Args
	IsNotExist    = os.IsNotExist
	IsExist       = os.IsExist
	IsPermission  = os.IsPermission
	Getenv        = os.Getenv
	LookupEnv     = os.LookupEnv
	Exit          = os.Exit
	Stdout        = os.Stdout
	Stderr        = os.Stderr
)

const (
	O_RDONLY = os.O_RDONLY
	O_WRONLY = os.O_WRONLY
	O_RDWR   = os.O_RDWR
	O_APPEND = os.O_APPEND
	O_CREATE = os.O_CREATE
	O_EXCL   = os.O_EXCL
	O_SYNC   = os.O_SYNC
	O_TRUNC  = os.O_TRUNC

	ModePerm = os.ModePerm
	ModeDir  = os.ModeDir

	PathSeparator = os.PathSeparator
	DevNull       = os.DevNull
)

// Op is a disk operation that can be made to fail.
type Op struct {
	Kind string // open create stat read write sync close rename remove
	Name string
	Off  int64
	Len  int
}

// ErrIO is what a failing operation returns by default.
var ErrIO = errors.New("input/output error")

// ErrNoSpace is what a write to a full disk returns.
var ErrNoSpace = errors.New("no space left on device")

type inode struct {
	data    []byte // what the running system sees
	durable []byte // what survived at the last Sync
	dirty   map[int]bool
	synced  bool
}

// Disk is the simulated disk. Only one exists at a time.
type Disk struct {
	files  map[string]*inode
	Sector int
	// Fail decides the outcome of an operation: how many bytes of a read or
	// write are performed (n<0: all of them) and the error.
	Fail func(Op) (n int, err error)
	// Latency returns how long an operation takes.
	Latency func(Op) time.Duration
	Open    int // handles open
	Opened  int // handles ever opened
	Ops     int
	Misuse  []string // operations on closed handles and the like
}

var cur = NewDisk(512)

// NewDisk returns an empty disk.
func NewDisk(sector int) *Disk {
	return &Disk{files: map[string]*inode{}, Sector: sector}
}

// Install makes d the disk the code under test sees.
func Install(d *Disk) { cur = d }

// Put stores a durable file.
func (d *Disk) Put(name string, data []byte) {
	c := append([]byte(nil), data...)
	d.files[clean(name)] = &inode{data: c, durable: append([]byte(nil), c...), dirty: map[int]bool{}, synced: true}
}

// Get returns the current content of a file.
func (d *Disk) Get(name string) ([]byte, bool) {
	f, ok := d.files[clean(name)]
	if !ok {
		return nil, false
	}
	return append([]byte(nil), f.data...), true
}

// Names lists the files.
func (d *Disk) Names() []string {
	var s []string
	for n := range d.files {
		s = append(s, n)
	}
	sort.Strings(s)
	return s
}

// Crash loses volatile state: every sector written since the last Sync is kept
// or lost according to keep, and the size of the file is what size returns
// between the durable and the current one. It reports the byte ranges lost.
func (d *Disk) Crash(name string, keep func(sector int) bool, size func(durable, current int) int) (lost [][2]int, truncatedTo int) {
	f, ok := d.files[clean(name)]
	if !ok {
		return nil, -1
	}
	truncatedTo = -1
	n := len(f.data)
	if !f.synced || n != len(f.durable) {
		n = size(len(f.durable), len(f.data))
		if n < len(f.data) {
			truncatedTo = n
		}
	}
	out := make([]byte, n)
	copy(out, f.durable)
	secs := make([]int, 0, len(f.dirty))
	for s := range f.dirty {
		secs = append(secs, s)
	}
	sort.Ints(secs)
	kept := map[int]bool{}
	for _, s := range secs {
		kept[s] = keep(s)
	}
	for i := range out {
		s := i / d.Sector
		if i < len(f.data) && (!f.dirty[s] || kept[s]) {
			out[i] = f.data[i]
		}
	}
	for _, s := range secs {
		if kept[s] {
			continue
		}
		a, b := s*d.Sector, (s+1)*d.Sector
		if b > n {
			b = n
		}
		if a < b {
			lost = append(lost, [2]int{a, b})
		}
	}
	f.data = out
	f.durable = append([]byte(nil), out...)
	f.dirty = map[int]bool{}
	f.synced = true
	return lost, truncatedTo
}

func clean(n string) string { return path.Clean("/" + n) }

func (d *Disk) do(op Op) (int, error) {
	d.Ops++
	if d.Latency != nil {
		simrt.Sleep(d.Latency(op))
	}
	simrt.IOPoint()
	n, err := -1, error(nil)
	if d.Fail != nil {
		n, err = d.Fail(op)
	}
	e := int64(0)
	if err != nil {
		e = 1
	}
	simrt.Log("disk."+op.Kind, op.Off<<20|int64(op.Len), e)
	return n, err
}

// File replaces os.File.
type File struct {
	d      *Disk
	name   string
	ino    *inode
	off    int64
	flag   int
	closed bool
}

func perr(op, name string, err error) error { return &os.PathError{Op: op, Path: name, Err: err} }

// OpenFile is os.OpenFile.
func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	d := cur
	kind := "open"
	if flag&O_CREATE != 0 {
		kind = "create"
	}
	if _, err := d.do(Op{Kind: kind, Name: name}); err != nil {
		return nil, perr("open", name, err)
	}
	ino, ok := d.files[clean(name)]
	if !ok {
		if flag&O_CREATE == 0 {
			return nil, perr("open", name, ErrNotExist)
		}
		ino = &inode{dirty: map[int]bool{}}
		d.files[clean(name)] = ino
	} else if flag&O_EXCL != 0 && flag&O_CREATE != 0 {
		return nil, perr("open", name, ErrExist)
	}
	if flag&O_TRUNC != 0 {
		ino.data = nil
		ino.synced = false
	}
	d.Open++
	d.Opened++
	return &File{d: d, name: name, ino: ino, flag: flag}, nil
}

// Open is os.Open.
func Open(name string) (*File, error) { return OpenFile(name, O_RDONLY, 0) }

// Create is os.Create.
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666) }

var tmpSeq int

// CreateTemp is os.CreateTemp with predictable names.
func CreateTemp(dir, pattern string) (*File, error) {
	tmpSeq++
	if dir == "" {
		dir = "/tmp"
	}
	return OpenFile(path.Join(dir, pattern+string(rune('a'+tmpSeq%26))), O_RDWR|O_CREATE|O_TRUNC, 0o600)
}

func (f *File) check(op string) error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		f.d.Misuse = append(f.d.Misuse, op+" on closed "+f.name)
		return perr(op, f.name, ErrClosed)
	}
	return nil
}

// Name is os.File.Name.
func (f *File) Name() string { return f.name }

// Fd is os.File.Fd; there is no descriptor.
func (f *File) Fd() uintptr { return ^uintptr(0) }

// ReadAt is os.File.ReadAt.
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	k, err := f.d.do(Op{"read", f.name, off, len(b)})
	if off < 0 {
		return 0, perr("readat", f.name, errors.New("negative offset"))
	}
	n := 0
	if off < int64(len(f.ino.data)) {
		n = copy(b, f.ino.data[off:])
	}
	if k >= 0 && k < n {
		n = k
	}
	if err != nil {
		return n, perr("read", f.name, err)
	}
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

// Read is os.File.Read.
func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	k, err := f.d.do(Op{"read", f.name, f.off, len(b)})
	n := 0
	if f.off < int64(len(f.ino.data)) {
		n = copy(b, f.ino.data[f.off:])
	}
	if k >= 0 && k < n {
		n = k
	}
	f.off += int64(n)
	if err != nil {
		return n, perr("read", f.name, err)
	}
	if n == 0 && len(b) > 0 {
		return 0, io.EOF
	}
	return n, nil
}

func (f *File) put(b []byte, off int64) {
	end := off + int64(len(b))
	for int64(len(f.ino.data)) < end {
		f.ino.data = append(f.ino.data, make([]byte, end-int64(len(f.ino.data)))...)
	}
	copy(f.ino.data[off:], b)
	for s := int(off) / f.d.Sector; s <= int(end-1)/f.d.Sector && len(b) > 0; s++ {
		f.ino.dirty[s] = true
	}
	f.ino.synced = false
}

// WriteAt is os.File.WriteAt.
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	n, err := f.d.do(Op{"write", f.name, off, len(b)})
	if n < 0 || n > len(b) {
		n = len(b)
		if err != nil {
			n = 0
		}
	}
	f.put(b[:n], off)
	if err != nil {
		return n, perr("write", f.name, err)
	}
	if n < len(b) {
		return n, perr("write", f.name, io.ErrShortWrite)
	}
	return n, nil
}

// Write is os.File.Write.
func (f *File) Write(b []byte) (int, error) {
	if f != nil && f.flag&O_APPEND != 0 {
		f.off = int64(len(f.ino.data))
	}
	n, err := f.WriteAt(b, f.off)
	f.off += int64(n)
	return n, err
}

// WriteString is os.File.WriteString.
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// Seek is os.File.Seek.
func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	if _, err := f.d.do(Op{Kind: "seek", Name: f.name}); err != nil {
		return 0, perr("seek", f.name, err)
	}
	switch whence {
	case io.SeekCurrent:
		off += f.off
	case io.SeekEnd:
		off += int64(len(f.ino.data))
	}
	f.off = off
	return off, nil
}

// Truncate is os.File.Truncate.
func (f *File) Truncate(n int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	for int64(len(f.ino.data)) < n {
		f.ino.data = append(f.ino.data, 0)
	}
	f.ino.data = f.ino.data[:n]
	f.ino.synced = false
	return nil
}

// Sync is os.File.Sync.
func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	if _, err := f.d.do(Op{Kind: "sync", Name: f.name}); err != nil {
		return perr("sync", f.name, err)
	}
	f.ino.durable = append([]byte(nil), f.ino.data...)
	f.ino.dirty = map[int]bool{}
	f.ino.synced = true
	return nil
}

// Close is os.File.Close; the handle is released even when it fails.
func (f *File) Close() error {
	if err := f.check("close"); err != nil {
		return err
	}
	_, err := f.d.do(Op{Kind: "close", Name: f.name})
	f.closed = true
	f.d.Open--
	if err != nil {
		return perr("close", f.name, err)
	}
	return nil
}

type fileInfo struct {
	name string
	size int64
}

func (i fileInfo) Name() string       { return path.Base(i.name) }
func (i fileInfo) Size() int64        { return i.size }
func (i fileInfo) Mode() fs.FileMode  { return 0o644 }
func (i fileInfo) ModTime() time.Time { return time.Time{} }
func (i fileInfo) IsDir() bool        { return false }
func (i fileInfo) Sys() interface{}   { return nil }

// Stat is os.File.Stat.
func (f *File) Stat() (FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	if _, err := f.d.do(Op{Kind: "stat", Name: f.name}); err != nil {
		return nil, perr("stat", f.name, err)
	}
	return fileInfo{f.name, int64(len(f.ino.data))}, nil
}

// Stat is os.Stat.
func Stat(name string) (FileInfo, error) {
	if _, err := cur.do(Op{Kind: "stat", Name: name}); err != nil {
		return nil, perr("stat", name, err)
	}
	ino, ok := cur.files[clean(name)]
	if !ok {
		return nil, perr("stat", name, ErrNotExist)
	}
	return fileInfo{name, int64(len(ino.data))}, nil
}

// Lstat is os.Lstat.
func Lstat(name string) (FileInfo, error) { return Stat(name) }

// Remove is os.Remove.
func Remove(name string) error {
	if _, err := cur.do(Op{Kind: "remove", Name: name}); err != nil {
		return perr("remove", name, err)
	}
	if _, ok := cur.files[clean(name)]; !ok {
		return perr("remove", name, ErrNotExist)
	}
	delete(cur.files, clean(name))
	return nil
}

// Rename is os.Rename.
func Rename(a, b string) error {
	if _, err := cur.do(Op{Kind: "rename", Name: a}); err != nil {
		return perr("rename", a, err)
	}
	ino, ok := cur.files[clean(a)]
	if !ok {
		return perr("rename", a, ErrNotExist)
	}
	delete(cur.files, clean(a))
	cur.files[clean(b)] = ino
	return nil
}

// MkdirAll and Mkdir succeed: directories are implicit.
func MkdirAll(string, FileMode) error { return nil }
func Mkdir(string, FileMode) error    { return nil }

// TempDir is os.TempDir.
func TempDir() string { return "/tmp" }

// ReadFile is os.ReadFile.
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

// WriteFile is os.WriteFile.
func WriteFile(name string, b []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(b)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}

// Snapshot copies the disk as it is now, handles and hooks excluded.
func (d *Disk) Snapshot() *Disk {
	n := NewDisk(d.Sector)
	for k, f := range d.files {
		c := &inode{data: append([]byte(nil), f.data...), durable: append([]byte(nil), f.durable...), dirty: map[int]bool{}, synced: f.synced}
		for s := range f.dirty {
			c.dirty[s] = true
		}
		n.files[k] = c
	}
	return n
}

// RemoveAll is os.RemoveAll for one file.
func RemoveAll(name string) error {
	if err := Remove(name); err != nil && !errors.Is(err, ErrNotExist) {
		return err
	}
	return nil
}

func Chmod(string, FileMode) error          { return nil }
func (f *File) Chmod(FileMode) error        { return nil }
func Getpid() int                           { return 1 }
func Getwd() (string, error)                { return "/", nil }
func (f *File) SetDeadline(time.Time) error { return nil }
