// Package simos replaces package os (and io/ioutil) inside code under test
// that writes files. Files live in memory; every operation on them is a step
// at which the simulated disk may fail, fill up or the process may be killed.
package simos

import (
	"bytes"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/mearaj/bips/zzverif/simrt"
)

// Fault is what happens at one operation of a plan, or at all after it.
type Fault struct {
	At   int    // operation, counted from 0
	Kind string // error, short, full, crash, torn
	N    int    // bytes that still get through
}

// Disk is the simulated disk.
type Disk struct {
	Files map[string]*Inode
	Plan  []Fault
	Ops   int
	Fired []string
	full  bool
	room  int
	tmp   int
}

// Inode is a file or directory.
type Inode struct {
	Data []byte
	Dir  bool
}

// D is the disk in use.
var D = &Disk{Files: map[string]*Inode{}}

func clean(name string) string {
	if !path.IsAbs(name) {
		name = path.Join("/work", name)
	}
	return path.Clean(name)
}

// File looks at a file from outside.
func (d *Disk) File(name string) *Inode { return d.Files[clean(name)] }

// Put changes a file from outside.
func (d *Disk) Put(name string, n *Inode) { d.Files[clean(name)] = n }

// Del removes one from outside.
func (d *Disk) Del(name string) { delete(d.Files, clean(name)) }

// Names lists what is on the disk.
func (d *Disk) Names() []string {
	var s []string
	for n := range d.Files {
		s = append(s, n)
	}
	sort.Strings(s)
	return s
}

// Arm sets the faults of the next operations.
func (d *Disk) Arm(plan []Fault) { d.Plan, d.Ops, d.Fired, d.full, d.room = plan, 0, nil, false, 0 }

var errs = map[string]syscall.Errno{"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EACCES": syscall.EACCES,
	"EROFS": syscall.EROFS, "EMFILE": syscall.EMFILE, "EDQUOT": syscall.EDQUOT}

// step is one operation on the disk. It returns how many of n bytes get
// through and the error that comes with them.
func (d *Disk) step(op string, n int) (int, error) {
	simrt.Y(0)
	if simrt.Killed() { // deferred calls of a process that is gone
		return 0, syscall.EIO
	}
	i := d.Ops
	d.Ops++
	for _, f := range d.Plan {
		if f.At != i {
			continue
		}
		kind, arg, _ := strings.Cut(f.Kind, ":")
		switch kind {
		case "error":
			d.Fired = append(d.Fired, op+".error")
			return 0, errs[arg]
		case "short":
			if op == "write" && f.N < n {
				d.Fired = append(d.Fired, "write.short")
				return f.N, syscall.ENOSPC
			}
		case "full":
			d.full, d.room = true, f.N
		case "crash":
			d.Fired = append(d.Fired, "crash")
			return min(f.N, n), errCrash
		}
	}
	if d.full && op == "write" {
		if n > d.room {
			n, d.room = d.room, 0
			d.Fired = append(d.Fired, "disk.full")
			return n, syscall.ENOSPC
		}
		d.room -= n
	}
	return n, nil
}

var errCrash = syscall.Errno(0x7fff)

func done(err error) error {
	if err == errCrash {
		simrt.Crash()
	}
	return err
}

func perr(op, name string, err error) error {
	if err == nil {
		return nil
	}
	return &fs.PathError{Op: op, Path: name, Err: err}
}

// ---- package os ----

type (
	FileMode     = fs.FileMode
	FileInfo     = fs.FileInfo
	DirEntry     = fs.DirEntry
	PathError    = fs.PathError
	LinkError    = os.LinkError
	SyscallError = os.SyscallError
	Signal       = os.Signal
)

const (
	O_RDONLY = os.O_RDONLY
	O_WRONLY = os.O_WRONLY
	O_RDWR   = os.O_RDWR
	O_APPEND = os.O_APPEND
	O_CREATE = os.O_CREATE
	O_EXCL   = os.O_EXCL
	O_SYNC   = os.O_SYNC
	O_TRUNC  = os.O_TRUNC

	ModePerm = fs.ModePerm
	ModeDir  = fs.ModeDir

	PathSeparator     = os.PathSeparator
	PathListSeparator = os.PathListSeparator
	DevNull           = os.DevNull
	SEEK_SET          = 0
	SEEK_CUR          = 1
	SEEK_END          = 2
)

var (
	ErrInvalid    = fs.ErrInvalid
	ErrPermission = fs.ErrPermission
	ErrExist      = fs.ErrExist
	ErrNotExist   = fs.ErrNotExist
	ErrClosed     = fs.ErrClosed

	Stdin  = &File{name: "/dev/stdin", n: &Inode{}, std: true}
	Stdout = &File{name: "/dev/stdout", n: &Inode{}, std: true}
	Stderr = &File{name: "/dev/stderr", n: &Inode{}, std: true}

	Args    = []string{"program"}
	Discard = io.Discard
)

func Getenv(string) string                          { return "" }
func LookupEnv(string) (string, bool)               { return "", false }
func Environ() []string                             { return nil }
func Getpid() int                                   { return 1 }
func Getwd() (string, error)                        { return "/work", nil }
func TempDir() string                               { return "/tmp" }
func IsNotExist(err error) bool                     { return os.IsNotExist(err) }
func IsExist(err error) bool                        { return os.IsExist(err) }
func IsPermission(err error) bool                   { return os.IsPermission(err) }
func Expand(s string, f func(string) string) string { return os.Expand(s, f) }
func ExpandEnv(s string) string                     { return os.Expand(s, Getenv) }
func ReadAll(r io.Reader) ([]byte, error)           { return io.ReadAll(r) }

func Getuid() int                  { return 1000 }
func Geteuid() int                 { return 1000 }
func Getgid() int                  { return 1000 }
func Getppid() int                 { return 1 }
func Hostname() (string, error)    { return "simulated", nil }
func Executable() (string, error)  { return "/work/program", nil }
func UserHomeDir() (string, error) { return "/work", nil }

// File is an open file.
type File struct {
	name   string
	n      *Inode
	off    int
	flag   int
	closed bool
	std    bool
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	if _, err := D.step("open", 0); err != nil {
		return nil, perr("open", name, done(err))
	}
	c := clean(name)
	n := D.Files[c]
	writes := flag&(O_WRONLY|O_RDWR) != 0
	switch {
	case n == nil && flag&O_CREATE == 0:
		return nil, perr("open", name, syscall.ENOENT)
	case n == nil:
		if p := path.Dir(c); p != "/work" && p != "/tmp" && (D.Files[p] == nil || !D.Files[p].Dir) {
			return nil, perr("open", name, syscall.ENOENT)
		}
		n = &Inode{}
		D.Files[c] = n
	case flag&(O_CREATE|O_EXCL) == O_CREATE|O_EXCL:
		return nil, perr("open", name, syscall.EEXIST)
	case n.Dir && writes:
		return nil, perr("open", name, syscall.EISDIR)
	}
	if flag&O_TRUNC != 0 && writes {
		n.Data = nil
	}
	return &File{name: name, n: n, flag: flag}, nil
}

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	pre, suf, _ := strings.Cut(pattern, "*")
	for {
		D.tmp++
		name := path.Join(dir, pre+itoa(D.tmp)+suf)
		if D.Files[clean(name)] == nil {
			return OpenFile(name, O_RDWR|O_CREATE|O_EXCL, 0600)
		}
	}
}

func TempFile(dir, pattern string) (*File, error) { return CreateTemp(dir, pattern) }

func itoa(n int) string {
	s := ""
	for ; n > 0 || s == ""; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return s
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 3 }

func (f *File) use(op string) error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, ErrClosed)
	}
	return nil
}

func (f *File) Write(b []byte) (int, error) {
	if err := f.use("write"); err != nil {
		return 0, err
	}
	if f.std {
		return len(b), nil
	}
	if f.flag&(O_WRONLY|O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	if f.flag&O_APPEND != 0 {
		f.off = len(f.n.Data)
	}
	n, err := f.put(b, f.off)
	f.off += n
	return n, err
}

func (f *File) put(b []byte, off int) (int, error) {
	n, err := D.step("write", len(b))
	if grow := off + n - len(f.n.Data); grow > 0 {
		f.n.Data = append(f.n.Data, make([]byte, grow)...)
	}
	copy(f.n.Data[off:], b[:n])
	return n, perr("write", f.name, done(err))
}

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.use("write"); err != nil {
		return 0, err
	}
	return f.put(b, int(off))
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

func (f *File) Read(b []byte) (int, error) {
	if err := f.use("read"); err != nil {
		return 0, err
	}
	if f.n.Dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	n, err := D.step("read", len(b))
	if err != nil {
		return 0, perr("read", f.name, done(err))
	}
	if f.off >= len(f.n.Data) {
		return 0, io.EOF
	}
	n = copy(b[:n], f.n.Data[f.off:])
	f.off += n
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	return bytes.NewReader(f.n.Data).ReadAt(b, off)
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.use("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case 0:
		f.off = int(off)
	case 1:
		f.off += int(off)
	case 2:
		f.off = len(f.n.Data) + int(off)
	}
	return int64(f.off), nil
}

func (f *File) Sync() error {
	if err := f.use("sync"); err != nil {
		return err
	}
	_, err := D.step("sync", 0)
	return perr("sync", f.name, done(err))
}

func (f *File) Truncate(size int64) error {
	if err := f.use("truncate"); err != nil {
		return err
	}
	if _, err := D.step("truncate", 0); err != nil {
		return perr("truncate", f.name, done(err))
	}
	for int64(len(f.n.Data)) < size {
		f.n.Data = append(f.n.Data, 0)
	}
	f.n.Data = f.n.Data[:size]
	return nil
}

func (f *File) Chmod(FileMode) error { return f.use("chmod") }

func (f *File) Close() error {
	if err := f.use("close"); err != nil {
		return err
	}
	if f.std {
		return nil
	}
	f.closed = true
	_, err := D.step("close", 0)
	return perr("close", f.name, done(err))
}

type info struct {
	name string
	n    *Inode
}

func (i info) Name() string { return path.Base(i.name) }
func (i info) Size() int64  { return int64(len(i.n.Data)) }
func (i info) Mode() FileMode {
	if i.n.Dir {
		return fs.ModeDir | 0755
	}
	return 0644
}
func (i info) ModTime() time.Time { return time.Unix(0, 0) }
func (i info) IsDir() bool        { return i.n.Dir }
func (i info) Sys() any           { return nil }

func (f *File) Stat() (FileInfo, error) { return info{f.name, f.n}, f.use("stat") }

func Stat(name string) (FileInfo, error) {
	n := D.File(name)
	if n == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return info{name, n}, nil
}

func Lstat(name string) (FileInfo, error) { return Stat(name) }

func Rename(from, to string) error {
	if _, err := D.step("rename", 0); err != nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: done(err)}
	}
	n := D.File(from)
	if n == nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.ENOENT}
	}
	if t := D.File(to); t != nil && t.Dir != n.Dir {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.EEXIST}
	}
	D.Del(from)
	D.Put(to, n)
	return nil
}

func Remove(name string) error {
	if _, err := D.step("remove", 0); err != nil {
		return perr("remove", name, done(err))
	}
	if D.File(name) == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	D.Del(name)
	return nil
}

func RemoveAll(name string) error {
	if _, err := D.step("remove", 0); err != nil {
		return perr("remove", name, done(err))
	}
	c := clean(name)
	for n := range D.Files {
		if n == c || strings.HasPrefix(n, c+"/") {
			delete(D.Files, n)
		}
	}
	return nil
}

func ReadDir(name string) ([]DirEntry, error) {
	c := clean(name)
	if n := D.Files[c]; c != "/work" && c != "/tmp" && (n == nil || !n.Dir) {
		return nil, perr("open", name, syscall.ENOENT)
	}
	var out []DirEntry
	for _, n := range D.Names() {
		if path.Dir(n) == c {
			out = append(out, fs.FileInfoToDirEntry(info{n, D.Files[n]}))
		}
	}
	return out, nil
}

func Truncate(name string, size int64) error {
	f, err := OpenFile(name, O_RDWR, 0)
	if err != nil {
		return err
	}
	return f.Truncate(size)
}

func Chmod(string, FileMode) error { return nil }

func Mkdir(name string, perm FileMode) error {
	if _, err := D.step("mkdir", 0); err != nil {
		return perr("mkdir", name, done(err))
	}
	if D.File(name) != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	D.Put(name, &Inode{Dir: true})
	return nil
}

func MkdirAll(name string, perm FileMode) error {
	if n := D.File(name); n != nil && n.Dir || clean(name) == "/work" {
		return nil
	}
	return Mkdir(name, perm)
}
