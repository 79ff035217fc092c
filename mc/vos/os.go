// Package vos replaces os in the instrumented code: files live in a virtual file system whose
// every operation can fail or be the last one before the process dies.
package vos

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"gzmc/vs"
)

type inode struct {
	data    []byte
	mode    fs.FileMode
	mod     time.Time
	durable []byte // as of the last successful sync
	dirty   bool   // written since then
}

// lose drops what has not been synced: the operating system could not write it and tells so once.
func (i *inode) lose() {
	if !i.dirty {
		return
	}
	if bytes.HasPrefix(i.data, i.durable) {
		i.data = append([]byte(nil), i.durable...)
	} else {
		i.data = nil
	}
}

// Op is one file operation, as shown to the hook.
type Op struct {
	Kind string // open create write sync close rename remove truncate read stat mkdir chmod
	Path string
	To   string
	N    int // bytes of a write
}

// Fault is the hook's answer.
type Fault struct {
	Err     error // the operation fails with this error
	Partial int   // bytes of a write that still happen
	Crash   bool  // the process dies here (after Partial bytes)
}

// FS is the virtual file system.
type FS struct {
	files map[string]*inode
	dirs  map[string]bool
	Hook  func(op Op) Fault
	// Log lists the operations performed on the file system.
	Log []Op
	// Writes counts completed modifications per path (for observers).
	Changed map[string]int
	temp    int
	// OnCrash is called when the hook said Crash; it must not return to the caller's code.
	OnCrash func()
	open    int
}

// NewFS makes an empty file system with the usual directories.
func NewFS() *FS {
	return &FS{files: map[string]*inode{}, dirs: map[string]bool{"/": true, "/tmp": true, "/cfg": true, ".": true}, Changed: map[string]int{}}
}

// Cur is the file system the code under test sees.
var Cur = NewFS()

// Clone copies the file system's contents (what a new process would find).
func (f *FS) Clone() *FS {
	n := NewFS()
	for d := range f.dirs {
		n.dirs[d] = true
	}
	for p, i := range f.files {
		n.files[p] = &inode{data: append([]byte(nil), i.data...), mode: i.mode, mod: i.mod, durable: append([]byte(nil), i.durable...), dirty: i.dirty}
	}
	n.temp = f.temp
	return n
}

// Put stores a file (harness).
func (f *FS) Put(path string, data []byte) {
	f.files[path] = &inode{data: append([]byte(nil), data...), mode: 0644, durable: append([]byte(nil), data...)}
}

// Get reads a file (harness).
func (f *FS) Get(path string) ([]byte, bool) {
	i := f.files[path]
	if i == nil {
		return nil, false
	}
	return append([]byte(nil), i.data...), true
}

// List names all files.
func (f *FS) List() []string {
	var l []string
	for p := range f.files {
		l = append(l, p)
	}
	sort.Strings(l)
	return l
}

func (f *FS) op(o Op) Fault {
	vs.Yield()
	f.Log = append(f.Log, o)
	var ft Fault
	if f.Hook != nil && !vs.Dying() {
		ft = f.Hook(o)
	}
	if vs.S != nil {
		vs.Trace("fs %s %s %s n=%d fault=%v/%d/%v", o.Kind, o.Path, o.To, o.N, ft.Err, ft.Partial, ft.Crash)
	}
	return ft
}

func (f *FS) crash() {
	f.OnCrash()
	panic("vos: OnCrash returned")
}

func clean(p string) string { return filepath.Clean(p) }

func dev(p string) string {
	if strings.HasPrefix(p, "/tmp/") {
		return "tmp"
	}
	return "root"
}

// File is an open file.
type File struct {
	fs     *FS
	ino    *inode
	path   string
	pos    int
	flag   int
	closed bool
	std    *os.File
}

func perr(op, path string, err error) error { return &fs.PathError{Op: op, Path: path, Err: err} }

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	f := Cur
	p := clean(name)
	kind := "open"
	if flag&(O_WRONLY|O_RDWR) != 0 {
		kind = "create"
	}
	if ft := f.op(Op{Kind: kind, Path: p}); ft.Err != nil {
		return nil, perr("open", name, ft.Err)
	} else if ft.Crash {
		f.crash()
	}
	if name == "" {
		return nil, perr("open", name, syscall.ENOENT)
	}
	i := f.files[p]
	if f.dirs[p] {
		if flag&(O_WRONLY|O_RDWR) != 0 {
			return nil, perr("open", name, syscall.EISDIR)
		}
		f.open++
		return &File{fs: f, ino: &inode{mode: fs.ModeDir | 0755}, path: p, flag: flag}, nil
	}
	if i == nil {
		if flag&O_CREATE == 0 || !f.dirs[filepath.Dir(p)] {
			return nil, perr("open", name, syscall.ENOENT)
		}
		i = &inode{mode: perm}
		f.files[p] = i
		f.Changed[p]++
	} else {
		if flag&O_CREATE != 0 && flag&O_EXCL != 0 {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if flag&O_TRUNC != 0 {
			i.data = nil
			f.Changed[p]++
		}
	}
	f.open++
	return &File{fs: f, ino: i, path: p, flag: flag}, nil
}

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	Cur.temp++
	n := fmt.Sprintf("%09d", Cur.temp)
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pattern = pattern[:i] + n + pattern[i+1:]
	} else {
		pattern += n
	}
	return OpenFile(filepath.Join(dir, pattern), O_RDWR|O_CREATE|O_EXCL, 0600)
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	Cur.temp++
	p := filepath.Join(dir, strings.Replace(pattern, "*", "", 1)+fmt.Sprintf("%09d", Cur.temp))
	return p, Mkdir(p, 0700)
}

func TempDir() string { return "/tmp" }

func (f *File) Name() string { return f.path }

func (f *File) check(op string) error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return perr(op, f.path, fs.ErrClosed)
	}
	return nil
}

func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if f.ino.mode.IsDir() {
		return 0, perr("read", f.path, syscall.EISDIR)
	}
	if ft := f.fs.op(Op{Kind: "read", Path: f.path}); ft.Err != nil {
		return 0, perr("read", f.path, ft.Err)
	}
	if f.flag&(O_WRONLY|O_RDWR) == O_WRONLY {
		return 0, perr("read", f.path, syscall.EBADF)
	}
	if f.pos >= len(f.ino.data) {
		if len(b) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := copy(b, f.ino.data[f.pos:])
	f.pos += n
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if int(off) >= len(f.ino.data) {
		return 0, io.EOF
	}
	n := copy(b, f.ino.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (f *File) put(b []byte) {
	if f.flag&O_APPEND != 0 {
		f.pos = len(f.ino.data)
	}
	for len(f.ino.data) < f.pos {
		f.ino.data = append(f.ino.data, 0)
	}
	f.ino.data = append(f.ino.data[:f.pos:f.pos], append(append([]byte(nil), b...), tail(f.ino.data, f.pos+len(b))...)...)
	f.pos += len(b)
	f.ino.dirty = true
	f.fs.Changed[f.path]++
}

func tail(d []byte, n int) []byte {
	if n >= len(d) {
		return nil
	}
	return d[n:]
}

func (f *File) Write(b []byte) (int, error) {
	if f != nil && f.std != nil {
		return f.std.Write(b)
	}
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.flag&(O_WRONLY|O_RDWR) == 0 {
		return 0, perr("write", f.path, syscall.EBADF)
	}
	ft := f.fs.op(Op{Kind: "write", Path: f.path, N: len(b)})
	if ft.Err != nil || ft.Crash {
		n := ft.Partial
		if n > len(b) {
			n = len(b)
		}
		f.put(b[:n])
		if ft.Crash {
			f.fs.crash()
		}
		return n, perr("write", f.path, ft.Err)
	}
	f.put(b)
	return len(b), nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	p := f.pos
	f.pos = int(off)
	n, err := f.Write(b)
	f.pos = p
	return n, err
}
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	n, err := f.Write(b)
	return int64(n), err
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case 0:
		f.pos = int(off)
	case 1:
		f.pos += int(off)
	case 2:
		f.pos = len(f.ino.data) + int(off)
	}
	return int64(f.pos), nil
}

func (f *File) Truncate(n int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	if ft := f.fs.op(Op{Kind: "truncate", Path: f.path}); ft.Err != nil {
		return perr("truncate", f.path, ft.Err)
	} else if ft.Crash {
		f.fs.crash()
	}
	for int64(len(f.ino.data)) < n {
		f.ino.data = append(f.ino.data, 0)
	}
	f.ino.data = f.ino.data[:n:n]
	f.ino.dirty = true
	f.fs.Changed[f.path]++
	return nil
}

func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	if ft := f.fs.op(Op{Kind: "sync", Path: f.path}); ft.Err != nil {
		f.ino.lose()
		return perr("sync", f.path, ft.Err)
	} else if ft.Crash {
		f.fs.crash()
	}
	f.ino.durable, f.ino.dirty = append([]byte(nil), f.ino.data...), false
	return nil
}

func (f *File) Close() error {
	if err := f.check("close"); err != nil {
		return err
	}
	f.closed = true
	if f.fs == nil {
		return nil
	}
	f.fs.open--
	kind := "close"
	if f.flag&(O_WRONLY|O_RDWR) == 0 {
		kind = "closeread"
	}
	if ft := f.fs.op(Op{Kind: kind, Path: f.path}); ft.Err != nil {
		if kind == "close" {
			f.ino.lose()
		}
		return perr("close", f.path, ft.Err)
	} else if ft.Crash {
		f.fs.crash()
	}
	return nil
}

func (f *File) Chmod(m fs.FileMode) error { f.ino.mode = m; return nil }
func (f *File) Fd() uintptr               { return 3 }
func (f *File) Stat() (fs.FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	return info{f.path, f.ino}, nil
}

type info struct {
	p string
	i *inode
}

func (i info) Name() string       { return filepath.Base(i.p) }
func (i info) Size() int64        { return int64(len(i.i.data)) }
func (i info) Mode() fs.FileMode  { return i.i.mode }
func (i info) ModTime() time.Time { return i.i.mod }
func (i info) IsDir() bool        { return i.i.mode.IsDir() }
func (i info) Sys() any           { return nil }

func Stat(name string) (fs.FileInfo, error) {
	f := Cur
	p := clean(name)
	if ft := f.op(Op{Kind: "stat", Path: p}); ft.Err != nil {
		return nil, perr("stat", name, ft.Err)
	}
	if f.dirs[p] && name != "" {
		return info{p, &inode{mode: fs.ModeDir | 0755}}, nil
	}
	if i := f.files[p]; i != nil {
		return info{p, i}, nil
	}
	return nil, perr("stat", name, syscall.ENOENT)
}
func Lstat(name string) (fs.FileInfo, error) { return Stat(name) }

func Rename(a, b string) error {
	f := Cur
	pa, pb := clean(a), clean(b)
	if ft := f.op(Op{Kind: "rename", Path: pa, To: pb}); ft.Err != nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: ft.Err}
	} else if ft.Crash {
		f.crash()
	}
	i := f.files[pa]
	if i == nil || !f.dirs[filepath.Dir(pb)] {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOENT}
	}
	if dev(pa) != dev(pb) {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.EXDEV}
	}
	if f.dirs[pb] {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.EEXIST}
	}
	f.files[pb] = i
	if pa != pb {
		delete(f.files, pa)
	}
	f.Changed[pb]++
	return nil
}

func Link(a, b string) error {
	f := Cur
	pa, pb := clean(a), clean(b)
	if ft := f.op(Op{Kind: "link", Path: pa, To: pb}); ft.Err != nil {
		return &os.LinkError{Op: "link", Old: a, New: b, Err: ft.Err}
	} else if ft.Crash {
		f.crash()
	}
	if f.files[pa] == nil {
		return &os.LinkError{Op: "link", Old: a, New: b, Err: syscall.ENOENT}
	}
	if f.files[pb] != nil {
		return &os.LinkError{Op: "link", Old: a, New: b, Err: syscall.EEXIST}
	}
	f.files[pb] = f.files[pa]
	return nil
}

func Remove(name string) error {
	f := Cur
	p := clean(name)
	if ft := f.op(Op{Kind: "remove", Path: p}); ft.Err != nil {
		return perr("remove", name, ft.Err)
	} else if ft.Crash {
		f.crash()
	}
	if f.files[p] == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	delete(f.files, p)
	f.Changed[p]++
	return nil
}
func RemoveAll(name string) error { Remove(name); return nil }

func Mkdir(name string, m fs.FileMode) error {
	if Cur.dirs[clean(name)] {
		return perr("mkdir", name, syscall.EEXIST)
	}
	Cur.dirs[clean(name)] = true
	return nil
}
func MkdirAll(name string, m fs.FileMode) error {
	for p := clean(name); ; p = filepath.Dir(p) {
		Cur.dirs[p] = true
		if p == "/" || p == "." {
			return nil
		}
	}
}
func Chmod(name string, m fs.FileMode) error {
	if i := Cur.files[clean(name)]; i != nil {
		i.mode = m
		return nil
	}
	return perr("chmod", name, syscall.ENOENT)
}
func Chown(name string, u, g int) error         { return nil }
func Chtimes(name string, a, m time.Time) error { return nil }
func Truncate(name string, n int64) error {
	f, err := OpenFile(name, O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(n)
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, b []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(b)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

type exited struct{ code int }

// Exit ends the process: for the harness that is a violation.
func Exit(code int) { panic(fmt.Sprintf("the library called os.Exit(%d)", code)) }

var (
	Stdin  = &File{path: "/dev/stdin"}
	Stdout = &File{path: "/dev/stdout", std: devnull()}
	Stderr = &File{path: "/dev/stderr", std: devnull()}
)

func devnull() *os.File { f, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0); return f }

var _ = errors.New
