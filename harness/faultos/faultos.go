// Package faultos stands in for package os in the code under test. Every file operation is numbered while a plan
// is armed; the plan can make one of them fail, cut it short, kill the process there (a panic, after which nothing
// can change a file any more), or call back before or after it.
package faultos

import (
	"io"
	"os"
	"syscall"
	"time"
)

// Crash is what a simulated crash panics with.
type Crash struct{ Op int }

// Op is one operation that was seen.
type Op struct {
	Name    string
	Mutates bool
	Path    string
	Inode   uint64 // of what was flushed
}

// Plan tells what happens to the operations.
type Plan struct {
	At   int    // the number of the operation, from 0
	Mode string // "", error, short, full, readfull, crash, crashmid, before, after
	Hook func()
	// Each is called after every operation that succeeded, unless another mode decides about it.
	Each func(op Op)
	// Closes has the closing of the files that are only read numbered too, and made to fail.
	Closes bool

	Ops    []Op
	Hit    bool
	frozen bool
	inHook bool
}

var (
	plan *Plan
	open = map[*File]bool{}
)

// Arm installs a plan.
func Arm(p *Plan) { plan = p }

// Disarm removes the plan.
func Disarm() { plan = nil }

// Armed tells whether a plan is installed
func Armed() bool { return plan != nil }

// Count returns how many files the code under test has open.
func Count() int { return len(open) }

// CloseAll closes every file the code under test left open, as the death of its process does.
func CloseAll() {
	for f := range open {
		f.f.Close()
		delete(open, f)
	}
}

type verdict int

const (
	proceed verdict = iota
	fail
	short
	half
)

// enter numbers an operation and decides what happens to it.
func enter(name, path string, mutates bool) (verdict, func()) {
	none := func() {}
	p := plan
	if p == nil || p.inHook {
		return proceed, none
	}
	if p.frozen {
		if mutates {
			return fail, none
		}
		return proceed, none
	}
	n := len(p.Ops)
	p.Ops = append(p.Ops, Op{Name: name, Mutates: mutates, Path: path})
	if p.Mode == "full" && n >= p.At && mutates {
		p.Hit = true
		return fail, none
	}
	if n != p.At {
		return proceed, none
	}
	switch p.Mode {
	case "error":
		p.Hit = true
		return fail, none
	case "short":
		p.Hit = true
		return short, none
	case "crash":
		p.Hit = true
		p.frozen = true
		panic(Crash{n})
	case "crashmid":
		p.Hit = true
		return half, none
	case "before":
		p.Hit = true
		p.run()
	case "after":
		return proceed, func() { p.Hit = true; p.run() }
	}
	return proceed, none
}

// seen tells the plan about an operation that succeeded.
func seen(op Op) {
	if p := plan; p != nil && p.Each != nil && !p.inHook && !p.frozen {
		p.inHook = true
		defer func() { p.inHook = false }()
		p.Each(op)
	}
}

func (p *Plan) run() {
	p.inHook = true
	defer func() { p.inHook = false }()
	p.Hook()
}

func crashNow() {
	plan.frozen = true
	panic(Crash{plan.At})
}

func ioErr(op, path string) error { return &os.PathError{Op: op, Path: path, Err: syscall.EIO} }
func noSpace(op, path string) error {
	return &os.PathError{Op: op, Path: path, Err: syscall.ENOSPC}
}

// File stands in for os.File
type File struct {
	f        *os.File
	writable bool
	flushes  bool // every write is flushed
}

func wrap(f *os.File, writable bool, err error) (*File, error) {
	if err != nil {
		return nil, err
	}
	out := &File{f: f, writable: writable}
	open[out] = true
	return out, nil
}

var (
	Stdin  = &File{f: os.Stdin}
	Stdout = &File{f: os.Stdout, writable: true}
	Stderr = &File{f: os.Stderr, writable: true}
)

func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	writable := flag&(os.O_WRONLY|os.O_RDWR) != 0
	v, after := enter("open", name, flag&(os.O_CREATE|os.O_TRUNC) != 0)
	if v == fail {
		return nil, ioErr("open", name)
	}
	f, err := os.OpenFile(name, flag, perm)
	out, err := wrap(f, writable, err)
	if err == nil {
		out.flushes = flag&os.O_SYNC == os.O_SYNC
		if flag&(os.O_CREATE|os.O_TRUNC) != 0 {
			seen(Op{Name: "open", Mutates: true, Path: name})
		}
	}
	after()
	return out, err
}

func CreateTemp(dir, pattern string) (*File, error) {
	v, after := enter("createtemp", dir, true)
	if v == fail {
		return nil, ioErr("createtemp", dir)
	}
	f, err := os.CreateTemp(dir, pattern)
	out, err := wrap(f, true, err)
	if err == nil {
		seen(Op{Name: "createtemp", Mutates: true, Path: f.Name()})
	}
	after()
	return out, err
}

func OpenInRoot(dir, name string) (*File, error) {
	v, after := enter("open", name, false)
	if v == fail {
		return nil, ioErr("open", name)
	}
	f, err := os.OpenInRoot(dir, name)
	out, err := wrap(f, false, err)
	after()
	return out, err
}

func NewFile(fd uintptr, name string) *File { return &File{f: os.NewFile(fd, name), writable: true} }

func Pipe() (*File, *File, error) {
	r, w, err := os.Pipe()
	if err != nil {
		return nil, nil, err
	}
	return &File{f: r}, &File{f: w, writable: true}, nil
}

// path operations

func simple(name, path string, mutates bool, fn func() error) error {
	v, after := enter(name, path, mutates)
	if v == fail {
		return ioErr(name, path)
	}
	err := fn()
	if err == nil && mutates {
		seen(Op{Name: name, Mutates: true, Path: path})
	}
	after()
	return err
}

func Stat(name string) (fi os.FileInfo, err error) {
	err = simple("stat", name, false, func() (e error) { fi, e = os.Stat(name); return e })
	return
}

func Lstat(name string) (fi os.FileInfo, err error) {
	err = simple("lstat", name, false, func() (e error) { fi, e = os.Lstat(name); return e })
	return
}

func Rename(oldpath, newpath string) error {
	return simple("rename", oldpath, true, func() error { return os.Rename(oldpath, newpath) })
}

func Remove(name string) error {
	return simple("remove", name, true, func() error { return os.Remove(name) })
}

func RemoveAll(name string) error {
	return simple("removeall", name, true, func() error { return os.RemoveAll(name) })
}

func Mkdir(name string, perm os.FileMode) error {
	return simple("mkdir", name, true, func() error { return os.Mkdir(name, perm) })
}

func MkdirAll(name string, perm os.FileMode) error {
	return simple("mkdirall", name, true, func() error { return os.MkdirAll(name, perm) })
}

func MkdirTemp(dir, pattern string) (out string, err error) {
	err = simple("mkdirtemp", dir, true, func() (e error) { out, e = os.MkdirTemp(dir, pattern); return e })
	return
}

func Truncate(name string, size int64) error {
	return simple("truncate", name, true, func() error { return os.Truncate(name, size) })
}

func Link(a, b string) error { return simple("link", a, true, func() error { return os.Link(a, b) }) }

func Symlink(a, b string) error {
	return simple("symlink", a, true, func() error { return os.Symlink(a, b) })
}

func Chmod(name string, mode os.FileMode) error {
	return simple("chmod", name, true, func() error { return os.Chmod(name, mode) })
}

func Chtimes(name string, a, m time.Time) error {
	return simple("chtimes", name, true, func() error { return os.Chtimes(name, a, m) })
}

func ReadDir(name string) (out []os.DirEntry, err error) {
	err = simple("readdir", name, false, func() (e error) { out, e = os.ReadDir(name); return e })
	return
}

func Readlink(name string) (out string, err error) {
	err = simple("readlink", name, false, func() (e error) { out, e = os.Readlink(name); return e })
	return
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if cerr := f.Close(); err == nil {
		err = cerr
	}
	return err
}

// file operations

func (f *File) Name() string                          { return f.f.Name() }
func (f *File) Fd() uintptr                           { return f.f.Fd() }
func (f *File) Chdir() error                          { return f.f.Chdir() }
func (f *File) SetDeadline(t time.Time) error         { return f.f.SetDeadline(t) }
func (f *File) SetReadDeadline(t time.Time) error     { return f.f.SetReadDeadline(t) }
func (f *File) SetWriteDeadline(t time.Time) error    { return f.f.SetWriteDeadline(t) }
func (f *File) SyscallConn() (syscall.RawConn, error) { return f.f.SyscallConn() }
func (f *File) ReadDir(n int) ([]os.DirEntry, error)  { return f.f.ReadDir(n) }
func (f *File) Readdir(n int) ([]os.FileInfo, error)  { return f.f.Readdir(n) }
func (f *File) Readdirnames(n int) ([]string, error)  { return f.f.Readdirnames(n) }
func (f *File) WriteString(s string) (int, error)     { return f.Write([]byte(s)) }
func (f *File) ReadFrom(r io.Reader) (int64, error)   { return io.Copy(struct{ io.Writer }{f}, r) }
func (f *File) WriteTo(w io.Writer) (int64, error)    { return io.Copy(w, struct{ io.Reader }{f}) }

func (f *File) Close() error {
	if f == nil || f.f == nil {
		return os.ErrInvalid
	}
	if !f.writable && (plan == nil || !plan.Closes || !open[f]) {
		delete(open, f)
		return f.f.Close()
	}
	v, after := enter("close", f.Name(), false)
	delete(open, f)
	err := f.f.Close()
	after()
	if v == fail && err == nil {
		return ioErr("close", f.Name())
	}
	return err
}

func (f *File) Stat() (fi os.FileInfo, err error) {
	err = simple("fstat", f.Name(), false, func() (e error) { fi, e = f.f.Stat(); return e })
	return
}

func (f *File) Sync() error {
	return simple("sync", f.Name(), false, func() error {
		err := f.f.Sync()
		if err == nil {
			f.flushed()
		}
		return err
	})
}

// flushed tells the plan that what was written in the file will not be lost.
func (f *File) flushed() {
	op := Op{Name: "sync", Path: f.Name()}
	if fi, err := f.f.Stat(); err == nil {
		if st, ok := fi.Sys().(*syscall.Stat_t); ok {
			op.Inode = st.Ino
		}
	}
	seen(op)
}

func (f *File) Truncate(size int64) error {
	return simple("ftruncate", f.Name(), true, func() error { return f.f.Truncate(size) })
}

func (f *File) Chmod(mode os.FileMode) error {
	return simple("fchmod", f.Name(), true, func() error { return f.f.Chmod(mode) })
}

func (f *File) Chown(uid, gid int) error {
	return simple("fchown", f.Name(), true, func() error { return f.f.Chown(uid, gid) })
}

func (f *File) Seek(offset int64, whence int) (n int64, err error) {
	err = simple("seek", f.Name(), false, func() (e error) { n, e = f.f.Seek(offset, whence); return e })
	return
}

func (f *File) Read(b []byte) (int, error) {
	v, after := enter("read", f.Name(), false)
	switch v {
	case fail:
		return 0, ioErr("read", f.Name())
	case short: // a short read without error is what a reader must expect
		if len(b) > 1 {
			b = b[:(len(b)+1)/2]
		}
	}
	n, err := f.f.Read(b)
	after()
	return n, err
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	v, after := enter("pread", f.Name(), false)
	switch v {
	case fail:
		return 0, ioErr("read", f.Name())
	case short:
		n, _ := f.f.ReadAt(b[:len(b)/2], off)
		return n, ioErr("read", f.Name())
	}
	n, err := f.f.ReadAt(b, off)
	after()
	return n, err
}

func (f *File) put(name string, b []byte, fn func(b []byte) (int, error)) (int, error) {
	v, after := enter(name, f.Name(), true)
	switch v {
	case fail:
		return 0, noSpace("write", f.Name())
	case short:
		n, _ := fn(b[:len(b)/2])
		return n, noSpace("write", f.Name())
	case half:
		fn(b[:len(b)/2])
		crashNow()
	}
	n, err := fn(b)
	if err == nil {
		seen(Op{Name: name, Mutates: true, Path: f.Name()})
		if f.flushes {
			f.flushed()
		}
	}
	after()
	return n, err
}

func (f *File) Write(b []byte) (int, error) { return f.put("write", b, f.f.Write) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	return f.put("pwrite", b, func(b []byte) (int, error) { return f.f.WriteAt(b, off) })
}

func Exit(code int) { os.Exit(code) }
