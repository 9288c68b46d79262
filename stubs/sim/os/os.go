//go:build go1.22

// Package os works on the simulated world.
package os

import (
	"errors"
	"io"
	"io/fs"
	real "os"
	"strings"
	"syscall"
	"time"

	"verif.local/sim/world"
)

func init() {
	world.LinkError = func(op, from, to string, err error) error {
		return &real.LinkError{Op: op, Old: from, New: to, Err: err}
	}
}

// File is a simulated file or a real standard stream.
type File struct {
	real *real.File
	h    *world.Handle
	list []fs.DirEntry
	read bool
}

var (
	Stdin  = &File{real: real.Stdin}
	Stdout = &File{real: real.Stdout}
	Stderr = &File{real: real.Stderr}
)

var errUnsupported = errors.New("not simulated")

func wrap(h *world.Handle, err error) (*File, error) {
	if err != nil {
		return nil, err
	}

	return &File{h: h}, nil
}

func (f *File) Name() string {
	if f.real != nil {
		return f.real.Name()
	}

	return f.h.Name()
}

func (f *File) Fd() uintptr { return 99 }

func (f *File) Read(p []byte) (int, error) {
	if f == nil {
		return 0, fs.ErrInvalid
	}

	if f.real != nil {
		return f.real.Read(p)
	}

	return f.h.Read(p)
}

func (f *File) Write(p []byte) (int, error) {
	if f == nil {
		return 0, fs.ErrInvalid
	}

	if f.real != nil {
		return f.real.Write(p)
	}

	return f.h.Write(p)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// plain hides everything but reading and writing.
type plain struct{ io.ReadWriter }

func (f *File) ReadFrom(r io.Reader) (int64, error) { return io.Copy(plain{f}, r) }
func (f *File) WriteTo(w io.Writer) (int64, error)  { return io.Copy(w, plain{f}) }

func (f *File) ReadAt(p []byte, off int64) (int, error)  { return f.h.ReadAt(p, off) }
func (f *File) WriteAt(p []byte, off int64) (int, error) { return f.h.WriteAt(p, off) }
func (f *File) Seek(off int64, whence int) (int64, error) {
	if f == nil {
		return 0, fs.ErrInvalid
	}

	return f.h.Seek(off, whence)
}
func (f *File) Truncate(size int64) error     { return f.h.Truncate(size) }
func (f *File) Sync() error                   { return f.h.Sync() }
func (f *File) Stat() (fs.FileInfo, error)    { return f.h.Stat() }
func (f *File) Chmod(perm fs.FileMode) error  { return f.h.Chmod(perm) }
func (f *File) Chdir() error                  { return Chdir(f.h.Path()) }
func (f *File) SetDeadline(_ time.Time) error { return ErrNoDeadline }
func (f *File) Close() error {
	if f == nil {
		return fs.ErrInvalid
	}

	if f.real != nil {
		return nil
	}

	return f.h.Close()
}

func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	if !f.read {
		list, err := world.Current().ReadDir(f.h.Path())
		if err != nil {
			return nil, err
		}

		f.list, f.read = list, true
	}

	res := f.list
	if n > 0 {
		if len(res) == 0 {
			return nil, io.EOF
		}

		res = res[:min(n, len(res))]
	}

	f.list = f.list[len(res):]

	return res, nil
}

func (f *File) Readdir(n int) (res []fs.FileInfo, err error) {
	list, err := f.ReadDir(n)
	for _, e := range list {
		if info, infoErr := e.Info(); infoErr == nil {
			res = append(res, info)
		}
	}

	return res, err
}

func (f *File) Readdirnames(n int) (res []string, err error) {
	list, err := f.ReadDir(n)
	for _, e := range list {
		res = append(res, e.Name())
	}

	return res, err
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	return wrap(world.Current().OpenFile(name, flag, perm))
}
func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666) }

func Stat(name string) (FileInfo, error)        { return world.Current().Stat(name) }
func Lstat(name string) (FileInfo, error)       { return world.Current().Stat(name) }
func Mkdir(name string, perm FileMode) error    { return world.Current().Mkdir(name, perm) }
func MkdirAll(name string, perm FileMode) error { return world.Current().MkdirAll(name, perm) }
func Remove(name string) error                  { return world.Current().Remove(name) }
func RemoveAll(name string) error               { return world.Current().RemoveAll(name) }
func Rename(from, to string) error              { return world.Current().Rename(from, to) }
func Chtimes(name string, a, m time.Time) error { return world.Current().Chtimes(name, a, m) }
func Chmod(name string, perm FileMode) error    { return world.Current().Chmod(name, perm) }
func Chown(name string, _, _ int) error         { _, err := Stat(name); return err }
func Lchown(name string, _, _ int) error        { _, err := Stat(name); return err }
func Truncate(name string, size int64) error    { return world.Current().Truncate(name, size) }
func ReadDir(name string) ([]DirEntry, error)   { return world.Current().ReadDir(name) }
func Chdir(name string) error                   { return world.Current().Chdir(name) }
func Getwd() (string, error)                    { return world.Current().Cwd, nil }
func TempDir() string                           { return "/tmp" }
func UserHomeDir() (string, error)              { return "/root", nil }
func UserCacheDir() (string, error)             { return "/root/.cache", nil }
func UserConfigDir() (string, error)            { return "/root/.config", nil }
func Executable() (string, error)               { return "/usr/bin/program", nil }
func Exit(code int)                             { world.Current().Exit(code) }
func Link(from, to string) error                { return &LinkError{"link", from, to, errUnsupported} }
func Symlink(from, to string) error             { return &LinkError{"symlink", from, to, errUnsupported} }
func Readlink(name string) (string, error) {
	return "", &PathError{Op: "readlink", Path: name, Err: syscall.EINVAL}
}
func Pipe() (*File, *File, error)       { return nil, nil, errUnsupported }
func NewFile(_ uintptr, _ string) *File { return nil }
func OpenInRoot(dir, name string) (*File, error) {
	return Open(strings.TrimSuffix(dir, "/") + "/" + name)
}
func CopyFS(_ string, _ fs.FS) error                             { return errUnsupported }
func StartProcess(string, []string, *ProcAttr) (*Process, error) { return nil, errUnsupported }

func SameFile(a, b FileInfo) bool {
	x, okX := a.(*world.Info)
	y, okY := b.(*world.Info)

	return okX && okY && x.Sys() == y.Sys()
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}

	defer func() { _ = f.Close() }()

	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}

	_, err = f.Write(data)
	if closeErr := f.Close(); closeErr != nil && err == nil {
		err = closeErr
	}

	return err
}

func CreateTemp(dir, pattern string) (*File, error) {
	for {
		if f, err := OpenFile(world.Current().TempName(dir, pattern), O_RDWR|O_CREATE|O_EXCL, 0o600); !errors.Is(err, fs.ErrExist) {
			return f, err
		}
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	name := world.Current().TempName(dir, pattern)
	return name, Mkdir(name, 0o700)
}

type dirFS string

func (d dirFS) Open(name string) (fs.File, error) { return Open(string(d) + "/" + name) }

func DirFS(dir string) fs.FS { return dirFS(dir) }
