//go:build go1.22

package os

import real "os"

// Taken over unchanged.
const (
	DevNull           = real.DevNull
	ModeAppend        = real.ModeAppend
	ModeCharDevice    = real.ModeCharDevice
	ModeDevice        = real.ModeDevice
	ModeDir           = real.ModeDir
	ModeExclusive     = real.ModeExclusive
	ModeIrregular     = real.ModeIrregular
	ModeNamedPipe     = real.ModeNamedPipe
	ModePerm          = real.ModePerm
	ModeSetgid        = real.ModeSetgid
	ModeSetuid        = real.ModeSetuid
	ModeSocket        = real.ModeSocket
	ModeSticky        = real.ModeSticky
	ModeSymlink       = real.ModeSymlink
	ModeTemporary     = real.ModeTemporary
	ModeType          = real.ModeType
	O_APPEND          = real.O_APPEND
	O_CREATE          = real.O_CREATE
	O_EXCL            = real.O_EXCL
	O_RDONLY          = real.O_RDONLY
	O_RDWR            = real.O_RDWR
	O_SYNC            = real.O_SYNC
	O_TRUNC           = real.O_TRUNC
	O_WRONLY          = real.O_WRONLY
	PathListSeparator = real.PathListSeparator
	PathSeparator     = real.PathSeparator
	SEEK_CUR          = real.SEEK_CUR
	SEEK_END          = real.SEEK_END
	SEEK_SET          = real.SEEK_SET
)

// Taken over unchanged.
var (
	Args                = real.Args
	Clearenv            = real.Clearenv
	Environ             = real.Environ
	ErrClosed           = real.ErrClosed
	ErrDeadlineExceeded = real.ErrDeadlineExceeded
	ErrExist            = real.ErrExist
	ErrInvalid          = real.ErrInvalid
	ErrNoDeadline       = real.ErrNoDeadline
	ErrNoHandle         = real.ErrNoHandle
	ErrNotExist         = real.ErrNotExist
	ErrPermission       = real.ErrPermission
	ErrProcessDone      = real.ErrProcessDone
	Expand              = real.Expand
	ExpandEnv           = real.ExpandEnv
	FindProcess         = real.FindProcess
	Getegid             = real.Getegid
	Getenv              = real.Getenv
	Geteuid             = real.Geteuid
	Getgid              = real.Getgid
	Getgroups           = real.Getgroups
	Getpagesize         = real.Getpagesize
	Getpid              = real.Getpid
	Getppid             = real.Getppid
	Getuid              = real.Getuid
	Hostname            = real.Hostname
	Interrupt           = real.Interrupt
	IsExist             = real.IsExist
	IsNotExist          = real.IsNotExist
	IsPathSeparator     = real.IsPathSeparator
	IsPermission        = real.IsPermission
	IsTimeout           = real.IsTimeout
	Kill                = real.Kill
	LookupEnv           = real.LookupEnv
	NewSyscallError     = real.NewSyscallError
	Setenv              = real.Setenv
	Unsetenv            = real.Unsetenv
)

// Taken over unchanged.
type (
	DirEntry     = real.DirEntry
	FileInfo     = real.FileInfo
	FileMode     = real.FileMode
	LinkError    = real.LinkError
	PathError    = real.PathError
	ProcAttr     = real.ProcAttr
	Process      = real.Process
	ProcessState = real.ProcessState
	Signal       = real.Signal
	SyscallError = real.SyscallError
)
