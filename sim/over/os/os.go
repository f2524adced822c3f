// Package os replaces the standard package in simulated code.
package os

import (
	"gevsim/core"
	"gevsim/kern"
	stdos "os"
)

var (
	Stdout = stdos.Stderr
	Stderr = stdos.Stderr
	Args   = []string{"sim"}
)

// File is an open descriptor of the simulated kernel.
type File struct {
	fd   int
	name string
	done bool
}

// NewFile wraps a descriptor.
func NewFile(fd uintptr, name string) *File { return &File{fd: int(fd), name: name} }

// Fd returns the descriptor; like the real one it puts the description in blocking mode.
func (f *File) Fd() uintptr {
	if f == nil || f.done {
		return ^uintptr(0)
	}
	kern.SetNonblockQuiet(f.fd, false)
	return uintptr(f.fd)
}

// Name returns the name given to NewFile.
func (f *File) Name() string { return f.name }

// Close closes the descriptor.
func (f *File) Close() error {
	if f == nil {
		return stdos.ErrInvalid
	}
	core.Point()
	if f.done {
		return &stdos.PathError{Op: "close", Path: f.name, Err: stdos.ErrClosed}
	}
	f.done = true
	if e := kern.Close(f.fd); e != 0 {
		return &stdos.PathError{Op: "close", Path: f.name, Err: e}
	}
	return nil
}

func Getenv(string) string            { return "" }
func LookupEnv(string) (string, bool) { return "", false }
func Exit(code int)                   { core.FailNow("crash", "os.Exit(%d)", code); core.Park("exit") }
func Getpid() int                     { return 1000 }
func Hostname() (string, error)       { return "sim", nil }
func NewSyscallError(s string, err error) error {
	return stdos.NewSyscallError(s, err)
}
