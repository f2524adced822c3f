// Package syscall replaces the standard package in simulated code.
package syscall

import (
	"gevsim/over/unix"
	stdsys "syscall"
)

type Errno = stdsys.Errno
type Signal = stdsys.Signal
type EpollEvent = stdsys.EpollEvent
type Sockaddr = unix.Sockaddr
type SockaddrInet4 = unix.SockaddrInet4
type SockaddrInet6 = unix.SockaddrInet6
type SockaddrUnix = unix.SockaddrUnix

// Conn and RawConn as in the standard package.
type Conn = stdsys.Conn
type RawConn = stdsys.RawConn

func Accept(fd int) (int, Sockaddr, error)             { return unix.Accept(fd) }
func Accept4(fd int, flags int) (int, Sockaddr, error) { return unix.Accept4(fd, flags) }
func Close(fd int) error                               { return unix.Close(fd) }
func Read(fd int, p []byte) (int, error)               { return unix.Read(fd, p) }
func Write(fd int, p []byte) (int, error)              { return unix.Write(fd, p) }
func Shutdown(fd, how int) error                       { return unix.Shutdown(fd, how) }
func SetNonblock(fd int, nb bool) error                { return unix.SetNonblock(fd, nb) }
func Dup(fd int) (int, error)                          { return unix.Dup(fd) }
func CloseOnExec(fd int)                               {}
func EpollCreate(size int) (int, error)                { return unix.EpollCreate1(0) }
func EpollCreate1(flag int) (int, error)               { return unix.EpollCreate1(flag) }
func EpollCtl(epfd, op, fd int, ev *EpollEvent) error  { return unix.EpollCtl(epfd, op, fd, ev) }
func EpollWait(epfd int, ev []EpollEvent, ms int) (int, error) {
	return unix.EpollWait(epfd, ev, ms)
}
func GetsockoptInt(fd, level, opt int) (int, error) { return unix.GetsockoptInt(fd, level, opt) }
func SetsockoptInt(fd, level, opt, v int) error     { return unix.SetsockoptInt(fd, level, opt, v) }
func Getenv(k string) (string, bool)                { return "", false }
func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
	return unix.Syscall(trap, a1, a2, a3)
}
func RawSyscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
	return unix.Syscall(trap, a1, a2, a3)
}
func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
	return unix.Syscall6(trap, a1, a2, a3, a4, a5, a6)
}
