// Package unix replaces golang.org/x/sys/unix in simulated code.
package unix

import (
	"gevsim/core"
	"gevsim/kern"
	"net"
	"syscall"
	"unsafe"
)

type Errno = syscall.Errno
type Signal = syscall.Signal
type EpollEvent = syscall.EpollEvent

type Sockaddr interface{ sockaddr() }
type SockaddrInet4 struct {
	Port int
	Addr [4]byte
	raw  [16]byte
}
type SockaddrInet6 struct {
	Port   int
	ZoneId uint32
	Addr   [16]byte
	raw    [28]byte
}
type SockaddrUnix struct{ Name string }

func (*SockaddrInet4) sockaddr() {}
func (*SockaddrInet6) sockaddr() {}
func (*SockaddrUnix) sockaddr()  {}

func er(e kern.Errno) error {
	if e == 0 {
		return nil
	}
	return e
}

// Addr converts an address as the kernel reports it for a listener of the given family.
func Addr(a *net.TCPAddr, v6 bool) Sockaddr {
	if ip4 := a.IP.To4(); ip4 != nil && !v6 {
		s := &SockaddrInet4{Port: a.Port}
		copy(s.Addr[:], ip4)
		return s
	}
	s := &SockaddrInet6{Port: a.Port}
	copy(s.Addr[:], a.IP.To16())
	return s
}

func Accept(fd int) (int, Sockaddr, error) { return accept(fd, false) }
func Accept4(fd int, flags int) (int, Sockaddr, error) {
	return accept(fd, flags&syscall.SOCK_NONBLOCK != 0)
}
func accept(fd int, nb bool) (int, Sockaddr, error) {
	n, s, l, e := kern.Accept(fd, nb)
	if e != 0 {
		return -1, nil, e
	}
	return n, Addr(s.Addr, l.V6), nil
}
func Close(fd int) error { return er(kern.Close(fd)) }
func Read(fd int, p []byte) (int, error) {
	core.RBuf(p, true, "read(2)")
	n, e := kern.Read(fd, p)
	return n, er(e)
}
func Write(fd int, p []byte) (int, error) {
	core.RBuf(p, false, "write(2)")
	n, e := kern.Write(fd, p)
	return n, er(e)
}
func Recvfrom(fd int, p []byte, flags int) (int, Sockaddr, error) {
	core.RBuf(p, true, "read(2)")
	n, e := kern.Read(fd, p)
	return n, nil, er(e)
}
func Sendto(fd int, p []byte, flags int, to Sockaddr) error {
	core.RBuf(p, false, "write(2)")
	_, e := kern.Write(fd, p)
	return er(e)
}
func SendmsgN(fd int, p, oob []byte, to Sockaddr, flags int) (int, error) {
	core.RBuf(p, false, "write(2)")
	n, e := kern.Write(fd, p)
	return n, er(e)
}
func Writev(fd int, iovs [][]byte) (int, error) {
	var all []byte
	for _, v := range iovs {
		all = append(all, v...)
	}
	n, e := kern.Write(fd, all)
	return n, er(e)
}
func Readv(fd int, iovs [][]byte) (int, error) {
	n := 0
	for _, v := range iovs {
		n += len(v)
	}
	b := make([]byte, n)
	r, e := kern.Read(fd, b)
	if r > 0 {
		b = b[:r]
		for _, v := range iovs {
			c := copy(v, b)
			b = b[c:]
		}
	}
	return r, er(e)
}
func Shutdown(fd, how int) error { return er(kern.Shutdown(fd, how)) }
func SetNonblock(fd int, nb bool) error {
	return er(kern.SetNonblock(fd, nb))
}
func Dup(fd int) (int, error) {
	n, e := kern.Dup(fd)
	return n, er(e)
}
func CloseOnExec(fd int) {}
func EpollCreate(size int) (int, error) {
	if size <= 0 {
		return -1, syscall.EINVAL
	}
	return EpollCreate1(0)
}
func EpollCreate1(flag int) (int, error) {
	n, e := kern.EpollCreate(flag)
	return n, er(e)
}
func EpollCtl(epfd, op, fd int, ev *EpollEvent) error { return er(kern.EpollCtl(epfd, op, fd, ev)) }
func EpollWait(epfd int, evs []EpollEvent, msec int) (int, error) {
	n, e := kern.EpollWait(epfd, evs, msec)
	return n, er(e)
}
func Eventfd(init uint, flags int) (int, error) {
	n, e := kern.Eventfd(init, flags)
	return n, er(e)
}
func FcntlInt(fd uintptr, cmd, arg int) (int, error) {
	switch cmd {
	case syscall.F_GETFL:
		n, e := kern.GetFlags(int(fd))
		return n, er(e)
	case syscall.F_SETFL:
		return 0, er(kern.SetNonblock(int(fd), arg&syscall.O_NONBLOCK != 0))
	case syscall.F_DUPFD, syscall.F_DUPFD_CLOEXEC:
		n, e := kern.Dup(int(fd))
		return n, er(e)
	}
	return 0, nil
}
func GetsockoptInt(fd, level, opt int) (int, error) {
	if opt == syscall.SO_ERROR {
		n, e := kern.SoError(fd)
		return n, er(e)
	}
	return 0, er(kern.Sockopt(fd))
}
func SetsockoptInt(fd, level, opt, v int) error { return er(kern.Sockopt(fd)) }
func SetsockoptByte(fd, level, opt int, v byte) error {
	return er(kern.Sockopt(fd))
}

type Linger = syscall.Linger
type Timeval = syscall.Timeval

func SetsockoptLinger(fd, level, opt int, l *Linger) error {
	return er(kern.Linger(fd, l.Onoff != 0 && l.Linger == 0))
}
func SetsockoptTimeval(fd, level, opt int, tv *Timeval) error { return er(kern.Sockopt(fd)) }

// Getpeername covers TCP sockets.
func Getpeername(fd int) (Sockaddr, error) {
	if e := kern.Sockopt(fd); e != 0 {
		return nil, e
	}
	if s := kern.FDSock(fd); s != nil {
		return Addr(s.Addr, s.V6()), nil
	}
	return nil, syscall.ENOTCONN
}

// Syscall covers the raw system calls gev uses.
func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
	switch trap {
	case syscall.SYS_EVENTFD2:
		n, e := kern.Eventfd(uint(a1), int(a2))
		return uintptr(n), 0, e
	case syscall.SYS_CLOSE:
		e := kern.Close(int(a1))
		return ret(0, e), 0, e
	case syscall.SYS_WRITE:
		n, e := kern.Write(int(a1), unsafe.Slice((*byte)(unsafe.Pointer(a2)), int(a3)))
		return ret(n, e), 0, e
	case syscall.SYS_READ:
		n, e := kern.Read(int(a1), unsafe.Slice((*byte)(unsafe.Pointer(a2)), int(a3)))
		return ret(n, e), 0, e
	case syscall.SYS_EPOLL_CREATE1:
		n, e := kern.EpollCreate(int(a1))
		return ret(n, e), 0, e
	case syscall.SYS_SHUTDOWN:
		e := kern.Shutdown(int(a1), int(a2))
		return ret(0, e), 0, e
	}
	core.Abort("unsupported raw system call")
	return ^uintptr(0), 0, syscall.ENOSYS
}
func RawSyscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
	return Syscall(trap, a1, a2, a3)
}
func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
	if trap == syscall.SYS_EPOLL_CTL {
		e := kern.EpollCtl(int(a1), int(a2), int(a3), (*EpollEvent)(unsafe.Pointer(a4)))
		return ret(0, e), 0, e
	}
	if trap == syscall.SYS_EPOLL_PWAIT || trap == syscall.SYS_EPOLL_WAIT {
		n, e := kern.EpollWait(int(a1), unsafe.Slice((*EpollEvent)(unsafe.Pointer(a2)), int(a3)), int(int32(a4)))
		return ret(n, e), 0, e
	}
	return Syscall(trap, a1, a2, a3)
}
func RawSyscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
	return Syscall6(trap, a1, a2, a3, a4, a5, a6)
}
func ret(n int, e Errno) uintptr {
	if e != 0 {
		return ^uintptr(0)
	}
	return uintptr(n)
}
