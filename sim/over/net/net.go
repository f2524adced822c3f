// Package net replaces the standard package in simulated code: listening sockets of the simulated
// kernel; the pure value types are the real ones.
package net

import (
	"errors"
	"gevsim/core"
	"gevsim/kern"
	"gevsim/over/os"
	"gevsim/over/syscall"
	stdnet "net"
	"strconv"
	stdsys "syscall"
	"time"
)

type IP = stdnet.IP
type IPNet = stdnet.IPNet
type Addr = stdnet.Addr
type TCPAddr = stdnet.TCPAddr
type OpError = stdnet.OpError
type Error = stdnet.Error
type Conn = stdnet.Conn

var ErrClosed = stdnet.ErrClosed
var _ = syscall.Errno(0)

// Listener as in the standard package.
type Listener interface {
	Accept() (Conn, error)
	Close() error
	Addr() Addr
}

// TCPListener is a listening socket of the simulated kernel.
type TCPListener struct {
	fd     int
	l      *kern.Listener
	closed bool
}

// UnixListener is only opened and closed.
type UnixListener struct {
	fd     int
	closed bool
}

func (l *UnixListener) Accept() (Conn, error) {
	core.Abort("UnixListener.Accept is not simulated")
	return nil, nil
}
func (l *UnixListener) Addr() Addr { return &stdnet.UnixAddr{Name: "sock", Net: "unix"} }
func (l *UnixListener) Close() error {
	core.Point()
	if l.closed {
		return stdnet.ErrClosed
	}
	l.closed = true
	if e := kern.Close(l.fd); e != 0 {
		return e
	}
	return nil
}
func (l *UnixListener) File() (*os.File, error) {
	n, e := kern.Dup(l.fd)
	if e != 0 {
		return nil, &OpError{Op: "file", Net: "unix", Addr: l.Addr(), Err: e}
	}
	return os.NewFile(uintptr(n), "unix:sock"), nil
}

func opErr(op string, a Addr, e error) error {
	return &OpError{Op: op, Net: "tcp", Addr: a, Err: stdnet.ErrClosed}
}

func (l *TCPListener) Accept() (Conn, error) {
	core.Abort("net.Listener.Accept is not simulated")
	return nil, nil
}
func (l *TCPListener) Close() error {
	core.Point()
	if l == nil {
		return stdsys.EINVAL
	}
	if l.closed {
		return opErr("close", l.Addr(), nil)
	}
	l.closed = true
	if e := kern.Close(l.fd); e != 0 {
		return e
	}
	return nil
}
func (l *TCPListener) Addr() Addr {
	ip := l.l.IP
	if len(ip) == 0 {
		ip = stdnet.IPv6unspecified
	}
	return &TCPAddr{IP: ip, Port: l.l.Port}
}
func (l *TCPListener) SetDeadline(t time.Time) error { return nil }

// File duplicates the descriptor; as in Go the copy shares the description.
func (l *TCPListener) File() (*os.File, error) {
	if l.closed {
		return nil, opErr("file", l.Addr(), nil)
	}
	n, e := kern.Dup(l.fd)
	if e != 0 {
		return nil, &OpError{Op: "file", Net: "tcp", Addr: l.Addr(), Err: stdnet.UnknownNetworkError(e.Error())}
	}
	return os.NewFile(uintptr(n), "tcp:"+l.Addr().String()), nil
}

// ListenReuse is Listen with SO_REUSEPORT.
func ListenReuse(network, address string) (Listener, error) { return listen(network, address, true) }

// Listen listens on a simulated address.
func Listen(network, address string) (Listener, error) { return listen(network, address, false) }

func listen(network, address string, reuse bool) (Listener, error) {
	switch network {
	case "tcp", "tcp4", "tcp6":
	case "unix":
		fd, e := kern.NewPlain("unix listen")
		if e != 0 {
			return nil, &OpError{Op: "listen", Net: network, Err: e}
		}
		return &UnixListener{fd: fd}, nil
	default:
		return nil, &OpError{Op: "listen", Net: network, Err: stdnet.UnknownNetworkError(network)}
	}
	host, ps, err := stdnet.SplitHostPort(address)
	if err != nil {
		return nil, &OpError{Op: "listen", Net: network, Err: err}
	}
	port, err := strconv.Atoi(ps)
	if err != nil || port < 0 || port > 65535 {
		return nil, &OpError{Op: "listen", Net: network, Err: errors.New("invalid port " + ps)}
	}
	var ip IP
	if host == "localhost" {
		ip = stdnet.IPv4(127, 0, 0, 1)
	} else if host != "" {
		if ip = stdnet.ParseIP(host); ip == nil {
			return nil, &OpError{Op: "listen", Net: network, Err: &stdnet.DNSError{Err: "no such host", Name: host}}
		}
	}
	fd, l, e := kern.Listen(network, ip, port, reuse)
	if e != 0 {
		return nil, &OpError{Op: "listen", Net: network, Addr: &TCPAddr{IP: ip, Port: port}, Err: e}
	}
	return &TCPListener{fd: fd, l: l}, nil
}

// ListenTCP is Listen for resolved addresses.
func ListenTCP(network string, a *TCPAddr) (*TCPListener, error) {
	l, err := Listen(network, a.String())
	if err != nil {
		return nil, err
	}
	return l.(*TCPListener), nil
}

func JoinHostPort(h, p string) string                { return stdnet.JoinHostPort(h, p) }
func SplitHostPort(s string) (string, string, error) { return stdnet.SplitHostPort(s) }
func ParseIP(s string) IP                            { return stdnet.ParseIP(s) }
func IPv4(a, b, c, d byte) IP                        { return stdnet.IPv4(a, b, c, d) }
func ResolveTCPAddr(n, a string) (*TCPAddr, error)   { return stdnet.ResolveTCPAddr(n, a) }
