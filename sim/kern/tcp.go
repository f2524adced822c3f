package kern

import (
	"fmt"
	"net"
	"syscall"

	"gevsim/core"
)

// Listener is a listening socket.
type Listener struct {
	IP      net.IP
	Port    int
	Any     bool
	V6      bool // socket family
	reuse   bool
	queue   []*Sock
	backlog int
	o       *ofd
	closed  bool
}

// Sock is the server end of a connection.
type Sock struct {
	conn    *Conn
	o       *ofd
	rcv     []byte
	rcvCap  int
	fin     bool // FIN received
	dead    bool // RST received or sent: state CLOSE
	err     Errno
	shutWr  bool
	linger0 bool
	aborted bool // reset by its own close
	v6      bool
	shutRd  bool
	snd     []byte
	flight  int // bytes at the head of snd that are on the wire
	sndCap  int
	tight   bool // memory pressure: no room until something is acknowledged
	closed  bool // descriptor closed
	finAck  bool // it got there
	finOut  bool // FIN handed to the wire
	noSpace bool // somebody was told there is no room in snd
	wireQ   []seg
	nextAt  int64 // earliest arrival of the next s2c segment

	ReadTotal  int64
	WriteTotal int64
	ReadAt     int64 // time of the last read that returned data
	WriteAt    int64 // time of the last write that took data
	Blocked    int   // writes that were refused or cut
	Injected   int   // injected errors
	EPipe      int   // writes after the write side was shut down
	fault      string
	Addr       *net.TCPAddr
	FD         int
}

type seg struct {
	data []byte
	fin  bool
	rst  bool
}

// Conn is one TCP connection between a client and the server.
type Conn struct {
	ID          int
	Srv         *Sock
	Cl          *Client
	Port        int
	IP          net.IP
	c2sAt       int64
	downUntil   int64
	black       bool
	Accepted    bool
	AcceptFD    int
	AcceptSeq   int // order in which connections were accepted
	AcceptAt    int64
	Failed      bool // an injected accept, fcntl or epoll_ctl failure hit this connection
	Unreg       bool // it was the epoll_ctl
	Established bool
	FDClosed    bool
	OnFDClose   []func() // called soon after the server closed the descriptor
	sName       [8]string
}

// Client is the peer end, driven by the harness.
type Client struct {
	C         *Conn
	rb        []byte // received by the client kernel, unread by the client application
	win       int
	Reading   bool
	Chunk     int   // bytes per application read, 0 = all
	Delay     int64 // between reads
	closed    bool
	wrClosed  bool
	finIn     bool
	rstIn     bool
	rdEv      core.Event
	rdArmed   bool
	OnConn    func()
	OnRefuse  func()
	OnData    func(p []byte)
	OnEOF     func()
	OnReset   func()
	eofTold   bool
	Got       int64
	SentAll   int64 // bytes handed to the client kernel
	Arrived   int64 // bytes that reached the server kernel
	out       int64
	ArrivedAt int64 // time of the last arrival of data at the server kernel
}

// Conns lists all connections of the run.
func Conns() []*Conn { return k.conns }

// Listen binds and listens.
func Listen(network string, ip net.IP, port int, reuse bool) (int, *Listener, Errno) {
	enter()
	if e := acquire("listen"); e != 0 {
		return -1, nil, e
	}
	l := &Listener{IP: ip, Port: port, reuse: reuse, backlog: 4096}
	l.Any = len(ip) == 0 || ip.IsUnspecified()
	l.V6 = (len(ip) == 0 && network != "tcp4") || (len(ip) > 0 && ip.To4() == nil)
	if port == 0 {
		l.Port = 30000
		for busy(l) {
			l.Port++
		}
	} else if busy(l) {
		return -1, nil, syscall.EADDRINUSE
	}
	o := &ofd{kind: kListen, lis: l, nonblock: true, origin: "listen"}
	l.o = o
	fd, e := alloc(o)
	if e != 0 {
		return -1, nil, e
	}
	k.listeners = append(k.listeners, l)
	core.Logf("listen(%v:%d) = %d", ip, l.Port, fd)
	return fd, l, 0
}

func busy(l *Listener) bool {
	for _, x := range k.listeners {
		if x.closed || x.Port != l.Port {
			continue
		}
		if !(x.Any || l.Any || x.IP.Equal(l.IP)) {
			continue
		}
		if x.reuse && l.reuse {
			continue
		}
		return true
	}
	return false
}

// Listening tells whether anything accepts connections on the port.
func Listening(port int) bool {
	for _, l := range k.listeners {
		if !l.closed && l.Port == port {
			return true
		}
	}
	return false
}

// ListenerOf returns the listener behind a descriptor.
func ListenerOf(fd int) *Listener {
	if o := get(fd); o != nil && o.kind == kListen {
		return o.lis
	}
	return nil
}

func (l *Listener) close() {
	l.closed = true
	for _, s := range l.queue {
		s.closed = true
		s.sendRst()
	}
	l.queue = nil
}

// Accept is accept(2).
func Accept(fd int, nonblock bool) (int, *Sock, *Listener, Errno) {
	enter()
	o := get(fd)
	if o == nil {
		return -1, nil, nil, syscall.EBADF
	}
	if o.kind != kListen {
		if o.kind == kSock {
			return -1, nil, nil, syscall.EINVAL
		}
		return -1, nil, nil, syscall.ENOTSOCK
	}
	l := o.lis
	for len(l.queue) == 0 {
		if o.nonblock {
			return -1, nil, nil, syscall.EAGAIN
		}
		o.wait("accept")
	}
	if v := core.Choose("accept", rate(k.F.AcceptErr), 12); v > 0 {
		e := []Errno{0, syscall.ECONNABORTED, syscall.EMFILE, syscall.ENFILE, syscall.ENOMEM, syscall.EINTR, syscall.EAGAIN, syscall.ENOBUFS, syscall.EPROTO, syscall.EPERM, syscall.ENETDOWN, syscall.EHOSTUNREACH}[v]
		core.Count("fault.accept_" + e.Error())
		if e == syscall.EAGAIN && !o.nonblock {
			// the connection is gone before it is accepted: a blocking call waits for the next one
			s := l.queue[0]
			l.queue = l.queue[1:]
			s.closed = true
			s.conn.Failed = true
			s.sendRst()
			for len(l.queue) == 0 {
				o.wait("accept")
			}
		} else if e == syscall.ECONNABORTED || v > 7 {
			s := l.queue[0]
			l.queue = l.queue[1:]
			s.closed = true
			s.conn.Failed = true
			s.sendRst()
		}
		if e != syscall.EAGAIN || o.nonblock {
			core.Logf("accept(%d) = %v (injected)", fd, e)
			return -1, nil, nil, e
		}
	}
	s := l.queue[0]
	no := &ofd{kind: kSock, sock: s, origin: fmt.Sprintf("conn %d", s.conn.ID), nonblock: nonblock}
	nfd, e := alloc(no)
	if e != 0 {
		core.Count("fault.accept_emfile_table")
		core.Logf("accept(%d) = %v (table full)", fd, e)
		return -1, nil, nil, e
	}
	l.queue = l.queue[1:]
	s.o = no
	s.FD = nfd
	s.v6 = l.V6
	s.conn.Accepted = true
	s.conn.AcceptFD = nfd
	k.accepted++
	s.conn.AcceptSeq = k.accepted
	s.conn.AcceptAt = core.Now()
	core.Logf("accept(%d) = %d conn %d", fd, nfd, s.conn.ID)
	core.Productive()
	core.Point()
	return nfd, s, l, 0
}

// Aborted tells whether closing the socket reset the connection.
func (s *Sock) Aborted() bool { return s.aborted }

// V6 tells the address family of the socket.
func (s *Sock) V6() bool { return s.v6 }

// Conn of a server socket.
func (s *Sock) Conn() *Conn { return s.conn }

func (s *Sock) mask() uint32 {
	var m uint32
	rd := s.fin || s.dead || s.shutRd
	if (rd && (s.shutWr || s.dead)) || s.dead {
		m |= syscall.EPOLLHUP
	}
	if rd {
		m |= syscall.EPOLLIN | syscall.EPOLLRDHUP
	}
	if len(s.rcv) > 0 {
		m |= syscall.EPOLLIN
	}
	if s.shutWr || s.dead {
		m |= syscall.EPOLLOUT
	} else if s.writable() {
		m |= syscall.EPOLLOUT
	} else {
		s.noSpace = true
	}
	if s.err != 0 {
		m |= syscall.EPOLLERR
	}
	return m
}

func (s *Sock) read(o *ofd, p []byte) (int, Errno) {
	for {
		if len(s.rcv) > 0 {
			break
		}
		if s.fin {
			return 0, 0
		}
		if s.err != 0 {
			e := s.err
			s.err = 0
			return -1, e
		}
		if s.dead || s.shutRd {
			return 0, 0
		}
		if o.nonblock {
			return -1, syscall.EAGAIN
		}
		core.Count("probe.blocking_read")
		o.wait("read(socket)")
	}
	if len(p) == 0 {
		return 0, 0
	}
	if o.nonblock && core.Flip(s.conn.sName[0], rate(k.F.ReadAgain)) {
		core.Count("fault.read_eagain")
		return -1, syscall.EAGAIN
	}
	if v := core.Choose(s.conn.sName[1], rate(k.F.ReadErr), 7); v > 0 {
		e := []Errno{0, syscall.ETIMEDOUT, syscall.ECONNRESET, syscall.EHOSTUNREACH, syscall.ENETUNREACH, syscall.ENOMEM, syscall.EIO}[v]
		core.Count("fault.read_error")
		s.Injected++
		s.fail(0)
		return -1, e
	}
	n := copy(p, s.rcv)
	if v := int(core.Choose(s.conn.sName[2], rate(k.F.ShortRead), int64(n))); v > 0 {
		core.Count("fault.short_read")
		n = v
	}
	s.rcv = s.rcv[n:]
	s.ReadTotal += int64(n)
	s.ReadAt = core.Now()
	if len(s.rcv) == 0 {
		s.rcv = nil
	}
	s.conn.drainWire()
	return n, 0
}

func (s *Sock) write(o *ofd, p []byte) (int, Errno) {
	for {
		if s.err != 0 {
			e := s.err
			s.err = 0
			return -1, e
		}
		if s.shutWr || s.dead {
			if !s.dead {
				s.EPipe++
			}
			return -1, syscall.EPIPE
		}
		if len(p) == 0 {
			return 0, 0
		}
		if len(s.snd) < s.sndCap && !s.tight {
			break
		}
		if o.nonblock {
			core.Count("probe.sndbuf_full")
			s.Blocked++
			s.noSpace = true
			return -1, syscall.EAGAIN
		}
		core.Count("probe.blocking_write")
		s.noSpace = true
		o.wait("write(socket)")
	}
	if o.nonblock && core.Flip(s.conn.sName[3], rate(k.F.WriteAgain)) {
		core.Count("fault.write_eagain")
		s.Blocked++
		return -1, syscall.EAGAIN
	}
	if v := core.Choose(s.conn.sName[4], rate(k.F.WriteErr), 7); v > 0 {
		e := []Errno{0, syscall.ETIMEDOUT, syscall.ECONNRESET, syscall.EHOSTUNREACH, syscall.ENETUNREACH, syscall.ENOBUFS, syscall.EPIPE}[v]
		core.Count("fault.write_error")
		s.Injected++
		s.fail(0)
		return -1, e
	}
	n := min(len(p), s.sndCap-len(s.snd))
	if n < len(p) {
		core.Count("probe.partial_write")
	}
	if !o.nonblock {
		return s.writeAll(o, p)
	}
	if v := int(core.Choose(s.conn.sName[5], rate(k.F.ShortWrite), int64(n))); v > 0 {
		core.Count("fault.short_write")
		n = v
	}
	s.snd = append(s.snd, p[:n]...)
	s.WriteTotal += int64(n)
	s.WriteAt = core.Now()
	if n < len(p) {
		s.Blocked++
		s.noSpace = true
	} else if core.Flip(s.conn.sName[3], rate(k.F.WriteAgain)/2) {
		core.Count("fault.memory_pressure")
		s.tight = true
	}
	s.pump()
	return n, 0
}

// writeAll is write on a blocking descriptor.
func (s *Sock) writeAll(o *ofd, p []byte) (int, Errno) {
	done := 0
	for done < len(p) {
		if s.err != 0 || s.shutWr || s.dead {
			if done > 0 {
				break
			}
			return -1, syscall.EPIPE
		}
		n := min(len(p)-done, s.sndCap-len(s.snd))
		if n == 0 {
			core.Count("probe.blocking_write")
			s.noSpace = true
			o.wait("write(socket)")
			continue
		}
		s.snd = append(s.snd, p[done:done+n]...)
		s.WriteTotal += int64(n)
		s.WriteAt = core.Now()
		done += n
		s.pump()
	}
	return done, 0
}

// fail kills the connection with a local error; the peer sees a reset.
func (s *Sock) fail(e Errno) {
	s.err = e
	s.dead = true
	s.snd = nil
	s.flight = 0
	s.rstToClient()
	s.o.notify(0)
}

func (s *Sock) shutdown(how int) Errno {
	if s.dead || s.fin && s.finAck {
		s.o.notify(0)
		return syscall.ENOTCONN
	}
	if how == syscall.SHUT_WR || how == syscall.SHUT_RDWR {
		s.shutWr = true
		s.pump()
	}
	if how == syscall.SHUT_RD || how == syscall.SHUT_RDWR {
		s.shutRd = true
	}
	s.o.notify(0)
	return 0
}

// close is called when the last descriptor is gone.
func (s *Sock) close() {
	s.closed = true
	s.conn.FDClosed = true
	for _, f := range s.conn.OnFDClose {
		core.After(0, f)
	}
	if s.dead {
		return
	}
	if len(s.rcv) > 0 || s.linger0 {
		core.Count("probe.close_with_unread_data")
		s.aborted = true
		s.sendRst()
		return
	}
	s.shutWr = true
	s.pump()
}

func (s *Sock) sendRst() {
	if s.dead {
		return
	}
	s.dead = true
	s.snd = nil
	s.flight = 0
	s.rcv = nil
	s.rstToClient()
}

func (c *Conn) lat(dir int) int64 {
	d := 15 * core.US
	if k.On && k.F.Latency > 0 {
		m := int64(k.F.LatencyMax)
		if m <= 0 {
			m = 2000
		}
		if v := core.Choose(c.sName[6+dir], k.F.Latency, m); v > 0 {
			core.Count("fault.latency")
			d += v * core.US
		}
	}
	return d
}

func (c *Conn) arrival(dir int) int64 {
	at := core.Now() + c.lat(dir)
	if at < c.downUntil {
		at = c.downUntil + 1
	}
	return at
}

// pump moves output of the server onto the wire.
func (s *Sock) pump() {
	cl := s.conn.Cl
	for s.flight < len(s.snd) {
		room := cl.win - len(cl.rb) - s.flight
		if cl.closed {
			room = 1 << 30 // data will be answered by a reset
		}
		if room <= 0 {
			return
		}
		n := min(room, len(s.snd)-s.flight, 65536)
		if v := int(core.Choose("cut", rate(k.F.Coalesce), int64(n))); v > 0 {
			core.Count("fault.out_segment_cut")
			n = v
		}
		s.flight += n
		at := max(s.conn.arrival(1), s.nextAt)
		s.nextAt = at
		core.At(at, func() { s.arrive(n) })
	}
	if s.shutWr && !s.finOut && len(s.snd) == s.flight {
		s.finOut = true
		at := max(s.conn.arrival(1), s.nextAt)
		s.nextAt = at
		core.At(at, func() {
			if s.conn.black {
				return
			}
			s.finAck = true
			cl.finIn = true
			cl.poke()
			if s.o != nil {
				s.o.notify(0)
			}
		})
	}
}

func (s *Sock) arrive(n int) {
	if s.dead || s.conn.black {
		return
	}
	cl := s.conn.Cl
	data := s.snd[:n:n]
	s.snd = s.snd[n:]
	s.flight -= n
	s.tight = false
	if len(s.snd) == 0 {
		s.snd = nil
	}
	if cl.closed {
		// the client is gone: reset
		s.conn.c2s(seg{rst: true})
		return
	}
	cl.rb = append(cl.rb, data...)
	cl.poke()
	s.pump()
	s.space()
}

// space tells waiting writers about room in the send buffer, if any was refused it.
func (s *Sock) space() {
	if s.noSpace && s.writable() {
		s.noSpace = false
		s.o.notify(syscall.EPOLLOUT)
	}
}

func (s *Sock) writable() bool { return !s.tight && s.sndCap-len(s.snd) >= (s.sndCap+2)/3 }

func (s *Sock) rstToClient() {
	cl := s.conn.Cl
	at := max(s.conn.arrival(1), s.nextAt)
	s.nextAt = at
	core.At(at, func() {
		if s.conn.black {
			return
		}
		cl.rstIn = true
		cl.poke()
	})
}

// ---- client side ----

// Dial starts a connection attempt from the harness. v6 selects an IPv6 client address.
func Dial(port int, v6 bool, sndCap, rcvCap, win int) *Client {
	id := len(k.conns)
	c := &Conn{ID: id, Port: k.nextPort}
	k.nextPort++
	if v6 {
		c.IP = net.ParseIP(fmt.Sprintf("fd00::%x", id+1))
	} else {
		c.IP = net.IPv4(10, 0, byte(id>>8), byte(id)).To4()
	}
	for i, n := range []string{"ra", "re", "sr", "wa", "we", "sw", "l0", "l1"} {
		c.sName[i] = n + itoa(id)
	}
	cl := &Client{C: c, win: win, Reading: true}
	c.Cl = cl
	c.Srv = &Sock{conn: c, rcvCap: rcvCap, sndCap: sndCap, FD: -1}
	c.Srv.Addr = &net.TCPAddr{IP: c.IP, Port: c.Port}
	k.conns = append(k.conns, c)
	c.dial(port, 0)
	return cl
}

func (c *Conn) dial(port int, try int) {
	at := max(c.arrival(0), c.c2sAt)
	c.c2sAt = at
	core.At(at, func() {
		if c.Cl.closed {
			return
		}
		var ls []*Listener
		for _, l := range k.listeners {
			if !l.closed && l.Port == port && (l.V6 || c.IP.To4() != nil) {
				ls = append(ls, l)
			}
		}
		if len(ls) == 0 {
			core.After(20*core.US, func() {
				if c.Cl.OnRefuse != nil {
					c.Cl.OnRefuse()
				}
			})
			return
		}
		l := ls[0]
		if len(ls) > 1 {
			l = ls[int(core.Choose("reuseport", 1000, int64(len(ls))))]
		}
		if len(l.queue) >= l.backlog {
			core.Count("probe.backlog_full")
			if try < 20 {
				core.After(core.Sec, func() { c.dial(port, try+1) })
			}
			return
		}
		c.Established = true
		l.queue = append(l.queue, c.Srv)
		l.o.notify(syscall.EPOLLIN)
		core.After(15*core.US, func() {
			if c.Cl.OnConn != nil && !c.Cl.closed {
				c.Cl.OnConn()
			}
		})
	})
}

// Addr is what the server must report as the peer address.
func (c *Conn) Addr() string { return net.JoinHostPort(c.IP.String(), fmt.Sprint(c.Port)) }

// c2s puts a segment on the wire towards the server.
func (c *Conn) c2s(g seg) {
	at := max(c.arrival(0), c.c2sAt)
	c.c2sAt = at
	core.At(at, func() {
		if c.black {
			return
		}
		if g.rst {
			c.Srv.gotRst()
			return
		}
		c.Srv.wireQ = append(c.Srv.wireQ, g)
		c.drainWire()
	})
}

func (s *Sock) gotRst() {
	if s.dead || s.fin && s.finAck {
		return
	}
	s.wireQ = nil
	s.dead = true
	if !s.closed {
		s.err = syscall.ECONNRESET
		if s.fin && !s.shutWr {
			s.err = syscall.EPIPE
		}
	}
	s.snd = nil
	s.flight = 0
	s.o.notify(0)
}

// drainWire moves arrived segments into the receive buffer as far as it has room.
func (c *Conn) drainWire() {
	s := c.Srv
	var key uint32
	all := false
	for len(s.wireQ) > 0 && !s.dead {
		g := &s.wireQ[0]
		if len(g.data) > 0 {
			if s.closed || s.shutRd {
				// data for a closed socket: reset
				s.wireQ = nil
				if s.closed {
					core.Count("probe.data_after_close")
					s.sendRst()
				}
				return
			}
			room := s.rcvCap - len(s.rcv)
			if room <= 0 {
				core.Count("probe.rcvbuf_full")
				break
			}
			n := min(room, len(g.data))
			s.rcv = append(s.rcv, g.data[:n]...)
			g.data = g.data[n:]
			c.Cl.Arrived += int64(n)
			c.Cl.ArrivedAt = core.Now()
			key |= syscall.EPOLLIN
			if len(g.data) > 0 {
				break
			}
		}
		if g.fin && len(g.data) == 0 {
			s.fin = true
			all = true
		}
		s.wireQ = s.wireQ[1:]
	}
	if all {
		s.o.notify(0)
	} else if key != 0 {
		s.o.notify(key)
	}
}

// Write sends one segment of data to the server.
func (cl *Client) Write(p []byte) {
	if cl.closed || cl.wrClosed || cl.rstIn {
		return
	}
	cl.SentAll += int64(len(p))
	cl.C.c2s(seg{data: append([]byte(nil), p...)})
}

// CloseWrite half-closes.
func (cl *Client) CloseWrite() {
	if cl.closed || cl.wrClosed || cl.rstIn {
		return
	}
	cl.wrClosed = true
	cl.C.c2s(seg{fin: true})
}

// Close closes the client socket: FIN, or RST if it has unread data.
func (cl *Client) Close() {
	if cl.closed {
		return
	}
	unread := len(cl.rb) > 0
	cl.closed = true
	cl.rb = nil
	if cl.rstIn {
		return
	}
	if unread {
		cl.C.c2s(seg{rst: true})
	} else if !cl.wrClosed {
		cl.wrClosed = true
		cl.C.c2s(seg{fin: true})
	}
	cl.C.Srv.pump()
}

// Reset aborts the connection.
func (cl *Client) Reset() {
	if cl.closed {
		return
	}
	cl.closed = true
	cl.rb = nil
	if cl.rstIn {
		return
	}
	cl.C.c2s(seg{rst: true})
}

// Vanish makes the peer unreachable for ever, silently.
func (cl *Client) Vanish() { cl.C.black = true }

// Partition delays everything on this connection for d.
func (cl *Client) Partition(d int64) {
	cl.C.downUntil = core.Now() + d
	core.Count("fault.partition")
}

// SetReading starts or stops the client application's reads.
func (cl *Client) SetReading(on bool) {
	cl.Reading = on
	if on {
		cl.poke()
	}
}

// Closed tells whether the client has closed its end.
func (cl *Client) Closed() bool { return cl.closed }

// EOF tells whether end-of-stream has been delivered to the client application.
func (cl *Client) EOF() bool { return cl.eofTold }

// GotReset tells whether the client saw a reset.
func (cl *Client) GotReset() bool { return cl.rstIn }

// poke lets the client application read.
func (cl *Client) poke() {
	if cl.closed || cl.rdArmed {
		return
	}
	if !cl.Reading && !cl.rstIn {
		return
	}
	if len(cl.rb) == 0 && !cl.finIn && !cl.rstIn {
		return
	}
	cl.rdArmed = true
	d := cl.Delay
	core.After(d+1, func() {
		cl.rdArmed = false
		if cl.closed {
			return
		}
		if cl.Reading && len(cl.rb) > 0 {
			n := len(cl.rb)
			if cl.Chunk > 0 && cl.Chunk < n {
				n = cl.Chunk
			}
			p := cl.rb[:n:n]
			cl.rb = cl.rb[n:]
			cl.Got += int64(n)
			core.Mix(uint64(n) ^ uint64(cl.C.ID)<<20)
			if cl.OnData != nil {
				cl.OnData(p)
			}
			if !cl.C.Srv.dead {
				cl.C.Srv.pump()
			}
		}
		if len(cl.rb) == 0 || (cl.rstIn && !cl.Reading) {
			if cl.finIn && !cl.eofTold {
				cl.eofTold = true
				if cl.OnEOF != nil {
					cl.OnEOF()
				}
			} else if cl.rstIn && !cl.eofTold {
				cl.eofTold = true
				if cl.OnReset != nil {
					cl.OnReset()
				}
			}
			if cl.eofTold {
				return
			}
		}
		cl.poke()
	})
}

// Pending returns the bytes the server kernel still holds for the client plus unread ones.
func (cl *Client) Pending() int { return len(cl.C.Srv.snd) + len(cl.rb) }

// RcvQueue returns how many bytes the server kernel holds that the server has not read.
func (s *Sock) RcvQueue() int { return len(s.rcv) }

// InTransit tells whether client data is still on its way to the server kernel.
func (cl *Client) InTransit() bool { return cl.SentAll > cl.Arrived }

// Dead tells whether the connection was reset.
func (s *Sock) Dead() bool { return s.dead }

// FinRcvd tells whether the server kernel has seen the client's FIN.
func (s *Sock) FinRcvd() bool { return s.fin }

// Closed tells whether the server closed its descriptor.
func (s *Sock) Closed() bool { return s.closed }

// ShutWr tells whether the server shut down its write side.
func (s *Sock) ShutWr() bool { return s.shutWr }

// RcvRoom is the free space of the receive buffer.
func (s *Sock) RcvRoom() int { return s.rcvCap - len(s.rcv) }

// Vanished tells whether the peer became unreachable.
func (cl *Client) Vanished() bool { return cl.C.black }

// Widen removes all flow-control limits so that what is pending moves quickly.
func (cl *Client) Widen() {
	s := cl.C.Srv
	cl.win = max(cl.win, 1<<20)
	s.sndCap = max(s.sndCap, 1<<20)
	s.rcvCap = max(s.rcvCap, 1<<20)
	if s.closed || s.dead {
		return
	}
	s.pump()
	if s.o != nil {
		s.space()
	}
	cl.C.drainWire()
}

// Heal ends a partition.
func (cl *Client) Heal() { cl.C.downUntil = 0 }

// Activity counts bytes moved through the simulated kernel.
func Activity() int64 {
	var n int64
	for _, c := range k.conns {
		n += c.Srv.ReadTotal + c.Srv.WriteTotal + c.Cl.Got + c.Cl.Arrived
		if c.Accepted {
			n++
		}
		if c.FDClosed {
			n++
		}
		if c.Cl.eofTold {
			n++
		}
	}
	return n
}
