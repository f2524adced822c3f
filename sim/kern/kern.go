// Package kern is the simulated kernel: descriptor table, TCP, epoll, eventfd. It follows the
// semantics of Linux where gev depends on them.
package kern

import (
	"fmt"
	"syscall"
	"unsafe"

	"gevsim/core"
)

type Errno = syscall.Errno

// Faults are per-mille rates of injected misbehaviour; all off when On is false.
type Faults struct {
	ShortRead    int `json:"shortread,omitempty"`
	ReadAgain    int `json:"readagain,omitempty"`
	ReadErr      int `json:"readerr,omitempty"`
	ShortWrite   int `json:"shortwrite,omitempty"`
	WriteAgain   int `json:"writeagain,omitempty"`
	WriteErr     int `json:"writeerr,omitempty"`
	EINTR        int `json:"eintr,omitempty"`
	EpollPartial int `json:"epartial,omitempty"`
	EpollOrder   int `json:"eorder,omitempty"`
	Spurious     int `json:"spurious,omitempty"`
	AcceptErr    int `json:"accepterr,omitempty"`
	NonblockErr  int `json:"nberr,omitempty"`
	CtlAddErr    int `json:"ctladd,omitempty"`
	Latency      int `json:"lat,omitempty"`
	LatencyMax   int `json:"latmax,omitempty"` // microseconds
	Coalesce     int `json:"coal,omitempty"`   // server output segments cut short
}

type kind int

const (
	kSock kind = iota
	kListen
	kEpoll
	kEvent
	kDev // a descriptor whose readiness the harness sets, like the end of a pipe
	kStd
)

// ofd is an open file description.
type ofd struct {
	kind     kind
	refs     int
	nonblock bool
	sock     *Sock
	lis      *Listener
	ep       *Epoll
	ev       *eventfd
	items    []*item
	waiters  []*core.Task
	origin   string
	at       int64
	dev      uint32 // readiness of a kDev
}

// K is the kernel of the current run.
type kernel struct {
	fds        []*ofd
	Max        int
	listeners  []*Listener
	conns      []*Conn
	nextPort   int
	F          Faults
	On         bool
	failAt     int // construction faults: fail the n-th resource acquisition
	acqN       int
	failErr    Errno
	Opened     int
	Closed     int
	BadClose   []string
	Stale      []string
	accepted   int
	reported   []syscall.EpollEvent
	KeepReport bool
}

var k *kernel

func init() { core.OnReset(reset) }

func reset() {
	k = &kernel{Max: 65536, nextPort: 20000}
	k.fds = make([]*ofd, 3, 64)
	for i := range k.fds {
		k.fds[i] = &ofd{kind: kStd, refs: 1, origin: "std"}
	}
}

// SetFaults installs the fault rates.
func SetFaults(f Faults) { k.F = f; k.On = true }

// FaultsOff ends injection.
func FaultsOff() { k.On = false }

// SetMaxFD limits the descriptor table (EMFILE beyond).
func SetMaxFD(n int) { k.Max = n }

// FailAcquisition makes the n-th (0-based) resource-acquiring system call fail with e.
func FailAcquisition(n int, e Errno) { k.failAt = n + 1; k.acqN = 0; k.failErr = e }

// Acquisitions is the number of resource-acquiring system calls seen since FailAcquisition.
func Acquisitions() int { return k.acqN }

// acquire is called by every resource-acquiring call; non-zero means it must fail.
func acquire(what string) Errno {
	k.acqN++
	if k.failAt > 0 && k.acqN == k.failAt {
		core.Count("fault.ctor." + what)
		core.Logf("inject %s -> %v", what, k.failErr)
		return k.failErr
	}
	return 0
}

func rate(r int) int {
	if !k.On {
		return 0
	}
	return r
}

func enter() {
	core.Point()
	core.CheckKill()
	core.Cost(800)
}

func alloc(o *ofd) (int, Errno) {
	for i, x := range k.fds {
		if x == nil {
			if i >= k.Max {
				return -1, syscall.EMFILE
			}
			k.fds[i] = o
			o.refs++
			k.Opened++
			o.at = core.Now()
			core.Mix(uint64(i) * 31)
			return i, 0
		}
	}
	if len(k.fds) >= k.Max {
		return -1, syscall.EMFILE
	}
	k.fds = append(k.fds, o)
	o.refs++
	k.Opened++
	o.at = core.Now()
	core.Mix(uint64(len(k.fds)) * 31)
	return len(k.fds) - 1, 0
}

func get(fd int) *ofd {
	if fd < 0 || fd >= len(k.fds) {
		return nil
	}
	return k.fds[fd]
}

// OpenFDs lists open descriptors above the standard ones, with their origin.
func OpenFDs() []string {
	var out []string
	for i, o := range k.fds {
		if o != nil && o.kind != kStd {
			out = append(out, fmt.Sprintf("%d(%s)", i, o.origin))
		}
	}
	return out
}

// OpenCount counts open descriptors.
func OpenCount() int { return len(OpenFDs()) }

// StaleUses lists other calls on descriptors that were not open.
func StaleUses() []string { return k.Stale }

func stale(call string, fd int) {
	k.Stale = append(k.Stale, fmt.Sprintf("%s of fd %d at %dus", call, fd, core.Now()/1000))
}

// BadCloses lists close calls on descriptors that were not open.
func BadCloses() []string { return k.BadClose }

// Close is close(2).
func Close(fd int) Errno {
	enter()
	o := get(fd)
	if o == nil {
		core.Logf("close(%d) = EBADF", fd)
		k.BadClose = append(k.BadClose, fmt.Sprintf("fd %d at %dus", fd, core.Now()/1000))
		return syscall.EBADF
	}
	if o.kind == kStd {
		return 0
	}
	core.Logf("close(%d) %s", fd, o.origin)
	core.Mix(uint64(fd)*131 + 7)
	core.Productive()
	k.fds[fd] = nil
	k.Closed++
	o.refs--
	if o.refs == 0 {
		o.destroy()
	}
	core.Point()
	return 0
}

// Dup is dup(2).
func Dup(fd int) (int, Errno) {
	enter()
	o := get(fd)
	if o == nil {
		return -1, syscall.EBADF
	}
	if e := acquire("dup"); e != 0 {
		return -1, e
	}
	n, e := alloc(o)
	core.Logf("dup(%d) = %d %v", fd, n, e)
	return n, e
}

func (o *ofd) destroy() {
	for _, it := range append([]*item(nil), o.items...) {
		it.ep.remove(it)
	}
	switch o.kind {
	case kSock:
		o.sock.close()
	case kListen:
		o.lis.close()
	case kEpoll:
		for _, it := range append([]*item(nil), o.ep.all...) {
			o.ep.remove(it)
		}
		o.ep.dead = true
	}
}

// SetNonblock sets or clears O_NONBLOCK.
func SetNonblock(fd int, nb bool) Errno {
	enter()
	o := get(fd)
	if o == nil {
		return syscall.EBADF
	}
	if e := acquire("setnonblock"); e != 0 {
		return e
	}
	if o.kind == kSock && core.Flip("nberr", rate(k.F.NonblockErr)) {
		core.Count("fault.nonblock_error")
		o.sock.conn.Failed = true
		core.Logf("fcntl(%d) = EBADF (injected)", fd)
		return syscall.ENOMEM
	}
	o.nonblock = nb
	return 0
}

// SetNonblockQuiet changes the flag without a system call that can fail (os.File.Fd).
func SetNonblockQuiet(fd int, nb bool) {
	if o := get(fd); o != nil {
		o.nonblock = nb
	}
}

// GetFlags returns F_GETFL.
func GetFlags(fd int) (int, Errno) {
	enter()
	o := get(fd)
	if o == nil {
		return -1, syscall.EBADF
	}
	f := syscall.O_RDWR
	if o.nonblock {
		f |= syscall.O_NONBLOCK
	}
	return f, 0
}

// notify tells everybody waiting on o that its state changed; key says which events may have
// become true, 0 stands for all.
func (o *ofd) notify(key uint32) {
	if o == nil {
		return
	}
	ws := o.waiters
	o.waiters = nil
	for _, t := range ws {
		core.Ready(t)
	}
	for i := len(o.items) - 1; i >= 0; i-- {
		it := o.items[i]
		if key == 0 || key&it.events != 0 {
			it.ep.enqueue(it)
		}
	}
}

func (o *ofd) wait(why string) {
	o.waiters = append(o.waiters, core.Cur())
	core.Park(why)
}

func (o *ofd) mask() uint32 {
	switch o.kind {
	case kSock:
		return o.sock.mask()
	case kListen:
		if len(o.lis.queue) > 0 {
			return syscall.EPOLLIN
		}
	case kEvent:
		var m uint32
		if o.ev.n > 0 {
			m |= syscall.EPOLLIN
		}
		if o.ev.n < ^uint64(0)-1 {
			m |= syscall.EPOLLOUT
		}
		return m
	case kEpoll:
		if len(o.ep.rdl) > 0 {
			return syscall.EPOLLIN
		}
	case kDev:
		return o.dev
	}
	return 0
}

// NewDev opens a descriptor whose readiness SetDev sets (harness use).
func NewDev() (int, Errno) {
	enter()
	return alloc(&ofd{kind: kDev, origin: "dev"})
}

// SetDev changes the readiness of such a descriptor.
func SetDev(fd int, m uint32) {
	if o := get(fd); o != nil && o.kind == kDev {
		o.dev = m
		core.Logf("dev fd %d is %s", fd, hex(m))
		o.notify(0)
	}
}

// NewPlain opens a descriptor that does nothing (a listening socket that is not TCP).
func NewPlain(origin string) (int, Errno) {
	enter()
	if e := acquire("listen"); e != 0 {
		return -1, e
	}
	return alloc(&ofd{kind: kDev, origin: origin})
}

// ---- eventfd ----

type eventfd struct {
	n   uint64
	sem bool
}

// Eventfd creates an eventfd.
func Eventfd(init uint, flags int) (int, Errno) {
	enter()
	if flags&^(syscall.O_NONBLOCK|syscall.O_CLOEXEC|1) != 0 {
		return -1, syscall.EINVAL
	}
	if e := acquire("eventfd"); e != 0 {
		return -1, e
	}
	o := &ofd{kind: kEvent, ev: &eventfd{n: uint64(init), sem: flags&1 != 0}, origin: "eventfd", nonblock: flags&syscall.O_NONBLOCK != 0}
	fd, e := alloc(o)
	core.Logf("eventfd() = %d", fd)
	return fd, e
}

// Read is read(2).
func Read(fd int, p []byte) (int, Errno) {
	enter()
	o := get(fd)
	if o == nil {
		core.Logf("read(%d) = EBADF", fd)
		stale("read", fd)
		return -1, syscall.EBADF
	}
	switch o.kind {
	case kEvent:
		if len(p) < 8 {
			return -1, syscall.EINVAL
		}
		for o.ev.n == 0 {
			if o.nonblock {
				return -1, syscall.EAGAIN
			}
			o.wait("read(eventfd)")
		}
		v := o.ev.n
		if o.ev.sem {
			v = 1
		}
		o.ev.n -= v
		core.Acq(unsafe.Pointer(o))
		for i := 0; i < 8; i++ {
			p[i] = byte(v >> (8 * i))
		}
		core.Logf("read(%d) eventfd = %d", fd, v)
		core.Productive()
		o.notify(syscall.EPOLLOUT)
		core.Point()
		return 8, 0
	case kSock:
		n, e := o.sock.read(o, p)
		core.Logf("read(%d) conn %d = %d %v", fd, o.sock.conn.ID, n, e)
		core.Mix(uint64(n)<<8 ^ uint64(e))
		if n > 0 || e != syscall.EAGAIN {
			core.Productive()
		}
		core.Point()
		return n, e
	case kListen:
		return -1, syscall.ENOTCONN
	}
	return -1, syscall.EINVAL
}

// Write is write(2).
func Write(fd int, p []byte) (int, Errno) {
	enter()
	o := get(fd)
	if o == nil {
		core.Logf("write(%d) = EBADF", fd)
		stale("write", fd)
		return -1, syscall.EBADF
	}
	switch o.kind {
	case kEvent:
		if len(p) < 8 {
			return -1, syscall.EINVAL
		}
		var v uint64
		for i := 0; i < 8; i++ {
			v |= uint64(p[i]) << (8 * i)
		}
		if v == ^uint64(0) {
			return -1, syscall.EINVAL
		}
		for o.ev.n+v < o.ev.n || o.ev.n+v == ^uint64(0) {
			if o.nonblock {
				return -1, syscall.EAGAIN
			}
			o.wait("write(eventfd)")
		}
		core.Rel(unsafe.Pointer(o))
		o.ev.n += v
		core.Logf("write(%d) eventfd +%d", fd, v)
		core.Productive()
		if v > 0 {
			o.notify(syscall.EPOLLIN)
		}
		core.Point()
		return 8, 0
	case kSock:
		n, e := o.sock.write(o, p)
		core.Logf("write(%d,len %d) conn %d = %d %v", fd, len(p), o.sock.conn.ID, n, e)
		core.Mix(uint64(n)<<8 ^ uint64(e) ^ 3)
		if n > 0 || e != syscall.EAGAIN {
			core.Productive()
		}
		core.Point()
		return n, e
	case kListen:
		return -1, syscall.EPIPE
	}
	return -1, syscall.EINVAL
}

// Shutdown is shutdown(2).
func Shutdown(fd, how int) Errno {
	enter()
	o := get(fd)
	if o == nil {
		core.Logf("shutdown(%d) = EBADF", fd)
		stale("shutdown", fd)
		return syscall.EBADF
	}
	if o.kind != kSock {
		if o.kind == kListen {
			if how == syscall.SHUT_WR {
				o.notify(0)
				return 0
			}
			return syscall.ENOTCONN
		}
		return syscall.ENOTSOCK
	}
	e := o.sock.shutdown(how)
	core.Logf("shutdown(%d) conn %d = %v", fd, o.sock.conn.ID, e)
	core.Productive()
	core.Point()
	return e
}

// SoError is getsockopt(SO_ERROR).
func SoError(fd int) (int, Errno) {
	enter()
	o := get(fd)
	if o == nil {
		return -1, syscall.EBADF
	}
	if o.kind != kSock {
		return 0, 0
	}
	e := o.sock.err
	o.sock.err = 0
	return int(e), 0
}

// Sockopt checks the descriptor for setsockopt-like calls that have no simulated effect.
func Sockopt(fd int) Errno {
	enter()
	if get(fd) == nil {
		stale("setsockopt", fd)
		return syscall.EBADF
	}
	return 0
}

// Linger is setsockopt(SO_LINGER); only a zero timeout has an effect.
func Linger(fd int, reset bool) Errno {
	enter()
	o := get(fd)
	if o == nil {
		stale("setsockopt", fd)
		return syscall.EBADF
	}
	if o.kind == kSock {
		o.sock.linger0 = reset
	}
	return 0
}

// FDSock returns the connection behind a descriptor (harness use).
func FDSock(fd int) *Sock {
	if o := get(fd); o != nil && o.kind == kSock {
		return o.sock
	}
	return nil
}

// KeepReports makes the kernel remember what the last wait returned (harness use).
func KeepReports() { k.KeepReport = true }
