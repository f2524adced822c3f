package kern

import (
	"syscall"

	"gevsim/core"
)

// Epoll instance.
type Epoll struct {
	all     []*item
	rdl     []*item
	waiters []*core.Task
	dead    bool
	id      int
	waits   int64
}

type item struct {
	ep     *Epoll
	o      *ofd
	fd     int
	events uint32
	data   [2]int32
	inRdl  bool
	off    bool // oneshot fired
	addSeq int
}

// EpollCreate creates an epoll instance.
func EpollCreate(flags int) (int, Errno) {
	enter()
	if flags&^syscall.EPOLL_CLOEXEC != 0 {
		return -1, syscall.EINVAL
	}
	if e := acquire("epoll_create"); e != 0 {
		return -1, e
	}
	o := &ofd{kind: kEpoll, ep: &Epoll{}, origin: "epoll"}
	fd, e := alloc(o)
	o.ep.id = fd
	core.Logf("epoll_create() = %d", fd)
	return fd, e
}

func (ep *Epoll) enqueue(it *item) {
	if it.off || it.inRdl {
		ep.wake()
		return
	}
	it.inRdl = true
	ep.rdl = append(ep.rdl, it)
	ep.wake()
}

func (it *item) ready() bool {
	return it.o.mask()&(it.events|syscall.EPOLLERR|syscall.EPOLLHUP)&0xfffffff != 0
}

func (ep *Epoll) wake() {
	ws := ep.waiters
	ep.waiters = nil
	for _, t := range ws {
		core.Ready(t)
	}
}

func (ep *Epoll) remove(it *item) {
	for i, x := range ep.all {
		if x == it {
			ep.all = append(ep.all[:i:i], ep.all[i+1:]...)
			break
		}
	}
	for i, x := range ep.rdl {
		if x == it {
			ep.rdl = append(ep.rdl[:i:i], ep.rdl[i+1:]...)
			break
		}
	}
	it.inRdl = false
	for i, x := range it.o.items {
		if x == it {
			it.o.items = append(it.o.items[:i:i], it.o.items[i+1:]...)
			break
		}
	}
}

func (ep *Epoll) find(o *ofd, fd int) *item {
	for _, it := range o.items {
		if it.ep == ep && it.fd == fd {
			return it
		}
	}
	return nil
}

// EpollCtl is epoll_ctl(2).
func EpollCtl(epfd, op, fd int, ev *syscall.EpollEvent) Errno {
	enter()
	e := epollCtl(epfd, op, fd, ev)
	if core.Tracing() {
		var m uint32
		if ev != nil {
			m = ev.Events
		}
		core.Logf("epoll_ctl(%d,%s,%d,%#x) = %v", epfd, []string{"?", "ADD", "DEL", "MOD"}[op&3], fd, m, e)
	}
	core.Mix(uint64(op)<<16 ^ uint64(fd) ^ uint64(e)<<32)
	if e == 0 {
		core.Productive()
	}
	core.Point()
	return e
}

func epollCtl(epfd, op, fd int, ev *syscall.EpollEvent) Errno {
	eo := get(epfd)
	o := get(fd)
	if eo == nil || o == nil {
		stale("epoll_ctl", fd)
		return syscall.EBADF
	}
	if eo.kind != kEpoll || eo == o {
		return syscall.EINVAL
	}
	ep := eo.ep
	it := ep.find(o, fd)
	switch op {
	case syscall.EPOLL_CTL_ADD:
		if ev == nil {
			return syscall.EFAULT
		}
		if it != nil {
			return syscall.EEXIST
		}
		if e := acquire("epoll_ctl"); e != 0 {
			return e
		}
		if o.kind == kSock {
			if v := core.Choose("ctladd", rate(k.F.CtlAddErr), 3); v > 0 {
				core.Count("fault.epoll_ctl_add_error")
				o.sock.conn.Failed = true
				o.sock.conn.Unreg = true
				return []Errno{0, syscall.ENOSPC, syscall.ENOMEM}[v]
			}
		}
		it = &item{ep: ep, o: o, fd: fd, events: ev.Events, data: [2]int32{ev.Fd, ev.Pad}}
		ep.all = append(ep.all, it)
		o.items = append(o.items, it)
		if it.ready() {
			ep.enqueue(it)
		}
	case syscall.EPOLL_CTL_MOD:
		if ev == nil {
			return syscall.EFAULT
		}
		if it == nil {
			return syscall.ENOENT
		}
		it.events = ev.Events
		it.data = [2]int32{ev.Fd, ev.Pad}
		it.off = false
		if it.ready() {
			ep.enqueue(it)
		}
	case syscall.EPOLL_CTL_DEL:
		if it == nil {
			return syscall.ENOENT
		}
		ep.remove(it)
	default:
		return syscall.EINVAL
	}
	return 0
}

func (ep *Epoll) collect(evs []syscall.EpollEvent) int {
	n := 0
	limit := len(evs)
	list := ep.rdl
	if len(list) > 1 && k.On {
		if v := int(core.Choose("eorder", rate(k.F.EpollOrder), int64(min(len(list), 8)))); v > 0 {
			core.Count("fault.epoll_reorder")
			list = append(append([]*item(nil), list[v:]...), list[:v]...)
		}
		if v := int(core.Choose("epart", rate(k.F.EpollPartial), int64(min(len(list), 8)))); v > 0 && v < limit {
			core.Count("fault.epoll_partial")
			limit = v
		}
	}
	var back []*item
	rest := list[:0:0]
	for i, it := range list {
		if n == limit {
			rest = append(rest, list[i:]...)
			break
		}
		m := it.o.mask() & (it.events | syscall.EPOLLERR | syscall.EPOLLHUP) & 0xfffffff
		if m == 0 || it.off {
			it.inRdl = false
			continue
		}
		evs[n] = syscall.EpollEvent{Events: m, Fd: it.data[0], Pad: it.data[1]}
		n++
		switch {
		case it.events&(1<<30) != 0: // EPOLLONESHOT
			it.off = true
			it.inRdl = false
		case it.events&(1<<31) != 0: // EPOLLET
			it.inRdl = false
		default:
			back = append(back, it)
		}
	}
	ep.rdl = append(append([]*item(nil), rest...), back...)
	if n > 0 && k.KeepReport {
		k.reported = append(k.reported[:0], evs[:n]...)
	}
	if n == 0 && k.On && len(ep.all) > 1 {
		if core.Flip("spur", rate(k.F.Spurious)) {
			for _, it := range ep.all {
				if it.o.kind == kSock && it.events&syscall.EPOLLIN != 0 && !it.off {
					core.Count("fault.epoll_spurious")
					evs[0] = syscall.EpollEvent{Events: syscall.EPOLLIN, Fd: it.data[0], Pad: it.data[1]}
					k.reported = append(k.reported[:0], evs[0])
					return 1
				}
			}
		}
	}
	return n
}

// EpollWait is epoll_wait(2).
func EpollWait(epfd int, evs []syscall.EpollEvent, msec int) (int, Errno) {
	enter()
	eo := get(epfd)
	if eo == nil {
		core.Logf("epoll_wait(%d) = EBADF", epfd)
		stale("epoll_wait", epfd)
		core.FruitlessPoll()
		return -1, syscall.EBADF
	}
	if eo.kind != kEpoll || len(evs) == 0 {
		return -1, syscall.EINVAL
	}
	ep := eo.ep
	if core.Flip("eintr", rate(k.F.EINTR)) {
		core.Count("fault.eintr")
		core.Logf("epoll_wait(%d) = EINTR (injected)", epfd)
		return -1, syscall.EINTR
	}
	core.FruitlessPoll()
	ep.waits++
	n := ep.collect(evs)
	if n > 0 || msec == 0 {
		logWait(epfd, evs[:n], msec)
		core.Point()
		return n, 0
	}
	expired := false
	t := core.Cur()
	var tm core.Event
	if msec > 0 {
		tm = core.After(int64(msec)*core.MS, func() { expired = true; core.Ready(t) })
	}
	intr := false
	if d := core.Choose("eintrw", rate(k.F.EINTR), 2000); d > 0 {
		// a signal arrives while waiting
		core.After(d*core.US, func() {
			if t.IsBlocked() && t.Why() == "epoll_wait" {
				intr = true
				core.Ready(t)
			}
		})
	}
	for {
		ep.waiters = append(ep.waiters, t)
		core.Park("epoll_wait")
		core.Productive()
		for i, x := range ep.waiters {
			if x == t {
				ep.waiters = append(ep.waiters[:i:i], ep.waiters[i+1:]...)
				break
			}
		}
		n = ep.collect(evs)
		if n > 0 {
			break
		}
		if intr {
			core.Count("fault.eintr_wait")
			core.Logf("epoll_wait(%d) = EINTR (injected while waiting)", epfd)
			tm.Cancel()
			return -1, syscall.EINTR
		}
		if expired {
			break
		}
	}
	tm.Cancel()
	logWait(epfd, evs[:n], msec)
	core.Point()
	return n, 0
}

func logWait(epfd int, evs []syscall.EpollEvent, msec int) {
	if core.Tracing() {
		s := ""
		for _, e := range evs {
			s += " " + itoa(int(e.Fd)) + ":" + hex(e.Events)
		}
		core.Logf("epoll_wait(%d,%d) = %d%s", epfd, msec, len(evs), s)
	}
}

func itoa(i int) string {
	if i < 0 {
		return "-" + itoa(-i)
	}
	if i < 10 {
		return string(rune('0' + i))
	}
	return itoa(i/10) + itoa(i%10)
}

func hex(v uint32) string {
	const d = "0123456789abcdef"
	s := ""
	for {
		s = string(d[v&15]) + s
		v >>= 4
		if v == 0 {
			return "0x" + s
		}
	}
}

// Interest returns the events a descriptor is registered for in an epoll instance, if any
// (harness use).
func Interest(fd int) (uint32, bool) {
	o := get(fd)
	if o == nil {
		return 0, false
	}
	for _, it := range o.items {
		if it.fd == fd {
			return it.events, true
		}
	}
	return 0, false
}

// LastReport returns the events the last wait that reported anything returned for a descriptor
// (harness use).
func LastReport(fd int) (uint32, bool) {
	for i := len(k.reported) - 1; i >= 0; i-- {
		if int(k.reported[i].Fd) == fd {
			return k.reported[i].Events, true
		}
	}
	return 0, false
}

// FindEpoll returns the first open epoll descriptor, -1 if there is none (harness use).
func FindEpoll() int {
	for fd := 0; fd < 1024; fd++ {
		if o := get(fd); o != nil && o.kind == kEpoll {
			return fd
		}
	}
	return -1
}

// Waits counts the wait calls on an epoll instance (harness use).
func Waits(epfd int) int64 {
	if o := get(epfd); o != nil && o.ep != nil {
		return o.ep.waits
	}
	return 0
}

// AllWaits maps each open epoll descriptor to its number of wait calls (harness use).
func AllWaits() map[int]int64 {
	m := map[int]int64{}
	for fd, o := range k.fds {
		if o != nil && o.ep != nil {
			m[fd] = o.ep.waits
		}
	}
	return m
}

// Mask is the readiness of a descriptor (harness use).
func Mask(fd int) uint32 {
	if o := get(fd); o != nil {
		return o.mask()
	}
	return 0
}
