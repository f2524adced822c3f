// kerndiff compares the simulated kernel with the one it runs on: the same random sequence of
// system calls goes to both, and every result has to agree. It uses loopback sockets only.
//
//	kerndiff [-from N] [-n N] [-secs S] [-j N] [-v]
package main

import (
	"flag"
	"fmt"
	"net"
	"os"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"gevsim/core"
	"gevsim/kern"
)

type op struct {
	k       string
	a, b, c int
}

func (o op) String() string { return fmt.Sprintf("%s(%d,%d,%#x)", o.k, o.a, o.b, uint32(o.c)) }

// world is one of the two kernels. Handles are numbers the sequence uses instead of descriptors.
type world interface {
	listen() (int, syscall.Errno)
	epoll() (int, syscall.Errno)
	eventfd() (int, syscall.Errno)
	accept(fd int) (int, syscall.Errno)
	read(fd int, p []byte) (int, syscall.Errno)
	write(fd int, p []byte) (int, syscall.Errno)
	shutdown(fd int) syscall.Errno
	close(fd int) syscall.Errno
	dup(fd int) (int, syscall.Errno)
	soerr(fd int) (int, syscall.Errno)
	nonblock(fd int) syscall.Errno
	ctl(ep, op, fd int, ev *syscall.EpollEvent) syscall.Errno
	wait(ep int, ev []syscall.EpollEvent, ms int) (int, syscall.Errno)
	dial() int
	cwrite(c, n int)
	cshut(c int)
	cclose(c int)
	creset(c int)
	cread(c int) string
	settle()
}

func gen(seed uint64) []op {
	r := core.NewRng(seed)
	n := 10 + r.N(50)
	ops := []op{{k: "listen"}, {k: "epoll"}, {k: "dial"}, {k: "accept"}}
	hs, cs, es := 2, 1, 1
	dups, closes := false, false
	masks := []int{1, 4, 5, 1 | 0x2000, 0, 0x2000, 0x2005, 2 | 1, 3 | 0x2004}
	edge := r.P(500) // no full buffers then: when a writer is woken depends on their size
	mask := func() int {
		m := masks[r.N(len(masks))]
		if edge && r.P(200) {
			m |= -1 << 31 // EPOLLET
		}
		if r.P(80) {
			m |= 1 << 30 // EPOLLONESHOT
		}
		return m
	}
	for len(ops) < n {
		h := r.N(hs + r.N(2))
		c := r.N(cs)
		e := r.N(es)
		switch v := r.N(100); {
		case v < 5:
			ops = append(ops, op{k: "dial"})
			cs++
		case v < 12:
			ops = append(ops, op{k: "accept"})
			hs++
		case v < 20:
			ops = append(ops, op{k: "cwrite", a: c, b: 1 + r.N(900)})
		case v < 23:
			ops = append(ops, op{k: "cshut", a: c})
		case v < 26:
			ops = append(ops, op{k: "cclose", a: c})
		case v < 29:
			ops = append(ops, op{k: "creset", a: c})
		case v < 34:
			ops = append(ops, op{k: "cread", a: c})
		case v < 43:
			ops = append(ops, op{k: "read", a: h, b: r.Pick(1, 7, 8, 100, 5000)})
		case v < 51:
			ops = append(ops, op{k: "write", a: h, b: r.Pick(0, 1, 7, 8, 8, 500)})
		case v < 53 && !edge:
			ops = append(ops, op{k: "fill", a: h})
		case v < 56:
			if !edge { // the wake-up comes with the delayed acknowledgement
				ops = append(ops, op{k: "shutdown", a: h})
			}
		case v < 59:
			ops = append(ops, op{k: "close", a: h})
			closes = true
		case v < 61:
			ops = append(ops, op{k: "dup", a: h})
			dups = true
			hs++
		case v < 63:
			ops = append(ops, op{k: "soerr", a: h})
		case v < 65:
			ops = append(ops, op{k: "eventfd"})
			hs++
		case v < 66:
			ops = append(ops, op{k: "epoll"})
			es++
		case v < 67:
			ops = append(ops, op{k: "max", a: h})
		case v < 76 && !(dups && closes): // which number a new descriptor gets is not controlled
			ops = append(ops, op{k: "add", a: h, b: e, c: mask()})
		case v < 81 && !(dups && closes):
			ops = append(ops, op{k: "mod", a: h, b: e, c: mask()})
		case v < 83 && !(dups && closes):
			ops = append(ops, op{k: "del", a: h, b: e})
		default:
			ops = append(ops, op{k: "wait", b: e, a: r.Pick(1, 2, 10, 10, 10)})
		}
	}
	return ops
}

type exec struct {
	w    world
	h    []int // handle -> descriptor, -1 when closed
	conn []bool
	eps  []int
	cl   []int
	lis  int
	fat  map[int]bool // client connections whose byte counts depend on buffer sizes
	of   map[int]int  // handle -> client
	next int
}

func (x *exec) fd(h int) int {
	if h < len(x.h) {
		return x.h[h]
	}
	return -1
}

func (x *exec) add(fd int, e syscall.Errno) string {
	if e != 0 {
		return e.Error()
	}
	x.h = append(x.h, fd)
	return fmt.Sprintf("h%d", len(x.h)-1)
}

func res(n int, e syscall.Errno) string {
	if e != 0 {
		return e.Error()
	}
	return fmt.Sprint(n)
}

func (x *exec) ep(i int) int {
	if i < len(x.eps) {
		return x.eps[i]
	}
	return -1
}

func (x *exec) do(o op) string {
	w := x.w
	switch o.k {
	case "listen":
		fd, e := w.listen()
		x.lis = fd
		return x.add(fd, e)
	case "epoll":
		fd, e := w.epoll()
		if e == 0 {
			x.eps = append(x.eps, fd)
		}
		return res(0, e)
	case "eventfd":
		return x.add(w.eventfd())
	case "dial":
		x.cl = append(x.cl, w.dial())
		return fmt.Sprint(x.cl[len(x.cl)-1] >= 0)
	case "accept":
		l := -1
		if len(x.h) > 0 {
			l = x.h[0]
		}
		return x.add(w.accept(l))
	case "cwrite", "cshut", "cclose", "creset", "cread":
		if o.a >= len(x.cl) || x.cl[o.a] < 0 {
			return "-"
		}
		c := x.cl[o.a]
		switch o.k {
		case "cwrite":
			w.cwrite(c, o.b)
		case "cshut":
			w.cshut(c)
		case "cclose":
			w.cclose(c)
		case "creset":
			w.creset(c)
		default:
			s := w.cread(c)
			if len(x.fat) > 0 {
				s = s[strings.IndexByte(s, ' '):]
			}
			return s
		}
		return ""
	case "read":
		return res(w.read(x.fd(o.a), make([]byte, o.b)))
	case "write":
		b := make([]byte, o.b)
		if o.b >= 8 {
			b[0] = 1
		}
		n, e := w.write(x.fd(o.a), b)
		if len(x.fat) > 0 && (e == 0 || e == syscall.EAGAIN) {
			return "~" // how full a full buffer is differs
		}
		return res(n, e)
	case "max":
		if len(x.fat) > 0 {
			return "~"
		}
		return res(w.write(x.fd(o.a), []byte{0xfe, 255, 255, 255, 255, 255, 255, 255}))
	case "fill":
		b := make([]byte, 65536)
		b[0] = 1
		for try := 0; try < 3; {
			n, e := w.write(x.fd(o.a), b)
			if e != 0 {
				w.settle()
				w.settle()
				try++
				if try == 3 || e != syscall.EAGAIN {
					return e.Error()
				}
				continue
			}
			if n == 8 {
				return "event"
			}
			x.fat[o.a] = true
		}
		return ""
	case "shutdown":
		return w.shutdown(x.fd(o.a)).Error()
	case "close":
		fd := x.fd(o.a)
		if fd < 0 {
			return "-"
		}
		x.h[o.a] = -1
		return w.close(fd).Error()
	case "dup":
		return x.add(w.dup(x.fd(o.a)))
	case "soerr":
		return res(w.soerr(x.fd(o.a)))
	case "add", "mod", "del":
		ev := &syscall.EpollEvent{Events: uint32(o.c), Fd: int32(o.a)}
		return w.ctl(x.ep(o.b), map[string]int{"add": 1, "del": 2, "mod": 3}[o.k], x.fd(o.a), ev).Error()
	case "wait":
		ev := make([]syscall.EpollEvent, o.a)
		n, e := w.wait(x.ep(o.b), ev, 0)
		if e != 0 {
			return e.Error()
		}
		var l []string
		for _, v := range ev[:n] {
			l = append(l, fmt.Sprintf("h%d:%#x", v.Fd, v.Events))
		}
		if o.a == 10 {
			sort.Strings(l)
		}
		return strings.Join(l, " ")
	}
	return "?"
}

func play(w world, ops []op) []string {
	x := &exec{w: w, fat: map[int]bool{}}
	var out []string
	for _, o := range ops {
		out = append(out, x.do(o))
		w.settle()
	}
	return out
}

// ---- simulated ----

type simWorld struct {
	port int
	cls  []*simCl
}

type simCl struct {
	c    *kern.Client
	got  int
	end  string
	over bool
}

func (w *simWorld) listen() (int, syscall.Errno) {
	fd, l, e := kern.Listen("tcp4", net.IPv4(127, 0, 0, 1), 0, false)
	if e == 0 {
		w.port = l.Port
	}
	return fd, e
}
func (w *simWorld) epoll() (int, syscall.Errno)   { return kern.EpollCreate(0) }
func (w *simWorld) eventfd() (int, syscall.Errno) { return kern.Eventfd(0, syscall.O_NONBLOCK) }
func (w *simWorld) accept(fd int) (int, syscall.Errno) {
	n, _, _, e := kern.Accept(fd, true)
	return n, e
}
func (w *simWorld) read(fd int, p []byte) (int, syscall.Errno)  { return kern.Read(fd, p) }
func (w *simWorld) write(fd int, p []byte) (int, syscall.Errno) { return kern.Write(fd, p) }
func (w *simWorld) shutdown(fd int) syscall.Errno               { return kern.Shutdown(fd, syscall.SHUT_WR) }
func (w *simWorld) close(fd int) syscall.Errno                  { return kern.Close(fd) }
func (w *simWorld) dup(fd int) (int, syscall.Errno)             { return kern.Dup(fd) }
func (w *simWorld) soerr(fd int) (int, syscall.Errno)           { return kern.SoError(fd) }
func (w *simWorld) nonblock(fd int) syscall.Errno               { return kern.SetNonblock(fd, true) }
func (w *simWorld) ctl(ep, o, fd int, ev *syscall.EpollEvent) syscall.Errno {
	return kern.EpollCtl(ep, o, fd, ev)
}
func (w *simWorld) wait(ep int, ev []syscall.EpollEvent, ms int) (int, syscall.Errno) {
	return kern.EpollWait(ep, ev, ms)
}
func (w *simWorld) dial() int {
	ok, done := false, false
	c := kern.Dial(w.port, false, 1<<17, 1<<17, 1<<16)
	c.Reading = false
	s := &simCl{c: c}
	c.OnConn = func() { ok, done = true, true }
	c.OnRefuse = func() { done = true }
	c.OnData = func(p []byte) { s.got += len(p) }
	c.OnEOF = func() { s.end = "eof" }
	c.OnReset = func() { s.end = "reset" }
	for i := 0; !done && i < 100; i++ {
		core.Sleep(core.MS)
	}
	w.cls = append(w.cls, s)
	if !ok {
		return -1
	}
	return len(w.cls) - 1
}
func (w *simWorld) cwrite(c, n int) { w.cls[c].c.Write(make([]byte, n)) }
func (w *simWorld) cshut(c int)     { w.cls[c].c.CloseWrite() }
func (w *simWorld) cclose(c int)    { w.cls[c].c.Close(); w.cls[c].over = true }
func (w *simWorld) creset(c int)    { w.cls[c].c.Reset(); w.cls[c].over = true }
func (w *simWorld) cread(i int) string {
	s := w.cls[i]
	if s.over {
		return "0 over"
	}
	s.got = 0
	s.c.SetReading(true)
	core.Sleep(20 * core.MS)
	s.c.SetReading(false)
	s.c.Reading = false
	r := fmt.Sprint(s.got, " ", s.end)
	if s.end == "reset" {
		s.over = true
	}
	return r
}
func (w *simWorld) settle() { core.Sleep(5 * core.MS) }

// ---- real ----

type realWorld struct {
	ip  [4]byte
	sa  syscall.SockaddrInet4
	cls []int
	ovr []bool
	fds map[int]bool
	evs map[int]bool
	rst map[int]bool

	pause time.Duration
}

func errno(e error) syscall.Errno {
	if e == nil {
		return 0
	}
	return e.(syscall.Errno)
}

func (w *realWorld) own(fd int, e error) (int, syscall.Errno) {
	if e == nil {
		w.fds[fd] = true
	}
	return fd, errno(e)
}

func (w *realWorld) listen() (int, syscall.Errno) {
	fd, e := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_NONBLOCK|syscall.SOCK_CLOEXEC, 0)
	if e != nil {
		return -1, errno(e)
	}
	if e = syscall.Bind(fd, &syscall.SockaddrInet4{Addr: w.ip}); e != nil {
		return -1, errno(e)
	}
	if e = syscall.Listen(fd, 128); e != nil {
		return -1, errno(e)
	}
	sa, _ := syscall.Getsockname(fd)
	w.sa = *sa.(*syscall.SockaddrInet4)
	return w.own(fd, nil)
}
func (w *realWorld) epoll() (int, syscall.Errno) { return w.own(syscall.EpollCreate1(0)) }
func (w *realWorld) eventfd() (int, syscall.Errno) {
	n, _, e := syscall.Syscall(syscall.SYS_EVENTFD2, 0, syscall.O_NONBLOCK, 0)
	if e != 0 {
		return -1, e
	}
	w.evs[int(n)] = true
	return w.own(int(n), nil)
}
func (w *realWorld) accept(fd int) (int, syscall.Errno) {
	n, _, e := syscall.Accept4(fd, syscall.SOCK_NONBLOCK)
	if e == nil {
		syscall.SetsockoptInt(n, syscall.IPPROTO_TCP, syscall.TCP_NODELAY, 1)
	}
	return w.own(n, e)
}
func (w *realWorld) read(fd int, p []byte) (int, syscall.Errno) {
	n, e := syscall.Read(fd, p)
	return n, errno(e)
}
func (w *realWorld) write(fd int, p []byte) (int, syscall.Errno) {
	if w.evs[fd] && len(p) > 8 {
		p = p[:8] // recent kernels refuse more, older ones ignore it
	}
	n, e := syscall.Write(fd, p)
	return n, errno(e)
}
func (w *realWorld) shutdown(fd int) syscall.Errno {
	return errno(syscall.Shutdown(fd, syscall.SHUT_WR))
}
func (w *realWorld) close(fd int) syscall.Errno {
	if !w.fds[fd] {
		return syscall.EBADF
	}
	delete(w.fds, fd)
	delete(w.evs, fd)
	return errno(syscall.Close(fd))
}
func (w *realWorld) dup(fd int) (int, syscall.Errno) {
	n, e := syscall.Dup(fd)
	if e == nil {
		w.evs[n] = w.evs[fd]
	}
	return w.own(n, e)
}
func (w *realWorld) soerr(fd int) (int, syscall.Errno) {
	n, e := syscall.GetsockoptInt(fd, syscall.SOL_SOCKET, syscall.SO_ERROR)
	if e == syscall.ENOTSOCK {
		return 0, 0
	}
	return n, errno(e)
}
func (w *realWorld) nonblock(fd int) syscall.Errno { return errno(syscall.SetNonblock(fd, true)) }
func (w *realWorld) ctl(ep, o, fd int, ev *syscall.EpollEvent) syscall.Errno {
	_, _, e := syscall.RawSyscall6(syscall.SYS_EPOLL_CTL, uintptr(ep), uintptr(o), uintptr(fd), uintptr(unsafe.Pointer(ev)), 0, 0)
	return e
}
func (w *realWorld) wait(ep int, ev []syscall.EpollEvent, ms int) (int, syscall.Errno) {
	n, e := syscall.EpollWait(ep, ev, ms)
	return n, errno(e)
}
func (w *realWorld) dial() int {
	fd, e := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if e != nil {
		panic(e)
	}
	w.cls = append(w.cls, -1)
	w.ovr = append(w.ovr, false)
	if e = syscall.Connect(fd, &w.sa); e != nil {
		syscall.Close(fd)
		return -1
	}
	syscall.SetNonblock(fd, true)
	syscall.SetsockoptInt(fd, syscall.IPPROTO_TCP, syscall.TCP_NODELAY, 1)
	w.cls[len(w.cls)-1] = fd
	return len(w.cls) - 1
}
func (w *realWorld) cwrite(c, n int) {
	if w.cls[c] >= 0 {
		if _, e := syscall.Write(w.cls[c], make([]byte, n)); e == syscall.ECONNRESET {
			w.rst[c] = true
		}
	}
}
func (w *realWorld) cshut(c int) {
	if w.cls[c] >= 0 {
		syscall.Shutdown(w.cls[c], syscall.SHUT_WR)
	}
}
func (w *realWorld) cclose(c int) {
	if w.cls[c] >= 0 {
		syscall.Close(w.cls[c])
		w.cls[c] = -1
		w.ovr[c] = true
	}
}
func (w *realWorld) creset(c int) {
	if w.cls[c] >= 0 {
		syscall.SetsockoptLinger(w.cls[c], syscall.SOL_SOCKET, syscall.SO_LINGER, &syscall.Linger{Onoff: 1})
		w.cclose(c)
	}
}
func (w *realWorld) cread(c int) string {
	if w.ovr[c] {
		return "0 over"
	}
	got, end := 0, ""
	b := make([]byte, 1<<16)
	for idle := 0; idle < 4; {
		n, e := syscall.Read(w.cls[c], b)
		if n > 0 {
			got += n
			idle = 0
			continue
		}
		if e == syscall.EAGAIN {
			idle++
			time.Sleep(500 * time.Microsecond)
			continue
		}
		if e == nil && !w.rst[c] {
			end = "eof"
		} else if e == nil || e == syscall.ECONNRESET || e == syscall.EPIPE {
			end = "reset"
			w.ovr[c] = true
		} else {
			end = e.Error()
		}
		break
	}
	return fmt.Sprint(got, " ", end)
}
func (w *realWorld) settle() { time.Sleep(w.pause) }
func (w *realWorld) end() {
	for fd := range w.fds {
		syscall.Close(fd)
	}
	for c := range w.cls {
		w.creset(c)
	}
}

func main() {
	from := flag.Uint64("from", 1, "")
	n := flag.Uint64("n", 1000, "")
	secs := flag.Int("secs", 600, "")
	j := flag.Int("j", 8, "")
	v := flag.Bool("v", false, "")
	max := flag.Int("max", 3, "")
	flag.Parse()
	stop := time.Now().Add(time.Duration(*secs) * time.Second)
	var next, runs, ops, bad atomic.Uint64
	next.Store(*from)
	var sm sync.Mutex
	var wg sync.WaitGroup
	for t := 0; t < *j; t++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for time.Now().Before(stop) && int(bad.Load()) < *max {
				seed := next.Add(1) - 1
				if seed >= *from+*n {
					return
				}
				l := gen(seed)
				q := int(seed % 60000)
				real := func(pause time.Duration) []string {
					rw := &realWorld{ip: [4]byte{127, byte(10 + t), byte(q >> 8), byte(q)}, fds: map[int]bool{}, evs: map[int]bool{}, rst: map[int]bool{}, pause: pause}
					defer rw.end()
					return play(rw, l)
				}
				b := real(300 * time.Microsecond)
				sm.Lock()
				var a []string
				core.Run(core.Config{Seed: seed, MaxSteps: 1 << 40}, func() {
					a = play(&simWorld{}, l)
					core.End("done")
				})
				sm.Unlock()
				for try := 0; try < 3 && !slices.Equal(a, b); try++ {
					b = real(5 * time.Millisecond) // a busy machine delivers late
				}
				runs.Add(1)
				ops.Add(uint64(len(l)))
				for i := range l {
					if i >= len(a) || a[i] != b[i] || *v {
						mark := ""
						if i >= len(a) || a[i] != b[i] {
							mark = "   <-- differs"
						}
						if mark != "" || *v {
							if mark != "" {
								s := ""
								for q := range l[:i] {
									s += fmt.Sprintf("  %2d %v = %s\n", q, l[q], a[q])
								}
								x := "(missing)"
								if i < len(a) {
									x = a[i]
								}
								fmt.Printf("seed %d\n%s  %2d %v: simulated %q, real %q%s\n", seed, s, i, l[i], x, b[i], mark)
								bad.Add(1)
								break
							}
						}
					}
				}
			}
		}()
	}
	wg.Wait()
	fmt.Printf("%d sequences, %d calls, %d differ\n", runs.Load(), ops.Load(), bad.Load())
	if bad.Load() > 0 {
		os.Exit(1)
	}
}
