bug(id="pipelined-reply-clobbers-input", prop="C13",
 edits=[("connection.go","\t\tbuf = buf[n:n]\n","\t\tbuf = buf[:0]\n")],
 needs="several protobuf packets in one read, the reply to an earlier one longer than that packet, the connection's read buffer empty before",
 breaks="replies are assembled over the bytes of the packets still to be decoded: later packets arrive altered",
 pkg="plugins/protobuf", pkgname="protobuf", helper=False, imports=["net","time","sync",'"github.com/Allenxuxu/gev"','"bytes"'],
 demo='''
type demoH struct {
	mu  sync.Mutex
	got [][]byte
}

func (h *demoH) OnConnect(c *gev.Connection) {}
func (h *demoH) OnClose(c *gev.Connection)   {}
func (h *demoH) OnMessage(c *gev.Connection, ctx interface{}, b []byte) interface{} {
	h.mu.Lock()
	h.got = append(h.got, append([]byte{}, b...))
	h.mu.Unlock()
	return PackMessage("reply", bytes.Repeat([]byte{'R'}, 60))
}

func TestDemo(t *testing.T) {
	h := &demoH{}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	addr := l.Addr().String()
	l.Close()
	s, err := gev.NewServer(h, gev.Network("tcp"), gev.Address(addr), gev.NumLoops(1), gev.CustomProtocol(New()))
	if err != nil {
		t.Fatal(err)
	}
	go s.Start()
	defer s.Stop()
	time.Sleep(200 * time.Millisecond)
	c, err := net.Dial("tcp", addr)
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	var in []byte
	for i := 0; i < 3; i++ {
		in = append(in, PackMessage("m", bytes.Repeat([]byte{byte('a' + i)}, 30))...)
	}
	c.Write(in)
	for i := 0; i < 300; i++ {
		time.Sleep(10 * time.Millisecond)
		h.mu.Lock()
		n := len(h.got)
		h.mu.Unlock()
		if n >= 3 {
			break
		}
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	if len(h.got) != 3 {
		t.Fatalf("%d messages instead of 3", len(h.got))
	}
	for i, b := range h.got {
		if !bytes.Equal(b, bytes.Repeat([]byte{byte('a' + i)}, 30)) {
			t.Fatalf("message %d: %q", i, b)
		}
	}
}
''')
bug(id="wrapped-buffer-partial-write", prop="C02",
 edits=[("connection.go","\tif n == len(first) && len(end) > 0 {\n","\tif len(end) > 0 {\n")],
 needs="an output ring buffer that wraps around, a partial write of its first part, and room in the socket again before the second write",
 breaks="the bytes of the second part overtake the rest of the first part, and Retrieve then drops the wrong ones",
 timeout=250, imports=['"golang.org/x/sys/unix"','"github.com/Allenxuxu/gev/eventloop"','"sync/atomic"',"runtime"],
 demo='''
func TestDemo(t *testing.T) {
	const period = 65537
	pat := demoPat(0, period)
	for len(pat) < 32*period {
		pat = append(pat, pat...)
	}
	at := func(off, n int) []byte { return pat[off%period : off%period+n] }
	loop, err := eventloop.New()
	if err != nil {
		t.Fatal(err)
	}
	go loop.Run()
	time.Sleep(100 * time.Millisecond)
	fds, err := unix.Socketpair(unix.AF_UNIX, unix.SOCK_STREAM, 0)
	if err != nil {
		t.Fatal(err)
	}
	_ = unix.SetNonblock(fds[0], true)
	_ = unix.SetsockoptTimeval(fds[1], unix.SOL_SOCKET, unix.SO_RCVTIMEO, &unix.Timeval{Sec: 10})
	c := NewConnection(fds[0], loop, &unix.SockaddrInet4{}, &DefaultProtocol{}, nil, 0, &demoH{})
	loop.QueueInLoop(func() { _ = loop.AddSocketAndEnableRead(fds[0], c) })
	stop := make(chan struct{})
	sent := make(chan struct{})
	end := time.Now().Add(10 * time.Second)
	var total int64
	go func() {
		defer close(sent)
		sizes := []int{70001, 3, 130007, 9000, 45013}
		off := 0
		for i := 0; time.Now().Before(end); i++ {
			for c.WriteBufferLength() > 600<<10 {
				select {
				case <-stop:
					return
				default:
					runtime.Gosched()
				}
			}
			n := sizes[i%len(sizes)]
			queued := make(chan struct{})
			if c.Send(at(off, n), SendInLoop(func(interface{}) { close(queued) })) != nil {
				return
			}
			<-queued
			off += n
			atomic.StoreInt64(&total, int64(off))
		}
	}()
	buf := make([]byte, 8<<10)
	for off := 0; ; {
		select {
		case <-sent:
			if off == int(atomic.LoadInt64(&total)) {
				t.Logf("%d bytes", off)
				return
			}
		default:
			if off == int(atomic.LoadInt64(&total)) {
				continue
			}
		}
		n, err := unix.Read(fds[1], buf)
		if err == unix.EINTR {
			continue
		}
		if err != nil || n <= 0 {
			t.Fatalf("after %d bytes: %d %v", off, n, err)
		}
		if !bytes.Equal(buf[:n], at(off, n)) {
			close(stop)
			t.Fatalf("stream broken within [%d,%d)", off, off+n)
		}
		off += n
	}
}
''')
bug(id="blocked-first-write-not-armed", prop="C03",
 edits=[("connection.go","""		if n <= 0 {
			_, _ = c.outBuffer.Write(data)
		} else if n < len(data) {
			_, _ = c.outBuffer.Write(data[n:])
		}

		if !c.outBuffer.IsEmpty() {
			// nothing is read until the output is flushed
			_ = c.loop.EnableWrite(c.fd)
		}
""","""		if n <= 0 {
			_, _ = c.outBuffer.Write(data)
		} else if n < len(data) {
			_, _ = c.outBuffer.Write(data[n:])
			_ = c.loop.EnableWrite(c.fd)
		}
""")],
 needs="a write which finds the socket buffer completely full (EAGAIN) while nothing is queued yet",
 breaks="the message is queued without asking for writability: it is never flushed and reading stops as well",
 demo='''
func TestDemo(t *testing.T) {
	ready := make(chan *Connection, 1)
	s, addr, _ := demoStart(t, &demoH{conn: func(c *Connection) { ready <- c }})
	defer s.Stop()
	p := demoDial(t, addr)
	defer p.Close()
	c := <-ready
	// single bytes: a write takes all of it or nothing
	sent := 0
	idle := 0
	for c.WriteBufferLength() == 0 && sent < 64<<20 && idle < 100 {
		for i := 0; i < 4096; i++ {
			if c.Send([]byte{byte(sent)}) != nil {
				t.Fatal("closed")
			}
			sent++
		}
		done := make(chan struct{})
		c.loop.QueueInLoop(func() { close(done) })
		<-done
	}
	if c.WriteBufferLength() == 0 {
		t.Skip("could not fill the socket")
	}
	buf := make([]byte, 64<<10)
	for off := 0; off < sent; {
		_ = p.SetReadDeadline(time.Now().Add(8 * time.Second))
		n, err := p.Read(buf)
		if err != nil {
			t.Fatalf("%d of %d bytes: %v", off, sent, err)
		}
		for i := 0; i < n; i++ {
			if buf[i] != byte(off+i) {
				t.Fatalf("byte %d altered", off+i)
			}
		}
		off += n
	}
}
''')
bug(id="stale-send-hits-reused-descriptor", prop="C06",
 edits=[("connection.go","""		if c.connected.Get() {
			closed := c.sendInLoop(""","""		if c.connected.Get() || c.fd > 0 {
			closed := c.sendInLoop(""")],
 needs="a Send queued before the connection is closed but run after it, when its descriptor number already belongs to another socket",
 breaks="the message is written to whatever now owns the descriptor number",
 imports=['"golang.org/x/sys/unix"'],
 demo='''
func TestDemo(t *testing.T) {
	var fds [2]int
	done := make(chan bool, 1)
	s, addr, _ := demoStart(t, &demoH{msg: func(c *Connection, _ interface{}, b []byte) interface{} {
		// runs: close, reuse the number, then the message
		_ = c.Close()
		c.loop.QueueInLoop(func() {
			fds, _ = unix.Socketpair(unix.AF_UNIX, unix.SOCK_STREAM|unix.SOCK_NONBLOCK, 0)
		})
		_ = c.Send([]byte("leak"))
		c.loop.QueueInLoop(func() { done <- fds[0] == c.fd || fds[1] == c.fd })
		return nil
	}})
	defer s.Stop()
	p := demoDial(t, addr)
	defer p.Close()
	p.Write([]byte("x"))
	reused := <-done
	defer unix.Close(fds[0])
	defer unix.Close(fds[1])
	if !reused {
		t.Skip("descriptor not reused")
	}
	for _, fd := range fds {
		b := make([]byte, 16)
		if n, _ := unix.Read(fd, b); n > 0 {
			t.Fatalf("another socket received %q", b[:n])
		}
	}
}
''')
bug(id="error-only-event-dropped", prop="C08",
 edits=[("poller/epoll.go","""				if (events[i].Events&unix.EPOLLERR != 0) || (events[i].Events&unix.EPOLLOUT != 0) {
""","""				if events[i].Events&unix.EPOLLOUT != 0 {
""")],
 needs="a descriptor which reports nothing but an error (here the write end of a pipe without reader, registered for reading)",
 breaks="the handler is called with no event at all instead of being told about the error",
 pkg="poller", pkgname="poller", helper=False, imports=["time",'"golang.org/x/sys/unix"'],
 demo='''
func TestDemo(t *testing.T) {
	p, err := Create()
	if err != nil {
		t.Fatal(err)
	}
	var fds [2]int
	if err := unix.Pipe(fds[:]); err != nil {
		t.Fatal(err)
	}
	got := make(chan Event, 1)
	go p.Poll(func(fd int, e Event) {
		if fd == fds[1] && e != 0 {
			select {
			case got <- e:
			default:
			}
			_ = p.Del(fd)
		}
	})
	time.Sleep(50 * time.Millisecond)
	if err := p.AddRead(fds[1]); err != nil {
		t.Fatal(err)
	}
	_ = unix.Close(fds[0])
	select {
	case <-got:
	case <-time.After(2 * time.Second):
		t.Fatal("the error was not reported")
	}
	_ = p.Close()
}
''')
