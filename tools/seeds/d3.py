bug(id="wake-lost-on-full-batch", prop="C08",
 edits=[("poller/epoll.go","		if wake {\n","		if wake && n < len(events) {\n")],
 needs="exactly as many ready descriptors (the wake-up one among them) as the event buffer holds, and nothing further happening afterwards",
 breaks="the wake-up is consumed but its handler call is put off until the next event, which may never come: queued tasks wait for ever",
 pkg="poller", pkgname="poller", helper=False,
 imports=["time",'"golang.org/x/sys/unix"'],
 demo='''
func TestDemo(t *testing.T) {
	p, err := Create()
	if err != nil {
		t.Fatal(err)
	}
	const n = waitEventsBegin - 1
	var fds []int
	for i := 0; i < n; i++ {
		fd, err := unix.Eventfd(1, unix.EFD_NONBLOCK)
		if err != nil {
			t.Skip(err)
		}
		fds = append(fds, fd)
		if err := p.AddRead(fd); err != nil {
			t.Fatal(err)
		}
	}
	if err := p.Wake(); err != nil {
		t.Fatal(err)
	}
	woken := make(chan bool, 16)
	go p.Poll(func(fd int, ev Event) {
		if fd == -1 {
			woken <- true
			return
		}
		var b [8]byte
		unix.Read(fd, b[:])
	})
	select {
	case <-woken:
	case <-time.After(3 * time.Second):
		t.Fatal("the wake-up was not handed over")
	}
	p.Close()
	for _, fd := range fds {
		unix.Close(fd)
	}
}
''')
bug(id="missed-periods-skipped", prop="C10",
 edits=[("everyscheduler.go","	return prev.Add(s.Interval)\n","	next := prev.Add(s.Interval)\n	if now := time.Now(); next.Before(now) {\n		next = now.Add(s.Interval)\n	}\n	return next\n")],
 needs="the goroutine which runs the timers is more than a period late, or the task is registered some time before Start",
 breaks="the periods which passed meanwhile are dropped: the task does not run once per period",
 demo='''
func TestDemo(t *testing.T) {
	s, err := NewServer(&demoH{}, Network("tcp"), Address("127.0.0.1:0"), NumLoops(1))
	if err != nil {
		t.Fatal(err)
	}
	var mu sync.Mutex
	n := 0
	s.RunEvery(10*time.Millisecond, func() { mu.Lock(); n++; mu.Unlock() })
	time.Sleep(500 * time.Millisecond)
	go s.Start()
	defer s.Stop()
	demoWait(200*time.Millisecond, func() bool { mu.Lock(); defer mu.Unlock(); return n >= 50 })
	mu.Lock()
	defer mu.Unlock()
	if n < 50 {
		t.Fatal(n)
	}
}
''')
bug(id="eof-read-while-output-waits", prop="C22",
 edits=[("connection.go","			_ = c.loop.EnableWrite(c.fd)\n","			_ = c.loop.EnableReadWrite(c.fd)\n"),
  ("connection.go","	} else if events&poller.EventRead != 0 {\n","	}\n	if events&poller.EventRead != 0 {\n")],
 needs="a reply larger than the socket buffers and a peer which half-closes before it has read it (each of the two edits alone keeps replies complete)",
 breaks="end-of-stream is read while the reply is still queued: the connection is closed and the rest of the reply is lost",
 demo='''
func TestDemo(t *testing.T) {
	const total = 24 << 20
	s, addr, _ := demoStart(t, &demoH{msg: func(c *Connection, _ interface{}, b []byte) interface{} { return make([]byte, total) }})
	defer s.Stop()
	p := demoDial(t, addr)
	defer p.Close()
	p.Write([]byte("x"))
	time.Sleep(300 * time.Millisecond)
	_ = p.CloseWrite()
	time.Sleep(500 * time.Millisecond)
	_ = p.SetReadDeadline(time.Now().Add(20 * time.Second))
	n, err := io.Copy(io.Discard, p)
	if n != total {
		t.Fatalf("%d of %d bytes: %v", n, total, err)
	}
}
''')
bug(id="write-interest-kept-after-wrap", prop="C24",
 edits=[("connection.go","		if err := c.loop.EnableRead(fd); err != nil {\n			log.Error(\"[enableRead]\", err)\n		}\n","		enable := c.loop.EnableRead\n		if len(end) > 0 {\n			// more output is likely to follow\n			enable = c.loop.EnableReadWrite\n		}\n		if err := enable(fd); err != nil {\n			log.Error(\"[enableRead]\", err)\n		}\n")],
 needs="pending output that wraps around the end of the ring buffer when its last part is flushed",
 breaks="write interest stays registered although nothing is pending: the loop polls without ever sleeping",
 imports=["sync/atomic",'"golang.org/x/sys/unix"','"github.com/Allenxuxu/gev/poller"','"github.com/Allenxuxu/gev/eventloop"'],
 demo='''
type demoSock struct {
	c *Connection
	n int64
}

func (d *demoSock) HandleEvent(fd int, ev poller.Event) {
	atomic.AddInt64(&d.n, 1)
	d.c.HandleEvent(fd, ev)
}
func (d *demoSock) Close() error { return d.c.Close() }

func TestDemo(t *testing.T) {
	sp, err := unix.Socketpair(unix.AF_UNIX, unix.SOCK_STREAM|unix.SOCK_NONBLOCK, 0)
	if err != nil {
		t.Fatal(err)
	}
	l, err := eventloop.New()
	if err != nil {
		t.Fatal(err)
	}
	c := NewConnection(sp[0], l, &unix.SockaddrInet4{}, &DefaultProtocol{}, nil, 0, &demoH{})
	d := &demoSock{c: c}
	l.QueueInLoop(func() {
		if err := l.AddSocketAndEnableRead(sp[0], d); err != nil {
			t.Error(err)
		}
	})
	go l.Run()
	defer l.Stop()
	var got int
	drain := func(max int) {
		b := make([]byte, 4096)
		for max > 0 {
			n, err := unix.Read(sp[1], b[:demoMin(max, len(b))])
			if n <= 0 || err != nil {
				return
			}
			got += n
			max -= n
		}
	}
	sent := 0
	send := func(n int) { sent += n; c.Send(make([]byte, n)); time.Sleep(5 * time.Millisecond) }
	for size := 300000; size < 900000; size += 20000 {
		send(size) // fills the socket buffer
		for k := 0; k < 4000 && c.WriteBufferLength() > 100000; k++ {
			drain(4000)
			time.Sleep(200 * time.Microsecond)
		}
		if c.WriteBufferLength() > 0 {
			send(9000) // behind it, at the start of the ring
		}
		for k := 0; k < 4000 && got < sent; k++ {
			drain(4000)
			time.Sleep(200 * time.Microsecond)
		}
		if got != sent {
			t.Fatal(got, sent)
		}
		time.Sleep(20 * time.Millisecond)
		a := atomic.LoadInt64(&d.n)
		time.Sleep(50 * time.Millisecond)
		if b := atomic.LoadInt64(&d.n); b-a > 20 {
			t.Fatalf("%d events while nothing happens", b-a)
		}
	}
}

func demoMin(a, b int) int {
	if a < b {
		return a
	}
	return b
}
''')
bug(id="context-looked-at-without-lock", prop="C26",
 edits=[("context.go","	c.mu.RLock()\n	value, exists = c.kv[key]\n	c.mu.RUnlock()\n	return\n","	if c.kv == nil {\n		return\n	}\n	c.mu.RLock()\n	value, exists = c.kv[key]\n	c.mu.RUnlock()\n	return\n")],
 needs="Get on one goroutine while another performs the first Set on the connection",
 breaks="the map pointer is read outside the lock: a data race with the first Set",
 demo='''
func TestDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		c := new(Connection)
		var wg sync.WaitGroup
		for k := 0; k < 4; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				if k%2 == 0 {
					c.Get("a")
				} else {
					c.Set("a", k)
				}
			}(k)
		}
		wg.Wait()
	}
}
''', race=True)
bug(id="queue-looked-at-without-lock", prop="C26",
 edits=[("eventloop/eventloop.go","func (l *EventLoop) doPendingFunc() {\n	l.mu.Lock()\n","func (l *EventLoop) doPendingFunc() {\n	if len(l.taskQueueW) == 0 {\n		return\n	}\n	l.mu.Lock()\n")],
 needs="a task being queued on another goroutine at the moment the loop handles a wake-up",
 breaks="the queue is read outside its lock: a data race with QueueInLoop",
 pkg="eventloop", pkgname="eventloop", helper=False, imports=["sync","time"],
 demo='''
func TestDemo(t *testing.T) {
	l, err := New()
	if err != nil {
		t.Fatal(err)
	}
	done := make(chan bool)
	go func() { l.Run(); close(done) }()
	time.Sleep(50 * time.Millisecond)
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 5000; i++ {
				l.QueueInLoop(func() {})
			}
		}()
	}
	wg.Wait()
	time.Sleep(50 * time.Millisecond)
	l.Stop()
	<-done
}
''', race=True)
bug(id="upgrade-error-ends-loop-late", prop="C25",
 edits=[("plugins/websocket/ws/ws.go","		if err != nil || len(lines[i]) == 0 {\n			// Blank line, no more lines to read.\n			break\n		}\n\n		k, v, ok := httpParseHeaderLine(lines[i])","		if len(lines[i]) == 0 {\n			// Blank line, no more lines to read.\n			break\n		}\n\n		k, v, ok := httpParseHeaderLine(lines[i])"),
  ("plugins/websocket/ws/ws.go","			if onHeader := u.OnHeader; onHeader != nil {\n				err = onHeader(c, k, v)\n			}","			if onHeader := u.OnHeader; err == nil && onHeader != nil {\n				err = onHeader(c, k, v)\n			}"),
  ("plugins/websocket/ws/ws.go","			if onHost := u.OnHost; onHost != nil {\n				err = onHost(c, v)","			if onHost := u.OnHost; onHost != nil {\n				if e := onHost(c, v); err == nil {\n					err = e\n				}")],
 needs="a request rejected before its Host line was read (by OnRequest, or a header that precedes it)",
 breaks="OnHost is still called for a request that has been rejected",
 pkg="plugins/websocket/ws", pkgname="ws", helper=False,
 imports=["errors",'"github.com/Allenxuxu/gev"','"github.com/Allenxuxu/ringbuffer"'],
 demo='''
func TestDemo(t *testing.T) {
	called := false
	u := &Upgrader{
		OnRequest: func(c *gev.Connection, uri []byte) error { return errors.New("no") },
		OnHost:    func(c *gev.Connection, h []byte) error { called = true; return nil },
	}
	rb := ringbuffer.New(0)
	rb.WriteString("GET / HTTP/1.1\\r\\nHost: x\\r\\nUpgrade: websocket\\r\\nConnection: Upgrade\\r\\nSec-WebSocket-Version: 13\\r\\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\\r\\n\\r\\n")
	if _, _, err := u.Upgrade(nil, rb); err == nil {
		t.Fatal("upgraded")
	}
	if called {
		t.Fatal("OnHost was called after the rejection")
	}
}
''')
