bug(id="registration-failure-still-counted", prop="C17",
 edits=[("eventloop/eventloop.go","""	l.sockets[fd] = s
	if err := l.poll.AddRead(fd); err != nil {
		delete(l.sockets, fd)
		return err
	}

	l.ConnCunt.Add(1)
	return nil
""","""	l.sockets[fd] = s
	l.ConnCunt.Add(1)
	if err := l.poll.AddRead(fd); err != nil {
		delete(l.sockets, fd)
		return err
	}

	return nil
""")],
 needs="epoll_ctl refusing to add the descriptor (watch limit, no memory)",
 breaks="the loop's connection count stays one too high for ever, least-connection balancing avoids the loop",
 pkg="eventloop", pkgname="eventloop", helper=False, imports=["os",'"github.com/Allenxuxu/gev/poller"'],
 demo='''
type demoSock struct{}

func (demoSock) HandleEvent(fd int, e poller.Event) {}
func (demoSock) Close() error                       { return nil }

func TestDemo(t *testing.T) {
	l, err := New()
	if err != nil {
		t.Fatal(err)
	}
	// epoll refuses regular files
	f, err := os.CreateTemp("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.Remove(f.Name())
	defer f.Close()
	if err := l.AddSocketAndEnableRead(int(f.Fd()), demoSock{}); err == nil {
		t.Skip("accepted")
	}
	if n := l.ConnectionCount(); n != 0 {
		t.Fatalf("%d connections", n)
	}
}
''')
bug(id="frame-length-signed", prop="C14",
 edits=[("plugins/websocket/ws/read.go","h.Length = int64(binary.BigEndian.Uint16(bts[:2]))","h.Length = int64(int16(binary.BigEndian.Uint16(bts[:2])))")],
 needs="a frame with a payload between 32768 and 65535 bytes",
 breaks="the length is taken for negative and the connection's goroutine panics or the frame is lost",
 pkg="plugins/websocket/ws", pkgname="ws", helper=False, imports=['"github.com/Allenxuxu/ringbuffer"'],
 demo='''
func TestDemo(t *testing.T) {
	for _, n := range []int{126, 1000, 32767, 32768, 65535} {
		h := Header{Fin: true, OpCode: OpBinary, Masked: true, Mask: [4]byte{1, 2, 3, 4}, Length: int64(n)}
		b, err := WriteHeader(&h)
		if err != nil {
			t.Fatal(err)
		}
		r := ringbuffer.New(n + 100)
		r.Write(b)
		r.Write(make([]byte, n))
		got, err := VirtualReadHeader(make([]byte, 0, 16), r)
		if err != nil || got != h {
			t.Fatalf("%d: %+v %v", n, got, err)
		}
	}
}
''')
bug(id="frame-length-65536", prop="C14",
 edits=[("plugins/websocket/ws/write.go","	case h.Length <= len16:\n		bts[1] = 126\n","	case h.Length <= len16+1:\n		bts[1] = 126\n")],
 needs="an outgoing message of exactly 65536 bytes",
 breaks="its length is written as 0 in the 16-bit form: the peer misreads this and all later frames",
 pkg="plugins/websocket/ws", pkgname="ws", helper=False,
 demo='''
func TestDemo(t *testing.T) {
	for _, n := range []int{0, 125, 126, 65535, 65536, 65537} {
		b, err := FrameToBytes(NewBinaryFrame(make([]byte, n)))
		if err != nil {
			t.Fatal(err)
		}
		got := int(b[1] & 0x7f)
		h := 2
		if got == 126 {
			got, h = int(b[2])<<8|int(b[3]), 4
		} else if got == 127 {
			got, h = 0, 10
			for _, x := range b[2:10] {
				got = got<<8 | int(x)
			}
		}
		if got != n || len(b) != n+h {
			t.Fatalf("message of %d bytes announced as %d", n, got)
		}
	}
}
''')
bug(id="packet-cut-in-last-bytes", prop="C13",
 edits=[("plugins/protobuf/protocol.go","if buffer.Length() >= length+4 {","if buffer.Length() >= length {")],
 needs="a segment that ends within the last four bytes of a packet",
 breaks="the packet is decoded before it is complete: its end is zeroes and the stream loses its framing",
 pkg="plugins/protobuf", pkgname="protobuf", helper=False, imports=['"github.com/Allenxuxu/ringbuffer"',"bytes"],
 demo='''
func TestDemo(t *testing.T) {
	p := New()
	m := PackMessage("type", bytes.Repeat([]byte{7}, 50))
	for cut := 1; cut < len(m); cut++ {
		r := ringbuffer.New(0)
		r.Write(m[:cut])
		if ctx, out := p.UnPacket(nil, r); ctx != nil || out != nil {
			t.Fatalf("delivered after %d of %d bytes", cut, len(m))
		}
		r.Write(m[cut:])
		ctx, out := p.UnPacket(nil, r)
		if ctx != "type" || !bytes.Equal(out, bytes.Repeat([]byte{7}, 50)) {
			t.Fatalf("cut at %d: %v %v", cut, ctx, out)
		}
	}
}
''')
bug(id="one-byte-close-body", prop="C16",
 edits=[("plugins/websocket/ws/read.go","	if len(payload) < 2 {\n","	if len(payload) == 0 {\n")],
 needs="a close frame whose body is a single byte",
 breaks="index out of range: the whole server process dies",
 pkg="plugins/websocket/ws/util", pkgname="util", helper=False, imports=['"github.com/Allenxuxu/gev/plugins/websocket/ws"'],
 demo='''
func TestDemo(t *testing.T) {
	for n := 0; n < 4; n++ {
		h := &ws.Header{Fin: true, OpCode: ws.OpClose, Length: int64(n)}
		if _, err := HandleClose(h, make([]byte, n)); err != nil {
			t.Fatal(err)
		}
	}
}
''')
bug(id="first-set-races", prop="C18",
 edits=[("context.go","""	c.mu.Lock()
	if c.kv == nil {
		c.kv = make(map[string]interface{})
	}

	c.kv[key] = value
	c.mu.Unlock()
""","""	c.mu.RLock()
	fresh := c.kv == nil
	c.mu.RUnlock()

	c.mu.Lock()
	if fresh {
		c.kv = make(map[string]interface{})
	}
	c.kv[key] = value
	c.mu.Unlock()
""")],
 needs="two goroutines both making the first Set call on a connection at the same moment",
 breaks="the second one replaces the map: the first value is lost although its Set returned",
 imports=["strconv"],
 demo='''
func TestDemo(t *testing.T) {
	for i := 0; i < 100000; i++ {
		var c KeyValueContext
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				<-start
				c.Set(strconv.Itoa(g), g)
			}(g)
		}
		close(start)
		wg.Wait()
		for g := 0; g < 4; g++ {
			if v, ok := c.Get(strconv.Itoa(g)); !ok || v != g {
				t.Fatalf("round %d: key %d lost", i, g)
			}
		}
	}
}
''')
bug(id="write-gauge-stale-after-flush", prop="C19",
 edits=[("connection.go","""			if c.handleWrite(fd) {
				return
			}
""","""			if c.handleWrite(fd) || c.outBuffer.IsEmpty() {
				return
			}
""")],
 needs="a write backlog which is flushed completely by one event, and nothing written or read afterwards",
 breaks="WriteBufferLength keeps reporting the old backlog of a connection that has none",
 demo='''
func TestDemo(t *testing.T) {
	ready := make(chan *Connection, 1)
	s, addr, _ := demoStart(t, &demoH{conn: func(c *Connection) { ready <- c }})
	defer s.Stop()
	p := demoDial(t, addr)
	defer p.Close()
	c := <-ready
	const total = 16 << 20
	_ = c.Send(make([]byte, total))
	if !demoWait(5*time.Second, func() bool { return c.WriteBufferLength() > 0 }) {
		t.Skip("no backlog")
	}
	if _, err := io.ReadFull(p, make([]byte, total)); err != nil {
		t.Fatal(err)
	}
	if !demoWait(3*time.Second, func() bool { return c.WriteBufferLength() == 0 }) {
		t.Fatalf("everything was read but the backlog is %d", c.WriteBufferLength())
	}
}
''')
bug(id="poller-create-leak", prop="C20",
 edits=[("poller/epoll.go","""	if errno != 0 {
		_ = unix.Close(fd)
		return nil, errno
""","""	if errno != 0 {
		return nil, errno
""")],
 needs="the descriptor limit reached exactly between epoll_create1 and eventfd2",
 breaks="the epoll descriptor leaks whenever creating a poller fails there",
 pkg="poller", pkgname="poller", helper=False, imports=['"golang.org/x/sys/unix"'],
 demo='''
func TestDemo(t *testing.T) {
	warm, err := Create()
	if err != nil {
		t.Fatal(err)
	}
	warm.Release()
	var old unix.Rlimit
	if err := unix.Getrlimit(unix.RLIMIT_NOFILE, &old); err != nil {
		t.Fatal(err)
	}
	free := func() int {
		fd, err := unix.Dup(0)
		if err != nil {
			t.Fatal(err)
		}
		unix.Close(fd)
		return fd
	}
	lowest := free()
	lim := old
	lim.Cur = uint64(lowest + 1)
	if err := unix.Setrlimit(unix.RLIMIT_NOFILE, &lim); err != nil {
		t.Fatal(err)
	}
	_, err = Create()
	if e := unix.Setrlimit(unix.RLIMIT_NOFILE, &old); e != nil {
		t.Fatal(e)
	}
	if err == nil {
		t.Skip("it succeeded")
	}
	if now := free(); now != lowest {
		t.Fatalf("a descriptor leaked: lowest free was %d, is %d", lowest, now)
	}
}
''')
bug(id="ws-close-drops-owed-replies", prop="C23",
 edits=[("plugins/websocket/wrap.go","				_ = c.ShutdownWrite()\n","				_ = c.Close()\n")],
 needs="a close frame which arrives while replies to earlier frames still wait for the peer to read",
 breaks="the connection is closed at once: the queued replies and the close frame never reach the peer",
 pkg="plugins/websocket", pkgname="websocket", helper=False,
 imports=["net","time","io","strings",'"github.com/Allenxuxu/gev"','"github.com/Allenxuxu/gev/plugins/websocket/ws"'],
 demo='''
const demoReply = 24 << 20

type demoH struct{}

func (demoH) OnConnect(c *gev.Connection) {}
func (demoH) OnClose(c *gev.Connection)   {}
func (demoH) OnMessage(c *gev.Connection, b []byte) (ws.MessageType, []byte) {
	return ws.MessageBinary, make([]byte, demoReply)
}

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	addr := l.Addr().String()
	l.Close()
	u := &ws.Upgrader{}
	s, err := gev.NewServer(NewHandlerWrap(u, demoH{}), gev.Network("tcp"), gev.Address(addr), gev.NumLoops(1), gev.CustomProtocol(New(u)))
	if err != nil {
		t.Fatal(err)
	}
	go s.Start()
	defer s.Stop()
	time.Sleep(200 * time.Millisecond)
	c, err := net.Dial("tcp", addr)
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	_ = c.SetDeadline(time.Now().Add(20 * time.Second))
	io.WriteString(c, "GET / HTTP/1.1\\r\\nHost: x\\r\\nUpgrade: websocket\\r\\nConnection: Upgrade\\r\\nSec-WebSocket-Version: 13\\r\\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\\r\\n\\r\\n")
	head := ""
	b := make([]byte, 1)
	for !strings.HasSuffix(head, "\\r\\n\\r\\n") {
		if _, err := c.Read(b); err != nil {
			t.Fatal(err)
		}
		head += string(b)
	}
	frame := func(op byte, p []byte) []byte { return append([]byte{0x80 | op, 0x80 | byte(len(p)), 0, 0, 0, 0}, p...) }
	c.Write(append(frame(2, []byte("hello")), frame(8, []byte{3, 232})...))
	time.Sleep(500 * time.Millisecond)
	n, err := io.Copy(io.Discard, c)
	if n != 10+demoReply+4 {
		t.Fatalf("%d of %d bytes: %v", n, 10+demoReply+4, err)
	}
}
''')
bug(id="connect-callback-off-loop", prop="C04",
 edits=[("server.go","""	loop.QueueInLoop(func() {
		s.callback.OnConnect(c)
		if err""","""	s.callback.OnConnect(c)
	loop.QueueInLoop(func() {
		if err""")],
 needs="a connection accepted while its loop is running a callback of another connection",
 breaks="the connect callback runs on the listener's goroutine, at the same time as callbacks of its loop",
 demo='''
func TestDemo(t *testing.T) {
	var mu sync.Mutex
	in, overlap := 0, false
	enter := func() {
		mu.Lock()
		in++
		overlap = overlap || in > 1
		mu.Unlock()
	}
	leave := func() { mu.Lock(); in--; mu.Unlock() }
	busy := make(chan struct{}, 1)
	s, addr, _ := demoStart(t, &demoH{
		conn: func(*Connection) { enter(); leave() },
		msg: func(*Connection, interface{}, []byte) interface{} {
			enter()
			busy <- struct{}{}
			time.Sleep(500 * time.Millisecond)
			leave()
			return nil
		}})
	defer s.Stop()
	a := demoDial(t, addr)
	defer a.Close()
	a.Write([]byte("x"))
	<-busy
	b := demoDial(t, addr)
	defer b.Close()
	time.Sleep(800 * time.Millisecond)
	mu.Lock()
	defer mu.Unlock()
	if overlap {
		t.Fatal("callbacks of one loop overlap")
	}
}
''')
bug(id="stop-closes-sockets-too-early", prop="C11",
 edits=[("eventloop/eventloop.go","""	l.QueueInLoop(func() {
		for _, v := range l.sockets {
			if err := v.Close(); err != nil {
				log.Error(err)
			}
		}
	})

	return l.poll.Close()
""","""	for _, v := range l.sockets {
		if err := v.Close(); err != nil {
			log.Error(err)
		}
	}

	return l.poll.Close()
""")],
 needs="a connection accepted but not yet registered with its (busy) loop when Stop is called",
 breaks="Stop does not see it: it is never closed, its close callback never runs, its descriptor leaks",
 demo='''
func TestDemo(t *testing.T) {
	var mu sync.Mutex
	opened, closed := 0, 0
	busy := make(chan struct{}, 1)
	s, addr, done := demoStart(t, &demoH{
		conn: func(*Connection) { mu.Lock(); opened++; mu.Unlock() },
		cls:  func(*Connection) { mu.Lock(); closed++; mu.Unlock() },
		msg: func(*Connection, interface{}, []byte) interface{} {
			busy <- struct{}{}
			time.Sleep(700 * time.Millisecond)
			return nil
		}})
	a := demoDial(t, addr)
	defer a.Close()
	a.Write([]byte("x"))
	<-busy
	b := demoDial(t, addr)
	defer b.Close()
	time.Sleep(300 * time.Millisecond)
	s.Stop()
	<-done
	mu.Lock()
	defer mu.Unlock()
	if opened != closed {
		t.Fatalf("%d connections opened, %d closed", opened, closed)
	}
}
''')
bug(id="finish-callback-before-write", prop="C21",
 edits=[("connection.go","""			closed := c.sendInLoop(c.protocol.Packet(c, data))

			if !closed && opt.sendInLoopFinish != nil {
				opt.sendInLoopFinish(data)
			}
""","""			if opt.sendInLoopFinish != nil {
				defer opt.sendInLoopFinish(data)
			}
			c.sendInLoop(c.protocol.Packet(c, data))
""")],
 needs="a Send with completion callback whose write fails because the peer has reset the connection",
 breaks="the completion callback reports success for a message whose write failed and which closed the connection",
 demo='''
func TestDemo(t *testing.T) {
	ready := make(chan *Connection, 1)
	hold, release, hold2, release2 := make(chan struct{}), make(chan struct{}), make(chan struct{}), make(chan struct{})
	s, addr, _ := demoStart(t, &demoH{conn: func(c *Connection) { ready <- c }})
	defer s.Stop()
	p := demoDial(t, addr)
	c := <-ready
	// both tasks run one after the other, without a look at the socket in between
	c.loop.QueueInLoop(func() { close(hold); <-release })
	<-hold
	finished := make(chan struct{}, 1)
	c.loop.QueueInLoop(func() { close(hold2); <-release2 })
	_ = c.Send([]byte("never sent"), SendInLoop(func(interface{}) { finished <- struct{}{} }))
	close(release)
	<-hold2
	_ = p.SetLinger(0)
	p.Close()
	time.Sleep(100 * time.Millisecond)
	close(release2)
	if !demoWait(3*time.Second, func() bool { return !c.Connected() }) {
		t.Fatal("not closed")
	}
	time.Sleep(50 * time.Millisecond)
	select {
	case <-finished:
		t.Fatal("completion callback for a failed Send")
	default:
	}
}
''')
bug(id="upgrade-swallows-pipelined-frames", prop="C15",
 edits=[("plugins/websocket/protocol.go","""		c.Set(upgradedKey, true)
		c.Set(headerbufferKey,""","""		buffer.RetrieveAll()
		c.Set(upgradedKey, true)
		c.Set(headerbufferKey,"""),("plugins/websocket/protocol.go","		out, _, err = p.upgrade.Upgrade(c, buffer)\n		if err != nil {\n","		if out, _, err = p.upgrade.Upgrade(c, buffer); err != nil {\n")],
 needs="a frame sent in the same segment as the upgrade request",
 breaks="the frame is thrown away with the request",
 pkg="plugins/websocket", pkgname="websocket", helper=False,
 imports=["net","time","io",'"github.com/Allenxuxu/gev"','"github.com/Allenxuxu/gev/plugins/websocket/ws"'],
 demo='''
type demoH struct{ got chan string }

func (demoH) OnConnect(c *gev.Connection) {}
func (demoH) OnClose(c *gev.Connection)   {}
func (h demoH) OnMessage(c *gev.Connection, b []byte) (ws.MessageType, []byte) {
	h.got <- string(b)
	return ws.MessageBinary, nil
}

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	addr := l.Addr().String()
	l.Close()
	u := &ws.Upgrader{}
	h := demoH{make(chan string, 10)}
	s, err := gev.NewServer(NewHandlerWrap(u, h), gev.Network("tcp"), gev.Address(addr), gev.NumLoops(1), gev.CustomProtocol(New(u)))
	if err != nil {
		t.Fatal(err)
	}
	go s.Start()
	defer s.Stop()
	time.Sleep(200 * time.Millisecond)
	c, err := net.Dial("tcp", addr)
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	frame := func(op byte, p []byte) string { return string(append([]byte{0x80 | op, 0x80 | byte(len(p)), 0, 0, 0, 0}, p...)) }
	io.WriteString(c, "GET / HTTP/1.1\\r\\nHost: x\\r\\nUpgrade: websocket\\r\\nConnection: Upgrade\\r\\nSec-WebSocket-Version: 13\\r\\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\\r\\n\\r\\n"+frame(2, []byte("early")))
	select {
	case m := <-h.got:
		if m != "early" {
			t.Fatal(m)
		}
	case <-time.After(3 * time.Second):
		t.Fatal("frame lost")
	}
}
''')
