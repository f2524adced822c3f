bug(id="empty-continuation-dropped", prop="C14",
 edits=[("plugins/websocket/wrap.go","	if ok {\n		if header.OpCode.IsControl() {","	if ok && (len(payload) != 0 || header.OpCode != ws.OpContinuation) {\n		if header.OpCode.IsControl() {")],
 needs="a message in several frames one of which, not the first, is empty (senders end a message of unknown length so)",
 breaks="the empty frame causes no message callback: the application never learns that the message ended, and the reply is missing",
 pkg="plugins/websocket", pkgname="websocket", helper=False, imports=['"github.com/Allenxuxu/gev"','"github.com/Allenxuxu/gev/plugins/websocket/ws"'],
 demo='''
type demoWS struct{ n int }

func (d *demoWS) OnConnect(c *gev.Connection) {}
func (d *demoWS) OnClose(c *gev.Connection)   {}
func (d *demoWS) OnMessage(c *gev.Connection, msg []byte) (ws.MessageType, []byte) {
	d.n++
	return ws.MessageText, []byte("got it")
}

func TestDemo(t *testing.T) {
	d := &demoWS{}
	h := NewHandlerWrap(nil, d)
	for i, f := range []struct {
		h *ws.Header
		p []byte
	}{
		{&ws.Header{OpCode: ws.OpText, Masked: true, Length: 3}, []byte("abc")},
		{&ws.Header{OpCode: ws.OpContinuation, Masked: true, Length: 2}, []byte("de")},
		{&ws.Header{OpCode: ws.OpContinuation, Masked: true, Fin: true}, nil},
	} {
		if out := h.OnMessage(nil, f.h, f.p); out == nil || d.n != i+1 {
			t.Fatalf("frame %d: %d callbacks, reply %v", i, d.n, out)
		}
	}
}
''')
bug(id="queued-output-not-counted", prop="C19",
 edits=[("connection.go","	if !c.outBuffer.IsEmpty() {\n		_, _ = c.outBuffer.Write(data)\n","	if !c.outBuffer.IsEmpty() {\n		_, _ = c.outBuffer.Write(data)\n		return\n")],
 needs="a Send while output is already waiting, to a peer which accepts nothing for a while",
 breaks="the write backlog is reported without what was queued behind the first message",
 demo='''
func TestDemo(t *testing.T) {
	ready := make(chan *Connection, 1)
	s, addr, _ := demoStart(t, &demoH{conn: func(c *Connection) { ready <- c }})
	defer s.Stop()
	p := demoDial(t, addr)
	defer p.Close()
	c := <-ready
	_ = c.Send(make([]byte, 16<<20))
	if !demoWait(5*time.Second, func() bool { return c.WriteBufferLength() > 0 }) {
		t.Skip("no backlog")
	}
	time.Sleep(500 * time.Millisecond) // the kernel takes no more
	before := c.WriteBufferLength()
	_ = c.Send(make([]byte, 4<<20))
	if !demoWait(3*time.Second, func() bool { return c.WriteBufferLength() >= before+3<<20 }) {
		t.Fatalf("the backlog was %d, 4 MB later it is %d", before, c.WriteBufferLength())
	}
}
''')
bug(id="half-closed-peer-spins", prop="C24",
 edits=[("poller/epoll.go","const writeEvent = unix.EPOLLOUT","const writeEvent = unix.EPOLLOUT | unix.EPOLLRDHUP")],
 needs="a peer which half-closes while output to it waits, and does not read for a while",
 breaks="the hang-up is reported over and over and never consumed, the loop uses a whole processor until the peer reads",
 imports=['"golang.org/x/sys/unix"'],
 demo='''
func demoCPU() time.Duration {
	var r unix.Rusage
	_ = unix.Getrusage(unix.RUSAGE_SELF, &r)
	return time.Duration(r.Utime.Nano() + r.Stime.Nano())
}

func TestDemo(t *testing.T) {
	ready := make(chan *Connection, 1)
	s, addr, _ := demoStart(t, &demoH{conn: func(c *Connection) { ready <- c }})
	defer s.Stop()
	p := demoDial(t, addr)
	defer p.Close()
	c := <-ready
	_ = c.Send(make([]byte, 16<<20))
	if !demoWait(5*time.Second, func() bool { return c.WriteBufferLength() > 0 }) {
		t.Skip("no backlog")
	}
	_ = p.CloseWrite()
	time.Sleep(500 * time.Millisecond)
	before := demoCPU()
	time.Sleep(2 * time.Second)
	if d := demoCPU() - before; d > 700*time.Millisecond {
		t.Fatalf("%v of processor time within 2 s, with nothing to do", d)
	}
}
''')
