bug(id="full-read-loses-data-before-eof", prop="C01",
 edits=[("connection.go","	n, err := unix.Read(c.fd, buf)\n	if n == 0 || err != nil {\n","	n, err := c.readAvailable(&buf)\n	if n == 0 || err != nil {\n"),
  ("connection.go","func (c *Connection) handleWrite(fd int) (closed bool) {\n",'''// readAvailable reads once more if the buffer was filled
func (c *Connection) readAvailable(buf *[]byte) (n int, err error) {
	n, err = unix.Read(c.fd, *buf)
	if err != nil || n < len(*buf) {
		return
	}

	more := make([]byte, n)
	m, err := unix.Read(c.fd, more)
	if err == unix.EAGAIN {
		return n, nil
	}
	if m <= 0 || err != nil {
		return m, err
	}
	*buf = append(*buf, more[:m]...)
	return n + m, nil
}

func (c *Connection) handleWrite(fd int) (closed bool) {
''')],
 needs="a read which fills the loop's packet buffer exactly, with nothing but end-of-stream behind it",
 breaks="the bytes of the first read are dropped: the callback never sees the end of what the peer sent before it closed",
 demo='''
func TestDemo(t *testing.T) {
	var mu sync.Mutex
	got, first := 0, true
	s, addr, _ := demoStart(t, &demoH{msg: func(c *Connection, _ interface{}, b []byte) interface{} {
		mu.Lock()
		got += len(b)
		f := first
		first = false
		mu.Unlock()
		if f { // the loop is busy while the rest arrives
			time.Sleep(500 * time.Millisecond)
		}
		return nil
	}})
	defer s.Stop()
	p := demoDial(t, addr)
	defer p.Close()
	p.Write([]byte("x"))
	time.Sleep(200 * time.Millisecond)
	p.Write(make([]byte, 65536))
	p.CloseWrite()
	demoWait(3*time.Second, func() bool { mu.Lock(); defer mu.Unlock(); return got >= 65537 })
	mu.Lock()
	defer mu.Unlock()
	if got != 65537 {
		t.Fatalf("%d of 65537 bytes", got)
	}
}
''')
bug(id="empty-message-ends-connection", prop="C05",
 edits=[("connection.go","		if err != nil && err != unix.EAGAIN {\n			c.handleClose(c.fd)\n			closed = true\n			return\n		}\n\n		if n <= 0 {\n",
  "		if n == 0 || (err != nil && err != unix.EAGAIN) {\n			c.handleClose(c.fd)\n			closed = true\n			return\n		}\n\n		if n < 0 {\n")],
 needs="an empty message given to Send while nothing is pending",
 breaks="a write of zero bytes is taken for the end of the connection, as with reads: the connection is closed although nobody asked for it",
 demo='''
func TestDemo(t *testing.T) {
	s, addr, _ := demoStart(t, &demoH{msg: func(c *Connection, _ interface{}, b []byte) interface{} {
		c.Send([]byte{})
		c.Send([]byte("answer"))
		return nil
	}})
	defer s.Stop()
	p := demoDial(t, addr)
	defer p.Close()
	p.Write([]byte("x"))
	_ = p.SetReadDeadline(time.Now().Add(5 * time.Second))
	b := make([]byte, 6)
	if _, err := io.ReadFull(p, b); err != nil || string(b) != "answer" {
		t.Fatalf("%q %v", b, err)
	}
}
''')
bug(id="close-waits-for-reader", prop="C05",
 edits=[("connection.go","	c.loop.QueueInLoop(func() {\n		c.handleClose(c.fd)\n	})\n	return nil\n",'''	c.loop.QueueInLoop(func() {
		if c.connected.Get() && !c.outBuffer.IsEmpty() {
			// let the peer have what was sent so far
			c.closing = true
			return
		}
		c.handleClose(c.fd)
	})
	return nil
'''),
  ("connection.go","			if c.outBuffer.IsEmpty() {\n				c.outBuffer.Reset()\n","			if c.outBuffer.IsEmpty() {\n				if c.closing {\n					c.handleClose(fd)\n					return\n				}\n				c.outBuffer.Reset()\n"),
  ("connection.go","	connected    atomic.Bool\n","	connected    atomic.Bool\n	closing      bool\n")],
 needs="Close called while output is pending for a peer that does not read",
 breaks="the connection is not closed as long as the peer does not read: no close callback, the descriptor stays open, also on Stop",
 demo='''
func TestDemo(t *testing.T) {
	closed := make(chan bool, 1)
	s, addr, _ := demoStart(t, &demoH{
		msg: func(c *Connection, _ interface{}, b []byte) interface{} {
			c.Send(make([]byte, 64<<20))
			c.Close()
			return nil
		},
		cls: func(*Connection) { closed <- true },
	})
	defer s.Stop()
	p := demoDial(t, addr)
	defer p.Close()
	p.Write([]byte("x"))
	select {
	case <-closed:
	case <-time.After(5 * time.Second):
		t.Fatal("not closed")
	}
}
''')
