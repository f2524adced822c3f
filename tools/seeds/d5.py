bug(id="default-strategy-of-the-process", prop="C27",
 edits=[("options.go","		opts.Strategy = RoundRobin()","		opts.Strategy = defaultStrategy"),
  ("options.go","func newOptions(",'''// defaultStrategy is used when the application chose none
var defaultStrategy = RoundRobin()

func newOptions(''')],
 needs="two servers with the default strategy and as many loops, which accept in alternation",
 breaks="round robin keeps its position for all servers of the process: the connections of one server all land on the same loop",
 imports=["runtime","strings"],
 demo='''
func TestDemo(t *testing.T) {
	var mu sync.Mutex
	on := map[string]int{}
	n := 0
	s1, a1, _ := demoStart(t, &demoH{conn: func(*Connection) {
		b := make([]byte, 64)
		b = b[:runtime.Stack(b, false)]
		mu.Lock()
		defer mu.Unlock()
		n++
		on[strings.Fields(string(b))[1]]++
	}}, NumLoops(2))
	defer s1.Stop()
	m := 0
	s2, a2, _ := demoStart(t, &demoH{conn: func(*Connection) { mu.Lock(); m++; mu.Unlock() }}, NumLoops(2))
	defer s2.Stop()
	for i := 1; i <= 6; i++ {
		p := demoDial(t, a1)
		defer p.Close()
		demoWait(3*time.Second, func() bool { mu.Lock(); defer mu.Unlock(); return n == i })
		q := demoDial(t, a2)
		defer q.Close()
		demoWait(3*time.Second, func() bool { mu.Lock(); defer mu.Unlock(); return m == i })
	}
	mu.Lock()
	defer mu.Unlock()
	if n != 6 || len(on) != 2 {
		t.Fatalf("%d connections on %d of 2 loops", n, len(on))
	}
}
''')
bug(id="user-buffer-shared-by-loops", prop="C01",
 edits=[("eventloop/eventloop.go","	userBuffer := make([]byte, DefaultBufferSize)\n",""),
  ("eventloop/eventloop.go","			UserBuffer: &userBuffer,","			UserBuffer: &scratch,"),
  ("eventloop/eventloop.go","// New 创建一个 EventLoop",'''// scratch is handed to the protocols as temporary space
var scratch = make([]byte, DefaultBufferSize)

// New 创建一个 EventLoop''')],
 needs="a protocol which leaves input for later and falls back to the default one, input that wraps around in the ring buffer, on two loops at once",
 breaks="the loops assemble wrapped input in the same temporary buffer: what a message callback was handed changes under its hands",
 imports=['"github.com/Allenxuxu/ringbuffer"'],
 demo='''
// leaves input until there are 1000 bytes, takes 990, the next 1000 wrap around
type demoWrap struct {
	DefaultProtocol
}

func (d *demoWrap) UnPacket(c *Connection, b *ringbuffer.RingBuffer) (interface{}, []byte) {
	_, end := b.PeekAll()
	if len(end) > 0 {
		return d.DefaultProtocol.UnPacket(c, b)
	}
	if n := b.Length(); n > 900 {
		d := make([]byte, n-100)
		_, _ = b.Read(d)
		return nil, d
	}
	return nil, nil
}

func TestDemo(t *testing.T) {
	var mu sync.Mutex
	wrapped, changed := 0, 0
	s, addr, _ := demoStart(t, &demoH{msg: func(c *Connection, _ interface{}, b []byte) interface{} {
		x := append([]byte(nil), b...)
		time.Sleep(300 * time.Millisecond)
		mu.Lock()
		defer mu.Unlock()
		if len(b) < 900 || b[0] != b[len(b)-1] {
			wrapped++
		}
		if !bytes.Equal(x, b) {
			changed++
		}
		return nil
	}}, NumLoops(2), CustomProtocol(&demoWrap{}))
	defer s.Stop()
	send := func(v byte, phase time.Duration) {
		p := demoDial(t, addr)
		defer p.Close()
		time.Sleep(phase)
		for i := 0; i < 12; i++ {
			p.Write(bytes.Repeat([]byte{v + byte(i)}, 450))
			time.Sleep(350 * time.Millisecond)
		}
	}
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		i := i
		wg.Add(1)
		go func() { defer wg.Done(); send(byte(1+100*i), time.Duration(i)*150*time.Millisecond) }()
		time.Sleep(20 * time.Millisecond)
	}
	wg.Wait()
	mu.Lock()
	defer mu.Unlock()
	if changed > 0 {
		t.Fatalf("the data of %d messages changed (%d)", changed, wrapped)
	}
}
''')
bug(id="round-robin-byte", prop="C12",
 edits=[("load_balance.go",'''	var nextLoopIndex int
	return func(loops []*eventloop.EventLoop) *eventloop.EventLoop {
		l := loops[nextLoopIndex]
		nextLoopIndex = (nextLoopIndex + 1) % len(loops)
		return l
''','''	var turn uint8
	return func(loops []*eventloop.EventLoop) *eventloop.EventLoop {
		l := loops[int(turn)%len(loops)]
		turn++
		return l
''')],
 needs="more than 256 connections, a number of loops which does not divide 256",
 breaks="when the counter wraps around the turn starts over: the same loops are chosen again before the others had their turn",
 imports=['"github.com/Allenxuxu/gev/eventloop"'], helper=False,
 demo='''
func TestDemo(t *testing.T) {
	loops := []*eventloop.EventLoop{{}, {}, {}}
	rr := RoundRobin()
	for i := 0; i < 2000; i++ {
		if rr(loops) != loops[i%3] {
			t.Fatalf("choice %d", i)
		}
	}
}
''')
bug(id="protobuf-type-in-pooled-memory", prop="C13",
 edits=[("plugins/protobuf/protocol.go",'''			ctx = string(typeByte)
			pbytes.Put(typeByte)
''','''			// no copy: the callback looks at it before the next frame is read
			ctx = *(*string)(unsafe.Pointer(&typeByte))
			pbytes.Put(typeByte)
'''),("plugins/protobuf/protocol.go",'import (\n','import (\n	"unsafe"\n\n')],
 needs="a message type of more than 64 bytes (shorter ones are not pooled), and an application which keeps the type, or two loops",
 breaks="the type is a string over memory that is back in the pool: it becomes the type of another message, of another connection",
 pkg="plugins/protobuf", pkgname="protobuf", helper=False, imports=["net","time","sync","strings","fmt",'"github.com/Allenxuxu/gev"'],
 demo='''
type demoPB struct {
	mu    sync.Mutex
	types []string
}

func (h *demoPB) OnConnect(*gev.Connection) {}
func (h *demoPB) OnClose(*gev.Connection)   {}
func (h *demoPB) OnMessage(c *gev.Connection, ctx interface{}, b []byte) interface{} {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.types = append(h.types, ctx.(string))
	return nil
}

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	addr := l.Addr().String()
	l.Close()
	h := &demoPB{}
	s, err := gev.NewServer(h, gev.Address(addr), gev.NumLoops(1), gev.CustomProtocol(New()))
	if err != nil {
		t.Fatal(err)
	}
	go s.Start()
	defer s.Stop()
	p, err := net.DialTimeout("tcp", addr, 5*time.Second)
	if err != nil {
		t.Fatal(err)
	}
	defer p.Close()
	for i := 0; i < 50; i++ {
		_, _ = p.Write(PackMessage(strings.Repeat(fmt.Sprint(i%10), 200), []byte("x")))
	}
	for k := 0; k < 300; k++ {
		h.mu.Lock()
		n := len(h.types)
		h.mu.Unlock()
		if n == 50 {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	if len(h.types) != 50 {
		t.Fatal(len(h.types))
	}
	for i, x := range h.types {
		if x != strings.Repeat(fmt.Sprint(i%10), 200) {
			t.Fatalf("message %d now has type %s", i, x)
		}
	}
}
''')
