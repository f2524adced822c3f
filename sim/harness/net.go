package harness

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"sort"
	"unsafe"

	"github.com/anishathalye/porcupine"

	"gevsim/core"
	"gevsim/gen/github.com/Allenxuxu/gev"
	"gevsim/gen/github.com/Allenxuxu/gev/eventloop"
	pb "gevsim/gen/github.com/Allenxuxu/gev/plugins/protobuf"
	wsp "gevsim/gen/github.com/Allenxuxu/gev/plugins/websocket"
	"gevsim/gen/github.com/Allenxuxu/gev/plugins/websocket/ws"
	wsutil "gevsim/gen/github.com/Allenxuxu/gev/plugins/websocket/ws/util"
	"gevsim/gen/github.com/Allenxuxu/ringbuffer"
	"gevsim/kern"
	stdtime "time"
)

// netWorld is a server with its peers.
type netWorld struct {
	kvVal     int
	sp        *Spec
	srv       *gev.Server
	port      int
	mate      *mate
	base      []string
	badBase   int
	staleBase int
	loops     []*eventloop.EventLoop
	loopTask  map[*core.Task]int
	loopOf    []*core.Task
	peers     []*peer
	byAddr    map[string]*peer
	byConn    map[*gev.Connection]*peer
	busy      map[*core.Task]string
	picks     []int // loop chosen by the strategy, in call order
	picked    [][]int64
	connects  []int // loop of each connect callback, in order
	actors    []*core.Task
	startRet  bool
	startAt   int64
	started   bool
	stops     int
	stopAt    int64 // time of the first Stop call, -1 if none
	stopped   bool  // a Stop call has returned
	stopRetN  int
	stopDone  int64
	quiet     bool // faults are over
	tasks     []*loopTask
	timers    []*timerRec
	idle      int64
	ends      int
	up        *ws.Upgrader
	arena     []byte // where the application builds its messages
	bseq      uint32 // broadcasts
	directed  bool
	hold      map[*core.Task][2]int64
}

// smsg is one message from the server to a peer.
type smsg struct {
	kind   byte // 1 reply, 2 send, 3 sent to several connections
	sender uint16
	seq    uint32
	n      int // payload length; -1: nothing on the wire
	item   int // input item the reply belongs to
	call   int64
	ret    int64 // stamp at which Send returned, 0 if it has not
	acc    bool  // accepted
	rej    bool
	got    bool
	wantF  bool
	fin    int
	finAt  int64
	wire   int // bytes on the wire
	op     int // ws opcode
	at     int64
	val    any
	dead   bool // submitted after the close callback returned
}

// peer is one client with the server side of its connection.
type peer struct {
	id  int
	sp  *ClSpec
	cl  *kern.Client
	kc  *kern.Conn
	rng *core.Rng // server-side application decisions
	crg *core.Rng // client-side decisions

	// client
	out       []byte
	sent      int
	pc        int
	connected bool
	refused   bool
	done      bool // all operations performed
	waiting   func() bool
	waitEv    core.Event
	pulse     bool
	eofAt     int64
	rstAt     int64
	appRead   int64
	buf       []byte // undecoded bytes from the server
	inner     []byte
	innerOK   int    // payload bytes of the incomplete message in it that have been compared
	endKind   string // client-side end: close, reset, half
	endAt     int64
	pub       bool

	// expected input of the handler
	exp     []expMsg
	expI    int
	hsLen   int
	hsReq   []hsReq // the requests
	hsI     int     // responses seen
	hookI   int     // ws hooks: request they are at, calls made for it
	hookN   int
	hookHdr int
	hsOK    bool // handshake response seen
	hsWait  bool

	// server side
	kvHist   []porcupine.Operation
	kvOpen   int
	appCtx   *peer // the application's own state, used in callbacks only
	protoSt  byte  // state of its protocol
	conn     *gev.Connection
	nConn    int
	nClose   int
	closeAt  int64
	closeRet bool
	task     *core.Task
	loop     int
	inCB     string
	got      int64
	held     int64 // bytes the "mix" protocol saw last and left
	mixT     int   // bytes it waits for
	mixW     bool
	prg      *core.Rng
	appClose int64 // stamp time of first application Close that was accepted
	appShut  int64
	onFD     []func()
	shutOK   bool
	shutPend bool // output was being submitted at the time of the first ShutdownWrite, or later
	actI     int
	cbN      int
	seqs     map[uint16]uint32
	types    [][2]string // pb: types of the last messages as delivered and as sent
	msgs     map[uint64]*smsg
	order    []*smsg
	maxCall  int64
	lastRep  uint32
	lastItem int
	finSeq   map[uint16]*smsg
	finOrder int64
	finBytes int64
	connAt   int64
	lastPong int
	replies  []*smsg
	pongs    []int // ping items awaiting a pong
	srvPings int
	closeFr  []byte
	closeGot int
	wantCl   []byte
	lastRecv int64
	unread   int64
}

type expMsg struct {
	typ     string
	op      int
	payload []byte
	end     int64
	ctrl    bool
}

const hdrLen = 24

func (p *peer) base(kind byte, sender uint16, seq uint32) uint64 {
	id := p.id
	if kind == 3 {
		id = 0xffff
	}
	return mix(w.spec.Seed, uint64(id)<<32|uint64(kind)<<16|uint64(sender), uint64(seq), 0xfeed)
}

func (p *peer) newMsg(kind byte, sender uint16, n int, item int) *smsg {
	seq := p.seqs[sender]
	p.seqs[sender] = seq + 1
	if e := w.spec.EmptyPM; e > 0 && mix(w.spec.Seed, uint64(p.id)<<32|uint64(kind)<<16|uint64(sender), uint64(seq), 0xe)%1000 < uint64(e) {
		n = -1
		core.Count("probe.empty_message")
	}
	return p.addMsg(kind, sender, seq, n, item)
}

func (p *peer) addMsg(kind byte, sender uint16, seq uint32, n int, item int) *smsg {
	m := &smsg{kind: kind, sender: sender, seq: seq, n: n, item: item, at: core.Now()}
	if p.appShut != 0 {
		p.shutPend = true
	}
	if n >= 0 {
		p.msgs[uint64(kind)<<48|uint64(sender)<<32|uint64(seq)] = m
	}
	p.order = append(p.order, m)
	if kind == 1 {
		p.replies = append(p.replies, m)
	}
	return m
}

// encode builds the bytes of a message.
func (p *peer) encode(m *smsg) []byte {
	if m.n < 0 {
		return []byte{}
	}
	b := make([]byte, hdrLen+m.n)
	b[0], b[1], b[2], b[3] = 0xA7, 'g', m.kind, 0
	binary.BigEndian.PutUint16(b[4:], uint16(p.id))
	if m.kind == 3 {
		binary.BigEndian.PutUint16(b[4:], 0xffff)
	}
	binary.BigEndian.PutUint16(b[6:], m.sender)
	binary.BigEndian.PutUint32(b[8:], m.seq)
	binary.BigEndian.PutUint32(b[12:], uint32(m.n))
	base := p.base(m.kind, m.sender, m.seq)
	binary.BigEndian.PutUint64(b[16:], mix(base, uint64(m.n), 1, 2))
	fillPat(b[hdrLen:], base, 0)
	return w.net.place(b)
}

// place puts a message where the application keeps it: in some runs right behind the previous one in
// one large buffer.
func (n *netWorld) place(b []byte) []byte {
	if len(b) == 0 || n.sp.Seed>>7%4 != 0 {
		return b
	}
	if cap(n.arena)-len(n.arena) < len(b) {
		n.arena = make([]byte, 0, max(4*len(b), 1<<14))
	}
	k := len(n.arena)
	n.arena = append(n.arena, b...)
	return n.arena[k:]
}

// ---- protocols of the harness ----

// spyProto looks at where the connection's protocol is called from: it may keep state of the connection or use the
// loop's buffer without locks, like the callbacks.
type spyProto struct{ gev.Protocol }

func (s spyProto) UnPacket(c *gev.Connection, b *ringbuffer.RingBuffer) (interface{}, []byte) {
	w.net.onProto("UnPacket", c)
	return s.Protocol.UnPacket(c, b)
}

func (s spyProto) Packet(c *gev.Connection, data interface{}) []byte {
	w.net.onProto("Packet", c)
	return s.Protocol.Packet(c, data)
}

func (n *netWorld) onProto(kind string, c *gev.Connection) {
	p := n.byConn[c]
	if p == nil || core.Ended() {
		return
	}
	if li, ok := n.loopTask[core.Cur()]; !ok {
		viol("serial", "%s for connection %d was called on a goroutine that is not an event loop's", kind, p.id)
	} else if p.loop >= 0 && p.loop != li {
		viol("serial", "%s for connection %d was called on loop %d, its connect callback on loop %d", kind, p.id, li, p.loop)
	}
	if p.inCB != "" {
		viol("serial", "%s for connection %d was called while its %s was running", kind, p.id, p.inCB)
	}
	core.RW(&p.protoSt, "protocol state of the connection in "+kind)
}

// recProto is a length-prefixed protocol that leaves incomplete records in the buffer.
type recProto struct{}

type recCtx struct{ n int }

func (recProto) UnPacket(c *gev.Connection, b *ringbuffer.RingBuffer) (interface{}, []byte) {
	if b.Length() < 4 {
		return nil, nil
	}
	n := int(b.PeekUint32())
	if b.Length() < 4+n {
		return nil, nil
	}
	b.Retrieve(4)
	d := make([]byte, n)
	if n > 0 {
		_, _ = b.Read(d)
	}
	return &recCtx{n}, d
}

type outMsg struct {
	p *peer
	m *smsg
	b []byte
	n int // times packed
}

func (recProto) Packet(c *gev.Connection, data interface{}) []byte {
	o, ok := data.(*outMsg)
	if !ok {
		viol("out_frame", "Packet was called with %T, not with a value the application submitted", data)
		return nil
	}
	if o.n++; o.n > 1 {
		viol("out_frame", "Packet was called twice for message %d.%d", o.m.sender, o.m.seq)
	}
	if q := w.net.byConn[c]; q != nil && q != o.p {
		viol("out_frame", "a message for connection %d was packed for connection %d", o.p.id, q.id)
	}
	return o.b
}

// outLen chooses the length of the next message of a handler.
func (p *peer) outLen() int {
	pol := &p.sp.Pol
	if len(pol.ReplyEq) > 0 && p.rng.P(500) {
		return pol.ReplyEq[p.rng.N(len(pol.ReplyEq))]
	}
	return p.rng.Skewed(max(pol.ReplyMax, 1))
}

// value is what the application hands to gev for a message.
func (p *peer) value(m *smsg) any {
	b := p.encode(m)
	switch w.net.sp.Srv.Proto {
	case "rec":
		return &outMsg{p: p, m: m, b: b}
	case "pb":
		if m.n >= 0 {
			b = w.net.place(pb.PackMessage("srv", b))
		}
	}
	m.wire = len(b)
	return b
}

// sendValue is what Send gets for a message (WebSocket: a packed frame).
func (p *peer) sendValue(m *smsg) any {
	if w.net.sp.Srv.Proto == "ws" && m.n >= 0 {
		t := ws.MessageBinary
		m.op = 2
		if m.seq%3 == 0 {
			t = ws.MessageText
			m.op = 1
		}
		b, err := []byte(nil), error(nil)
		if w.net.sp.Srv.CloseMsg && m.seq%4 == 1 && hdrLen+m.n <= 123 {
			// the application's own close frame; our peer does not mind several
			m.op = 8
			core.Count("probe.app_close_frame")
			b, err = wsutil.PackCloseData(string(p.encode(m)))
		} else {
			b, err = wsutil.PackData(t, p.encode(m))
		}
		if err != nil {
			viol("ws_out", "PackData failed: %v", err)
		}
		m.wire = len(b)
		return w.net.place(b)
	}
	v := p.value(m)
	if o, ok := v.(*outMsg); ok {
		m.wire = len(o.b)
	}
	return v
}

// ---- handlers ----

type handler struct{ n *netWorld }

func (h handler) OnConnect(c *gev.Connection) { h.n.onConnect(c) }
func (h handler) OnMessage(c *gev.Connection, ctx interface{}, data []byte) interface{} {
	p, leave := h.n.enter("OnMessage", c)
	if p == nil {
		return nil
	}
	defer leave()
	return h.n.onMessage(p, c, ctx, data)
}
func (h handler) OnClose(c *gev.Connection) { h.n.onClose(c) }

type wsHandler struct{ n *netWorld }

func (h wsHandler) OnConnect(c *gev.Connection) { h.n.onConnect(c) }
func (h wsHandler) OnClose(c *gev.Connection)   { h.n.onClose(c) }
func (h wsHandler) OnMessage(c *gev.Connection, msg []byte) (ws.MessageType, []byte) {
	p, leave := h.n.enter("OnMessage", c)
	if p == nil {
		return ws.MessageText, nil
	}
	defer leave()
	v := h.n.onMessage(p, c, nil, msg)
	if v == nil {
		return ws.MessageText, nil
	}
	o := v.(*outMsg)
	t := ws.MessageBinary
	o.m.op = 2
	if o.m.seq%2 == 0 {
		t = ws.MessageText
		o.m.op = 1
	}
	return t, o.b
}

func (n *netWorld) peerOf(c *gev.Connection) *peer {
	if p := n.byConn[c]; p != nil {
		return p
	}
	a := c.PeerAddr()
	p := n.byAddr[a]
	if p == nil {
		viol("addr", "a callback reports the peer address %q which no peer has", a)
	}
	return p
}

// enter checks the serialisation rules at the start of a callback.
func (n *netWorld) enter(kind string, c *gev.Connection) (*peer, func()) {
	p := n.peerOf(c)
	if p == nil {
		return nil, nil
	}
	progress()
	t := core.Cur()
	core.Logf("%s conn %d", kind, p.id)
	core.Mix(uint64(p.id)<<8 ^ uint64(len(kind)))
	if p.inCB != "" {
		viol("serial", "%s of connection %d started while its %s was running", kind, p.id, p.inCB)
	}
	if b := n.busy[t]; b != "" {
		viol("serial", "%s of connection %d started inside %s on the same goroutine", kind, p.id, b)
	}
	if li, ok := n.loopTask[t]; !ok {
		viol("serial", "%s of connection %d ran on a goroutine that is not an event loop's", kind, p.id)
	} else if p.loop >= 0 && p.loop != li {
		viol("serial", "%s of connection %d ran on loop %d, its connect callback on loop %d", kind, p.id, li, p.loop)
	}
	if kind != "OnConnect" {
		if p.nConn == 0 {
			viol("lifecycle", "%s of connection %d ran before its connect callback", kind, p.id)
		}
		if p.nClose > 0 {
			viol("lifecycle", "%s of connection %d ran after its close callback", kind, p.id)
		}
		if p.conn != nil && p.conn != c {
			viol("lifecycle", "%s of connection %d ran with another connection object", kind, p.id)
		}
		if a := c.PeerAddr(); a != p.kc.Addr() {
			viol("addr", "connection %d reports peer address %q, want %q", p.id, a, p.kc.Addr())
		}
	}
	if kind != "OnConnect" {
		if v, ok := c.Context().(*peer); !ok || v != p {
			viol("kv", "the context of connection %d is not the one its connect callback stored", p.id)
		}
		core.RR(&p.appCtx, "application state of the connection in "+kind)
	}
	core.RW(&p.appCtx, "application state of the connection in "+kind)
	p.inCB = kind
	n.busy[t] = kind
	core.Point()
	return p, func() {
		core.Point()
		p.inCB = ""
		n.busy[t] = ""
		progress()
		if p.sp.Pol.HoldPM > 0 && !n.quiet {
			if h := mix(n.sp.Seed, uint64(p.id), uint64(p.cbN), 0x401d); h%1000 < uint64(p.sp.Pol.HoldPM) {
				// the loop is held up on its way on
				core.Hold(int64(h>>10%uint64(1+p.sp.Pol.HoldY)), p.sp.Pol.HoldUS*us)
			}
		}
	}
}

func (n *netWorld) onConnect(c *gev.Connection) {
	p, leave := n.enter("OnConnect", c)
	if p == nil {
		return
	}
	defer leave()
	if p.nConn > 0 {
		viol("lifecycle", "the connect callback of connection %d ran twice", p.id)
	}
	if !p.kc.Accepted {
		viol("lifecycle", "the connect callback of connection %d ran although it was not accepted", p.id)
	}
	p.nConn++
	p.conn = c
	core.Rel(unsafe.Pointer(p))
	p.connAt = core.Now()
	n.byConn[c] = p
	c.SetContext(p)
	p.task = core.Cur()
	if li, ok := n.loopTask[p.task]; ok {
		p.loop = li
		n.connects = append(n.connects, li)
	}
	if !c.Connected() && n.stopAt < 0 && n.idle == 0 && p.appClose == 0 {
		viol("lifecycle", "connection %d reports not connected inside its connect callback", p.id)
	}
	n.slow(p)
	for _, a := range p.sp.Pol.OnConn {
		n.act(p, a)
	}
}

func (n *netWorld) onClose(c *gev.Connection) {
	p, leave := n.enter("OnClose", c)
	if p == nil {
		return
	}
	defer func() {
		p.closeRet = true
		leave()
	}()
	p.typesKept()
	p.nClose++
	p.closeAt = core.Now()
	if p.nClose > 1 {
		viol("lifecycle", "the close callback of connection %d ran twice", p.id)
	}
	if c.Connected() {
		viol("not_noticed", "connection %d reports connected inside its close callback", p.id)
	}
	why := p.reason()
	core.Logf("close of conn %d: %s", p.id, why)
	if why == "" {
		if n.idle > 0 {
			n.idleClose(p)
		} else {
			viol("unexpected_close", "the server closed connection %d although neither side ended it and nothing failed", p.id)
		}
	}
	switch p.sp.Pol.InClose {
	case 1:
		n.send(p, 1, 10, false)
	case 2:
		if err := c.Close(); err == nil {
			viol("send_contract", "Close inside the close callback of connection %d reported success", p.id)
		}
	case 3:
		n.kv(p, c, 0, 0)
		n.kv(p, c, 3, 1)
	}
	n.slow(p)
}

// reason tells why connection p may end ("" if there is no reason).
func (p *peer) reason() string {
	n := w.net
	s := p.kc.Srv
	switch {
	case p.endKind != "":
		return "peer " + p.endKind
	case s.Injected > 0:
		return "injected error"
	case p.kc.Failed:
		return "injected registration failure"
	case s.Dead():
		return "reset"
	case p.appClose != 0:
		return "application"
	case s.EPipe > 0 && p.appShut != 0:
		return "output after half-close"
	case n.stopAt >= 0:
		return "stop"
	case p.sp.Bad:
		return "hostile"
	}
	return ""
}

func (n *netWorld) slow(p *peer) {
	if p.sp.Pol.SlowPM > 0 && !n.quiet && p.rng.P(p.sp.Pol.SlowPM) {
		core.Count("probe.slow_callback")
		core.Sleep(1 + p.rng.I64(max(p.sp.Pol.SlowUS, 1)*us))
	}
}

// act is an action inside a callback.
func (n *netWorld) act(p *peer, a Act) {
	switch a.K {
	case "send":
		for i := int64(0); i < max(a.B, 1); i++ {
			n.send(p, 1, int(a.A), i&1 == 0)
		}
	case "close":
		n.appClose(p)
	case "shut":
		n.appShut(p)
	case "sleep":
		core.Sleep(a.A * us)
	case "closepeer": // close another connection from this one's loop
		if q := n.peerAt(a.A); q != nil && q.conn != nil {
			n.appClose(q)
		}
	case "sendpeer":
		if q := n.peerAt(a.A); q != nil && q.conn != nil {
			n.send(q, uint16(100+p.id%100), int(a.B), true)
		}
	case "bcast":
		n.broadcast(0, int(a.B), a.A&1 == 1)
	case "q":
		n.queueTasks(int(a.A), int(a.B), "in callback")
	case "kv":
		n.kv(p, p.c(), a.A%4, a.A/4)
	}
}

func (n *netWorld) peerAt(i int64) *peer {
	if i < 0 || int(i) >= len(n.peers) {
		return nil
	}
	return n.peers[i]
}

func (n *netWorld) onMessage(p *peer, c *gev.Connection, ctx interface{}, data []byte) any {
	p.cbN++
	p.typesKept()
	item := -1
	var check func() bool
	switch n.sp.Srv.Proto {
	case "", "raw", "mix":
		off := p.got
		if m, ok := ctx.(*mixCtx); ok && m.p == p {
			if m.n != len(data) && len(data) > 0 {
				viol("in_bytes", "connection %d: the protocol unpacked %d bytes, the callback got %d", p.id, m.n, len(data))
			}
			p.got += int64(m.n - len(data))
			ctx = nil
			if len(data) == 0 {
				break
			}
		}
		if ctx != nil {
			viol("in_bytes", "connection %d: the default protocol delivered a context %v", p.id, ctx)
		}
		if off+int64(len(data)) > p.cl.Arrived {
			viol("in_bytes", "connection %d: %d bytes delivered at offset %d but only %d have arrived", p.id, len(data), off, p.cl.Arrived)
			return nil
		}
		want := p.out[off : off+int64(len(data))]
		if i := diff(data, want); i >= 0 {
			viol("in_bytes", "connection %d: byte %d of the stream is %#x, the peer sent %#x (callback data of %d bytes at offset %d)", p.id, off+int64(i), data[i], want[i], len(data), off)
			return nil
		}
		p.got += int64(len(data))
		check = func() bool { return diff(data, want) < 0 }
	default:
		var e *expMsg
		for p.expI < len(p.exp) && p.exp[p.expI].ctrl {
			p.expI++
		}
		if p.expI < len(p.exp) {
			e = &p.exp[p.expI]
		}
		if p.sp.Bad {
			break
		}
		if e == nil {
			viol("in_frame", "connection %d: a message of %d bytes was delivered after all %d messages of the peer", p.id, len(data), len(p.exp))
			return nil
		}
		if p.cl.Arrived < e.end {
			viol("in_frame", "connection %d: message %d was delivered when only %d of the %d bytes up to its end had arrived", p.id, p.expI, p.cl.Arrived, e.end)
			return nil
		}
		if i := diff(data, e.payload); i >= 0 || len(data) != len(e.payload) {
			viol("in_frame", "connection %d: message %d has %d payload bytes (first difference at %d), the peer sent %d", p.id, p.expI, len(data), i, len(e.payload))
			return nil
		}
		switch n.sp.Srv.Proto {
		case "pb":
			if t, ok := ctx.(string); !ok || t != e.typ {
				viol("in_frame", "connection %d: message %d has type %q, the peer sent %q", p.id, p.expI, ctx, e.typ)
				return nil
			} else if p.types = append(p.types, [2]string{t, e.typ}); len(p.types) > 8 {
				p.types = p.types[1:]
			}
		}
		item = p.expI
		p.expI++
		p.got = e.end
		want := e.payload
		check = func() bool { return diff(data, want) < 0 }
	}
	p.poke()
	n.slow(p)
	for p.actI < len(p.sp.Pol.Acts) && p.sp.Pol.Acts[p.actI].At <= p.got {
		a := p.sp.Pol.Acts[p.actI]
		p.actI++
		n.act(p, a)
	}
	pol := &p.sp.Pol
	var ret any
	if pol.SendPM > 0 && p.rng.P(pol.SendPM) {
		n.send(p, 1, p.outLen(), p.rng.P(500))
	}
	if pol.ReplyPM > 0 && p.rng.P(pol.ReplyPM) {
		m := p.newMsg(1, 0, p.outLen(), item)
		m.call = stamp()
		m.ret = m.call
		m.acc = true
		if n.sp.Srv.Proto == "ws" {
			ret = &outMsg{p: p, m: m, b: p.encode(m)}
		} else {
			ret = p.value(m)
			if o, ok := ret.(*outMsg); ok {
				m.wire = len(o.b)
			}
		}
	}
	p.typesKept()
	if check != nil && !check() {
		viol("in_bytes", "connection %d: the data handed to the message callback changed while the callback was running", p.id)
	}
	return ret
}

// typesKept checks the message types the application has kept: strings do not change.
func (p *peer) typesKept() {
	for _, t := range p.types {
		if t[0] != t[1] {
			viol("in_frame", "connection %d: the type of a message delivered as %q has changed to %q", p.id, t[1], t[0])
		}
	}
}

func diff(a, b []byte) int {
	if bytes.Equal(a, b) {
		return -1
	}
	n := min(len(a), len(b))
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return i
		}
	}
	if len(a) != len(b) {
		return n
	}
	return -1
}

// ---- application API calls ----

// upgraded tells whether the application may send messages (WebSocket: after the handshake).
func (p *peer) upgraded() bool { return w.net.sp.Srv.Proto != "ws" || p.hsOK || p.expI > 0 }

// send calls Connection.Send and checks its contract.
func (n *netWorld) send(p *peer, sender uint16, size int, finish bool) {
	c := p.c()
	if c == nil || !p.upgraded() {
		return
	}
	m := p.newMsg(2, sender, size, -1)
	n.submit(p, m, p.sendValue(m), finish)
}

// broadcast sends the same bytes to several connections.
func (n *netWorld) broadcast(sender uint16, size int, finish bool) {
	seq := n.bseq
	n.bseq++
	var b []byte
	for _, p := range append([]*peer(nil), n.peers...) {
		if p.c() == nil || !p.upgraded() || p.sp.Bad {
			continue
		}
		m := p.addMsg(3, 0, seq, size, -1)
		v := p.sendValue(m)
		switch o := v.(type) {
		case []byte:
			if b == nil {
				b = o
			}
			v = b
		case *outMsg:
			if b == nil {
				b = o.b
			}
			o.b = b
		}
		n.submit(p, m, v, finish)
		core.Count("probe.broadcast")
	}
}

// submit is the Send call.
func (n *netWorld) submit(p *peer, m *smsg, v any, finish bool) {
	c := p.c()
	m.val = v
	m.wantF = finish
	m.dead = p.closeRet
	m.call = stamp()
	core.Logf("Send conn %d msg %d.%d (%d bytes)", p.id, m.sender, m.seq, m.wire)
	core.Point()
	var err error
	n.calling()
	if finish {
		err = c.Send(v, gev.SendInLoop(func(x interface{}) { n.finished(p, m, x) }))
	} else {
		err = c.Send(v)
	}
	m.ret = stamp()
	core.Logf("Send conn %d msg %d.%d = %v", p.id, m.sender, m.seq, err)
	progress()
	if err == nil {
		if m.dead {
			viol("send_contract", "Send on connection %d was accepted after its close callback had returned", p.id)
		}
		m.acc = true
		return
	}
	m.rej = true
	if !errors.Is(err, gev.ErrConnectionClosed) {
		viol("send_contract", "Send on connection %d returned %v, not the connection-closed error", p.id, err)
	}
	if c.Connected() {
		viol("send_contract", "Send on the open connection %d returned %v", p.id, err)
	}
}

func (n *netWorld) finished(p *peer, m *smsg, x any) {
	progress()
	m.fin++
	m.finAt = core.Now()
	core.Logf("finish conn %d msg %d.%d", p.id, m.sender, m.seq)
	t := core.Cur()
	if m.fin > 1 {
		viol("finish", "the completion callback of message %d.%d on connection %d ran twice", m.sender, m.seq, p.id)
	}
	if m.rej {
		viol("finish", "the completion callback of message %d.%d on connection %d ran although Send failed", m.sender, m.seq, p.id)
	}
	if li, ok := n.loopTask[t]; !ok || li != p.loop {
		viol("finish", "the completion callback of message %d.%d on connection %d did not run on the connection's loop", m.sender, m.seq, p.id)
	}
	if b := n.busy[t]; b != "" {
		viol("finish", "the completion callback of message %d.%d on connection %d ran inside %s", m.sender, m.seq, p.id, b)
	}
	if p.closeRet {
		viol("finish", "the completion callback of message %d.%d on connection %d ran after the close callback", m.sender, m.seq, p.id)
	}
	same := false
	switch a := x.(type) {
	case []byte:
		b, ok := m.val.([]byte)
		same = ok && len(a) == len(b) && (len(a) == 0 || &a[0] == &b[0])
	default:
		same = x == m.val
	}
	if !same {
		viol("finish", "the completion callback of message %d.%d on connection %d got a different value", m.sender, m.seq, p.id)
	}
	// order: a message whose Send returned before another's began finishes first
	if p.finOrder > m.ret && m.ret > 0 {
		viol("finish", "the completion callback of message %d.%d on connection %d ran after that of a later Send", m.sender, m.seq, p.id)
	}
	if m.call > p.finOrder {
		p.finOrder = m.call
	}
	p.finBytes += int64(m.wire)
	s := p.kc.Srv
	if s.Blocked == 0 && s.Injected == 0 && !s.Dead() && p.endKind == "" && s.WriteTotal < p.finBytes {
		viol("finish", "connection %d: completion callbacks ran for %d bytes but only %d were handed to the kernel, which refused nothing", p.id, p.finBytes, s.WriteTotal)
	}
}

func (n *netWorld) appClose(p *peer) {
	c := p.c()
	if c == nil {
		return
	}
	dead := p.closeRet
	was := p.appClose
	if was == 0 {
		p.appClose = 1 + core.Now()
	}
	core.Logf("Close conn %d", p.id)
	n.calling()
	err := c.Close()
	core.Logf("Close conn %d = %v", p.id, err)
	progress()
	if err == nil {
		if dead {
			viol("send_contract", "Close on connection %d succeeded after its close callback had returned", p.id)
		}
		return
	}
	if !errors.Is(err, gev.ErrConnectionClosed) {
		viol("send_contract", "Close on connection %d returned %v, not the connection-closed error", p.id, err)
	}
	if c.Connected() {
		viol("send_contract", "Close on the open connection %d returned %v", p.id, err)
	}
}

func (n *netWorld) appShut(p *peer) {
	c := p.c()
	if c == nil {
		return
	}
	if p.appShut == 0 {
		p.appShut = 1 + core.Now()
		p.shutPend = n.pendingSends(p)
	}
	dead := p.closeRet
	core.Logf("ShutdownWrite conn %d", p.id)
	n.calling()
	err := c.ShutdownWrite()
	core.Logf("ShutdownWrite conn %d = %v", p.id, err)
	progress()
	if dead && !errors.Is(err, gev.ErrConnectionClosed) {
		viol("send_contract", "ShutdownWrite on connection %d returned %v after its close callback had returned, not the connection-closed error", p.id, err)
	}
	if err == nil && p.reason() == "" && p.nClose == 0 {
		p.shutOK = true
	}
}

// ---- queued tasks ----

type loopTask struct {
	loop  int
	call  int64
	ret   int64
	runs  int
	runAt int64
	nest  int
}

func (n *netWorld) queueTasks(loop, count int, from string) {
	if loop >= len(n.loops) {
		return
	}
	for i := 0; i < count; i++ {
		n.queueTask(loop, 0, nil)
	}
}

func (n *netWorld) queueTask(loop int, nest int, f func()) {
	lt := &loopTask{loop: loop, call: stamp(), nest: nest}
	n.tasks = append(n.tasks, lt)
	idx := len(n.tasks)
	n.calling()
	n.loops[loop].QueueInLoop(func() {
		t := core.Cur()
		progress()
		core.Logf("task %d runs", idx)
		lt.runs++
		lt.runAt = stamp()
		if lt.runs > 1 {
			viol("task", "a task queued once ran %d times", lt.runs)
		}
		if li, ok := n.loopTask[t]; !ok || li != lt.loop {
			viol("task", "a queued task did not run on its loop's goroutine")
		}
		if b := n.busy[t]; b != "" {
			viol("task", "a queued task ran inside %s", b)
		}
		n.busy[t] = "a queued task"
		core.Point()
		if f != nil {
			f()
		}
		if nest > 0 {
			n.queueTask(loop, nest-1, nil)
		}
		core.Point()
		n.busy[t] = ""
	})
	lt.ret = stamp()
}

// checkTasks verifies exactly-once and order of the tasks queued so far.
func (n *netWorld) checkTasks() {
	byLoop := map[int][]*loopTask{}
	for i, t := range n.tasks {
		if t.runs == 0 {
			viol("task", "task %d queued to loop %d never ran", i+1, t.loop)
			return
		}
		byLoop[t.loop] = append(byLoop[t.loop], t)
	}
	for l := 0; l < len(n.loops); l++ {
		ts := byLoop[l]
		sort.Slice(ts, func(i, j int) bool { return ts[i].runAt < ts[j].runAt })
		maxCall := int64(0)
		for _, t := range ts {
			if t.ret > 0 && t.ret < maxCall {
				viol("task", "a task queued to loop %d ran after a task that was queued later", l)
				return
			}
			if t.call > maxCall {
				maxCall = t.call
			}
		}
	}
}

// ---- server construction ----

func (n *netWorld) strategy(kind string) gev.LoadBalanceStrategy {
	var inner gev.LoadBalanceStrategy
	switch kind {
	case "lc":
		inner = gev.LeastConnection()
	default:
		inner = gev.RoundRobin()
	}
	var decoy gev.LoadBalanceStrategy
	if n.sp.Srv.Decoy { // of another server of the process, with as many loops
		decoy = gev.RoundRobin()
	}
	return func(loops []*eventloop.EventLoop) *eventloop.EventLoop {
		if n.loops == nil {
			n.learn(loops)
		}
		var l *eventloop.EventLoop
		var counts []int64
		func() {
			defer core.Section()()
			if kind == "lc" {
				for _, x := range loops {
					counts = append(counts, x.ConnectionCount())
				}
			}
			if decoy != nil {
				for k := len(n.picks)%3 + 1; k > 1; k-- {
					decoy(loops)
				}
			}
			l = inner(loops)
		}()
		idx := -1
		for i, x := range loops {
			if x == l {
				idx = i
			}
		}
		if idx < 0 {
			viol("lb", "the strategy chose a loop that is not one of the server's")
			return loops[0]
		}
		if kind == "lc" {
			for i := range counts {
				if counts[i] < counts[idx] {
					viol("lb", "least-connection chose loop %d with %d connections although loop %d has %d", idx, counts[idx], i, counts[i])
				}
			}
		}
		n.picks = append(n.picks, idx)
		return l
	}
}

// learn finds out which goroutine runs which loop.
func (n *netWorld) learn(loops []*eventloop.EventLoop) {
	n.loopOf = make([]*core.Task, len(loops))
	if len(loops) != n.sp.Srv.Loops && n.sp.Srv.Loops > 0 {
		viol("lb", "the server has %d loops, %d were configured", len(loops), n.sp.Srv.Loops)
	}
	for i, l := range loops {
		i := i
		l.QueueInLoop(func() {
			t := core.Cur()
			t.Name = fmt.Sprintf("loop%d", i)
			n.loopOf[i] = t
			n.loopTask[t] = i
		})
	}
	// only now: application goroutines which find it queue tasks behind these
	n.loops = append([]*eventloop.EventLoop{}, loops...)
}

func newNet(sp *Spec) *netWorld {
	n := &netWorld{sp: sp, loopTask: map[*core.Task]int{}, byAddr: map[string]*peer{}, byConn: map[*gev.Connection]*peer{}, busy: map[*core.Task]string{}, stopAt: -1}
	w.net = n
	s := &sp.Srv
	if s.Packet > 0 {
		eventloop.DefaultPacketSize = s.Packet
	}
	if s.UserB > 0 {
		eventloop.DefaultBufferSize = s.UserB
	}
	if s.TaskQ > 0 {
		eventloop.DefaultTaskQueueSize = s.TaskQ
	}
	if sp.MaxFD > 0 {
		kern.SetMaxFD(65536)
	}
	opts := []gev.Option{gev.NumLoops(s.Loops), gev.LoadBalance(n.strategy(s.LB))}
	addr := s.Addr
	n.port = 1388
	if addr != "" {
		opts = append(opts, gev.Address(addr))
		n.port = portOf(addr)
	}
	if s.Net != "" {
		opts = append(opts, gev.Network(s.Net))
	}
	if s.Reuse {
		opts = append(opts, gev.ReusePort(true))
	}
	if s.IdleMS > 0 {
		n.idle = s.IdleMS * ms
		opts = append(opts, gev.IdleTime(stdtime.Duration(n.idle)))
	}
	var h gev.Handler = handler{n}
	switch s.Proto {
	case "rec":
		opts = append(opts, gev.CustomProtocol(spyProto{recProto{}}))
	case "mix":
		opts = append(opts, gev.CustomProtocol(spyProto{mixProto{}}))
	case "pb":
		opts = append(opts, gev.CustomProtocol(spyProto{pb.New()}))
	case "ws":
		n.up = n.upgrader()
		if s.Hooks != 0 {
			n.up = n.hookedUpgrader(s.Hooks)
		}
		opts = append(opts, gev.CustomProtocol(spyProto{wsp.New(n.up)}))
		h = wsp.NewHandlerWrap(n.up, wsHandler{n})
	}
	before := kern.OpenCount()
	srv, err := gev.NewServer(h, opts...)
	if err != nil {
		core.Abort("NewServer failed without an injected fault: %v", err)
		return nil
	}
	if before != 0 {
		core.Abort("descriptors open before NewServer")
	}
	n.srv = srv
	n.base = kern.OpenFDs()
	n.badBase, n.staleBase = len(kern.BadCloses()), len(kern.StaleUses())
	return n
}

func portOf(addr string) int {
	p := 0
	for i := len(addr) - 1; i >= 0 && addr[i] != ':'; i-- {
		d := 1
		for j := len(addr) - 1; j > i; j-- {
			d *= 10
		}
		p += int(addr[i]-'0') * d
	}
	return p
}

// start runs Start in its own goroutine.
func (n *netWorld) start() {
	core.Go2("start", func() {
		if n.sp.Srv.LateUS > 0 {
			core.Sleep(n.sp.Srv.LateUS * us)
		}
		n.startAt = core.Now()
		n.started = true
		n.srv.Start()
		n.startRet = true
		core.Logf("Start returned")
		n.stopEnd()
	})
}

// stop calls Stop.
func (n *netWorld) stop() {
	if n.stopAt < 0 {
		n.stopAt = core.Now()
	}
	n.stops++
	core.Logf("Stop called")
	n.calling()
	n.srv.Stop()
	core.Logf("Stop returned")
	n.stopRetN++
	n.stopEnd()
	progress()
}

// stopEnd: the server has stopped once Start and all Stop calls have returned.
func (n *netWorld) stopEnd() {
	if n.startRet && n.stopRetN == n.stops && !n.stopped {
		n.stopped = true
		n.stopDone = core.Now()
	}
}

// c is the connection object as the connect callback handed it to the rest of the application.
func (p *peer) c() *gev.Connection {
	core.Acq(unsafe.Pointer(p))
	return p.conn
}
