package harness

import (
	"encoding/binary"
	"fmt"
	stdtime "time"

	"gevsim/core"
	"gevsim/gen/github.com/Allenxuxu/gev"
	pb "gevsim/gen/github.com/Allenxuxu/gev/plugins/protobuf"
	"gevsim/gen/github.com/RussellLuo/timingwheel"
	"gevsim/kern"
)

// MateSpec describes a second server in the same process, with peers of its own.
type MateSpec struct {
	At     int64  `json:"at,omitempty"`   // created so many us after the first one was started
	Stop   int64  `json:"stop,omitempty"` // stopped so many us later, 0: after the first server
	Loops  int    `json:"loops"`
	Peers  int    `json:"peers"`
	Msgs   int    `json:"msgs"` // messages per peer
	IdleMS int64  `json:"idle,omitempty"`
	Proto  string `json:"proto,omitempty"`
	LB     string `json:"lb,omitempty"`
	Every  int64  `json:"every,omitempty"` // ms, of a periodic task
	Twin   bool   `json:"twin,omitempty"`  // a third server which runs on defaults
}

// mate is that second server. It answers every byte b with b^0x5a.
type mate struct {
	n       *netWorld
	sp      *MateSpec
	port    int
	srv     *gev.Server
	twin    *gev.Server
	twinN   int // its connections
	peers   []*mpeer
	byAddr  map[string]*mpeer
	ready   bool
	failed  bool
	retd    bool
	startAt int64
	stopAt  int64
	stopped bool
	ticks   int64
	rng     *core.Rng
}

type mpeer struct {
	m      *mate
	id     int
	cl     *kern.Client
	base   uint64
	conn   *gev.Connection
	on     *core.Task // the goroutine of its loop
	nConn  int
	nClose int
	sent   int64
	got    int64 // at the server
	back   int64 // at the peer
	buf    []byte
	lastAt int64
	eofAt  int64
}

const mateKey = 0x5a

func newMate(n *netWorld, sp *MateSpec) *mate {
	return &mate{n: n, sp: sp, port: 2099, byAddr: map[string]*mpeer{}, stopAt: -1, rng: core.NewRng(mix(n.sp.Seed, 0xa7e, 1, 2))}
}

func (m *mate) run() {
	core.Sleep(1 + m.sp.At*us)
	opts := []gev.Option{gev.Address(fmt.Sprintf(":%d", m.port)), gev.NumLoops(m.sp.Loops)}
	switch m.sp.LB {
	case "lc":
		opts = append(opts, gev.LoadBalance(gev.LeastConnection()))
	case "rr":
		opts = append(opts, gev.LoadBalance(gev.RoundRobin()))
	}
	if m.sp.Twin {
		m.third()
	}
	if m.sp.IdleMS > 0 {
		opts = append(opts, gev.IdleTime(stdtime.Duration(m.sp.IdleMS)*stdtime.Millisecond))
	}
	if m.sp.Proto == "pb" {
		opts = append(opts, gev.CustomProtocol(pb.New()))
	}
	srv, err := gev.NewServer(mateH{m}, opts...)
	if err != nil {
		m.failed, m.ready, m.stopped = true, true, true
		viol("mate", "a second server in the process could not be created: %v", err)
		return
	}
	m.srv = srv
	if m.sp.Every > 0 {
		m.every()
	}
	core.Go2("mate.start", func() {
		srv.Start()
		m.retd = true
		progress()
	})
	m.startAt = core.Now()
	for i := 0; i < m.sp.Peers; i++ {
		p := m.dial()
		left := m.sp.Msgs
		var next func()
		next = func() {
			if left > 0 && m.stopAt < 0 {
				left--
				p.write(1 + m.rng.Skewed(600))
				core.After(1+m.rng.I64(400*us), next)
			}
		}
		core.After(1+m.rng.I64(300*us), next)
	}
	m.ready = true
	core.Count("probe.second_server")
	if m.sp.Stop > 0 {
		core.Sleep(m.sp.Stop * us)
		m.stop()
	}
}

func (m *mate) dial() *mpeer {
	p := &mpeer{m: m, id: len(m.peers), base: mix(m.n.sp.Seed, uint64(len(m.peers)), 0x3a7e, 9), lastAt: core.Now()}
	m.peers = append(m.peers, p)
	p.cl = kern.Dial(m.port, false, 1<<20, 1<<20, 1<<20)
	m.byAddr[p.cl.C.Addr()] = p
	p.cl.OnConn = progress
	p.cl.OnRefuse = func() {
		progress()
		if m.stopAt < 0 {
			viol("mate", "a connection attempt to the second server was refused although it is running")
		}
	}
	p.cl.OnData = p.onData
	end := func() {
		progress()
		p.eofAt = core.Now()
		if m.stopAt < 0 && !p.tainted() && m.sp.IdleMS == 0 {
			viol("mate", "the second server ended its connection %d for no reason", p.id)
		}
	}
	p.cl.OnEOF, p.cl.OnReset = end, end
	return p
}

// tainted: an injected failure hit the connection.
func (p *mpeer) tainted() bool {
	c := p.cl.C
	return c.Failed || c.Srv != nil && c.Srv.Injected > 0
}

// write sends k bytes (one packet with the protobuf protocol).
func (p *mpeer) write(k int) {
	if p.cl.Closed() || p.eofAt > 0 {
		return
	}
	b := make([]byte, k)
	fillPat(b, p.base, p.sent)
	p.sent += int64(k)
	p.lastAt = core.Now()
	if p.m.sp.Proto == "pb" {
		b = packPB("mate", b)
	}
	for len(b) > 0 {
		n := len(b)
		if p.m.rng.P(200) {
			n = 1 + p.m.rng.N(n)
		}
		p.cl.Write(b[:n])
		b = b[n:]
	}
}

func (p *mpeer) onData(b []byte) {
	progress()
	if p.m.sp.Proto == "pb" {
		p.buf = append(p.buf, b...)
		for len(p.buf) >= 4 {
			l := int(binary.BigEndian.Uint32(p.buf))
			if l < 6 || l > 1<<20 || len(p.buf) >= 10 && string(p.buf[4:10]) != "\x00\x04echo" {
				viol("mate", "peer %d of the second server received a broken packet", p.id)
				return
			}
			if len(p.buf) < 4+l {
				return
			}
			p.echo(p.buf[10 : 4+l])
			p.buf = p.buf[4+l:]
		}
		return
	}
	p.echo(b)
}

func (p *mpeer) echo(b []byte) {
	c := make([]byte, len(b))
	for i := range b {
		c[i] = b[i] ^ mateKey
	}
	if i := checkPat(c, p.base, p.back); i >= 0 || p.back+int64(len(c)) > p.sent {
		viol("mate", "peer %d of the second server received wrong bytes (after %d of %d)", p.id, p.back, p.sent)
	}
	p.back += int64(len(c))
}

type mateH struct{ m *mate }

func (h mateH) OnConnect(c *gev.Connection) {
	p := h.m.byAddr[c.PeerAddr()]
	if p == nil {
		viol("mate", "the connect callback of the second server ran for %s, which is not its peer", c.PeerAddr())
		return
	}
	if p.nConn++; p.nConn > 1 {
		viol("mate", "connection %d of the second server got %d connect callbacks", p.id, p.nConn)
	}
	p.conn, p.on = c, core.Cur()
	progress()
}

func (h mateH) OnMessage(c *gev.Connection, ctx interface{}, data []byte) interface{} {
	p := h.m.byAddr[c.PeerAddr()]
	if p == nil || p.conn != c || p.nClose > 0 {
		viol("mate", "a message callback of the second server ran for %s out of turn", c.PeerAddr())
		return nil
	}
	if i := checkPat(data, p.base, p.got); i >= 0 || p.got+int64(len(data)) > p.sent {
		viol("mate", "connection %d of the second server was handed wrong bytes (after %d of %d)", p.id, p.got, p.sent)
	}
	p.got += int64(len(data))
	progress()
	out := make([]byte, len(data))
	for i := range data {
		out[i] = data[i] ^ mateKey
	}
	if h.m.sp.Proto == "pb" {
		if ctx != "mate" {
			viol("mate", "connection %d of the second server was handed type %v", p.id, ctx)
		}
		out = pb.PackMessage("echo", out)
	}
	if p.id%3 == 1 {
		_ = c.Send(out)
		return nil
	}
	return out
}

func (h mateH) OnClose(c *gev.Connection) {
	p := h.m.byAddr[c.PeerAddr()]
	if p == nil || p.conn != c {
		viol("mate", "a close callback of the second server ran for %s out of turn", c.PeerAddr())
		return
	}
	if p.nClose++; p.nClose > 1 {
		viol("mate", "connection %d of the second server got %d close callbacks", p.id, p.nClose)
	}
	progress()
}

// served verifies that everything its peers sent was answered.
func (m *mate) served(when string) {
	for _, p := range m.peers {
		if p.tainted() {
			continue
		}
		if p.nClose > 0 || p.eofAt > 0 {
			if m.sp.IdleMS == 0 {
				viol("mate", "%s connection %d of the second server has been closed", when, p.id)
			}
			continue
		}
		if p.nConn == 0 {
			viol("mate", "%s connection %d of the second server has not been accepted", when, p.id)
		} else if p.back != p.sent {
			viol("mate", "%s peer %d of the second server had sent %d bytes, the server was handed %d and %d came back", when, p.id, p.sent, p.got, p.back)
		}
	}
}

// third creates a server which shares nothing with the others but what the defaults are; it serves peers who say nothing.
func (m *mate) third() {
	port := m.port + 1
	srv, err := gev.NewServer(idleH{m}, gev.Address(fmt.Sprintf(":%d", port)), gev.NumLoops(m.sp.Loops))
	if err != nil {
		viol("mate", "a third server in the process could not be created: %v", err)
		return
	}
	m.twin = srv
	core.Go2("twin.start", srv.Start)
	for k := 1 + m.rng.N(12); k > 0; k-- {
		core.After(1+m.rng.I64(2*ms), func() {
			if cl := kern.Dial(port, false, 1<<20, 1<<20, 1<<20); m.rng.P(300) {
				core.After(1+m.rng.I64(2*ms), cl.Close)
			}
		})
	}
}

type idleH struct{ m *mate }

func (h idleH) OnConnect(*gev.Connection)                                         { h.m.twinN++ }
func (idleH) OnMessage(_ *gev.Connection, _ interface{}, data []byte) interface{} { return nil }
func (idleH) OnClose(*gev.Connection)                                             {}

// turns checks that round robin serves the loops in turn.
func (m *mate) turns() {
	if m.sp.LB == "lc" {
		return
	}
	var l []*mpeer
	for _, p := range m.peers {
		if p.cl.C.Failed {
			return
		}
		if p.nConn > 0 {
			l = append(l, p)
		} else if p.cl.C.Accepted {
			return
		}
	}
	for i := range l {
		for j := i; j > 0 && l[j].cl.C.AcceptSeq < l[j-1].cl.C.AcceptSeq; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
	for i, p := range l {
		for j := max(0, i-m.sp.Loops); j < i; j++ {
			if (p.on == l[j].on) != (i-j == m.sp.Loops) {
				viol("mate", "the second server has %d loops and deals connections in turn, but its connections %d and %d of %d shared or did not share a loop", m.sp.Loops, j, i, len(l))
				return
			}
		}
	}
	if len(l) > 1 && m.sp.Twin {
		core.Count("probe.third_server")
	}
}

// every starts the periodic task. It ends after a while: long runs would have millions of them.
func (m *mate) every() {
	var t *timingwheel.Timer
	n := 0
	t = m.srv.RunEvery(stdtime.Duration(m.sp.Every)*stdtime.Millisecond, func() {
		m.ticks++
		if n++; n >= 500 && t != nil {
			t.Stop()
		}
	})
}

// exercise uses the second server: old peers, a new one, timers, Send from outside.
func (m *mate) exercise(when string) {
	p := m.dial()
	for _, q := range m.peers {
		q.write(1 + m.rng.Skewed(400))
	}
	fired := int64(-1)
	t0 := core.Now()
	m.srv.RunAfter(5*stdtime.Millisecond, func() { fired = core.Now() })
	if m.sp.Every > 0 {
		m.every()
	}
	k0 := m.ticks
	core.Sleep(300 * ms)
	for i := 0; i < 100 && (p.back != p.sent || fired < 0); i++ {
		core.Sleep(10 * ms)
	}
	if core.Ended() {
		return
	}
	m.served(when)
	m.turns()
	if len(m.n.sp.Jumps) == 0 && (fired < 0 || fired < t0+4*ms) {
		viol("mate", "%s a task delayed by 5 ms on the second server ran after %d us", when, (fired-t0)/us)
	}
	if e := m.sp.Every; e > 0 && len(m.n.sp.Jumps) == 0 {
		if d, want := m.ticks-k0, (300-60)/e; d < want {
			viol("mate", "%s the periodic task of the second server ran %d times in 300 ms, its period is %d ms", when, d, e)
		}
	}
	if m.sp.IdleMS > 0 && m.sp.IdleMS < 1000 && len(m.n.sp.Jumps) == 0 {
		core.Sleep(m.sp.IdleMS*ms + 200*ms)
		for i := 0; i < 500 && m.idleOpen(); i++ {
			core.Sleep(10 * ms)
		}
		if core.Ended() {
			return
		}
		for _, q := range m.peers {
			if q.nConn > 0 && q.nClose == 0 {
				viol("mate", "%s connection %d of the second server is silent and has not been closed by its idle timeout of %d ms", when, q.id, m.sp.IdleMS)
			}
		}
	}
}

func (m *mate) idleOpen() bool {
	for _, q := range m.peers {
		if q.nConn > 0 && q.nClose == 0 {
			return true
		}
	}
	return false
}

func (m *mate) stop() {
	if m.stopped || m.stopAt >= 0 {
		return
	}
	if len(m.peers) == 0 {
		m.dial()
	}
	up := func() bool {
		for _, p := range m.peers {
			if p.nConn > 0 {
				return true
			}
		}
		return false
	}
	for i := 0; i < 500 && !up(); i++ { // (before Start has taken effect Stop does nothing)
		core.Sleep(10 * ms)
		if i%100 == 20 { // (the earlier ones may have met an injected failure)
			m.dial()
		}
	}
	if core.Ended() {
		return
	}
	if !up() {
		viol("mate", "no connection to the second server has been accepted 5 s after it was started")
		return
	}
	if m.stopped || m.stopAt >= 0 {
		return
	}
	m.stopAt = core.Now()
	if !within("mate.stop", 10*core.Sec, m.srv.Stop) {
		viol("mate", "Stop of the second server has not returned after 10 s")
		return
	}
	for i := 0; i < 1000 && !m.retd; i++ {
		core.Sleep(10 * ms)
	}
	if core.Ended() {
		return
	}
	if !m.retd {
		viol("mate", "Start of the second server has not returned 10 s after Stop")
		return
	}
	core.Sleep(20 * ms)
	for _, p := range m.peers {
		if p.nConn > 0 && p.nClose != 1 {
			viol("mate", "connection %d was open when the second server stopped; its close callback ran %d times", p.id, p.nClose)
		}
		if p.conn != nil && p.conn.Connected() {
			viol("mate", "connection %d reports connected after the second server stopped", p.id)
		}
	}
	if kern.Listening(m.port) {
		viol("mate", "the second server stopped and its port still accepts connections")
	}
	m.turns()
	if m.twin != nil {
		for i := 0; i < 500 && m.twinN == 0; i++ { // (as above)
			if i%100 == 20 {
				kern.Dial(m.port+1, false, 1<<20, 1<<20, 1<<20)
			}
			core.Sleep(10 * ms)
		}
		if m.twinN == 0 && !core.Ended() {
			viol("mate", "no connection to the third server has been accepted 5 s after it was started")
		}
		if !within("twin.stop", 10*core.Sec, m.twin.Stop) {
			viol("mate", "Stop of the third server has not returned after 10 s")
			return
		}
		for i := 0; i < 100 && kern.Listening(m.port+1); i++ {
			core.Sleep(10 * ms)
		}
		core.Sleep(20 * ms)
	}
	m.stopped = true
	progress()
}

// alive tells whether the second server holds descriptors.
func (m *mate) alive() bool { return m != nil && !(m.stopped && m.ready) }

// settleMate waits until the second server is up (or gone, if it is to stop early).
func (m *mate) settle() {
	for i := 0; i < 3000 && !core.Ended() && (!m.ready || m.sp.Stop > 0 && !m.stopped); i++ {
		core.Sleep(10 * ms)
	}
}
