package harness

import (
	"encoding/binary"
	"fmt"

	"gevsim/core"
	"gevsim/gen/github.com/Allenxuxu/gev"
	"gevsim/kern"
)

// newPeer prepares a peer; it dials when its time comes.
func (n *netWorld) newPeer(sp *ClSpec) *peer {
	p := &peer{id: len(n.peers), sp: sp, loop: -1, seqs: map[uint16]uint32{}, msgs: map[uint64]*smsg{}, finSeq: map[uint16]*smsg{}, lastItem: -1, lastPong: -1, hookI: -1}
	p.rng = core.NewRng(mix(n.sp.Seed, uint64(p.id), 0xa11, 0))
	p.crg = core.NewRng(mix(n.sp.Seed, uint64(p.id), 0xc11, 0))
	n.peers = append(n.peers, p)
	p.buildInput()
	return p
}

// buildInput computes the bytes the peer will send and what the handler must see.
func (p *peer) buildInput() {
	n := w.net
	sp := p.sp
	if sp.Bad || len(sp.Raw) > 0 {
		p.out = append([]byte(nil), sp.Raw...)
		return
	}
	total := 0
	for _, o := range sp.Ops {
		if o.K == "w" && o.A > 0 {
			total += int(o.A)
		}
	}
	base := mix(n.sp.Seed, uint64(p.id), 0xd00d, 1)
	switch n.sp.Srv.Proto {
	case "", "raw", "mix":
		p.out = make([]byte, total)
		fillPat(p.out, base, 0)
	case "rec":
		for i, it := range sp.Items {
			pay := make([]byte, it.N)
			fillPat(pay, mix(base, uint64(i), 3, 4), 0)
			var h [4]byte
			binary.BigEndian.PutUint32(h[:], uint32(it.N))
			p.out = append(append(p.out, h[:]...), pay...)
			p.exp = append(p.exp, expMsg{payload: pay, end: int64(len(p.out))})
		}
	case "pb":
		for i, it := range sp.Items {
			pay := make([]byte, it.N)
			fillPat(pay, mix(base, uint64(i), 3, 4), 0)
			p.out = append(p.out, packPB(it.T, pay)...)
			p.exp = append(p.exp, expMsg{typ: it.T, payload: pay, end: int64(len(p.out))})
		}
	case "ws":
		p.buildWS(base)
	}
}

// packPB is an independent encoder of the documented packet format.
func packPB(typ string, data []byte) []byte {
	b := binary.BigEndian.AppendUint32(nil, uint32(2+len(typ)+len(data)))
	b = binary.BigEndian.AppendUint16(b, uint16(len(typ)))
	b = append(b, typ...)
	return append(b, data...)
}

// launch schedules the connection attempt.
func (n *netWorld) launch(p *peer) {
	dial := func() {
		if p.cl == nil {
			n.dial(p)
		}
	}
	core.At(max(p.sp.At*us, core.Now()), dial)
	if q := n.peerAt(int64(p.sp.After) - 1); q != nil && q != p {
		q.onFD = append(q.onFD, dial)
	}
}

func (n *netWorld) dial(p *peer) {
	snd, rcv, win := p.sp.Snd, p.sp.Rcv, p.sp.Win
	if snd <= 0 {
		snd = 1 << 20
	}
	if rcv <= 0 {
		rcv = 1 << 20
	}
	if win <= 0 {
		win = 1 << 20
	}
	cl := kern.Dial(n.port, p.sp.V6, snd, rcv, win)
	p.cl, p.kc = cl, cl.C
	cl.C.OnFDClose = p.onFD
	cl.Chunk, cl.Delay = p.sp.Chunk, p.sp.Delay*us
	n.byAddr[cl.C.Addr()] = p
	cl.OnConn = func() {
		progress()
		p.connected = true
		p.step()
	}
	cl.OnRefuse = func() {
		progress()
		p.refused = true
		p.done = true
		if n.stopAt < 0 {
			viol("accept_dead", "connection attempt %d was refused although the server is running", p.id)
		}
	}
	cl.OnData = p.onData
	cl.OnEOF = func() {
		progress()
		core.Logf("client %d: end of stream", p.id)
		p.eofAt = core.Now()
		p.ended("end-of-stream")
		p.poke()
	}
	cl.OnReset = func() {
		progress()
		core.Logf("client %d: reset", p.id)
		p.rstAt = core.Now()
		p.ended("a reset")
		p.poke()
	}
}

// ended is called when the peer sees its stream end.
func (p *peer) ended(what string) {
	n := w.net
	if p.nClose > 0 || p.appShut != 0 || p.sp.Bad {
		return
	}
	if n.sp.Srv.Proto == "ws" && p.wantCl != nil {
		return
	}
	if p.reason() == "" {
		if n.idle > 0 {
			return
		}
		viol("unexpected_close", "the peer of connection %d saw %s although neither side ended the connection and nothing failed", p.id, what)
	}
}

// poke re-evaluates what the client is waiting for.
func (p *peer) poke() {
	if p.waiting != nil && p.waiting() {
		p.waiting = nil
		p.waitEv.Cancel()
		core.After(1, p.step)
	}
}

func (p *peer) wait(limit int64, f func() bool) {
	if f() {
		core.After(1, p.step)
		return
	}
	p.waiting = f
	p.waitEv = core.After(limit, func() {
		if p.waiting != nil {
			p.waiting = nil
			p.step()
		}
	})
}

// step performs the next operations of the client.
func (p *peer) step() {
	cl := p.cl
	for p.pc < len(p.sp.Ops) {
		o := p.sp.Ops[p.pc]
		p.pc++
		if cl.Closed() {
			break
		}
		switch o.K {
		case "w":
			p.write(o)
			return
		case "s":
			core.After(o.A*us, p.step)
			return
		case "hc":
			core.Logf("client %d half-closes", p.id)
			if p.endKind == "" {
				p.endKind = "half"
				p.endAt = core.Now()
			}
			cl.CloseWrite()
			core.Count("fault.peer_halfclose")
		case "c":
			p.end("close")
		case "r":
			p.end("reset")
		case "v":
			core.Logf("client %d vanishes", p.id)
			core.Count("fault.peer_vanish")
			p.endKind = "vanish"
			p.endAt = core.Now()
			cl.Vanish()
		case "p":
			cl.Partition(o.A * us)
		case "ro":
			if !w.net.quiet {
				cl.SetReading(false)
				core.Count("fault.peer_stops_reading")
			}
		case "rn":
			cl.SetReading(true)
		case "ch":
			if !w.net.quiet {
				cl.Chunk, cl.Delay = int(o.A), o.B*us
			}
		case "wg": // wait until A bytes have been received
			a := o.A
			p.wait(max(o.B, 1)*us, func() bool { return cl.Got >= a || cl.EOF() })
			return
		case "wc": // wait until the server application has consumed everything sent
			p.wait(max(o.B, 1)*us, func() bool { return p.got+p.held >= int64(p.sent) || cl.EOF() })
			return
		case "wh": // wait for the handshake response
			p.wait(max(o.B, 1)*us, func() bool { return p.hsOK || cl.EOF() })
			return
		case "we": // wait for end of stream
			p.wait(max(o.B, 1)*us, func() bool { return cl.EOF() })
			return
		}
	}
	if !p.done {
		p.done = true
		progress()
	}
}

func (p *peer) end(k string) {
	if p.cl == nil || p.cl.Closed() {
		return
	}
	core.Logf("client %d: %s", p.id, k)
	if p.endKind == "" || p.endKind == "half" {
		p.endKind = k
		p.endAt = core.Now()
	}
	progress()
	if k == "reset" {
		core.Count("fault.peer_reset")
		p.cl.Reset()
	} else {
		core.Count("probe.peer_close")
		p.cl.Close()
	}
}

// write sends A bytes in segments of at most B bytes with gaps of up to C us.
func (p *peer) write(o Op) {
	left := len(p.out) - p.sent
	if o.A >= 0 && int(o.A) < left {
		left = int(o.A)
	}
	var next func()
	next = func() {
		for left > 0 && !p.cl.Closed() {
			k := left
			if b := int(o.B); b > 0 && (b < k || w.net.quiet) {
				if w.net.quiet {
					b = max(b, 4096) // no more dribbling
				}
				k = min(k, b)
				if o.S != "x" && !w.net.quiet {
					k = 1 + p.crg.N(k)
				}
			}
			p.cl.Write(p.out[p.sent : p.sent+k])
			p.sent += k
			left -= k
			if o.C > 0 && left > 0 {
				core.After(1+p.crg.I64(o.C*us), next)
				return
			}
		}
		core.After(1, p.step)
	}
	next()
}

// ---- what the peer receives ----

func (p *peer) onData(b []byte) {
	progress()
	if core.Tracing() {
		core.Logf("client %d receives %d bytes", p.id, len(b))
	}
	p.lastRecv = core.Now()
	if p.sp.Bad {
		return
	}
	p.buf = append(p.buf, b...)
	switch w.net.sp.Srv.Proto {
	case "ws":
		p.decodeWS()
	case "pb":
		p.decodePB()
	default:
		p.inner = append(p.inner, p.buf...)
		p.buf = p.buf[:0]
		p.decodeInner()
	}
	p.poke()
}

func (p *peer) decodePB() {
	for len(p.buf) >= 6 {
		l := int(binary.BigEndian.Uint32(p.buf))
		tl := int(binary.BigEndian.Uint16(p.buf[4:]))
		if tl != 3 || l < 5 || l > 1<<26 {
			viol("out_frame", "the peer of connection %d received a broken packet header % x", p.id, p.buf[:6])
			return
		}
		if len(p.buf) < 4+l {
			return
		}
		if string(p.buf[6:9]) != "srv" {
			viol("out_frame", "the peer of connection %d received type %q", p.id, p.buf[6:9])
			return
		}
		p.inner, p.innerOK = append(p.inner[:0], p.buf[9:4+l]...), 0
		p.buf = p.buf[4+l:]
		p.decodeInner()
		if len(p.inner) != 0 {
			viol("out_frame", "the peer of connection %d received a packet whose content is not exactly one message", p.id)
			return
		}
	}
}

// decodeInner consumes whole messages from inner.
func (p *peer) decodeInner() {
	for len(p.inner) > 0 {
		m, ok := p.header()
		if !ok {
			return
		}
		have := min(len(p.inner)-hdrLen, m.n)
		base := p.base(m.kind, m.sender, m.seq)
		if p.innerOK > have {
			p.innerOK = 0
		}
		if i := checkPat(p.inner[hdrLen+p.innerOK:hdrLen+have], base, int64(p.innerOK)); i >= 0 {
			viol("out_frame", "the peer of connection %d received message %s with byte %d altered", p.id, m.name(), p.innerOK+i)
			p.inner = nil
			return
		}
		if have < m.n {
			p.innerOK = have
			return
		}
		p.innerOK = 0
		p.inner = p.inner[hdrLen+m.n:]
		p.arrived(m)
	}
}

func (m *smsg) name() string {
	if m.kind == 1 {
		return fmt.Sprintf("reply %d", m.seq)
	}
	return fmt.Sprintf("%d of sender %d", m.seq, m.sender)
}

// header checks the message header at the start of inner.
func (p *peer) header() (*smsg, bool) {
	h := p.inner
	want := []byte{0xA7, 'g'}
	for i := 0; i < min(2, len(h)); i++ {
		if h[i] != want[i] {
			viol("out_frame", "the peer of connection %d received % x where a message must start (after %d bytes)", p.id, h[:min(len(h), 16)], p.cl.Got)
			p.inner = nil
			return nil, false
		}
	}
	if len(h) < hdrLen {
		return nil, false
	}
	kind := h[2]
	id := int(binary.BigEndian.Uint16(h[4:]))
	sender := binary.BigEndian.Uint16(h[6:])
	seq := binary.BigEndian.Uint32(h[8:])
	ln := int(binary.BigEndian.Uint32(h[12:]))
	if id != p.id && (kind != 3 || id != 0xffff) {
		viol("out_frame", "the peer of connection %d received a message for connection %d", p.id, id)
		p.inner = nil
		return nil, false
	}
	m := p.msgs[uint64(kind)<<48|uint64(sender)<<32|uint64(seq)]
	if m == nil || m.n != ln || binary.BigEndian.Uint64(h[16:]) != mix(p.base(kind, sender, seq), uint64(ln), 1, 2) {
		viol("out_frame", "the peer of connection %d received a message header that was never sent: % x", p.id, h[:hdrLen])
		p.inner = nil
		return nil, false
	}
	return m, true
}

// arrived is called for each complete message.
func (p *peer) arrived(m *smsg) {
	if m.got {
		viol("out_order", "the peer of connection %d received message %s twice", p.id, m.name())
		return
	}
	m.got = true
	if m.rej {
		viol("send_contract", "the peer of connection %d received message %s although Send had reported an error", p.id, m.name())
	}
	if m.kind == 1 {
		for int(p.lastRep) < len(p.replies) && p.replies[p.lastRep].n < 0 {
			p.lastRep++
		}
		if m.seq != p.lastRep {
			viol("out_order", "the peer of connection %d received reply %d where reply %d is due", p.id, m.seq, p.lastRep)
			return
		}
		p.lastRep++
		p.itemOrder(m.item)
		return
	}
	if m.ret > 0 && m.ret < p.maxCall {
		viol("out_order", "the peer of connection %d received message %s after a message whose Send began later", p.id, m.name())
		return
	}
	if m.call > p.maxCall {
		p.maxCall = m.call
	}
}

// itemOrder checks that replies follow the order of the messages they answer.
func (p *peer) itemOrder(item int) {
	if item < 0 {
		return
	}
	if item < p.lastItem {
		viol("out_order", "the peer of connection %d received the reply to its message %d after that to message %d", p.id, item, p.lastItem)
		return
	}
	p.lastItem = item
}

// skipped finds a message that was passed over by a later one.
func (p *peer) skipped() *smsg {
	for _, m := range p.order {
		if m.kind != 1 && m.acc && !m.got && m.n >= 0 && m.ret > 0 && m.ret < p.maxCall {
			return m
		}
	}
	return nil
}

// missing finds an accepted message that has not arrived completely.
func (p *peer) missing() *smsg {
	for _, m := range p.order {
		if m.acc && !m.got && m.n >= 0 {
			return m
		}
	}
	return nil
}

var _ = gev.ErrConnectionClosed
