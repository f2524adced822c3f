package harness

import (
	"gevsim/core"
	"gevsim/gen/github.com/Allenxuxu/gev"
	"gevsim/gen/github.com/Allenxuxu/ringbuffer"
)

// mixProto is a protocol that cuts the stream at arbitrary places: it lets bytes accumulate, takes
// some of them in every way the buffer offers, or passes them on to the default protocol. It checks
// that the buffer it is handed holds exactly what was received and not taken.
type mixProto struct{ d gev.DefaultProtocol }

type mixCtx struct {
	p *peer
	n int
}

func (m mixProto) UnPacket(c *gev.Connection, b *ringbuffer.RingBuffer) (interface{}, []byte) {
	p := w.net.byConn[c]
	if p == nil {
		return nil, nil
	}
	if p.prg == nil {
		p.prg = core.NewRng(mix(w.spec.Seed, uint64(p.id), 0x313, 0))
	}
	r := p.prg
	n := b.Length()
	if un := p.kc.Srv.ReadTotal - p.got; int64(n) != un {
		viol("in_bytes", "connection %d: the protocol is handed %d bytes, %d were received and not consumed", p.id, n, un)
		return nil, nil
	}
	first, end := b.PeekAll()
	if len(first)+len(end) != n {
		viol("in_bytes", "connection %d: the buffer holds %d bytes, its two parts %d and %d", p.id, n, len(first), len(end))
		return nil, nil
	}
	if d := diff(first, p.out[p.got:p.got+int64(len(first))]); d >= 0 {
		viol("in_bytes", "connection %d: byte %d of the stream is wrong in the buffer handed to the protocol", p.id, p.got+int64(d))
		return nil, nil
	}
	if d := diff(end, p.out[p.got+int64(len(first)):p.got+int64(n)]); d >= 0 {
		viol("in_bytes", "connection %d: byte %d of the stream is wrong in the buffer handed to the protocol", p.id, p.got+int64(len(first)+d))
		return nil, nil
	}
	if len(end) > 0 {
		core.Count("probe.mix_wrapped")
	}
	p.held = int64(n)
	if n == 0 {
		return nil, nil
	}
	if len(end) > 0 && (r.P(400) || w.spec.Srv.Wrap) {
		core.Count("probe.mix_wrapped_default")
		p.mixT, p.held = 0, 0
		return m.d.UnPacket(c, b)
	}
	if p.mixT == 0 {
		p.mixT = r.Pick(1, 1, 2, 10, 60, 300, 1200, 4000)
		if r.P(300) {
			p.mixT = n + r.N(3)
		}
	}
	if n < p.mixT && !w.spec.Srv.Wrap {
		return nil, nil
	}
	p.mixT = 0
	p.held = 0
	k := n
	if r.P(700) {
		k = 1 + r.N(n)
	}
	if w.spec.Srv.Wrap {
		if p.mixW = !p.mixW; !p.mixW || n < 10 { // leaves a part for later
			p.held = int64(n)
			return nil, nil
		}
		k = n - 1 - r.N(n/2)
		d := make([]byte, k)
		_, _ = b.Read(d)
		return nil, d
	}
	switch r.N(6) {
	case 0, 1:
		if len(end) > 0 {
			core.Count("probe.mix_wrapped_default")
		}
		return m.d.UnPacket(c, b)
	case 2:
		d := make([]byte, k)
		_, _ = b.Read(d)
		return &mixCtx{p, k}, d
	case 3: // only a context
		b.Retrieve(k)
		return &mixCtx{p, k}, nil
	case 4:
		d := make([]byte, k)
		_, _ = b.VirtualRead(d)
		b.VirtualFlush()
		return nil, d
	default: // looks at some and leaves it for now
		// (not all of it: the ring buffer cannot revert a virtual read up to its end)
		if d := make([]byte, min(k, n-1)); len(d) > 0 {
			_, _ = b.VirtualRead(d)
			b.VirtualRevert()
		}
		p.mixT = n + 1 + r.Skewed(500)
		p.held = int64(n)
		return nil, nil
	}
}

func (m mixProto) Packet(c *gev.Connection, data interface{}) []byte { return m.d.Packet(c, data) }
