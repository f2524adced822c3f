package harness

import (
	"bytes"
	"crypto/sha1"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"strings"

	"gevsim/core"
	"gevsim/gen/github.com/Allenxuxu/gev/plugins/websocket/ws"
)

const wsKey = "dGhlIHNhbXBsZSBub25jZQ=="

func acceptKey(key string) string {
	h := sha1.Sum([]byte(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
	return base64.StdEncoding.EncodeToString(h[:])
}

func (n *netWorld) upgrader() *ws.Upgrader {
	return &ws.Upgrader{}
}

func (h *HsSpec) key() string {
	if h.Key != "" {
		return h.Key
	}
	return wsKey
}

type hsReq struct {
	bad string
	end int64
	exp *expHooks
}

// requests builds everything up to the end of the upgrade request.
func (h *HsSpec) requests(hooks int) (b []byte, l []hsReq) {
	for _, bad := range append(append([]string{}, h.Pre...), h.Bad) {
		c := *h
		c.Bad = bad
		r := c.request()
		b = append(b, r...)
		l = append(l, hsReq{bad, int64(len(b)), h.hooks(bad, r, hooks)})
	}
	return
}

// request builds the upgrade request.
func (h *HsSpec) request() []byte {
	path := h.Path
	if path == "" {
		path = "/chat"
	}
	method, version := "GET", "HTTP/1.1"
	if h.Ver != "" {
		version = h.Ver
	}
	lines := []string{
		"Host: server.example.com",
		"Upgrade: websocket",
		"Connection: Upgrade",
		"Sec-WebSocket-Key: " + h.key(),
		"Sec-WebSocket-Version: 13",
	}
	if h.UpHd != "" {
		lines[1] = "Upgrade: " + h.UpHd
	}
	if h.ConnHd != "" {
		lines[2] = "Connection: " + h.ConnHd
	}
	switch h.Bad {
	case "method":
		method = "POST"
	case "version":
		version = "HTTP/1.0"
		if h.BadVer != "" {
			version = h.BadVer
		}
	case "nohost":
		lines = append(lines[:0:0], lines[1:]...)
	case "noupgrade":
		lines = append(lines[:1:1], lines[2:]...)
	case "badupgrade":
		lines[1] = "Upgrade: h2c"
	case "noconn":
		lines = append(lines[:2:2], lines[3:]...)
	case "badconn":
		lines[2] = "Connection: close"
	case "nokey":
		lines = append(lines[:3:3], lines[4:]...)
	case "badkey":
		lines[3] = "Sec-WebSocket-Key: short"
	case "nover":
		lines = lines[:4]
	case "badver":
		lines[4] = "Sec-WebSocket-Version: 8"
	case "plain":
		lines = lines[:1]
	}
	lines = append(lines, h.Extra...)
	for _, s := range h.Proto {
		lines = append(lines, "Sec-WebSocket-Protocol: "+s)
	}
	for _, s := range h.Exts {
		lines = append(lines, "Sec-WebSocket-Extensions: "+s)
	}
	if h.Shuf != 0 {
		for i := len(lines) - 1; i > 0; i-- {
			j := int(mix(h.Shuf, uint64(i), 5, 6) % uint64(i+1))
			lines[i], lines[j] = lines[j], lines[i]
		}
	}
	if h.Lower {
		for i, l := range lines {
			if j := strings.IndexByte(l, ':'); j > 0 {
				lines[i] = strings.ToLower(l[:j]) + l[j:]
			}
		}
	}
	if a, b, ok := strings.Cut(h.OWS, "|"); ok {
		for i, l := range lines {
			if j := strings.IndexByte(l, ':'); j > 0 {
				lines[i] = l[:j+1] + a + strings.TrimPrefix(l[j+1:], " ") + b
			}
		}
	}
	if h.Bad == "garbage" {
		return []byte("this is not http\r\n\r\n")
	}
	if h.Bad == "colon" {
		lines = append(lines, "no colon here")
	}
	return []byte(method + " " + path + " " + version + "\r\n" + strings.Join(lines, "\r\n") + "\r\n\r\n")
}

// wsFrame encodes a client frame (independent of the code under test).
func wsFrame(op byte, fin bool, payload []byte, masked bool, mask uint32) []byte {
	b := []byte{op}
	if fin {
		b[0] |= 0x80
	}
	m := byte(0)
	if masked {
		m = 0x80
	}
	n := len(payload)
	switch {
	case n < 126:
		b = append(b, m|byte(n))
	case n < 65536:
		b = append(b, m|126, byte(n>>8), byte(n))
	default:
		b = append(b, m|127)
		b = binary.BigEndian.AppendUint64(b, uint64(n))
	}
	if !masked {
		return append(b, payload...)
	}
	var k [4]byte
	binary.BigEndian.PutUint32(k[:], mask)
	b = append(b, k[:]...)
	for i, c := range payload {
		b = append(b, c^k[i&3])
	}
	return b
}

// buildWS builds the handshake and the frames.
func (p *peer) buildWS(base uint64) {
	hs := p.sp.Hs
	if hs == nil {
		hs = &HsSpec{}
	}
	var b []byte
	b, p.hsReq = hs.requests(w.net.sp.Srv.Hooks)
	p.out = append(p.out, b...)
	p.hsLen = len(p.out)
	if hs.Bad != "" {
		return
	}
	for i, it := range p.sp.Items {
		pay := make([]byte, it.N)
		fillPat(pay, mix(base, uint64(i), 3, 4), 0)
		if it.K == 1 {
			for j := range pay {
				pay[j] = 'a' + pay[j]%26
			}
		}
		e := expMsg{op: it.K, payload: pay}
		switch it.K {
		case 8:
			e.ctrl = true
			if it.Code == 0 && it.X == 0 {
				pay = nil
			} else {
				reason := []byte(strings.Repeat("bye", it.N/3+1))[:it.N]
				if it.X == 2 { // invalid UTF-8
					reason = []byte{0xff, 0xfe}
				}
				pay = append([]byte{byte(it.Code >> 8), byte(it.Code)}, reason...)
				if it.X == 3 { // one byte: malformed
					pay = pay[:1]
				}
			}
			e.payload = pay
			p.wantCl = closeReply(pay)
		case 9, 10:
			e.ctrl = true
		}
		p.out = append(p.out, wsFrame(byte(it.K), it.X != 5, pay, true, it.M)...)
		e.end = int64(len(p.out))
		p.exp = append(p.exp, e)
		if it.K == 8 {
			break
		}
	}
}

// closeReply is the close body the server must answer with; a body of just 1002 means any reason
// text is fine.
func closeReply(pay []byte) []byte {
	if len(pay) == 0 {
		return []byte{}
	}
	bad := []byte{0x03, 0xEA}
	if len(pay) < 2 {
		return bad
	}
	code := int(pay[0])<<8 | int(pay[1])
	ok := false
	switch {
	case code >= 3000 && code <= 4999:
		ok = true
	case code == 1000 || code == 1001 || code == 1002 || code == 1003 || (code >= 1007 && code <= 1011):
		ok = true
	}
	if code >= 5000 {
		// RFC 6455 leaves these undefined; both answers are accepted
		return []byte{0xff}
	}
	if !ok || !bytes.Equal([]byte(strings.ToValidUTF8(string(pay[2:]), "?")), pay[2:]) {
		return bad
	}
	return pay
}

// decodeWS consumes the handshake response and frames from the server.
func (p *peer) decodeWS() {
	for !p.hsOK {
		if len(p.buf) == 0 {
			return
		}
		if p.hsI == len(p.hsReq) {
			viol("hs", "the peer of connection %d received %d bytes after the response to its invalid upgrade request", p.id, len(p.buf))
			p.buf = nil
			return
		}
		r := p.hsReq[p.hsI]
		if p.cl.Arrived < r.end {
			viol("hs", "the peer of connection %d received %d bytes before its upgrade request was complete", p.id, len(p.buf))
			return
		}
		i := bytes.Index(p.buf, []byte("\r\n\r\n"))
		if i < 0 {
			return
		}
		if r.bad == "" {
			p.checkHS(string(p.buf[:i+2]))
			p.buf = p.buf[i+4:]
			p.hooksDone(p.hsI)
			p.hsI++
			p.hsOK = true
			break
		}
		n := p.checkReject(r.bad, string(p.buf[:i+2]))
		if len(p.buf) < i+4+n {
			return
		}
		p.checkRejected(p.hsI, string(p.buf[:i+2]), string(p.buf[i+4:i+4+n]))
		p.hooksDone(p.hsI)
		p.buf = p.buf[i+4+n:]
		p.hsI++
	}
	for {
		if len(p.buf) < 2 {
			return
		}
		b0, b1 := p.buf[0], p.buf[1]
		op := int(b0 & 15)
		if b0&0x70 != 0 || b1&0x80 != 0 || b0&0x80 == 0 || !(op == 1 || op == 2 || op == 8 || op == 9 || op == 10) {
			viol("ws_out", "the peer of connection %d received the malformed frame header % x", p.id, p.buf[:2])
			p.buf = nil
			return
		}
		n := int(b1 & 127)
		h := 2
		switch n {
		case 126:
			if len(p.buf) < 4 {
				return
			}
			n = int(binary.BigEndian.Uint16(p.buf[2:]))
			h = 4
			if n < 126 {
				viol("ws_out", "the peer of connection %d received a frame whose length %d is not minimally encoded", p.id, n)
			}
		case 127:
			if len(p.buf) < 10 {
				return
			}
			l := binary.BigEndian.Uint64(p.buf[2:])
			h = 10
			if l < 65536 || l > 1<<30 {
				viol("ws_out", "the peer of connection %d received a frame with length %d in the 64-bit encoding", p.id, l)
				p.buf = nil
				return
			}
			n = int(l)
		}
		if op >= 8 && n > 125 {
			viol("ws_out", "the peer of connection %d received a control frame of %d bytes", p.id, n)
		}
		if p.closeGot > 0 {
			viol("ws_close", "the peer of connection %d received a frame after the close frame", p.id)
		}
		if len(p.buf) < h+n {
			return
		}
		pay := p.buf[h : h+n]
		switch op {
		case 1, 2:
			p.inner, p.innerOK = append(p.inner[:0], pay...), 0
			if m, ok := p.header(); ok {
				if m.op != op {
					viol("ws_out", "the peer of connection %d received message %s as opcode %d, it was sent as %d", p.id, m.name(), op, m.op)
				}
				if len(pay) != hdrLen+m.n {
					viol("ws_out", "the peer of connection %d received message %s in a frame of %d bytes instead of %d", p.id, m.name(), len(pay), hdrLen+m.n)
				}
				p.decodeInner()
			} else if p.inner != nil {
				viol("ws_out", "the peer of connection %d received a data frame of %d bytes that is no message", p.id, len(pay))
			}
		case 10:
			p.pong(pay)
		case 9:
			// gev answers an unsolicited pong with a ping; nothing is promised about it
			p.srvPings++
		case 8:
			if w.net.sp.Srv.CloseMsg && len(pay) >= 2+hdrLen && pay[0] == 1000>>8 && pay[1] == 1000&255 {
				p.inner, p.innerOK = append(p.inner[:0], pay[2:]...), 0
				if m, ok := p.header(); ok {
					if m.op != 8 || len(pay) != 2+hdrLen+m.n {
						viol("ws_out", "the peer of connection %d received message %s (opcode %d, %d bytes) as a close frame with %d bytes", p.id, m.name(), m.op, m.n, len(pay))
					}
					p.decodeInner()
					break
				}
			}
			p.closeGot++
			p.closeFr = append([]byte{}, pay...)
			p.checkClose()
		}
		if p.buf == nil {
			return
		}
		p.buf = p.buf[h+n:]
	}
}

// pong matches a pong with the next unanswered ping.
func (p *peer) pong(pay []byte) {
	for i := p.lastPong + 1; i < len(p.exp); i++ {
		e := &p.exp[i]
		if e.op != 9 {
			continue
		}
		p.lastPong = i
		if p.cl.Arrived < e.end {
			viol("ws_out", "the peer of connection %d received a pong before its ping had arrived", p.id)
			return
		}
		if !bytes.Equal(pay, e.payload) {
			viol("ws_out", "the peer of connection %d received a pong of %d bytes that does not carry the payload (%d bytes) of ping %d", p.id, len(pay), len(e.payload), i)
			return
		}
		p.itemOrder(i)
		return
	}
	viol("ws_out", "the peer of connection %d received more pongs than it sent pings", p.id)
}

// missingPong tells whether a completely received ping is unanswered.
func (p *peer) missingPong() int {
	for i := p.lastPong + 1; i < len(p.exp); i++ {
		if p.exp[i].op == 9 && p.cl.Arrived >= p.exp[i].end {
			return i
		}
	}
	return -1
}

// checkReject checks the response to an invalid request and returns the length of its body.
func (p *peer) checkReject(bad, resp string) (n int) {
	if len(resp) < 13 || !strings.HasPrefix(resp, "HTTP/1.1 ") || (resp[9] != '4' && resp[9] != '5') {
		viol("hs", "an invalid upgrade request (%s) was answered by %.40q", bad, resp)
		return
	}
	for _, l := range strings.Split(resp, "\r\n")[1:] {
		if i := strings.IndexByte(l, ':'); i >= 0 && strings.EqualFold(l[:i], "content-length") {
			if _, err := fmt.Sscan(l[i+1:], &n); err != nil || n < 0 {
				viol("hs", "the response to an invalid upgrade request has the line %q", l)
			}
		}
	}
	return
}

func (p *peer) checkHS(resp string) {
	core.Logf("client %d: handshake response %q", p.id, resp)
	ls := strings.Split(resp, "\r\n")
	hs := p.sp.Hs
	if hs == nil {
		hs = &HsSpec{}
	}
	if !strings.HasPrefix(ls[0], "HTTP/1.1 101") {
		viol("hs", "a valid upgrade request of connection %d was answered by %q", p.id, ls[0])
		return
	}
	got := map[string]string{}
	for _, l := range ls[1:] {
		if l == "" {
			continue
		}
		i := strings.IndexByte(l, ':')
		if i < 0 {
			viol("hs", "the handshake response has the malformed line %q", l)
			return
		}
		k := strings.ToLower(l[:i])
		if _, dup := got[k]; dup {
			viol("hs", "the handshake response repeats the header %q", k)
			return
		}
		got[k] = strings.TrimSpace(l[i+1:])
	}
	if !strings.EqualFold(got["upgrade"], "websocket") || !strings.EqualFold(got["connection"], "Upgrade") || got["sec-websocket-accept"] != acceptKey(hs.key()) {
		viol("hs", "the handshake response of connection %d is wrong: %q", p.id, resp)
	}
	p.responseHeaders(p.hsI, got)
}

func (p *peer) checkClose() {
	if p.closeGot > 1 {
		viol("ws_close", "the peer of connection %d received two close frames", p.id)
		return
	}
	if p.wantCl == nil {
		viol("ws_close", "the peer of connection %d received a close frame it had not asked for", p.id)
		return
	}
	last := p.exp[len(p.exp)-1]
	if p.cl.Arrived < last.end {
		viol("ws_close", "the peer of connection %d received a close frame before its own had arrived", p.id)
		return
	}
	switch {
	case len(p.wantCl) == 1:
	case len(p.wantCl) == 2 && p.wantCl[0] == 0x03 && p.wantCl[1] == 0xEA && !bytes.Equal(last.payload, p.wantCl):
		if len(p.closeFr) < 2 || p.closeFr[0] != 0x03 || p.closeFr[1] != 0xEA {
			viol("ws_close", "the close frame of connection %d was invalid (% x) but was answered by % x, not by a protocol error", p.id, last.payload, p.closeFr)
		}
	default:
		if !bytes.Equal(p.closeFr, p.wantCl) {
			viol("ws_close", "the close frame of connection %d (% x) was answered by % x", p.id, last.payload, p.closeFr)
		}
	}
	// everything owed for earlier frames must have arrived
	for _, m := range p.order {
		if m.kind == 1 && !m.got && m.n >= 0 {
			viol("ws_close", "the peer of connection %d received the close frame before %s", p.id, m.name())
			return
		}
	}
	for i := p.lastPong + 1; i < len(p.exp); i++ {
		if p.exp[i].op == 9 {
			viol("ws_close", "the peer of connection %d received the close frame before the pong for its ping %d", p.id, i)
			return
		}
	}
}
