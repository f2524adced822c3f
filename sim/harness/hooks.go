package harness

import (
	"errors"
	"fmt"
	"net/textproto"
	"strings"

	"gevsim/core"
	"gevsim/gen/github.com/Allenxuxu/gev"
	"gevsim/gen/github.com/Allenxuxu/gev/plugins/websocket/ws"
	"gevsim/gen/github.com/gobwas/httphead"
)

// Hook bits of SrvSpec.Hooks.
const (
	hkOn     = 1 << iota
	hkCustom // ProtocolCustom and ExtensionCustom instead of Protocol and Extension
	hkHeader // Upgrader.Header is set
	hkBefore // OnBeforeUpgrade returns a header
)

// Rej tells which hook rejects a request and how.
type Rej struct {
	Hook   string `json:"hook"`        // req, host, hdr, before, proto (ProtocolCustom), ext (ExtensionCustom)
	N      int    `json:"n,omitempty"` // which of the other headers
	Plain  bool   `json:"plain,omitempty"`
	Status int    `json:"status,omitempty"`
	Reason string `json:"reason,omitempty"`
	Hdr    string `json:"hdr,omitempty"`
}

func (r *Rej) err() error {
	if r.Plain {
		return errors.New(r.Reason)
	}
	o := []ws.RejectOption{ws.RejectionReason(r.Reason)}
	if r.Status != 0 {
		o = append(o, ws.RejectionStatus(r.Status))
	}
	if r.Hdr != "" {
		o = append(o, ws.RejectionHeader(ws.HandshakeHeaderString(r.Hdr+": yes\r\n")))
	}
	return ws.RejectConnectionError(o...)
}

// status is the code the response to a request rejected this way must carry, and its body.
func (r *Rej) status() (int, string) {
	switch {
	case r.Hook == "proto" || r.Hook == "ext":
		return 400, "malformed HTTP request"
	case r.Plain || r.Status == 0:
		return 500, r.Reason
	}
	return r.Status, r.Reason
}

// expHooks is what the hooks must see of one request, and what it negotiates.
type expHooks struct {
	none  bool // not even the first hook is called
	exact bool // all of calls; otherwise a beginning of it
	calls []string
	proto string
	exts  []string
}

func protoOK(s string) bool { return strings.HasPrefix(s, "o") }
func extOK(s string) bool   { return strings.HasPrefix(s, "o") || strings.HasPrefix(s, "perm") }

// hooks parses a request the way a careful reader would.
func (h *HsSpec) hooks(bad string, b []byte, opts int) *expHooks {
	e := &expHooks{}
	switch bad {
	case "method", "version", "garbage":
		e.none = true
		return e
	}
	e.exact = bad == "" || bad == "rej"
	rej := func(hook string, n int) bool {
		return bad == "rej" && h.Rej != nil && h.Rej.Hook == hook && (hook != "hdr" || h.Rej.N == n)
	}
	ls := strings.Split(strings.TrimSuffix(string(b), "\r\n\r\n"), "\r\n")
	e.calls = append(e.calls, "request "+strings.Split(ls[0], " ")[1])
	if rej("req", 0) {
		return e
	}
	other := 0
	for _, l := range ls[1:] {
		i := strings.IndexByte(l, ':')
		if i < 0 {
			return e
		}
		k, v := textproto.CanonicalMIMEHeaderKey(l[:i]), strings.TrimSpace(l[i+1:])
		switch strings.ToLower(k) {
		case "host":
			e.calls = append(e.calls, "host "+v)
			if rej("host", 0) {
				return e
			}
		case "upgrade", "connection", "sec-websocket-version", "sec-websocket-key":
		case "sec-websocket-protocol":
			switch {
			case e.proto != "":
			case opts&hkCustom != 0:
				e.calls = append(e.calls, "proto "+v)
				if rej("proto", 0) {
					return e
				}
				e.proto = customProto(v)
			default:
				for _, t := range strings.Split(v, ",") {
					if t = strings.TrimSpace(t); protoOK(t) {
						e.proto = t
						break
					}
				}
			}
		case "sec-websocket-extensions":
			if opts&hkCustom != 0 {
				e.calls = append(e.calls, "ext "+v)
				if rej("ext", 0) {
					return e
				}
				e.exts = append(e.exts, "custom"+fmt.Sprint(len(v)))
				continue
			}
			for _, o := range parseExts(v) {
				name, _, _ := strings.Cut(o, ";")
				dup := false
				for _, x := range e.exts {
					n, _, _ := strings.Cut(x, ";")
					dup = dup || n == name
				}
				if extOK(name) && !dup {
					e.exts = append(e.exts, o)
				}
			}
		default:
			e.calls = append(e.calls, "header "+k+": "+v)
			if rej("hdr", other) {
				return e
			}
			other++
		}
	}
	if bad == "" || bad == "rej" {
		e.calls = append(e.calls, "before")
	}
	return e
}

func customProto(v string) string {
	t, _, _ := strings.Cut(v, ",")
	return "cust-" + strings.TrimSpace(t)
}

// parseExts splits an extension list and normalises its elements.
func parseExts(v string) (l []string) {
	for _, o := range strings.Split(v, ",") {
		ps := strings.Split(o, ";")
		for i, p := range ps {
			k, x, ok := strings.Cut(strings.TrimSpace(p), "=")
			x = strings.Trim(strings.TrimSpace(x), `"`)
			ps[i] = strings.TrimSpace(k)
			if ok && x != "" {
				ps[i] += "=" + x
			}
		}
		l = append(l, strings.Join(ps, ";"))
	}
	return
}

// hookedUpgrader is an upgrader with all hooks set.
func (n *netWorld) hookedUpgrader(o int) *ws.Upgrader {
	u := &ws.Upgrader{
		OnRequest: func(c *gev.Connection, uri []byte) error { return n.hook(c, "req", "request "+string(uri)) },
		OnHost:    func(c *gev.Connection, host []byte) error { return n.hook(c, "host", "host "+string(host)) },
		OnHeader: func(c *gev.Connection, k, v []byte) error {
			return n.hook(c, "hdr", "header "+string(k)+": "+string(v))
		},
		OnBeforeUpgrade: func(c *gev.Connection) (ws.HandshakeHeader, error) {
			if err := n.hook(c, "before", "before"); err != nil {
				return nil, err
			}
			if p := n.byAddr[c.PeerAddr()]; p != nil && o&hkBefore != 0 {
				return ws.HandshakeHeaderString(fmt.Sprintf("X-Before: %d\r\n", p.id)), nil
			}
			return nil, nil
		},
	}
	if o&hkHeader != 0 {
		u.Header = ws.HandshakeHeaderHTTP{"X-Srv": []string{"gev"}}
	}
	if o&hkCustom != 0 {
		u.ProtocolCustom = func(c *gev.Connection, v []byte) (string, bool) {
			if err := n.hook(c, "proto", "proto "+string(v)); err != nil {
				return "", false
			}
			return customProto(string(v)), true
		}
		u.ExtensionCustom = func(c *gev.Connection, v []byte, l []httphead.Option) ([]httphead.Option, bool) {
			if err := n.hook(c, "ext", "ext "+string(v)); err != nil {
				return nil, false
			}
			return append(l, httphead.NewOption("custom"+fmt.Sprint(len(v)), nil)), true
		}
	} else {
		u.Protocol = func(v []byte) bool { core.Point(); return protoOK(string(v)) }
		u.Extension = func(o httphead.Option) bool { core.Point(); return extOK(string(o.Name)) }
	}
	return u
}

// hook records a call of a hook and tells whether it rejects the request.
func (n *netWorld) hook(c *gev.Connection, kind, call string) error {
	progress()
	core.Point()
	p := n.byAddr[c.PeerAddr()]
	if p != nil && p.sp.Bad {
		return nil
	}
	if p == nil || p.conn != c {
		viol("hook", "hook %q was called for a connection which is not open", call)
		return nil
	}
	if kind == "req" {
		for p.hookI++; p.hookI < len(p.hsReq) && p.hsReq[p.hookI].exp.none; p.hookI++ {
		}
		p.hookN, p.hookHdr = 0, 0
	}
	if p.hookI < 0 || p.hookI >= len(p.hsReq) {
		viol("hook", "connection %d: hook %q was called although no request was sent that it could belong to", p.id, call)
		return nil
	}
	r := p.hsReq[p.hookI]
	if p.cl.Arrived < r.end {
		viol("hook", "connection %d: hook %q was called before the request was complete", p.id, call)
	}
	if p.hookN >= len(r.exp.calls) || r.exp.calls[p.hookN] != call {
		want := "no further call"
		if p.hookN < len(r.exp.calls) {
			want = fmt.Sprintf("%q", r.exp.calls[p.hookN])
		}
		viol("hook", "connection %d, request %d (%s): hook call %d is %q, not %s", p.id, p.hookI, r.bad, p.hookN, call, want)
		return nil
	}
	p.hookN++
	core.Count("probe.hook_" + kind)
	hdr := p.hookHdr
	if kind == "hdr" {
		p.hookHdr++
	}
	if r.bad != "rej" {
		return nil
	}
	if j := p.sp.Hs.Rej; j != nil && j.Hook == kind && (kind != "hdr" || j.N == hdr) {
		core.Count("probe.hook_rejected")
		return j.err()
	}
	return nil
}

// hooksDone checks the calls made for request i once it is answered.
func (p *peer) hooksDone(i int) {
	e := p.hsReq[i].exp
	if w.net.sp.Srv.Hooks == 0 || e == nil || e.none || !e.exact {
		return
	}
	if p.hookI < i || p.hookI == i && p.hookN < len(e.calls) {
		viol("hook", "connection %d: request %d was answered although hook call %q had not been made", p.id, i, e.calls[min(p.hookN, len(e.calls)-1)])
	}
}

// responseHeaders checks what the hooks put into a response; hdr maps lower-case names.
func (p *peer) responseHeaders(i int, hdr map[string]string) {
	o := w.net.sp.Srv.Hooks
	r := p.hsReq[i]
	if o&hkHeader != 0 && hdr["x-srv"] != "gev" {
		viol("hs", "connection %d: the header of the upgrader is missing in the response to request %d", p.id, i)
	}
	if r.bad != "" {
		return
	}
	want, exts := "", []string(nil)
	if o != 0 {
		want, exts = r.exp.proto, r.exp.exts
	}
	if got, ok := hdr["sec-websocket-protocol"]; got != want || ok != (want != "") {
		viol("hs", "connection %d: the response selects the subprotocol %q, not %q", p.id, got, want)
	}
	got, ok := hdr["sec-websocket-extensions"]
	if ok != (len(exts) > 0) || ok && strings.Join(parseExts(got), ", ") != strings.Join(exts, ", ") {
		viol("hs", "connection %d: the response selects the extensions %q, not %q", p.id, got, exts)
	}
	if o&hkBefore != 0 && hdr["x-before"] != fmt.Sprint(p.id) {
		viol("hs", "connection %d: the header from OnBeforeUpgrade is missing in the response or wrong: %q", p.id, hdr["x-before"])
	}
}

// checkRejected checks the response to a request a hook rejected.
func (p *peer) checkRejected(i int, resp, body string) {
	hdr := map[string]string{}
	for _, l := range strings.Split(resp, "\r\n")[1:] {
		if k, v, ok := strings.Cut(l, ":"); ok {
			hdr[strings.ToLower(k)] = strings.TrimSpace(v)
		}
	}
	p.responseHeaders(i, hdr)
	if p.hsReq[i].bad != "rej" || p.sp.Hs.Rej == nil {
		return
	}
	j := p.sp.Hs.Rej
	code, reason := j.status()
	if !strings.HasPrefix(resp, fmt.Sprintf("HTTP/1.1 %d ", code)) {
		viol("hs", "connection %d: a request which hook %s rejected with status %d was answered by %.40q", p.id, j.Hook, code, resp)
	}
	if body != reason {
		viol("hs", "connection %d: a request which hook %s rejected with reason %q was answered by the body %.60q", p.id, j.Hook, reason, body)
	}
	if j.Hdr != "" && !j.Plain && j.Hook != "proto" && j.Hook != "ext" && hdr[strings.ToLower(j.Hdr)] != "yes" {
		viol("hs", "connection %d: the header of the rejection is missing in the response", p.id)
	}
}
