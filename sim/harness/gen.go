package harness

import (
	"gevsim/core"
	"gevsim/kern"
	"strings"
)

// Classes lists the violation classes that contradict a property's statement.
func Classes(prop string) []string {
	m := map[string][]string{
		"C01": {"in_bytes", "in_missing", "in_frame", "unexpected_close"},
		"C02": {"out_frame", "out_order", "ws_out"},
		"C03": {"out_missing", "in_missing", "in_frame", "unexpected_close"},
		"C04": {"lifecycle", "serial", "addr", "not_noticed", "stop_close"},
		"C05": {"not_noticed", "fd_leak", "bad_close", "count", "unexpected_close", "stop_close"},
		"C06": {"in_bytes", "in_missing", "in_frame", "out_frame", "out_order", "out_missing", "unexpected_close", "accept_dead", "bad_close", "pool"},
		"C07": {"task", "api_block"},
		"C08": {"poller", "poller_close", "bad_close"},
		"C09": {"idle_early", "idle_late", "unexpected_close"},
		"C10": {"timer"},
		"C11": {"stop", "stop_close", "stale"},
		"C12": {"lb", "count"},
		"C13": {"in_frame", "in_bytes", "unexpected_close", "pool"},
		"C14": {"in_frame", "in_bytes", "ws_out", "out_frame", "out_order", "out_missing", "unexpected_close", "pool"},
		"C15": {"hs", "in_frame", "ws_out", "out_missing", "unexpected_close"},
		"C16": {"*"},
		"C17": {"accept_dead", "fd_leak", "lifecycle", "not_noticed", "count", "bad_close", "unexpected_close", "in_missing"},
		"C18": {"kv", "api_block"},
		"C19": {"gauge"},
		"C20": {"ctor", "bad_close", "poller_close"},
		"C21": {"send_contract", "finish", "api_block"},
		"C22": {"half", "in_missing", "in_bytes", "in_frame", "out_frame", "out_order", "unexpected_close"},
		"C23": {"ws_close", "ws_out", "in_frame", "not_noticed"},
		"C24": {"spin"},
		"C25": {"hook", "hs", "in_frame", "out_missing", "unexpected_close"},
		"C26": {"race", "pool"},
		"C27": {"mate"},
	}
	return append(m[prop], "crash", "hang")
}

// Props lists the properties that have a generator.
func Props() []string {
	var l []string
	for i := 1; i <= 27; i++ {
		l = append(l, "C"+string(rune('0'+i/10))+string(rune('0'+i%10)))
	}
	return l
}

type g struct {
	*core.Rng
	sp *Spec
}

// ScalePM is the share (per mille) of large runs.
var ScalePM = 25

// Generate builds the specification of run number seed for a property.
func Generate(prop string, seed uint64) *Spec {
	var h uint64
	for _, c := range prop {
		h = h*131 + uint64(c)
	}
	r := core.NewRng(mix(seed, h, 11, 12))
	sp := &Spec{Prop: prop, Kind: "net", Seed: r.U64()>>1 | 1}
	x := &g{r, sp}
	x.sched()
	gens[prop](x)
	if sp.Of != "" {
		prop = sp.Of
	}
	switch prop {
	case "C01", "C02", "C03", "C13", "C14", "C19", "C22", "C24":
		x.churn()
	}
	switch prop {
	case "C02", "C03", "C05", "C06", "C19", "C21", "C22", "C24":
		x.backlog(prop)
	}
	if x.P(ScalePM) {
		x.scale(prop)
	}
	switch prop {
	case "C02", "C03", "C04", "C05", "C06", "C11", "C14", "C19", "C21", "C24", "C26":
		x.chat()
	}
	switch prop {
	case "C08", "C09", "C10":
	default:
		x.hold()
	}
	x.bound()
	if sp.Kind == "net" && x.P(120) {
		sp.EmptyPM = x.Pick(20, 100, 400)
	}
	if sp.Kind == "net" {
		x.jumps(prop)
	}
	if sp.Mate != nil && len(sp.Jumps) > 0 { // (jumps go back too; the timing wheel runs on wall time)
		sp.Mate.Every, sp.Mate.IdleMS = 0, 0
	}
	return sp
}

// backlog: output that waits, is flushed in part, added to (it wraps around in the ring buffer) and then flushed
// in one go, with something else happening about then.
func (x *g) backlog(prop string) {
	sp := x.sp
	n := len(sp.Clients)
	if sp.Kind != "net" || n == 0 || n > 20 || sp.Srv.Proto == "ws" || !x.P(150) {
		return
	}
	i := x.N(n)
	c := &sp.Clients[i]
	c.At = int64(x.N(300))
	c.Snd, c.Win = x.Pick(300, 2000, 4000, 10000), x.Pick(200, 1000, 3000)
	c.Chunk, c.Delay = x.Pick(50, 300, 1000), int64(x.Pick(10, 50, 200))
	first := Op{K: "w", A: -1}
	if len(c.Items) == 0 {
		first.A = int64(1 + x.Skewed(200))
	}
	t := int64(x.N(1500))
	c.Ops = []Op{{K: "ro"}, first, {K: "s", A: 1500}, {K: "rn"}, {K: "s", A: t}, {K: "ro"}, {K: "s", A: 3000 - t + int64(x.N(200))}, {K: "ch"}, {K: "rn"}}
	sp.Actors = append(sp.Actors, Actor{At: c.At + 500})
	a := &sp.Actors[len(sp.Actors)-1]
	send := func(total int) {
		k := x.Pick(1, 1, 2, 5)
		a.Ops = append(a.Ops, Op{K: "send", A: int64(i), B: int64(max(1, total/k)), C: int64(k)})
	}
	send(c.Snd + c.Win + 500 + x.N(3500))
	a.Ops = append(a.Ops, Op{K: "sleep", A: 2500})
	send(200 + x.N(2500))
	a.Ops = append(a.Ops, Op{K: "sleep", A: int64(x.N(2000))})
	end := "shut"
	switch prop {
	case "C02", "C03", "C19", "C24":
		end = []string{"", "", "shut"}[x.N(3)]
	case "C05", "C06", "C21":
		end = []string{"", "close", "shut"}[x.N(3)]
	}
	if end != "" {
		a.Ops = append(a.Ops, Op{K: end, A: int64(i)})
	}
	if prop == "C22" && x.P(500) { // and the peer its own, at some time
		c.Ops = append(c.Ops, Op{K: "s", A: int64(x.Skewed(3000))}, Op{K: "hc"})
	}
}

// churn: short-lived connections besides; others take over their descriptor numbers.
func (x *g) churn() {
	sp := x.sp
	n := len(sp.Clients)
	if sp.Kind != "net" || n == 0 || n > 20 || !x.P(150) {
		return
	}
	v := 1 + x.N(2)
	for i := 0; i < v; i++ {
		c := x.talker(1 + x.N(600))
		if x.P(500) {
			x.tight(c)
		}
		x.ender(n + i)
	}
	for i := 0; i < n; i++ {
		if x.P(500) {
			sp.Clients[i].After = 1 + n + x.N(v)
			sp.Clients[i].At += 3000
		}
	}
}

// chat: connections send to each other, the application sends the same bytes to all.
func (x *g) chat() {
	sp := x.sp
	n := len(sp.Clients)
	if sp.Kind != "net" || n < 2 || n > 20 || !x.P(150) {
		return
	}
	for i := range sp.Clients {
		p := &sp.Clients[i].Pol
		for k := x.N(3); k > 0; k-- {
			a := Act{At: int64(x.Skewed(400)), K: "sendpeer", A: int64(x.N(n)), B: int64(x.Skewed(1000))}
			if x.P(400) {
				a.K = "bcast"
			}
			p.Acts = append(p.Acts, a)
		}
	}
	if x.P(600) {
		a := x.actor(3000)
		for k := 1 + x.N(3); k > 0; k-- {
			o := Op{K: "bcast", B: int64(x.Skewed(2000)), C: int64(1 + x.N(3))}
			if x.P(300) {
				o.S = "f"
			}
			a.Ops = append(a.Ops, o, Op{K: "sleep", A: int64(x.Skewed(1500))})
		}
	}
}

// hold: goroutines are held up inside calls of the API and on the way back from callbacks.
func (x *g) hold() {
	sp := x.sp
	if !x.P(300) {
		return
	}
	pm := x.Pick(100, 300, 1000)
	max := x.Pick(15, 40, 40, 120)
	for i := range sp.Actors {
		for k := range sp.Actors[i].Ops {
			o := &sp.Actors[i].Ops[k]
			switch o.K {
			case "send", "bcast", "close", "shut", "stop", "look", "counts", "kv", "q", "after", "every", "tstop":
				if x.P(pm) {
					o.Y, o.Z = int64(x.N(max)), int64(x.Pick(20, 100, 500, 3000))
				}
			}
		}
	}
	if x.P(400) {
		for i := range sp.Clients {
			if p := &sp.Clients[i].Pol; x.P(500) {
				p.HoldPM, p.HoldY, p.HoldUS = x.Pick(30, 200, 600), max, int64(x.Pick(20, 100, 500, 3000))
			}
		}
	}
}

// jumps: somebody sets the wall clock. Only forward where gev's timers are in use: the timing wheel
// runs on the wall clock.
func (x *g) jumps(prop string) {
	sp := x.sp
	pm := 40
	if prop == "C09" || prop == "C10" {
		pm = 150
	}
	if !x.P(pm) {
		return
	}
	timers, every := sp.Srv.IdleMS > 0, false
	for _, a := range sp.Actors {
		for _, o := range a.Ops {
			timers = timers || o.K == "after" || o.K == "every"
			every = every || o.K == "every"
		}
	}
	span := 20000
	if timers {
		span = 1000000
		if sp.Srv.IdleMS > 0 {
			span = int(min(3*sp.Srv.IdleMS, 20000)) * 1000
		}
	}
	for k := 1 + x.N(3); k > 0; k-- {
		d := int64(x.Pick(1, 20, 300, 1000, 1500))
		if sp.Srv.IdleMS > 0 && !every { // (a periodic task catches up: very many runs)
			d = int64(x.Pick(1, 300, 1000, 3600000, int(sp.Srv.IdleMS), int(sp.Srv.IdleMS)/2))
		}
		if !timers {
			d = int64(x.Pick(300, 3600000, -300, -3600000))
		}
		if d != 0 {
			sp.Jumps = append(sp.Jumps, [2]int64{int64(x.N(span)), d})
		}
	}
}

// bound keeps messages small where they would take very many reads.
func (x *g) bound() {
	for i := range x.sp.Clients {
		c := &x.sp.Clients[i]
		e := 65536
		if p := x.sp.Srv.Packet; p > 0 {
			e = min(e, p)
		}
		if c.Rcv > 0 {
			e = min(e, c.Rcv)
		}
		for k := range c.Items {
			if n := &c.Items[k].N; *n > 2000 && *n > e*150 {
				*n = e * 150
			}
		}
	}
}

var gens = map[string]func(x *g){
	"C01": genC01, "C02": genC02, "C03": genC03, "C04": genC04, "C05": genC05, "C06": genC06, "C07": genC07, "C08": genC08,
	"C09": genC09, "C10": genC10, "C11": genC11, "C12": genC12, "C13": genC13, "C14": genC14, "C15": genC15, "C16": genC16,
	"C17": genC17, "C18": genC18, "C19": genC19, "C20": genC20, "C21": genC21, "C22": genC22, "C23": genC23,
	"C24": genC24, "C25": genC25,
}

func init() { gens["C26"] = genC26; gens["C27"] = genC27 }

// sched picks the exploration strategy of the run.
func (x *g) sched() {
	s := &x.sp.Sched
	switch k := x.N(10); {
	case k < 5:
		s.Mode = 0
		s.Preempt = x.Pick(3, 10, 30, 100, 300, 1000)
	case k < 8:
		s.Mode = 1
		s.Changes = x.N(8)
		s.Horizon = int64(x.Pick(500, 3000, 10000, 40000, 150000))
	case k < 9:
		s.Mode = 0
		s.Preempt = x.Pick(3000, 10000)
	default:
		s.Mode = 2
	}
	if x.P(500) {
		s.StallPM = x.Pick(1, 5, 20, 60)
		s.StallMax = int64(x.Pick(20, 100, 1000, 8000)) * us
	}
	x.sp.NumCPU = x.Pick(1, 2, 4)
}

// some returns a rate from the list or zero.
func (x *g) some(pm int, rates ...int) int {
	if !x.P(pm) {
		return 0
	}
	return rates[x.N(len(rates))]
}

// ioFaults switches on faults of the read and write path that never end a connection.
func (x *g) ioFaults() {
	f := &x.sp.Faults
	f.ShortRead = x.some(500, 50, 200, 600)
	f.ReadAgain = x.some(300, 20, 100)
	f.ShortWrite = x.some(500, 50, 200, 700)
	f.WriteAgain = x.some(400, 20, 150, 400)
	f.EINTR = x.some(300, 20, 100)
	f.EpollPartial = x.some(400, 100, 400)
	f.EpollOrder = x.some(400, 100, 500)
	f.Spurious = x.some(200, 20, 100)
	f.Coalesce = x.some(400, 100, 500)
	if x.P(500) {
		f.Latency = x.Pick(100, 500, 900)
		f.LatencyMax = x.Pick(20, 200, 3000)
	}
}

func (x *g) sizes() {
	s := &x.sp.Srv
	s.Packet = x.Pick(0, 0, 3, 7, 16, 64, 257, 1024, 4096)
	s.UserB = x.Pick(0, 0, 1, 8, 100, 1024)
	s.TaskQ = x.Pick(0, 0, 1, 2, 8)
}

func (x *g) server() {
	s := &x.sp.Srv
	s.Loops = x.Pick(1, 1, 1, 2, 2, 3, 4)
	if x.P(100) {
		s.Reuse = true
	}
	switch x.N(10) {
	case 0:
		s.Addr = "127.0.0.1:4321"
		s.Net = "tcp4"
	case 1:
		s.Addr = ":1833"
	}
	s.LB = []string{"rr", "lc", "def"}[x.N(3)]
}

// peerNet picks link parameters of a peer.
func (x *g) peerNet(c *ClSpec) {
	c.At = int64(x.Skewed(2000))
	if x.sp.Srv.Net == "" && x.sp.Srv.Addr == "" {
		c.V6 = x.P(150)
	}
	if x.P(300) {
		c.Rcv = x.Pick(16, 100, 1000, 10000)
	}
	if x.P(300) {
		c.Chunk = x.Pick(1, 10, 100, 1000)
		c.Delay = int64(x.Pick(10, 100, 1000))
	}
}

// tight gives the peer small buffers so that output blocks.
func (x *g) tight(c *ClSpec) {
	c.Snd = x.Pick(1, 7, 64, 300, 2000, 10000)
	c.Win = x.Pick(1, 10, 200, 3000)
	if c.Snd < 64 && c.Win > 200 {
		c.Win = 200
	}
	if x.P(500) {
		c.Chunk = x.Pick(16, 128, 1000)
		c.Delay = int64(x.Pick(10, 100, 500))
	}
}

// cost bounds: bytes a run may move.
func (x *g) total() int {
	n := []int{200, 2000, 20000}[x.N(3)]
	if x.P(60) {
		n = 120000
	}
	p := x.sp.Srv.Packet
	if p > 0 && p < 64 && n > p*150 {
		n = p * 150
	}
	return 1 + x.N(n)
}

// writes splits total bytes into write operations.
func (x *g) writes(total int) []Op {
	var ops []Op
	for total > 0 {
		n := total
		if x.P(700) {
			n = 1 + x.Skewed(total)
		}
		o := Op{K: "w", A: int64(n)}
		switch x.N(4) {
		case 0:
			o.B = int64(x.Pick(1, 2, 5, 13))
			if n > 4000 {
				o.B = int64(n / 300)
			}
		case 1:
			o.B = int64(x.Pick(50, 500, 1460, 5000))
		}
		if o.B > 0 && x.P(600) {
			o.C = int64(x.Pick(1, 20, 200))
		}
		ops = append(ops, o)
		total -= n
		if x.P(300) {
			ops = append(ops, Op{K: "s", A: int64(x.Skewed(3000))})
		}
	}
	return ops
}

// frameWrites cuts everything the peer has to say at arbitrary places.
func (x *g) frameWrites() []Op {
	switch x.N(4) {
	case 0:
		return []Op{{K: "w", A: -1, B: int64(x.Pick(1, 2, 3, 7)), S: "x", C: int64(x.Pick(0, 5, 50))}}
	case 1:
		return []Op{{K: "w", A: -1}}
	}
	var ops []Op
	for i := x.N(8); i > 0; i-- {
		ops = append(ops, Op{K: "w", A: int64(1 + x.Skewed(400))})
		if x.P(800) {
			ops = append(ops, Op{K: "s", A: int64(x.Skewed(2000))})
		}
	}
	o := Op{K: "w", A: -1}
	if x.P(700) {
		o.B, o.C = int64(x.Pick(2, 9, 60, 700)), int64(x.Pick(0, 5, 50, 200))
	}
	return append(ops, o)
}

func (x *g) policy(max int) Policy {
	p := Policy{}
	p.ReplyPM = x.Pick(0, 300, 700, 1000)
	p.ReplyMax = 1 + x.Skewed(max)
	p.SendPM = x.some(300, 100, 500)
	p.SlowPM = x.some(200, 50, 300)
	p.SlowUS = int64(x.Pick(5, 50, 1000))
	return p
}

// items builds framed messages for the protocol in use.
func (x *g) items(n, max int) []Item {
	var l []Item
	types := []string{"a", "msg", "some.Type", ""}
	for i := 0; i < n; i++ {
		it := Item{N: x.Skewed(max)}
		if x.P(150) {
			it.N = 0
		}
		switch x.sp.Srv.Proto {
		case "pb":
			it.T = types[x.N(len(types))]
			if x.P(10) && max > 100 && (x.sp.Srv.Packet == 0 || x.sp.Srv.Packet >= 1000) {
				b := make([]byte, x.Pick(255, 256, 257, 1000, 4096, 32767, 32768, 65534, 65535))
				for i := range b {
					b[i] = 'a' + byte((i*7+i>>8)%26)
				}
				it.T = string(b)
			} else if x.P(30) {
				it.T = string(make([]byte, x.N(300)))
			} else if x.P(150) {
				b := make([]byte, x.Pick(64, 65, 100, 128, 129, x.N(300), x.N(3000)))
				for i := range b {
					b[i] = 'A' + byte((int(it.N)+i*i+x.N(3))%26)
				}
				it.T = string(b)
			}
		case "ws":
			it.K = x.Pick(1, 2, 2, 2, 9, 10)
			it.M = uint32(x.U64())
			if x.P(100) {
				it.M = 0
			}
			if it.K >= 8 {
				it.N = x.N(126)
				if x.P(200) {
					it.N = 125
				}
			} else if x.P(200) {
				it.N = x.Pick(124, 125, 126, 127, 255, 256)
			}
			if it.K < 8 && x.P(15) && max > 60000 {
				it.N = x.Pick(65534, 65535, 65536, 65537, 70000)
			}
			if it.K < 8 && x.P(60) { // a message in several frames, perhaps with control frames between them
				for k := 1 + x.N(3); k > 0; k-- {
					it.X = 5
					l = append(l, it)
					if x.P(250) {
						l = append(l, Item{K: x.Pick(9, 10), M: it.M + 1, N: x.N(126)})
					}
					it.K, it.X, it.M, it.N = 0, 0, uint32(x.U64()), x.N(min(max, 300)+1)
				}
			}
		case "rec":
			if x.P(50) && max > 1000 {
				it.N = x.Pick(65532, 65536, 70000)
			}
		}
		l = append(l, it)
	}
	return l
}

func (x *g) client() *ClSpec {
	x.sp.Clients = append(x.sp.Clients, ClSpec{})
	c := &x.sp.Clients[len(x.sp.Clients)-1]
	x.peerNet(c)
	return c
}

// talker is a well-behaved peer that sends and receives.
func (x *g) talker(total int) *ClSpec {
	c := x.client()
	x.fillTalker(c, total)
	return c
}

func (x *g) fillTalker(c *ClSpec, total int) {
	c.Pol = x.policy(600)
	switch x.sp.Srv.Proto {
	case "", "raw", "mix":
		c.Ops = x.writes(total)
	case "ws":
		c.Items = x.items(1+x.N(8), min(total, 3000))
		c.Ops = append([]Op{{K: "w", A: int64(wsHsLen(c)), B: int64(x.Pick(0, 0, 30))}, {K: "wh", A: 0, B: 200000}}, x.frameWrites()...)
	default:
		c.Items = x.items(1+x.N(8), min(total, 3000))
		c.Ops = x.frameWrites()
	}
}

func wsHsLen(c *ClSpec) int {
	h := c.Hs
	if h == nil {
		h = &HsSpec{}
	}
	b, _ := h.requests(0)
	return len(b)
}

func (x *g) actor(at int) *Actor {
	x.sp.Actors = append(x.sp.Actors, Actor{At: int64(x.Skewed(at))})
	return &x.sp.Actors[len(x.sp.Actors)-1]
}

func genC01(x *g) {
	sp := x.sp
	x.server()
	x.sizes()
	x.ioFaults()
	sp.Srv.Proto = []string{"raw", "raw", "rec", "mix", "mix"}[x.N(5)]
	if x.P(80) {
		x.wrap()
		return
	}
	n := 1 + x.Skewed(6)
	for i := 0; i < n; i++ {
		c := x.client()
		t := x.total() / n
		if sp.Srv.Proto == "rec" {
			c.Items = x.items(1+x.N(12), max(t/4, 2))
			c.Ops = x.frameWrites()
		} else {
			c.Ops = x.writes(t + 1)
		}
		c.Pol = x.policy(300)
		if x.P(400) {
			c.Pol.ReplyPM, c.Pol.SendPM = 0, 0
		}
		if x.P(200) {
			x.tight(c)
		}
		if x.P(150) {
			c.Ops = append(c.Ops, Op{K: []string{"hc", "c", "r"}[x.N(3)]})
		}
	}
	if x.P(300) {
		x.sender(0)
	}
	if sp.Srv.Packet > 0 && sp.Srv.Packet < 16 {
		for i := range sp.Clients {
			sp.Clients[i].Pol.ReplyMax = min(sp.Clients[i].Pol.ReplyMax, 40)
		}
	}
}

// wrap: several peers whose input wraps around in the buffers of several loops, callbacks which take their time.
func (x *g) wrap() {
	sp := x.sp
	sp.Srv.Proto, sp.Srv.Wrap = "mix", true
	sp.Srv.Loops = 2 + x.N(3)
	for n := 2 + x.N(4); n > 0; n-- {
		c := x.client()
		for t := 1500 + x.N(6000); t > 0; {
			k := 1 + x.N(700)
			c.Ops = append(c.Ops, Op{K: "w", A: int64(k)}, Op{K: "s", A: int64(x.N(200))})
			t -= k
		}
		c.Pol = Policy{ReplyPM: x.Pick(0, 0, 300), ReplyMax: 20, SlowPM: x.Pick(300, 800), SlowUS: int64(x.Pick(50, 300))}
	}
}

// sender adds an application goroutine that sends to random peers.
func (x *g) sender(fin int) {
	a := x.actor(2000)
	for i := 1 + x.N(6); i > 0; i-- {
		o := Op{K: "send", A: int64(x.N(len(x.sp.Clients))), B: int64(x.Skewed(2500)), C: int64(1 + x.N(3))}
		if x.P(fin) {
			o.S = "f"
		}
		a.Ops = append(a.Ops, o)
		if x.P(400) {
			a.Ops = append(a.Ops, Op{K: "sleep", A: int64(x.Skewed(1000))})
		}
		if x.P(100) {
			a.Ops = append(a.Ops, Op{K: "look", A: o.A})
		}
	}
}

func genC02(x *g) {
	sp := x.sp
	x.server()
	x.sizes()
	x.ioFaults()
	sp.Faults.ShortWrite = x.some(800, 50, 200, 700)
	sp.Srv.Proto = []string{"raw", "raw", "rec", "pb", "ws"}[x.N(5)]
	if sp.Srv.Packet > 0 && sp.Srv.Packet < 16 {
		sp.Srv.Packet = 64
	}
	n := 1 + x.N(3)
	for i := 0; i < n; i++ {
		c := x.talker(1 + x.N(1500))
		c.Pol.ReplyPM = x.Pick(0, 500, 1000)
		c.Pol.ReplyMax = 1 + x.Skewed(4000)
		c.Pol.SendPM = x.some(500, 200, 700)
		if x.P(700) {
			x.tight(c)
		} else if x.P(400) {
			c.Pol.ReplyMax = x.Pick(5000, 10000, 40000)
			if x.P(500) {
				sp.Srv.Packet = 0
			}
		}
		if x.P(200) {
			c.Pol.OnConn = append(c.Pol.OnConn, Act{K: "send", A: int64(x.Skewed(2000)), B: int64(1 + x.N(3))})
		}
		if x.P(300) {
			c.Ops = append([]Op{{K: "ro"}}, append(c.Ops, Op{K: "s", A: int64(x.Skewed(5000))}, Op{K: "rn"})...)
		}
		if x.P(200) {
			c.Ops = append(c.Ops, Op{K: []string{"hc", "c", "r"}[x.N(3)]})
		}
		if x.P(100) {
			c.Pol.Acts = append(c.Pol.Acts, Act{At: int64(x.N(500)), K: "close"})
		}
	}
	for i := 1 + x.N(4); i > 0; i-- {
		x.sender(200)
	}
	if sp.Srv.Proto == "raw" && x.P(100) { // exact wrap of the ring buffer
		sp.Actors[0].Ops = append(sp.Actors[0].Ops, Op{K: "send", A: 0, B: int64(x.Pick(40000, 65536, 90000)), C: 2})
		sp.Clients[0].Snd = max(sp.Clients[0].Snd, 3000)
		sp.Clients[0].Win = max(sp.Clients[0].Win, 3000)
		sp.Clients[0].Chunk = 0
	}
}

func genC03(x *g) {
	sp := x.sp
	genC02(x)
	sp.Hush = x.P(200)
	// blocked output and inbound traffic at the same time
	for i := range sp.Clients {
		c := &sp.Clients[i]
		x.tight(c)
		c.Pol.Acts = nil
		if k := len(c.Ops) - 1; k >= 0 && (c.Ops[k].K == "c" || c.Ops[k].K == "r" || c.Ops[k].K == "hc") {
			c.Ops = c.Ops[:k]
		}
		if x.P(600) {
			var ops []Op
			for _, o := range c.Ops {
				ops = append(ops, o)
				if x.P(400) && sp.Srv.Proto != "ws" {
					ops = append(ops, Op{K: "ro"}, Op{K: "s", A: int64(x.Skewed(3000))}, Op{K: "rn"})
				}
			}
			c.Ops = ops
		}
		if x.P(200) {
			c.Ops = append(c.Ops, Op{K: "p", A: int64(x.Skewed(20000))})
		}
		if sp.Hush && x.P(400) {
			x.deaf(c)
		}
	}
}

// deaf: the peer stops reading for good.
func (x *g) deaf(c *ClSpec) {
	k := x.N(len(c.Ops) + 1)
	ops := append(c.Ops[:k:k], Op{K: "ro"})
	for _, o := range c.Ops[k:] {
		if o.K != "rn" {
			ops = append(ops, o)
		}
	}
	c.Ops = ops
}

// ender adds something that ends connection i.
func (x *g) ender(i int) {
	sp := x.sp
	c := &sp.Clients[i]
	switch x.N(8) {
	case 0, 1:
		c.Ops = append(c.Ops, Op{K: "c"})
	case 2:
		c.Ops = append(c.Ops, Op{K: "r"})
	case 3:
		c.Ops = append(c.Ops, Op{K: "hc"})
	case 4:
		c.Pol.Acts = append(c.Pol.Acts, Act{At: int64(x.Skewed(300)), K: "close"})
	case 5:
		c.Pol.OnConn = append(c.Pol.OnConn, Act{K: "close"})
	default:
		a := x.actor(3000)
		a.Ops = append(a.Ops, Op{K: "sleep", A: int64(x.Skewed(1500))}, Op{K: "close", A: int64(i)})
		if x.P(400) {
			a.Ops = append(a.Ops, Op{K: "close", A: int64(i)})
		}
	}
}

// errFaults switches on errors that end connections.
func (x *g) errFaults() {
	f := &x.sp.Faults
	f.ReadErr = x.some(200, 5, 30)
	f.WriteErr = x.some(200, 5, 30)
}

// setupFaults: now and then a connection cannot be accepted, made non-blocking or registered.
func (x *g) setupFaults() {
	f := &x.sp.Faults
	switch x.N(8) {
	case 0:
		f.CtlAddErr = x.Pick(30, 100, 400)
	case 1:
		f.AcceptErr = x.Pick(50, 100, 300)
	case 2:
		f.AcceptErr, f.NonblockErr, f.CtlAddErr = 100, x.Pick(0, 100), 100
	}
}

func genC04(x *g) {
	sp := x.sp
	x.server()
	x.sizes()
	x.ioFaults()
	x.errFaults()
	sp.Srv.Proto = []string{"raw", "raw", "raw", "rec"}[x.N(4)]
	n := 1 + x.Skewed(8)
	for i := 0; i < n; i++ {
		c := x.talker(1 + x.N(500))
		if x.P(300) {
			c.Ops = nil
		}
		if x.P(200) {
			x.tight(c)
		}
		if x.P(200) {
			x.truncate(c)
		}
		c.Pol.InClose = x.Pick(0, 0, 1, 2)
		for k := x.N(3); k > 0; k-- {
			x.ender(i)
		}
		if x.P(200) {
			c.Pol.Acts = append(c.Pol.Acts, Act{At: int64(x.N(100)), K: "closepeer", A: int64(x.N(n))})
		}
		if x.P(100) {
			c.Pol.OnConn = append(c.Pol.OnConn, Act{K: "sleep", A: int64(x.Skewed(2000))})
		}
	}
	if x.P(400) {
		x.sender(300)
	}
	if x.P(250) {
		sp.Srv.IdleMS = int64(x.Pick(1, 1, 2, 5, 20, 1000))
	}
	if x.P(250) {
		a := x.actor(4000)
		a.Ops = append(a.Ops, Op{K: "stop"})
	}
	sp.KeepOpen = x.P(500)
	x.setupFaults()
}

func genC05(x *g) {
	sp := x.sp
	x.server()
	x.sizes()
	x.ioFaults()
	x.errFaults()
	sp.Srv.Proto = []string{"raw", "raw", "rec", "pb"}[x.N(4)]
	n := 1 + x.Skewed(8)
	sp.Hush = x.P(300)
	for i := 0; i < n; i++ {
		c := x.talker(1 + x.N(1000))
		if sp.Hush && x.P(500) {
			x.tight(c)
			x.deaf(c)
		}
		if x.P(200) {
			c.Ops = nil
		}
		if x.P(500) {
			x.tight(c)
		}
		if x.P(200) {
			c.Pol.OnConn = append(c.Pol.OnConn, Act{K: "send", A: int64(x.Skewed(5000)), B: 1})
		}
		if x.P(200) {
			c.Ops = append([]Op{{K: "ro"}}, c.Ops...)
		}
		if x.P(800) {
			x.ender(i)
		}
		if x.P(150) {
			c.Ops = append(c.Ops, Op{K: "s", A: int64(x.Skewed(500))}, Op{K: "r"})
		}
		if x.P(200) {
			x.truncate(c)
		}
		switch x.N(10) {
		case 0:
			a := x.actor(2000)
			a.Ops = append(a.Ops, Op{K: "shut", A: int64(i)})
		case 1: // with output queued
			c.Pol.Acts = append(c.Pol.Acts, Act{At: int64(x.N(200)), K: "send", A: int64(1 + x.Skewed(8000))}, Act{At: int64(x.N(200)), K: "shut"})
		}
	}
	if x.P(400) {
		x.sender(0)
	}
	x.setupFaults()
}

func genC06(x *g) {
	sp := x.sp
	x.server()
	sp.Srv.Loops = x.Pick(1, 1, 2, 3)
	x.sizes()
	x.ioFaults()
	f := &sp.Faults
	f.ReadErr, f.WriteErr = 0, 0
	sp.Srv.Proto = []string{"raw", "raw", "rec", "ws", "mix"}[x.N(5)]
	n := 1 + x.N(4)
	v := 1 + x.N(4) // victims
	for i := 0; i < n+v; i++ {
		c := x.talker(1 + x.N(1200))
		if i >= n {
			if x.P(300) {
				x.tight(c)
			}
			x.ender(i)
		} else if x.P(400) {
			c.After = 1 + n + x.N(v)
			c.At += 3000
		} else if x.P(500) {
			c.At += int64(x.N(4000)) // reuses a descriptor
		}
	}
	// late calls on dead connections
	for i := 1 + x.N(3); i > 0; i-- {
		a := x.actor(1000)
		t := int64(n + x.N(v))
		if x.P(600) {
			a.Ops = append(a.Ops, Op{K: "dead", A: t})
		}
		for k := 1 + x.N(5); k > 0; k-- {
			switch x.N(5) {
			case 0:
				a.Ops = append(a.Ops, Op{K: "send", A: t, B: int64(x.Skewed(500)), C: 1})
			case 1, 2:
				a.Ops = append(a.Ops, Op{K: "close", A: t})
			case 3:
				a.Ops = append(a.Ops, Op{K: "shut", A: t})
			case 4:
				a.Ops = append(a.Ops, Op{K: "sleep", A: int64(x.Skewed(3000))})
			}
		}
	}
	if x.P(500) {
		x.sender(0)
	}
	if x.P(400) {
		// a burst of calls while the connection ends
		a := x.actor(2500)
		a.Ops = append(a.Ops, Op{K: "send", A: int64(n + x.N(v)), B: int64(x.Skewed(300)), C: int64(5 + x.N(40))})
	}
	if x.P(300) {
		sp.Ghosts = 1 + x.N(3)
	}
	sp.Hush = x.P(300)
	if x.P(150) {
		c := x.client()
		c.Bad = true
		c.Raw = x.hostile()
		c.Ops = []Op{{K: "w", A: -1, B: int64(x.Pick(0, 5, 100)), C: 20}}
	}
	x.setupFaults()
}

func genC07(x *g) {
	sp := x.sp
	if x.P(600) {
		sp.Kind = "loops"
		sp.Srv.Loops = x.Pick(1, 1, 2, 3)
	} else {
		x.server()
		for i := 1 + x.N(3); i > 0; i-- {
			c := x.talker(1 + x.N(500))
			if x.P(300) {
				c.Pol.Acts = append(c.Pol.Acts, Act{At: 0, K: "q", A: int64(x.N(sp.Srv.Loops)), B: int64(1 + x.N(4))})
			}
		}
		x.ioFaults()
	}
	sp.Srv.TaskQ = x.Pick(0, 0, 1, 2, 8)
	sp.Faults.EINTR = x.some(300, 20, 100)
	sp.Faults.Spurious = x.some(300, 20, 100)
	sp.Faults.EpollPartial = x.some(300, 100, 400)
	n := 1 + x.N(4)
	for i := 0; i < n; i++ {
		a := x.actor(300)
		for k := 1 + x.N(6); k > 0; k-- {
			switch x.N(5) {
			case 0:
				a.Ops = append(a.Ops, Op{K: "sleep", A: int64(x.Skewed(2000))})
			case 1:
				a.Ops = append(a.Ops, Op{K: "qslow", A: int64(x.N(sp.Srv.Loops)), B: int64(x.Skewed(300))})
			default:
				o := Op{K: "q", A: int64(x.N(sp.Srv.Loops)), B: int64(1 + x.Skewed(20)), C: int64(x.some(200, 1, 3))}
				if x.P(20) {
					o.B = int64(x.N(3000))
				}
				a.Ops = append(a.Ops, o)
			}
		}
	}
}

func genC08(x *g) {
	sp := x.sp
	sp.Kind = "poller"
	sp.Sched.StallMax = min(sp.Sched.StallMax, 100*us)
	sp.Sched.StallPM = min(sp.Sched.StallPM, 20)
	sp.P = []int64{int64(x.some(200, 1)), int64(x.some(400, 1))}
	f := &sp.Faults
	f.EINTR = x.some(400, 20, 200)
	f.EpollPartial = x.some(400, 100, 500)
	f.EpollOrder = x.some(400, 200)
	f.Spurious = x.some(300, 50)
	n := 1 + x.N(5)
	defer func() {
		if n > 20 {
			f.EpollPartial = 0
		}
	}()
	switch x.N(12) {
	case 0:
		n = 0
	case 1:
		n = 20 + x.N(40)
	case 2:
		n = x.Pick(127, 128, 129, 140, 260, 300)
		if !x.P(300) {
			n = 6
		}
	}
	if x.P(12) {
		// more descriptors ready at once than one wait can report
		n = x.N(3)
		sp.P = append(sp.P, int64(x.Pick(1022, 1023, 1023, 1024, 1025, 1100, 1500, 2047, 2048, 2100)))
		f.EpollPartial, f.EpollOrder = 0, 0
		sp.Sched.Preempt = min(sp.Sched.Preempt, 30)
	}
	for i := 0; i < n; i++ {
		sp.Clients = append(sp.Clients, ClSpec{Snd: x.Pick(10, 1000, 1<<16), Win: x.Pick(1, 100, 1<<16), Dev: x.P(200)})
	}
	na := x.Pick(1, 1, 2, 3)
	if n > 20 {
		na = 1
	}
	for i := 0; i < na; i++ {
		a := x.actor(100)
		if n > 0 {
			if i == 0 && (n > 6 || x.P(700)) {
				for k := 0; k < n; k++ {
					a.Ops = append(a.Ops, Op{K: "add", A: int64(k), B: int64(x.Pick(1, 1, 2))})
					if x.P(700) {
						a.Ops = append(a.Ops, Op{K: "data", A: int64(k), B: int64(1 + x.Skewed(300)), C: int64(x.N(16))})
					}
				}
			}
			// each goroutine owns the sockets whose number is i modulo the number of goroutines
			for k := 3 + x.N(12); k > 0; k-- {
				s := x.N(n)
				s = s - s%na + i
				if s >= n {
					s = i
				}
				if s >= n {
					break
				}
				t := int64(s)
				var o Op
				switch x.N(14) {
				case 0:
					o = Op{K: "add", A: t, B: int64(x.Pick(1, 1, 2))}
				case 1, 2:
					o = Op{K: "mod", A: t, B: int64(x.Pick(1, 2, 3, 3))}
				case 3:
					o = Op{K: "del", A: t}
				case 4:
					o = Op{K: "inh", A: t, S: []string{"add", "mod", "del"}[x.N(3)], B: int64(x.Pick(1, 2, 3))}
					if o.S == "add" {
						o.B = int64(x.Pick(1, 2))
					}
				case 5:
					o = Op{K: "wake"}
				case 6, 7:
					o = Op{K: "data", A: t, B: int64(1 + x.Skewed(300))}
				case 8:
					o = Op{K: []string{"drain", "nodrain", "fill"}[x.N(3)], A: t}
				case 9:
					o = Op{K: "eat", A: t, B: int64(x.N(3))}
				case 10:
					o = Op{K: []string{"half", "reset", "close", "shut"}[x.N(4)], A: t}
				case 11:
					o = Op{K: "sleep", A: int64(x.Skewed(500))}
				default:
					o = Op{K: "check"}
				}
				if o.K != "inh" {
					o.C = int64(x.N(16))
				}
				a.Ops = append(a.Ops, o)
			}
		} else {
			for k := x.N(5); k > 0; k-- {
				a.Ops = append(a.Ops, Op{K: "wake"}, Op{K: "sleep", A: int64(x.Skewed(300))})
			}
		}
		if len(sp.P) > 2 && i == 0 {
			k := min(len(a.Ops), 6)
			ops, rest := append([]Op(nil), a.Ops[:k]...), a.Ops[k:]
			ops = append(ops, Op{K: "crowd", B: int64(x.N(16)), C: int64(x.Pick(1, 1, 2, 3, 4, 5, 7, 8))}, Op{K: "sleep", A: 300}, Op{K: "wake"}, Op{K: "sleep", A: int64(x.Skewed(3000))})
			if x.P(500) {
				ops = append(ops, Op{K: "uncrowd", B: int64(x.Pick(1, 2, 3))})
			}
			a.Ops = append(ops, rest...)
		}
	}
}

func genC09(x *g) {
	sp := x.sp
	x.server()
	s := &sp.Sched
	s.StallMax = min(s.StallMax, ms)
	if s.StallPM > 5 {
		s.StallPM = 5
	}
	f := &sp.Faults
	f.ShortRead = x.some(300, 100)
	f.ShortWrite = x.some(200, 100)
	f.EpollPartial = x.some(300, 200)
	f.EpollOrder = x.some(300, 200)
	idle := int64(x.Pick(20, 50, 130, 300, 700, 999, 1000, 1001, 1500, 2300, 3000, 7000))
	if x.P(300) {
		idle = int64(10 + x.N(4000))
	}
	sp.Srv.IdleMS = idle
	sp.Srv.Proto = []string{"raw", "raw", "raw", "rec"}[x.N(4)]
	sp.Limit = 4*idle + 2000
	for i := 1 + x.N(4); i > 0; i-- {
		c := x.client()
		c.At = int64(x.N(1200000))
		c.Pol = Policy{ReplyPM: x.Pick(0, 0, 500, 1000), ReplyMax: 100}
		if sp.Srv.Proto == "rec" {
			c.Items = x.items(8, 100)
		}
		for k := x.N(7); k > 0; k-- {
			c.Ops = append(c.Ops, Op{K: "w", A: int64(1 + x.N(60))})
			d := idle * 1000 * int64(x.N(1100)) / 1000
			if x.P(300) {
				d = idle*1000 - int64(x.N(6000)) + 1000
			}
			if x.P(100) {
				d = idle * 1300
			}
			c.Ops = append(c.Ops, Op{K: "s", A: max(d, 1)})
		}
		if x.P(100) {
			c.Ops = append(c.Ops, Op{K: []string{"c", "r", "hc"}[x.N(3)]})
		}
		if x.P(150) {
			c.Pol.Acts = append(c.Pol.Acts, Act{At: 1, K: "close"})
		}
		if x.P(200) {
			x.tight(c)
			c.Chunk, c.Delay = 0, 0
			c.Pol.ReplyMax = 1000
			if x.P(500) && len(c.Ops) > 0 { // never reads
				c.Pol.ReplyPM = 1000
				k := x.N(len(c.Ops))
				c.Ops = append(c.Ops[:k:k], append([]Op{{K: "ro"}}, c.Ops[k:]...)...)
				if x.P(500) {
					c.Ops = append(c.Ops, Op{K: "s", A: idle * int64(1000+x.N(900))})
				}
			}
		}
	}
	if x.P(300) {
		a := x.actor(1000)
		for k := 1 + x.N(4); k > 0; k-- {
			a.Ops = append(a.Ops, Op{K: "send", A: int64(x.N(len(sp.Clients))), B: int64(x.Skewed(300)), C: 1}, Op{K: "sleep", A: idle * int64(x.N(900))})
		}
	}
	x.setupFaults()
}

func genC10(x *g) {
	sp := x.sp
	x.server()
	s := &sp.Sched
	s.StallMax = min(s.StallMax, 4*ms)
	if s.StallPM > 5 {
		s.StallPM = 5
	}
	if x.P(300) {
		x.talker(1 + x.N(300))
	}
	n := 0
	reg := func(a *Actor) {
		d := int64(x.Pick(0, 1, 100, 500, 999, 1000, 1001, 1500, 5000, 20000, 100000, 700000, 999000, 1000000, 1001000, 1999000, 2000000, 3500000))
		if x.P(400) {
			d = int64(x.N(300000))
		}
		if x.P(30) {
			d = int64(x.N(100)) * 1000000
		}
		o := Op{K: "after", A: d}
		if x.P(400) {
			p := int64(x.Pick(1, 2, 5, 10, 20, 50, 300, 1000, 1700)) * 1000
			o = Op{K: "every", A: p}
		} else if x.P(150) {
			o.B = int64(1 + x.N(3))
			o.A = int64(x.N(50000))
		}
		if x.P(100) {
			o.C = int64(x.N(2000))
		}
		a.Ops = append(a.Ops, o)
		n++
	}
	for i := 1 + x.N(3); i > 0; i-- {
		a := x.actor(2000)
		for k := 1 + x.N(5); k > 0; k-- {
			reg(a)
			if x.P(400) {
				a.Ops = append(a.Ops, Op{K: "sleep", A: int64(x.Skewed(2000000))})
			}
			if x.P(400) {
				a.Ops = append(a.Ops, Op{K: "tstop", A: int64(x.N(n))})
			}
		}
		if x.P(500) {
			a.Ops = append(a.Ops, Op{K: "sleep", A: int64(x.N(3000000))}, Op{K: "tstop", A: int64(x.N(n))})
		}
	}
	if x.P(250) {
		a := x.actor(1000)
		a.Ops = append(a.Ops, Op{K: "sleep", A: int64(x.N(3000000))}, Op{K: "stop"})
	}
	sp.Limit = 6000
	if x.P(100) {
		sp.Limit = 30000
	}
	if x.P(120) {
		sp.Srv.LateUS = int64(x.Pick(300, 1000, 20000, 200000, 1500000))
	}
}

func genC11(x *g) {
	sp := x.sp
	x.server()
	x.sizes()
	x.ioFaults()
	x.errFaults()
	sp.Srv.Proto = []string{"raw", "raw", "rec", "ws"}[x.N(4)]
	n := x.Skewed(6)
	for i := 0; i < n; i++ {
		c := x.talker(1 + x.N(800))
		c.At = int64(x.Skewed(1500))
		if x.P(300) {
			x.tight(c)
		}
		if x.P(400) {
			x.ender(i)
		}
		c.Pol.InClose = x.Pick(0, 0, 0, 1, 2)
	}
	if n > 0 && x.P(400) {
		x.sender(200)
	}
	if x.P(300) {
		sp.Srv.IdleMS = int64(x.Pick(1, 2, 5, 50))
	}
	for i := x.Pick(0, 1, 1, 1, 2, 3); i > 0; i-- {
		a := x.actor(5)
		a.At = int64(x.Pick(0, 0, x.N(30), x.N(300), x.N(3000)))
		for k := 1 + x.N(2); k > 0; k-- {
			a.Ops = append(a.Ops, Op{K: "stop"})
		}
	}
	if x.P(80) { // timers due beyond one turn of the wheel, stopped while it moves them
		sp.Srv.LateUS = int64(x.Pick(1, 1000000, 1500000, 1000*x.N(3000)))
		for i := 1 + x.N(2); i > 0; i-- {
			a := x.actor(2)
			for k := 1 + x.N(6); k > 0; k-- {
				if x.P(500) {
					a.Ops = append(a.Ops, Op{K: "after", A: int64(x.Pick(1000, 5000, 50000, 999000, 1000000, 1000*x.N(2000), 1700000))})
				} else { // (short periods would have to catch up)
					a.Ops = append(a.Ops, Op{K: "every", A: int64(x.Pick(50000, 999000, 1000000, 1000*(50+x.N(2000)), 1700000))})
				}
			}
		}
		a := x.actor(2)
		a.Ops = append(a.Ops, Op{K: "sleep", A: sp.Srv.LateUS + int64(x.Pick(0, x.N(30), x.N(100), x.N(2000), 1000*x.N(1500)))}, Op{K: "stop"})
	}
	if sp.Srv.LateUS < 10000 && x.P(300) {
		a := x.actor(200)
		for k := 1 + x.N(3); k > 0; k-- {
			a.Ops = append(a.Ops, Op{K: []string{"after", "every"}[x.N(2)], A: int64(x.Pick(1000, 2000, 5000))})
		}
	}
	if x.P(200) {
		a := x.actor(300)
		a.Ops = append(a.Ops, Op{K: "q", A: 0, B: int64(1 + x.N(20)), C: 1})
	}
	sp.KeepOpen = x.P(700)
	sp.Limit = int64(x.Pick(5, 50, 500)) + 2*sp.Srv.LateUS/1000
	x.setupFaults()
}

func genC12(x *g) {
	sp := x.sp
	x.server()
	sp.Srv.Loops = x.Pick(1, 2, 2, 3, 4, 5, 8)
	sp.Srv.LB = []string{"rr", "lc", "lc", "def"}[x.N(4)]
	sp.Srv.TaskQ = x.Pick(0, 1, 2)
	sp.Srv.Decoy = x.P(200)
	if x.P(100) {
		sp.Srv.Direct = x.Pick(20, 300)
	}
	f := &sp.Faults
	f.EpollPartial = x.some(300, 200)
	f.EpollOrder = x.some(300, 200)
	f.EINTR = x.some(300, 50)
	n := 1 + x.N(14)
	for i := 0; i < n; i++ {
		c := x.client()
		c.At = int64(x.Skewed(5000))
		if x.P(500) {
			c.Ops = x.writes(1 + x.N(50))
			c.Pol = x.policy(100)
		}
		if x.P(500) {
			x.ender(i)
		}
	}
	if x.P(500) {
		a := x.actor(5000)
		for k := 1 + x.N(5); k > 0; k-- {
			a.Ops = append(a.Ops, Op{K: "counts"}, Op{K: "sleep", A: int64(x.Skewed(500))})
		}
	}
	x.setupFaults()
}

func genC13(x *g) {
	sp := x.sp
	x.server()
	x.sizes()
	x.ioFaults()
	sp.Srv.Proto = "pb"
	n := 1 + x.N(3)
	for i := 0; i < n; i++ {
		c := x.client()
		m := x.Pick(3, 20, 200, 2000, 20000)
		c.Items = x.items(1+x.Skewed(20), m)
		if sp.Srv.Packet > 0 && sp.Srv.Packet < 64 {
			for k := range c.Items {
				c.Items[k].N %= 400
			}
		}
		c.Ops = x.frameWrites()
		c.Pol = x.policy(400)
		if x.P(300) {
			x.tight(c)
		}
		if x.P(100) {
			c.Ops = append(c.Ops, Op{K: "hc"})
		}
	}
	if x.P(300) {
		x.sender(0)
	}
}

func genC14(x *g) {
	sp := x.sp
	x.server()
	x.sizes()
	x.ioFaults()
	sp.Srv.Proto = "ws"
	if sp.Srv.Packet > 0 && sp.Srv.Packet < 7 {
		sp.Srv.Packet = 7
	}
	sp.Srv.CloseMsg = x.P(150)
	big := 65536 - hdrLen - 1
	n := 1 + x.N(3)
	for i := 0; i < n; i++ {
		c := x.client()
		m := x.Pick(3, 130, 400, 2000, 70000)
		c.Items = x.items(1+x.Skewed(16), m)
		if sp.Srv.Packet > 0 && sp.Srv.Packet < 64 {
			for k := range c.Items {
				c.Items[k].N %= 600
				if c.Items[k].K >= 8 {
					c.Items[k].N %= 126
				}
			}
		}
		if x.P(600) {
			c.Ops = append([]Op{{K: "w", A: int64(wsHsLen(c))}, {K: "wh", B: 500000}}, x.frameWrites()...)
		} else {
			c.Ops = x.frameWrites()
		}
		c.Pol = x.policy(400)
		if x.P(100) {
			c.Pol.ReplyMax = x.Pick(70000, 200, 103, 102, 101)
		}
		if x.P(200) {
			// payloads at the limits of the three forms of a frame length
			for k := 1 + x.N(2); k > 0; k-- {
				c.Pol.ReplyEq = append(c.Pol.ReplyEq, x.Pick(125, 126, 127, 65535, 65536, 65537)-hdrLen)
			}
		}
		if x.P(300) {
			x.tight(c)
			c.Pol.ReplyMax = min(c.Pol.ReplyMax, 2000)
			for k := range c.Pol.ReplyEq {
				c.Pol.ReplyEq[k] = min(c.Pol.ReplyEq[k], 2000)
			}
			big = 500
		}
	}
	if x.P(400) {
		a := x.actor(3000)
		for k := 1 + x.N(5); k > 0; k-- {
			a.Ops = append(a.Ops, Op{K: "send", A: int64(x.N(n)), B: int64(x.Pick(0, 10, 100, 101, 102, 500, big, big+1)), C: int64(1 + x.N(2))}, Op{K: "sleep", A: int64(x.Skewed(1000))})
		}
	}
}

func (x *g) hs() *HsSpec {
	h := &HsSpec{}
	if x.P(300) {
		h.Extra = append(h.Extra, "Origin: http://example.com")
	}
	if x.P(300) {
		h.Extra = append(h.Extra, "User-Agent: "+string(make70(x.N(120))), "Cookie: a=b; c=d")
	}
	if x.P(100) {
		h.Extra = append(h.Extra, "X-Long: "+string(make70(x.N(6000))))
	}
	if x.P(150) {
		h.Lower = true
	}
	if x.P(200) {
		h.ConnHd = []string{"keep-alive, Upgrade", "upgrade", "Upgrade , keep-alive"}[x.N(3)]
	}
	if x.P(100) {
		h.UpHd = []string{"WebSocket", "Websocket", "WEBSOCKET"}[x.N(3)]
	}
	if x.P(300) {
		k := make([]byte, 16)
		for i := range k {
			k[i] = byte(x.N(256))
		}
		h.Key = b64(k)
	}
	if x.P(300) {
		h.Path = []string{"/", "/a/b?c=d&e=%20f", "/" + string(make70(x.N(300)))}[x.N(3)]
	}
	if x.P(150) {
		h.Proto = []string{"chat", "superchat"}[:1+x.N(2)]
	}
	if x.P(60) {
		h.Ver = []string{"HTTP/1.2", "HTTP/1.9"}[x.N(2)]
	}
	h.BadVer = []string{"", "HTTP/0.9", "HTTP/2.0", "HTTP/1.x", "HTTP/1", "HTTX/1.1", "HTTP/1.", "HTTP/.1", "HTTP/11", "HTTP/0.1"}[x.N(10)]
	if x.P(100) {
		h.OWS = []string{"|", "\t|", "  |", " | ", "|\t"}[x.N(5)]
	}
	return h
}

func make70(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyz0123456789"[(i*7+n)%36]
	}
	return b
}

var badHs = []string{"method", "version", "nohost", "noupgrade", "badupgrade", "noconn", "badconn", "nokey", "badkey", "nover", "badver", "plain", "garbage", "colon"}

func genC15(x *g) {
	sp := x.sp
	x.server()
	x.sizes()
	if sp.Srv.Packet > 0 && sp.Srv.Packet < 7 {
		sp.Srv.Packet = 7
	}
	x.ioFaults()
	sp.Srv.Proto = "ws"
	n := 1 + x.N(4)
	for i := 0; i < n; i++ {
		c := x.client()
		c.Hs = x.hs()
		c.Pol = x.policy(200)
		for x.P(150) {
			c.Hs.Pre = append(c.Hs.Pre, badHs[x.N(len(badHs))])
		}
		if x.P(250) {
			c.Hs.Bad = badHs[x.N(len(badHs))]
			c.Ops = x.frameWrites()
			continue
		}
		c.Items = x.items(x.N(4), 200)
		hl := wsHsLen(c)
		switch x.N(5) {
		case 0: // cut once at an arbitrary place
			c.Ops = []Op{{K: "w", A: int64(x.N(hl + 20))}, {K: "s", A: int64(1 + x.Skewed(3000))}, {K: "w", A: -1}}
		case 1: // cut inside the terminator
			c.Ops = []Op{{K: "w", A: int64(hl - x.N(5))}, {K: "s", A: int64(1 + x.Skewed(3000))}, {K: "w", A: -1, B: int64(x.Pick(0, 1, 3)), S: "x", C: 20}}
		case 2: // everything at once
			c.Ops = []Op{{K: "w", A: -1}}
		default:
			c.Ops = x.frameWrites()
		}
		if x.P(100) {
			x.tight(c)
		}
		if x.P(60) { // never completes the request
			c.Ops = []Op{{K: "w", A: int64(x.N(hl - 1)), B: 30}}
		}
	}
}

// genC25 is the handshake with all hooks set.
func genC25(x *g) {
	sp := x.sp
	genC15(x)
	sp.Srv.Hooks = hkOn
	if x.P(300) {
		sp.Srv.Hooks |= hkCustom
	}
	if x.P(300) {
		sp.Srv.Hooks |= hkHeader
	}
	if x.P(300) {
		sp.Srv.Hooks |= hkBefore
	}
	for i := range sp.Clients {
		c := &sp.Clients[i]
		h := c.Hs
		h.Proto = nil
		for k := x.Pick(0, 1, 1, 2); k > 0; k-- {
			h.Proto = append(h.Proto, []string{"ok", "no", "no, ok", "no, ok, one", "one,two,ok", "n1, n2 ,n3"}[x.N(6)])
		}
		for k := x.Pick(0, 0, 1, 1, 2); k > 0; k-- {
			h.Exts = append(h.Exts, []string{"permessage-deflate", "permessage-deflate; client_max_window_bits", "x-no, permessage-deflate; a=10; b",
				"permessage-deflate; server_max_window_bits=10, permessage-deflate", "ok; q=\"abc\", no; z=1, one", "nope"}[x.N(6)])
		}
		if x.P(500) {
			h.Shuf = x.U64() | 1
		}
		if x.P(400) {
			h.Extra = append(h.Extra, "X-A: 1", "x-b:  spaced value\t", "X-Empty:")
		}
		if x.P(500) {
			j := &Rej{Hook: []string{"req", "host", "before", "before", "hdr", "proto", "ext"}[x.N(7)], Reason: []string{"go away", "", string(make70(200))}[x.N(3)]}
			switch x.N(4) {
			case 0:
				j.Plain = true
			case 1:
			default:
				j.Status = x.Pick(400, 401, 403, 404, 426, 429, 500, 503)
			}
			if x.P(400) {
				j.Hdr = "X-Why"
			}
			ok := true
			switch j.Hook {
			case "hdr":
				ok = len(h.Extra) > 0
				if ok {
					j.N = x.N(len(h.Extra))
				}
			case "proto":
				ok = len(h.Proto) > 0 && sp.Srv.Hooks&hkCustom != 0
			case "ext":
				ok = len(h.Exts) > 0 && sp.Srv.Hooks&hkCustom != 0
			}
			if ok {
				h.Rej = j
				for k := 1 + x.N(2); k > 0; k-- {
					at := x.N(len(h.Pre) + 1)
					h.Pre = append(h.Pre[:at:at], append([]string{"rej"}, h.Pre[at:]...)...)
				}
				if x.P(100) {
					h.Bad = "rej"
					c.Items = nil
				}
			}
		}
		// the request is longer now: cut it anew
		hl := wsHsLen(c)
		switch x.N(4) {
		case 0:
			c.Ops = []Op{{K: "w", A: int64(x.N(hl + 20))}, {K: "s", A: int64(1 + x.Skewed(3000))}, {K: "w", A: -1}}
		case 1:
			c.Ops = []Op{{K: "w", A: -1}}
		default:
			c.Ops = x.frameWrites()
		}
	}
}

// hostile builds a malformed byte stream for the protocol in use.
func (x *g) hostile() []byte {
	rnd := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(x.N(256))
		}
		return b
	}
	lens := []uint32{0, 1, 2, 3, 4, 5, 6, 7, 8, 20, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0xfffffffb, 65536}
	switch x.sp.Srv.Proto {
	case "pb", "rec":
		var b []byte
		for k := 1 + x.N(4); k > 0; k-- {
			if x.P(300) {
				b = append(b, packPB([]string{"x", "", "typ"}[x.N(3)], rnd(x.N(40)))...)
			}
			l := lens[x.N(len(lens))]
			if x.P(300) {
				l = uint32(x.N(100))
			}
			tl := uint16(x.Pick(0, 1, 2, 3, 10, 100, 0x7fff, 0xffff))
			if x.P(300) {
				tl = uint16(x.N(100))
			}
			b = append(b, byte(l>>24), byte(l>>16), byte(l>>8), byte(l), byte(tl>>8), byte(tl))
			b = append(b, rnd(x.Skewed(300))...)
		}
		return b
	case "ws":
		var b []byte
		switch x.N(6) {
		case 0:
			h := x.hs()
			h.Bad = badHs[x.N(len(badHs))]
			b = append(h.request(), rnd(x.N(100))...)
		case 1:
			b = x.hs().request()
			if len(b) > 0 {
				for k := 1 + x.N(6); k > 0; k-- {
					switch x.N(3) {
					case 0:
						b[x.N(len(b))] = byte(x.N(256))
					case 1:
						i := x.N(len(b))
						b = append(b[:i:i], b[min(len(b), i+1+x.N(10)):]...)
					case 2:
						i := x.N(len(b))
						b = append(b[:i:i], append([]byte("\r\n"), b[i:]...)...)
					}
					if len(b) == 0 {
						b = []byte("\r\n\r\n")
					}
				}
			}
		case 2:
			b = append([]byte(nil), []byte("\r\n\r\n")[x.N(4):]...)
			b = append(b, rnd(x.N(60))...)
			b = append(b, "\r\n\r\n"...)
		default:
			b = x.hs().request()
		}
		for k := 1 + x.N(5); k > 0; k-- {
			op := byte(x.Pick(0, 1, 2, 3, 8, 8, 9, 9, 10, 11, 15))
			if x.P(300) {
				op |= byte(x.N(8)) << 4
			}
			switch x.N(5) {
			case 0: // huge 64-bit length
				b = append(b, op|0x80, byte(x.N(2))<<7|127)
				for i := 0; i < 8; i++ {
					b = append(b, byte(x.Pick(0, 0, 0x7f, 0x80, 0xff, 1)))
				}
				b = append(b, rnd(x.N(40))...)
			case 1: // 16-bit
				b = append(b, op|0x80, byte(x.N(2))<<7|126, byte(x.N(3)), byte(x.N(256)))
				b = append(b, rnd(x.N(600))...)
			case 2:
				b = append(b, wsFrame(op&15, x.P(500), rnd(x.N(300)), x.P(500), uint32(x.U64()))...)
			case 3: // close bodies
				body := rnd(x.N(4))
				if x.P(500) {
					code := x.Pick(0, 999, 1000, 1004, 1005, 1006, 1012, 1015, 2000, 2999, 3000, 5000, 65535)
					body = append([]byte{byte(code >> 8), byte(code)}, rnd(x.N(124))...)
					if x.P(500) {
						body = append(body[:2], strings.Repeat("r", x.Pick(x.N(124), 120+x.N(10), x.N(400)))...)
					}
				}
				b = append(b, wsFrame(8, true, body, x.P(800), uint32(x.U64()))...)
			default:
				b = append(b, rnd(x.Skewed(200))...)
			}
		}
		return b
	}
	return rnd(x.Skewed(2000))
}

func genC16(x *g) {
	sp := x.sp
	x.server()
	sp.Srv.Loops = x.Pick(1, 1, 2)
	x.sizes()
	if sp.Srv.Packet > 0 && sp.Srv.Packet < 16 {
		sp.Srv.Packet = 16
	}
	x.ioFaults()
	sp.Srv.Proto = []string{"raw", "pb", "pb", "ws", "ws", "ws"}[x.N(6)]
	for i := x.N(3); i > 0; i-- {
		x.talker(1 + x.N(400))
	}
	for i := 1 + x.N(3); i > 0; i-- {
		c := x.client()
		c.Bad = true
		c.Raw = x.hostile()
		c.Pol = x.policy(100)
		c.Ops = x.frameWrites()
		if x.P(400) {
			c.Ops = append(c.Ops, Op{K: []string{"c", "r", "hc"}[x.N(3)]})
		}
		if x.P(150) {
			x.tight(c)
		}
	}
	if x.P(300) {
		a := x.actor(200)
		a.Ops = append(a.Ops, Op{K: "every", A: int64(x.Pick(1000, 5000))}, Op{K: "after", A: int64(x.N(20000))})
	}
}

func genC17(x *g) {
	sp := x.sp
	x.server()
	x.sizes()
	f := &sp.Faults
	f.EpollPartial = x.some(300, 200)
	f.EINTR = x.some(300, 50)
	f.AcceptErr = x.some(600, 100, 400)
	f.NonblockErr = x.some(300, 100, 300)
	f.CtlAddErr = x.some(600, 100, 400)
	sp.Srv.Proto = []string{"raw", "raw", "rec"}[x.N(3)]
	n := 1 + x.Skewed(8)
	sp.Hush = x.P(500)
	for i := 0; i < n; i++ {
		c := x.talker(1 + x.N(300))
		if x.P(300) {
			x.ender(i)
		}
		if sp.Hush && x.P(250) {
			// does not read
			x.tight(c)
			c.Pol.ReplyPM, c.Pol.ReplyMax = 1000, 3000
			c.Pol.OnConn = append(c.Pol.OnConn, Act{K: "send", A: int64(x.Skewed(5000)), B: int64(1 + x.N(3))})
			c.Ops = append([]Op{{K: "ro"}}, c.Ops...)
			c.Chunk, c.Delay = 0, 0
		}
	}
	if x.P(300) {
		x.sender(0)
	}
	if x.P(400) {
		// descriptor table full for a while
		sp.MaxFD = 3 + (sp.Srv.Loops+1)*2 + 2 + x.N(3)
		sp.FDTill = int64(x.N(3000))
	}
}

func genC18(x *g) {
	sp := x.sp
	if x.P(60) { // the contexts of live connections, in and outside callbacks
		x.server()
		sp.Srv.Proto = []string{"raw", "rec", "ws", "pb"}[x.N(4)]
		n := 1 + x.N(3)
		for i := 0; i < n; i++ {
			c := x.talker(1 + x.N(400))
			for k := x.N(3); k > 0; k-- {
				c.Pol.OnConn = append(c.Pol.OnConn, Act{K: "kv", A: int64(x.N(12))})
			}
			for k := 1 + x.N(5); k > 0; k-- {
				c.Pol.Acts = append(c.Pol.Acts, Act{At: int64(x.N(6)), K: "kv", A: int64(x.N(12))})
			}
			if x.P(300) {
				c.Pol.InClose = 3
			}
		}
		for i := 1 + x.N(3); i > 0; i-- {
			a := x.actor(400)
			for k := 1 + x.N(8); k > 0; k-- {
				o := Op{K: "kv", A: int64(x.N(n)), B: int64(x.N(6)), C: int64(x.N(3))}
				switch x.N(12) {
				case 0:
					o = Op{K: "sleep", A: int64(x.N(400))}
				case 1:
					o = Op{K: "close", A: int64(x.N(n))}
				case 2:
					o = Op{K: "send", A: int64(x.N(n)), B: int64(x.N(300)), C: 1}
				}
				a.Ops = append(a.Ops, o)
			}
		}
		return
	}
	sp.Kind = "kv"
	sp.P = []int64{int64(1 + x.N(2))}
	keys := 1 + x.N(3)
	if x.P(30) {
		keys = x.Pick(9, 20, 100)
		if x.P(100) {
			keys = x.Pick(300, 1100)
		}
	}
	for i := 2 + x.N(4); i > 0; i-- {
		a := x.actor(1)
		if keys > 3 {
			for k := 0; k < keys; k++ {
				a.Ops = append(a.Ops, Op{K: []string{"set", "set", "set", "get", "del"}[x.N(5)], A: int64(x.N(keys)), B: int64(x.N(int(sp.P[0])))})
			}
		}
		for k := 1 + x.N(8); k > 0; k-- {
			a.Ops = append(a.Ops, Op{K: []string{"set", "set", "get", "get", "del"}[x.N(5)], A: int64(x.N(keys)), B: int64(x.N(int(sp.P[0])))})
			if x.P(50) {
				a.Ops = append(a.Ops, Op{K: "sleep", A: int64(x.N(3000))})
			}
		}
	}
	if sp.Sched.Mode == 0 {
		sp.Sched.Preempt = x.Pick(1, 2, 3, 5, 10, 30)
	} else {
		sp.Sched.Horizon = int64(x.Pick(50, 200, 600))
	}
}

// truncate ends the input of a client inside a frame.
func (x *g) truncate(c *ClSpec) {
	if p := x.sp.Srv.Proto; p == "" || p == "raw" || p == "mix" || p == "ws" {
		return
	}
	for k := len(c.Ops) - 1; k >= 0; k-- {
		if c.Ops[k].K == "w" {
			c.Ops[k].A = int64(1 + x.N(300))
			return
		}
	}
}

func genC19(x *g) {
	sp := x.sp
	x.server()
	x.sizes()
	x.ioFaults()
	sp.Faults.Spurious = 0
	sp.Srv.Proto = []string{"raw", "rec", "rec", "pb", "mix", "mix"}[x.N(6)]
	if sp.Srv.Packet > 0 && sp.Srv.Packet < 16 {
		sp.Srv.Packet = 16
	}
	n := 1 + x.N(3)
	for i := 0; i < n; i++ {
		c := x.talker(1 + x.N(800))
		if x.P(800) {
			x.tight(c)
		}
		if x.P(600) {
			c.Ops = append([]Op{{K: "ro"}}, c.Ops...)
			c.Ops = append(c.Ops, Op{K: "s", A: int64(x.Skewed(8000))}, Op{K: "rn"}, Op{K: "s", A: int64(x.Skewed(3000))})
		}
		if x.P(300) { // partial frame left behind
			x.truncate(c)
		}
		c.Pol.OnConn = append(c.Pol.OnConn, Act{K: "send", A: int64(x.Skewed(2000)), B: int64(x.N(3))})
	}
	for i := x.N(3); i > 0; i-- {
		x.sender(0)
	}
	a := x.actor(2000)
	for k := 2 + x.N(6); k > 0; k-- {
		a.Ops = append(a.Ops, Op{K: "gauge", A: int64(x.N(n)), B: int64(1 + x.Skewed(300))}, Op{K: "look", A: int64(x.N(n))})
		if x.P(500) {
			a.Ops = append(a.Ops, Op{K: "sleep", A: int64(x.Skewed(3000))})
		}
	}
	x.setupFaults()
}

func genC20(x *g) {
	sp := x.sp
	sp.Kind = "ctor"
	sp.Srv.Loops = x.Pick(1, 2, 3, 5, 0)
	what := int64(x.Pick(0, 0, 0, 0, 0, 1, 2, 3))
	// acquisitions: socket(2)/bind/listen, dup, epoll, eventfd, epoll_ctl ... per loop
	fail := int64(x.N(8 + 4*max(sp.Srv.Loops, 2)))
	if what != 0 {
		fail = int64(x.N(4))
	}
	lim := int64(x.N(6))
	if x.P(300) {
		fail = -1
		lim = int64(x.N(2*max(sp.Srv.Loops, 2) + 6))
	}
	sp.P = []int64{what, fail, lim, int64(1 + x.N(2)), int64(x.Skewed(5))}
	switch x.N(6) {
	case 0:
		sp.Srv.Addr, sp.Srv.Net = "127.0.0.1:4321", "tcp4"
	case 1:
		sp.Srv.Addr = ":1833"
	case 2:
		sp.Srv.Reuse = true
	case 3:
		if what == 0 && x.P(300) {
			sp.Srv.Addr, sp.Srv.Net = "/tmp/sock", "unix"
		}
	}
	if what == 3 {
		sp.Srv.Loops = x.Pick(1, 2)
		sp.Srv.Reuse = x.P(400)
		sp.P[1], sp.P[2] = int64(x.N(2)), int64(x.N(2))
	}
}

func genC21(x *g) {
	sp := x.sp
	x.server()
	x.sizes()
	x.ioFaults()
	x.errFaults()
	sp.Srv.Proto = []string{"raw", "raw", "rec", "pb"}[x.N(4)]
	n := 1 + x.N(4)
	for i := 0; i < n; i++ {
		c := x.talker(1 + x.N(300))
		if x.P(400) {
			x.tight(c)
		}
		c.Pol.SendPM = x.some(600, 300, 900)
		c.Pol.InClose = x.Pick(0, 1, 1, 2)
		if x.P(600) {
			x.ender(i)
		}
	}
	for i := 1 + x.N(4); i > 0; i-- {
		x.sender(700)
		a := &sp.Actors[len(sp.Actors)-1]
		t := int64(x.N(n))
		if x.P(300) {
			a.Ops = append(a.Ops, Op{K: "close", A: t})
		}
		if x.P(400) {
			a.Ops = append(a.Ops, Op{K: "dead", A: t}, Op{K: "send", A: t, B: int64(x.N(100)), C: 2, S: "f"}, Op{K: "close", A: t}, Op{K: "send", A: t, B: 5, C: 1, S: "f"}, Op{K: "shut", A: t})
		}
	}
	if x.P(150) {
		a := x.actor(4000)
		a.Ops = append(a.Ops, Op{K: "stop"})
	}
	x.setupFaults()
}

func genC22(x *g) {
	sp := x.sp
	x.server()
	x.sizes()
	x.ioFaults()
	sp.Srv.Proto = []string{"raw", "raw", "rec", "pb", "mix"}[x.N(5)]
	if sp.Srv.Packet > 0 && sp.Srv.Packet < 16 {
		sp.Srv.Packet = 16
	}
	n := 1 + x.N(3)
	for i := 0; i < n; i++ {
		c := x.talker(1 + x.N(1500))
		c.Pol.ReplyPM = x.Pick(500, 1000)
		c.Pol.ReplyMax = 1 + x.Skewed(5000)
		c.Pol.SendPM = 0
		if x.P(700) {
			x.tight(c)
		}
		if x.P(300) {
			c.Ops = append([]Op{{K: "ro"}}, c.Ops...)
		}
		if x.P(200) {
			x.truncate(c)
		}
		switch x.N(4) {
		case 0: // application half-closes
			if x.P(300) { // with output queued
				c.Pol.OnConn = append(c.Pol.OnConn, Act{K: "send", A: int64(1 + x.Skewed(8000))})
				if x.P(500) {
					x.tight(c)
				}
			}
			switch x.N(3) {
			case 0:
				c.Pol.OnConn = append(c.Pol.OnConn, Act{K: "shut"})
			case 1:
				c.Pol.Acts = append(c.Pol.Acts, Act{At: int64(x.N(200)), K: "shut"})
			default:
				a := x.actor(2000)
				a.Ops = append(a.Ops, Op{K: "shut", A: int64(i)})
			}
			c.Pol.ReplyPM = x.Pick(0, 0, 1000)
			c.Pol.ReplyMax = 50
			if x.P(500) {
				if x.P(500) {
					c.Ops = append(c.Ops, Op{K: "s", A: int64(x.Skewed(4000))})
				}
				c.Ops = append(c.Ops, Op{K: []string{"c", "hc"}[x.N(2)]})
			}
		default:
			if x.P(300) {
				c.Ops = append(c.Ops, Op{K: "s", A: int64(x.Skewed(2000))})
			}
			c.Ops = append(c.Ops, Op{K: "hc"})
			if x.P(300) {
				c.Ops = append(c.Ops, Op{K: "s", A: int64(x.Skewed(2000))}, Op{K: "rn"})
			}
		}
	}
	x.setupFaults()
}

func genC23(x *g) {
	sp := x.sp
	x.server()
	x.sizes()
	x.ioFaults()
	sp.Srv.Proto = "ws"
	if sp.Srv.Packet > 0 && sp.Srv.Packet < 7 {
		sp.Srv.Packet = 7
	}
	n := 1 + x.N(3)
	for i := 0; i < n; i++ {
		c := x.client()
		c.Items = x.items(x.N(6), x.Pick(10, 200, 1500))
		cl := Item{K: 8, M: uint32(x.U64())}
		switch x.N(6) {
		case 0:
		case 1:
			cl.Code, cl.N = x.Pick(1000, 1001, 1003, 1007, 1011, 3000, 4999), x.N(60)
		case 2:
			cl.Code, cl.N = x.Pick(0, 999, 1004, 1005, 1006, 1015, 2000, 2999), x.N(60)
			if cl.Code == 0 {
				cl.X = 1
			}
		case 3:
			cl.Code, cl.X = 1000, 2
		case 4:
			cl.Code, cl.X = 1000, 3
		case 5:
			cl.Code, cl.N = 1000, x.Pick(0, 1, 123)
		}
		c.Items = append(c.Items, cl)
		c.Pol = x.policy(600)
		c.Pol.SendPM = 0
		if x.P(500) {
			c.Ops = append([]Op{{K: "w", A: int64(wsHsLen(c))}, {K: "wh", B: 500000}}, x.frameWrites()...)
		} else {
			c.Ops = x.frameWrites()
		}
		if x.P(500) {
			x.tight(c)
			c.Pol.ReplyMax = 1 + x.N(3000)
		}
		if x.P(300) {
			k := min(2, len(c.Ops))
			c.Ops = append(c.Ops[:k:k], append([]Op{{K: "ro"}, {K: "s", A: 300}}, c.Ops[k:]...)...)
		}
		switch x.N(3) {
		case 0:
			c.Ops = append(c.Ops, Op{K: "we", B: 3000000}, Op{K: "c"})
		case 1:
			c.Ops = append(c.Ops, Op{K: "we", B: 3000000})
		}
	}
}

func genC24(x *g) {
	sp := x.sp
	sp.Hush = true
	if x.P(150) {
		genC07(x)
		return
	}
	x.server()
	x.sizes()
	x.ioFaults()
	x.errFaults()
	sp.Srv.Proto = []string{"raw", "raw", "rec", "pb", "ws"}[x.N(5)]
	if sp.Srv.Packet > 0 && sp.Srv.Packet < 16 {
		sp.Srv.Packet = 64
	}
	n := 1 + x.N(4)
	for i := 0; i < n; i++ {
		c := x.talker(1 + x.N(1500))
		c.Pol.ReplyPM = x.Pick(0, 500, 1000, 1000)
		c.Pol.ReplyMax = 1 + x.Skewed(4000)
		c.Pol.SendPM = x.some(500, 200, 700)
		if x.P(700) {
			x.tight(c)
		}
		if x.P(300) {
			c.Pol.OnConn = append(c.Pol.OnConn, Act{K: "send", A: int64(x.Skewed(5000)), B: int64(1 + x.N(3))})
		}
		switch x.N(5) {
		case 0, 1: // stops reading before it sends the rest, for good
			k := x.N(len(c.Ops) + 1)
			c.Ops = append(c.Ops[:k:k], append([]Op{{K: "ro"}}, c.Ops[k:]...)...)
			c.Chunk, c.Delay = 0, 0
		case 2:
			k := x.N(len(c.Ops) + 1)
			c.Ops = append(c.Ops[:k:k], append([]Op{{K: "ro"}}, c.Ops[k:]...)...)
			c.Ops = append(c.Ops, Op{K: "s", A: int64(x.Skewed(4000))}, Op{K: "rn"})
		}
		if x.P(300) {
			x.ender(i)
		}
		if x.P(150) {
			a := x.actor(2000)
			a.Ops = append(a.Ops, Op{K: "shut", A: int64(i)})
		}
		if x.P(50) {
			c.Ops = append(c.Ops, Op{K: "v"})
		}
	}
	if x.P(600) {
		x.sender(0)
	}
	if x.P(300) {
		a := x.actor(2000)
		a.Ops = append(a.Ops, Op{K: "q", A: 0, B: int64(1 + x.Skewed(20))})
	}
	x.setupFaults()
}

// genC26 takes the workload of another property, lets more goroutines use the API, and looks for data races.
func genC26(x *g) {
	sp := x.sp
	of := []string{"C01", "C01", "C02", "C03", "C04", "C05", "C06", "C06", "C07", "C08", "C09", "C10", "C11", "C11", "C12", "C13", "C14", "C15", "C17",
		"C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25"}[x.N(27)]
	sp.Note = "workload of " + of
	gens[of](x)
	sp.Races = true
	if sp.Kind != "net" || len(sp.Clients) == 0 {
		return
	}
	n := len(sp.Clients)
	for i := x.Pick(0, 1, 1, 2); i > 0; i-- {
		a := x.actor(400)
		for k := 1 + x.N(6); k > 0; k-- {
			o := Op{A: int64(x.N(n))}
			switch x.N(10) {
			case 0, 1:
				o.K, o.B, o.C = "kv", int64(x.N(3)), int64(x.N(9))
			case 2:
				o.K = "look"
			case 3:
				o.K = "counts"
			case 4:
				o.K = "opts"
			case 5:
				o.K, o.A = []string{"after", "every"}[x.N(2)], int64(x.Pick(1000, 2000, 5000))
			case 6:
				o.K = []string{"close", "shut"}[x.N(2)]
			case 7:
				o.K, o.A = "sleep", int64(x.N(300))
			default:
				o.K, o.B, o.C = "send", int64(x.Pick(1, 20, 300, 5000)), 1
			}
			a.Ops = append(a.Ops, o)
		}
	}
	for i := range sp.Clients {
		if x.P(200) {
			p := &sp.Clients[i].Pol
			p.Acts = append(p.Acts, Act{At: int64(x.N(50)), K: "kv", A: int64(x.N(9))})
		}
	}
}

// genC27 takes the workload of another property and runs a second server beside it.
func genC27(x *g) {
	sp := x.sp
	of := []string{"C01", "C02", "C03", "C04", "C05", "C07", "C09", "C10", "C11", "C11", "C12", "C13", "C14", "C15", "C19", "C21", "C22", "C23", "C25"}[x.N(19)]
	sp.Of = of
	gens[of](x)
	if sp.Kind != "net" {
		return
	}
	sp.MaxFD = 0
	x.mate()
}

func (x *g) mate() {
	m := &MateSpec{At: int64(x.Skewed(3000)), Loops: 1 + x.N(3), Peers: x.N(4), Msgs: x.Skewed(12), LB: []string{"rr", "lc", "def", "def"}[x.N(4)], Twin: x.P(200)}
	if x.P(300) {
		m.At = 0
	}
	if x.P(400) {
		m.Stop = 1 + int64(x.Skewed(6000))
	}
	if x.P(350) {
		m.IdleMS = int64(x.Pick(20, 50, 300, 60000))
	}
	if x.P(400) {
		m.Proto = "pb"
	}
	if x.P(400) {
		m.Every = int64(x.Pick(5, 10, 20))
	}
	x.sp.Mate = m
}

var _ = kern.Faults{}
