package harness

// Rare runs with large sizes, many connections, long queues and long times: behaviour that changes at
// a threshold (a buffer of 64 KB, a frame length of more than 16 bits, a queue that has grown, a
// counter that wraps) does not show in small ones. Each replaces a part of the run the profile built.

// scale turns a run of a profile into a large one.
func (x *g) scale(prop string) {
	sp := x.sp
	switch prop {
	case "C07":
		x.scaleTasks()
		return
	case "C09":
		if x.P(400) {
			x.scaleIdle()
		}
		return
	case "C10":
		x.scaleTimers()
		return
	case "C12":
		if x.P(300) {
			x.sp.Srv.Direct = x.Pick(5000, 33000, 66000, 70000)
			return
		}
		x.scaleConns(100 + x.N(500))
		if x.P(200) {
			x.sp.Srv.Loops = x.Pick(17, 33, 65, 70, 130)
			x.sp.Sched.Preempt = min(x.sp.Sched.Preempt, 10)
		}
		return
	case "C04", "C11", "C05", "C17":
		if x.P(400) {
			x.scaleConns(20 + x.N(x.Pick(150, 150, 600)))
			return
		}
	case "C15", "C25":
		x.scaleHs()
		return
	case "C24":
		if sp.Kind != "net" {
			return
		}
	case "C08", "C18", "C20", "C26":
		return
	}
	if sp.Kind == "net" && len(sp.Clients) > 0 {
		x.scaleBytes(prop)
	}
}

// calm keeps the number of steps of a large run bounded.
func (x *g) calm() {
	s, f := &x.sp.Sched, &x.sp.Faults
	s.Preempt = min(s.Preempt, 100)
	s.StallPM = min(s.StallPM, 5)
	f.Spurious = 0
	f.ShortRead = min(f.ShortRead, 50)
	f.ReadAgain = min(f.ReadAgain, 20)
	f.ShortWrite = min(f.ShortWrite, 50)
	f.WriteAgain = min(f.WriteAgain, 20)
	f.EINTR = min(f.EINTR, 20)
}

func (x *g) big() int {
	n := x.Pick(65535, 65536, 65537, 70000, 100000, 131072, 150000, 200000, 262144, 400000)
	if x.P(250) {
		n = x.Pick(1<<19, 1<<20, 1<<20+1, 1500000, 1<<21)
		if x.P(150) {
			n = x.Pick(1<<22+1, 5000000, 9000000, 1<<24+1, 20000000)
		}
	}
	return n
}

// scaleBytes: one connection moves much data, in messages as large or as one stream.
func (x *g) scaleBytes(prop string) {
	sp := x.sp
	x.calm()
	sp.Srv.Packet = x.Pick(0, 0, 0, 4096, 10000, 65535, 65536, 100000, 300000)
	sp.Srv.UserB = x.Pick(0, 0, 1024, 65536, 100000)
	i := x.N(len(sp.Clients))
	c := &sp.Clients[i]
	if c.Bad {
		return
	}
	for k := range sp.Clients {
		// the others stay small but must not be slow
		sp.Clients[k].Rcv = 0
	}
	c.Snd = x.Pick(0, 0, 5000, 65536, 100000, 300000)
	c.Win = x.Pick(0, 0, 5000, 65536, 100000)
	c.Rcv = x.Pick(0, 0, 20000, 65536, 100000)
	c.Chunk, c.Delay = 0, 0
	if x.P(200) {
		c.Chunk, c.Delay = x.Pick(5000, 65536), int64(x.Pick(10, 100, 500))
	}
	if len(c.Items) > 0 && x.P(350) {
		x.manyItems(c)
		return
	}
	top := 0
	most := func(n int) int64 {
		top = max(top, n)
		return int64(n)
	}
	defer func() {
		if top >= 1<<22 {
			x.huge(c)
		}
	}()
	in, out := x.P(600), x.P(600)
	if !in && !out {
		in, out = true, true
	}
	if in {
		switch sp.Srv.Proto {
		case "", "raw", "mix":
			var at []int
			for k, o := range c.Ops {
				if o.K == "w" {
					at = append(at, k)
				}
			}
			o := Op{K: "w", A: most(x.big()), B: int64(x.Pick(0, 0, 5000, 65536))}
			if len(at) > 0 {
				c.Ops[at[x.N(len(at))]] = o
			} else {
				c.Ops = append([]Op{o}, c.Ops...)
			}
		default:
			var at []int
			for k, it := range c.Items {
				if sp.Srv.Proto != "ws" || it.K < 8 {
					at = append(at, k)
				}
			}
			if len(at) > 0 {
				c.Items[at[x.N(len(at))]].N = int(most(x.big()))
				if x.P(300) {
					c.Items[at[x.N(len(at))]].N = int(most(x.big()))
				}
				for k := range c.Ops {
					o := &c.Ops[k]
					if o.K == "w" && o.B > 0 {
						o.B = int64(max(int(o.B), x.Pick(3000, 20000, 65536)))
					}
				}
			}
		}
	}
	if out {
		n := int(most(x.big()))
		k := x.N(4)
		if prop == "C23" { // sending after the peer's close frame is the application's fault
			k = 0
		}
		switch k {
		case 0:
			c.Pol.ReplyPM, c.Pol.ReplyMax = 1000, x.Pick(70000, 140000, 300000)
			c.Pol.ReplyEq = nil
		case 1:
			c.Pol.OnConn = append(c.Pol.OnConn, Act{K: "send", A: int64(n), B: 1})
		case 2: // many messages of middle size while the peer does not read
			c.Ops = append([]Op{{K: "ro"}}, append(c.Ops, Op{K: "s", A: int64(x.Skewed(20000))}, Op{K: "rn"})...)
			k := x.Pick(1000, 1460, 4096, 20000, 65536)
			if n < 1<<22 {
				n = min(n, 600000)
			} else {
				k = 65536
			}
			c.Pol.OnConn = append(c.Pol.OnConn, Act{K: "send", A: int64(k), B: int64(1 + n/k)})
		default:
			a := x.actor(2000)
			a.Ops = append(a.Ops, Op{K: "send", A: int64(i), B: int64(n), C: int64(1 + x.N(2))})
			if x.P(500) {
				a.Ops = append(a.Ops, Op{K: "look", A: int64(i)}, Op{K: "send", A: int64(i), B: int64(x.Skewed(3000)), C: 2})
			}
		}
	}
}

// huge makes a run with a message of several megabytes move it in large pieces: the ring buffer
// grows by what it lacks, which costs the square of the size.
func (x *g) huge(c *ClSpec) {
	sp := x.sp
	sp.Srv.Packet = max(sp.Srv.Packet, 65536)
	sp.Faults.ShortRead, sp.Faults.ShortWrite, sp.Faults.Coalesce = 0, 0, 0
	c.Chunk, c.Delay = 0, 0
	for _, v := range []*int{&c.Snd, &c.Win, &c.Rcv} {
		if *v > 0 {
			*v = max(*v, 65536)
		}
	}
	for k := range c.Ops {
		if o := &c.Ops[k]; o.K == "w" && o.B > 0 {
			o.B = max(o.B, 65536)
		}
	}
}

// manyItems: very many tiny messages, which arrive together.
func (x *g) manyItems(c *ClSpec) {
	sp := x.sp
	sp.Sched.Preempt = min(sp.Sched.Preempt, 20)
	n := x.Pick(65, 100, 129, 200, 257, 500, 1000, 1025, 2000)
	max := x.Pick(1, 3, 10, 20)
	l := x.items(n, max)
	for i := range l {
		if len(l[i].T) > 10 {
			l[i].T = "t"
		}
		if l[i].K == 10 {
			l[i].K = 2
		}
	}
	last := c.Items[len(c.Items)-1]
	if sp.Srv.Proto == "ws" && last.K == 8 {
		l = append(l, last)
	}
	c.Items = l
	c.Pol.SendPM = min(c.Pol.SendPM, 100)
	c.Pol.SlowPM = 0
	c.Pol.ReplyMax = min(c.Pol.ReplyMax, x.Pick(1, 5, 50))
	if c.Rcv > 0 {
		c.Rcv = 0
	}
	for k := range c.Ops {
		o := &c.Ops[k]
		if o.K == "w" && o.A < 0 && o.B > 0 {
			o.B = int64(x.Pick(0, 1000, 5000))
		}
	}
	if x.P(500) && c.Pol.ReplyPM > 0 { // the replies pile up
		c.Ops = append([]Op{{K: "ro"}}, append(c.Ops, Op{K: "s", A: int64(x.Skewed(20000))}, Op{K: "rn"})...)
	}
}

// scaleTasks: long queues of tasks.
func (x *g) scaleTasks() {
	sp := x.sp
	x.calm()
	sp.Sched.Preempt = min(sp.Sched.Preempt, 10)
	if sp.Sched.Mode == 2 {
		sp.Sched.Mode = 0
	}
	sp.Srv.TaskQ = x.Pick(0, 0, 0, 1, 1000)
	a := x.actor(300)
	for k := 1 + x.N(2); k > 0; k-- {
		loop := int64(x.N(max(sp.Srv.Loops, 1)))
		if x.P(600) { // the loop is busy while they are queued
			a.Ops = append(a.Ops, Op{K: "qslow", A: loop, B: int64(x.Pick(1000, 10000))})
		}
		n := x.Pick(1000, 1023, 1024, 1025, 2000, 2049, 4097, 10000, 20000)
		if x.P(200) {
			n = x.Pick(32769, 65535, 65536, 65537, 70000)
		}
		a.Ops = append(a.Ops, Op{K: "q", A: loop, B: int64(n)})
		if x.P(500) {
			a.Ops = append(a.Ops, Op{K: "sleep", A: int64(x.Skewed(3000))}, Op{K: "q", A: loop, B: int64(1 + x.Skewed(2000)), C: int64(x.some(200, 1))})
		}
	}
}

// scaleConns: many connections.
func (x *g) scaleConns(n int) {
	sp := x.sp
	x.calm()
	sp.Sched.Preempt = min(sp.Sched.Preempt, 30)
	sp.Faults.AcceptErr = min(sp.Faults.AcceptErr, 100)
	sp.MaxFD = 0
	span := x.Pick(1, 1000, 5000, 20000)
	for i := 0; i < n; i++ {
		c := x.client()
		*c = ClSpec{At: int64(x.N(span)), V6: c.V6}
		if sp.Srv.Proto == "" || sp.Srv.Proto == "raw" {
			if x.P(300) {
				c.Ops = x.writes(1 + x.N(50))
				c.Pol.ReplyPM, c.Pol.ReplyMax = x.Pick(0, 500), 50
			}
		}
		if x.P(300) {
			c.Ops = append(c.Ops, Op{K: "s", A: int64(x.N(10000))}, Op{K: []string{"c", "c", "r", "hc"}[x.N(4)]})
		} else if x.P(100) {
			c.Pol.OnConn = append(c.Pol.OnConn, Act{K: "close"})
		}
	}
}

// scaleIdle: idle times of minutes and hours.
func (x *g) scaleIdle() {
	sp := x.sp
	idle := int64(x.Pick(20000, 60000, 60000, 61000, 90000, 90000, 300000, 300000, 3600000, 7200000))
	if x.P(150) { // more milliseconds than 31 or 32 bits can hold
		idle = int64(x.Pick(86400000, 2147483000, 2147484000, 4294967000, 4294968000))
	}
	old := sp.Srv.IdleMS
	sp.Srv.IdleMS = idle
	sp.Limit = 4*idle + 2000
	for i := range sp.Clients {
		ops := sp.Clients[i].Ops
		for k := range ops {
			if ops[k].K == "s" {
				ops[k].A = max(ops[k].A/old*idle, 1)
			}
		}
	}
	for i := range sp.Actors {
		ops := sp.Actors[i].Ops
		for k := range ops {
			if ops[k].K == "sleep" {
				ops[k].A = ops[k].A / old * idle
			}
		}
	}
}

// scaleTimers: delays of minutes and hours, many timers at once.
func (x *g) scaleTimers() {
	sp := x.sp
	if x.P(400) {
		a := x.actor(2000)
		for k := 50 + x.N(400); k > 0; k-- {
			a.Ops = append(a.Ops, Op{K: "after", A: int64(x.Pick(0, 1000, 20000, 20001, 300000, x.N(2000000)))})
			if x.P(100) {
				a.Ops = append(a.Ops, Op{K: "sleep", A: int64(x.Skewed(100000))})
			}
		}
		return
	}
	sp.Actors = nil
	if x.P(150) { // weeks
		a := x.actor(2000)
		for k := 1 + x.N(4); k > 0; k-- {
			sec := int64(x.Pick(86400, 999999, 1000000, 1000001, 1999999, 2147483, 2147484, 3000000, 4294967, 4294968, 5000000))
			o := Op{K: "after", A: sec*1000000 + int64(x.Pick(0, -1, 1, 647000, 648000, 295000, 296000))}
			if x.P(300) {
				o.K, o.A = "every", o.A/1000*1000
			}
			a.Ops = append(a.Ops, o)
			if x.P(300) {
				a.Ops = append(a.Ops, Op{K: "sleep", A: int64(x.N(100000)) * 1000000})
			}
		}
		x.lastFor(int64(x.Pick(90000, 1000002, 2200000, 4400000, 9000000)))
		return
	}
	n := 0
	for i := 1 + x.N(2); i > 0; i-- {
		a := x.actor(2000)
		for k := 1 + x.N(4); k > 0; k-- {
			sec := int64(x.Pick(19, 20, 21, 59, 60, 61, 399, 400, 401, 3600, 7999, 8000, 8001, 86400))
			d := sec*1000000 + int64(x.Pick(0, 0, -1, 1, 500000, 999000, 1000, -1000))
			if x.P(300) {
				a.Ops = append(a.Ops, Op{K: "every", A: d / 1000 * 1000})
			} else {
				a.Ops = append(a.Ops, Op{K: "after", A: d})
			}
			n++
			if x.P(400) {
				a.Ops = append(a.Ops, Op{K: "sleep", A: int64(x.N(100)) * 1000000})
			}
			if x.P(300) {
				a.Ops = append(a.Ops, Op{K: "tstop", A: int64(x.N(n))})
			}
		}
	}
	x.lastFor(int64(x.Pick(70, 500, 4000, 100000)))
}

// lastFor makes the workload last for some seconds.
func (x *g) lastFor(sec int64) {
	x.sp.Limit = (sec + 1) * 1000
	a := x.actor(1)
	a.At = 0
	a.Ops = append(a.Ops, Op{K: "sleep", A: sec * 1000000})
}

// scaleHs: long upgrade requests.
func (x *g) scaleHs() {
	sp := x.sp
	x.calm()
	c := &sp.Clients[x.N(len(sp.Clients))]
	if c.Hs == nil || c.Hs.Bad != "" {
		return
	}
	hl := wsHsLen(c)
	k := x.N(len(c.Hs.Extra) + 1)
	var l []string
	switch x.N(3) {
	case 0:
		l = []string{"X-Long: " + string(make70(x.Pick(4000, 4090, 4096, 8192, 16384, 65536, 100000)))}
	case 1:
		for i := 50 + x.N(300); i > 0; i-- {
			l = append(l, "X-N"+string(make70(1+x.N(8)))+": "+string(make70(x.N(40))))
		}
	default:
		c.Hs.Path = "/" + string(make70(x.Pick(1000, 4096, 8192, 65536)))
	}
	if c.Hs.Rej == nil || c.Hs.Rej.Hook != "hdr" {
		c.Hs.Extra = append(c.Hs.Extra[:k:k], append(l, c.Hs.Extra[k:]...)...)
	} else {
		c.Hs.Extra = append(c.Hs.Extra, l...)
	}
	d := wsHsLen(c) - hl
	for i := range c.Ops {
		o := &c.Ops[i]
		if o.K == "w" && o.A >= 0 {
			o.A += int64(d)
			d = 0
		}
		if o.K == "w" && o.B > 0 && o.B < 100 {
			o.B = int64(x.Pick(100, 1000, 5000))
		}
	}
	if sp.Srv.Packet > 0 && sp.Srv.Packet < 1024 {
		sp.Srv.Packet = 1024
	}
}
