package harness

import (
	"fmt"
	"sort"
	stdtime "time"

	"gevsim/core"
	"gevsim/gen/github.com/Allenxuxu/gev"

	"github.com/anishathalye/porcupine"
)

func init() { kinds["kv"] = runKV }

type kvIn struct {
	op  byte
	key string
	val int
}
type kvOut struct {
	val int
	ok  bool
}

type kvState struct {
	val int
	ok  bool
}

var kvModel = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		m := map[string][]porcupine.Operation{}
		var keys []string
		for _, o := range h {
			k := o.Input.(kvIn).key
			if m[k] == nil {
				keys = append(keys, k)
			}
			m[k] = append(m[k], o)
		}
		sort.Strings(keys)
		var out [][]porcupine.Operation
		for _, k := range keys {
			out = append(out, m[k])
		}
		return out
	},
	Init: func() interface{} { return kvState{} },
	Step: func(st, in, out interface{}) (bool, interface{}) {
		s, i, o := st.(kvState), in.(kvIn), out.(kvOut)
		switch i.op {
		case 's':
			return true, kvState{i.val, true}
		case 'd':
			return true, kvState{}
		}
		return o.ok == s.ok && (!s.ok || o.val == s.val), s
	},
	Equal: func(a, b interface{}) bool { return a == b },
}

// runKV: actors perform set/get/del on key-value contexts. Actor op: K set|get|del, A key, B context.
func runKV() {
	sp := w.spec
	n := &netWorld{sp: sp, stopAt: -1, loopTask: map[*core.Task]int{}, busy: map[*core.Task]string{}}
	w.net = n
	nctx := int(max(sp.P[0], 1))
	ctxs := make([]*gev.Connection, nctx)
	for i := range ctxs {
		ctxs[i] = new(gev.Connection)
	}
	hist := make([][]porcupine.Operation, nctx)
	val := 0
	var ts []*core.Task
	for ai := range sp.Actors {
		a := &sp.Actors[ai]
		ts = append(ts, core.Go2(fmt.Sprintf("kv%d", ai), func() {
			core.Sleep(a.At * us)
			for _, o := range a.Ops {
				c := int(o.B) % nctx
				var op byte
				switch o.K {
				case "set":
					val++
					op = 's'
				case "get":
					op = 'g'
				case "del":
					op = 'd'
				case "sleep":
					core.Sleep(1 + o.A)
					continue
				}
				kvDo(&hist[c], ai, ctxs[c], op, fmt.Sprintf("k%d", o.A), val)
			}
		}))
	}
	done := 0
	for k := 0; k < 2000; k++ { // as long as there is no progress
		sum := 0
		for _, h := range hist {
			sum += len(h)
		}
		if sum > done {
			done, k = sum, 0
		}
		all := true
		for _, t := range ts {
			if !t.Done() {
				all = false
			}
		}
		if all {
			break
		}
		core.Sleep(100 * us)
	}
	for i, t := range ts {
		if !t.Done() && !core.Ended() {
			viol("api_block", "goroutine %d is blocked for ever in a key-value call (%s)", i, t.Why())
			return
		}
	}
	if core.Ended() {
		return
	}
	for c := range hist {
		kvCheck(hist[c], c)
	}
}

type kvBox struct{ n int }

// kvNil is how the model sees a stored nil.
const kvNil = -7

// kvValue is what is stored for val: values of all kinds, also nil and ones that cannot be compared.
func kvValue(val int) (v interface{}, model int) {
	switch val % 9 {
	case 1:
		return nil, kvNil
	case 2:
		return fmt.Sprint(val), val
	case 3:
		return []int{val}, val
	case 4:
		return &kvBox{val}, val
	case 5:
		return map[int]int{0: val}, val
	case 6:
		return func() int { return val }, val
	case 7:
		return kvBox{val}, val
	}
	return val, val
}

func kvModelOf(v interface{}) (int, bool) {
	switch x := v.(type) {
	case nil:
		return kvNil, true
	case int:
		return x, true
	case string:
		n := 0
		_, err := fmt.Sscan(x, &n)
		return n, err == nil
	case []int:
		return x[0], true
	case *kvBox:
		return x.n, true
	case kvBox:
		return x.n, true
	case map[int]int:
		return x[0], true
	case func() int:
		return x(), true
	}
	return 0, false
}

// kvDo performs one operation on a connection's context and records it.
func kvDo(hist *[]porcupine.Operation, who int, c *gev.Connection, op byte, key string, val int) {
	in := kvIn{op: op, key: key}
	var out kvOut
	call := stamp()
	core.Point()
	switch op {
	case 's':
		v, m := kvValue(val)
		in.val = m
		c.Set(key, v)
	case 'd':
		c.Delete(key)
	case 'g':
		v, ok := c.Get(key)
		if ok {
			if m, known := kvModelOf(v); known {
				out.val = m
			} else {
				viol("kv", "Get(%s) returned the foreign value %v", key, v)
			}
		}
		out.ok = ok
		if !ok && v != nil {
			viol("kv", "Get(%s) returned the value %v and said it does not exist", key, v)
		}
	}
	ret := stamp()
	core.Logf("kv %c %s %d -> %v", in.op, key, in.val, out)
	core.Mix(uint64(ret)<<3 ^ uint64(out.val))
	*hist = append(*hist, porcupine.Operation{ClientId: who, Input: in, Output: out, Call: call, Return: ret})
}

func kvCheck(h []porcupine.Operation, c int) {
	switch porcupine.CheckOperationsTimeout(kvModel, h, 20*stdtime.Second) {
	case porcupine.Illegal:
		viol("kv", "the history of %d operations on context %d is not linearizable: %s", len(h), c, histString(h))
	case porcupine.Unknown:
		core.Count("probe.kv_inconclusive")
	default:
		core.CountN("probe.kv_ops_checked", int64(len(h)))
	}
}

// kv performs an operation on the context of a live connection: kind 0, 1 set, 2 delete, otherwise get.
func (n *netWorld) kv(p *peer, c *gev.Connection, kind, key int64) {
	if len(p.kvHist) > 80 {
		return
	}
	op := byte('g')
	switch kind {
	case 0, 1:
		op = 's'
		n.kvVal++
	case 2:
		op = 'd'
	}
	p.kvOpen++
	n.calling()
	kvDo(&p.kvHist, core.Cur().ID, c, op, fmt.Sprintf("k%d", key%3), n.kvVal)
	p.kvOpen--
}

func (n *netWorld) checkKV() {
	for _, p := range n.peers {
		// an operation that has not returned may have taken effect
		if len(p.kvHist) > 0 && p.kvOpen == 0 {
			kvCheck(p.kvHist, p.id)
		}
	}
}

func histString(h []porcupine.Operation) string {
	s := ""
	for i, o := range h {
		if i > 40 {
			s += " ..."
			break
		}
		in := o.Input.(kvIn)
		s += fmt.Sprintf(" [%d-%d c%d %c %s %d %v]", o.Call, o.Return, o.ClientId, in.op, in.key, in.val, o.Output)
	}
	return s
}
