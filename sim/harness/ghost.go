package harness

import (
	"bytes"

	"gevsim/core"
	"gevsim/gen/github.com/Allenxuxu/ringbuffer"
	"gevsim/gen/github.com/gobwas/pool/pbytes"
)

// ghost is another user of the process-wide buffer pools gev takes its buffers from: what it stores in
// a buffer it owns must stay as it is.
func (n *netWorld) ghost(i int) {
	for k := 0; k < 60 && !core.Ended(); k++ {
		x := mix(n.sp.Seed, uint64(i), uint64(k), 77)
		size := 1 + int(x%700)
		want := make([]byte, size)
		fillPat(want, x, 0)
		if x>>20&3 == 0 {
			c := []int{12, 16, 64}[x>>24%3]
			b := pbytes.Get(0, c)
			b = append(b[:0], want[:min(size, cap(b))]...)
			core.Sleep(1 + int64(x>>32%400)*us)
			if !bytes.Equal(b, want[:len(b)]) {
				viol("pool", "a buffer taken from the byte pool was modified by someone else")
				return
			}
			pbytes.Put(b)
		} else {
			r := ringbuffer.GetFromPool()
			if r.Length() != 0 {
				viol("pool", "a buffer taken from the ring buffer pool contains %d bytes", r.Length())
				return
			}
			r.Write(want)
			core.Sleep(1 + int64(x>>32%400)*us)
			if !bytes.Equal(r.Bytes(), want) {
				viol("pool", "a buffer taken from the ring buffer pool was modified by someone else")
				return
			}
			ringbuffer.PutInPool(r)
		}
		core.Sleep(1 + int64(x>>44%100)*us)
	}
	core.Count("probe.ghost")
}
