package core

import (
	"testing"
)

func prog() {
	x := 0
	var w *Task
	for i := 0; i < 5; i++ {
		Go2("a", func() {
			for j := 0; j < 200; j++ {
				Y()
				x++
				if j%20 == 0 {
					Cost(1000)
				}
				if j%50 == 7 {
					Sleep(3000)
				}
				if j%33 == 2 {
					Gosched()
				}
				Mix(uint64(x))
			}
			if w != nil {
				Ready(w)
			}
		})
	}
	w = Cur()
	After(5000, func() { Mix(uint64(x)) })
	for k := 0; k < 5; k++ {
		Park("x")
		Y()
	}
	Sleep(1e6)
	End("ok")
}
func TestReplay(t *testing.T) {
	il := map[uint64]bool{}
	for seed := uint64(1); seed < 20000; seed++ {
		sc := Sched{Mode: int(seed % 3), Preempt: 5 + int(seed%50), Changes: 3, Horizon: 1000, StallPM: int(seed%4) * 10}
		a := Run(Config{Seed: seed, Sched: sc}, prog)
		b := Run(Config{Seed: seed, Sched: sc}, prog)
		c := Run(Config{Sched: Sched{}, Replay: true, Devs: a.Devs}, prog)
		if a.Hash() != b.Hash() {
			t.Fatal("same seed differs", seed)
		}
		if a.Hash() != c.Hash() || a.now != c.now {
			t.Fatal("replay differs", seed, sc, len(a.Devs), a.now, c.now)
		}
		il[a.ILHash()] = true
	}
	t.Log(len(il))
}
func BenchmarkRun(b *testing.B) {
	for i := 0; i < b.N; i++ {
		Run(Config{Seed: uint64(i), Sched: Sched{Preempt: 20}}, prog)
	}
}
