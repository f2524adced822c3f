package harness

// Known tells whether prop has a generator.
func Known(prop string) bool { return gens[prop] != nil }

// RealCode lists what runs for real, for the evidence.
func RealCode() []string {
	return []string{
		"gev: root package, eventloop, poller (epoll), log, metrics-free paths, plugins/protobuf, plugins/websocket (and ws, ws/util), example key-value store: /repo's current working tree, statement by statement",
		"modules gev is made of: Allenxuxu/ringbuffer, Allenxuxu/toolkit (sync, sync/atomic, sync/spinlock), RussellLuo/timingwheel, gobwas/pool, gobwas/httphead: their source, instrumented like gev",
		"Go runtime for sequential code, maps, slices, strings, encoding and hashing packages",
	}
}

// Simulated lists the stubs.
func Simulated() []string {
	return []string{
		"goroutines and their scheduling (coroutines; the seed decides), channels, select, sync, sync/atomic, sync.Pool, runtime.Gosched/NumCPU, map iteration order, math/rand",
		"time: clock, timers, sleeps (virtual clock)",
		"Linux kernel: descriptor table, TCP sockets and network, epoll, eventfd, listen/accept, socket options, SO_REUSEPORT listener (kern package)",
		"net.Listen/ResolveTCPAddr/TCPListener.File, os.File, peers (scripted clients at the wire end of the sockets)",
		"log output (discarded)",
	}
}

// Assumptions for the evidence.
func Assumptions() []string {
	return []string{
		"preemption happens between statements and inside read-modify-write operations; memory is sequentially consistent (weak memory orderings are not modelled; C26 looks for the data races that would expose them)",
		"the simulated kernel answers like Linux for the calls gev makes; random sequences of those calls were compared with the kernel of the sandbox (run.sh kerndiff, DESIGN.md section 6), readiness, results and errors of sockets, epoll and eventfd; timing and buffer sizes are free choices of the simulation",
		"seeded search: a clean batch is evidence, not proof",
	}
}
