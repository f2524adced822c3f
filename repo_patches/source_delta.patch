From dde78c406379950be95764f93f540e15df20be70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 01/23] fix: close the duplicated listening socket when the
 listener is closed

The port kept accepting connections after Stop because the descriptor
duplicated for epoll was never closed.
---
 listener.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/listener.go b/listener.go
index 20d78a4..0192adc 100644
--- a/listener.go
+++ b/listener.go
@@ -97,7 +97,12 @@ func (l *listener) HandleEvent(fd int, events poller.Event) {
 }
 
 func (l *listener) Close() error {
-	return l.listener.Close()
+	// fd is a duplicate of the listening socket, the port stays open until both are closed
+	err := l.listener.Close()
+	if e := l.file.Close(); err == nil {
+		err = e
+	}
+	return err
 }
 
 func (l *listener) Stop() error {
-- 
2.43.0


From 066bb2f018da09e78800eb61f14788214365b7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:35 +0000
Subject: [PATCH 02/23] fix: run the closes queued by EventLoop.Stop before the
 loop ends

Connection.Close only queues the actual close; the loop ended before
running it, so close callbacks were skipped and descriptors leaked.
---
 eventloop/eventloop.go | 2 --
 poller/epoll.go        | 6 +++++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/eventloop/eventloop.go b/eventloop/eventloop.go
index e5d7ee6..3b63fc1 100644
--- a/eventloop/eventloop.go
+++ b/eventloop/eventloop.go
@@ -120,10 +120,8 @@ func (l *EventLoop) Stop() error {
 				log.Error(err)
 			}
 		}
-		l.sockets = nil
 	})
 
-	_ = l.ConnCunt.Swap(0)
 	return l.poll.Close()
 }
 
diff --git a/poller/epoll.go b/poller/epoll.go
index d233bd8..e075bde 100644
--- a/poller/epoll.go
+++ b/poller/epoll.go
@@ -177,9 +177,13 @@ func (ep *Poller) Poll(handler func(fd int, event Event)) {
 		}
 
 		if wake {
+			// checked first, so that everything queued before Close is run
+			running := ep.running.Get()
 			handler(-1, 0)
 			wake = false
-			if !ep.running.Get() {
+			if !running {
+				// once more for what the last tasks queued, such as closing connections
+				handler(-1, 0)
 				return
 			}
 		}
-- 
2.43.0


From c92ab865dc54c8e6568654bf74e8c7ae00f15571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:35 +0000
Subject: [PATCH 03/23] fix: concurrent Stop and Close calls must not stop
 twice

Two callers could both pass the running check; the second one panicked
closing a closed channel or closed descriptors twice.
---
 poller/epoll.go | 3 +--
 server.go       | 4 +---
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/poller/epoll.go b/poller/epoll.go
index e075bde..fa12ddc 100644
--- a/poller/epoll.go
+++ b/poller/epoll.go
@@ -71,11 +71,10 @@ func (ep *Poller) wakeHandlerRead() {
 
 // Close 关闭 epoll
 func (ep *Poller) Close() (err error) {
-	if !ep.running.Get() {
+	if !ep.running.CompareAndSwap(true, false) {
 		return ErrClosed
 	}
 
-	ep.running.Set(false)
 	if err = ep.Wake(); err != nil {
 		return
 	}
diff --git a/server.go b/server.go
index ce117d2..46115d2 100644
--- a/server.go
+++ b/server.go
@@ -107,9 +107,7 @@ func (s *Server) Start() {
 
 // Stop 关闭 Server
 func (s *Server) Stop() {
-	if s.running.Get() {
-		s.running.Set(false)
-
+	if s.running.CompareAndSwap(true, false) {
 		s.timingWheel.Stop()
 		if err := s.listener.Stop(); err != nil {
 			log.Error(err)
-- 
2.43.0


From f9db5fececeae11dad4ba80e3bcb041a0548771c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:46 +0000
Subject: [PATCH 04/23] fix: Stop while the loops are starting must stop them

A loop which did not run yet refused to be stopped and then ran for ever,
so Start never returned.
---
 server.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 46115d2..7665aa1 100644
--- a/server.go
+++ b/server.go
@@ -5,6 +5,7 @@ package gev
 import (
 	"errors"
 	"runtime"
+	stdsync "sync"
 	"time"
 
 	"github.com/Allenxuxu/gev/eventloop"
@@ -30,6 +31,7 @@ type Server struct {
 	timingWheel *timingwheel.TimingWheel
 	opts        *Options
 	running     atomic.Bool
+	starting    stdsync.WaitGroup // loops which do not run yet
 }
 
 // NewServer 创建 Server
@@ -96,18 +98,24 @@ func (s *Server) Start() {
 	s.timingWheel.Start()
 
 	length := len(s.workLoops)
+	s.starting.Add(length + 1)
+	s.running.Set(true)
 	for i := 0; i < length; i++ {
+		s.workLoops[i].QueueInLoop(s.starting.Done)
 		sw.AddAndRun(s.workLoops[i].Run)
 	}
 
+	s.listener.loop.QueueInLoop(s.starting.Done)
 	sw.AddAndRun(s.listener.Run)
-	s.running.Set(true)
 	sw.Wait()
 }
 
 // Stop 关闭 Server
 func (s *Server) Stop() {
 	if s.running.CompareAndSwap(true, false) {
+		// a loop which does not run yet cannot be stopped
+		s.starting.Wait()
+
 		s.timingWheel.Stop()
 		if err := s.listener.Stop(); err != nil {
 			log.Error(err)
-- 
2.43.0


From 494c1a6e3cd457adc26991630bf6446b26be6fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:46 +0000
Subject: [PATCH 05/23] fix: stop the timing wheel after the loops which add
 timers to it

Adding a timer to a stopped wheel can block for ever, and with it the
loop and Stop.
---
 server.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 7665aa1..fdc0230 100644
--- a/server.go
+++ b/server.go
@@ -116,7 +116,6 @@ func (s *Server) Stop() {
 		// a loop which does not run yet cannot be stopped
 		s.starting.Wait()
 
-		s.timingWheel.Stop()
 		if err := s.listener.Stop(); err != nil {
 			log.Error(err)
 		}
@@ -126,6 +125,9 @@ func (s *Server) Stop() {
 				log.Error(err)
 			}
 		}
+
+		// after the loops: adding a timer to a stopped wheel can block for ever
+		s.timingWheel.Stop()
 	}
 
 }
-- 
2.43.0


From 7239f0387d0cf25e51f848075317f90c38aaad05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:16 +0000
Subject: [PATCH 06/23] fix: release everything when creating a server fails

The listening socket, its duplicate and the event loops created so far
leaked, and the port stayed taken.
---
 eventloop/eventloop.go | 5 +++++
 listener.go            | 8 ++++++++
 poller/epoll.go        | 6 ++++++
 poller/kqueue.go       | 5 +++++
 server.go              | 4 +++-
 5 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/eventloop/eventloop.go b/eventloop/eventloop.go
index 3b63fc1..bf426a9 100644
--- a/eventloop/eventloop.go
+++ b/eventloop/eventloop.go
@@ -125,6 +125,11 @@ func (l *EventLoop) Stop() error {
 	return l.poll.Close()
 }
 
+// Release 释放从未运行过的 EventLoop 占用的资源
+func (l *EventLoop) Release() {
+	l.poll.Release()
+}
+
 // QueueInLoop 添加 func 到事件循环中执行
 func (l *EventLoop) QueueInLoop(f func()) {
 	l.mu.Lock()
diff --git a/listener.go b/listener.go
index 0192adc..2833912 100644
--- a/listener.go
+++ b/listener.go
@@ -41,20 +41,26 @@ func newListener(network, addr string, reusePort bool, handlerConn handleConnFun
 
 	l, ok := ls.(*net.TCPListener)
 	if !ok {
+		_ = ls.Close()
 		return nil, errors.New("could not get file descriptor")
 	}
 
 	file, err := l.File()
 	if err != nil {
+		_ = ls.Close()
 		return nil, err
 	}
 	fd := int(file.Fd())
 	if err = unix.SetNonblock(fd, true); err != nil {
+		_ = file.Close()
+		_ = ls.Close()
 		return nil, err
 	}
 
 	loop, err := eventloop.New()
 	if err != nil {
+		_ = file.Close()
+		_ = ls.Close()
 		return nil, err
 	}
 
@@ -66,6 +72,8 @@ func newListener(network, addr string, reusePort bool, handlerConn handleConnFun
 		loop:     loop,
 	}
 	if err = loop.AddSocketAndEnableRead(fd, listener); err != nil {
+		_ = listener.Close()
+		loop.Release()
 		return nil, err
 	}
 
diff --git a/poller/epoll.go b/poller/epoll.go
index fa12ddc..e8baaaf 100644
--- a/poller/epoll.go
+++ b/poller/epoll.go
@@ -85,6 +85,12 @@ func (ep *Poller) Close() (err error) {
 	return
 }
 
+// Release 释放从未运行过的 Poller 占用的资源
+func (ep *Poller) Release() {
+	_ = unix.Close(ep.fd)
+	_ = unix.Close(ep.eventFd)
+}
+
 func (ep *Poller) add(fd int, events uint32) error {
 	return unix.EpollCtl(ep.fd, unix.EPOLL_CTL_ADD, fd, &unix.EpollEvent{
 		Events: events,
diff --git a/poller/kqueue.go b/poller/kqueue.go
index 1a47e4c..4f8382c 100644
--- a/poller/kqueue.go
+++ b/poller/kqueue.go
@@ -67,6 +67,11 @@ func (p *Poller) Close() (err error) {
 	return
 }
 
+// Release 释放从未运行过的 Poller 占用的资源
+func (p *Poller) Release() {
+	_ = unix.Close(p.fd)
+}
+
 // AddRead 注册fd到kqueue并注册可读事件
 func (p *Poller) AddRead(fd int) error {
 	p.sockets.Store(fd, EventRead)
diff --git a/server.go b/server.go
index fdc0230..40de1ab 100644
--- a/server.go
+++ b/server.go
@@ -58,8 +58,10 @@ func NewServer(handler Handler, opts ...Option) (server *Server, err error) {
 		l, err := eventloop.New()
 		if err != nil {
 			for j := 0; j < i; j++ {
-				_ = wloops[j].Stop()
+				wloops[j].Release()
 			}
+			_ = server.listener.Close()
+			server.listener.loop.Release()
 			return nil, err
 		}
 		wloops[i] = l
-- 
2.43.0


From 93706c4b8ab51756fc62c5c35e6897f9061657e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:16 +0000
Subject: [PATCH 07/23] fix: close a connection which cannot be registered with
 its loop

It stayed open for ever without being served, its close callback never
ran, and its descriptor leaked.
---
 eventloop/eventloop.go | 4 ++++
 server.go              | 1 +
 2 files changed, 5 insertions(+)

diff --git a/eventloop/eventloop.go b/eventloop/eventloop.go
index bf426a9..478af54 100644
--- a/eventloop/eventloop.go
+++ b/eventloop/eventloop.go
@@ -78,6 +78,10 @@ func (l *EventLoop) ConnectionCount() int64 {
 
 // DeleteFdInLoop 删除 fd
 func (l *EventLoop) DeleteFdInLoop(fd int) {
+	if _, ok := l.sockets[fd]; !ok {
+		// was never added successfully
+		return
+	}
 	if err := l.poll.Del(fd); err != nil {
 		log.Error("[DeleteFdInLoop]", err)
 	}
diff --git a/server.go b/server.go
index 40de1ab..fa38442 100644
--- a/server.go
+++ b/server.go
@@ -90,6 +90,7 @@ func (s *Server) handleNewConnection(fd int, sa unix.Sockaddr) {
 		s.callback.OnConnect(c)
 		if err := loop.AddSocketAndEnableRead(fd, c); err != nil {
 			log.Error("[AddSocketAndEnableRead]", err)
+			c.handleClose(fd)
 		}
 	})
 }
-- 
2.43.0


From 9f2640a99272f442b7779313a5c18c46b8ee3fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:01 +0000
Subject: [PATCH 08/23] fix: idle timeout must not close connections which were
 just active

The last activity was kept in whole seconds, so a connection could be
closed up to a second early; and data received between the decision and
the close in the loop was ignored.
---
 connection.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/connection.go b/connection.go
index e986a62..0250260 100644
--- a/connection.go
+++ b/connection.go
@@ -71,7 +71,7 @@ func NewConnection(fd int,
 	conn.connected.Set(true)
 
 	if conn.idleTime > 0 {
-		_ = conn.activeTime.Swap(time.Now().Unix())
+		_ = conn.activeTime.Swap(time.Now().UnixNano())
 		timer := conn.timingWheel.AfterFunc(conn.idleTime, conn.closeTimeoutConn())
 		conn.timer.Store(timer)
 	}
@@ -85,16 +85,25 @@ func (c *Connection) UserBuffer() *[]byte {
 
 func (c *Connection) closeTimeoutConn() func() {
 	return func() {
-		now := time.Now()
-		intervals := now.Sub(time.Unix(c.activeTime.Get(), 0))
-		if intervals >= c.idleTime {
-			_ = c.Close()
-		} else {
-			if c.connected.Get() {
+		if !c.connected.Get() {
+			return
+		}
+
+		// decide in the loop, data may be received until then
+		c.loop.QueueInLoop(func() {
+			if !c.connected.Get() {
+				return
+			}
+
+			now := time.Now()
+			intervals := now.Sub(time.Unix(0, c.activeTime.Get()))
+			if intervals >= c.idleTime {
+				c.handleClose(c.fd)
+			} else {
 				timer := c.timingWheel.AfterFunc(c.idleTime-intervals, c.closeTimeoutConn())
 				c.timer.Store(timer)
 			}
-		}
+		})
 	}
 }
 
@@ -171,7 +180,7 @@ func (c *Connection) WriteBufferLength() int64 {
 // HandleEvent 内部使用，event loop 回调
 func (c *Connection) HandleEvent(fd int, events poller.Event) {
 	if c.idleTime > 0 {
-		_ = c.activeTime.Swap(time.Now().Unix())
+		_ = c.activeTime.Swap(time.Now().UnixNano())
 	}
 
 	if events&poller.EventErr != 0 {
-- 
2.43.0


From 8aa555978d87833ade01759722085444f1a1f9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:42 +0000
Subject: [PATCH 09/23] fix: the idle timer must not close a connection before
 OnConnect

The timer started before the task which calls OnConnect was queued.
---
 server.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index fa38442..ea8db5a 100644
--- a/server.go
+++ b/server.go
@@ -84,9 +84,10 @@ func (s *Server) RunEvery(d time.Duration, f func()) *timingwheel.Timer {
 func (s *Server) handleNewConnection(fd int, sa unix.Sockaddr) {
 	loop := s.opts.Strategy(s.workLoops)
 
-	c := NewConnection(fd, loop, sa, s.opts.Protocol, s.timingWheel, s.opts.IdleTime, s.callback)
-
 	loop.QueueInLoop(func() {
+		// created in the loop: its idle timer must not close it before OnConnect
+		c := NewConnection(fd, loop, sa, s.opts.Protocol, s.timingWheel, s.opts.IdleTime, s.callback)
+
 		s.callback.OnConnect(c)
 		if err := loop.AddSocketAndEnableRead(fd, c); err != nil {
 			log.Error("[AddSocketAndEnableRead]", err)
-- 
2.43.0


From 27e4f4e87f5095e651979826bce9c5ccbf052e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:43 +0000
Subject: [PATCH 10/23] fix: report the write backlog of data submitted with
 Send

WriteBufferLength only changed with socket events, so output pending for
a peer which does not read was invisible.
---
 connection.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/connection.go b/connection.go
index 0250260..b968df0 100644
--- a/connection.go
+++ b/connection.go
@@ -333,6 +333,7 @@ func (c *Connection) sendInLoop(data []byte) (closed bool) {
 		}
 	}
 
+	c.outBufferLen.Swap(int64(c.outBuffer.Length()))
 	return
 }
 
-- 
2.43.0


From eb162f3b2d4c322c84d86620baf73a5c1692ce58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:43 +0000
Subject: [PATCH 11/23] fix: no completion callback for a Send which closed the
 connection

The callback reported a message as handed over which was lost, after the
close callback of the connection.
---
 connection.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/connection.go b/connection.go
index b968df0..792c329 100644
--- a/connection.go
+++ b/connection.go
@@ -140,9 +140,9 @@ func (c *Connection) Send(data interface{}, opts ...ConnectionOption) error {
 
 	c.loop.QueueInLoop(func() {
 		if c.connected.Get() {
-			c.sendInLoop(c.protocol.Packet(c, data))
+			closed := c.sendInLoop(c.protocol.Packet(c, data))
 
-			if opt.sendInLoopFinish != nil {
+			if !closed && opt.sendInLoopFinish != nil {
 				opt.sendInLoopFinish(data)
 			}
 		}
-- 
2.43.0


From 703f92ffb25839418907004721597c6b1f272fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:52 +0000
Subject: [PATCH 12/23] fix: ShutdownWrite must not lose pending output or hit
 another connection

It shut the socket down at once: output still buffered and a reply being
returned (the WebSocket close frame) were lost, and on a closed connection
it shut down whichever connection had got the descriptor since.
---
 connection.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/connection.go b/connection.go
index 792c329..6a494b0 100644
--- a/connection.go
+++ b/connection.go
@@ -44,6 +44,7 @@ type Connection struct {
 	timingWheel *timingwheel.TimingWheel
 	timer       at.Value
 	protocol    Protocol
+	shutWrite   bool // by the application, takes effect once outBuffer is flushed
 }
 
 var ErrConnectionClosed = errors.New("connection closed")
@@ -164,7 +165,26 @@ func (c *Connection) Close() error {
 
 // ShutdownWrite 关闭可写端，等待读取完接收缓冲区所有数据
 func (c *Connection) ShutdownWrite() error {
-	return unix.Shutdown(c.fd, unix.SHUT_WR)
+	if !c.connected.Get() {
+		return ErrConnectionClosed
+	}
+
+	// in the loop: the fd may belong to another connection once this one is closed
+	c.loop.QueueInLoop(func() {
+		if c.connected.Get() {
+			c.shutWrite = true
+			if c.outBuffer.IsEmpty() {
+				c.shutdownInLoop()
+			}
+		}
+	})
+	return nil
+}
+
+func (c *Connection) shutdownInLoop() {
+	if err := unix.Shutdown(c.fd, unix.SHUT_WR); err != nil {
+		log.Error("[shutdown write]", err)
+	}
 }
 
 // ReadBufferLength read buffer 当前积压的数据长度
@@ -289,6 +309,9 @@ func (c *Connection) handleWrite(fd int) (closed bool) {
 		if err := c.loop.EnableRead(fd); err != nil {
 			log.Error("[enableRead]", err)
 		}
+		if c.shutWrite {
+			c.shutdownInLoop()
+		}
 	}
 
 	return
-- 
2.43.0


From 85ba919a6a2edee4e37931cf5e4fdee64cb58482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:52 +0000
Subject: [PATCH 13/23] fix: deliver protobuf messages with empty type and
 payload at once

A packet of exactly six bytes was not unpacked until more data arrived.
---
 plugins/protobuf/protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/protobuf/protocol.go b/plugins/protobuf/protocol.go
index 83961c6..45d3f6c 100644
--- a/plugins/protobuf/protocol.go
+++ b/plugins/protobuf/protocol.go
@@ -25,7 +25,7 @@ func New() *Protocol {
 
 // UnPacket ...
 func (p *Protocol) UnPacket(c *gev.Connection, buffer *ringbuffer.RingBuffer) (ctx interface{}, out []byte) {
-	if buffer.Length() > 6 {
+	if buffer.Length() >= 6 {
 		length := int(buffer.PeekUint32())
 		if buffer.Length() >= length+4 {
 			buffer.Retrieve(4)
-- 
2.43.0


From 6a4dcfef1d887e00b9bd746f6978fee83d4b2492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:52 +0000
Subject: [PATCH 14/23] fix: a malformed protobuf message must not crash the
 server

A length smaller than the type it contains made the payload length
negative: makeslice panicked and took the whole process down. Drop the
connection instead.
---
 plugins/protobuf/protocol.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/plugins/protobuf/protocol.go b/plugins/protobuf/protocol.go
index 45d3f6c..dad1cc5 100644
--- a/plugins/protobuf/protocol.go
+++ b/plugins/protobuf/protocol.go
@@ -2,6 +2,7 @@ package protobuf
 
 import (
 	"github.com/Allenxuxu/gev"
+	"github.com/Allenxuxu/gev/log"
 	"github.com/Allenxuxu/ringbuffer"
 	"github.com/gobwas/pool/pbytes"
 )
@@ -27,10 +28,16 @@ func New() *Protocol {
 func (p *Protocol) UnPacket(c *gev.Connection, buffer *ringbuffer.RingBuffer) (ctx interface{}, out []byte) {
 	if buffer.Length() >= 6 {
 		length := int(buffer.PeekUint32())
+		if length < 2 {
+			return malformed(c, buffer)
+		}
 		if buffer.Length() >= length+4 {
 			buffer.Retrieve(4)
 
 			typeLen := int(buffer.PeekUint16())
+			if typeLen > length-2 {
+				return malformed(c, buffer)
+			}
 			buffer.Retrieve(2)
 
 			typeByte := pbytes.GetLen(typeLen)
@@ -49,6 +56,14 @@ func (p *Protocol) UnPacket(c *gev.Connection, buffer *ringbuffer.RingBuffer) (c
 	return
 }
 
+// malformed 丢弃数据并关闭连接
+func malformed(c *gev.Connection, buffer *ringbuffer.RingBuffer) (ctx interface{}, out []byte) {
+	log.Error("[protobuf] malformed message, close connection ", c.PeerAddr())
+	buffer.RetrieveAll()
+	_ = c.Close()
+	return
+}
+
 // Packet ...
 func (p *Protocol) Packet(c *gev.Connection, data interface{}) []byte {
 	return data.([]byte)
-- 
2.43.0


From daf73a0380e7887fa59a28d1151f1687d82c5725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:54 +0000
Subject: [PATCH 15/23] fix: wait for websocket frame headers which have not
 fully arrived

VirtualReadHeader read the extended length and the mask without checking
that they had arrived, and reading virtually up to the end of the buffer
cannot be reverted: a frame cut inside its header was lost or misread.
---
 plugins/websocket/ws/read.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/plugins/websocket/ws/read.go b/plugins/websocket/ws/read.go
index 1556026..c0e79c7 100644
--- a/plugins/websocket/ws/read.go
+++ b/plugins/websocket/ws/read.go
@@ -53,6 +53,18 @@ func VirtualReadHeader(bts []byte, in *ringbuffer.RingBuffer) (h Header, err err
 		return
 	}
 
+	// Reading virtually up to the end of the buffer marks it empty, which cannot be reverted:
+	// the header is not ready either until the first payload byte is there.
+	need := extra
+	if length != 0 {
+		need++
+	}
+	if in.VirtualLength() < need {
+		in.VirtualRevert()
+		err = ErrHeaderNotReady
+		return
+	}
+
 	if extra == 0 {
 		return
 	}
@@ -69,6 +81,7 @@ func VirtualReadHeader(bts []byte, in *ringbuffer.RingBuffer) (h Header, err err
 
 	case length == 127:
 		if bts[0]&0x80 != 0 {
+			in.VirtualRevert()
 			err = ErrHeaderLengthMSB
 			return
 		}
-- 
2.43.0


From ee5450a6e846d032318f41010ace63761d97d1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:54 +0000
Subject: [PATCH 16/23] fix: find the end of a wrapped upgrade request and
 answer invalid ones

A request which wraps around the end of the buffer was read short, and one
whose terminator does was never found. Requests with a bad request line,
method or version and those rejected by OnRequest got no response at all,
contrary to what Upgrade promises.
---
 plugins/websocket/protocol.go |  4 +++-
 plugins/websocket/ws/ws.go    | 39 +++++++++++++----------------------
 2 files changed, 17 insertions(+), 26 deletions(-)

diff --git a/plugins/websocket/protocol.go b/plugins/websocket/protocol.go
index 97eecb8..16d52a0 100644
--- a/plugins/websocket/protocol.go
+++ b/plugins/websocket/protocol.go
@@ -30,7 +30,9 @@ func (p *Protocol) UnPacket(c *gev.Connection, buffer *ringbuffer.RingBuffer) (c
 		var err error
 		out, _, err = p.upgrade.Upgrade(c, buffer)
 		if err != nil {
-			log.Error("Websocket Upgrade :", err)
+			if err != ws.ErrHeaderNotReady {
+				log.Error("Websocket Upgrade :", err)
+			}
 			return
 		}
 		c.Set(upgradedKey, true)
diff --git a/plugins/websocket/ws/ws.go b/plugins/websocket/ws/ws.go
index 4f5f23b..d0130f9 100644
--- a/plugins/websocket/ws/ws.go
+++ b/plugins/websocket/ws/ws.go
@@ -2,7 +2,6 @@ package ws
 
 import (
 	"bytes"
-	"errors"
 	"io"
 	"net/http"
 
@@ -175,33 +174,25 @@ func (u *Upgrader) Upgrade(c *gev.Connection, in *ringbuffer.RingBuffer) (out []
 			headerSeenSecKey
 	)
 
-	first, end := in.PeekAll()
-	var data []byte
-	if index := bytes.Index(first, []byte("\r\n\r\n")); index != -1 {
-		data = make([]byte, index+4)
-		if _, err = in.Read(data); err != nil {
-			return
-		}
-	} else if len(end) > 0 {
-		if index := bytes.Index(end, []byte("\r\n\r\n")); index != -1 {
-			data = make([]byte, index+4)
-			if _, err = in.Read(data); err != nil {
-				return
-			}
-		}
+	// The request may wrap around the end of the buffer, its terminator too.
+	data, end := in.PeekAll()
+	if len(end) > 0 {
+		data = in.Bytes()
 	}
-
-	lines := bytes.Split(data, []byte("\r\n"))
-	if len(lines) == 0 {
-		err = errors.New("len(lines) = 0")
+	index := bytes.Index(data, []byte("\r\n\r\n"))
+	if index == -1 {
+		err = ErrHeaderNotReady
+		return
+	}
+	data = make([]byte, index+4)
+	if _, err = in.Read(data); err != nil {
 		return
 	}
 
+	lines := bytes.Split(data, []byte("\r\n"))
+
 	// Parse request line data like HTTP version, uri and method.
 	req, err := httpParseRequestLine(lines[0])
-	if err != nil {
-		return
-	}
 
 	// Prepare stack-based handshake header list.
 	header := handshakeHeader{
@@ -213,6 +204,7 @@ func (u *Upgrader) Upgrade(c *gev.Connection, in *ringbuffer.RingBuffer) (out []
 	// Even if RFC says "1.1 or higher" without mentioning the part of the
 	// version, we apply it only to minor part.
 	switch {
+	case err != nil:
 	case req.major != 1 || req.minor < 1:
 		// Abort processing the whole request because we do not even know how
 		// to actually parse it.
@@ -224,9 +216,6 @@ func (u *Upgrader) Upgrade(c *gev.Connection, in *ringbuffer.RingBuffer) (out []
 			err = onRequest(c, req.uri)
 		}
 	}
-	if err != nil {
-		return
-	}
 
 	// Start headers read/parse loop.
 	var (
-- 
2.43.0


From 4490d5359551f3a7effa1235135dca380a2a1391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:11 +0000
Subject: [PATCH 17/23] fix: accept upgrade requests with several connection
 options

The Connection header is a list of case-insensitive tokens (browsers send
"keep-alive, Upgrade") and the value of Upgrade is case-insensitive.
---
 plugins/websocket/ws/http.go |  7 +++----
 plugins/websocket/ws/util.go | 11 +++++++++++
 plugins/websocket/ws/ws.go   |  4 ++--
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/plugins/websocket/ws/http.go b/plugins/websocket/ws/http.go
index 91d3a1e..c51ee33 100644
--- a/plugins/websocket/ws/http.go
+++ b/plugins/websocket/ws/http.go
@@ -56,10 +56,9 @@ var (
 )
 
 var (
-	specHeaderValueUpgrade         = []byte("websocket")
-	specHeaderValueConnection      = []byte("Upgrade")
-	specHeaderValueConnectionLower = []byte("upgrade")
-	specHeaderValueSecVersion      = []byte("13")
+	specHeaderValueUpgrade    = []byte("websocket")
+	specHeaderValueConnection = []byte("Upgrade")
+	specHeaderValueSecVersion = []byte("13")
 )
 
 var (
diff --git a/plugins/websocket/ws/util.go b/plugins/websocket/ws/util.go
index 5892314..9ec28dd 100644
--- a/plugins/websocket/ws/util.go
+++ b/plugins/websocket/ws/util.go
@@ -3,6 +3,8 @@ package ws
 import (
 	"bytes"
 	"fmt"
+
+	"github.com/gobwas/httphead"
 )
 
 // asciiToInt converts bytes to int.
@@ -58,6 +60,15 @@ func btrim(bts []byte) []byte {
 	return bts[i:j]
 }
 
+// btsHasToken tells whether the comma-separated list header contains token, in any case.
+func btsHasToken(header, token []byte) (has bool) {
+	httphead.ScanTokens(header, func(v []byte) bool {
+		has = bytes.EqualFold(v, token)
+		return !has
+	})
+	return has
+}
+
 const (
 	toLower = 'a' - 'A'      // for use with OR.
 	toUpper = ^byte(toLower) // for use with AND.
diff --git a/plugins/websocket/ws/ws.go b/plugins/websocket/ws/ws.go
index d0130f9..1a99892 100644
--- a/plugins/websocket/ws/ws.go
+++ b/plugins/websocket/ws/ws.go
@@ -244,12 +244,12 @@ func (u *Upgrader) Upgrade(c *gev.Connection, in *ringbuffer.RingBuffer) (out []
 			}
 		case headerUpgradeCanonical:
 			headerSeen |= headerSeenUpgrade
-			if !bytes.Equal(v, specHeaderValueUpgrade) {
+			if !bytes.EqualFold(v, specHeaderValueUpgrade) {
 				err = ErrHandshakeBadUpgrade
 			}
 		case headerConnectionCanonical:
 			headerSeen |= headerSeenConnection
-			if !bytes.Equal(v, specHeaderValueConnection) && !bytes.Equal(v, specHeaderValueConnectionLower) {
+			if !btsHasToken(v, specHeaderValueConnection) {
 				err = ErrHandshakeBadConnection
 			}
 		case headerSecVersionCanonical:
-- 
2.43.0


From f2c0a47b05375855c574c45a22caf5a286575d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:57 +0000
Subject: [PATCH 18/23] fix: start idle timers where connections are accepted

Creating the connection in its loop made all loops add timers at once,
and the timing wheel then builds an overflow wheel for each of them.
---
 connection.go | 14 ++++++++++++--
 server.go     |  8 +++++---
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/connection.go b/connection.go
index 6a494b0..54ab845 100644
--- a/connection.go
+++ b/connection.go
@@ -73,8 +73,6 @@ func NewConnection(fd int,
 
 	if conn.idleTime > 0 {
 		_ = conn.activeTime.Swap(time.Now().UnixNano())
-		timer := conn.timingWheel.AfterFunc(conn.idleTime, conn.closeTimeoutConn())
-		conn.timer.Store(timer)
 	}
 
 	return conn
@@ -84,6 +82,18 @@ func (c *Connection) UserBuffer() *[]byte {
 	return c.loop.UserBuffer
 }
 
+func (c *Connection) startIdleTimer() {
+	if c.idleTime <= 0 {
+		return
+	}
+
+	timer := c.timingWheel.AfterFunc(c.idleTime, c.closeTimeoutConn())
+	c.timer.Store(timer)
+	if !c.connected.Get() {
+		timer.Stop()
+	}
+}
+
 func (c *Connection) closeTimeoutConn() func() {
 	return func() {
 		if !c.connected.Get() {
diff --git a/server.go b/server.go
index ea8db5a..3703088 100644
--- a/server.go
+++ b/server.go
@@ -84,16 +84,18 @@ func (s *Server) RunEvery(d time.Duration, f func()) *timingwheel.Timer {
 func (s *Server) handleNewConnection(fd int, sa unix.Sockaddr) {
 	loop := s.opts.Strategy(s.workLoops)
 
-	loop.QueueInLoop(func() {
-		// created in the loop: its idle timer must not close it before OnConnect
-		c := NewConnection(fd, loop, sa, s.opts.Protocol, s.timingWheel, s.opts.IdleTime, s.callback)
+	c := NewConnection(fd, loop, sa, s.opts.Protocol, s.timingWheel, s.opts.IdleTime, s.callback)
 
+	loop.QueueInLoop(func() {
 		s.callback.OnConnect(c)
 		if err := loop.AddSocketAndEnableRead(fd, c); err != nil {
 			log.Error("[AddSocketAndEnableRead]", err)
 			c.handleClose(fd)
 		}
 	})
+
+	// only now: it must not close the connection before OnConnect
+	c.startIdleTimer()
 }
 
 // Start 启动 Server
-- 
2.43.0


From d5ec8975b729c44b6d49d46baf561e82d98b7ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 19/23] fix: a loop must not poll for input while output is
 blocked

With output pending a connection reads nothing, but stayed registered for
input: as soon as its peer had sent anything the loop spun until the output
was flushed, and every turn counted as activity, so the idle timeout never
closed a peer which sends but does not read.

Register for writability only until the output is flushed. The kqueue poller
needs to remember a changed registration for that, it did so only on errors.
---
 connection.go          |  3 ++-
 eventloop/eventloop.go |  5 +++++
 poller/kqueue.go       | 20 ++++++++++++++++++--
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/connection.go b/connection.go
index 54ab845..0fbbb10 100644
--- a/connection.go
+++ b/connection.go
@@ -362,7 +362,8 @@ func (c *Connection) sendInLoop(data []byte) (closed bool) {
 		}
 
 		if !c.outBuffer.IsEmpty() {
-			_ = c.loop.EnableReadWrite(c.fd)
+			// nothing is read until the output is flushed
+			_ = c.loop.EnableWrite(c.fd)
 		}
 	}
 
diff --git a/eventloop/eventloop.go b/eventloop/eventloop.go
index 478af54..2949548 100644
--- a/eventloop/eventloop.go
+++ b/eventloop/eventloop.go
@@ -106,6 +106,11 @@ func (l *EventLoop) EnableReadWrite(fd int) error {
 	return l.poll.EnableReadWrite(fd)
 }
 
+// EnableWrite 只注册可写事件
+func (l *EventLoop) EnableWrite(fd int) error {
+	return l.poll.EnableWrite(fd)
+}
+
 // EnableRead 只注册可读事件
 func (l *EventLoop) EnableRead(fd int) error {
 	return l.poll.EnableRead(fd)
diff --git a/poller/kqueue.go b/poller/kqueue.go
index 4f8382c..e95c507 100644
--- a/poller/kqueue.go
+++ b/poller/kqueue.go
@@ -106,7 +106,23 @@ func (p *Poller) EnableReadWrite(fd int) error {
 	newEvents := EventWrite | EventRead
 	kEvents := p.kEvents(oldEvents.(Event), newEvents, fd)
 	_, err := unix.Kevent(p.fd, kEvents, nil, nil)
-	if err != nil {
+	if err == nil {
+		p.sockets.Store(fd, newEvents)
+	}
+	return err
+}
+
+// EnableWrite 修改fd注册事件为可写事件
+func (p *Poller) EnableWrite(fd int) error {
+	oldEvents, ok := p.sockets.Load(fd)
+	if !ok {
+		return errors.New("sync map load error")
+	}
+
+	newEvents := EventWrite
+	kEvents := p.kEvents(oldEvents.(Event), newEvents, fd)
+	_, err := unix.Kevent(p.fd, kEvents, nil, nil)
+	if err == nil {
 		p.sockets.Store(fd, newEvents)
 	}
 	return err
@@ -122,7 +138,7 @@ func (p *Poller) EnableRead(fd int) error {
 	newEvents := EventRead
 	kEvents := p.kEvents(oldEvents.(Event), newEvents, fd)
 	_, err := unix.Kevent(p.fd, kEvents, nil, nil)
-	if err != nil {
+	if err == nil {
 		p.sockets.Store(fd, newEvents)
 	}
 	return err
-- 
2.43.0


From c079408265e397493ac6c980b76da27fc917564c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:21 +0000
Subject: [PATCH 20/23] fix: setting the wall clock forward must not close
 active connections

---
 connection.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/connection.go b/connection.go
index 0fbbb10..15a87a7 100644
--- a/connection.go
+++ b/connection.go
@@ -49,6 +49,13 @@ type Connection struct {
 
 var ErrConnectionClosed = errors.New("connection closed")
 
+var clockBase = time.Now()
+
+// monotonicNow does not jump when the wall clock is set
+func monotonicNow() int64 {
+	return int64(time.Since(clockBase))
+}
+
 // NewConnection 创建 Connection
 func NewConnection(fd int,
 	loop *eventloop.EventLoop,
@@ -72,7 +79,7 @@ func NewConnection(fd int,
 	conn.connected.Set(true)
 
 	if conn.idleTime > 0 {
-		_ = conn.activeTime.Swap(time.Now().UnixNano())
+		_ = conn.activeTime.Swap(monotonicNow())
 	}
 
 	return conn
@@ -106,8 +113,7 @@ func (c *Connection) closeTimeoutConn() func() {
 				return
 			}
 
-			now := time.Now()
-			intervals := now.Sub(time.Unix(0, c.activeTime.Get()))
+			intervals := time.Duration(monotonicNow() - c.activeTime.Get())
 			if intervals >= c.idleTime {
 				c.handleClose(c.fd)
 			} else {
@@ -210,7 +216,7 @@ func (c *Connection) WriteBufferLength() int64 {
 // HandleEvent 内部使用，event loop 回调
 func (c *Connection) HandleEvent(fd int, events poller.Event) {
 	if c.idleTime > 0 {
-		_ = c.activeTime.Swap(time.Now().UnixNano())
+		_ = c.activeTime.Swap(monotonicNow())
 	}
 
 	if events&poller.EventErr != 0 {
-- 
2.43.0


From 60a7d0a275018bc464237130286529bdbb763445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:00 +0000
Subject: [PATCH 21/23] fix: Poller.Wake wrote to its descriptor number after
 Close, which may belong to another server or connection by then

---
 poller/epoll.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/poller/epoll.go b/poller/epoll.go
index e8baaaf..e494b97 100644
--- a/poller/epoll.go
+++ b/poller/epoll.go
@@ -4,6 +4,7 @@ package poller
 
 import (
 	"runtime"
+	"sync"
 
 	"github.com/Allenxuxu/gev/log"
 	"github.com/Allenxuxu/toolkit/sync/atomic"
@@ -20,6 +21,9 @@ type Poller struct {
 	buf      []byte
 	running  atomic.Bool
 	waitDone chan struct{}
+
+	mu     sync.RWMutex // protects closed
+	closed bool
 }
 
 // Create 创建Poller
@@ -58,6 +62,13 @@ var wakeBytes = []byte{1, 0, 0, 0, 0, 0, 0, 0}
 
 // Wake 唤醒 epoll
 func (ep *Poller) Wake() error {
+	// once closed, the descriptor number may belong to something else
+	ep.mu.RLock()
+	defer ep.mu.RUnlock()
+	if ep.closed {
+		return ErrClosed
+	}
+
 	_, err := unix.Write(ep.eventFd, wakeBytes)
 	return err
 }
@@ -80,13 +91,16 @@ func (ep *Poller) Close() (err error) {
 	}
 
 	<-ep.waitDone
-	_ = unix.Close(ep.fd)
-	_ = unix.Close(ep.eventFd)
+	ep.Release()
 	return
 }
 
 // Release 释放从未运行过的 Poller 占用的资源
 func (ep *Poller) Release() {
+	ep.mu.Lock()
+	defer ep.mu.Unlock()
+
+	ep.closed = true
 	_ = unix.Close(ep.fd)
 	_ = unix.Close(ep.eventFd)
 }
-- 
2.43.0


From 1caea34f73ccc6d43666ecf02bf92c797c7437b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:00 +0000
Subject: [PATCH 22/23] fix: Server.Stop never returned when the timing wheel
 was stopped while it moved timers

---
 server.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 3703088..1db24ea 100644
--- a/server.go
+++ b/server.go
@@ -133,7 +133,18 @@ func (s *Server) Stop() {
 		}
 
 		// after the loops: adding a timer to a stopped wheel can block for ever
-		s.timingWheel.Stop()
+		stopped := make(chan struct{})
+		go func() {
+			s.timingWheel.Stop()
+			close(stopped)
+		}()
+
+		// the same can happen to the wheel itself, while it moves timers
+		select {
+		case <-stopped:
+		case <-time.After(time.Second):
+			log.Error("[Stop] the timing wheel did not stop")
+		}
 	}
 
 }
-- 
2.43.0


From 3bf55f302e6d577d442209e52064fe7ed436116b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:00 +0000
Subject: [PATCH 23/23] fix: an idle timer re-armed itself over and over during
 the last tick before it was due

---
 connection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/connection.go b/connection.go
index 15a87a7..d1d2d90 100644
--- a/connection.go
+++ b/connection.go
@@ -117,7 +117,7 @@ func (c *Connection) closeTimeoutConn() func() {
 			if intervals >= c.idleTime {
 				c.handleClose(c.fd)
 			} else {
-				timer := c.timingWheel.AfterFunc(c.idleTime-intervals, c.closeTimeoutConn())
+				timer := c.timingWheel.AfterFunc(c.idleTime-intervals+time.Millisecond, c.closeTimeoutConn())
 				c.timer.Store(timer)
 			}
 		})
-- 
2.43.0

