From 1c7189d08a1947084447b272f3831c98661505b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:43 +0000
Subject: [PATCH 01/38] fix: guard the serializer registry, hubs and docks
 starting together wrote it concurrently

---
 network/API.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/network/API.go b/network/API.go
index c33d905..7de8bf9 100644
--- a/network/API.go
+++ b/network/API.go
@@ -70,7 +70,9 @@ func NewSocket(addr string, serializer string, sink ISocketSink) ISocket {
 	})
 	s := new(socket)
 	s.addr = addr
+	serializersMutex.Lock()
 	s.serializer = serializers[serializer]
+	serializersMutex.Unlock()
 	s.sink = sink
 
 	return s
@@ -84,10 +86,14 @@ func Mock(network string) {
 
 // ExtendSerializer extend serializer type with name and handling object.
 func ExtendSerializer(name string, serializer ISerializer) {
+	serializersMutex.Lock()
 	serializers[name] = serializer
+	serializersMutex.Unlock()
 }
 
 var (
+	serializersMutex sync.Mutex
+
 	serializers map[string]ISerializer = make(map[string]ISerializer)
 	once        sync.Once
 )
-- 
2.43.0


From 17c8417c6e822f300f9c6bada5f4b8344188f76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:24 +0000
Subject: [PATCH 02/38] fix: guard the instance list and track an instance
 before it runs, so that Close reaches all of them

---
 ferry.go   |  2 ++
 runtime.go | 18 ++++++++++++++----
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/ferry.go b/ferry.go
index b042456..957093a 100644
--- a/ferry.go
+++ b/ferry.go
@@ -32,6 +32,7 @@ type ISlot interface {
 // all features running in this dock.
 func Startup(hubAddr string, dockName string, slots ...ISlot) {
 	dock := newDock(dockName, slots...)
+	track(dock)
 	dock.run(hubAddr)
 	wait(dock)
 }
@@ -39,6 +40,7 @@ func Startup(hubAddr string, dockName string, slots ...ISlot) {
 // Serve run a hub with addr, black list for ports to avoid allocing to docks.
 func Serve(hubAddr string, blackPorts ...int) {
 	hub := newHub()
+	track(hub)
 	hub.run(hubAddr, blackPorts...)
 	wait(hub)
 }
diff --git a/runtime.go b/runtime.go
index 80428ab..4589756 100644
--- a/runtime.go
+++ b/runtime.go
@@ -8,17 +8,23 @@ import (
 	"log"
 	"os"
 	"os/signal"
+	"sync"
 )
 
 type instance interface {
 	Close()
 }
 
+var instsMutex sync.Mutex
 var insts []instance = make([]instance, 0)
 
-func wait(inst instance) {
+func track(inst instance) {
+	instsMutex.Lock()
 	insts = append(insts, inst)
+	instsMutex.Unlock()
+}
 
+func wait(inst instance) {
 	c := make(chan os.Signal, 1)
 	signal.Notify(c, os.Interrupt, os.Kill)
 	sig := <-c
@@ -27,8 +33,12 @@ func wait(inst instance) {
 }
 
 func destroy() {
-	for i := len(insts) - 1; i >= 0; i-- {
-		insts[i].Close()
+	instsMutex.Lock()
+	closing := insts
+	insts = nil
+	instsMutex.Unlock()
+
+	for i := len(closing) - 1; i >= 0; i-- {
+		closing[i].Close()
 	}
-	insts = insts[:0]
 }
-- 
2.43.0


From 4f88b8a40dee48cdcd658e9de531304035849dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 03/38] fix: peer.Send checked for room and then sent, two
 senders could block forever on a full backlog

---
 network/peer.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/network/peer.go b/network/peer.go
index d7fae50..2eb5554 100644
--- a/network/peer.go
+++ b/network/peer.go
@@ -52,11 +52,11 @@ func (p *peer) RemoteAddr() net.Addr {
 }
 
 func (p *peer) Send(obj interface{}) {
-	if len(p.sendPackets) == cap(p.sendPackets) {
-		return
+	// The packet is dropped if the backlog is full: never block the caller.
+	select {
+	case p.sendPackets <- obj:
+	default:
 	}
-
-	p.sendPackets <- obj
 }
 
 func (p *peer) run() {
-- 
2.43.0


From 443e65fd7eecf9dd2620bfe4128c1f75f429c4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:28 +0000
Subject: [PATCH 04/38] fix: guard the state of sockets and peers, tell the
 sink when the remote side closes, close connections accepted late

---
 network/peer.go   | 47 ++++++++++++++++++++++++++++-----
 network/socket.go | 66 +++++++++++++++++++++++++++++++++--------------
 2 files changed, 88 insertions(+), 25 deletions(-)

diff --git a/network/peer.go b/network/peer.go
index 2eb5554..ca749c4 100644
--- a/network/peer.go
+++ b/network/peer.go
@@ -34,6 +34,9 @@ type peer struct {
 	serializer  ISerializer
 	sink        ISocketSink
 	self        bool
+	told        bool // the sink has been told of the connection
+	opening     bool // ... or is just being told of it
+	closed      bool
 	sendPackets chan interface{}
 	recvBytes   []byte
 	recvBuffer  *bytes.Buffer
@@ -59,6 +62,30 @@ func (p *peer) Send(obj interface{}) {
 	}
 }
 
+// open tells the sink of the connection; the peer may be closed meanwhile.
+func (p *peer) open() {
+	p.Lock()
+	if p.closed || nil == p.sink {
+		p.Unlock()
+		return
+	}
+	sink := p.sink
+	p.told = true
+	p.opening = true
+	p.Unlock()
+
+	sink.OnConnected(p)
+
+	p.Lock()
+	p.opening = false
+	closed := p.closed
+	p.Unlock()
+
+	if closed {
+		sink.OnClosed(p)
+	}
+}
+
 func (p *peer) run() {
 	// Send routine
 	go func() {
@@ -81,6 +108,8 @@ func (p *peer) run() {
 		for {
 			size, err := p.conn.Read(p.recvBytes)
 			if nil != err {
+				// Remote closed, or closed by myself.
+				p.close()
 				break
 			}
 
@@ -92,8 +121,11 @@ func (p *peer) run() {
 				}
 
 				obj := p.serializer.Unmarshal(slice)
-				if nil != p.sink {
-					p.sink.OnPacket(p, obj)
+				p.Lock()
+				sink := p.sink
+				p.Unlock()
+				if nil != sink {
+					sink.OnPacket(p, obj)
 				}
 			}
 		}
@@ -102,13 +134,16 @@ func (p *peer) run() {
 
 func (p *peer) close() {
 	p.Lock()
-	defer p.Unlock()
+	sink := p.sink
+	told := !p.closed && p.told && !p.opening
+	p.closed = true
+	p.sink = nil
+	p.Unlock()
 
 	p.Send(nil)
 
-	if nil != p.sink {
-		p.sink.OnClosed(p)
-		p.sink = nil
+	if nil != sink && told {
+		sink.OnClosed(p)
 	}
 
 	p.conn.Close()
diff --git a/network/socket.go b/network/socket.go
index be2a02a..06fa893 100644
--- a/network/socket.go
+++ b/network/socket.go
@@ -7,6 +7,7 @@ package network
 import (
 	"log"
 	"net"
+	"sync"
 )
 
 type socket struct {
@@ -15,7 +16,9 @@ type socket struct {
 	addr       string
 	listener   net.Listener
 	serializer ISerializer
+	mutex      sync.Mutex // guards listener, peers and closed
 	peers      []*peer
+	closed     bool
 }
 
 func (s *socket) Listen() {
@@ -26,27 +29,32 @@ func (s *socket) Listen() {
 		return
 	}
 
-	s.listener, err = s.net.Listen("tcp", s.addr)
+	listener, err := s.net.Listen("tcp", s.addr)
 	if nil != err {
 		log.Fatal(err)
 		return
 	}
 
+	s.mutex.Lock()
+	s.listener = listener
+	closed := s.closed
+	s.mutex.Unlock()
+	if closed {
+		listener.Close()
+		return
+	}
+
 	go func() {
 		for {
-			conn, err := s.listener.Accept()
+			conn, err := listener.Accept()
 			if nil != err {
 				log.Println(err)
 				return
 			}
 
 			peer := newPeer(conn, s.serializer, s.sink, false)
-			s.peers = append(s.peers, peer)
-
-			if nil != s.sink {
-				s.sink.OnConnected(peer)
-			}
-
+			s.add(peer)
+			peer.open()
 			peer.run()
 		}
 	}()
@@ -72,29 +80,49 @@ func (s *socket) Dial() {
 	}
 
 	peer := newPeer(conn, s.serializer, s.sink, true)
-	s.peers = append(s.peers, peer)
-
-	if nil != s.sink {
-		s.sink.OnConnected(peer)
-	}
-
+	s.add(peer)
+	peer.open()
 	peer.run()
 }
 
 func (s *socket) Close() {
+	s.mutex.Lock()
+	s.closed = true
+	listener := s.listener
+	peers := s.peers
+	s.peers = nil
+	s.mutex.Unlock()
+
 	// NOTE: Only close listener, but not set to nil
-	if nil != s.listener {
-		s.listener.Close()
+	if nil != listener {
+		listener.Close()
 	}
 
-	for _, peer := range s.peers {
+	for _, peer := range peers {
 		peer.close()
 	}
-	s.peers = nil
 }
 
 func (s *socket) Send(obj interface{}) {
-	for _, peer := range s.peers {
+	s.mutex.Lock()
+	peers := s.peers
+	s.mutex.Unlock()
+
+	for _, peer := range peers {
 		peer.Send(obj)
 	}
 }
+
+// add keeps the peer, or closes it if the socket is closed already.
+func (s *socket) add(peer *peer) {
+	s.mutex.Lock()
+	closed := s.closed
+	if !closed {
+		s.peers = append(s.peers, peer)
+	}
+	s.mutex.Unlock()
+
+	if closed {
+		peer.close()
+	}
+}
-- 
2.43.0


From 82ab29b4605084d0406918a39f9f72b9b1688b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:28 +0000
Subject: [PATCH 05/38] fix: two remote calls started in the same clock tick
 shared one index and lost a response

---
 rpc.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rpc.go b/rpc.go
index 7c172c9..0d4d3e1 100644
--- a/rpc.go
+++ b/rpc.go
@@ -5,11 +5,14 @@
 package ferry
 
 import (
-	"time"
+	"sync/atomic"
 )
 
+var lastIndex int64
+
 func newRpc() *rpc {
-	return &rpc{index: time.Now().UnixNano(), req: nil, ret: make(chan *ret, 1)}
+	// The clock may give two calls the same value.
+	return &rpc{index: atomic.AddInt64(&lastIndex, 1), req: nil, ret: make(chan *ret, 1)}
 }
 
 type rpc struct {
-- 
2.43.0


From b721fdcd5a6c4c2e9d16e821c8d97a2f930e82bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:42 +0000
Subject: [PATCH 06/38] fix: let a dock survive that another dock is gone when
 it dials (TryDial)

---
 network/API.go    |  4 ++++
 network/socket.go | 18 +++++++++++++-----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/network/API.go b/network/API.go
index 7de8bf9..78012c7 100644
--- a/network/API.go
+++ b/network/API.go
@@ -29,6 +29,10 @@ type ISocket interface {
 	// Dial to target socket.
 	Dial()
 
+	// TryDial dials to target socket like Dial, but leaves it to the
+	// caller what to do if that fails.
+	TryDial() error
+
 	// Close the socket.
 	Close()
 
diff --git a/network/socket.go b/network/socket.go
index 06fa893..5d9a534 100644
--- a/network/socket.go
+++ b/network/socket.go
@@ -61,28 +61,36 @@ func (s *socket) Listen() {
 }
 
 func (s *socket) Dial() {
+	err := s.TryDial()
+	if nil != err {
+		log.Fatal(err)
+		return
+	}
+}
+
+func (s *socket) TryDial() error {
 	if nil == s.sink {
 		log.Fatal("Please call Init first!")
-		return
+		return nil
 	}
 
 	var err error
 	s.net, err = makeNet("tcp")
 	if nil != err {
-		log.Fatal(err)
-		return
+		return err
 	}
 
 	conn, err := s.net.Dial("tcp", s.addr)
 	if nil != err {
-		log.Fatal(err)
-		return
+		return err
 	}
 
 	peer := newPeer(conn, s.serializer, s.sink, true)
 	s.add(peer)
 	peer.open()
 	peer.run()
+
+	return nil
 }
 
 func (s *socket) Close() {
-- 
2.43.0


From 264775d6614fe216b195adb45144216e8b793b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:43 +0000
Subject: [PATCH 07/38] fix: a dock took a wrong socket for its hub, lost
 sockets or crashed when it was answered early or closed

---
 dock.go | 59 +++++++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 51 insertions(+), 8 deletions(-)

diff --git a/dock.go b/dock.go
index 7039e6e..e8087c3 100644
--- a/dock.go
+++ b/dock.go
@@ -33,7 +33,9 @@ func newDock(name string, slots ...ISlot) *dock {
 
 type dock struct {
 	name             string
+	socketsMutex     sync.Mutex
 	sockets          []network.ISocket // socket at index 0 is hub.
+	closed           bool
 	slots            map[string]*slot
 	remoteSlotsMutex sync.Mutex
 	remoteSlots      map[string]network.IPeer
@@ -46,10 +48,29 @@ func (d *dock) Close() {
 	}
 	d.slots = nil
 
-	for i := len(d.sockets) - 1; i >= 0; i-- {
-		d.sockets[i].Close()
+	d.socketsMutex.Lock()
+	sockets := d.sockets
+	d.sockets = nil
+	d.closed = true
+	d.socketsMutex.Unlock()
+
+	for i := len(sockets) - 1; i >= 0; i-- {
+		sockets[i].Close()
+	}
+}
+
+// keep remembers the socket to be closed with the dock, and tells if the dock is
+// still open.
+func (d *dock) keep(socket network.ISocket) bool {
+	d.socketsMutex.Lock()
+	defer d.socketsMutex.Unlock()
+
+	if d.closed {
+		return false
 	}
-	d.sockets = d.sockets[:0]
+	d.sockets = append(d.sockets, socket)
+
+	return true
 }
 
 func (d *dock) OnConnected(peer network.IPeer) {
@@ -118,8 +139,10 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 			resp := pack.P.(*protoRegisterResponse)
 			listenAddr := fmt.Sprintf("0.0.0.0:%d", resp.Port)
 			socket := network.NewSocket(listenAddr, "ferry", d)
+			if !d.keep(socket) {
+				return
+			}
 			socket.Listen()
-			d.sockets = append(d.sockets, socket)
 
 			// Send DockReadyRequest to Hub.
 			peer.Send(&packer{
@@ -135,8 +158,12 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 		{
 			resp := pack.P.(*protoQueryResponse)
 			socket := network.NewSocket(resp.DockAddr, "ferry", d)
-			socket.Dial()
-			d.sockets = append(d.sockets, socket)
+			if !d.keep(socket) {
+				return
+			}
+			if err := socket.TryDial(); nil != err {
+				log.Println(err)
+			}
 		}
 	case cRpcRequest:
 		{
@@ -199,9 +226,12 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 func (d *dock) run(hubAddr string) {
 	network.ExtendSerializer("ferry", newSerializer())
 
+	// The hub may answer before Dial returns.
 	socket := network.NewSocket(hubAddr, "ferry", d)
+	if !d.keep(socket) {
+		return
+	}
 	socket.Dial()
-	d.sockets = append(d.sockets, socket)
 }
 
 func (d *dock) collect() []string {
@@ -255,7 +285,20 @@ func (d *dock) commit(rpc *rpc) {
 		})
 		rpc.req = nil
 	} else {
-		d.sockets[0].Send(&packer{
+		d.socketsMutex.Lock()
+		closed := d.closed
+		var hub network.ISocket
+		if !closed {
+			hub = d.sockets[0]
+		}
+		d.socketsMutex.Unlock()
+		if closed {
+			rpc.req = nil
+			rpc.callback(&ret{err: errors.New("Dock is closed!")})
+			return
+		}
+
+		hub.Send(&packer{
 			Id: cQueryRequest,
 			P: &protoQueryRequest{
 				Slot: rpc.req.Slot,
-- 
2.43.0


From c3b04202bdb6305d4aabe221e4fc85e31d44d15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:43 +0000
Subject: [PATCH 08/38] fix: guard the pending remote calls of a dock

---
 dock.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/dock.go b/dock.go
index e8087c3..9dc67ea 100644
--- a/dock.go
+++ b/dock.go
@@ -37,7 +37,7 @@ type dock struct {
 	sockets          []network.ISocket // socket at index 0 is hub.
 	closed           bool
 	slots            map[string]*slot
-	remoteSlotsMutex sync.Mutex
+	remoteSlotsMutex sync.Mutex // guards remoteSlots, rpcs and what they wait for
 	remoteSlots      map[string]network.IPeer
 	rpcs             map[int64]*rpc
 }
@@ -105,11 +105,18 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 			// Check if there is a RPC waiting for this Dock.
 			resp := pack.P.(*protoReady)
 			for _, slot := range resp.Slots {
+				waiting := make([]*rpc, 0)
+				d.remoteSlotsMutex.Lock()
 				for _, r := range d.rpcs {
 					if r.req != nil && r.req.Slot == slot {
-						d.commit(r)
+						waiting = append(waiting, r)
 					}
 				}
+				d.remoteSlotsMutex.Unlock()
+
+				for _, r := range waiting {
+					d.commit(r)
+				}
 			}
 		}
 	// Handle Dock RegisterRequest.
@@ -203,7 +210,10 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 	case cRpcResponse:
 		{
 			resp := pack.P.(*protoRpcResponse)
+			d.remoteSlotsMutex.Lock()
 			rpc := d.rpcs[resp.Index]
+			delete(d.rpcs, resp.Index)
+			d.remoteSlotsMutex.Unlock()
 			if nil != rpc {
 				go func() {
 					rpc.callback(&ret{
@@ -216,7 +226,6 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 							return nil
 						}(),
 					})
-					delete(d.rpcs, resp.Index)
 				}()
 			}
 		}
@@ -257,7 +266,6 @@ func (d *dock) call(name string, method string, args ...interface{}) error {
 		return chancall.NewCaller(target.callee).Call(method, args...)
 	} else {
 		rpc := newRpc()
-		d.rpcs[rpc.index] = rpc
 		return rpc.call(d, name, method, args...)
 	}
 }
@@ -268,7 +276,6 @@ func (d *dock) callWithResult(name string, method string, args ...interface{}) (
 		return chancall.NewCaller(target.callee).CallWithResult(method, args...)
 	} else {
 		rpc := newRpc()
-		d.rpcs[rpc.index] = rpc
 		return rpc.callWithResult(d, name, method, args...)
 	}
 }
@@ -277,6 +284,12 @@ func (d *dock) commit(rpc *rpc) {
 	d.remoteSlotsMutex.Lock()
 	defer d.remoteSlotsMutex.Unlock()
 
+	// Already sent by another goroutine.
+	if nil == rpc.req {
+		return
+	}
+	d.rpcs[rpc.index] = rpc
+
 	peer, ok := d.remoteSlots[rpc.req.Slot]
 	if ok {
 		peer.Send(&packer{
@@ -294,6 +307,7 @@ func (d *dock) commit(rpc *rpc) {
 		d.socketsMutex.Unlock()
 		if closed {
 			rpc.req = nil
+			delete(d.rpcs, rpc.index)
 			rpc.callback(&ret{err: errors.New("Dock is closed!")})
 			return
 		}
-- 
2.43.0


From 0c31af665a7454364725f246fc4d4fc02834ce45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:44 +0000
Subject: [PATCH 09/38] fix: guard the slots of a dock against Close

---
 dock.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/dock.go b/dock.go
index 9dc67ea..a706dca 100644
--- a/dock.go
+++ b/dock.go
@@ -36,6 +36,7 @@ type dock struct {
 	socketsMutex     sync.Mutex
 	sockets          []network.ISocket // socket at index 0 is hub.
 	closed           bool
+	slotsMutex       sync.Mutex
 	slots            map[string]*slot
 	remoteSlotsMutex sync.Mutex // guards remoteSlots, rpcs and what they wait for
 	remoteSlots      map[string]network.IPeer
@@ -43,10 +44,12 @@ type dock struct {
 }
 
 func (d *dock) Close() {
-	for _, s := range d.slots {
+	for _, s := range d.carried() {
 		s.feature.OnDestroy(s)
 	}
+	d.slotsMutex.Lock()
 	d.slots = nil
+	d.slotsMutex.Unlock()
 
 	d.socketsMutex.Lock()
 	sockets := d.sockets
@@ -175,7 +178,7 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 	case cRpcRequest:
 		{
 			req := pack.P.(*protoRpcRequest)
-			target := d.slots[req.Slot]
+			target := d.find(req.Slot)
 			if nil != target {
 				go func() {
 					caller := chancall.NewCaller(target.callee)
@@ -245,7 +248,7 @@ func (d *dock) run(hubAddr string) {
 
 func (d *dock) collect() []string {
 	ids := make([]string, 0)
-	for id, v := range d.slots {
+	for id, v := range d.carried() {
 		if v.discoverable {
 			ids = append(ids, id)
 		}
@@ -254,14 +257,26 @@ func (d *dock) collect() []string {
 	return ids
 }
 
+// carried returns the slots, none if the dock is closed.
+func (d *dock) carried() map[string]*slot {
+	d.slotsMutex.Lock()
+	defer d.slotsMutex.Unlock()
+
+	return d.slots
+}
+
+func (d *dock) find(name string) *slot {
+	return d.carried()[name]
+}
+
 func (d *dock) start() {
-	for _, s := range d.slots {
+	for _, s := range d.carried() {
 		s.feature.OnStart(s)
 	}
 }
 
 func (d *dock) call(name string, method string, args ...interface{}) error {
-	target := d.slots[name]
+	target := d.find(name)
 	if nil != target {
 		return chancall.NewCaller(target.callee).Call(method, args...)
 	} else {
@@ -271,7 +286,7 @@ func (d *dock) call(name string, method string, args ...interface{}) error {
 }
 
 func (d *dock) callWithResult(name string, method string, args ...interface{}) ([]interface{}, error) {
-	target := d.slots[name]
+	target := d.find(name)
 	if nil != target {
 		return chancall.NewCaller(target.callee).CallWithResult(method, args...)
 	} else {
-- 
2.43.0


From 7f38f0ae0474a89e1d8b29006a346103e8dd086d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:49 +0000
Subject: [PATCH 10/38] fix: forget docks that are gone, calls were sent to
 them for ever

---
 dock.go |  8 ++++++++
 hub.go  | 13 ++++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/dock.go b/dock.go
index a706dca..9ff43fd 100644
--- a/dock.go
+++ b/dock.go
@@ -94,6 +94,14 @@ func (d *dock) OnConnected(peer network.IPeer) {
 }
 
 func (d *dock) OnClosed(peer network.IPeer) {
+	// Calls to come have to look for another dock.
+	d.remoteSlotsMutex.Lock()
+	for slot, p := range d.remoteSlots {
+		if p == peer {
+			delete(d.remoteSlots, slot)
+		}
+	}
+	d.remoteSlotsMutex.Unlock()
 }
 
 func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
diff --git a/hub.go b/hub.go
index df51a2c..a9e558d 100644
--- a/hub.go
+++ b/hub.go
@@ -55,7 +55,18 @@ func (h *hub) OnConnected(peer network.IPeer) {
 }
 
 func (h *hub) OnClosed(peer network.IPeer) {
-
+	// The dock is gone, do not send others to it.
+	h.docksMutex.Lock()
+	for _, stubs := range h.docks {
+		for i := stubs.Front(); i != nil; {
+			next := i.Next()
+			if i.Value.(*stub).peer == peer {
+				stubs.Remove(i)
+			}
+			i = next
+		}
+	}
+	h.docksMutex.Unlock()
 }
 
 func (h *hub) OnPacket(peer network.IPeer, obj interface{}) {
-- 
2.43.0


From e2d240aaa966b8222b409c8b54eca96ebc37b9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:58 +0000
Subject: [PATCH 11/38] fix: guard the docks a hub knows, lookups raced with
 registrations, and Close with both

---
 hub.go | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/hub.go b/hub.go
index a9e558d..87a84de 100644
--- a/hub.go
+++ b/hub.go
@@ -29,8 +29,9 @@ func newHub() *hub {
 
 type hub struct {
 	socket           network.ISocket
-	docksMutex       sync.Mutex
+	docksMutex       sync.Mutex // guards socket, docks and their stubs, and closed
 	docks            map[string]*list.List
+	closed           bool
 	assignPortsMutex sync.Mutex
 	assignPorts      map[string]int
 	blackPorts       map[int]bool
@@ -43,11 +44,16 @@ type stub struct {
 }
 
 func (h *hub) Close() {
-	h.socket.Close()
+	h.docksMutex.Lock()
+	socket := h.socket
 	h.socket = nil
 	h.docks = nil
-	h.assignPorts = nil
-	h.blackPorts = nil
+	h.closed = true
+	h.docksMutex.Unlock()
+
+	if nil != socket {
+		socket.Close()
+	}
 }
 
 func (h *hub) OnConnected(peer network.IPeer) {
@@ -82,6 +88,10 @@ func (h *hub) OnPacket(peer network.IPeer, obj interface{}) {
 			addr = fmt.Sprintf("%s:%d", addr, port)
 			for _, v := range req.Slots {
 				h.docksMutex.Lock()
+				if h.closed {
+					h.docksMutex.Unlock()
+					return
+				}
 				stubs, ok := h.docks[v]
 				if !ok {
 					stubs = list.New()
@@ -105,7 +115,6 @@ func (h *hub) OnPacket(peer network.IPeer, obj interface{}) {
 			for _, slot := range req.Slots {
 				h.docksMutex.Lock()
 				stubs, ok := h.docks[slot]
-				h.docksMutex.Unlock()
 				if ok {
 					for i := stubs.Front(); i != nil; i = i.Next() {
 						stub := i.Value.(*stub)
@@ -115,6 +124,7 @@ func (h *hub) OnPacket(peer network.IPeer, obj interface{}) {
 						}
 					}
 				}
+				h.docksMutex.Unlock()
 			}
 		}
 	case cQueryRequest:
@@ -123,19 +133,24 @@ func (h *hub) OnPacket(peer network.IPeer, obj interface{}) {
 				req := pack.P.(*protoQueryRequest)
 				for {
 					h.docksMutex.Lock()
+					if h.closed {
+						h.docksMutex.Unlock()
+						return
+					}
 					docks, ok := h.docks[req.Slot]
-					h.docksMutex.Unlock()
 					if ok {
 						// Loop from back to front, means the 'new' one will
 						// be serve at first.
 						for i := docks.Back(); i != nil; i = i.Prev() {
 							stub := i.Value.(*stub)
 							if stub.ready {
+								h.docksMutex.Unlock()
 								h.respondQueryImme(peer, stub.addr)
 								return
 							}
 						}
 					}
+					h.docksMutex.Unlock()
 				}
 			}()
 		}
@@ -149,8 +164,17 @@ func (h *hub) run(hubAddr string, blackPorts ...int) {
 
 	network.ExtendSerializer("seek", newSerializer())
 
-	h.socket = network.NewSocket(hubAddr, "seek", h)
-	h.socket.Listen()
+	socket := network.NewSocket(hubAddr, "seek", h)
+	h.docksMutex.Lock()
+	closed := h.closed
+	if !closed {
+		h.socket = socket
+	}
+	h.docksMutex.Unlock()
+	if closed {
+		return
+	}
+	socket.Listen()
 }
 
 func (h *hub) allocate(addr string) int {
-- 
2.43.0


From c30851b184a818ee3db04ee113fb290b411ea1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:38 +0000
Subject: [PATCH 12/38] fix: timeouts with a fraction of a second were cut to
 whole seconds

---
 chancall/callee.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chancall/callee.go b/chancall/callee.go
index f75d9e5..03d78c0 100644
--- a/chancall/callee.go
+++ b/chancall/callee.go
@@ -62,7 +62,7 @@ func (c *callee) result(request *callRequest, response *callResponse) (err error
 
 func track(request *callRequest, timeout float32) {
 	go func() {
-		time.Sleep(time.Duration(timeout) * time.Second)
+		time.Sleep(time.Duration(float64(timeout) * float64(time.Second)))
 		request.Lock()
 		{
 			if !request.done {
-- 
2.43.0


From ad8cb15b34267d963ce5348a9df67960c0d27042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:39 +0000
Subject: [PATCH 13/38] fix: setting a timeout raced with the calls of the
 feature

---
 chancall/meta.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/chancall/meta.go b/chancall/meta.go
index 24ba9d8..242070f 100644
--- a/chancall/meta.go
+++ b/chancall/meta.go
@@ -6,6 +6,7 @@ package chancall
 
 import (
 	"reflect"
+	"sync"
 )
 
 func newMeta(name string, target interface{}) *meta {
@@ -18,8 +19,9 @@ func newMeta(name string, target interface{}) *meta {
 }
 
 type meta struct {
-	name  string
-	funcs map[string]*fcall
+	name         string
+	funcs        map[string]*fcall
+	timeoutMutex sync.Mutex
 }
 
 type fcall struct {
@@ -64,6 +66,8 @@ func (m *meta) call(method string, args ...interface{}) []interface{} {
 func (m *meta) timeout(method string) float32 {
 	f := m.funcs[method]
 	if nil != f {
+		m.timeoutMutex.Lock()
+		defer m.timeoutMutex.Unlock()
 		return f.timeout
 	}
 
@@ -73,6 +77,8 @@ func (m *meta) timeout(method string) float32 {
 func (m *meta) setTimeout(method string, timeout float32) {
 	f := m.funcs[method]
 	if nil != f {
+		m.timeoutMutex.Lock()
+		defer m.timeoutMutex.Unlock()
 		f.timeout = timeout
 	}
 }
-- 
2.43.0


From 1a291c09df9b6161befadfd6a4f513172e67b84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:40 +0000
Subject: [PATCH 14/38] fix: a call of an unknown method, or with wrong
 arguments, crashed the callee or was taken as done

---
 chancall/callee.go |  4 ++--
 chancall/meta.go   | 52 ++++++++++++++++++++++++++++++++++++++++++----
 2 files changed, 50 insertions(+), 6 deletions(-)

diff --git a/chancall/callee.go b/chancall/callee.go
index 03d78c0..d7f4f14 100644
--- a/chancall/callee.go
+++ b/chancall/callee.go
@@ -34,8 +34,8 @@ func (c *callee) handling() {
 
 func (c *callee) process(request *callRequest) (err error) {
 	track(request, c.meta.timeout(request.method))
-	result := c.meta.call(request.method, request.args...)
-	return c.result(request, &callResponse{result: result})
+	result, err := c.meta.call(request.method, request.args...)
+	return c.result(request, &callResponse{result: result, err: err})
 }
 
 func (c *callee) result(request *callRequest, response *callResponse) (err error) {
diff --git a/chancall/meta.go b/chancall/meta.go
index 242070f..bb6a6b7 100644
--- a/chancall/meta.go
+++ b/chancall/meta.go
@@ -5,6 +5,7 @@
 package chancall
 
 import (
+	"fmt"
 	"reflect"
 	"sync"
 )
@@ -43,12 +44,24 @@ func (m *meta) collect(target interface{}) {
 	}
 }
 
-func (m *meta) call(method string, args ...interface{}) []interface{} {
+func (m *meta) call(method string, args ...interface{}) ([]interface{}, error) {
 	f := m.funcs[method]
 	if nil != f && f.fn.IsValid() {
 		params := make([]reflect.Value, 0)
 		for i, arg := range args {
-			params = append(params, reflect.ValueOf(arg).Convert(f.ft.In(i)))
+			t := f.in(i)
+			if nil == t {
+				return nil, fmt.Errorf("[%s] function call with too many arguments!", method)
+			}
+
+			param, err := convert(arg, t)
+			if nil != err {
+				return nil, fmt.Errorf("[%s] function call with wrong argument: %s", method, err.Error())
+			}
+			params = append(params, param)
+		}
+		if nil != f.in(len(args)) && !(f.ft.IsVariadic() && len(args) >= f.ft.NumIn()-1) {
+			return nil, fmt.Errorf("[%s] function call with not enough arguments!", method)
 		}
 		ret := f.fn.Call(params)
 
@@ -57,10 +70,41 @@ func (m *meta) call(method string, args ...interface{}) []interface{} {
 			result[i] = r.Interface()
 		}
 
-		return result
+		return result, nil
+	}
+
+	return nil, fmt.Errorf("[%s] function is not found!", method)
+}
+
+// in returns the type of the i-th argument, nil if the function takes less.
+func (f *fcall) in(i int) reflect.Type {
+	last := f.ft.NumIn() - 1
+	if f.ft.IsVariadic() && i >= last {
+		return f.ft.In(last).Elem()
+	} else if i > last {
+		return nil
+	}
+
+	return f.ft.In(i)
+}
+
+func convert(arg interface{}, t reflect.Type) (value reflect.Value, err error) {
+	if nil == arg {
+		switch t.Kind() {
+		case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Ptr, reflect.Slice:
+			return reflect.Zero(t), nil
+		}
+
+		return value, fmt.Errorf("Can't convert nil to %s!", t.String())
 	}
 
-	return nil
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("%v", r)
+		}
+	}()
+
+	return reflect.ValueOf(arg).Convert(t), nil
 }
 
 func (m *meta) timeout(method string) float32 {
-- 
2.43.0


From 2c5f25e402165db41aa62eebd889f00bcc985c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:13 +0000
Subject: [PATCH 15/38] fix: an argument or result that can't be encoded killed
 the whole process

---
 dock.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/dock.go b/dock.go
index 9ff43fd..47b9de7 100644
--- a/dock.go
+++ b/dock.go
@@ -7,10 +7,12 @@ package ferry
 import (
 	"errors"
 	"fmt"
+	"io/ioutil"
 	"log"
 	"sync"
 
 	"github.com/muguangyi/ferry/chancall"
+	"github.com/muguangyi/ferry/codec"
 	"github.com/muguangyi/ferry/network"
 )
 
@@ -197,6 +199,11 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 					} else {
 						err = caller.Call(req.Method, req.Args...)
 					}
+					if nil == err {
+						if err = sendable(result); nil != err {
+							result = nil
+						}
+					}
 
 					resp := &packer{
 						Id: cRpcResponse,
@@ -288,6 +295,9 @@ func (d *dock) call(name string, method string, args ...interface{}) error {
 	if nil != target {
 		return chancall.NewCaller(target.callee).Call(method, args...)
 	} else {
+		if err := sendable(args); nil != err {
+			return err
+		}
 		rpc := newRpc()
 		return rpc.call(d, name, method, args...)
 	}
@@ -298,11 +308,19 @@ func (d *dock) callWithResult(name string, method string, args ...interface{}) (
 	if nil != target {
 		return chancall.NewCaller(target.callee).CallWithResult(method, args...)
 	} else {
+		if err := sendable(args); nil != err {
+			return nil, err
+		}
 		rpc := newRpc()
 		return rpc.callWithResult(d, name, method, args...)
 	}
 }
 
+// sendable tells why the values can't be sent to another dock.
+func sendable(values []interface{}) error {
+	return codec.NewAny(values).Encode(ioutil.Discard)
+}
+
 func (d *dock) commit(rpc *rpc) {
 	d.remoteSlotsMutex.Lock()
 	defer d.remoteSlotsMutex.Unlock()
-- 
2.43.0


From 30f14e287260f36f88721811ba2c360f89116155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:51 +0000
Subject: [PATCH 16/38] fix: typed accessors cut integers silently, panicked on
 other slices and maps, and refused int and uint

---
 codec/any.go | 94 +++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 89 insertions(+), 5 deletions(-)

diff --git a/codec/any.go b/codec/any.go
index 6a93f5c..8253553 100644
--- a/codec/any.go
+++ b/codec/any.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"io"
 	"reflect"
+	"strconv"
 )
 
 type aType byte
@@ -28,6 +29,8 @@ const (
 	aFloat64 aType = 0x0d
 	aArr     aType = 0x0e
 	aMap     aType = 0x0f
+	aInt     aType = 0x10
+	aUint    aType = 0x11
 )
 
 type any struct {
@@ -56,6 +59,10 @@ func (a *any) String() (string, error) {
 }
 
 func (a *any) Int() (int, error) {
+	if !a.fits(strconv.IntSize) {
+		return -1, fmt.Errorf("%v is out of range of int!", a.s)
+	}
+
 	switch a.tp {
 	case aInt8:
 		return int(a.s.(int8)), nil
@@ -65,12 +72,18 @@ func (a *any) Int() (int, error) {
 		return int(a.s.(int32)), nil
 	case aInt64:
 		return int(a.s.(int64)), nil
+	case aInt:
+		return int(a.s.(int)), nil
 	}
 
 	return -1, fmt.Errorf("Can't convert %d to int!", a.tp)
 }
 
 func (a *any) Int8() (int8, error) {
+	if !a.fits(8) {
+		return -1, fmt.Errorf("%v is out of range of int8!", a.s)
+	}
+
 	switch a.tp {
 	case aInt8:
 		return int8(a.s.(int8)), nil
@@ -80,12 +93,18 @@ func (a *any) Int8() (int8, error) {
 		return int8(a.s.(int32)), nil
 	case aInt64:
 		return int8(a.s.(int64)), nil
+	case aInt:
+		return int8(a.s.(int)), nil
 	}
 
 	return -1, fmt.Errorf("Can't convert %d to int8!", a.tp)
 }
 
 func (a *any) Int16() (int16, error) {
+	if !a.fits(16) {
+		return -1, fmt.Errorf("%v is out of range of int16!", a.s)
+	}
+
 	switch a.tp {
 	case aInt8:
 		return int16(a.s.(int8)), nil
@@ -95,12 +114,18 @@ func (a *any) Int16() (int16, error) {
 		return int16(a.s.(int32)), nil
 	case aInt64:
 		return int16(a.s.(int64)), nil
+	case aInt:
+		return int16(a.s.(int)), nil
 	}
 
 	return -1, fmt.Errorf("Can't convert %d to int16!", a.tp)
 }
 
 func (a *any) Int32() (int32, error) {
+	if !a.fits(32) {
+		return -1, fmt.Errorf("%v is out of range of int32!", a.s)
+	}
+
 	switch a.tp {
 	case aInt8:
 		return int32(a.s.(int8)), nil
@@ -110,12 +135,18 @@ func (a *any) Int32() (int32, error) {
 		return int32(a.s.(int32)), nil
 	case aInt64:
 		return int32(a.s.(int64)), nil
+	case aInt:
+		return int32(a.s.(int)), nil
 	}
 
 	return -1, fmt.Errorf("Can't convert %d to int32!", a.tp)
 }
 
 func (a *any) Int64() (int64, error) {
+	if !a.fits(64) {
+		return -1, fmt.Errorf("%v is out of range of int64!", a.s)
+	}
+
 	switch a.tp {
 	case aInt8:
 		return int64(a.s.(int8)), nil
@@ -125,12 +156,18 @@ func (a *any) Int64() (int64, error) {
 		return int64(a.s.(int32)), nil
 	case aInt64:
 		return int64(a.s.(int64)), nil
+	case aInt:
+		return int64(a.s.(int)), nil
 	}
 
 	return -1, fmt.Errorf("Can't convert %d to int64!", a.tp)
 }
 
 func (a *any) Uint() (uint, error) {
+	if !a.fits(strconv.IntSize) {
+		return 0, fmt.Errorf("%v is out of range of uint!", a.s)
+	}
+
 	switch a.tp {
 	case aUint8:
 		return uint(a.s.(uint8)), nil
@@ -140,12 +177,18 @@ func (a *any) Uint() (uint, error) {
 		return uint(a.s.(uint32)), nil
 	case aUint64:
 		return uint(a.s.(uint64)), nil
+	case aUint:
+		return uint(a.s.(uint)), nil
 	}
 
 	return 0, fmt.Errorf("Can't convert %d to uint8!", a.tp)
 }
 
 func (a *any) Uint8() (uint8, error) {
+	if !a.fits(8) {
+		return 0, fmt.Errorf("%v is out of range of uint8!", a.s)
+	}
+
 	switch a.tp {
 	case aUint8:
 		return uint8(a.s.(uint8)), nil
@@ -155,12 +198,18 @@ func (a *any) Uint8() (uint8, error) {
 		return uint8(a.s.(uint32)), nil
 	case aUint64:
 		return uint8(a.s.(uint64)), nil
+	case aUint:
+		return uint8(a.s.(uint)), nil
 	}
 
 	return 0, fmt.Errorf("Can't convert %d to uint8!", a.tp)
 }
 
 func (a *any) Uint16() (uint16, error) {
+	if !a.fits(16) {
+		return 0, fmt.Errorf("%v is out of range of uint16!", a.s)
+	}
+
 	switch a.tp {
 	case aUint8:
 		return uint16(a.s.(uint8)), nil
@@ -170,12 +219,18 @@ func (a *any) Uint16() (uint16, error) {
 		return uint16(a.s.(uint32)), nil
 	case aUint64:
 		return uint16(a.s.(uint64)), nil
+	case aUint:
+		return uint16(a.s.(uint)), nil
 	}
 
 	return 0, fmt.Errorf("Can't convert %d to uint16!", a.tp)
 }
 
 func (a *any) Uint32() (uint32, error) {
+	if !a.fits(32) {
+		return 0, fmt.Errorf("%v is out of range of uint32!", a.s)
+	}
+
 	switch a.tp {
 	case aUint8:
 		return uint32(a.s.(uint8)), nil
@@ -185,12 +240,18 @@ func (a *any) Uint32() (uint32, error) {
 		return uint32(a.s.(uint32)), nil
 	case aUint64:
 		return uint32(a.s.(uint64)), nil
+	case aUint:
+		return uint32(a.s.(uint)), nil
 	}
 
 	return 0, fmt.Errorf("Can't convert %d to uint32!", a.tp)
 }
 
 func (a *any) Uint64() (uint64, error) {
+	if !a.fits(64) {
+		return 0, fmt.Errorf("%v is out of range of uint64!", a.s)
+	}
+
 	switch a.tp {
 	case aUint8:
 		return uint64(a.s.(uint8)), nil
@@ -200,6 +261,8 @@ func (a *any) Uint64() (uint64, error) {
 		return uint64(a.s.(uint32)), nil
 	case aUint64:
 		return uint64(a.s.(uint64)), nil
+	case aUint:
+		return uint64(a.s.(uint)), nil
 	}
 
 	return 0, fmt.Errorf("Can't convert %d to uint64!", a.tp)
@@ -229,7 +292,9 @@ func (a *any) Float64() (float64, error) {
 
 func (a *any) Arr() ([]interface{}, error) {
 	if aArr == a.tp {
-		return a.s.([]interface{}), nil
+		if arr, ok := a.s.([]interface{}); ok {
+			return arr, nil
+		}
 	}
 
 	return nil, fmt.Errorf("Can't convert %d to array!", a.tp)
@@ -237,7 +302,9 @@ func (a *any) Arr() ([]interface{}, error) {
 
 func (a *any) Map() (map[interface{}]interface{}, error) {
 	if aMap == a.tp {
-		return a.s.(map[interface{}]interface{}), nil
+		if dict, ok := a.s.(map[interface{}]interface{}); ok {
+			return dict, nil
+		}
 	}
 
 	return nil, fmt.Errorf("Can't convert %d to map!", a.tp)
@@ -260,11 +327,24 @@ func (a *any) Decode(reader io.Reader) error {
 	return nil
 }
 
-func (a *any) normalize() {
-	if nil == a.s {
-		a.tp = aNil
+// fits tells if the source value, when it's an integer, can be held with bits.
+func (a *any) fits(bits uint) bool {
+	v := reflect.ValueOf(a.s)
+	switch v.Kind() {
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		high := v.Int() >> (bits - 1)
+		return 0 == high || -1 == high
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		return 0 == v.Uint()>>(bits-1)>>1
 	}
 
+	return true
+}
+
+func (a *any) normalize() {
+	// Forget the previous type.
+	a.tp = aNil
+
 	switch a.s.(type) {
 	case bool:
 		a.tp = aBool
@@ -286,6 +366,10 @@ func (a *any) normalize() {
 		a.tp = aInt64
 	case uint64:
 		a.tp = aUint64
+	case int:
+		a.tp = aInt
+	case uint:
+		a.tp = aUint
 	case float32:
 		a.tp = aFloat32
 	case float64:
-- 
2.43.0


From 8117bd982409eed2d8fa6ef1ab5b448067d100e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:03 +0000
Subject: [PATCH 17/38] fix: a failed Decode left the type of the previous
 value, the accessor of it panicked

---
 codec/any.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codec/any.go b/codec/any.go
index 8253553..232c5c5 100644
--- a/codec/any.go
+++ b/codec/any.go
@@ -316,12 +316,12 @@ func (a *any) Encode(writer io.Writer) error {
 }
 
 func (a *any) Decode(reader io.Reader) error {
-	var err error
-	a.s, err = decode(reader)
+	value, err := decode(reader)
 	if err != nil {
 		return err
 	}
 
+	a.s = value
 	a.normalize()
 
 	return nil
-- 
2.43.0


From 0cb92a047a75eab62a721ff4b8eb77ae438ece47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:03 +0000
Subject: [PATCH 18/38] fix: decoding took a short read for a whole value

---
 codec/code.go    |  2 ++
 codec/decoder.go | 36 +++++++++++++++++++++++++++---------
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/codec/code.go b/codec/code.go
index e7320a6..c2a0ac1 100644
--- a/codec/code.go
+++ b/codec/code.go
@@ -43,6 +43,8 @@ const (
 	cInt32Size = 4
 	cInt64Size = 8
 
+	cTrustSize = 4096 // reserve no more than it for a length that came without data
+
 	cUint8Max  = 2 << (8 - 1)
 	cUint16Max = 2 << (16 - 1)
 	cUint32Max = 2 << (32 - 1)
diff --git a/codec/decoder.go b/codec/decoder.go
index 2549b35..a0cef8a 100644
--- a/codec/decoder.go
+++ b/codec/decoder.go
@@ -14,7 +14,7 @@ import (
 
 func readByte(reader io.Reader) (byte, error) {
 	var data bytes1
-	_, err := reader.Read(data[0:])
+	_, err := io.ReadFull(reader, data[0:])
 	if nil != err {
 		return 0, err
 	}
@@ -24,7 +24,7 @@ func readByte(reader io.Reader) (byte, error) {
 
 func readUint16(reader io.Reader) (uint16, error) {
 	var data bytes2
-	_, err := reader.Read(data[0:])
+	_, err := io.ReadFull(reader, data[0:])
 	if nil != err {
 		return 0, err
 	}
@@ -34,7 +34,7 @@ func readUint16(reader io.Reader) (uint16, error) {
 
 func readUint32(reader io.Reader) (uint32, error) {
 	var data bytes4
-	_, err := reader.Read(data[0:])
+	_, err := io.ReadFull(reader, data[0:])
 	if nil != err {
 		return 0, err
 	}
@@ -44,7 +44,7 @@ func readUint32(reader io.Reader) (uint32, error) {
 
 func readUint64(reader io.Reader) (uint64, error) {
 	var data bytes8
-	_, err := reader.Read(data[0:])
+	_, err := io.ReadFull(reader, data[0:])
 	if err != nil {
 		return 0, err
 	}
@@ -54,7 +54,7 @@ func readUint64(reader io.Reader) (uint64, error) {
 
 func readInt16(reader io.Reader) (int16, error) {
 	var data bytes2
-	_, err := reader.Read(data[0:])
+	_, err := io.ReadFull(reader, data[0:])
 	if nil != err {
 		return 0, err
 	}
@@ -64,7 +64,7 @@ func readInt16(reader io.Reader) (int16, error) {
 
 func readInt32(reader io.Reader) (int32, error) {
 	var data bytes4
-	_, err := reader.Read(data[0:])
+	_, err := io.ReadFull(reader, data[0:])
 	if nil != err {
 		return 0, err
 	}
@@ -74,7 +74,7 @@ func readInt32(reader io.Reader) (int32, error) {
 
 func readInt64(reader io.Reader) (int64, error) {
 	var data bytes8
-	_, err := reader.Read(data[0:])
+	_, err := io.ReadFull(reader, data[0:])
 	if nil != err {
 		return 0, err
 	}
@@ -82,6 +82,25 @@ func readInt64(reader io.Reader) (int64, error) {
 	return (int64(data[0]) << 56) | (int64(data[1]) << 48) | (int64(data[2]) << 40) | (int64(data[3]) << 32) | (int64(data[4]) << 24) | (int64(data[5]) << 16) | (int64(data[6]) << 8) | int64(data[7]), nil
 }
 
+// readBytes trusts count only as far as data is coming.
+func readBytes(reader io.Reader, count uint) (bytes, error) {
+	data := make(bytes, 0)
+	for length := uint(0); length < count; length = uint(len(data)) {
+		step := count - length
+		if step > cTrustSize {
+			step = cTrustSize
+		}
+
+		data = append(data, make(bytes, step)...)
+		_, err := io.ReadFull(reader, data[length:])
+		if nil != err {
+			return nil, err
+		}
+	}
+
+	return data, nil
+}
+
 func decodeArray(reader io.Reader, count uint) ([]interface{}, error) {
 	var i uint
 	arr := make([]interface{}, count)
@@ -232,8 +251,7 @@ func decode(reader io.Reader) (v interface{}, err error) {
 				return "", nil
 			}
 
-			data := make(bytes, n)
-			_, err = reader.Read(data)
+			data, err := readBytes(reader, uint(n))
 			if nil != err {
 				return nil, err
 			}
-- 
2.43.0


From e09d6e7c43c1d48832dc6df6172e499c6790f40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:04 +0000
Subject: [PATCH 19/38] fix: decoding reserved whatever length an array claimed

---
 codec/decoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codec/decoder.go b/codec/decoder.go
index a0cef8a..25416f1 100644
--- a/codec/decoder.go
+++ b/codec/decoder.go
@@ -103,14 +103,14 @@ func readBytes(reader io.Reader, count uint) (bytes, error) {
 
 func decodeArray(reader io.Reader, count uint) ([]interface{}, error) {
 	var i uint
-	arr := make([]interface{}, count)
+	arr := make([]interface{}, 0)
 	for i = 0; i < count; i++ {
 		v, err := decode(reader)
 		if nil != err {
 			return nil, err
 		}
 
-		arr[i] = v
+		arr = append(arr, v)
 	}
 
 	return arr, nil
-- 
2.43.0


From 6ae87ddc668d32baee769ee192d67d3b87072b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:05 +0000
Subject: [PATCH 20/38] fix: decoding a float whose bits are encoded as a
 smaller integer, like 0.0, panicked

---
 codec/decoder.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/codec/decoder.go b/codec/decoder.go
index 25416f1..d968844 100644
--- a/codec/decoder.go
+++ b/codec/decoder.go
@@ -101,6 +101,16 @@ func readBytes(reader io.Reader, count uint) (bytes, error) {
 	return data, nil
 }
 
+func readBits(data interface{}, size uint) (uint64, error) {
+	value := &any{s: data}
+	value.normalize()
+	if !value.fits(size) {
+		return 0, fmt.Errorf("%v has more than %d bits!", data, size)
+	}
+
+	return value.Uint64()
+}
+
 func decodeArray(reader io.Reader, count uint) ([]interface{}, error) {
 	var i uint
 	arr := make([]interface{}, 0)
@@ -157,7 +167,13 @@ func decode(reader io.Reader) (v interface{}, err error) {
 				return nil, err
 			}
 
-			return math.Float32frombits(data.(uint32)), nil
+			// The bits are encoded as the smallest integer holding them.
+			bits, err := readBits(data, 32)
+			if nil != err {
+				return nil, err
+			}
+
+			return math.Float32frombits(uint32(bits)), nil
 		}
 	case cFloat64:
 		{
@@ -166,7 +182,12 @@ func decode(reader io.Reader) (v interface{}, err error) {
 				return nil, err
 			}
 
-			return math.Float64frombits(data.(uint64)), nil
+			bits, err := readBits(data, 64)
+			if nil != err {
+				return nil, err
+			}
+
+			return math.Float64frombits(bits), nil
 		}
 	case cUint8:
 		{
-- 
2.43.0


From 50678b7e1c04cd52b6427a188e47c807d4d7a5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:05 +0000
Subject: [PATCH 21/38] fix: decoding a map with an array or a map as key
 panicked

---
 codec/decoder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/codec/decoder.go b/codec/decoder.go
index d968844..1cd6979 100644
--- a/codec/decoder.go
+++ b/codec/decoder.go
@@ -136,6 +136,11 @@ func decodeMap(reader io.Reader, count uint) (map[interface{}]interface{}, error
 			return nil, err
 		}
 
+		switch k.(type) {
+		case []interface{}, map[interface{}]interface{}:
+			return nil, fmt.Errorf("Unsupported map key: %v", k)
+		}
+
 		v, err := decode(reader)
 		if nil != err {
 			return nil, err
-- 
2.43.0


From efed86df2eddedcf9c350bec99b42da87f8ca234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:06 +0000
Subject: [PATCH 22/38] fix: encoding a float ignored that its code could not
 be written

---
 codec/encoder.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/codec/encoder.go b/codec/encoder.go
index cd3b3d5..5210706 100644
--- a/codec/encoder.go
+++ b/codec/encoder.go
@@ -26,12 +26,20 @@ func encodeBool(writer io.Writer, value bool) (n int, err error) {
 }
 
 func encodeFloat32(writer io.Writer, value float32) (n int, err error) {
-	writer.Write(bytes{cFloat32})
+	n, err = writer.Write(bytes{cFloat32})
+	if nil != err {
+		return n, err
+	}
+
 	return encodeUint32(writer, math.Float32bits(value))
 }
 
 func encodeFloat64(writer io.Writer, value float64) (n int, err error) {
-	writer.Write(bytes{cFloat64})
+	n, err = writer.Write(bytes{cFloat64})
+	if nil != err {
+		return n, err
+	}
+
 	return encodeUint64(writer, math.Float64bits(value))
 }
 
-- 
2.43.0


From 289c550c9688fff7118c96fd358b92ddfe4fc315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:06 +0000
Subject: [PATCH 23/38] fix: encoding a map lost the value of a NaN key

---
 codec/encoder.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/codec/encoder.go b/codec/encoder.go
index 5210706..6ed91a5 100644
--- a/codec/encoder.go
+++ b/codec/encoder.go
@@ -153,21 +153,21 @@ func encodeArray(writer io.Writer, value reflect.Value) (n int, err error) {
 }
 
 func encodeMap(writer io.Writer, value reflect.Value) (n int, err error) {
-	keys := value.MapKeys()
-	length := len(keys)
+	length := value.Len()
 	n, err = writer.Write(bytes{cMap32, byte(length >> 24), byte(length >> 16), byte(length >> 8), byte(length)})
 	if nil != err {
 		return n, err
 	}
 
-	for _, k := range keys {
-		nk, err := encodeValue(writer, k)
+	// A NaN key can't be looked up.
+	for i := value.MapRange(); i.Next(); {
+		nk, err := encodeValue(writer, i.Key())
 		if nil != err {
 			return n + nk, err
 		}
 		n += nk
 
-		nk, err = encodeValue(writer, value.MapIndex(k))
+		nk, err = encodeValue(writer, i.Value())
 		if nil != err {
 			return n + nk, err
 		}
-- 
2.43.0


From 37f7c59bbef32e517a58a0e5269781bbf3a5ff29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:25 +0000
Subject: [PATCH 24/38] fix: decoding deeply nested bytes overflowed the stack
 and killed the process

---
 codec/code.go    |  3 ++-
 codec/decoder.go | 26 +++++++++++++++++---------
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/codec/code.go b/codec/code.go
index c2a0ac1..5f6006a 100644
--- a/codec/code.go
+++ b/codec/code.go
@@ -43,7 +43,8 @@ const (
 	cInt32Size = 4
 	cInt64Size = 8
 
-	cTrustSize = 4096 // reserve no more than it for a length that came without data
+	cTrustSize = 4096  // reserve no more than it for a length that came without data
+	cMaxDepth  = 10000 // how deep values may be nested, the stack is limited
 
 	cUint8Max  = 2 << (8 - 1)
 	cUint16Max = 2 << (16 - 1)
diff --git a/codec/decoder.go b/codec/decoder.go
index 1cd6979..d9c3617 100644
--- a/codec/decoder.go
+++ b/codec/decoder.go
@@ -111,11 +111,11 @@ func readBits(data interface{}, size uint) (uint64, error) {
 	return value.Uint64()
 }
 
-func decodeArray(reader io.Reader, count uint) ([]interface{}, error) {
+func decodeArray(reader io.Reader, count uint, depth int) ([]interface{}, error) {
 	var i uint
 	arr := make([]interface{}, 0)
 	for i = 0; i < count; i++ {
-		v, err := decode(reader)
+		v, err := decodeNested(reader, depth+1)
 		if nil != err {
 			return nil, err
 		}
@@ -126,12 +126,12 @@ func decodeArray(reader io.Reader, count uint) ([]interface{}, error) {
 	return arr, nil
 }
 
-func decodeMap(reader io.Reader, count uint) (map[interface{}]interface{}, error) {
+func decodeMap(reader io.Reader, count uint, depth int) (map[interface{}]interface{}, error) {
 	var i uint
 	dict := make(map[interface{}]interface{})
 
 	for i = 0; i < count; i++ {
-		k, err := decode(reader)
+		k, err := decodeNested(reader, depth+1)
 		if nil != err {
 			return nil, err
 		}
@@ -141,7 +141,7 @@ func decodeMap(reader io.Reader, count uint) (map[interface{}]interface{}, error
 			return nil, fmt.Errorf("Unsupported map key: %v", k)
 		}
 
-		v, err := decode(reader)
+		v, err := decodeNested(reader, depth+1)
 		if nil != err {
 			return nil, err
 		}
@@ -153,6 +153,14 @@ func decodeMap(reader io.Reader, count uint) (map[interface{}]interface{}, error
 }
 
 func decode(reader io.Reader) (v interface{}, err error) {
+	return decodeNested(reader, 0)
+}
+
+func decodeNested(reader io.Reader, depth int) (v interface{}, err error) {
+	if depth > cMaxDepth {
+		return nil, fmt.Errorf("Nested more than %d times!", cMaxDepth)
+	}
+
 	c, err := readByte(reader)
 	if nil != err {
 		return nil, err
@@ -167,7 +175,7 @@ func decode(reader io.Reader) (v interface{}, err error) {
 		return true, nil
 	case cFloat32:
 		{
-			data, err := decode(reader)
+			data, err := decodeNested(reader, depth+1)
 			if nil != err {
 				return nil, err
 			}
@@ -182,7 +190,7 @@ func decode(reader io.Reader) (v interface{}, err error) {
 		}
 	case cFloat64:
 		{
-			data, err := decode(reader)
+			data, err := decodeNested(reader, depth+1)
 			if nil != err {
 				return nil, err
 			}
@@ -291,7 +299,7 @@ func decode(reader io.Reader) (v interface{}, err error) {
 				return nil, err
 			}
 
-			return decodeArray(reader, uint(n))
+			return decodeArray(reader, uint(n), depth)
 		}
 	case cMap32:
 		{
@@ -300,7 +308,7 @@ func decode(reader io.Reader) (v interface{}, err error) {
 				return nil, err
 			}
 
-			return decodeMap(reader, uint(n))
+			return decodeMap(reader, uint(n), depth)
 		}
 	}
 
-- 
2.43.0


From 5dfba0db2609cf0b946f273397ea1be5d267070d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:43 +0000
Subject: [PATCH 25/38] fix: visits from several goroutines raced and could
 yield different proxies

---
 registry.go | 10 ++++++++++
 slot.go     | 30 ++++++++++++++++++++----------
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/registry.go b/registry.go
index 02da909..8fd7d6d 100644
--- a/registry.go
+++ b/registry.go
@@ -4,14 +4,24 @@
 
 package ferry
 
+import (
+	"sync"
+)
+
+var registryMutex sync.RWMutex
 var registry map[string]interface{} = make(map[string]interface{})
 
 func register(name string, maker interface{}) {
+	registryMutex.Lock()
+	defer registryMutex.Unlock()
+
 	registry[name] = maker
 }
 
 func tryMake(name string, s ISlot) (interface{}, bool) {
+	registryMutex.RLock()
 	maker := registry[name]
+	registryMutex.RUnlock()
 	if nil != maker {
 		return maker.(func(slot ISlot) interface{})(s), true
 	}
diff --git a/slot.go b/slot.go
index e97030f..6d3d2dc 100644
--- a/slot.go
+++ b/slot.go
@@ -29,21 +29,31 @@ func newSlot(name string, feature interface{}, discoverable bool) ISlot {
 }
 
 type slot struct {
-	feature      IFeature
-	discoverable bool
-	callee       chancall.ICallee
-	dock         *dock
-	visiters     map[string]interface{}
-	closeSig     chan bool
-	wg           sync.WaitGroup
+	feature       IFeature
+	discoverable  bool
+	callee        chancall.ICallee
+	dock          *dock
+	visitersMutex sync.Mutex
+	visiters      map[string]interface{}
+	closeSig      chan bool
+	wg            sync.WaitGroup
 }
 
 func (s *slot) Visit(name string) interface{} {
+	s.visitersMutex.Lock()
 	visitor := s.visiters[name]
+	s.visitersMutex.Unlock()
 	if nil == visitor {
-		var ok bool
-		if visitor, ok = tryMake(name, s); ok {
-			s.visiters[name] = visitor
+		// Not locked: the maker may visit, too.
+		if made, ok := tryMake(name, s); ok {
+			s.visitersMutex.Lock()
+			// Another visit may have been faster.
+			visitor = s.visiters[name]
+			if nil == visitor {
+				visitor = made
+				s.visiters[name] = visitor
+			}
+			s.visitersMutex.Unlock()
 		}
 	}
 
-- 
2.43.0


From 3200e49ee8192aad6035e3d4975b2685bccd211c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:05 +0000
Subject: [PATCH 26/38] fix: proxies of methods returning a string did not
 compile

---
 tool/ferry.gen.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tool/ferry.gen.go b/tool/ferry.gen.go
index 5717eb0..6d05e18 100644
--- a/tool/ferry.gen.go
+++ b/tool/ferry.gen.go
@@ -11,13 +11,13 @@ import (
 	"go/format"
 	"go/parser"
 	"go/token"
-	"html/template"
 	"io/ioutil"
 	"log"
 	"os"
 	"path"
 	"path/filepath"
 	"strings"
+	"text/template"
 	"time"
 )
 
@@ -201,6 +201,10 @@ func genProxyCode(targets []*astTarget) (data []byte, ok bool) {
 			return "0"
 		case "float64":
 			return "0"
+		case "byte", "rune", "uintptr", "complex64", "complex128":
+			return "0"
+		case "string":
+			return "\"\""
 		default:
 			return "nil"
 		}
-- 
2.43.0


From 7dd4305d42aa184a8a36b1b76ca444583757a0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:05 +0000
Subject: [PATCH 27/38] fix: proxies dropped grouped parameters, and the
 generator crashed on unnamed ones and on slices, maps and interface{}

---
 tool/ferry.gen.go | 72 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 56 insertions(+), 16 deletions(-)

diff --git a/tool/ferry.gen.go b/tool/ferry.gen.go
index 6d05e18..2073673 100644
--- a/tool/ferry.gen.go
+++ b/tool/ferry.gen.go
@@ -7,10 +7,12 @@ package main
 import (
 	"bytes"
 	"flag"
+	"fmt"
 	"go/ast"
 	"go/format"
 	"go/parser"
 	"go/token"
+	"go/types"
 	"io/ioutil"
 	"log"
 	"os"
@@ -126,31 +128,30 @@ func parseFile(file string, decl *ast.GenDecl) (target *astTarget, ok bool) {
 		ftype, _ := field.Type.(*ast.FuncType)
 
 		if nil != ftype.Params {
-			m.PCount = len(ftype.Params.List)
+			m.PCount = ftype.Params.NumFields()
 			if m.PCount > 0 {
 				for _, param := range ftype.Params.List {
-					m.Params = append(m.Params, &astField{
-						Name: param.Names[0].Name,
-						Type: param.Type.(*ast.Ident).Name,
-					})
+					for _, name := range fieldNames(param) {
+						m.Params = append(m.Params, &astField{
+							Name: name,
+							Type: types.ExprString(param.Type),
+						})
+					}
 				}
+				renameParams(m.Params)
 			}
 		}
 
 		if nil != ftype.Results {
-			m.RCount = len(ftype.Results.List)
+			m.RCount = ftype.Results.NumFields()
 			if m.RCount > 0 {
 				for _, result := range ftype.Results.List {
-					m.Results = append(m.Results, &astField{
-						Name: func() string {
-							if len(result.Names) > 0 {
-								return result.Names[0].Name
-							}
-
-							return ""
-						}(),
-						Type: result.Type.(*ast.Ident).Name,
-					})
+					for _, name := range fieldNames(result) {
+						m.Results = append(m.Results, &astField{
+							Name: name,
+							Type: types.ExprString(result.Type),
+						})
+					}
 				}
 			}
 		}
@@ -161,6 +162,45 @@ func parseFile(file string, decl *ast.GenDecl) (target *astTarget, ok bool) {
 	return
 }
 
+// fieldNames returns the names sharing the type of the field, a single empty
+// one if it has none.
+func fieldNames(field *ast.Field) []string {
+	if 0 == len(field.Names) {
+		return []string{""}
+	}
+
+	names := make([]string, 0)
+	for _, name := range field.Names {
+		names = append(names, name.Name)
+	}
+
+	return names
+}
+
+// renameParams gives a name to the parameters that have none, or one that means
+// something else in the generated method.
+func renameParams(params []*astField) {
+	used := map[string]bool{"": true, "_": true, "p": true, "results": true, "err": true, "ferry": true}
+	for _, param := range params {
+		if used[param.Name] || nil != types.Universe.Lookup(param.Name) {
+			param.Name = ""
+		}
+	}
+	for _, param := range params {
+		used[param.Name] = true
+	}
+
+	next := 0
+	for _, param := range params {
+		for "" == param.Name {
+			if name := fmt.Sprintf("arg%d", next); !used[name] {
+				param.Name = name
+			}
+			next += 1
+		}
+	}
+}
+
 func genProxyCode(targets []*astTarget) (data []byte, ok bool) {
 	input := map[string]interface{}{
 		"date":    time.Now().Format("2006-01-02 15:04:05"),
-- 
2.43.0


From d6834d257d9470f0b5e575147a90ed5dee7e4e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:27 +0000
Subject: [PATCH 28/38] fix: interfaces declared in one type group got no
 proxy, an embedded one crashed the generator

---
 tool/ferry.gen.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/tool/ferry.gen.go b/tool/ferry.gen.go
index 2073673..45a50ba 100644
--- a/tool/ferry.gen.go
+++ b/tool/ferry.gen.go
@@ -85,8 +85,10 @@ func scanFile(fset *token.FileSet, file string) []*astTarget {
 			return true
 		}
 
-		if target, ok := parseFile(file, decl); ok {
-			targets = append(targets, target)
+		for _, spec := range decl.Specs {
+			if target, ok := parseFile(file, decl, spec); ok {
+				targets = append(targets, target)
+			}
 		}
 
 		return true
@@ -95,18 +97,13 @@ func scanFile(fset *token.FileSet, file string) []*astTarget {
 	return targets
 }
 
-func parseFile(file string, decl *ast.GenDecl) (target *astTarget, ok bool) {
+func parseFile(file string, decl *ast.GenDecl, declSpec ast.Spec) (target *astTarget, ok bool) {
 	if token.TYPE != decl.Tok {
 		ok = false
 		return
 	}
 
-	if len(decl.Specs) > 1 {
-		ok = false
-		return
-	}
-
-	spec := decl.Specs[0].(*ast.TypeSpec)
+	spec := declSpec.(*ast.TypeSpec)
 	itype, ok := spec.Type.(*ast.InterfaceType)
 	if !ok {
 		return
@@ -120,6 +117,11 @@ func parseFile(file string, decl *ast.GenDecl) (target *astTarget, ok bool) {
 
 	target.Methods = make(map[string]*astMethod)
 	for _, field := range itype.Methods.List {
+		// Embedded interface.
+		if 0 == len(field.Names) {
+			continue
+		}
+
 		m := new(astMethod)
 		m.Name = field.Names[0].Name
 		m.Params = make([]*astField, 0)
-- 
2.43.0


From 80fc49ee1a300117b49e22a8d37b144c5e17106a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:55 +0000
Subject: [PATCH 29/38] fix: a slice or map passed to a feature of another dock
 could not be converted to the parameter type

---
 chancall/API.go  | 17 +++++++++++++++++
 chancall/meta.go | 37 ++++++++++++++++++++++++++++++++++++-
 2 files changed, 53 insertions(+), 1 deletion(-)

diff --git a/chancall/API.go b/chancall/API.go
index 98ee2df..93d9e30 100644
--- a/chancall/API.go
+++ b/chancall/API.go
@@ -4,6 +4,10 @@
 
 package chancall
 
+import (
+	"reflect"
+)
+
 // ICallee interface.
 type ICallee interface {
 	// Return callee's name.
@@ -41,3 +45,16 @@ func NewCaller(c ICallee) ICaller {
 
 	return caller
 }
+
+// Convert sets what target points to to value, like an argument is converted to
+// the type of the parameter.
+func Convert(value interface{}, target interface{}) error {
+	v := reflect.ValueOf(target).Elem()
+	converted, err := convert(value, v.Type())
+	if nil != err {
+		return err
+	}
+	v.Set(converted)
+
+	return nil
+}
diff --git a/chancall/meta.go b/chancall/meta.go
index bb6a6b7..16c24b2 100644
--- a/chancall/meta.go
+++ b/chancall/meta.go
@@ -104,7 +104,42 @@ func convert(arg interface{}, t reflect.Type) (value reflect.Value, err error) {
 		}
 	}()
 
-	return reflect.ValueOf(arg).Convert(t), nil
+	v := reflect.ValueOf(arg)
+	if v.Type().ConvertibleTo(t) {
+		return v.Convert(t), nil
+	}
+
+	// Slices and maps come from another dock as generic ones.
+	switch {
+	case reflect.Slice == v.Kind() && reflect.Slice == t.Kind():
+		value = reflect.MakeSlice(t, v.Len(), v.Len())
+		for i := 0; i < v.Len(); i++ {
+			item, err := convert(v.Index(i).Interface(), t.Elem())
+			if nil != err {
+				return value, err
+			}
+			value.Index(i).Set(item)
+		}
+
+		return value, nil
+	case reflect.Map == v.Kind() && reflect.Map == t.Kind():
+		value = reflect.MakeMap(t)
+		for i := v.MapRange(); i.Next(); {
+			key, err := convert(i.Key().Interface(), t.Key())
+			if nil != err {
+				return value, err
+			}
+			item, err := convert(i.Value().Interface(), t.Elem())
+			if nil != err {
+				return value, err
+			}
+			value.SetMapIndex(key, item)
+		}
+
+		return value, nil
+	}
+
+	return value, fmt.Errorf("Can't convert %s to %s!", v.Type().String(), t.String())
 }
 
 func (m *meta) timeout(method string) float32 {
-- 
2.43.0


From a7449f2122a736858a3a1ad958fbfe25dcd538c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:55 +0000
Subject: [PATCH 30/38] fix: proxies panicked when a number came back from
 another dock in a narrower type, or a nil interface

---
 ferry.go          | 18 ++++++++++++++++++
 tool/ferry.gen.go |  9 ++++++++-
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/ferry.go b/ferry.go
index 957093a..bd1fe17 100644
--- a/ferry.go
+++ b/ferry.go
@@ -4,6 +4,12 @@
 
 package ferry
 
+import (
+	"log"
+
+	"github.com/muguangyi/ferry/chancall"
+)
+
 // IFeature interface.
 type IFeature interface {
 	// Could start feature logic, like RPC etc.
@@ -61,6 +67,18 @@ func Register(id string, maker interface{}) bool {
 	return true
 }
 
+// Convert a call result into the variable target points to and return target. The
+// variable is left as it is if that's impossible.
+//
+// A number coming from another dock may have another type than the one returned there.
+func Convert(result interface{}, target interface{}) interface{} {
+	if err := chancall.Convert(result, target); nil != err {
+		log.Println(err)
+	}
+
+	return target
+}
+
 // Feature is base struct for all IFeature to compose
 type Feature struct {
 }
diff --git a/tool/ferry.gen.go b/tool/ferry.gen.go
index 45a50ba..d8e84c4 100644
--- a/tool/ferry.gen.go
+++ b/tool/ferry.gen.go
@@ -250,6 +250,13 @@ func genProxyCode(targets []*astTarget) (data []byte, ok bool) {
 		default:
 			return "nil"
 		}
+	}}).Funcs(template.FuncMap{"value": func(index int, t string) string {
+		switch t {
+		case "bool", "string":
+			return fmt.Sprintf("results[%d].(%s)", index, t)
+		default:
+			return fmt.Sprintf("*ferry.Convert(results[%d], new(%s)).(*%s)", index, t, t)
+		}
 	}}).Parse(gencode)
 	if nil != err {
 		log.Fatal(err)
@@ -324,7 +331,7 @@ func (p *{{$target.Proxy}}) {{$method.Name}}({{range $j, $param := $method.Param
 		return {{range $k, $result := $method.Results}}{{default $result.Type}}{{comma $k $method.RCount}}{{end}}
 	}{{if gt $method.RCount 0}}
 	
-	return {{range $k, $result := $method.Results}}results[{{$k}}].({{$result.Type}}){{comma $k $method.RCount}}{{end}}{{end}}
+	return {{range $k, $result := $method.Results}}{{value $k $result.Type}}{{comma $k $method.RCount}}{{end}}{{end}}
 }
 {{end}}
 // end {{$target.Name}}
-- 
2.43.0


From 31e29646a118d786e4d5381cf1295d2572bfa506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:11 +0000
Subject: [PATCH 31/38] fix: the mock transport lost bytes, raced, and blocked
 when it was closed

---
 network/mock.go | 186 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 124 insertions(+), 62 deletions(-)

diff --git a/network/mock.go b/network/mock.go
index e00f205..2e6e68f 100644
--- a/network/mock.go
+++ b/network/mock.go
@@ -34,7 +34,7 @@ func (n *netMockTcp) Listen(network string, address string) (net.Listener, error
 			address: address,
 		},
 		chanconn: make(chan *conn, 1),
-		conns:    make(map[string]*conn),
+		closeSig: make(chan bool),
 	}
 	listenersMutex.Lock()
 	listeners[address] = listener
@@ -44,49 +44,43 @@ func (n *netMockTcp) Listen(network string, address string) (net.Listener, error
 }
 
 func (n *netMockTcp) Dial(network string, address string) (net.Conn, error) {
-	c := newConn()
-	connected := make(chan bool, 1)
-	go func() {
-		address = formatAddr(address)
-		timeout := 1 * time.Second
-		for {
-			if 0 == c.status {
-				listener := listeners[address]
-				if nil != listener {
-					vport += 1
-					c.status = 1
-					c.localAddr.network = network
-					c.localAddr.address = fmt.Sprintf("0.0.0.0:%d", vport)
-					c.remoteAddr = listener.address
-					listener.chanconn <- c
-				}
-			} else if 2 == c.status {
-				break
-			} else if timeout <= 0 {
-				c.status = -1
-				break
+	address = formatAddr(address)
+	deadline := time.Now().Add(1 * time.Second)
+	for {
+		listenersMutex.Lock()
+		listener := listeners[address]
+		port := 0
+		if nil != listener {
+			vport += 1
+			port = vport
+		}
+		listenersMutex.Unlock()
+
+		if nil != listener {
+			c := newConn()
+			c.localAddr.network = network
+			c.localAddr.address = fmt.Sprintf("0.0.0.0:%d", port)
+			c.remoteAddr = listener.address
+			if listener.connect(c, deadline) {
+				return c, nil
 			}
-
-			timeout -= time.Microsecond
-			time.Sleep(time.Microsecond)
+			// It may still be accepted, but too late.
+			c.Close()
 		}
 
-		connected <- (2 == c.status)
-	}()
+		if !time.Now().Before(deadline) {
+			return nil, errors.New("Can't connect server")
+		}
 
-	succ := <-connected
-	if succ {
-		return c, nil
-	} else {
-		return nil, errors.New("Can't connect server")
+		time.Sleep(time.Millisecond)
 	}
 }
 
 func reset() {
 	listenersMutex.Lock()
 	listeners = make(map[string]*listener)
-	listenersMutex.Unlock()
 	vport = 65535
+	listenersMutex.Unlock()
 }
 
 func formatAddr(addr string) string {
@@ -97,31 +91,60 @@ func formatAddr(addr string) string {
 type listener struct {
 	address  *addr
 	chanconn chan *conn
-	conns    map[string]*conn
+	closing  sync.Once
+	closeSig chan bool
 }
 
-func (l *listener) Accept() (net.Conn, error) {
-	inconn := <-l.chanconn
-	if nil == inconn {
-		return nil, fmt.Errorf("Listener closed!")
+// connect waits until the conn is accepted, false if that does not happen.
+func (l *listener) connect(c *conn, deadline time.Time) bool {
+	timeout := time.NewTimer(time.Until(deadline))
+	defer timeout.Stop()
+
+	select {
+	case l.chanconn <- c:
+	case <-l.closeSig:
+		return false
+	case <-timeout.C:
+		return false
 	}
 
-	c := newConn()
-	c.localAddr = l.address
-	c.remoteAddr = inconn.localAddr
-	c.peer = inconn
+	select {
+	case <-c.accepted:
+		return true
+	case <-l.closeSig:
+		return false
+	case <-timeout.C:
+		return false
+	}
+}
 
-	inconn.peer = c
-	inconn.status = 2
+func (l *listener) Accept() (net.Conn, error) {
+	select {
+	case inconn := <-l.chanconn:
+		c := newConn()
+		c.localAddr = l.address
+		c.remoteAddr = inconn.localAddr
+		c.peer = inconn
 
-	l.conns[inconn.localAddr.String()] = inconn
+		inconn.peer = c
+		close(inconn.accepted)
 
-	return c, nil
+		return c, nil
+	case <-l.closeSig:
+		return nil, fmt.Errorf("Listener closed!")
+	}
 }
 
 func (l *listener) Close() error {
-	l.chanconn <- nil
-	l.conns = nil
+	l.closing.Do(func() {
+		close(l.closeSig)
+
+		listenersMutex.Lock()
+		if listeners[l.address.address] == l {
+			delete(listeners, l.address.address)
+		}
+		listenersMutex.Unlock()
+	})
 
 	return nil
 }
@@ -132,43 +155,82 @@ func (l *listener) Addr() net.Addr {
 
 func newConn() *conn {
 	c := new(conn)
-	c.status = 0
 	c.localAddr = new(addr)
 	c.remoteAddr = new(addr)
+	c.accepted = make(chan bool)
+	c.closeSig = make(chan bool)
 	c.chanbuf = make(chan []byte, 1)
 
 	return c
 }
 
 type conn struct {
-	status     int
 	localAddr  *addr
 	remoteAddr *addr
-	peer       *conn
+	accepted   chan bool
+	peer       *conn // set once accepted
+	closing    sync.Once
+	closeSig   chan bool
 	chanbuf    chan []byte
+	readMutex  sync.Mutex
+	rest       []byte // not read yet
 }
 
 func (c *conn) Read(b []byte) (n int, err error) {
-	bytes := <-c.chanbuf
-	if nil == bytes {
-		return 0, fmt.Errorf("Target peer is closed!")
-	} else {
-		return copy(b, bytes), nil
+	c.readMutex.Lock()
+	defer c.readMutex.Unlock()
+
+	if 0 == len(c.rest) {
+		select {
+		case c.rest = <-c.chanbuf:
+		case <-c.closeSig:
+			return 0, fmt.Errorf("Conn is closed!")
+		case <-c.peer.closeSig:
+			// What has been written before is still to be read.
+			select {
+			case c.rest = <-c.chanbuf:
+			default:
+				return 0, fmt.Errorf("Target peer is closed!")
+			}
+		}
 	}
+
+	n = copy(b, c.rest)
+	c.rest = c.rest[n:]
+
+	return n, nil
 }
 
 func (c *conn) Write(b []byte) (n int, err error) {
-	if nil != c.peer {
-		c.peer.chanbuf <- b
+	select {
+	case <-c.closeSig:
+		return 0, fmt.Errorf("Conn is closed!")
+	case <-c.peer.closeSig:
+		return 0, fmt.Errorf("Target peer is closed!")
+	default:
+	}
+
+	if 0 == len(b) {
+		return 0, nil
+	}
+
+	// The writer may use its bytes for something else.
+	bytes := append([]byte(nil), b...)
+	select {
+	case c.peer.chanbuf <- bytes:
 		return len(b), nil
-	} else {
-		return 0, fmt.Errorf("Conn is nil!")
+	case <-c.closeSig:
+		return 0, fmt.Errorf("Conn is closed!")
+	case <-c.peer.closeSig:
+		return 0, fmt.Errorf("Target peer is closed!")
 	}
 }
 
 func (c *conn) Close() error {
-	c.Write(nil)
-	c.peer = nil
+	c.closing.Do(func() {
+		close(c.closeSig)
+	})
+
 	return nil
 }
 
-- 
2.43.0


From 4a114ec4e259ca245f13cc98da4da36d1e09c86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:24 +0000
Subject: [PATCH 32/38] fix: calls sent over a connection that is lost never
 returned

---
 dock.go | 13 +++++++++++++
 rpc.go  |  3 +++
 2 files changed, 16 insertions(+)

diff --git a/dock.go b/dock.go
index 47b9de7..905a010 100644
--- a/dock.go
+++ b/dock.go
@@ -103,7 +103,19 @@ func (d *dock) OnClosed(peer network.IPeer) {
 			delete(d.remoteSlots, slot)
 		}
 	}
+	// Calls sent get no response any more.
+	lost := make([]*rpc, 0)
+	for index, r := range d.rpcs {
+		if r.peer == peer {
+			delete(d.rpcs, index)
+			lost = append(lost, r)
+		}
+	}
 	d.remoteSlotsMutex.Unlock()
+
+	for _, r := range lost {
+		r.callback(&ret{err: errors.New("Connection is lost!")})
+	}
 }
 
 func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
@@ -338,6 +350,7 @@ func (d *dock) commit(rpc *rpc) {
 			P:  rpc.req,
 		})
 		rpc.req = nil
+		rpc.peer = peer
 	} else {
 		d.socketsMutex.Lock()
 		closed := d.closed
diff --git a/rpc.go b/rpc.go
index 0d4d3e1..440a7d7 100644
--- a/rpc.go
+++ b/rpc.go
@@ -6,6 +6,8 @@ package ferry
 
 import (
 	"sync/atomic"
+
+	"github.com/muguangyi/ferry/network"
 )
 
 var lastIndex int64
@@ -18,6 +20,7 @@ func newRpc() *rpc {
 type rpc struct {
 	index int64
 	req   *protoRpcRequest
+	peer  network.IPeer // req has been sent to
 	ret   chan *ret
 }
 
-- 
2.43.0


From ae432abbb63e2d7b47732d12f313d04b9e59d2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:48 +0000
Subject: [PATCH 33/38] fix: calls were not looked up again after a failed dial
 or a lost connection

---
 dock.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/dock.go b/dock.go
index 905a010..c8de487 100644
--- a/dock.go
+++ b/dock.go
@@ -10,12 +10,17 @@ import (
 	"io/ioutil"
 	"log"
 	"sync"
+	"time"
 
 	"github.com/muguangyi/ferry/chancall"
 	"github.com/muguangyi/ferry/codec"
 	"github.com/muguangyi/ferry/network"
 )
 
+const (
+	cRetryDelay = 10 * time.Millisecond
+)
+
 func newDock(name string, slots ...ISlot) *dock {
 	d := new(dock)
 	d.name = name
@@ -105,10 +110,13 @@ func (d *dock) OnClosed(peer network.IPeer) {
 	}
 	// Calls sent get no response any more.
 	lost := make([]*rpc, 0)
+	waiting := false
 	for index, r := range d.rpcs {
 		if r.peer == peer {
 			delete(d.rpcs, index)
 			lost = append(lost, r)
+		} else if nil == r.peer {
+			waiting = true
 		}
 	}
 	d.remoteSlotsMutex.Unlock()
@@ -116,6 +124,9 @@ func (d *dock) OnClosed(peer network.IPeer) {
 	for _, r := range lost {
 		r.callback(&ret{err: errors.New("Connection is lost!")})
 	}
+	if waiting {
+		go d.retry()
+	}
 }
 
 func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
@@ -195,6 +206,7 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 			}
 			if err := socket.TryDial(); nil != err {
 				log.Println(err)
+				go d.retry()
 			}
 		}
 	case cRpcRequest:
@@ -333,6 +345,25 @@ func sendable(values []interface{}) error {
 	return codec.NewAny(values).Encode(ioutil.Discard)
 }
 
+// retry looks again for what calls are still waiting for. The hub may not know yet
+// which dock is gone.
+func (d *dock) retry() {
+	time.Sleep(cRetryDelay)
+
+	waiting := make([]*rpc, 0)
+	d.remoteSlotsMutex.Lock()
+	for _, r := range d.rpcs {
+		if r.req != nil {
+			waiting = append(waiting, r)
+		}
+	}
+	d.remoteSlotsMutex.Unlock()
+
+	for _, r := range waiting {
+		d.commit(r)
+	}
+}
+
 func (d *dock) commit(rpc *rpc) {
 	d.remoteSlotsMutex.Lock()
 	defer d.remoteSlotsMutex.Unlock()
-- 
2.43.0


From cdee4086ed68e36552f0138dbce3c9897f655b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:13 +0000
Subject: [PATCH 34/38] fix: a call made while its dock closes was sent to a
 closed connection and never returned

---
 dock.go | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/dock.go b/dock.go
index c8de487..abb52e1 100644
--- a/dock.go
+++ b/dock.go
@@ -372,6 +372,21 @@ func (d *dock) commit(rpc *rpc) {
 	if nil == rpc.req {
 		return
 	}
+
+	d.socketsMutex.Lock()
+	closed := d.closed
+	var hub network.ISocket
+	if !closed {
+		hub = d.sockets[0]
+	}
+	d.socketsMutex.Unlock()
+	if closed {
+		rpc.req = nil
+		delete(d.rpcs, rpc.index)
+		rpc.callback(&ret{err: errors.New("Dock is closed!")})
+		return
+	}
+
 	d.rpcs[rpc.index] = rpc
 
 	peer, ok := d.remoteSlots[rpc.req.Slot]
@@ -383,20 +398,6 @@ func (d *dock) commit(rpc *rpc) {
 		rpc.req = nil
 		rpc.peer = peer
 	} else {
-		d.socketsMutex.Lock()
-		closed := d.closed
-		var hub network.ISocket
-		if !closed {
-			hub = d.sockets[0]
-		}
-		d.socketsMutex.Unlock()
-		if closed {
-			rpc.req = nil
-			delete(d.rpcs, rpc.index)
-			rpc.callback(&ret{err: errors.New("Dock is closed!")})
-			return
-		}
-
 		hub.Send(&packer{
 			Id: cQueryRequest,
 			P: &protoQueryRequest{
-- 
2.43.0


From 0332fe5c55c9cc1c8494c008b3428ca63489a5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:25 +0000
Subject: [PATCH 35/38] fix: a lookup kept a processor of the hub busy, for
 ever if nothing answered it

---
 hub.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/hub.go b/hub.go
index 87a84de..73f50ad 100644
--- a/hub.go
+++ b/hub.go
@@ -20,17 +20,23 @@ const (
 )
 
 func newHub() *hub {
-	return &hub{
+	h := &hub{
 		docks:       make(map[string]*list.List),
+		peers:       make(map[network.IPeer]bool),
 		assignPorts: make(map[string]int),
 		blackPorts:  make(map[int]bool),
 	}
+	h.docksChanged = sync.NewCond(&h.docksMutex)
+
+	return h
 }
 
 type hub struct {
 	socket           network.ISocket
-	docksMutex       sync.Mutex // guards socket, docks and their stubs, and closed
+	docksMutex       sync.Mutex // guards socket, docks and their stubs, peers, and closed
+	docksChanged     *sync.Cond // a dock is ready or gone, or the hub is closed
 	docks            map[string]*list.List
+	peers            map[network.IPeer]bool
 	closed           bool
 	assignPortsMutex sync.Mutex
 	assignPorts      map[string]int
@@ -49,6 +55,7 @@ func (h *hub) Close() {
 	h.socket = nil
 	h.docks = nil
 	h.closed = true
+	h.docksChanged.Broadcast()
 	h.docksMutex.Unlock()
 
 	if nil != socket {
@@ -57,6 +64,10 @@ func (h *hub) Close() {
 }
 
 func (h *hub) OnConnected(peer network.IPeer) {
+	h.docksMutex.Lock()
+	h.peers[peer] = true
+	h.docksMutex.Unlock()
+
 	log.Printf("[%s] dock is comming to hub [%s]...", peer.RemoteAddr(), peer.LocalAddr())
 }
 
@@ -72,6 +83,8 @@ func (h *hub) OnClosed(peer network.IPeer) {
 			i = next
 		}
 	}
+	delete(h.peers, peer)
+	h.docksChanged.Broadcast()
 	h.docksMutex.Unlock()
 }
 
@@ -124,6 +137,7 @@ func (h *hub) OnPacket(peer network.IPeer, obj interface{}) {
 						}
 					}
 				}
+				h.docksChanged.Broadcast()
 				h.docksMutex.Unlock()
 			}
 		}
@@ -133,7 +147,7 @@ func (h *hub) OnPacket(peer network.IPeer, obj interface{}) {
 				req := pack.P.(*protoQueryRequest)
 				for {
 					h.docksMutex.Lock()
-					if h.closed {
+					if h.closed || !h.peers[peer] {
 						h.docksMutex.Unlock()
 						return
 					}
@@ -150,6 +164,7 @@ func (h *hub) OnPacket(peer network.IPeer, obj interface{}) {
 							}
 						}
 					}
+					h.docksChanged.Wait()
 					h.docksMutex.Unlock()
 				}
 			}()
-- 
2.43.0


From d0d9227771889bc05aab9aa549dbf975cc7848ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:35 +0000
Subject: [PATCH 36/38] fix: bytes that are no packet ended the whole process
 of the hub or dock they reached

---
 dock.go       |  5 ++++-
 hub.go        |  5 ++++-
 protocol.go   | 13 +++++++++++--
 serializer.go | 11 ++++++++---
 4 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/dock.go b/dock.go
index abb52e1..550314f 100644
--- a/dock.go
+++ b/dock.go
@@ -130,7 +130,10 @@ func (d *dock) OnClosed(peer network.IPeer) {
 }
 
 func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
-	pack := obj.(*packer)
+	pack, ok := obj.(*packer)
+	if !ok {
+		return
+	}
 	switch pack.Id {
 	case cError:
 		{
diff --git a/hub.go b/hub.go
index 73f50ad..f78d986 100644
--- a/hub.go
+++ b/hub.go
@@ -89,7 +89,10 @@ func (h *hub) OnClosed(peer network.IPeer) {
 }
 
 func (h *hub) OnPacket(peer network.IPeer, obj interface{}) {
-	pack := obj.(*packer)
+	pack, ok := obj.(*packer)
+	if !ok {
+		return
+	}
 	switch pack.Id {
 	case cRegisterRequest:
 		{
diff --git a/protocol.go b/protocol.go
index 63d7b5e..f8e2a37 100644
--- a/protocol.go
+++ b/protocol.go
@@ -5,6 +5,7 @@
 package ferry
 
 import (
+	"errors"
 	"io"
 
 	"github.com/muguangyi/ferry/codec"
@@ -104,7 +105,11 @@ func (p *protoReady) Unmarshal(reader io.Reader) error {
 
 	p.Slots = make([]string, len(arr))
 	for i, iv := range arr {
-		p.Slots[i] = iv.(string)
+		name, ok := iv.(string)
+		if !ok {
+			return errors.New("Invalid slot name!")
+		}
+		p.Slots[i] = name
 	}
 
 	return nil
@@ -133,7 +138,11 @@ func (p *protoRegisterRequest) Unmarshal(reader io.Reader) error {
 
 	p.Slots = make([]string, len(arr))
 	for i, iv := range arr {
-		p.Slots[i] = iv.(string)
+		name, ok := iv.(string)
+		if !ok {
+			return errors.New("Invalid slot name!")
+		}
+		p.Slots[i] = name
 	}
 
 	return nil
diff --git a/serializer.go b/serializer.go
index 76bafb7..78312c6 100644
--- a/serializer.go
+++ b/serializer.go
@@ -64,6 +64,7 @@ func (s *serializer) Marshal(obj interface{}) []byte {
 	return nil
 }
 
+// Unmarshal returns nil if the data is no packet.
 func (s *serializer) Unmarshal(data []byte) interface{} {
 	length := (int(data[0]) | int(data[1])<<8 | int(data[2])<<16 | int(data[3])<<24)
 	body := data[4 : 4+length]
@@ -72,20 +73,24 @@ func (s *serializer) Unmarshal(data []byte) interface{} {
 	any := codec.NewAny(nil)
 	err := any.Decode(reader)
 	if nil != err {
-		log.Fatal(err)
+		log.Println(err)
 		return nil
 	}
 	value, err := any.Uint8()
 	if nil != err {
-		log.Fatal(err)
+		log.Println(err)
 		return nil
 	}
 
 	id := cProtoType(value)
 	p := s.maker(id)
+	if nil == p {
+		log.Println("Unknown packet!")
+		return nil
+	}
 	err = p.Unmarshal(reader)
 	if nil != err {
-		log.Fatal(err)
+		log.Println(err)
 		return nil
 	}
 
-- 
2.43.0


From e8c33fc058a111fdcd18b7d613eaf8077f26116d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:28 +0000
Subject: [PATCH 37/38] fix: a stray answer to a registration made a dock
 listen and start its features again

---
 dock.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/dock.go b/dock.go
index 550314f..7dfd1f4 100644
--- a/dock.go
+++ b/dock.go
@@ -43,6 +43,7 @@ type dock struct {
 	socketsMutex     sync.Mutex
 	sockets          []network.ISocket // socket at index 0 is hub.
 	closed           bool
+	registered       bool
 	slotsMutex       sync.Mutex
 	slots            map[string]*slot
 	remoteSlotsMutex sync.Mutex // guards remoteSlots, rpcs and what they wait for
@@ -83,6 +84,18 @@ func (d *dock) keep(socket network.ISocket) bool {
 	return true
 }
 
+// register tells if this is the first answer to the registration: the features are
+// started only once.
+func (d *dock) register() bool {
+	d.socketsMutex.Lock()
+	defer d.socketsMutex.Unlock()
+
+	first := !d.registered
+	d.registered = true
+
+	return first
+}
+
 func (d *dock) OnConnected(peer network.IPeer) {
 	if peer.IsSelf() {
 		log.Printf("[%s] connected to [%s].", peer.LocalAddr(), peer.RemoteAddr())
@@ -183,6 +196,9 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 		{
 			// Get the port that Hub alloced and start to listen as a server.
 			resp := pack.P.(*protoRegisterResponse)
+			if !d.register() {
+				return
+			}
 			listenAddr := fmt.Sprintf("0.0.0.0:%d", resp.Port)
 			socket := network.NewSocket(listenAddr, "ferry", d)
 			if !d.keep(socket) {
-- 
2.43.0


From 6c46f31b5b93e3f87f1d44749d22c239bae81a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:00 +0000
Subject: [PATCH 38/38] fix: lookups nobody answers piled up on the hub
 whenever their dock lost a connection

---
 hub.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/hub.go b/hub.go
index f78d986..8d47c89 100644
--- a/hub.go
+++ b/hub.go
@@ -23,6 +23,7 @@ func newHub() *hub {
 	h := &hub{
 		docks:       make(map[string]*list.List),
 		peers:       make(map[network.IPeer]bool),
+		lookups:     make(map[lookup]bool),
 		assignPorts: make(map[string]int),
 		blackPorts:  make(map[int]bool),
 	}
@@ -33,10 +34,11 @@ func newHub() *hub {
 
 type hub struct {
 	socket           network.ISocket
-	docksMutex       sync.Mutex // guards socket, docks and their stubs, peers, and closed
+	docksMutex       sync.Mutex // guards socket, docks and their stubs, peers, lookups, and closed
 	docksChanged     *sync.Cond // a dock is ready or gone, or the hub is closed
 	docks            map[string]*list.List
 	peers            map[network.IPeer]bool
+	lookups          map[lookup]bool // not answered yet
 	closed           bool
 	assignPortsMutex sync.Mutex
 	assignPorts      map[string]int
@@ -49,6 +51,11 @@ type stub struct {
 	ready bool
 }
 
+type lookup struct {
+	peer network.IPeer
+	slot string
+}
+
 func (h *hub) Close() {
 	h.docksMutex.Lock()
 	socket := h.socket
@@ -146,11 +153,20 @@ func (h *hub) OnPacket(peer network.IPeer, obj interface{}) {
 		}
 	case cQueryRequest:
 		{
+			req := pack.P.(*protoQueryRequest)
+			query := lookup{peer: peer, slot: req.Slot}
+			h.docksMutex.Lock()
+			known := h.lookups[query]
+			h.lookups[query] = true
+			h.docksMutex.Unlock()
+			if known {
+				return
+			}
 			go func() {
-				req := pack.P.(*protoQueryRequest)
 				for {
 					h.docksMutex.Lock()
 					if h.closed || !h.peers[peer] {
+						delete(h.lookups, query)
 						h.docksMutex.Unlock()
 						return
 					}
@@ -161,6 +177,7 @@ func (h *hub) OnPacket(peer network.IPeer, obj interface{}) {
 						for i := docks.Back(); i != nil; i = i.Prev() {
 							stub := i.Value.(*stub)
 							if stub.ready {
+								delete(h.lookups, query)
 								h.docksMutex.Unlock()
 								h.respondQueryImme(peer, stub.addr)
 								return
-- 
2.43.0

