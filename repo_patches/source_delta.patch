From 6d777f7b28b1573f189fc758b5f8b67a5259e228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 01/32] fix: decode only the frame at the head of the buffer,
 without touching the caller's bytes

---
 serialapi/message.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/serialapi/message.go b/serialapi/message.go
index 13414f0..0754336 100644
--- a/serialapi/message.go
+++ b/serialapi/message.go
@@ -49,6 +49,10 @@ func Decode(data []byte) (length int, msg *Message, err error) {
 			return length + 2, nil, nil
 		}
 
+		// Work on a private copy of this frame. The buffer is owned by the caller
+		// and may already contain the beginning of the next frame.
+		data = append([]byte(nil), data[:length+2]...)
+
 		checksum := data[length+1]
 		checksumData := append(data[1:length+1], byte(0x00))
 		if checksum != GenerateChecksum(checksumData) {
@@ -59,7 +63,7 @@ func Decode(data []byte) (length int, msg *Message, err error) {
 
 		return length + 2, msg, err
 	case 0x06, 0x15, 0x18: // ACK, NAC, CAN
-		msg, err := NewMessage(data)
+		msg, err := NewMessage(data[:1])
 		if err != nil {
 			logrus.Error(err)
 		}
-- 
2.43.0


From 9ff87f979e19054c50c536bd56e50a3cfa9e5291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:14 +0000
Subject: [PATCH 02/32] fix: refuse messages shorter than their own length
 fields instead of panicking

---
 serialapi/application_command_handler.go |  6 ++++++
 serialapi/discovery_nodes.go             |  4 ++++
 serialapi/message.go                     | 27 ++++++++++++++++++++++--
 3 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/serialapi/application_command_handler.go b/serialapi/application_command_handler.go
index 7d9b3d4..460f435 100644
--- a/serialapi/application_command_handler.go
+++ b/serialapi/application_command_handler.go
@@ -1,6 +1,8 @@
 package serialapi
 
 import (
+	"fmt"
+
 	"github.com/stampzilla/gozwave/commands"
 	"github.com/stampzilla/gozwave/commands/reports"
 )
@@ -17,6 +19,10 @@ type FuncApplicationCommandHandler struct {
 func NewApplicationCommandHandler(data []byte) (*FuncApplicationCommandHandler, error) {
 	f := &FuncApplicationCommandHandler{}
 
+	if len(data) < 2 {
+		return nil, fmt.Errorf("wrong length, should be at least 2 bytes got %d", len(data))
+	}
+
 	f.Command = commands.ZWaveCommand(data[0])
 	f.Class = data[1]
 
diff --git a/serialapi/discovery_nodes.go b/serialapi/discovery_nodes.go
index 59275ae..66db590 100644
--- a/serialapi/discovery_nodes.go
+++ b/serialapi/discovery_nodes.go
@@ -18,6 +18,10 @@ func NewDiscoverdNodes(data []byte) (*DiscoverdNodes, error) {
 		return nil, fmt.Errorf("wrong length, should be at least 6 bytes got %d", len(data))
 	}
 
+	if len(data)*8 > len(f.ActiveNodes) {
+		return nil, fmt.Errorf("wrong length, should be at most %d bytes got %d", len(f.ActiveNodes)/8, len(data))
+	}
+
 	for index, bits := range data {
 		f.ActiveNodes[index*8+0] = bits&0x01 != 0
 		f.ActiveNodes[index*8+1] = bits&0x02 != 0
diff --git a/serialapi/message.go b/serialapi/message.go
index 0754336..737b08b 100644
--- a/serialapi/message.go
+++ b/serialapi/message.go
@@ -111,6 +111,9 @@ func NewMessage(data []byte) (*Message, error) {
 	if len(data) <= 1 {
 		return message, nil
 	}
+	if len(data) < 4 {
+		return nil, fmt.Errorf("Message too short, expected at least 4 bytes got %d (%x)", len(data), data)
+	}
 	message.Length = data[1]
 	message.MessageType = data[2]
 	message.Function = ZWaveFunction(data[3])
@@ -118,12 +121,20 @@ func NewMessage(data []byte) (*Message, error) {
 	var err error
 	switch message.Function {
 	case ApplicationCommandHandler:
+		var payload []byte
+		if payload, err = embeddedPayload(data); err != nil {
+			break
+		}
 		message.NodeID = data[5]
 
-		message.Data, err = NewApplicationCommandHandler(data[7 : 7+data[6]])
+		message.Data, err = NewApplicationCommandHandler(payload)
 	case DiscoveryNodes:
+		var payload []byte
+		if payload, err = embeddedPayload(data); err != nil {
+			break
+		}
 
-		message.Data, err = NewDiscoverdNodes(data[7 : 7+data[6]])
+		message.Data, err = NewDiscoverdNodes(payload)
 	case GetNodeProtocolInfo:
 
 		message.Data, err = NewGetNodeProtocolInfo(data[4:])
@@ -164,3 +175,15 @@ func NewMessage(data []byte) (*Message, error) {
 	//ForceRoute = 0x08
 
 }
+
+// embeddedPayload returns the bytes announced by the length field at position 6 of a message
+func embeddedPayload(data []byte) ([]byte, error) {
+	if len(data) < 7 {
+		return nil, fmt.Errorf("Message too short, expected at least 7 bytes got %d (%x)", len(data), data)
+	}
+	end := 7 + int(data[6])
+	if len(data) < end {
+		return nil, fmt.Errorf("Message too short, expected at least %d bytes got %d (%x)", end, len(data), data)
+	}
+	return data[7:end], nil
+}
-- 
2.43.0


From e45babc9f69c652a7da6a89a084fa5c1dbe2bcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 03/32] fix: match a pending request against the received frame
 only, without reading past its end

---
 connection.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/connection.go b/connection.go
index a522409..6abe88b 100644
--- a/connection.go
+++ b/connection.go
@@ -252,7 +252,7 @@ func (conn *Connection) Reader() error {
 			if l > 1 { // A message was received
 				conn.Lock()
 				for index, c := range conn.inFlight {
-					if !c.Match(incomming) {
+					if !c.Match(incomming[:l]) {
 						logrus.Infof("Check match %#v", c)
 						continue
 					}
@@ -314,7 +314,7 @@ func (c *sendPackage) Match(incomming []byte) bool {
 
 	// SerialAPI specific
 	if !MatchByteAt(incomming, c.function, 3) && !(c.function == serialapi.SendData && MatchByteAt(incomming, serialapi.ApplicationCommandHandler, 3)) {
-		logrus.Warnf("Skipping pkg %s, function %x != %x", c.uuid, c.function, incomming[3])
+		logrus.Warnf("Skipping pkg %s, function %x not in %x", c.uuid, c.function, incomming)
 		return false
 	}
 
@@ -324,15 +324,15 @@ func (c *sendPackage) Match(incomming []byte) bool {
 
 	// Z-wave specific
 	if !MatchByteAt(incomming, c.node, 5) {
-		logrus.Warnf("Skipping pkg %s, node %x != %x", c.uuid, c.node, incomming[5])
+		logrus.Warnf("Skipping pkg %s, node %x not in %x", c.uuid, c.node, incomming)
 		return false
 	}
 	if !MatchByteAt(incomming, c.commandclass, 7) {
-		logrus.Warnf("Skipping pkg %s, commandclass %x is not %x", c.uuid, c.commandclass, incomming[7])
+		logrus.Warnf("Skipping pkg %s, commandclass %x not in %x", c.uuid, c.commandclass, incomming)
 		return false
 	}
 	if !MatchByteAt(incomming, c.expectedReport, 8) {
-		logrus.Errorf("Skipping pkg %s, expectedReport %x is not %x", c.uuid, c.expectedReport, incomming[8])
+		logrus.Errorf("Skipping pkg %s, expectedReport %x not in %x", c.uuid, c.expectedReport, incomming)
 		return false
 	}
 
@@ -358,7 +358,7 @@ func MatchByteAt(message []byte, b byte, position int) bool {
 		return true
 	}
 
-	if len(message) < position {
+	if len(message) <= position {
 		return false
 	}
 
-- 
2.43.0


From 16d78c7acb1e9dd8d43ead5495bca7b706554005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 04/32] fix: apply ACK/NAK/CAN to exactly the outstanding
 command, under the connection lock

The result loop ranged over inFlight without the lock, retransmitted whatever
command the loop variable pointed at 100 ms later and lost the CAN of a command
that an incoming report had already taken off the list.
---
 connection.go | 48 +++++++++++++++++++++++-------------------------
 1 file changed, 23 insertions(+), 25 deletions(-)

diff --git a/connection.go b/connection.go
index 6abe88b..a9897f4 100644
--- a/connection.go
+++ b/connection.go
@@ -20,7 +20,7 @@ type Connection struct {
 	// Keep track of requests wating a response
 	inFlight    map[string]*sendPackage
 	send        chan *sendPackage
-	lastCommand string // Uuid of last sent command
+	lastCommand *sendPackage // Last sent command, until its result is known
 	lastResult  chan byte
 
 	reportCallback func(byte, reports.Report)
@@ -149,10 +149,8 @@ func (conn *Connection) Writer() {
 		select {
 		case pkg := <-conn.send:
 			conn.Lock()
-			conn.lastCommand = ""
-
 			conn.inFlight[pkg.uuid] = pkg
-			conn.lastCommand = pkg.uuid
+			conn.lastCommand = pkg
 
 			if pkg.timeout != 0 { // Only add the message to the inflight list if someone is waiting for an response
 				go conn.timeoutWorker(pkg)
@@ -175,7 +173,9 @@ func (conn *Connection) Writer() {
 			conn.Unlock()
 
 			<-abort
-			conn.lastCommand = ""
+			conn.Lock()
+			conn.lastCommand = nil
+			conn.Unlock()
 		}
 	}
 }
@@ -211,30 +211,28 @@ func (conn *Connection) Reader() error {
 			}
 
 			if l == 1 {
-				for index, c := range conn.inFlight {
-					conn.RLock()
-					if c.uuid == conn.lastCommand {
-						select {
-						case conn.lastResult <- incomming[0]:
-						case <-time.After(time.Millisecond * 50):
-						}
+				// The command may already have been answered and left the in flight list
+				conn.Lock()
+				if c := conn.lastCommand; c != nil {
+					select {
+					case conn.lastResult <- incomming[0]:
+					case <-time.After(time.Millisecond * 50):
+					}
 
-						if msg.IsNAK() {
-							logrus.Warnf("Command failed: %s - %#v", c.uuid, c)
-							delete(conn.inFlight, index)
-							c.Close()
-						}
+					if msg.IsNAK() {
+						logrus.Warnf("Command failed: %s - %#v", c.uuid, c)
+						delete(conn.inFlight, c.uuid)
+						c.Close()
+					}
 
-						if msg.IsCAN() {
-							go func() {
-								<-time.After(time.Millisecond * 100)
-								conn.send <- c
-							}()
-						}
+					if msg.IsCAN() {
+						go func() {
+							<-time.After(time.Millisecond * 100)
+							conn.send <- c
+						}()
 					}
-					conn.RUnlock()
 				}
-
+				conn.Unlock()
 			}
 
 			// The message is not compleatly read yet, wait for some more data
-- 
2.43.0


From 895195915b787ca1d58d979ef1c861b22e666793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:38 +0000
Subject: [PATCH 05/32] fix: requests survive undecodable answers and being
 closed before their caller runs

---
 connection.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/connection.go b/connection.go
index a9897f4..3955048 100644
--- a/connection.go
+++ b/connection.go
@@ -85,9 +85,11 @@ func (conn *Connection) WriteWithTimeout(msg interfaces.Encodable, t time.Durati
 	pkg.returnChan = make(chan *serialapi.Message)
 	pkg.timeout = t
 
+	// The package drops its channel when it is closed, which may be before we return
+	result := pkg.returnChan
 	conn.send <- pkg
 
-	return pkg.returnChan, nil
+	return result, nil
 }
 func (conn *Connection) WriteAndWaitForReport(msg interfaces.Encodable, t time.Duration, er byte) (<-chan reports.Report, error) {
 	pkg := newSendPackage(msg.Encode())
@@ -96,11 +98,16 @@ func (conn *Connection) WriteAndWaitForReport(msg interfaces.Encodable, t time.D
 	pkg.timeout = t
 	pkg.expectedReport = er
 
+	// The package drops its channel when it is closed, which may be before the goroutine starts
+	result := pkg.returnChan
 	conn.send <- pkg
 
 	go func() {
 		defer close(returnChan)
-		for msg := range pkg.returnChan {
+		for msg := range result {
+			if msg == nil { // The answer could not be decoded
+				continue
+			}
 			if f, ok := msg.Data.(*serialapi.FuncApplicationCommandHandler); ok {
 				returnChan <- f.Report
 				return
-- 
2.43.0


From 590190ce8eafed9e102a0b8fdc684f773fe97f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:23 +0000
Subject: [PATCH 06/32] fix: one writer for all ports, and no nil port while a
 reopen fails

---
 connection.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/connection.go b/connection.go
index 3955048..bf455e6 100644
--- a/connection.go
+++ b/connection.go
@@ -22,6 +22,7 @@ type Connection struct {
 	send        chan *sendPackage
 	lastCommand *sendPackage // Last sent command, until its result is known
 	lastResult  chan byte
+	startWriter sync.Once
 
 	reportCallback func(byte, reports.Report)
 
@@ -126,7 +127,7 @@ func (conn *Connection) Connect(connectChan chan error) (err error) {
 		conn.Connected = false
 	}()
 
-	conn.readWriteCloser, err = conn.portOpener.Open()
+	port, err := conn.portOpener.Open()
 
 	if err != nil {
 		select {
@@ -136,6 +137,11 @@ func (conn *Connection) Connect(connectChan chan error) (err error) {
 		return
 	}
 
+	// Keep the old (closed) port until there is a new one, the writer uses it all the time
+	conn.Lock()
+	conn.readWriteCloser = port
+	conn.Unlock()
+
 	go func() {
 		<-time.After(time.Millisecond * 200)
 		logrus.Debug("Connected")
@@ -146,7 +152,7 @@ func (conn *Connection) Connect(connectChan chan error) (err error) {
 		conn.Connected = true
 	}()
 
-	go conn.Writer()
+	conn.startWriter.Do(func() { go conn.Writer() }) // It lives on when the port is reopened
 	return conn.Reader()
 }
 
-- 
2.43.0


From 59dc3208cc2bee3c60f0e522e9923a94aad45c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:36 +0000
Subject: [PATCH 07/32] fix: the connected flag stays false when the port was
 lost right after opening

---
 connection.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/connection.go b/connection.go
index bf455e6..409e57b 100644
--- a/connection.go
+++ b/connection.go
@@ -122,9 +122,13 @@ func (conn *Connection) WriteAndWaitForReport(msg interfaces.Encodable, t time.D
 }
 
 func (conn *Connection) Connect(connectChan chan error) (err error) {
+	lost := false // Protected by the lock
 	defer func() {
 		logrus.Error("Disonnected")
+		conn.Lock()
+		lost = true
 		conn.Connected = false
+		conn.Unlock()
 	}()
 
 	port, err := conn.portOpener.Open()
@@ -149,7 +153,12 @@ func (conn *Connection) Connect(connectChan chan error) (err error) {
 		case connectChan <- nil:
 		default:
 		}
-		conn.Connected = true
+
+		conn.Lock()
+		if !lost {
+			conn.Connected = true
+		}
+		conn.Unlock()
 	}()
 
 	conn.startWriter.Do(func() { go conn.Writer() }) // It lives on when the port is reopened
-- 
2.43.0


From 734b7b99452ea9f205abe0b339bb5099bc8db504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:37 +0000
Subject: [PATCH 08/32] fix: stop opening the port once the failed connect has
 been reported

---
 connection.go | 8 ++++++++
 gozwave.go    | 5 ++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/connection.go b/connection.go
index 409e57b..bbf8a56 100644
--- a/connection.go
+++ b/connection.go
@@ -165,6 +165,14 @@ func (conn *Connection) Connect(connectChan chan error) (err error) {
 	return conn.Reader()
 }
 
+// opened tells if the port has been opened at least once
+func (conn *Connection) opened() bool {
+	conn.RLock()
+	defer conn.RUnlock()
+
+	return conn.readWriteCloser != nil
+}
+
 func (conn *Connection) Writer() {
 	for {
 		<-time.After(time.Millisecond * 50)
diff --git a/gozwave.go b/gozwave.go
index 432b3cc..b5c2c57 100644
--- a/gozwave.go
+++ b/gozwave.go
@@ -26,7 +26,7 @@ func ConnectWithCustomPortOpener(port string, filename string, po PortOpener) (*
 	var err error
 
 	c.Connection.reportCallback = c.DeliverReportToNode
-	connected := make(chan error)
+	connected := make(chan error, 1) // The first outcome is kept even if we are not waiting for it yet
 
 	//spew.Dump(c)
 
@@ -38,6 +38,9 @@ func ConnectWithCustomPortOpener(port string, filename string, po PortOpener) (*
 		for {
 			err := c.Connection.Connect(connected)
 			logrus.Error(err)
+			if !c.Connection.opened() {
+				return // We failed to connect, nobody will use this controller
+			}
 			<-time.After(time.Second)
 		}
 	}()
-- 
2.43.0


From ffed631842cb3ca2edc3fdf6828f64d85bb7aeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:13 +0000
Subject: [PATCH 09/32] fix: lock the node list itself instead of a copy, and
 hand out a copy of the map

The value receivers locked a copy of the mutex, All() returned the live map and
held the locks of all nodes at once, which deadlocks two callers with two writers.
---
 nodes/list.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/nodes/list.go b/nodes/list.go
index 297f673..03ffed7 100644
--- a/nodes/list.go
+++ b/nodes/list.go
@@ -37,19 +37,20 @@ func (l *List) Add(node *Node) {
 	l.Unlock()
 }
 
-func (l List) All() map[int]*Node {
+func (l *List) All() map[int]*Node {
 	l.RLock()
 	defer l.RUnlock()
 
-	for _, v := range l.nodes {
-		v.RLock()
-		defer v.RUnlock()
+	// A copy, the list may change while the caller is using it
+	nodes := make(map[int]*Node, len(l.nodes))
+	for k, v := range l.nodes {
+		nodes[k] = v
 	}
 
-	return l.nodes
+	return nodes
 }
 
-func (l List) Get(id int) *Node {
+func (l *List) Get(id int) *Node {
 	l.RLock()
 	defer l.RUnlock()
 
@@ -67,11 +68,18 @@ func (l List) Get(id int) *Node {
 //l.Unlock()
 //}
 
-func (l List) MarshalJSON() ([]byte, error) {
-	s := make(map[string]*Node)
+func (l *List) MarshalJSON() ([]byte, error) {
+	s := make(map[string]json.RawMessage)
 
 	for k, v := range l.All() {
-		s[strconv.Itoa(k)] = v
+		// One node at a time, it must not change while it is encoded
+		v.RLock()
+		b, err := json.Marshal(v)
+		v.RUnlock()
+		if err != nil {
+			return nil, err
+		}
+		s[strconv.Itoa(k)] = b
 	}
 
 	return json.Marshal(s)
-- 
2.43.0


From 68692bb28407bf73e385d4a6fd16d69e0706efd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:14 +0000
Subject: [PATCH 10/32] fix: create the wake-up channel under the node lock

---
 nodes/node.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nodes/node.go b/nodes/node.go
index 5771623..5c64521 100644
--- a/nodes/node.go
+++ b/nodes/node.go
@@ -67,6 +67,9 @@ func (n *Node) Setup(connection interfaces.Writer, pushEventFunc func(interface{
 }
 
 func (n *Node) isAwake() chan struct{} {
+	n.Lock()
+	defer n.Unlock()
+
 	if n.IsAwake {
 		c := make(chan struct{})
 		close(c)
-- 
2.43.0


From 6157b956a1fffee8df73815b790f89218b7cefbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:31 +0000
Subject: [PATCH 11/32] fix: keep the product's command classes when
 identification takes another turn

---
 nodes/node.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nodes/node.go b/nodes/node.go
index 5c64521..b2fd55c 100644
--- a/nodes/node.go
+++ b/nodes/node.go
@@ -175,11 +175,11 @@ func (n *Node) Identify() {
 			n.Unlock()
 		}
 
-		// set basic commandClasses
-		classes := database.GetMandatoryCommandClasses(n.ProtocolInfo().Generic, n.ProtocolInfo().Specific)
-
+		// set basic commandClasses, until the classes of the product are added to them below
 		n.Lock()
-		n.CommandClasses = classes
+		if n.ManufacurerSpecific == nil {
+			n.CommandClasses = database.GetMandatoryCommandClasses(n.protocolInfo.Generic, n.protocolInfo.Specific)
+		}
 		n.Unlock()
 
 		//<-self.Connection.SendRaw([]byte{serialapi.GetNodeProtocolInfo, byte(index + 1)}) // Request node information
-- 
2.43.0


From f46b5e492b387d5489bf115046041bba05d7e163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:51 +0000
Subject: [PATCH 12/32] fix: address endpoints by the ids 1..N the device
 reported

---
 nodes/endpoints.go         | 5 +++--
 nodes/request_endpoints.go | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/nodes/endpoints.go b/nodes/endpoints.go
index 19ef2a0..b7c5bdc 100644
--- a/nodes/endpoints.go
+++ b/nodes/endpoints.go
@@ -23,11 +23,12 @@ func (n *Node) Endpoint(id int) *Endpoint {
 		return nil
 	}
 
-	if id > len(n.Endpoints) {
+	// The endpoints are numbered from 1
+	if id < 1 || id > len(n.Endpoints) {
 		return nil
 	}
 
-	return n.Endpoints[id]
+	return n.Endpoints[id-1]
 }
 
 func (e *Endpoint) Write(msg interfaces.Encodable) {
diff --git a/nodes/request_endpoints.go b/nodes/request_endpoints.go
index da20149..d46958a 100644
--- a/nodes/request_endpoints.go
+++ b/nodes/request_endpoints.go
@@ -51,7 +51,7 @@ func (n *Node) RequestEndpoints() error {
 			logrus.Debug(cmd.String())
 			n.Lock()
 			n.Endpoints = make([]*Endpoint, 0)
-			for i := 1; i < cmd.Endpoints; i++ {
+			for i := 1; i <= cmd.Endpoints; i++ {
 				n.Endpoints = append(n.Endpoints, &Endpoint{
 					Id:             i,
 					CommandClasses: n.CommandClasses,
-- 
2.43.0


From a8b85176608f2b1946f166bc9a70f2b5bfcf22a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:34 +0000
Subject: [PATCH 13/32] fix: save the configuration atomically and report
 failures

os.Create truncated the only copy before writing it and every error was dropped.
The comparison with the file on disk could never be equal, and read the live
node maps without their locks.
---
 controller.go | 51 ++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/controller.go b/controller.go
index 841c7c3..f0ca966 100644
--- a/controller.go
+++ b/controller.go
@@ -5,7 +5,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"os"
-	"reflect"
 	"sync"
 	"time"
 
@@ -23,6 +22,7 @@ type Controller struct {
 
 	filename        string
 	triggerFileSave chan struct{}
+	saveLock        sync.Mutex
 
 	sync.RWMutex
 }
@@ -132,30 +132,55 @@ func (c *Controller) DeliverReportToNode(node byte, report reports.Report) {
 }
 
 func (c *Controller) SaveConfigurationToFile() error {
-	controller, err := c.loadConfigurationFromFile()
-	if err == nil {
-		if reflect.DeepEqual(c, controller) {
-			return nil
-		}
+	if c.filename == "" {
+		return fmt.Errorf("no configuration file name")
 	}
 
-	configFile, err := os.Create(c.filename)
-	if err != nil {
-		logrus.Error("creating config file", err.Error())
-	}
-	defer configFile.Close()
+	// One save at a time, they share the temporary file
+	c.saveLock.Lock()
+	defer c.saveLock.Unlock()
 
-	logrus.Info("Save config: ", c.filename)
 	var out bytes.Buffer
 	b, err := json.MarshalIndent(c, "", "\t")
 	if err != nil {
 		logrus.Error("error marshal json", err)
+		return err
 	}
 	json.Indent(&out, b, "", "\t")
-	out.WriteTo(configFile)
+
+	logrus.Info("Save config: ", c.filename)
+
+	// Write a new file and put it in place when it is complete, so that there
+	// always is a whole configuration file whatever happens on the way
+	tmp := c.filename + ".tmp"
+	if err := writeFile(tmp, out.Bytes()); err != nil {
+		logrus.Error("writing config file", err.Error())
+		os.Remove(tmp)
+		return err
+	}
+	if err := os.Rename(tmp, c.filename); err != nil {
+		logrus.Error("replacing config file", err.Error())
+		os.Remove(tmp)
+		return err
+	}
 
 	return nil
 }
+
+func writeFile(name string, data []byte) error {
+	file, err := os.Create(name)
+	if err != nil {
+		return err
+	}
+	if _, err = file.Write(data); err == nil {
+		err = file.Sync()
+	}
+	if cerr := file.Close(); err == nil {
+		err = cerr
+	}
+	return err
+}
+
 func (c *Controller) LoadConfigurationFromFile() error {
 	controller, err := c.loadConfigurationFromFile()
 	if err != nil {
-- 
2.43.0


From eb4002b105f7821f7b424576ae58c116a52fbcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:53 +0000
Subject: [PATCH 14/32] fix: survive configuration files without nodes or with
 missing node fields

---
 controller.go |  3 +++
 nodes/list.go |  4 ++++
 nodes/node.go | 30 ++++++++++++++++++++++++++++++
 3 files changed, 37 insertions(+)

diff --git a/controller.go b/controller.go
index f0ca966..8cb75d9 100644
--- a/controller.go
+++ b/controller.go
@@ -209,6 +209,9 @@ func (c *Controller) loadConfigurationFromFile() (*Controller, error) {
 	if err = jsonParser.Decode(&controller); err != nil {
 		return nil, err
 	}
+	if controller == nil || controller.Nodes == nil {
+		return nil, fmt.Errorf("no nodes in %s", c.filename)
+	}
 
 	return controller, nil
 }
diff --git a/nodes/list.go b/nodes/list.go
index 03ffed7..f7ec8d9 100644
--- a/nodes/list.go
+++ b/nodes/list.go
@@ -93,6 +93,10 @@ func (l *List) UnmarshalJSON(data []byte) error {
 	}
 
 	for _, v := range s {
+		if v == nil {
+			continue
+		}
+		v.restore()
 		l.Add(v)
 	}
 
diff --git a/nodes/node.go b/nodes/node.go
index b2fd55c..8585050 100644
--- a/nodes/node.go
+++ b/nodes/node.go
@@ -66,6 +66,36 @@ func (n *Node) Setup(connection interfaces.Writer, pushEventFunc func(interface{
 	n.pushEventFunc = pushEventFunc
 }
 
+// restore makes a node that was decoded from a configuration file, which may lack any of its fields, usable
+func (n *Node) restore() {
+	if n.StateBool == nil {
+		n.StateBool = make(map[string]bool)
+	}
+	if n.StateFloat == nil {
+		n.StateFloat = make(map[string]float64)
+	}
+
+	n.CommandClasses = withoutNil(n.CommandClasses)
+	endpoints := n.Endpoints[:0]
+	for _, e := range n.Endpoints {
+		if e != nil {
+			e.CommandClasses = withoutNil(e.CommandClasses)
+			endpoints = append(endpoints, e)
+		}
+	}
+	n.Endpoints = endpoints
+}
+
+func withoutNil(classes []*database.CommandClass) []*database.CommandClass {
+	ret := classes[:0]
+	for _, v := range classes {
+		if v != nil {
+			ret = append(ret, v)
+		}
+	}
+	return ret
+}
+
 func (n *Node) isAwake() chan struct{} {
 	n.Lock()
 	defer n.Unlock()
-- 
2.43.0


From d1a9a753b3d8ea733cc1b0dae38d432c1d807a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:10 +0000
Subject: [PATCH 15/32] fix: record the bytes that were transferred, in one
 stream across reopens

---
 serialrecorder/serialrecorder.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/serialrecorder/serialrecorder.go b/serialrecorder/serialrecorder.go
index 92453b1..51a5603 100644
--- a/serialrecorder/serialrecorder.go
+++ b/serialrecorder/serialrecorder.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"log"
 	"os"
+	"sync"
 	"time"
 
 	"github.com/tarm/serial"
@@ -17,6 +18,7 @@ type serialRecorder struct {
 	Logger io.Writer
 
 	writeBuffer chan *Row
+	startLog    sync.Once
 }
 
 // Row logs one serial read or write
@@ -38,13 +40,13 @@ func New(port string, baud int) *serialRecorder {
 
 func (sr *serialRecorder) Read(p []byte) (n int, err error) {
 	n, err = sr.serial.Read(p)
-	go sr.writeToLog(DirectionRead, p[:n])
+	go sr.writeToLog(DirectionRead, append([]byte(nil), p[:n]...)) // The caller may reuse p
 	return
 }
 
 func (sr *serialRecorder) Write(p []byte) (n int, err error) {
 	n, err = sr.serial.Write(p)
-	go sr.writeToLog(DirectionWrite, p[:n])
+	go sr.writeToLog(DirectionWrite, append([]byte(nil), p[:n]...)) // The caller may reuse p
 	return
 }
 
@@ -71,7 +73,7 @@ func (sr *serialRecorder) Close() error {
 	return sr.serial.Close()
 }
 func (sr *serialRecorder) Open() (io.ReadWriteCloser, error) {
-	go sr.logWriter()
+	sr.startLog.Do(func() { go sr.logWriter() }) // One gob stream, also when the port is reopened
 
 	var err error
 	sr.serial, err = serial.OpenPort(&serial.Config{Name: sr.port, Baud: sr.baud})
-- 
2.43.0


From 9d848ec7eabcc7b3a78b056c519427b6296cad31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:26 +0000
Subject: [PATCH 16/32] fix: a failed reopen does not leave the recorder with a
 nil port

---
 serialrecorder/serialrecorder.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/serialrecorder/serialrecorder.go b/serialrecorder/serialrecorder.go
index 51a5603..c4cfcce 100644
--- a/serialrecorder/serialrecorder.go
+++ b/serialrecorder/serialrecorder.go
@@ -75,7 +75,10 @@ func (sr *serialRecorder) Close() error {
 func (sr *serialRecorder) Open() (io.ReadWriteCloser, error) {
 	sr.startLog.Do(func() { go sr.logWriter() }) // One gob stream, also when the port is reopened
 
-	var err error
-	sr.serial, err = serial.OpenPort(&serial.Config{Name: sr.port, Baud: sr.baud})
-	return sr, err
+	port, err := serial.OpenPort(&serial.Config{Name: sr.port, Baud: sr.baud})
+	if err != nil {
+		return nil, err // The old port is still used for writing
+	}
+	sr.serial = port
+	return sr, nil
 }
-- 
2.43.0


From 412f1ebbcd24d8aea1eea2d7dd7e91984d011340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 17/32] fix: print the last rows of a recording too

---
 .../serialrecordingtohex.go                   | 26 +++++++++++++++----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/cmd/serialrecordingtohex/serialrecordingtohex.go b/cmd/serialrecordingtohex/serialrecordingtohex.go
index a545385..69dd5bf 100644
--- a/cmd/serialrecordingtohex/serialrecordingtohex.go
+++ b/cmd/serialrecordingtohex/serialrecordingtohex.go
@@ -76,6 +76,13 @@ func main() {
 		}
 	}
 
+	// The rows that are still being combined when the recording ends
+	for _, l := range []*logRowCombiner{&reads, &writes} {
+		if c := l.flush(); c != nil {
+			combinedRows = append(combinedRows, *c)
+		}
+	}
+
 	// Sort the rows and print them out
 	sort.Sort(combinedRows)
 	for _, v := range combinedRows {
@@ -128,14 +135,23 @@ func (l *logRowCombiner) combine(r serialrecorder.Row) *row {
 		return nil
 	}
 
-	combinedRow := &row{
-		Timestamp: l.prev.Timestamp,
-		Direction: l.prev.Direction,
-		Data:      l.buf,
-	}
+	combinedRow := l.flush()
 
 	l.buf = r.Data
 	l.prev = r
 
 	return combinedRow
 }
+
+// flush returns the combined row so far, or nil if there is none
+func (l *logRowCombiner) flush() *row {
+	if (l.prev.Timestamp == time.Time{}) {
+		return nil
+	}
+
+	return &row{
+		Timestamp: l.prev.Timestamp,
+		Direction: l.prev.Direction,
+		Data:      l.buf,
+	}
+}
-- 
2.43.0


From 2cd61ad87154553210dfc2a7d7a17131cfca9130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:21 +0000
Subject: [PATCH 18/32] fix: ask for the capabilities of one node at a time,
 the answer carries no node id

---
 nodes/protocol_info.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nodes/protocol_info.go b/nodes/protocol_info.go
index f2fd626..5b6599d 100644
--- a/nodes/protocol_info.go
+++ b/nodes/protocol_info.go
@@ -2,6 +2,7 @@ package nodes
 
 import (
 	"fmt"
+	"sync"
 	"time"
 
 	"github.com/sirupsen/logrus"
@@ -15,6 +16,9 @@ func (n *Node) ProtocolInfo() *serialapi.FuncGetNodeProtocolInfo {
 	return n.protocolInfo
 }
 
+// The answer does not tell which node it is about, so there must only be one question at a time
+var protocolInfoLock sync.Mutex
+
 func (n *Node) RequestProtocolInfo() (*serialapi.FuncGetNodeProtocolInfo, error) {
 	cmd := serialapi.NewRaw(
 		[]byte{
@@ -22,6 +26,9 @@ func (n *Node) RequestProtocolInfo() (*serialapi.FuncGetNodeProtocolInfo, error)
 			byte(n.Id),                    // Node id
 		})
 
+	protocolInfoLock.Lock()
+	defer protocolInfoLock.Unlock()
+
 	t, err := n.connection.WriteWithTimeout(cmd, time.Second*10)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 42b3271d214d129b3c5011c8dd7fcb40db4bb92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:35 +0000
Subject: [PATCH 19/32] fix: apply reports in the order they were received

Every report had its own goroutine. Now each waits for the one before it, and
an alarm no longer occupies its goroutine for the second until it is cleared.
---
 connection.go | 17 ++++++++++++++++-
 nodes/node.go | 18 ++++++++++--------
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/connection.go b/connection.go
index bbf8a56..f22881e 100644
--- a/connection.go
+++ b/connection.go
@@ -25,6 +25,7 @@ type Connection struct {
 	startWriter sync.Once
 
 	reportCallback func(byte, reports.Report)
+	delivered      chan struct{} // Closed when the last report has been delivered
 
 	sync.RWMutex
 }
@@ -302,7 +303,7 @@ func (conn *Connection) Reader() error {
 			if msg != nil {
 				if cmd, ok := msg.Data.(*serialapi.FuncApplicationCommandHandler); ok {
 					// Deliver the update to the parent
-					go conn.reportCallback(msg.NodeID, cmd.Report)
+					conn.deliver(msg.NodeID, cmd.Report)
 				}
 			}
 
@@ -318,6 +319,20 @@ func (conn *Connection) Reader() error {
 
 }
 
+// deliver hands over a report without waiting for it to be processed, but after the reports received before it
+func (conn *Connection) deliver(node byte, report reports.Report) {
+	previous, done := conn.delivered, make(chan struct{})
+	conn.delivered = done
+
+	go func() {
+		defer close(done)
+		if previous != nil {
+			<-previous
+		}
+		conn.reportCallback(node, report)
+	}()
+}
+
 func newSendPackage(data []byte) *sendPackage {
 	pkg := &sendPackage{
 		message: serialapi.CompileMessage(data),
diff --git a/nodes/node.go b/nodes/node.go
index 8585050..1ae0bbf 100644
--- a/nodes/node.go
+++ b/nodes/node.go
@@ -128,15 +128,17 @@ func (n *Node) ProcessEvent(event reports.Report) {
 			n.pushEvent(events.NodeUpdated{
 				Address: n.Id,
 			})
-			n.Unlock()
 
-			<-time.After(time.Second)
-			n.Lock()
-			n.StateBool["alarm"] = false
-			n.StateFloat["alarm"] = 0
-			n.pushEvent(events.NodeUpdated{
-				Address: n.Id,
-			})
+			go func() {
+				<-time.After(time.Second)
+				n.Lock()
+				defer n.Unlock()
+				n.StateBool["alarm"] = false
+				n.StateFloat["alarm"] = 0
+				n.pushEvent(events.NodeUpdated{
+					Address: n.Id,
+				})
+			}()
 		}
 	case *reports.WakeUp:
 		logrus.Error("NODE RECEIVED WAKEUP")
-- 
2.43.0


From f7b4ad219b1125ad2941d0640bd4c38f44d07778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 20/32] fix: wire a discovered node up before it can be found

---
 controller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller.go b/controller.go
index 8cb75d9..781727f 100644
--- a/controller.go
+++ b/controller.go
@@ -79,12 +79,12 @@ func (c *Controller) initNode(id int, node *nodes.Node) *nodes.Node {
 	}
 
 	node = nodes.New(id)
+	node.Setup(c.Connection, c.pushEvent) // Before anyone can find it
 	c.Nodes.Add(node)
 	c.pushEvent(events.NodeDiscoverd{
 		Address: node.Id,
 	})
 
-	node.Setup(c.Connection, c.pushEvent)
 	return node
 }
 
-- 
2.43.0


From 6d161d0b30c95e0764cc65f37061d1f1b45b00c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:09 +0000
Subject: [PATCH 21/32] fix: escape NUL and byte order marks in generated
 device texts

Go source must not contain them, one such text made the generated code
invalid.
---
 generators/database/database.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/generators/database/database.go b/generators/database/database.go
index 9abc242..7ca094f 100644
--- a/generators/database/database.go
+++ b/generators/database/database.go
@@ -126,6 +126,8 @@ var escaper = strings.NewReplacer(
 	"\"", "\\\"", // quote
 	"\r", "\\r",
 	"\n", "\\n",
+	"\x00", "\\x00", // not allowed in Go source
+	"\ufeff", "\\ufeff", // byte order mark, not allowed in Go source
 )
 
 var funcMap = template.FuncMap{
-- 
2.43.0


From 03fa5870931c227cce58385b6404078a0cf1813d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:09 +0000
Subject: [PATCH 22/32] fix: detect duplicate device ids regardless of their
 case

The generated lookup is by the lower case ids, so two ids that differed by
their case only gave a duplicate case, which does not compile.
---
 generators/database/database.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generators/database/database.go b/generators/database/database.go
index 7ca094f..2d9f59a 100644
--- a/generators/database/database.go
+++ b/generators/database/database.go
@@ -301,7 +301,8 @@ func main() {
 
 		refs := []deviceRef{}
 		for _, ref := range dev.DeviceRefs {
-			iden := dev.ManufacturerID + "_" + ref.ProductType + "_" + ref.ProductID
+			// The lookup is by the lower case ids
+			iden := strings.ToLower(dev.ManufacturerID + "_" + ref.ProductType + "_" + ref.ProductID)
 			if idens[iden] {
 				// FIXME: How do we handle duplicates?
 				log.Printf("warning: %s duplicate iden %s\n", iden, file.Name())
-- 
2.43.0


From 684100edfc88f3fe6a68ad20f4178a43573b1cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:24 +0000
Subject: [PATCH 23/32] fix: recognise Multichannel Association among the
 mandatory classes

Every name containing Association was taken for Association, so a power
strip was given that class twice and never Multichannel Association.
---
 database/mandatory.go                       |  2 +-
 generators/commandclasses/commandclasses.go | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/database/mandatory.go b/database/mandatory.go
index ae0e4d6..3a2d327 100644
--- a/database/mandatory.go
+++ b/database/mandatory.go
@@ -650,7 +650,7 @@ var definitions = map[Definition][]*CommandClass{
 			ID: 0x60,
 		},
 		&CommandClass{
-			ID: 0x85,
+			ID: 0x8e,
 		},
 		&CommandClass{
 			ID: 0x73,
diff --git a/generators/commandclasses/commandclasses.go b/generators/commandclasses/commandclasses.go
index cbd84fb..8866dd6 100644
--- a/generators/commandclasses/commandclasses.go
+++ b/generators/commandclasses/commandclasses.go
@@ -135,6 +135,11 @@ func StringToByte(s string) byte {
 		return commands.AssociationGRPInfo
 	}
 
+	//- Multichannel Association (version 3 or newer)
+	if strings.Contains(s, "Multichannel Association") {
+		return commands.MultiInstanceAssociation
+	}
+
 	//- Association (version 2 or newer)
 	if strings.Contains(s, "Association") {
 		return commands.Association
@@ -170,11 +175,6 @@ func StringToByte(s string) byte {
 	if strings.Contains(s, "Meter") {
 		return commands.Meter
 	}
-	//- Multichannel Association (version 3 or newer)
-	if strings.Contains(s, "Multichannel Association") {
-		return commands.MultiInstanceAssociation
-	}
-
 	//- Multi Channel (version 4 or newer)
 	if strings.Contains(s, "Multi Channel") {
 		return commands.MultiInstance
-- 
2.43.0


From 0bed95102a98cf963c29a4a7c4363a2a988b5ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:24 +0000
Subject: [PATCH 24/32] fix: escape the versions of command classes in
 generated code

---
 generators/database/database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators/database/database.go b/generators/database/database.go
index 2d9f59a..929f92d 100644
--- a/generators/database/database.go
+++ b/generators/database/database.go
@@ -209,7 +209,7 @@ func New{{ $value.ManufacturerID }}_{{ $ref.ProductType }}_{{ $ref.ProductID }}(
 				NonSecure: {{$cmd.NonSecure}},
 				{{- end }}
 				{{- if ne $cmd.Version ""}}
-				Version: "{{$cmd.Version}}",
+				Version: "{{$cmd.Version | escape}}",
 				{{- end }}
 			},
 {{- end}}
-- 
2.43.0


From 401e41eacb0cf33a3cab12a0c5aa1639d989804f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:25 +0000
Subject: [PATCH 25/32] fix: keep the last mandatory classes of a file that
 ends without an empty line

---
 generators/commandclasses/commandclasses.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/generators/commandclasses/commandclasses.go b/generators/commandclasses/commandclasses.go
index 8866dd6..f55da90 100644
--- a/generators/commandclasses/commandclasses.go
+++ b/generators/commandclasses/commandclasses.go
@@ -46,12 +46,15 @@ func main() {
 	scanner := bufio.NewScanner(file)
 	defs := [][]string{}
 	classes := []string{}
+	save := func() {
+		for _, def := range defs {
+			data.CommandClasses[def[0]+"|"+def[1]] = classes
+		}
+	}
 	for scanner.Scan() {
 		text := strings.TrimSpace(scanner.Text())
 		if text == "" {
-			for _, def := range defs {
-				data.CommandClasses[def[0]+"|"+def[1]] = classes
-			}
+			save()
 			defs = [][]string{}
 			classes = []string{}
 			continue
@@ -80,6 +83,7 @@ func main() {
 			//fmt.Println(text)
 		}
 	}
+	save() // The last one may end with the file
 
 	if err := scanner.Err(); err != nil {
 		log.Fatal(err)
-- 
2.43.0


From ed648605fe3c54698c8b091547e0905aba66faac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:38 +0000
Subject: [PATCH 26/32] fix: record reads and writes in the order they happened

Every row was queued by a goroutine of its own, so two rows of one
direction could be logged, and time stamped, in the wrong order.
---
 serialrecorder/serialrecorder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serialrecorder/serialrecorder.go b/serialrecorder/serialrecorder.go
index c4cfcce..5e17cd1 100644
--- a/serialrecorder/serialrecorder.go
+++ b/serialrecorder/serialrecorder.go
@@ -40,13 +40,13 @@ func New(port string, baud int) *serialRecorder {
 
 func (sr *serialRecorder) Read(p []byte) (n int, err error) {
 	n, err = sr.serial.Read(p)
-	go sr.writeToLog(DirectionRead, append([]byte(nil), p[:n]...)) // The caller may reuse p
+	sr.writeToLog(DirectionRead, append([]byte(nil), p[:n]...)) // The caller may reuse p
 	return
 }
 
 func (sr *serialRecorder) Write(p []byte) (n int, err error) {
 	n, err = sr.serial.Write(p)
-	go sr.writeToLog(DirectionWrite, append([]byte(nil), p[:n]...)) // The caller may reuse p
+	sr.writeToLog(DirectionWrite, append([]byte(nil), p[:n]...)) // The caller may reuse p
 	return
 }
 
-- 
2.43.0


From b55a9a656b8e42e8defcba871eb377ad5f59324a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:01 +0000
Subject: [PATCH 27/32] fix: do not leave a goroutine behind when nobody takes
 the answer of a request

---
 connection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/connection.go b/connection.go
index f22881e..6fbab22 100644
--- a/connection.go
+++ b/connection.go
@@ -95,7 +95,7 @@ func (conn *Connection) WriteWithTimeout(msg interfaces.Encodable, t time.Durati
 }
 func (conn *Connection) WriteAndWaitForReport(msg interfaces.Encodable, t time.Duration, er byte) (<-chan reports.Report, error) {
 	pkg := newSendPackage(msg.Encode())
-	returnChan := make(chan reports.Report)
+	returnChan := make(chan reports.Report, 1) // The goroutine ends even if nobody takes the answer
 	pkg.returnChan = make(chan *serialapi.Message)
 	pkg.timeout = t
 	pkg.expectedReport = er
-- 
2.43.0


From 3587609784cf291c7117a1102577ef9e26d6aef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:24 +0000
Subject: [PATCH 28/32] fix: do not remember commands that nobody waits for an
 answer of

---
 connection.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/connection.go b/connection.go
index 6fbab22..d6e94fb 100644
--- a/connection.go
+++ b/connection.go
@@ -180,10 +180,12 @@ func (conn *Connection) Writer() {
 		select {
 		case pkg := <-conn.send:
 			conn.Lock()
-			conn.inFlight[pkg.uuid] = pkg
+			if pkg.IsOpen() { // Only add the message to the inflight list if someone is waiting for an response
+				conn.inFlight[pkg.uuid] = pkg
+			}
 			conn.lastCommand = pkg
 
-			if pkg.timeout != 0 { // Only add the message to the inflight list if someone is waiting for an response
+			if pkg.timeout != 0 {
 				go conn.timeoutWorker(pkg)
 			}
 
-- 
2.43.0


From 01a7ebb194a9532dee86977e5d0040b0bae953ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:01 +0000
Subject: [PATCH 29/32] fix: do not use the recorded port while it is being
 replaced

---
 serialrecorder/serialrecorder.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/serialrecorder/serialrecorder.go b/serialrecorder/serialrecorder.go
index 5e17cd1..04f1fd2 100644
--- a/serialrecorder/serialrecorder.go
+++ b/serialrecorder/serialrecorder.go
@@ -13,6 +13,7 @@ import (
 
 type serialRecorder struct {
 	serial io.ReadWriteCloser
+	lock   sync.RWMutex // Protects serial, the port may be used while it is reopened
 	port   string
 	baud   int
 	Logger io.Writer
@@ -39,13 +40,13 @@ func New(port string, baud int) *serialRecorder {
 }
 
 func (sr *serialRecorder) Read(p []byte) (n int, err error) {
-	n, err = sr.serial.Read(p)
+	n, err = sr.opened().Read(p)
 	sr.writeToLog(DirectionRead, append([]byte(nil), p[:n]...)) // The caller may reuse p
 	return
 }
 
 func (sr *serialRecorder) Write(p []byte) (n int, err error) {
-	n, err = sr.serial.Write(p)
+	n, err = sr.opened().Write(p)
 	sr.writeToLog(DirectionWrite, append([]byte(nil), p[:n]...)) // The caller may reuse p
 	return
 }
@@ -70,7 +71,7 @@ func (sr *serialRecorder) logWriter() {
 }
 
 func (sr *serialRecorder) Close() error {
-	return sr.serial.Close()
+	return sr.opened().Close()
 }
 func (sr *serialRecorder) Open() (io.ReadWriteCloser, error) {
 	sr.startLog.Do(func() { go sr.logWriter() }) // One gob stream, also when the port is reopened
@@ -79,6 +80,16 @@ func (sr *serialRecorder) Open() (io.ReadWriteCloser, error) {
 	if err != nil {
 		return nil, err // The old port is still used for writing
 	}
+	sr.lock.Lock()
 	sr.serial = port
+	sr.lock.Unlock()
 	return sr, nil
 }
+
+// opened returns the port that was opened last
+func (sr *serialRecorder) opened() io.ReadWriteCloser {
+	sr.lock.RLock()
+	defer sr.lock.RUnlock()
+
+	return sr.serial
+}
-- 
2.43.0


From bfe7378451f4f74569eb372db58d66bb8582801b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:05 +0000
Subject: [PATCH 30/32] fix: read the endpoints and command classes of a node
 under its lock

---
 nodes/endpoints.go | 3 +++
 nodes/node.go      | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/nodes/endpoints.go b/nodes/endpoints.go
index b7c5bdc..82c10ae 100644
--- a/nodes/endpoints.go
+++ b/nodes/endpoints.go
@@ -23,6 +23,9 @@ func (n *Node) Endpoint(id int) *Endpoint {
 		return nil
 	}
 
+	n.RLock()
+	defer n.RUnlock()
+
 	// The endpoints are numbered from 1
 	if id < 1 || id > len(n.Endpoints) {
 		return nil
diff --git a/nodes/node.go b/nodes/node.go
index 1ae0bbf..f112d03 100644
--- a/nodes/node.go
+++ b/nodes/node.go
@@ -341,6 +341,9 @@ func (n *Node) pushEvent(event interface{}) {
 }
 
 func (n *Node) HasCommand(c commands.ZWaveCommand) bool {
+	n.RLock()
+	defer n.RUnlock()
+
 	if n.CommandClasses == nil {
 		return false
 	}
-- 
2.43.0


From ce832ba1f19ae4e7820f74b881e2c5a10d637ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:52 +0000
Subject: [PATCH 31/32] fix: look at the manufacturer of a node under its lock
 when identifying it

---
 nodes/node.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nodes/node.go b/nodes/node.go
index f112d03..e1bb8d9 100644
--- a/nodes/node.go
+++ b/nodes/node.go
@@ -218,7 +218,10 @@ func (n *Node) Identify() {
 		//		nodeinfo := self.WaitForGetNodeProtocolInfo()
 
 		// All manufacturer specific information such as vendor, vendors product ID and product type
-		if n.ManufacurerSpecific == nil {
+		n.RLock()
+		unknown := n.ManufacurerSpecific == nil
+		n.RUnlock()
+		if unknown {
 			<-n.isAwake()
 			resp, err := n.RequestManufacturerSpecific()
 			if err != nil {
-- 
2.43.0


From 2958ca098b5303cef1fac28e2dcafaa7ebf9210b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:49 +0000
Subject: [PATCH 32/32] fix: encode the nodes of the example under their locks

Encoding a node as JSON while a report of it is processed ended the program
with a concurrent map iteration and map write.
---
 zwave-example/example.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/zwave-example/example.go b/zwave-example/example.go
index 6973b10..7d18d73 100644
--- a/zwave-example/example.go
+++ b/zwave-example/example.go
@@ -9,6 +9,7 @@
 package main
 
 import (
+	"encoding/json"
 	"flag"
 	"log"
 	"strconv"
@@ -16,7 +17,6 @@ import (
 	"github.com/gin-gonic/gin"
 	"github.com/stampzilla/gozwave"
 	"github.com/stampzilla/gozwave/events"
-	"github.com/stampzilla/gozwave/nodes"
 )
 
 var port string
@@ -65,14 +65,7 @@ func main() {
 
 func getNodes(z *gozwave.Controller) func(*gin.Context) {
 	return func(c *gin.Context) {
-		nodes := make(map[string]*nodes.Node)
-
-		for k, v := range z.Nodes.All() {
-			id := strconv.Itoa(k)
-			nodes[id] = v
-		}
-
-		c.IndentedJSON(200, nodes)
+		c.IndentedJSON(200, z.Nodes) // It takes the lock of each node
 	}
 }
 
@@ -90,7 +83,16 @@ func getNode(z *gozwave.Controller) func(*gin.Context) {
 			return
 		}
 
-		c.IndentedJSON(200, device)
+		// The node must not change while it is encoded
+		device.RLock()
+		b, err := json.MarshalIndent(device, "", "    ")
+		device.RUnlock()
+		if err != nil {
+			c.IndentedJSON(500, err)
+			return
+		}
+
+		c.Data(200, "application/json; charset=utf-8", b)
 	}
 }
 
-- 
2.43.0

