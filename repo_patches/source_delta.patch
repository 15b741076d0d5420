From b7e65d50e3ad25a7f092c15714d1404b3f6a32dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:34 +0000
Subject: [PATCH 01/58] fix: telnet.NewServer reports an invalid address
 instead of ending the program

---
 telnet/telnet.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/telnet/telnet.go b/telnet/telnet.go
index 4b11e48..dca213f 100644
--- a/telnet/telnet.go
+++ b/telnet/telnet.go
@@ -56,7 +56,7 @@ func NewServer(address string, mycall string, version string) (*Server, error) {
 
 	localAddress, err := net.ResolveTCPAddr("tcp", address)
 	if err != nil {
-		log.Fatal(err)
+		return nil, fmt.Errorf("cannot resolve address %s: %w", address, err)
 	}
 	result.address = localAddress
 
-- 
2.43.0


From 26a3da88ba99964ad228fd20993f5dc4bf0c1f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:35 +0000
Subject: [PATCH 02/58] fix: several listeners may spot at the same time on the
 telnet server

---
 telnet/telnet.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/telnet/telnet.go b/telnet/telnet.go
index dca213f..4f8ba5b 100644
--- a/telnet/telnet.go
+++ b/telnet/telnet.go
@@ -9,6 +9,7 @@ import (
 	"log"
 	"net"
 	"os"
+	"sync"
 	"time"
 )
 
@@ -35,6 +36,7 @@ type Server struct {
 
 	connections []*Connection
 
+	spotLock      sync.Mutex
 	lastSpots     map[spotHash]time.Time
 	silencePeriod time.Duration
 
@@ -149,10 +151,14 @@ func (s *Server) Stop() {
 }
 
 func (s *Server) SetSilencePeriod(silencePeriod time.Duration) {
+	s.spotLock.Lock()
+	defer s.spotLock.Unlock()
 	s.silencePeriod = silencePeriod
 }
 
 func (s *Server) Spot(callsign string, frequency float64, msg string, timestamp time.Time) {
+	s.spotLock.Lock()
+	defer s.spotLock.Unlock()
 	hash := newSpotHash(callsign, frequency)
 	if s.shouldAnnounce(hash, timestamp) {
 		s.msg <- []byte(s.formatSpotMessage(callsign, frequency, msg, timestamp))
-- 
2.43.0


From 0a774fddffab177dcf1819532fd5aa3a6a10fc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:36 +0000
Subject: [PATCH 03/58] fix: spotting on a stopped telnet server does not block

---
 telnet/telnet.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/telnet/telnet.go b/telnet/telnet.go
index 4f8ba5b..22806d5 100644
--- a/telnet/telnet.go
+++ b/telnet/telnet.go
@@ -161,8 +161,12 @@ func (s *Server) Spot(callsign string, frequency float64, msg string, timestamp
 	defer s.spotLock.Unlock()
 	hash := newSpotHash(callsign, frequency)
 	if s.shouldAnnounce(hash, timestamp) {
-		s.msg <- []byte(s.formatSpotMessage(callsign, frequency, msg, timestamp))
-		s.registerSpot(hash, timestamp)
+		select {
+		case s.msg <- []byte(s.formatSpotMessage(callsign, frequency, msg, timestamp)):
+			s.registerSpot(hash, timestamp)
+		case <-s.closed:
+			// nobody is listening anymore
+		}
 	}
 }
 
-- 
2.43.0


From 4b878fbf36ff1416cb8df28c4a982b70c0226914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 04/58] fix: the telnet server closes its port when it is
 stopped

---
 telnet/telnet.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/telnet/telnet.go b/telnet/telnet.go
index 22806d5..30858cc 100644
--- a/telnet/telnet.go
+++ b/telnet/telnet.go
@@ -81,6 +81,7 @@ func (s *Server) run() {
 	for {
 		select {
 		case <-s.close:
+			s.listener.Close()
 			for _, conn := range s.connections {
 				conn.Close()
 			}
-- 
2.43.0


From fd063609a6e68481157ad45626e78a665eb4a87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:38 +0000
Subject: [PATCH 05/58] fix: the telnet server can be stopped from several
 goroutines

---
 telnet/telnet.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/telnet/telnet.go b/telnet/telnet.go
index 30858cc..cd7f342 100644
--- a/telnet/telnet.go
+++ b/telnet/telnet.go
@@ -41,8 +41,9 @@ type Server struct {
 	silencePeriod time.Duration
 
 	msg    chan []byte
-	close  chan struct{}
-	closed chan struct{}
+	close     chan struct{}
+	closeOnce sync.Once
+	closed    chan struct{}
 }
 
 func NewServer(address string, mycall string, version string) (*Server, error) {
@@ -146,7 +147,7 @@ func (s *Server) Stop() {
 	case <-s.closed:
 		return
 	default:
-		close(s.close)
+		s.closeOnce.Do(func() { close(s.close) })
 		<-s.closed
 	}
 }
-- 
2.43.0


From 401d691ca54f70e0ba59f4ea2e870d9a9916ceab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:39 +0000
Subject: [PATCH 06/58] fix: a telnet connection that breaks does not block its
 writer and its reader

---
 telnet/telnet.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/telnet/telnet.go b/telnet/telnet.go
index cd7f342..f9aa600 100644
--- a/telnet/telnet.go
+++ b/telnet/telnet.go
@@ -306,7 +306,11 @@ func (c *Connection) readLoop() {
 
 		bytes := make([]byte, n)
 		copy(bytes, readBuffer[:n])
-		c.input <- bytes
+		select {
+		case c.input <- bytes:
+		case <-c.closed:
+			return
+		}
 	}
 }
 
@@ -361,7 +365,11 @@ func (c *Connection) Write(bytes []byte) (int, error) {
 	case <-c.closed:
 		return 0, net.ErrClosed
 	default:
-		c.msg <- bytes
+	}
+	select {
+	case <-c.closed:
+		return 0, net.ErrClosed
+	case c.msg <- bytes:
 		return len(bytes), nil
 	}
 }
-- 
2.43.0


From 81515e381d8252da21d178cd8fb95fe64dab7ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:41 +0000
Subject: [PATCH 07/58] fix: the telnet server keeps the bytes of the answers
 as they are

---
 telnet/telnet.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/telnet/telnet.go b/telnet/telnet.go
index f9aa600..094764e 100644
--- a/telnet/telnet.go
+++ b/telnet/telnet.go
@@ -202,7 +202,7 @@ type Connection struct {
 	input chan []byte
 
 	currentPrompt *Prompt
-	currentAnswer string
+	currentAnswer []byte
 
 	close  chan struct{}
 	closed chan struct{}
@@ -216,8 +216,6 @@ func NewConnection(conn io.ReadWriteCloser, welcome string) *Connection {
 		msg:   make(chan []byte, 1),
 		input: make(chan []byte, 1),
 
-		currentAnswer: "",
-
 		close:  make(chan struct{}),
 		closed: make(chan struct{}),
 	}
@@ -341,11 +339,11 @@ func (c *Connection) startPrompt(prompt *Prompt) error {
 func (c *Connection) parseAnswerByte(answerByte byte) (string, *Prompt) {
 	switch answerByte {
 	case '\n', '\r':
-		response, nextPrompt := c.currentPrompt.Answer(c.currentAnswer)
-		c.currentAnswer = ""
+		response, nextPrompt := c.currentPrompt.Answer(string(c.currentAnswer))
+		c.currentAnswer = c.currentAnswer[:0]
 		return response, nextPrompt
 	default:
-		c.currentAnswer += string(answerByte)
+		c.currentAnswer = append(c.currentAnswer, answerByte)
 		return "", nil
 	}
 }
-- 
2.43.0


From a32a78ac49b1676a2dc17a81274e5f7c4e9d7848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 08/58] fix: format telnet.go

---
 telnet/telnet.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/telnet/telnet.go b/telnet/telnet.go
index 094764e..4aeb39e 100644
--- a/telnet/telnet.go
+++ b/telnet/telnet.go
@@ -40,7 +40,7 @@ type Server struct {
 	lastSpots     map[spotHash]time.Time
 	silencePeriod time.Duration
 
-	msg    chan []byte
+	msg       chan []byte
 	close     chan struct{}
 	closeOnce sync.Once
 	closed    chan struct{}
-- 
2.43.0


From e5f2df1637a4678e6f5a19b5b936eab71cc9a68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:41 +0000
Subject: [PATCH 09/58] fix: a telnet client that does not read cannot stall
 the others or Stop

---
 telnet/telnet.go | 50 ++++++++++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/telnet/telnet.go b/telnet/telnet.go
index 4aeb39e..bdacf29 100644
--- a/telnet/telnet.go
+++ b/telnet/telnet.go
@@ -16,6 +16,7 @@ import (
 const (
 	newConnectionDeadline     = 100 * time.Millisecond
 	connectionKeepAlivePeriod = 30 * time.Second
+	connectionBacklog         = 100
 	readBufferSize            = 1024
 	defaultSpotSilencePeriod  = 4 * time.Minute
 )
@@ -204,8 +205,9 @@ type Connection struct {
 	currentPrompt *Prompt
 	currentAnswer []byte
 
-	close  chan struct{}
-	closed chan struct{}
+	close     chan struct{}
+	closeOnce sync.Once
+	closed    chan struct{}
 
 	user string
 }
@@ -213,29 +215,22 @@ type Connection struct {
 func NewConnection(conn io.ReadWriteCloser, welcome string) *Connection {
 	result := &Connection{
 		conn:  conn,
-		msg:   make(chan []byte, 1),
+		msg:   make(chan []byte, connectionBacklog),
 		input: make(chan []byte, 1),
 
 		close:  make(chan struct{}),
 		closed: make(chan struct{}),
 	}
 
-	result.writeAll([]byte(welcome))
-
-	go result.run()
+	go result.run(welcome)
 	go result.readLoop()
 
 	return result
 }
 
-func (c *Connection) run() {
+func (c *Connection) run(welcome string) {
 	defer close(c.closed)
-	defer func() {
-		err := c.conn.Close()
-		if err != nil {
-			log.Printf("close %s: %v", c.user, err)
-		}
-	}()
+	defer c.disconnect()
 
 	ignoreInputPrompt := &Prompt{
 		Question: "",
@@ -251,6 +246,7 @@ func (c *Connection) run() {
 		},
 	}
 
+	c.writeAll([]byte(welcome))
 	err := c.startPrompt(inputCallsignPrompt)
 	if err != nil {
 		log.Printf("%s: %v", c.user, err)
@@ -348,27 +344,35 @@ func (c *Connection) parseAnswerByte(answerByte byte) (string, *Prompt) {
 	}
 }
 
-func (c *Connection) Close() {
-	select {
-	case <-c.closed:
-		return
-	default:
+// disconnect closes the underlying connection, this also ends all pending reads and writes.
+func (c *Connection) disconnect() {
+	c.closeOnce.Do(func() {
 		close(c.close)
-		<-c.closed
-	}
+		err := c.conn.Close()
+		if err != nil {
+			log.Printf("close %s: %v", c.user, err)
+		}
+	})
 }
 
+func (c *Connection) Close() {
+	c.disconnect()
+	<-c.closed
+}
+
+// Write enqueues the given bytes without blocking. A connection that does not keep up is disconnected.
 func (c *Connection) Write(bytes []byte) (int, error) {
 	select {
-	case <-c.closed:
+	case <-c.close:
 		return 0, net.ErrClosed
 	default:
 	}
 	select {
-	case <-c.closed:
-		return 0, net.ErrClosed
 	case c.msg <- bytes:
 		return len(bytes), nil
+	default:
+		c.disconnect()
+		return 0, net.ErrClosed
 	}
 }
 
-- 
2.43.0


From 69243c849f9410885e2c11ce122148f97cb574fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:57 +0000
Subject: [PATCH 10/58] fix: decode callsigns when the DXCC prefixes or the
 callsign database are not available

---
 rx/text_processor.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rx/text_processor.go b/rx/text_processor.go
index 822106c..286fa0d 100644
--- a/rx/text_processor.go
+++ b/rx/text_processor.go
@@ -85,8 +85,12 @@ func NewTextProcessor(out io.Writer, clock Clock, reporter CallsignReporter) *Te
 		collectedCallsigns: make(map[string]collectedCallsign),
 	}
 
-	result.dxccFinder = setupDXCCFinder()
-	result.scpFinder = setupSCPFinder()
+	if finder := setupDXCCFinder(); finder != nil {
+		result.dxccFinder = finder
+	}
+	if finder := setupSCPFinder(); finder != nil {
+		result.scpFinder = finder
+	}
 
 	return result
 }
-- 
2.43.0


From b3d94d8fbd9c404560bb3f9c15035431940bd07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:57 +0000
Subject: [PATCH 11/58] fix: do not replace the best match with another
 callsign of the same weight

---
 rx/text_processor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rx/text_processor.go b/rx/text_processor.go
index 286fa0d..7ef2817 100644
--- a/rx/text_processor.go
+++ b/rx/text_processor.go
@@ -308,6 +308,11 @@ func (p *TextProcessor) bestMatch() callsign.Callsign {
 	var bestMatch callsign.Callsign
 	maxCount := spottingThreshold - 1
 
+	if collected, found := p.collectedCallsigns[p.lastBestMatch.String()]; found {
+		// stick to the last best match as long as there is nothing better
+		maxCount = collected.count + collected.weight
+		bestMatch = collected.call
+	}
 	for _, collected := range p.collectedCallsigns {
 		weightedCount := collected.count + collected.weight
 		if maxCount < weightedCount {
-- 
2.43.0


From 7a890d5e514f25df688bc34302375cda0f0be4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:57 +0000
Subject: [PATCH 12/58] fix: a restarted text processor starts with an empty
 window

---
 rx/text_processor.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/rx/text_processor.go b/rx/text_processor.go
index 7ef2817..2933f6b 100644
--- a/rx/text_processor.go
+++ b/rx/text_processor.go
@@ -187,10 +187,22 @@ func (p *TextProcessor) Restart() {
 	p.lastWrite = p.clock.Now()
 	p.lastBestMatch = callsign.NoCallsign
 	p.window.Reset()
+	p.dropPendingOps()
 	clear(p.collectedCallsigns)
 	p.Start()
 }
 
+// dropPendingOps removes everything that was not yet processed when the text processor was stopped.
+func (p *TextProcessor) dropPendingOps() {
+	for {
+		select {
+		case <-p.op:
+		default:
+			return
+		}
+	}
+}
+
 func (p *TextProcessor) LastWrite() time.Time {
 	return p.lastWrite
 }
@@ -374,6 +386,7 @@ func (w *textWindow) Reset() {
 		w.window[i] = w.window[i][:0]
 		w.currentWindow = 0
 	}
+	w.searchPoint = 0
 }
 
 func (w *textWindow) Write(bytes []byte) (n int, err error) {
-- 
2.43.0


From aa3f407533c4c50cb21c84a2ec7dbd70087d4078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:57 +0000
Subject: [PATCH 13/58] fix: find every callsign in the text, independent of
 how the text is written in pieces

---
 rx/text_processor.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/rx/text_processor.go b/rx/text_processor.go
index 2933f6b..33f33f3 100644
--- a/rx/text_processor.go
+++ b/rx/text_processor.go
@@ -245,8 +245,9 @@ func (p *TextProcessor) findNextCallsign(bytes []byte) {
 		}
 
 		candidate, found := p.window.FindNext(callsignExp, false)
-		if found {
+		for found {
 			p.collectCallsign(candidate)
+			candidate, found = p.window.FindNext(callsignExp, false)
 		}
 
 		if n <= len(bytesForWindow) {
@@ -417,6 +418,16 @@ func (w *textWindow) IsFull() bool {
 	return len(w.window[w.currentWindow]) == w.windowSize
 }
 
+// isWordPart indicates if the given bytes do not contain anything that ends a callsign.
+func isWordPart(bytes []byte) bool {
+	for _, b := range bytes {
+		if (b < 'a' || b > 'z') && (b < '0' || b > '9') && b != '/' {
+			return false
+		}
+	}
+	return true
+}
+
 func (w *textWindow) FindNext(exp *regexp.Regexp, includeTail bool) (string, bool) {
 	if w.searchPoint >= len(w.window[w.currentWindow]) {
 		return "", false
@@ -427,7 +438,8 @@ func (w *textWindow) FindNext(exp *regexp.Regexp, includeTail bool) (string, boo
 	if match == nil {
 		return "", false
 	}
-	if !includeTail && match[1] >= len(searchText) {
+	if !includeTail && isWordPart(searchText[match[1]:]) {
+		// the word is not complete yet
 		return "", false
 	}
 
-- 
2.43.0


From edff191aefefcc668911afc9a1f97678a766accf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:57 +0000
Subject: [PATCH 14/58] fix: do not lose long callsigns at the boundary of the
 text window

---
 rx/text_processor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/text_processor.go b/rx/text_processor.go
index 33f33f3..3818cb0 100644
--- a/rx/text_processor.go
+++ b/rx/text_processor.go
@@ -14,7 +14,7 @@ import (
 )
 
 const (
-	defaultTextWindowSize = 20
+	defaultTextWindowSize = 60
 	spottingThreshold     = 3
 
 	defaultWriteTimeout = 5 * time.Second
-- 
2.43.0


From 445034a9654aaeeaf6a2792a5c5cf38d0f02a14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:57 +0000
Subject: [PATCH 15/58] fix: stop the text processor of a listener before the
 peak is detached

---
 rx/listener.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rx/listener.go b/rx/listener.go
index 8c1ef9d..347a858 100644
--- a/rx/listener.go
+++ b/rx/listener.go
@@ -97,10 +97,13 @@ func (l *Listener[T, F]) Attached() bool {
 }
 
 func (l *Listener[T, F]) Detach() {
+	if l.peak == nil {
+		return
+	}
 	frequency := l.peak.SignalFrequency
-	l.peak = nil
 
-	l.textProcessor.Stop()
+	l.textProcessor.Stop() // it still uses the peak for its last reports
+	l.peak = nil
 	l.reporter.ListenerDeactivated(l.id, frequency)
 	// log.Printf("\ndemodulation stopped\n")
 }
-- 
2.43.0


From fb809e0f7df0f49d16b869eb7dcb5a2644bc60e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:35 +0000
Subject: [PATCH 16/58] fix: releasing a listener does not affect another one
 that got the same id

---
 rx/listener.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/listener.go b/rx/listener.go
index 347a858..ecce690 100644
--- a/rx/listener.go
+++ b/rx/listener.go
@@ -252,7 +252,7 @@ func (p *ListenerPool[T, F]) release(listener *Listener[T, F]) {
 
 func (p *ListenerPool[T, F]) indexOf(listener *Listener[T, F]) int {
 	for i, l := range p.listeners {
-		if l.id == listener.ID() {
+		if l == listener {
 			return i
 		}
 	}
-- 
2.43.0


From 76a2488d52b8bdbbc1e26559f1ee5c1b7aa8dce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:57 +0000
Subject: [PATCH 17/58] fix: the center frequency of a stopped receiver can be
 read

---
 rx/receiver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/receiver.go b/rx/receiver.go
index 71516e4..59b5dd4 100644
--- a/rx/receiver.go
+++ b/rx/receiver.go
@@ -262,7 +262,7 @@ func (r *Receiver[T, F]) SetCenterFrequency(frequency F) {
 }
 
 func (r *Receiver[T, F]) CenterFrequency() F {
-	result := make(chan F)
+	result := make(chan F, 1)
 	r.do(func() {
 		result <- r.centerFrequency
 	})
-- 
2.43.0


From 4442381727a6abcdfc711f636993e20adb507e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:57 +0000
Subject: [PATCH 18/58] fix: the signal debounce of a receiver applies to all
 its listeners, not only to those listening right now

---
 rx/receiver.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rx/receiver.go b/rx/receiver.go
index 59b5dd4..48633a6 100644
--- a/rx/receiver.go
+++ b/rx/receiver.go
@@ -24,6 +24,7 @@ const (
 	defaultPeakThreshold    = 15
 	defaultEdgeWidth        = 70
 	defaultListenerPoolSize = 30
+	defaultSignalDebounce   = 1
 )
 
 type Clock interface {
@@ -86,6 +87,7 @@ type Receiver[T, F dsp.Number] struct {
 	listeners         *ListenerPool[T, F]
 	silenceTimeout    time.Duration
 	attachmentTimeout time.Duration
+	signalDebounce    int
 
 	scope scope.Scope
 }
@@ -103,6 +105,7 @@ func NewReceiver[T, F dsp.Number](id string, mode ReceiverMode, clock Clock) *Re
 		edgeWidth:         defaultEdgeWidth,
 		silenceTimeout:    defaultSilenceTimeout,
 		attachmentTimeout: defaultAttachmentTimeout,
+		signalDebounce:    defaultSignalDebounce,
 
 		fft: dsp.NewFFT[T](),
 		out: NewChannelWriter(os.Stdout),
@@ -123,6 +126,7 @@ func (r *Receiver[T, F]) newListener(id string) *Listener[T, F] {
 	result := NewListener[T, F](id, r.out.Channel(id), r.clock, r, r.sampleRate, r.blockSize)
 	result.SetAttachmentTimeout(r.attachmentTimeout)
 	result.SetSilenceTimeout(r.silenceTimeout)
+	result.SetSignalDebounce(r.signalDebounce)
 	result.SetScope(r.scope)
 	return result
 }
@@ -246,6 +250,7 @@ func (r *Receiver[T, F]) SetAttachmentTimeout(timeout time.Duration) {
 
 func (r *Receiver[T, F]) SetSignalDebounce(debounce int) {
 	r.do(func() {
+		r.signalDebounce = debounce
 		r.listeners.ForEach(func(l *Listener[T, F]) {
 			l.SetSignalDebounce(debounce)
 		})
-- 
2.43.0


From 7f39b353c093df12f098f7b64bbe5ea022e13190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:57 +0000
Subject: [PATCH 19/58] fix: a receiver can be stopped while data arrives or
 settings change

---
 rx/receiver.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rx/receiver.go b/rx/receiver.go
index 48633a6..984e2ce 100644
--- a/rx/receiver.go
+++ b/rx/receiver.go
@@ -6,6 +6,7 @@ import (
 	"log"
 	"math"
 	"os"
+	"sync"
 	"time"
 
 	"github.com/ftl/sdrainer/dsp"
@@ -75,6 +76,7 @@ type Receiver[T, F dsp.Number] struct {
 	centerFrequency F
 	vfoOffset       F
 
+	lifecycle        sync.Mutex // protects the channels against Stop while they are used
 	in               chan []T
 	op               chan func()
 	stop             chan struct{}
@@ -132,6 +134,8 @@ func (r *Receiver[T, F]) newListener(id string) *Listener[T, F] {
 }
 
 func (r *Receiver[T, F]) Start(sampleRate int, blockSize int) {
+	r.lifecycle.Lock()
+	defer r.lifecycle.Unlock()
 	if r.in != nil {
 		return
 	}
@@ -150,14 +154,16 @@ func (r *Receiver[T, F]) Start(sampleRate int, blockSize int) {
 }
 
 func (r *Receiver[T, F]) Stop() {
+	r.lifecycle.Lock()
+	defer r.lifecycle.Unlock()
 	if r.in == nil {
 		return
 	}
 
-	r.listeners.Reset()
-
 	close(r.stop)
 	<-r.stopped
+
+	r.listeners.Reset()
 	close(r.in)
 	close(r.op)
 
@@ -168,6 +174,8 @@ func (r *Receiver[T, F]) Stop() {
 }
 
 func (r *Receiver[T, F]) do(f func()) {
+	r.lifecycle.Lock()
+	defer r.lifecycle.Unlock()
 	if r.op == nil {
 		f()
 	} else {
@@ -318,6 +326,8 @@ func (r *Receiver[T, F]) SetVFOOffset(offset F) {
 }
 
 func (r *Receiver[T, F]) IQData(sampleRate int, data []T) {
+	r.lifecycle.Lock()
+	defer r.lifecycle.Unlock()
 	if r.in == nil {
 		return
 	}
-- 
2.43.0


From 34239b41f1da60806f3dd5f16e26cfae8e9dbf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:13 +0000
Subject: [PATCH 20/58] fix: complete silence in the IQ data does not make the
 receiver deaf

---
 dsp/fft.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dsp/fft.go b/dsp/fft.go
index 2ee36ec..3460962 100644
--- a/dsp/fft.go
+++ b/dsp/fft.go
@@ -8,6 +8,9 @@ import (
 	"golang.org/x/exp/constraints"
 )
 
+// minDB is used for complete silence, the logarithm of zero would spoil every following mean value
+const minDB = -200.0
+
 type Number interface {
 	constraints.Integer | constraints.Float
 }
@@ -77,11 +80,11 @@ func Magnitude[T Number](fftValue complex128, blockSize int) T {
 }
 
 func MagnitudeIndB[T Number](fftValue complex128, blockSize int) T {
-	return T(10.0 * math.Log10(20.0*float64(PSD[T](fftValue, blockSize))/math.Pow(float64(blockSize), 2)))
+	return T(max(minDB, 10.0*math.Log10(20.0*float64(PSD[T](fftValue, blockSize))/math.Pow(float64(blockSize), 2))))
 }
 
 func PSDValueIndB[T Number](psdValue T, blockSize int) T {
-	return T(10.0 * math.Log10(20.0*float64(psdValue)/math.Pow(float64(blockSize), 2)))
+	return T(max(minDB, 10.0*math.Log10(20.0*float64(psdValue)/math.Pow(float64(blockSize), 2))))
 }
 
 type BinLocation float64
-- 
2.43.0


From bdd1a4c2d89becfe6463dbc5545d439bf66babfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:13 +0000
Subject: [PATCH 21/58] fix: a peak contains the bins from its first to its
 last bin

---
 dsp/fft.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/fft.go b/dsp/fft.go
index 3460962..71f4f7e 100644
--- a/dsp/fft.go
+++ b/dsp/fft.go
@@ -212,7 +212,7 @@ func (p Peak[T, F]) WidthHz() F {
 
 // ContainsBin indicates if the given bin is within this peak.
 func (p Peak[T, F]) ContainsBin(bin int) bool {
-	return p.From >= bin && p.To <= bin
+	return p.From <= bin && bin <= p.To
 }
 
 func FindNoiseFloor[T Number](psd Block[T], edgeWidth int) (T, float64) {
-- 
2.43.0


From 86dd0f2ccf6ffce737e1ec0ec8bf35ab3062f8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:13 +0000
Subject: [PATCH 22/58] fix: the maximum of a section of a block is in this
 section

---
 dsp/fft.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsp/fft.go b/dsp/fft.go
index 71f4f7e..d0c29c9 100644
--- a/dsp/fft.go
+++ b/dsp/fft.go
@@ -166,8 +166,8 @@ func (b Block[T]) Mean(from, to int) T {
 
 // Max imum value in the given section of this block.
 func (b Block[T]) Max(from, to int) (T, int) {
-	maxValue := b[0]
-	maxI := 0
+	maxValue := b[from]
+	maxI := from
 	for i := from; i <= to; i++ {
 		if maxValue < b[i] {
 			maxValue = b[i]
-- 
2.43.0


From 9b613cb9068983a7dc52b88d563ce0e7e99030f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:13 +0000
Subject: [PATCH 23/58] fix: a frequency belongs to the bin with the nearest
 center

---
 dsp/fft.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/fft.go b/dsp/fft.go
index d0c29c9..62785b3 100644
--- a/dsp/fft.go
+++ b/dsp/fft.go
@@ -133,7 +133,7 @@ func (m *FrequencyMapping[F]) BinToFrequency(bin int, location BinLocation) F {
 }
 
 func (m *FrequencyMapping[F]) FrequencyToBin(frequency F) int {
-	bin := int((float64(frequency) - float64(m.fromFrequency)) / m.binSize)
+	bin := int(math.Round((float64(frequency) - float64(m.fromFrequency)) / m.binSize))
 	return max(0, min(bin, m.blockSize-1))
 }
 
-- 
2.43.0


From ed5863c6cb1e9e7dd363f29a6741150473389f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:13 +0000
Subject: [PATCH 24/58] fix: use all windows and only the samples of the window
 to find the noise floor

---
 dsp/fft.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsp/fft.go b/dsp/fft.go
index 62785b3..ac1fc15 100644
--- a/dsp/fft.go
+++ b/dsp/fft.go
@@ -229,6 +229,8 @@ func FindNoiseFloor[T Number](psd Block[T], edgeWidth int) (T, float64) {
 		if count == 0 {
 			from = i
 		}
+		sum += float64(psd[i])
+		count++
 		if count == windowSize {
 			count = 0
 			mean := sum / float64(windowSize)
@@ -241,8 +243,6 @@ func FindNoiseFloor[T Number](psd Block[T], edgeWidth int) (T, float64) {
 			}
 			sum = 0
 		}
-		sum += float64(psd[i])
-		count++
 	}
 
 	sum = 0
-- 
2.43.0


From 5965fee4da9a0a1391167f2a9d35b719a60471d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:13 +0000
Subject: [PATCH 25/58] fix: the frequency of a signal is within its bin, also
 on a flat or negative spectrum

---
 dsp/fft.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dsp/fft.go b/dsp/fft.go
index ac1fc15..7a411b4 100644
--- a/dsp/fft.go
+++ b/dsp/fft.go
@@ -299,14 +299,18 @@ func PeakCenterCorrection[T, F Number](bin int, spectrum Block[T]) BinLocation {
 	}
 
 	value := func(i int) float64 {
-		return math.Abs(float64(spectrum[i]))
+		return float64(spectrum[i])
 	}
 
 	// quadratic interpolation
 	y1 := value(bin - 1)
 	y2 := value(bin)
 	y3 := value(bin + 1)
-	result := (y3 - y1) / (2 * (2*y2 - y1 - y3))
+	curvature := 2*y2 - y1 - y3
+	if curvature <= 0 {
+		return 0
+	}
+	result := (y3 - y1) / (2 * curvature)
 
 	return BinLocation(result)
 }
-- 
2.43.0


From b571f05da4a8a8d478a894c84666aaaaa972a664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:13 +0000
Subject: [PATCH 26/58] fix: the rolling variance takes the current mean for
 all its values

---
 dsp/dsp.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dsp/dsp.go b/dsp/dsp.go
index 56015cb..0db9139 100644
--- a/dsp/dsp.go
+++ b/dsp/dsp.go
@@ -204,15 +204,16 @@ func NewRollingVariance[T Number](n int) *RollingVariance[T] {
 // Put a new value into the rolling window and get the new variance back.
 func (v *RollingVariance[T]) Put(value T) T {
 	v.sumForMean -= v.values[v.next]
-	oldSummand := (v.values[v.next] - v.mean)
-	v.sumForVariance -= oldSummand * oldSummand
 
 	v.values[v.next] = value
 
 	v.sumForMean += v.values[v.next]
 	v.mean = v.sumForMean / v.n
-	newSummand := (v.values[v.next] - v.mean)
-	v.sumForVariance += newSummand * newSummand
+	v.sumForVariance = 0
+	for _, value := range v.values {
+		summand := (value - v.mean)
+		v.sumForVariance += summand * summand
+	}
 	v.variance = v.sumForVariance / v.n
 
 	v.next = (v.next + 1) % len(v.values)
-- 
2.43.0


From 488abb7447805edab262d01a4c2041878a229ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:17 +0000
Subject: [PATCH 27/58] fix: listeners do not report their old frequency when
 the center frequency changes

---
 rx/receiver.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rx/receiver.go b/rx/receiver.go
index 984e2ce..3686c30 100644
--- a/rx/receiver.go
+++ b/rx/receiver.go
@@ -267,7 +267,14 @@ func (r *Receiver[T, F]) SetSignalDebounce(debounce int) {
 
 func (r *Receiver[T, F]) SetCenterFrequency(frequency F) {
 	r.do(func() {
+		changed := r.centerFrequency != frequency
 		r.centerFrequency = frequency
+		if changed && r.in != nil && r.mode == StrainMode {
+			// all the signals have moved to other bins
+			r.listeners.Reset()
+			r.peaks.Reset()
+			r.out.SetActive("")
+		}
 		if r.frequencyMapping != nil {
 			r.frequencyMapping.SetCenterFrequency(frequency)
 		}
-- 
2.43.0


From 1e218ed2e9049d1ae47008e1e27b1aa280b6adbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:50 +0000
Subject: [PATCH 28/58] fix: the text of the next listener with the same id
 does not appear as the text of the VFO frequency

---
 rx/receiver.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rx/receiver.go b/rx/receiver.go
index 3686c30..9ddee85 100644
--- a/rx/receiver.go
+++ b/rx/receiver.go
@@ -164,6 +164,8 @@ func (r *Receiver[T, F]) Stop() {
 	<-r.stopped
 
 	r.listeners.Reset()
+	r.out.SetActive("")
+
 	close(r.in)
 	close(r.op)
 
@@ -418,6 +420,7 @@ func (r *Receiver[T, F]) run() {
 				if r.mode == StrainMode && l.TimeoutExceeded() {
 					r.peaks.Deactivate(l.Peak()) // beware of temporal coupling!
 					l.Detach()
+					r.out.Deactivate(l.ID())
 					detachedListeners = append(detachedListeners, l)
 				}
 			})
@@ -559,3 +562,10 @@ func (w *ChannelWriter) Channel(channel string) WriterFunc {
 func (w *ChannelWriter) SetActive(channel string) {
 	w.activeChannel = channel
 }
+
+// Deactivate the given channel, the writer of another channel stays active.
+func (w *ChannelWriter) Deactivate(channel string) {
+	if w.activeChannel == channel {
+		w.activeChannel = ""
+	}
+}
-- 
2.43.0


From f811b5c7ef87ad3394487bf7f369e74ca7fca8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:50 +0000
Subject: [PATCH 29/58] fix: clearing the decoder leaves nothing of the current
 character behind

---
 cw/decode.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cw/decode.go b/cw/decode.go
index ed9c763..7614ac7 100644
--- a/cw/decode.go
+++ b/cw/decode.go
@@ -171,7 +171,9 @@ func (d *Decoder) Reset() {
 
 func (d *Decoder) Clear() {
 	d.decoding = false
+	d.lastState = false
 	d.currentChar.clear()
+	d.currentCharInvalid = false
 	d.ticks = 0
 	d.onStart = 0
 	d.offStart = 0
-- 
2.43.0


From d33a3c8e4b55aafcd2ec0e09b6f0f62d1f412c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:50 +0000
Subject: [PATCH 30/58] fix: a signal that is too long for a character does not
 spoil the next character

---
 cw/decode.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cw/decode.go b/cw/decode.go
index 7614ac7..b8ce1fe 100644
--- a/cw/decode.go
+++ b/cw/decode.go
@@ -316,6 +316,7 @@ func (d *Decoder) appendSymbol(s cw.Symbol) {
 
 func (d *Decoder) decodeCurrentChar() {
 	if d.currentChar.empty() {
+		d.currentCharInvalid = false
 		// fmt.Print("X") // TODO REMOVE THIS
 		return
 	}
-- 
2.43.0


From 7d41ff0921b41cf287fb4663313ca30742fc3e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:50 +0000
Subject: [PATCH 31/58] fix: resetting the demodulator also resets the
 debouncer

---
 cw/spectral.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cw/spectral.go b/cw/spectral.go
index 086fa0a..e48dbfc 100644
--- a/cw/spectral.go
+++ b/cw/spectral.go
@@ -42,6 +42,7 @@ func (d *SpectralDemodulator[M, F]) SetScope(scope scope.Scope) {
 }
 
 func (d *SpectralDemodulator[M, F]) Reset() {
+	d.signalDebouncer = dsp.NewBoolDebouncer(d.signalDebouncer.Threshold())
 	d.decoder.Reset()
 }
 
-- 
2.43.0


From 64f5411f1ec57b2f160a9e9bd36349f52b7f05fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:50 +0000
Subject: [PATCH 32/58] fix: changing the threshold of the debouncer does not
 change the signal state

---
 dsp/dsp.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/dsp/dsp.go b/dsp/dsp.go
index 0db9139..af3de85 100644
--- a/dsp/dsp.go
+++ b/dsp/dsp.go
@@ -162,10 +162,6 @@ func (d *BoolDebouncer) Threshold() int {
 // Debounce is periodically called with the raw signal state. It returns the debounced signal state.
 // The signal must be stable for threshold calls of Debounce until a state change is propagated by Debounce.
 func (d *BoolDebouncer) Debounce(rawState bool) bool {
-	if d.threshold < 2 {
-		return rawState
-	}
-
 	if rawState != d.lastRawState {
 		d.stateCount = 1
 	} else {
-- 
2.43.0


From af2ff617e2501db781aa2f4848fd46208766d124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:50 +0000
Subject: [PATCH 33/58] fix: the settings of the audio demodulator are read and
 written completely, also while it is closed

---
 cw/audio.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cw/audio.go b/cw/audio.go
index a75cfa8..4954446 100644
--- a/cw/audio.go
+++ b/cw/audio.go
@@ -158,11 +158,15 @@ func (d *AudioDemodulator) Write(buf []float32) (int, error) {
 }
 
 func (d *AudioDemodulator) do(f func()) {
+	done := make(chan struct{})
 	select {
 	case <-d.closed:
 		return
-	default:
-		d.op <- f
+	case d.op <- func() {
+		f()
+		close(done)
+	}:
+		<-done
 	}
 }
 
-- 
2.43.0


From ebe026ace96d516974808002cd16afabbfe644e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:50 +0000
Subject: [PATCH 34/58] fix: the audio demodulator can be closed from several
 goroutines

---
 cw/audio.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cw/audio.go b/cw/audio.go
index 4954446..a61a82f 100644
--- a/cw/audio.go
+++ b/cw/audio.go
@@ -4,6 +4,7 @@ import (
 	"io"
 	"log"
 	"math"
+	"sync"
 	"time"
 
 	"github.com/ftl/sdrainer/dsp"
@@ -31,6 +32,8 @@ type AudioDemodulator struct {
 	close  chan struct{}
 	closed chan struct{}
 
+	closeOnce sync.Once
+
 	scope scope.Scope
 }
 
@@ -59,10 +62,10 @@ func NewAudioDemodulator(out io.Writer, pitch float64, sampleRate int, bufferSiz
 
 func (d *AudioDemodulator) Close() {
 	select {
-	case <-d.close:
+	case <-d.closed:
 		return
 	default:
-		close(d.close)
+		d.closeOnce.Do(func() { close(d.close) })
 		<-d.closed
 	}
 }
-- 
2.43.0


From 2b719d34774ea3e2777c55df7671c56104a8666f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:51 +0000
Subject: [PATCH 35/58] fix: writing to a closed audio demodulator does not
 block

---
 cw/audio.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cw/audio.go b/cw/audio.go
index a61a82f..83b904e 100644
--- a/cw/audio.go
+++ b/cw/audio.go
@@ -153,7 +153,11 @@ func (d *AudioDemodulator) Write(buf []float32) (int, error) {
 	n := 0
 	for i, sample := range buf {
 		if (i % d.channelCount) == 0 {
-			d.in <- sample
+			select {
+			case d.in <- sample:
+			case <-d.closed:
+				return n, io.ErrClosedPipe
+			}
 		}
 		n++
 	}
-- 
2.43.0


From ab46237fba5aa6884f421f8671655b74472f19f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:35 +0000
Subject: [PATCH 36/58] fix: the channels of the audio data do not depend on
 how it is written in pieces

---
 cw/audio.go | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/cw/audio.go b/cw/audio.go
index 83b904e..0e429b1 100644
--- a/cw/audio.go
+++ b/cw/audio.go
@@ -5,6 +5,7 @@ import (
 	"log"
 	"math"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/ftl/sdrainer/dsp"
@@ -25,7 +26,8 @@ type AudioDemodulator struct {
 	decoder      *Decoder
 	maxScale     float64
 	scale        float32
-	channelCount int
+	channelCount atomic.Int64
+	nextChannel  int // of the next sample that is written
 
 	in     chan float32
 	op     chan func()
@@ -42,17 +44,17 @@ func NewAudioDemodulator(out io.Writer, pitch float64, sampleRate int, bufferSiz
 		bufferSize = defaultBufferSize
 	}
 	result := &AudioDemodulator{
-		filter:       dsp.NewDefaultGoertzel(pitch, sampleRate),
-		debouncer:    dsp.NewBoolDebouncer(defaultDebounceThreshold),
-		maxScale:     defaultMaxScale,
-		scale:        1,
-		channelCount: 1,
-		in:           make(chan float32, bufferSize),
-		op:           make(chan func()),
-		close:        make(chan struct{}),
-		closed:       make(chan struct{}),
-		scope:        scope.NewNullScope(),
+		filter:    dsp.NewDefaultGoertzel(pitch, sampleRate),
+		debouncer: dsp.NewBoolDebouncer(defaultDebounceThreshold),
+		maxScale:  defaultMaxScale,
+		scale:     1,
+		in:        make(chan float32, bufferSize),
+		op:        make(chan func()),
+		close:     make(chan struct{}),
+		closed:    make(chan struct{}),
+		scope:     scope.NewNullScope(),
 	}
+	result.channelCount.Store(1)
 	result.decoder = NewDecoder(out, sampleRate, result.filter.Blocksize())
 
 	go result.run()
@@ -98,9 +100,10 @@ func (d *AudioDemodulator) SetScale(scale float64) {
 }
 
 func (d *AudioDemodulator) SetChannelCount(channelCount int) {
-	d.do(func() {
-		d.channelCount = channelCount
-	})
+	if channelCount < 1 {
+		return
+	}
+	d.channelCount.Store(int64(channelCount))
 }
 
 func (d *AudioDemodulator) SetDebounceThreshold(threshold int) {
@@ -151,8 +154,11 @@ func (d *AudioDemodulator) Blocksize() int {
 
 func (d *AudioDemodulator) Write(buf []float32) (int, error) {
 	n := 0
-	for i, sample := range buf {
-		if (i % d.channelCount) == 0 {
+	channelCount := int(d.channelCount.Load())
+	for _, sample := range buf {
+		channel := d.nextChannel
+		d.nextChannel = (d.nextChannel + 1) % channelCount
+		if channel == 0 {
 			select {
 			case d.in <- sample:
 			case <-d.closed:
-- 
2.43.0


From 106a8dbb3d2bed556b038f0650e80fcb70df91b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:35 +0000
Subject: [PATCH 37/58] fix: decode pulse uses the preset speed

---
 cmd/pulse.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/pulse.go b/cmd/pulse.go
index 4d3940b..d8d3064 100644
--- a/cmd/pulse.go
+++ b/cmd/pulse.go
@@ -57,6 +57,7 @@ func runPulse(ctx context.Context, scope scope.Scope, cmd *cobra.Command, args [
 	demodulator := cw.NewAudioDemodulator(os.Stdout, float64(pulseFlags.pitch), source.SampleRate(), 0)
 	defer demodulator.Close()
 	demodulator.SetScale(pulseFlags.scale)
+	demodulator.PresetWPM(pulseFlags.wpm)
 	demodulator.SetDebounceThreshold(decodeFlags.debounce)
 	demodulator.SetMagnitudeThreshold(pulseFlags.magnitudeThreshold)
 	demodulator.SetScope(scope)
-- 
2.43.0


From 2248bab714c980791a1e17a5097d92c04fa4ee43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:35 +0000
Subject: [PATCH 38/58] fix: strain kiwi uses a threshold to detect signals

---
 cmd/kiwi.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/kiwi.go b/cmd/kiwi.go
index 61d73d6..5a6b89e 100644
--- a/cmd/kiwi.go
+++ b/cmd/kiwi.go
@@ -35,6 +35,7 @@ func init() {
 	strainKiwiCmd.Flags().StringVar(&kiwiFlags.password, "password", "", "the KiwiSDR password")
 	strainKiwiCmd.Flags().Float64Var(&kiwiFlags.centerFrequency, "center", 7_020_000, "the center frequency")
 	strainKiwiCmd.Flags().Float64Var(&kiwiFlags.rxFrequency, "rx", 0, "the rx frequency")
+	strainKiwiCmd.Flags().IntVar(&kiwiFlags.threshold, "threshold", 15, "the threshold in dB over noise that a signal must exceed to be detected")
 	strainKiwiCmd.Flags().IntVar(&kiwiFlags.bandwidth, "bandwidth", 10_000, "the bandwidth that is observed to find CW signals (max 12000)")
 }
 
-- 
2.43.0


From a42d2235513f19d225d4cef347357c920277136f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:41 +0000
Subject: [PATCH 39/58] fix: the filter for a low pitch covers at least one
 period

---
 dsp/dsp.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsp/dsp.go b/dsp/dsp.go
index af3de85..5627c20 100644
--- a/dsp/dsp.go
+++ b/dsp/dsp.go
@@ -71,7 +71,8 @@ func NewGoertzel(pitch float64, sampleRate int, blocksizeRatio float64) *Goertze
 
 func calculateBlocksize(pitch float64, sampleRate int, blocksizeRatio float64) int {
 	minBlocksize := math.Round(float64(sampleRate) / pitch)
-	return int(math.Round((blocksizeRatio*float64(sampleRate))/minBlocksize)) * int(minBlocksize)
+	blockCount := max(1, math.Round((blocksizeRatio*float64(sampleRate))/minBlocksize)) // cover at least one period
+	return int(blockCount) * int(minBlocksize)
 }
 
 // SetMagnitudeThreshold sets the magnitude threshold.
-- 
2.43.0


From 9029e8d256028de1771f42c6d53a4109909283de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:39 +0000
Subject: [PATCH 40/58] fix: a short IQ message from the KiwiSDR does not crash
 the program

---
 kiwi/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kiwi/client.go b/kiwi/client.go
index 4bb27cb..c88d53a 100644
--- a/kiwi/client.go
+++ b/kiwi/client.go
@@ -289,6 +289,9 @@ func decodeIQMessage(iqData []float32, payload []byte) ([]float32, error) {
 	// rssi := 0.1*float32(smeter) - 127
 	// 10 more bytes of GPS information are ignored
 
+	if len(payload) < 17 {
+		return iqData, fmt.Errorf("IQ message too short: %d bytes", len(payload))
+	}
 	iqBytes := payload[17:]
 	iqData = decodeIQBytes(iqData, iqBytes)
 
-- 
2.43.0


From 817493d708533eb1c888b71c6be02cfd00b7e37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:39 +0000
Subject: [PATCH 41/58] fix: IQ data from the KiwiSDR is not overwritten while
 it waits to be processed

---
 kiwi/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kiwi/client.go b/kiwi/client.go
index c88d53a..e0cf8fa 100644
--- a/kiwi/client.go
+++ b/kiwi/client.go
@@ -200,7 +200,7 @@ func (c *Client) readLoop(conn clientConn) {
 				} else if c.audioRate == 0 {
 					err = fmt.Errorf("received IQ data with unknown audio rate")
 				} else {
-					c.iqBuffer, err = decodeIQMessage(c.iqBuffer, payload)
+					c.iqBuffer, err = decodeIQMessage(nil, payload) // the handler keeps the data in a queue
 				}
 				if err == nil {
 					c.kiwiHandler.IQData(c.audioRate, c.iqBuffer)
-- 
2.43.0


From 56a3fb4a3ef02e2430d21b78d688a7b85b3df585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:39 +0000
Subject: [PATCH 42/58] fix: IQ data of an unexpected size does not crash the
 program

---
 kiwi/kiwi.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kiwi/kiwi.go b/kiwi/kiwi.go
index 2df24c2..da4d690 100644
--- a/kiwi/kiwi.go
+++ b/kiwi/kiwi.go
@@ -94,7 +94,8 @@ func (p *Process) Connected(sampleRate int) {
 func (p *Process) IQData(sampleRate int, data []float32) {
 	const partSize = blockSize * 2
 	if len(data)%partSize != 0 {
-		panic(fmt.Errorf("data must be transferred in blocks of %d samples instead of %d", partSize, len(data)))
+		log.Printf("data must be transferred in blocks of %d samples instead of %d", partSize, len(data))
+		return
 	}
 	count := len(data) / partSize
 	for i := 0; i < count; i++ {
-- 
2.43.0


From eaad09ef26edd5e35c2f2cb3bd5df5d387a0902c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:34 +0000
Subject: [PATCH 43/58] fix: closing the KiwiSDR client is safe at any time and
 leaves nothing running

---
 kiwi/client.go | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/kiwi/client.go b/kiwi/client.go
index e0cf8fa..e8c9a27 100644
--- a/kiwi/client.go
+++ b/kiwi/client.go
@@ -10,6 +10,7 @@ import (
 	"net/url"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/ftl/sdrainer/cli"
@@ -84,9 +85,11 @@ type Client struct {
 	iqBuffer    []float32
 	kiwiHandler KiwiHandler
 
-	out    chan string
-	close  chan struct{}
-	closed chan struct{}
+	out       chan string
+	close     chan struct{}
+	closeOnce sync.Once
+	closed    chan struct{}
+	done      chan struct{} // closed when nothing is read anymore
 }
 
 func Open(host string, username string, password string, centerFrequency float64, bandwidth int, kiwiHandler KiwiHandler) (*Client, error) {
@@ -144,6 +147,7 @@ func newClient(host string, keepalive bool, kiwiHandler KiwiHandler) (*Client, e
 		out:    make(chan string),
 		close:  make(chan struct{}),
 		closed: make(chan struct{}),
+		done:   make(chan struct{}),
 	}
 
 	return result, nil
@@ -164,6 +168,7 @@ func (c *Client) connect() (clientConn, error) {
 }
 
 func (c *Client) readLoop(conn clientConn) {
+	defer close(c.done)
 	defer conn.Close()
 	for {
 		select {
@@ -173,7 +178,7 @@ func (c *Client) readLoop(conn clientConn) {
 			msgType, msgBytes, err := conn.ReadMessage()
 			if err != nil {
 				log.Printf("cannot read next message from websocket: %v", err)
-				close(c.close)
+				c.shutdown()
 				return
 			}
 			if msgType != websocket.BinaryMessage {
@@ -212,7 +217,7 @@ func (c *Client) readLoop(conn clientConn) {
 			if err == ErrTooBusy || err == ErrBadPassword || err == ErrDown {
 				log.Printf("error message: %s", payload)
 				log.Print(err)
-				close(c.close)
+				c.shutdown()
 				return
 			}
 
@@ -311,6 +316,7 @@ func decodeIQBytes(iqData []float32, iqBytes []byte) []float32 {
 }
 
 func (c *Client) writeLoop(conn clientConn) {
+	defer conn.Close() // ends also the read loop
 	defer close(c.closed)
 
 	keepaliveMessage := []byte("SET keepalive")
@@ -331,7 +337,7 @@ func (c *Client) writeLoop(conn clientConn) {
 		}
 		if err != nil {
 			log.Printf("cannot write message to websocket: %v", err)
-			close(c.close)
+			c.shutdown()
 			return
 		}
 	}
@@ -361,22 +367,24 @@ func (c *Client) setVFO(mode kiwiMode, lowCut int, highCut int, centerFrequency
 }
 
 func (c *Client) send(format string, args ...any) error {
-	c.out <- fmt.Sprintf(format, args...)
-	return nil
-}
-
-func (c *Client) Close() {
 	select {
+	case c.out <- fmt.Sprintf(format, args...):
+		return nil
 	case <-c.close:
-		return
-	case <-c.closed:
-		return
-	default:
-		close(c.close)
-		<-c.closed
+		return fmt.Errorf("the connection is closed")
 	}
 }
 
+func (c *Client) shutdown() {
+	c.closeOnce.Do(func() { close(c.close) })
+}
+
+func (c *Client) Close() {
+	c.shutdown()
+	<-c.closed
+	<-c.done
+}
+
 func nextClientNumber() int64 {
 	return time.Now().Unix()
 }
-- 
2.43.0


From ca478afbe561bb27b5719edd6cb198f943162ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:42 +0000
Subject: [PATCH 44/58] fix: KiwiSDR settings are not lost while the client
 connects, and the process can be closed from several goroutines

---
 kiwi/kiwi.go | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/kiwi/kiwi.go b/kiwi/kiwi.go
index da4d690..7cf7b1d 100644
--- a/kiwi/kiwi.go
+++ b/kiwi/kiwi.go
@@ -3,6 +3,7 @@ package kiwi
 import (
 	"fmt"
 	"log"
+	"sync"
 	"time"
 
 	"github.com/ftl/sdrainer/rx"
@@ -31,7 +32,10 @@ type Process struct {
 	attachmentTimeout time.Duration
 	scope             scope.Scope
 
-	close chan struct{}
+	lock sync.Mutex // protects the settings, they change while the client connects
+
+	close     chan struct{}
+	closeOnce sync.Once
 }
 
 func New(host string, username string, password string, centerFrequency float64, bandwidth int, spotter Spotter) (*Process, error) {
@@ -57,14 +61,11 @@ func New(host string, username string, password string, centerFrequency float64,
 }
 
 func (p *Process) Close() {
-	select {
-	case <-p.close:
-		return
-	default:
+	p.closeOnce.Do(func() {
 		close(p.close)
 		p.client.Close()
 		p.receiver.Stop()
-	}
+	})
 }
 
 func (p *Process) Connected(sampleRate int) {
@@ -72,12 +73,14 @@ func (p *Process) Connected(sampleRate int) {
 		log.Fatal("no audio rate!")
 	}
 
+	p.lock.Lock()
+	defer p.lock.Unlock()
 	p.receiver.Start(sampleRate, blockSize)
 	if p.threshold != 0 {
 		p.receiver.SetPeakThreshold(p.threshold)
 	}
 	if p.rxFrequency != 0 {
-		p.SetRXFrequency(p.rxFrequency)
+		p.setRXFrequency(p.rxFrequency)
 	}
 	if p.signalDebounce != 0 {
 		p.receiver.SetSignalDebounce(p.signalDebounce)
@@ -106,16 +109,26 @@ func (p *Process) IQData(sampleRate int, data []float32) {
 }
 
 func (p *Process) SetScope(scope scope.Scope) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
 	p.scope = scope
 	p.receiver.SetScope(scope)
 }
 
 func (p *Process) SetThreshold(threshold int) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
 	p.threshold = float32(threshold)
 	p.receiver.SetPeakThreshold(float32(threshold))
 }
 
 func (p *Process) SetRXFrequency(frequency float64) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
+	p.setRXFrequency(frequency)
+}
+
+func (p *Process) setRXFrequency(frequency float64) {
 	p.rxFrequency = frequency
 	if frequency == 0 {
 		return
@@ -126,16 +139,22 @@ func (p *Process) SetRXFrequency(frequency float64) {
 }
 
 func (p *Process) SetSilenceTimeout(timeout time.Duration) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
 	p.silenceTimeout = timeout
 	p.receiver.SetSilenceTimeout(timeout)
 }
 
 func (p *Process) SetAttachmentTimeout(timeout time.Duration) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
 	p.attachmentTimeout = timeout
 	p.receiver.SetAttachmentTimeout(timeout)
 }
 
 func (p *Process) SetSignalDebounce(debounce int) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
 	p.signalDebounce = debounce
 	p.receiver.SetSignalDebounce(debounce)
 }
-- 
2.43.0


From c30ce5b850018e8fec3166c9dae688cf327b2330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:49 +0000
Subject: [PATCH 45/58] fix: callsigns spotted with a KiwiSDR are passed on to
 the spotter

---
 kiwi/kiwi.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/kiwi/kiwi.go b/kiwi/kiwi.go
index 7cf7b1d..108fd7f 100644
--- a/kiwi/kiwi.go
+++ b/kiwi/kiwi.go
@@ -50,6 +50,8 @@ func New(host string, username string, password string, centerFrequency float64,
 
 	edgeWidth := int(float32((maxBandwidth-bandwidth)/2) * (float32(blockSize) / float32(maxBandwidth)))
 	result.receiver.SetEdgeWidth(edgeWidth)
+	result.receiver.SetCenterFrequency(int(centerFrequency))
+	result.receiver.AddReporter(result)
 
 	client, err := Open(host, username, password, centerFrequency, bandwidth, result)
 	if err != nil {
@@ -163,5 +165,9 @@ func (p *Process) ListenerActivated(listener string, frequency int)   {}
 func (p *Process) ListenerDeactivated(listener string, frequency int) {}
 func (p *Process) CallsignDecoded(listener string, callsign string, frequency int, count int, weight int) {
 }
-func (p *Process) CallsignSpotted(listener string, callsign string, frequency int) {}
-func (p *Process) SpotTimeout(listener string, callsign string, frequency int)     {}
+func (p *Process) CallsignSpotted(listener string, callsign string, frequency int) {
+	if p.spotter != nil {
+		p.spotter.Spot(callsign, float64(frequency), "cw", time.Now().UTC())
+	}
+}
+func (p *Process) SpotTimeout(listener string, callsign string, frequency int) {}
-- 
2.43.0


From 56130d222a94df4f3f1b2b4d788bbf02dd9e0ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:03 +0000
Subject: [PATCH 46/58] fix: IPv6 addresses are accepted as TCP address

---
 cli/cli.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cli/cli.go b/cli/cli.go
index 6813cf2..8694042 100644
--- a/cli/cli.go
+++ b/cli/cli.go
@@ -1,7 +1,6 @@
 package cli
 
 import (
-	"fmt"
 	"net"
 	"strconv"
 	"strings"
@@ -18,7 +17,7 @@ func ParseTCPAddrArg(arg string, defaultHost string, defaultPort int) (*net.TCPA
 		port = strconv.Itoa(defaultPort)
 	}
 
-	return net.ResolveTCPAddr("tcp", fmt.Sprintf("%s:%s", host, port))
+	return net.ResolveTCPAddr("tcp", net.JoinHostPort(host, port))
 }
 
 func splitHostPort(hostport string) (host, port string) {
-- 
2.43.0


From 558ab8c05ef2154af2f35fa577ecb4a5cdbf0090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:05 +0000
Subject: [PATCH 47/58] fix: connect to a KiwiSDR with an IPv6 address

---
 kiwi/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kiwi/client.go b/kiwi/client.go
index e8c9a27..cdbf2f9 100644
--- a/kiwi/client.go
+++ b/kiwi/client.go
@@ -154,7 +154,7 @@ func newClient(host string, keepalive bool, kiwiHandler KiwiHandler) (*Client, e
 }
 
 func (c *Client) connect() (clientConn, error) {
-	hostUrl, err := url.Parse(fmt.Sprintf("ws://%s:%d/%d/SND", c.host.IP.String(), c.host.Port, nextClientNumber()))
+	hostUrl, err := url.Parse(fmt.Sprintf("ws://%s/%d/SND", net.JoinHostPort(c.host.IP.String(), strconv.Itoa(c.host.Port)), nextClientNumber()))
 	if err != nil {
 		return nil, fmt.Errorf("cannot build KiwiSDR URL: %v", err)
 	}
-- 
2.43.0


From 3aa15fb16e8d8697b806c1a848973ddcc6087162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:48 +0000
Subject: [PATCH 48/58] fix: TCI devices with IF limits beyond the IQ sample
 rate do not crash the receiver

---
 tci/tci.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tci/tci.go b/tci/tci.go
index a624187..0c23452 100644
--- a/tci/tci.go
+++ b/tci/tci.go
@@ -155,6 +155,9 @@ func (p *Process) onConnected(connected bool) {
 
 	bandwidth := -p.client.MinIFFrequency + p.client.MaxIFFrequency
 	sampleRate := 48000
+	if bandwidth <= 0 || bandwidth > sampleRate {
+		bandwidth = sampleRate // the IQ data cannot be wider
+	}
 	blockSize := 2048 / partCount
 	edgeWidth := int((float32(sampleRate-bandwidth) / 2.0) * (float32(blockSize) / float32(sampleRate)))
 	p.receiver.SetEdgeWidth(edgeWidth)
-- 
2.43.0


From 8e41e35ff794b3b2abbdf346638b1b5542e4d20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:55 +0000
Subject: [PATCH 49/58] fix: TCI settings and the VFO frequency are not lost
 while the client connects

---
 tci/tci.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/tci/tci.go b/tci/tci.go
index 0c23452..a80c46c 100644
--- a/tci/tci.go
+++ b/tci/tci.go
@@ -2,6 +2,7 @@ package tci
 
 import (
 	"fmt"
+	"sync"
 	"time"
 
 	tci "github.com/ftl/tci/client"
@@ -36,6 +37,9 @@ type Process struct {
 	scope             scope.Scope
 	showListeners     bool
 	showSpots         bool
+	vfoOffset         *int
+
+	lock sync.Mutex // protects the settings, they change while the client connects
 
 	opAsync chan func()
 	close   chan struct{}
@@ -109,6 +113,8 @@ func (p *Process) doAsync(f func()) {
 }
 
 func (p *Process) SetScope(scope scope.Scope) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
 	p.scope = scope
 	if p.client.Connected() {
 		p.receiver.SetScope(scope)
@@ -116,11 +122,15 @@ func (p *Process) SetScope(scope scope.Scope) {
 }
 
 func (p *Process) SetShow(listeners bool, spots bool) {
-	p.showListeners = listeners
-	p.showSpots = spots
+	p.doAsync(func() {
+		p.showListeners = listeners
+		p.showSpots = spots
+	})
 }
 
 func (p *Process) SetThreshold(threshold int) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
 	p.threshold = float32(threshold)
 	if p.client.Connected() {
 		p.receiver.SetPeakThreshold(float32(threshold))
@@ -128,6 +138,8 @@ func (p *Process) SetThreshold(threshold int) {
 }
 
 func (p *Process) SetSilenceTimeout(timeout time.Duration) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
 	p.silenceTimeout = timeout
 	if p.client.Connected() {
 		p.receiver.SetSilenceTimeout(timeout)
@@ -135,6 +147,8 @@ func (p *Process) SetSilenceTimeout(timeout time.Duration) {
 }
 
 func (p *Process) SetAttachmentTimeout(timeout time.Duration) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
 	p.attachmentTimeout = timeout
 	if p.client.Connected() {
 		p.receiver.SetAttachmentTimeout(timeout)
@@ -142,6 +156,8 @@ func (p *Process) SetAttachmentTimeout(timeout time.Duration) {
 }
 
 func (p *Process) SetSignalDebounce(debounce int) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
 	p.signalDebounce = debounce
 	if p.client.Connected() {
 		p.receiver.SetSignalDebounce(debounce)
@@ -152,6 +168,8 @@ func (p *Process) onConnected(connected bool) {
 	if !connected {
 		return
 	}
+	p.lock.Lock()
+	defer p.lock.Unlock()
 
 	bandwidth := -p.client.MinIFFrequency + p.client.MaxIFFrequency
 	sampleRate := 48000
@@ -176,6 +194,9 @@ func (p *Process) onConnected(connected bool) {
 		p.receiver.SetAttachmentTimeout(p.attachmentTimeout)
 	}
 	p.receiver.SetScope(p.scope)
+	if p.vfoOffset != nil {
+		p.receiver.SetVFOOffset(*p.vfoOffset)
+	}
 
 	p.client.SetIQSampleRate(48000)
 	p.client.StartIQ(p.trx)
@@ -261,6 +282,9 @@ func (l *tciListener) SetIF(trx int, vfo tci.VFO, frequency int) {
 		return
 	}
 
+	l.process.lock.Lock()
+	defer l.process.lock.Unlock()
+	l.process.vfoOffset = &frequency
 	l.process.receiver.SetVFOOffset(frequency)
 }
 
-- 
2.43.0


From aa1917825a04cacbebfe499c676eade1a32b47cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:39 +0000
Subject: [PATCH 50/58] fix: closing the TCI process executes all pending
 operations and cannot block

---
 tci/tci.go | 54 +++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 13 deletions(-)

diff --git a/tci/tci.go b/tci/tci.go
index a80c46c..3fe0f72 100644
--- a/tci/tci.go
+++ b/tci/tci.go
@@ -41,9 +41,10 @@ type Process struct {
 
 	lock sync.Mutex // protects the settings, they change while the client connects
 
-	opAsync chan func()
-	close   chan struct{}
-	closed  chan struct{}
+	opAsync   chan func()
+	close     chan struct{}
+	closed    chan struct{}
+	closeOnce sync.Once
 }
 
 func New(host string, trx int, mode rx.ReceiverMode, spotter Spotter, reporter rx.Reporter[int], traceTCI bool) (*Process, error) {
@@ -80,13 +81,8 @@ func New(host string, trx int, mode rx.ReceiverMode, spotter Spotter, reporter r
 }
 
 func (p *Process) Close() {
-	select {
-	case <-p.close:
-		return
-	default:
-		close(p.close)
-		<-p.closed
-	}
+	p.closeOnce.Do(func() { close(p.close) })
+	<-p.closed
 }
 
 func (p *Process) run() {
@@ -95,20 +91,47 @@ func (p *Process) run() {
 		case op := <-p.opAsync:
 			op()
 		case <-p.close:
-			p.client.StopIQ(p.trx)
-			p.receiver.Stop()
+			stopped := make(chan struct{})
+			go func() {
+				p.lock.Lock()
+				defer p.lock.Unlock()
+				p.client.StopIQ(p.trx)
+				p.receiver.Stop()
+				close(stopped)
+			}()
+			p.drain(stopped)
 			close(p.closed)
 			return
 		}
 	}
 }
 
+// drain executes all pending operations until the receiver is stopped.
+func (p *Process) drain(stopped <-chan struct{}) {
+	for {
+		select {
+		case op := <-p.opAsync:
+			op()
+		case <-stopped:
+			for len(p.opAsync) > 0 {
+				op := <-p.opAsync
+				op()
+			}
+			return
+		}
+	}
+}
+
 func (p *Process) doAsync(f func()) {
 	select {
 	case <-p.closed:
 		f()
 	default:
-		p.opAsync <- f
+		select {
+		case <-p.closed:
+			f()
+		case p.opAsync <- f:
+		}
 	}
 }
 
@@ -170,6 +193,11 @@ func (p *Process) onConnected(connected bool) {
 	}
 	p.lock.Lock()
 	defer p.lock.Unlock()
+	select {
+	case <-p.close:
+		return
+	default:
+	}
 
 	bandwidth := -p.client.MinIFFrequency + p.client.MaxIFFrequency
 	sampleRate := 48000
-- 
2.43.0


From f0ac7be30f8104dc7c497161115c20fe36d8f270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:30 +0000
Subject: [PATCH 51/58] fix: a TCI connection that is established immediately
 is not missed

---
 tci/tci.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tci/tci.go b/tci/tci.go
index 3fe0f72..4954222 100644
--- a/tci/tci.go
+++ b/tci/tci.go
@@ -56,10 +56,7 @@ func New(host string, trx int, mode rx.ReceiverMode, spotter Spotter, reporter r
 		tcpHost.Port = defaultPort
 	}
 
-	client := tci.KeepOpen(tcpHost, timeout, traceTCI)
-
 	result := &Process{
-		client:  client,
 		trx:     trx,
 		spotter: spotter,
 		opAsync: make(chan func(), 100),
@@ -74,8 +71,11 @@ func New(host string, trx int, mode rx.ReceiverMode, spotter Spotter, reporter r
 		result.receiver.AddReporter(reporter)
 	}
 
+	// the client may connect before KeepOpen returns
+	result.lock.Lock()
+	defer result.lock.Unlock()
+	result.client = tci.KeepOpen(tcpHost, timeout, traceTCI, result.listener)
 	go result.run()
-	client.Notify(result.listener)
 
 	return result, nil
 }
-- 
2.43.0


From b55f167e1f6a59a8ce184f6e1faad4102df4906d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:13 +0000
Subject: [PATCH 52/58] fix: several slow scope clients at once do not crash
 the server

---
 scope/server_grpc.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scope/server_grpc.go b/scope/server_grpc.go
index e6ee85e..2824b55 100644
--- a/scope/server_grpc.go
+++ b/scope/server_grpc.go
@@ -75,7 +75,8 @@ func (s *grpcServer) removeStream(i int) {
 }
 
 func (s *grpcServer) sendFrameToStreams(frame *pb.Frame) {
-	for i, out := range s.out {
+	for i := len(s.out) - 1; i >= 0; i-- { // backwards, because removing a stream moves the last one
+		out := s.out[i]
 		select {
 		case out <- frame:
 		default:
-- 
2.43.0


From 74814ddf24f74376efcfb0bb5fa38844c7d086aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:34 +0000
Subject: [PATCH 53/58] fix: the scope server reports an address in use, and
 can be stopped and restarted at any time

---
 scope/server.go      | 45 +++++++++++++++++++++++------------
 scope/server_grpc.go | 56 ++++++++++++++++++++++++++++++++++----------
 2 files changed, 73 insertions(+), 28 deletions(-)

diff --git a/scope/server.go b/scope/server.go
index b65c4c7..7b240f5 100644
--- a/scope/server.go
+++ b/scope/server.go
@@ -44,7 +44,9 @@ func (s *ScopeServer) Addr() net.Addr {
 }
 
 func (s *ScopeServer) Start() error {
-	if s.Active() {
+	s.serverLock.Lock()
+	defer s.serverLock.Unlock()
+	if s.server != nil {
 		return fmt.Errorf("scope was already started")
 	}
 
@@ -53,22 +55,22 @@ func (s *ScopeServer) Start() error {
 		return err
 	}
 
-	go func() {
-		s.serverLock.Lock()
-		if s.server != nil {
-			s.serverLock.Unlock()
-			return
-		}
-		s.server = server
-		s.serverLock.Unlock()
+	listener, err := server.listen()
+	if err != nil {
+		return err
+	}
+	s.server = server
 
-		err := s.server.Start()
+	go func() {
+		err := server.serve(listener)
 		if err != nil {
 			log.Printf("Scope server failed: %v", err)
 		}
 
 		s.serverLock.Lock()
-		s.server = nil
+		if s.server == server {
+			s.server = nil
+		}
 		s.serverLock.Unlock()
 	}()
 
@@ -76,11 +78,24 @@ func (s *ScopeServer) Start() error {
 }
 
 func (s *ScopeServer) Stop() {
-	if !s.Active() {
+	s.serverLock.Lock()
+	server := s.server
+	s.server = nil
+	s.serverLock.Unlock()
+	if server == nil {
 		return
 	}
 
-	s.server.Stop()
+	server.Stop()
+}
+
+func (s *ScopeServer) sendFrame(frame *pb.Frame) {
+	s.serverLock.Lock()
+	server := s.server
+	s.serverLock.Unlock()
+	if server != nil {
+		server.SendFrame(frame)
+	}
 }
 
 func (s *ScopeServer) ShowTimeFrame(timeFrame *TimeFrame) {
@@ -102,7 +117,7 @@ func (s *ScopeServer) ShowTimeFrame(timeFrame *TimeFrame) {
 			TimeFrame: grpcTimeFrame,
 		},
 	}
-	s.server.SendFrame(frame)
+	s.sendFrame(frame)
 }
 
 func (s *ScopeServer) ShowSpectralFrame(spectralFrame *SpectralFrame) {
@@ -134,5 +149,5 @@ func (s *ScopeServer) ShowSpectralFrame(spectralFrame *SpectralFrame) {
 			SpectralFrame: grpcSpectralFrame,
 		},
 	}
-	s.server.SendFrame(frame)
+	s.sendFrame(frame)
 }
diff --git a/scope/server_grpc.go b/scope/server_grpc.go
index 2824b55..b9e3933 100644
--- a/scope/server_grpc.go
+++ b/scope/server_grpc.go
@@ -3,6 +3,7 @@ package scope
 import (
 	"fmt"
 	"net"
+	"sync"
 
 	"google.golang.org/grpc"
 
@@ -14,6 +15,7 @@ const defaultOutBufferSize = 10
 type grpcServer struct {
 	address *net.TCPAddr
 	server  *grpc.Server
+	lock    sync.Mutex // protects server and activeAddress
 
 	outBufferSize int
 	in            chan *pb.Frame
@@ -42,9 +44,6 @@ func newGRPCServer(address string, outBufferSize int) (*grpcServer, error) {
 }
 
 func (s *grpcServer) run() {
-	defer close(s.in)
-	defer close(s.register)
-
 	for {
 		select {
 		case <-s.shutdown:
@@ -88,39 +87,67 @@ func (s *grpcServer) sendFrameToStreams(frame *pb.Frame) {
 
 func (s *grpcServer) getFrameStream() chan *pb.Frame {
 	result := make(chan *pb.Frame, s.outBufferSize)
-	s.register <- result
+	select {
+	case s.register <- result:
+	case <-s.shutdown:
+		close(result)
+	}
 	return result
 }
 
 func (s *grpcServer) Start() error {
+	listener, err := s.listen()
+	if err != nil {
+		return err
+	}
+	return s.serve(listener)
+}
+
+func (s *grpcServer) listen() (net.Listener, error) {
+	s.lock.Lock()
+	defer s.lock.Unlock()
 	if s.server != nil {
-		return fmt.Errorf("server already running")
+		return nil, fmt.Errorf("server already running")
 	}
-	s.server = grpc.NewServer()
-	pb.RegisterScopeServer(s.server, s)
 
 	listener, err := net.Listen("tcp", s.address.String())
 	if err != nil {
-		return fmt.Errorf("cannot listen on address %s: %w", s.address, err)
+		return nil, fmt.Errorf("cannot listen on address %s: %w", s.address, err)
 	}
 	s.activeAddress = listener.Addr()
+	s.server = grpc.NewServer()
+	pb.RegisterScopeServer(s.server, s)
 
 	go s.run()
+	return listener, nil
+}
 
-	err = s.server.Serve(listener)
+func (s *grpcServer) serve(listener net.Listener) error {
+	err := s.activeServer().Serve(listener)
+	s.lock.Lock()
+	defer s.lock.Unlock()
 	s.server = nil
 	close(s.shutdown)
 	return err
 }
 
+func (s *grpcServer) activeServer() *grpc.Server {
+	s.lock.Lock()
+	defer s.lock.Unlock()
+	return s.server
+}
+
 func (s *grpcServer) Stop() {
-	if s.server == nil {
+	server := s.activeServer()
+	if server == nil {
 		return
 	}
-	s.server.Stop()
+	server.Stop()
 }
 
 func (s *grpcServer) Addr() net.Addr {
+	s.lock.Lock()
+	defer s.lock.Unlock()
 	return s.activeAddress
 }
 
@@ -142,8 +169,11 @@ func (s *grpcServer) GetFrames(_ *pb.GetScopeRequest, stream pb.Scope_GetFramesS
 }
 
 func (s *grpcServer) SendFrame(frame *pb.Frame) {
-	if s.server == nil {
+	if s.activeServer() == nil {
 		return
 	}
-	s.in <- frame
+	select {
+	case s.in <- frame:
+	case <-s.shutdown:
+	}
 }
-- 
2.43.0


From 1038de2226eb82d736cb9ed6f543270d8a42e8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:41 +0000
Subject: [PATCH 54/58] fix: closing the scope client ends the reception, also
 if nobody takes the frames

---
 scope/client.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/scope/client.go b/scope/client.go
index 8f560c5..56b87aa 100644
--- a/scope/client.go
+++ b/scope/client.go
@@ -69,9 +69,15 @@ func (c *Client) GetFrames() (chan *TimeFrame, chan *SpectralFrame, error) {
 
 			switch rawFrame := frame.Frame.(type) {
 			case *pb.Frame_TimeFrame:
-				timeFrames <- readTimeFrame(rawFrame.TimeFrame)
+				select {
+				case timeFrames <- readTimeFrame(rawFrame.TimeFrame):
+				case <-stream.Context().Done():
+				}
 			case *pb.Frame_SpectralFrame:
-				spectralFrames <- readSpectralFrame(rawFrame.SpectralFrame)
+				select {
+				case spectralFrames <- readSpectralFrame(rawFrame.SpectralFrame):
+				case <-stream.Context().Done():
+				}
 			}
 		}
 	}()
-- 
2.43.0


From 8bf72b4e05ccef08813e47a8b86b6986d6746f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:51 +0000
Subject: [PATCH 55/58] fix: the address of the scope server is free again
 after Stop, also if it was just started

---
 scope/server_grpc.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scope/server_grpc.go b/scope/server_grpc.go
index b9e3933..8bb4257 100644
--- a/scope/server_grpc.go
+++ b/scope/server_grpc.go
@@ -24,6 +24,7 @@ type grpcServer struct {
 	shutdown      chan struct{}
 
 	activeAddress net.Addr
+	listener      net.Listener
 }
 
 func newGRPCServer(address string, outBufferSize int) (*grpcServer, error) {
@@ -115,6 +116,7 @@ func (s *grpcServer) listen() (net.Listener, error) {
 		return nil, fmt.Errorf("cannot listen on address %s: %w", s.address, err)
 	}
 	s.activeAddress = listener.Addr()
+	s.listener = listener
 	s.server = grpc.NewServer()
 	pb.RegisterScopeServer(s.server, s)
 
@@ -138,11 +140,15 @@ func (s *grpcServer) activeServer() *grpc.Server {
 }
 
 func (s *grpcServer) Stop() {
-	server := s.activeServer()
+	s.lock.Lock()
+	server := s.server
+	listener := s.listener
+	s.lock.Unlock()
 	if server == nil {
 		return
 	}
 	server.Stop()
+	listener.Close() // the server does not know it yet, if it does not serve yet
 }
 
 func (s *grpcServer) Addr() net.Addr {
-- 
2.43.0


From eb26c5cee75b7d353bda8d3f1b202e224dd64600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:34 +0000
Subject: [PATCH 56/58] fix: record from the selected pulse source with its
 sample rate

The record stream was always created for the default source and with the
default sample rate of 44100 Hz, while the demodulator was set up for the
sample rate of the source that was asked for.
---
 cmd/pulse.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/pulse.go b/cmd/pulse.go
index d8d3064..cae3fe0 100644
--- a/cmd/pulse.go
+++ b/cmd/pulse.go
@@ -62,7 +62,9 @@ func runPulse(ctx context.Context, scope scope.Scope, cmd *cobra.Command, args [
 	demodulator.SetMagnitudeThreshold(pulseFlags.magnitudeThreshold)
 	demodulator.SetScope(scope)
 
-	stream, err := client.NewRecord(pulse.Float32Writer(demodulator.Write), pulse.RecordBufferFragmentSize(2*uint32(demodulator.Blocksize())))
+	stream, err := client.NewRecord(pulse.Float32Writer(demodulator.Write),
+		pulse.RecordSource(source), pulse.RecordSampleRate(source.SampleRate()),
+		pulse.RecordBufferFragmentSize(2*uint32(demodulator.Blocksize())))
 	if err != nil {
 		log.Fatal(err)
 	}
-- 
2.43.0


From e85a740a4d3e3db2646d6ddd19c20e6616afe9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:22 +0000
Subject: [PATCH 57/58] fix: the user of a telnet connection is read by other
 goroutines

The server and the read loop log the user while the connection sets it. A torn
string can crash the program.
---
 telnet/telnet.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/telnet/telnet.go b/telnet/telnet.go
index bdacf29..28a1f76 100644
--- a/telnet/telnet.go
+++ b/telnet/telnet.go
@@ -209,7 +209,8 @@ type Connection struct {
 	closeOnce sync.Once
 	closed    chan struct{}
 
-	user string
+	userLock sync.Mutex
+	user     string // is set by run, the other goroutines use String
 }
 
 func NewConnection(conn io.ReadWriteCloser, welcome string) *Connection {
@@ -241,7 +242,9 @@ func (c *Connection) run(welcome string) {
 	inputCallsignPrompt := &Prompt{
 		Question: "Enter your callsign: ",
 		Answer: func(answer string) (string, *Prompt) {
+			c.userLock.Lock()
 			c.user = answer
+			c.userLock.Unlock()
 			return fmt.Sprintf("welcome %s\n", c.user), ignoreInputPrompt
 		},
 	}
@@ -290,7 +293,7 @@ func (c *Connection) readLoop() {
 		if errors.Is(err, os.ErrClosed) || errors.Is(err, net.ErrClosed) || errors.Is(err, io.EOF) {
 			return
 		} else if err != nil {
-			log.Printf("%s: %v", c.user, err)
+			log.Printf("%s: %v", c.String(), err)
 			return
 		}
 
@@ -350,7 +353,7 @@ func (c *Connection) disconnect() {
 		close(c.close)
 		err := c.conn.Close()
 		if err != nil {
-			log.Printf("close %s: %v", c.user, err)
+			log.Printf("close %s: %v", c.String(), err)
 		}
 	})
 }
@@ -377,5 +380,7 @@ func (c *Connection) Write(bytes []byte) (int, error) {
 }
 
 func (c *Connection) String() string {
+	c.userLock.Lock()
+	defer c.userLock.Unlock()
 	return c.user
 }
-- 
2.43.0


From b09582cd5438bc25db19c6d60e57ca745eb4ff03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:47 +0000
Subject: [PATCH 58/58] fix: the rolling mean and variance do not keep a trace
 of values outside of their window

---
 dsp/dsp.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dsp/dsp.go b/dsp/dsp.go
index 5627c20..1b5616a 100644
--- a/dsp/dsp.go
+++ b/dsp/dsp.go
@@ -200,11 +200,12 @@ func NewRollingVariance[T Number](n int) *RollingVariance[T] {
 
 // Put a new value into the rolling window and get the new variance back.
 func (v *RollingVariance[T]) Put(value T) T {
-	v.sumForMean -= v.values[v.next]
-
 	v.values[v.next] = value
 
-	v.sumForMean += v.values[v.next]
+	v.sumForMean = 0
+	for _, value := range v.values {
+		v.sumForMean += value
+	}
 	v.mean = v.sumForMean / v.n
 	v.sumForVariance = 0
 	for _, value := range v.values {
@@ -253,11 +254,12 @@ func NewRollingMean[T Number](n int) *RollingMean[T] {
 
 // Put a new value into the rolling window and get the new mean back.
 func (v *RollingMean[T]) Put(value T) T {
-	v.sumForMean -= v.values[v.next]
-
 	v.values[v.next] = value
 
-	v.sumForMean += v.values[v.next]
+	v.sumForMean = 0
+	for _, value := range v.values {
+		v.sumForMean += value
+	}
 	v.mean = v.sumForMean / v.n
 
 	v.next = (v.next + 1) % len(v.values)
-- 
2.43.0

