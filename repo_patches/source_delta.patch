From f990ff5c6d0cc3638f6ba2bf5844f4774d25e34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:07 +0000
Subject: [PATCH 01/36] fix: keep by-name params when cloning a request message

---
 messageimpl.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/messageimpl.go b/messageimpl.go
index f90500b..bdfec86 100644
--- a/messageimpl.go
+++ b/messageimpl.go
@@ -319,6 +319,7 @@ func NewRequestMessage(id interface{}, method string, params interface{}) *Reque
 
 func (self RequestMessage) Clone(newId interface{}) *RequestMessage {
 	newReq := NewRequestMessage(newId, self.Method, self.Params)
+	newReq.paramsAreList = self.paramsAreList
 	newReq.SetTraceId(self.traceId)
 	return newReq
 }
-- 
2.43.0


From fcc8559e37879c5b8b97a14c5db7b23cd6ada4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:08 +0000
Subject: [PATCH 02/36] fix: report undecodable Bigint instead of silently
 corrupting it

---
 utils.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/utils.go b/utils.go
index c7f7505..a8c1af4 100644
--- a/utils.go
+++ b/utils.go
@@ -186,14 +186,20 @@ func (self Bigint) MarshalJSON() ([]byte, error) {
 
 func (self *Bigint) UnmarshalJSON(data []byte) error {
 	sd := string(data)
-	bi := (*big.Int)(self)
+	if sd == "null" {
+		// no-op by convention of json.Unmarshaler
+		return nil
+	}
 
 	if strings.HasPrefix(sd, `"`) {
 		// string repr
-		bi.SetString(sd[1:len(sd)-1], 10)
-	} else {
-		bi.SetString(sd, 10)
+		sd = sd[1 : len(sd)-1]
+	}
+	parsed, ok := new(big.Int).SetString(sd, 10)
+	if !ok {
+		return errors.Errorf("invalid bigint %s", data)
 	}
+	self.Value().Set(parsed)
 	return nil
 }
 
-- 
2.43.0


From 12d763a4d3e1dc6ac111e80a6429cba4ff9539b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:09 +0000
Subject: [PATCH 03/36] fix: GuessJson no longer yields numbers that cannot be
 encoded as JSON

---
 utils.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index a8c1af4..8ab68ba 100644
--- a/utils.go
+++ b/utils.go
@@ -7,6 +7,7 @@ import (
 	"github.com/mitchellh/mapstructure"
 	"github.com/pkg/errors"
 	log "github.com/sirupsen/logrus"
+	"math"
 	"math/big"
 	"net/http"
 	"os"
@@ -42,7 +43,8 @@ func GuessJson(input string) (interface{}, error) {
 		return iv, nil
 	}
 	fv, err := strconv.ParseFloat(input, 64)
-	if err == nil {
+	// NaN and infinities have no JSON representation, treat as strings
+	if err == nil && !math.IsNaN(fv) && !math.IsInf(fv, 0) {
 		return fv, nil
 	}
 
-- 
2.43.0


From 5ded216a62583752a3a134f7a983735767b1f4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:11 +0000
Subject: [PATCH 04/36] fix: null params for interface typed arguments and
 fields no longer panic

---
 http/typewrap.go | 4 ++++
 utils.go         | 8 ++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/http/typewrap.go b/http/typewrap.go
index 5367bb8..d34cf66 100644
--- a/http/typewrap.go
+++ b/http/typewrap.go
@@ -29,6 +29,10 @@ func interfaceToValue(a interface{}, outputType reflect.Type) (reflect.Value, er
 	if err != nil {
 		return reflect.Value{}, err
 	}
+	if output == nil {
+		// null decoded to an interface typed argument
+		return reflect.Zero(outputType), nil
+	}
 	return reflect.ValueOf(output), nil
 }
 
diff --git a/utils.go b/utils.go
index 8ab68ba..991e813 100644
--- a/utils.go
+++ b/utils.go
@@ -173,8 +173,12 @@ func DecodeParams(params []interface{}, outputPtr interface{}) error {
 			return errors.Wrap(err, "mapstruct.Decode")
 		}
 
-		ptrValue.Elem().FieldByIndex(field.Index).Set(
-			reflect.ValueOf(ov))
+		fieldValue := reflect.ValueOf(ov)
+		if !fieldValue.IsValid() {
+			// null decoded to an interface field
+			fieldValue = reflect.Zero(field.Type)
+		}
+		ptrValue.Elem().FieldByIndex(field.Index).Set(fieldValue)
 	}
 	return nil
 }
-- 
2.43.0


From c310af7dc5625efe82dfd8c575e9fff94e48dd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:04 +0000
Subject: [PATCH 05/36] fix: H1Client no longer clears the trace id of the
 caller's message

---
 http/h1_client.go | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/http/h1_client.go b/http/h1_client.go
index 27b0b78..07ca3af 100644
--- a/http/h1_client.go
+++ b/http/h1_client.go
@@ -71,6 +71,32 @@ func (self *H1Client) SetClientTLSConfig(cfg *tls.Config) {
 	self.clientTLS = cfg
 }
 
+// withoutTraceId returns a copy of msg whose trace id is cleared. The
+// trace id travels in a http header and the caller's message must be
+// left as it is.
+func withoutTraceId(msg jlib.Message) jlib.Message {
+	switch m := msg.(type) {
+	case *jlib.RequestMessage:
+		cp := *m
+		cp.SetTraceId("")
+		return &cp
+	case *jlib.NotifyMessage:
+		cp := *m
+		cp.SetTraceId("")
+		return &cp
+	case *jlib.ResultMessage:
+		cp := *m
+		cp.SetTraceId("")
+		return &cp
+	case *jlib.ErrorMessage:
+		cp := *m
+		cp.SetTraceId("")
+		return &cp
+	default:
+		return msg
+	}
+}
+
 func (self *H1Client) UnwrapCall(rootCtx context.Context, reqmsg *jlib.RequestMessage, output interface{}) error {
 	resmsg, err := self.Call(rootCtx, reqmsg)
 	if err != nil {
@@ -100,9 +126,7 @@ func (self *H1Client) request(rootCtx context.Context, reqmsg *jlib.RequestMessa
 
 	traceId := reqmsg.TraceId()
 
-	reqmsg.SetTraceId("")
-
-	marshaled, err := jlib.MessageBytes(reqmsg)
+	marshaled, err := jlib.MessageBytes(withoutTraceId(reqmsg))
 	if err != nil {
 		return nil, err
 	}
@@ -172,9 +196,8 @@ func (self *H1Client) Send(rootCtx context.Context, msg jlib.Message) error {
 	self.connect()
 
 	traceId := msg.TraceId()
-	msg.SetTraceId("")
 
-	marshaled, err := jlib.MessageBytes(msg)
+	marshaled, err := jlib.MessageBytes(withoutTraceId(msg))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 616f56aef8155a7d85f6e5aa0448fbeb7e34ea47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:06 +0000
Subject: [PATCH 06/36] fix: H1 server reads X-Trace-Id and sends its response
 headers before the status

---
 http/h1_server.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/http/h1_server.go b/http/h1_server.go
index 00d660c..8a5c85f 100644
--- a/http/h1_server.go
+++ b/http/h1_server.go
@@ -42,6 +42,11 @@ func (self *H1Handler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
+	// the H1 client carries trace id in http header
+	if traceId := r.Header.Get("X-Trace-Id"); traceId != "" {
+		msg.SetTraceId(traceId)
+	}
+
 	req := NewRPCRequest(r.Context(), msg, TransportHTTP, r)
 	resmsg, err := self.Actor.Feed(req)
 	if err != nil {
@@ -83,12 +88,12 @@ func (self *H1Handler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 			errmsg := jlib.ErrInternalError.ToMessageFromId(msg.MustId(), msg.TraceId())
 			data, _ = jlib.MessageBytes(errmsg)
 		}
-		w.WriteHeader(200)
 		w.Header().Set("Content-Type", "application/json")
 
 		if traceId != "" {
 			w.Header().Set("X-Trace-Id", traceId)
 		}
+		w.WriteHeader(200)
 		w.Write(data)
 	} else {
 		w.WriteHeader(200)
-- 
2.43.0


From 43fa1c8de5acc12086a92212e24df2a42baab553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:07 +0000
Subject: [PATCH 07/36] fix: H1Client rejects responses that are neither result
 nor error

---
 http/h1_client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/http/h1_client.go b/http/h1_client.go
index 07ca3af..873fbd1 100644
--- a/http/h1_client.go
+++ b/http/h1_client.go
@@ -188,6 +188,9 @@ func (self *H1Client) request(rootCtx context.Context, reqmsg *jlib.RequestMessa
 	if err != nil {
 		return nil, err
 	}
+	if !respmsg.IsResultOrError() {
+		return nil, errors.New("response is not a result or error message")
+	}
 	respmsg.SetTraceId(traceId)
 	return respmsg, nil
 }
-- 
2.43.0


From 9c392afa318f3a47bcc70d724fb067013b436150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:42 +0000
Subject: [PATCH 08/36] fix: WS session no longer drops its server while its
 goroutines still use it

---
 http/ws_server.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/http/ws_server.go b/http/ws_server.go
index e3cad4b..75c3465 100644
--- a/http/ws_server.go
+++ b/http/ws_server.go
@@ -66,7 +66,6 @@ func (self *WSHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		self.Actor.HandleClose(r, session)
 	}()
 	session.wait()
-	session.server = nil
 }
 
 // websocket session
-- 
2.43.0


From 062b9bf034162f8262346da38f1ff9bc966ec30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:44 +0000
Subject: [PATCH 09/36] fix: streaming sessions release senders and readers
 once the session is closed

---
 http/h2_server.go | 29 +++++++++++++++++++++++------
 http/ws_server.go | 29 +++++++++++++++++++++++------
 2 files changed, 46 insertions(+), 12 deletions(-)

diff --git a/http/h2_server.go b/http/h2_server.go
index d85150f..52fb836 100644
--- a/http/h2_server.go
+++ b/http/h2_server.go
@@ -82,9 +82,12 @@ func (self *H2Handler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	flusher.Flush()
 
 	decoder := json.NewDecoder(r.Body)
+	// sessionCtx is done as soon as the session is over
+	sessionCtx, cancel := context.WithCancel(r.Context())
+
 	session := &H2Session{
 		server:      self,
-		rootCtx:     r.Context(),
+		rootCtx:     sessionCtx,
 		httpRequest: r,
 		writer:      w,
 		flusher:     flusher,
@@ -97,6 +100,7 @@ func (self *H2Handler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		r.Body.Close()
 		self.Actor.HandleClose(r, session)
 	}()
+	defer cancel()
 	session.wait()
 }
 
@@ -133,7 +137,7 @@ func (self *H2Session) recvLoop() {
 			if errors.Is(err, io.EOF) {
 				break
 			} else {
-				self.done <- err
+				self.finish(err)
 				return
 			}
 		}
@@ -144,7 +148,7 @@ func (self *H2Session) recvLoop() {
 		}
 	}
 	// end of scanning
-	self.done <- nil
+	self.finish(nil)
 	return
 }
 
@@ -158,20 +162,33 @@ func (self *H2Session) msgReceived(msg jlib.Message) {
 
 	resmsg, err := self.server.Actor.Feed(req)
 	if err != nil {
-		self.done <- errors.Wrap(err, "actor.Feed")
+		self.finish(errors.Wrap(err, "actor.Feed"))
 		return
 	}
 	if resmsg != nil {
 		if resmsg.IsResultOrError() {
-			self.sendChannel <- resmsg
+			self.Send(resmsg)
 		} else {
 			self.Send(resmsg)
 		}
 	}
 }
 
+// Send puts a message to send channel, messages to a closed session are
+// dropped
 func (self *H2Session) Send(msg jlib.Message) {
-	self.sendChannel <- msg
+	select {
+	case self.sendChannel <- msg:
+	case <-self.rootCtx.Done():
+	}
+}
+
+// finish ends the session, it never blocks once the session is over
+func (self *H2Session) finish(err error) {
+	select {
+	case self.done <- err:
+	case <-self.rootCtx.Done():
+	}
 }
 
 func (self H2Session) SessionID() string {
diff --git a/http/ws_server.go b/http/ws_server.go
index 75c3465..d227a2a 100644
--- a/http/ws_server.go
+++ b/http/ws_server.go
@@ -53,9 +53,12 @@ func (self *WSHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	}
 	defer ws.Close()
 
+	// sessionCtx is done as soon as the session is over
+	sessionCtx, cancel := context.WithCancel(r.Context())
+
 	session := &WSSession{
 		server:      self,
-		rootCtx:     r.Context(),
+		rootCtx:     sessionCtx,
 		httpRequest: r,
 		ws:          ws,
 		done:        make(chan error, 10),
@@ -65,6 +68,7 @@ func (self *WSHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	defer func() {
 		self.Actor.HandleClose(r, session)
 	}()
+	defer cancel()
 	session.wait()
 }
 
@@ -98,7 +102,7 @@ func (self *WSSession) recvLoop() {
 	for {
 		messageType, msgBytes, err := self.ws.ReadMessage()
 		if err != nil {
-			self.done <- errors.Wrap(err, "ws.ReadMessage()")
+			self.finish(errors.Wrap(err, "ws.ReadMessage()"))
 			return
 		}
 		if messageType != websocket.TextMessage {
@@ -118,7 +122,7 @@ func (self *WSSession) msgBytesReceived(msgBytes []byte) {
 	msg, err := jlib.ParseBytes(msgBytes)
 	if err != nil {
 		log.Warnf("bad jsonrpc message %s", msgBytes)
-		self.done <- errors.New("bad jsonrpc message")
+		self.finish(errors.New("bad jsonrpc message"))
 		return
 	}
 
@@ -131,20 +135,33 @@ func (self *WSSession) msgBytesReceived(msgBytes []byte) {
 
 	resmsg, err := self.server.Actor.Feed(req)
 	if err != nil {
-		self.done <- errors.Wrap(err, "actor.Feed")
+		self.finish(errors.Wrap(err, "actor.Feed"))
 		return
 	}
 	if resmsg != nil {
 		if resmsg.IsResultOrError() {
-			self.sendChannel <- resmsg
+			self.Send(resmsg)
 		} else {
 			self.Send(resmsg)
 		}
 	}
 }
 
+// Send puts a message to send channel, messages to a closed session are
+// dropped
 func (self *WSSession) Send(msg jlib.Message) {
-	self.sendChannel <- msg
+	select {
+	case self.sendChannel <- msg:
+	case <-self.rootCtx.Done():
+	}
+}
+
+// finish ends the session, it never blocks once the session is over
+func (self *WSSession) finish(err error) {
+	select {
+	case self.done <- err:
+	case <-self.rootCtx.Done():
+	}
 }
 
 func (self WSSession) SessionID() string {
-- 
2.43.0


From 6245a814dd9b057a890a325333afc280e6a960ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:14 +0000
Subject: [PATCH 10/36] fix: an unmarshalable message no longer stops the
 sender of a streaming session

---
 http/h2_server.go | 9 ++++++++-
 http/ws_server.go | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/http/h2_server.go b/http/h2_server.go
index 52fb836..116bb2c 100644
--- a/http/h2_server.go
+++ b/http/h2_server.go
@@ -213,7 +213,14 @@ func (self *H2Session) sendLoop() {
 			marshaled, err := jlib.MessageBytes(msg)
 			if err != nil {
 				log.Warnf("marshal msg error %s", err)
-				return
+				if !msg.IsResultOrError() {
+					continue
+				}
+				// the request still deserves a response
+				errmsg := jlib.ErrInternalError.ToMessageFromId(msg.MustId(), msg.TraceId())
+				if marshaled, err = jlib.MessageBytes(errmsg); err != nil {
+					continue
+				}
 			}
 
 			marshaled = append(marshaled, []byte("\n")...)
diff --git a/http/ws_server.go b/http/ws_server.go
index d227a2a..6ea29f1 100644
--- a/http/ws_server.go
+++ b/http/ws_server.go
@@ -186,7 +186,14 @@ func (self *WSSession) sendLoop() {
 			marshaled, err := jlib.MessageBytes(msg)
 			if err != nil {
 				log.Warnf("marshal msg error %s", err)
-				return
+				if !msg.IsResultOrError() {
+					continue
+				}
+				// the request still deserves a response
+				errmsg := jlib.ErrInternalError.ToMessageFromId(msg.MustId(), msg.TraceId())
+				if marshaled, err = jlib.MessageBytes(errmsg); err != nil {
+					continue
+				}
 			}
 
 			if err := self.ws.WriteMessage(websocket.TextMessage, marshaled); err != nil {
-- 
2.43.0


From 0b9aa301704e0f44682a49ac99abdfec295c3c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:14 +0000
Subject: [PATCH 11/36] fix: a streaming session ends when its sender cannot
 write any more

---
 http/h2_server.go | 1 +
 http/ws_server.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/http/h2_server.go b/http/h2_server.go
index 116bb2c..d3f0431 100644
--- a/http/h2_server.go
+++ b/http/h2_server.go
@@ -226,6 +226,7 @@ func (self *H2Session) sendLoop() {
 			marshaled = append(marshaled, []byte("\n")...)
 			if _, err := self.writer.Write(marshaled); err != nil {
 				log.Warnf("h2 writedata warning message %s\n", err)
+				self.finish(errors.Wrap(err, "writer.Write()"))
 				return
 			}
 			self.flusher.Flush()
diff --git a/http/ws_server.go b/http/ws_server.go
index 6ea29f1..d89789c 100644
--- a/http/ws_server.go
+++ b/http/ws_server.go
@@ -198,6 +198,7 @@ func (self *WSSession) sendLoop() {
 
 			if err := self.ws.WriteMessage(websocket.TextMessage, marshaled); err != nil {
 				log.Warnf("write warning message %s", err)
+				self.finish(errors.Wrap(err, "ws.WriteMessage()"))
 				return
 			}
 		}
-- 
2.43.0


From 2121189ebeae065d7098f5091657e90ece832422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:34 +0000
Subject: [PATCH 12/36] fix: H2 sessions never write to a response whose
 handler has returned

---
 http/h2_server.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/http/h2_server.go b/http/h2_server.go
index d3f0431..4ce87e5 100644
--- a/http/h2_server.go
+++ b/http/h2_server.go
@@ -12,6 +12,7 @@ import (
 	"io"
 	"net/http"
 	"sync"
+	"time"
 )
 
 type H2Handler struct {
@@ -33,6 +34,7 @@ type H2Session struct {
 	httpRequest *http.Request
 	rootCtx     context.Context
 	done        chan error
+	sendDone    chan struct{}
 	sendChannel chan jlib.Message
 	sessionId   string
 }
@@ -93,6 +95,7 @@ func (self *H2Handler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		flusher:     flusher,
 		decoder:     decoder,
 		done:        make(chan error, 10),
+		sendDone:    make(chan struct{}),
 		sendChannel: make(chan jlib.Message, 100),
 		sessionId:   jlib.NewUuid(),
 	}
@@ -102,6 +105,24 @@ func (self *H2Handler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	}()
 	defer cancel()
 	session.wait()
+	cancel()
+	session.waitSendLoop(w)
+}
+
+// waitSendLoop waits until nobody writes to w, writing to a response
+// writer is fatal once the http handler has returned.
+func (self *H2Session) waitSendLoop(w http.ResponseWriter) {
+	select {
+	case <-self.sendDone:
+		return
+	case <-time.After(time.Second):
+	}
+	// the sender is blocked by a peer which doesn't read
+	if d, ok := w.(interface{ SetWriteDeadline(time.Time) error }); ok {
+		if err := d.SetWriteDeadline(time.Now().Add(-time.Second)); err == nil {
+			<-self.sendDone
+		}
+	}
 }
 
 // websocket session
@@ -196,6 +217,7 @@ func (self H2Session) SessionID() string {
 }
 
 func (self *H2Session) sendLoop() {
+	defer close(self.sendDone)
 	ctx, cancel := context.WithCancel(self.rootCtx)
 	defer cancel()
 
-- 
2.43.0


From 7ed88a084db5d291870a442038442eb5998ec6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:35 +0000
Subject: [PATCH 13/36] fix: streaming transports may be closed while they are
 read and written

---
 http/h2_client.go | 45 ++++++++++++++++++++++++++++++++++-----------
 http/ws_client.go | 38 ++++++++++++++++++++++++++++++--------
 2 files changed, 64 insertions(+), 19 deletions(-)

diff --git a/http/h2_client.go b/http/h2_client.go
index f3aad83..5f8ecda 100644
--- a/http/h2_client.go
+++ b/http/h2_client.go
@@ -29,7 +29,11 @@ type H2Client struct {
 }
 
 type h2Transport struct {
-	client  *H2Client
+	client *H2Client
+
+	// lock protects the fields below, which are reset while being
+	// read and written
+	lock    sync.Mutex
 	resp    *http.Response
 	decoder *json.Decoder
 	writer  io.Writer
@@ -93,16 +97,21 @@ func (self *H2Client) String() string {
 
 // http2 transport methods
 func (self *h2Transport) Close() {
-	if self.resp != nil {
-		self.resp.Body.Close()
-		self.resp = nil
-		self.writer = nil
-		self.flusher = nil
-		//self.decoder = nil
+	self.lock.Lock()
+	resp := self.resp
+	self.resp = nil
+	self.writer = nil
+	self.flusher = nil
+	self.decoder = nil
+	self.lock.Unlock()
+	if resp != nil {
+		resp.Body.Close()
 	}
 }
 
-func (self h2Transport) Connected() bool {
+func (self *h2Transport) Connected() bool {
+	self.lock.Lock()
+	defer self.lock.Unlock()
 	return self.resp != nil
 }
 
@@ -120,9 +129,11 @@ func (self *h2Transport) Connect(rootCtx context.Context, serverUrl *url.URL, he
 	if err != nil {
 		return self.handleHttp2Error(err)
 	}
+	self.lock.Lock()
 	self.writer = pipeWriter
 	self.resp = resp
 	self.decoder = json.NewDecoder(resp.Body)
+	self.lock.Unlock()
 	return nil
 }
 
@@ -148,14 +159,26 @@ func (self *h2Transport) WriteMessage(msg jlib.Message) error {
 	}
 
 	marshaled = append(marshaled, []byte("\n")...)
-	if _, err := self.writer.Write(marshaled); err != nil {
+	self.lock.Lock()
+	writer := self.writer
+	self.lock.Unlock()
+	if writer == nil {
+		return TransportClosed
+	}
+	if _, err := writer.Write(marshaled); err != nil {
 		return self.handleHttp2Error(err)
 	}
 	return nil
 }
 
 func (self *h2Transport) ReadMessage() (jlib.Message, bool, error) {
-	msg, err := jlib.DecodeMessage(self.decoder)
+	self.lock.Lock()
+	decoder := self.decoder
+	self.lock.Unlock()
+	if decoder == nil {
+		return nil, false, TransportClosed
+	}
+	msg, err := jlib.DecodeMessage(decoder)
 	if err != nil {
 		if errors.Is(err, io.EOF) {
 			return nil, false, TransportClosed
@@ -164,7 +187,7 @@ func (self *h2Transport) ReadMessage() (jlib.Message, bool, error) {
 		}
 		self.client.Log().Warnf(
 			"bad jsonrpc message %s %s, at pos %d",
-			reflect.TypeOf(err), err, self.decoder.InputOffset())
+			reflect.TypeOf(err), err, decoder.InputOffset())
 		return nil, false, err
 	}
 	return msg, true, nil
diff --git a/http/ws_client.go b/http/ws_client.go
index 80023e7..5537a48 100644
--- a/http/ws_client.go
+++ b/http/ws_client.go
@@ -12,6 +12,7 @@ import (
 	"net/http"
 	"net/url"
 	"reflect"
+	"sync"
 )
 
 type WSClient struct {
@@ -19,7 +20,9 @@ type WSClient struct {
 }
 
 type wsTransport struct {
-	ws *websocket.Conn
+	// lock protects ws, which is closed while being read and written
+	lock sync.Mutex
+	ws   *websocket.Conn
 
 	client *WSClient
 }
@@ -40,14 +43,23 @@ func (self *WSClient) String() string {
 
 // websocket transport methods
 func (self *wsTransport) Close() {
-	if self.ws != nil {
-		self.ws.Close()
-		self.ws = nil
+	self.lock.Lock()
+	ws := self.ws
+	self.ws = nil
+	self.lock.Unlock()
+	if ws != nil {
+		ws.Close()
 	}
 }
 
-func (self wsTransport) Connected() bool {
-	return self.ws != nil
+func (self *wsTransport) conn() *websocket.Conn {
+	self.lock.Lock()
+	defer self.lock.Unlock()
+	return self.ws
+}
+
+func (self *wsTransport) Connected() bool {
+	return self.conn() != nil
 }
 
 func (self *wsTransport) Connect(rootCtx context.Context, serverUrl *url.URL, header http.Header) error {
@@ -62,7 +74,9 @@ func (self *wsTransport) Connect(rootCtx context.Context, serverUrl *url.URL, he
 		}
 		return errors.Wrap(err, "wstransport.connect")
 	}
+	self.lock.Lock()
 	self.ws = ws
+	self.lock.Unlock()
 	return nil
 }
 
@@ -87,14 +101,22 @@ func (self *wsTransport) WriteMessage(msg jlib.Message) error {
 		return err
 	}
 
-	if err := self.ws.WriteMessage(websocket.TextMessage, marshaled); err != nil {
+	ws := self.conn()
+	if ws == nil {
+		return TransportClosed
+	}
+	if err := ws.WriteMessage(websocket.TextMessage, marshaled); err != nil {
 		return self.handleWebsocketError(err)
 	}
 	return nil
 }
 
 func (self *wsTransport) ReadMessage() (jlib.Message, bool, error) {
-	messageType, msgBytes, err := self.ws.ReadMessage()
+	ws := self.conn()
+	if ws == nil {
+		return nil, false, TransportClosed
+	}
+	messageType, msgBytes, err := ws.ReadMessage()
 	if err != nil {
 		return nil, false, self.handleWebsocketError(err)
 	}
-- 
2.43.0


From 5a5d98ae2ccefca925893730d3bd46f8bbb7dd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:35 +0000
Subject: [PATCH 14/36] fix: WSClient no longer writes its TLS config to the
 process wide dialer

---
 http/ws_client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/http/ws_client.go b/http/ws_client.go
index 5537a48..7f682cf 100644
--- a/http/ws_client.go
+++ b/http/ws_client.go
@@ -63,7 +63,9 @@ func (self *wsTransport) Connected() bool {
 }
 
 func (self *wsTransport) Connect(rootCtx context.Context, serverUrl *url.URL, header http.Header) error {
-	dailer := websocket.DefaultDialer
+	// never touch the process wide default dailer
+	defaultDailer := *websocket.DefaultDialer
+	dailer := &defaultDailer
 	dailer.TLSClientConfig = self.client.ClientTLSConfig()
 	ws, _, err := dailer.Dial(serverUrl.String(), header)
 	if err != nil {
-- 
2.43.0


From af7106244356d86f4e3c3cb72adec17f9ef5beff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:35 +0000
Subject: [PATCH 15/36] fix: H2Client reports abnormal responses instead of
 streaming them

---
 http/h2_client.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/http/h2_client.go b/http/h2_client.go
index 5f8ecda..3f13bd9 100644
--- a/http/h2_client.go
+++ b/http/h2_client.go
@@ -129,6 +129,18 @@ func (self *h2Transport) Connect(rootCtx context.Context, serverUrl *url.URL, he
 	if err != nil {
 		return self.handleHttp2Error(err)
 	}
+	if resp.StatusCode != http.StatusOK {
+		defer resp.Body.Close()
+		body, err := io.ReadAll(io.LimitReader(resp.Body, 1<<20))
+		if err != nil {
+			return errors.Wrapf(err, "read from response, status=%d", resp.StatusCode)
+		}
+		abnResp := &WrappedResponse{
+			Response: resp,
+			Body:     body,
+		}
+		return errors.Wrap(abnResp, "abnormal response")
+	}
 	self.lock.Lock()
 	self.writer = pipeWriter
 	self.resp = resp
-- 
2.43.0


From 4ef7116dd802d391a6fd059fcb2e9fceb3b0ce9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:55 +0000
Subject: [PATCH 16/36] fix: canceling the context stops a streaming client
 from connecting

---
 http/h2_client.go | 18 +++++++++++++++++-
 http/ws_client.go |  5 ++++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/http/h2_client.go b/http/h2_client.go
index 3f13bd9..1544346 100644
--- a/http/h2_client.go
+++ b/http/h2_client.go
@@ -125,8 +125,24 @@ func (self *h2Transport) Connect(rootCtx context.Context, serverUrl *url.URL, he
 		Body:   pipeReader,
 	}
 
-	resp, err := self.client.HTTPClient().Do(req)
+	// rootCtx cancels the connecting, the life of an established stream
+	// is not bound to it.
+	ctx, cancel := context.WithCancel(context.Background())
+	connected := make(chan struct{})
+	defer close(connected)
+	go func() {
+		select {
+		case <-rootCtx.Done():
+			cancel()
+		case <-connected:
+		}
+	}()
+
+	resp, err := self.client.HTTPClient().Do(req.WithContext(ctx))
 	if err != nil {
+		if ctxErr := rootCtx.Err(); ctxErr != nil {
+			return errors.Wrap(ctxErr, "h2transport.connect")
+		}
 		return self.handleHttp2Error(err)
 	}
 	if resp.StatusCode != http.StatusOK {
diff --git a/http/ws_client.go b/http/ws_client.go
index 7f682cf..9f5bfee 100644
--- a/http/ws_client.go
+++ b/http/ws_client.go
@@ -67,8 +67,11 @@ func (self *wsTransport) Connect(rootCtx context.Context, serverUrl *url.URL, he
 	defaultDailer := *websocket.DefaultDialer
 	dailer := &defaultDailer
 	dailer.TLSClientConfig = self.client.ClientTLSConfig()
-	ws, _, err := dailer.Dial(serverUrl.String(), header)
+	ws, _, err := dailer.DialContext(rootCtx, serverUrl.String(), header)
 	if err != nil {
+		if ctxErr := rootCtx.Err(); ctxErr != nil {
+			return errors.Wrap(ctxErr, "wstransport.connect")
+		}
 		var opErr *net.OpError
 		if errors.As(err, &opErr) {
 			self.client.Log().Infof("websocket operror %s", opErr)
-- 
2.43.0


From 80da7e4b943bdbc33f9265b744e921c4719ce410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:00 +0000
Subject: [PATCH 17/36] fix: streaming client keeps its state per connection to
 survive concurrent closes and reconnects

---
 http/streaming_client.go | 211 ++++++++++++++++++++++++++++-----------
 1 file changed, 155 insertions(+), 56 deletions(-)

diff --git a/http/streaming_client.go b/http/streaming_client.go
index 61d43f0..5059bbc 100644
--- a/http/streaming_client.go
+++ b/http/streaming_client.go
@@ -32,6 +32,22 @@ type Transport interface {
 	WriteMessage(msg jlib.Message) error
 }
 
+// state of a connection, a new one is created upon each successful connect
+type streamConn struct {
+	// ctx is done once the connection is closed
+	ctx context.Context
+
+	// func accompanied by context, this func is called when
+	// client want to deliberatly close the connection
+	cancelFunc func()
+
+	// send channel to write messsage sequencially
+	sendChannel chan jlib.Message
+
+	// channel to wait until connection closed
+	closeChannel chan error
+}
+
 type StreamingClient struct {
 	// the server url it connects to
 	serverUrl *url.URL
@@ -54,15 +70,15 @@ type StreamingClient struct {
 	// on close handler
 	closeHandler CloseHandler
 
-	// func accompanied by context, this func is called when
-	// client want to deliberatly close the connection
-	cancelFunc func()
+	// lock to protect handlers and the connection state
+	stateLock sync.Mutex
 
-	// send channel to write messsage sequencially
-	sendChannel chan jlib.Message
+	// the current connection, nil when it's not connected
+	conn *streamConn
 
-	// channel to wait until connection closed
-	closeChannel chan error
+	// the number of loops reading from or writing to transport
+	transportUsers int
+	transportIdle  *sync.Cond
 
 	// the underline transport adaptor in charge of read/write
 	// bytes
@@ -101,18 +117,20 @@ func (self *StreamingClient) ServerURL() *url.URL {
 func (self *StreamingClient) InitStreaming(serverUrl *url.URL, transport Transport) {
 	self.serverUrl = serverUrl
 	self.transport = transport
-	self.sendChannel = nil
-	self.closeChannel = nil
+	self.transportIdle = sync.NewCond(&self.stateLock)
 }
 
 func (self *StreamingClient) CloseChannel() chan error {
-	return self.closeChannel
+	if conn := self.currentConn(); conn != nil {
+		return conn.closeChannel
+	}
+	return nil
 }
 
 // wait connection close and return error
 func (self *StreamingClient) Wait() error {
-	if self.closeChannel != nil {
-		err := <-self.closeChannel
+	if closeChannel := self.CloseChannel(); closeChannel != nil {
+		err := <-closeChannel
 		return err
 	} else {
 		// client not connected, just return
@@ -127,20 +145,55 @@ func (self *StreamingClient) Close() {
 }
 
 func (self *StreamingClient) Reset(err error) {
-	if self.cancelFunc != nil {
-		self.cancelFunc()
-		self.cancelFunc = nil
-	}
+	self.resetConn(self.currentConn(), err)
+}
 
-	if self.closeChannel != nil {
-		self.closeChannel <- err
-		self.closeChannel = nil
+func (self *StreamingClient) currentConn() *streamConn {
+	self.stateLock.Lock()
+	defer self.stateLock.Unlock()
+	return self.conn
+}
+
+// resetConn closes the connection unless it is closed already
+func (self *StreamingClient) resetConn(conn *streamConn, err error) {
+	self.stateLock.Lock()
+	if conn == nil || self.conn != conn {
+		self.stateLock.Unlock()
+		return
 	}
+	self.conn = nil
 	self.transport.Close()
-	self.sendChannel = nil
+	self.stateLock.Unlock()
+
+	conn.cancelFunc()
+	conn.closeChannel <- err
+	close(conn.closeChannel)
+}
+
+// acquireTransport tells if the transport still serves conn, it has to
+// be released after reading or writing.
+func (self *StreamingClient) acquireTransport(conn *streamConn) bool {
+	self.stateLock.Lock()
+	defer self.stateLock.Unlock()
+	if self.conn != conn {
+		return false
+	}
+	self.transportUsers++
+	return true
+}
+
+func (self *StreamingClient) releaseTransport() {
+	self.stateLock.Lock()
+	defer self.stateLock.Unlock()
+	self.transportUsers--
+	if self.transportUsers == 0 {
+		self.transportIdle.Broadcast()
+	}
 }
 
 func (self *StreamingClient) OnMessage(handler MessageHandler) error {
+	self.stateLock.Lock()
+	defer self.stateLock.Unlock()
 	if self.messageHandler != nil {
 		return errors.New("message handler already exist!")
 	}
@@ -149,6 +202,8 @@ func (self *StreamingClient) OnMessage(handler MessageHandler) error {
 }
 
 func (self *StreamingClient) OnConnected(handler ConnectedHandler) error {
+	self.stateLock.Lock()
+	defer self.stateLock.Unlock()
 	if self.connectedHandler != nil {
 		return errors.New("connected handler already exist!")
 	}
@@ -157,6 +212,8 @@ func (self *StreamingClient) OnConnected(handler ConnectedHandler) error {
 }
 
 func (self *StreamingClient) OnClose(handler CloseHandler) error {
+	self.stateLock.Lock()
+	defer self.stateLock.Unlock()
 	if self.closeHandler != nil {
 		return errors.New("close handler already exist!")
 	}
@@ -165,37 +222,69 @@ func (self *StreamingClient) OnClose(handler CloseHandler) error {
 }
 
 func (self *StreamingClient) Connect(rootCtx context.Context) error {
+	_, err := self.connect(rootCtx)
+	return err
+}
+
+func (self *StreamingClient) connect(rootCtx context.Context) (*streamConn, error) {
 	self.connectLock.Lock()
 	defer self.connectLock.Unlock()
 
-	if !self.transport.Connected() {
+	conn := self.currentConn()
+	if conn == nil {
+		// the loops of last connection must have left the transport
+		self.stateLock.Lock()
+		for self.transportUsers > 0 {
+			self.transportIdle.Wait()
+		}
+		connectedHandler := self.connectedHandler
+		self.stateLock.Unlock()
+
 		if err := self.transport.Connect(rootCtx, self.serverUrl, self.extraHeader); err != nil {
 			//self.connectErr = err
-			return err
+			return nil, err
 		}
-		if self.connectedHandler != nil {
-			self.connectedHandler()
+		if connectedHandler != nil {
+			connectedHandler()
 		}
 		connCtx, cancel := context.WithCancel(rootCtx)
-		self.cancelFunc = cancel
-		self.sendChannel = make(chan jlib.Message, 100)
-		self.closeChannel = make(chan error, 10)
-		go self.sendLoop(connCtx)
-		go self.recvLoop()
+		conn = &streamConn{
+			ctx:          connCtx,
+			cancelFunc:   cancel,
+			sendChannel:  make(chan jlib.Message, 100),
+			closeChannel: make(chan error, 10),
+		}
+		self.stateLock.Lock()
+		self.conn = conn
+		self.stateLock.Unlock()
+		go self.sendLoop(conn)
+		go self.recvLoop(conn)
+		go func() {
+			// the loops may be blocked by the transport
+			<-connCtx.Done()
+			self.resetConn(conn, nil)
+		}()
 	} else {
 		self.Log().Debug("client already connected")
 	}
-	return nil
+	return conn, nil
 }
 
-func (self *StreamingClient) handleError(err error) {
+func (self *StreamingClient) handleError(conn *streamConn, err error) {
 	if errors.Is(err, TransportClosed) {
 		self.Log().Debug("transport closed")
 	}
-	self.Reset(err)
-	if self.closeHandler != nil {
-		self.closeHandler()
-		self.closeHandler = nil
+	self.resetConn(conn, err)
+}
+
+// handleClosed calls the close handler once its connection is closed
+func (self *StreamingClient) handleClosed() {
+	self.stateLock.Lock()
+	closeHandler := self.closeHandler
+	self.closeHandler = nil
+	self.stateLock.Unlock()
+	if closeHandler != nil {
+		closeHandler()
 	}
 }
 
@@ -203,53 +292,51 @@ func (self *StreamingClient) Connected() bool {
 	return self.transport.Connected()
 }
 
-func (self *StreamingClient) sendLoop(connCtx context.Context) {
+func (self *StreamingClient) sendLoop(conn *streamConn) {
 	//defer self.Reset(nil)
 	defer func() {
 		self.Log().Debug("sendLoop stop")
 	}()
-	ctx, cancel := context.WithCancel(connCtx)
-	defer cancel()
 
 	self.Log().Debug("sendLoop start")
 	for {
-		if !self.transport.Connected() {
-			return
-		}
 		select {
-		case <-ctx.Done():
+		case <-conn.ctx.Done():
 			self.Log().Debug("ctx Done")
-			self.Close()
 			return
-		case msg, ok := <-self.sendChannel:
+		case msg, ok := <-conn.sendChannel:
 			if !ok {
 				return
 			}
-			if !self.transport.Connected() {
+			if !self.acquireTransport(conn) {
 				return
 			}
 			err := self.transport.WriteMessage(msg)
+			self.releaseTransport()
 			if err != nil {
 				self.Log().Warnf("write msg error %s", err)
-				self.handleError(err)
+				self.handleError(conn, err)
 				return
 			}
 		}
 	}
 }
 
-func (self *StreamingClient) recvLoop() {
+func (self *StreamingClient) recvLoop(conn *streamConn) {
 	self.Log().Debug("recvLoop start")
 	defer func() {
 		self.Log().Debug("recvLoop stop")
 	}()
+	// recvLoop ends if and only if the connection is closed
+	defer self.handleClosed()
 	for {
-		if !self.transport.Connected() {
+		if !self.acquireTransport(conn) {
 			return
 		}
 		msg, readed, err := self.transport.ReadMessage()
+		self.releaseTransport()
 		if err != nil {
-			self.handleError(err)
+			self.handleError(conn, err)
 			return
 		}
 		if !readed {
@@ -258,8 +345,8 @@ func (self *StreamingClient) recvLoop() {
 
 		// assert msg != nil
 		if !msg.IsResultOrError() {
-			if self.messageHandler != nil {
-				self.messageHandler(msg)
+			if messageHandler := self.getMessageHandler(); messageHandler != nil {
+				messageHandler(msg)
 			} else {
 				msg.Log().Debug("no message handler found")
 			}
@@ -269,12 +356,18 @@ func (self *StreamingClient) recvLoop() {
 	}
 }
 
+func (self *StreamingClient) getMessageHandler() MessageHandler {
+	self.stateLock.Lock()
+	defer self.stateLock.Unlock()
+	return self.messageHandler
+}
+
 func (self *StreamingClient) handleResult(msg jlib.Message) {
 	msgId := msg.MustId()
 	v, loaded := self.pendingRequests.LoadAndDelete(msgId)
 	if !loaded {
-		if self.messageHandler != nil {
-			self.messageHandler(msg)
+		if messageHandler := self.getMessageHandler(); messageHandler != nil {
+			messageHandler(msg)
 		}
 		return
 	}
@@ -363,10 +456,16 @@ func (self *StreamingClient) request(rootCtx context.Context, reqmsg *jlib.Reque
 }
 
 func (self *StreamingClient) Send(rootCtx context.Context, msg jlib.Message) error {
-	err := self.Connect(rootCtx)
+	conn, err := self.connect(rootCtx)
 	if err != nil {
 		return err
 	}
-	self.sendChannel <- msg
-	return nil
+	select {
+	case conn.sendChannel <- msg:
+		return nil
+	case <-conn.ctx.Done():
+		return TransportClosed
+	case <-rootCtx.Done():
+		return rootCtx.Err()
+	}
 }
-- 
2.43.0


From 4ec78648d85e4a64a7f1dc2ed05b6343f6d6eb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:02 +0000
Subject: [PATCH 18/36] fix: a connected handler may use its client without
 deadlock

---
 http/streaming_client.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/http/streaming_client.go b/http/streaming_client.go
index 5059bbc..60575bd 100644
--- a/http/streaming_client.go
+++ b/http/streaming_client.go
@@ -227,9 +227,24 @@ func (self *StreamingClient) Connect(rootCtx context.Context) error {
 }
 
 func (self *StreamingClient) connect(rootCtx context.Context) (*streamConn, error) {
+	conn, connectedHandler, err := self.ensureConn(rootCtx)
+	if err != nil {
+		return nil, err
+	}
+	// the handler is free to use the client
+	if connectedHandler != nil {
+		connectedHandler()
+	}
+	return conn, nil
+}
+
+// ensureConn returns the current connection, the connected handler is
+// returned only when the connection is a new one.
+func (self *StreamingClient) ensureConn(rootCtx context.Context) (*streamConn, ConnectedHandler, error) {
 	self.connectLock.Lock()
 	defer self.connectLock.Unlock()
 
+	var connectedHandler ConnectedHandler
 	conn := self.currentConn()
 	if conn == nil {
 		// the loops of last connection must have left the transport
@@ -237,15 +252,12 @@ func (self *StreamingClient) connect(rootCtx context.Context) (*streamConn, erro
 		for self.transportUsers > 0 {
 			self.transportIdle.Wait()
 		}
-		connectedHandler := self.connectedHandler
+		connectedHandler = self.connectedHandler
 		self.stateLock.Unlock()
 
 		if err := self.transport.Connect(rootCtx, self.serverUrl, self.extraHeader); err != nil {
 			//self.connectErr = err
-			return nil, err
-		}
-		if connectedHandler != nil {
-			connectedHandler()
+			return nil, nil, err
 		}
 		connCtx, cancel := context.WithCancel(rootCtx)
 		conn = &streamConn{
@@ -267,7 +279,7 @@ func (self *StreamingClient) connect(rootCtx context.Context) (*streamConn, erro
 	} else {
 		self.Log().Debug("client already connected")
 	}
-	return conn, nil
+	return conn, connectedHandler, nil
 }
 
 func (self *StreamingClient) handleError(conn *streamConn, err error) {
-- 
2.43.0


From 5fe270eaa312ca3df0075c4890c40ece6a81081e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:26 +0000
Subject: [PATCH 19/36] fix: streaming calls are correlated and expired one by
 one whatever their ids are

---
 http/streaming_client.go | 113 +++++++++++++++++++++++++--------------
 1 file changed, 73 insertions(+), 40 deletions(-)

diff --git a/http/streaming_client.go b/http/streaming_client.go
index 60575bd..26712bc 100644
--- a/http/streaming_client.go
+++ b/http/streaming_client.go
@@ -15,7 +15,6 @@ import (
 type pendingRequest struct {
 	reqmsg        *jlib.RequestMessage
 	resultChannel chan jlib.Message
-	expire        time.Time
 }
 
 // errors
@@ -59,7 +58,8 @@ type StreamingClient struct {
 	connectLock sync.Mutex
 
 	// jsonrpc request message pending for result
-	pendingRequests sync.Map
+	pendingRequests map[interface{}]*pendingRequest
+	pendingLock     sync.Mutex
 
 	// on messsage handler
 	messageHandler MessageHandler
@@ -376,7 +376,7 @@ func (self *StreamingClient) getMessageHandler() MessageHandler {
 
 func (self *StreamingClient) handleResult(msg jlib.Message) {
 	msgId := msg.MustId()
-	v, loaded := self.pendingRequests.LoadAndDelete(msgId)
+	pending, loaded := self.takePending(msgId)
 	if !loaded {
 		if messageHandler := self.getMessageHandler(); messageHandler != nil {
 			messageHandler(msg)
@@ -384,30 +384,56 @@ func (self *StreamingClient) handleResult(msg jlib.Message) {
 		return
 	}
 
-	if pending, ok := v.(*pendingRequest); ok {
-		if msgId != pending.reqmsg.Id {
-			resmsg := msg.ReplaceId(pending.reqmsg.Id)
-			pending.resultChannel <- resmsg
-		} else {
-			pending.resultChannel <- msg
-		}
+	if msgId != pending.reqmsg.Id {
+		resmsg := msg.ReplaceId(pending.reqmsg.Id)
+		pending.resultChannel <- resmsg
+	} else {
+		pending.resultChannel <- msg
 	}
 }
 
-func (self *StreamingClient) expire(k interface{}, after time.Duration) {
-	// ctx, cancel := context.WithCancel(rootCtx)
-	// defer cancel()
-	select {
-	// case <- ctx.Done():
-	// 	return
-	case <-time.After(after):
-		v, loaded := self.pendingRequests.LoadAndDelete(k)
-		if loaded {
-			if pending, ok := v.(*pendingRequest); ok {
-				timeout := jlib.ErrTimeout.ToMessage(pending.reqmsg)
-				pending.resultChannel <- timeout
-			}
+// addPending registers a pending request under the id of the message to
+// send, the message gets a new id when its own one can't tell it from
+// other messages on the wire.
+func (self *StreamingClient) addPending(pending *pendingRequest) *jlib.RequestMessage {
+	self.pendingLock.Lock()
+	defer self.pendingLock.Unlock()
+
+	sendmsg := pending.reqmsg
+	switch sendmsg.Id.(type) {
+	case int, string:
+		// the types of decoded ids
+		if _, exist := self.pendingRequests[sendmsg.Id]; exist {
+			sendmsg = sendmsg.Clone(jlib.NewUuid())
 		}
+	default:
+		sendmsg = sendmsg.Clone(jlib.NewUuid())
+	}
+	if self.pendingRequests == nil {
+		self.pendingRequests = make(map[interface{}]*pendingRequest)
+	}
+	self.pendingRequests[sendmsg.Id] = pending
+	return sendmsg
+}
+
+// takePending removes and returns the request pending for a result
+func (self *StreamingClient) takePending(msgId interface{}) (*pendingRequest, bool) {
+	self.pendingLock.Lock()
+	defer self.pendingLock.Unlock()
+	pending, ok := self.pendingRequests[msgId]
+	if ok {
+		delete(self.pendingRequests, msgId)
+	}
+	return pending, ok
+}
+
+// removePending removes the request unless its id is taken over by
+// another one
+func (self *StreamingClient) removePending(msgId interface{}, pending *pendingRequest) {
+	self.pendingLock.Lock()
+	defer self.pendingLock.Unlock()
+	if self.pendingRequests[msgId] == pending {
+		delete(self.pendingRequests, msgId)
 	}
 }
 
@@ -436,35 +462,38 @@ func (self *StreamingClient) Call(rootCtx context.Context, reqmsg *jlib.RequestM
 }
 
 func (self *StreamingClient) request(rootCtx context.Context, reqmsg *jlib.RequestMessage) (jlib.Message, error) {
-	err := self.Connect(rootCtx)
+	conn, err := self.connect(rootCtx)
 	if err != nil {
 		return nil, err
 	}
 	ch := make(chan jlib.Message, 10)
 
-	sendmsg := reqmsg
-	if _, loaded := self.pendingRequests.Load(reqmsg.Id); loaded {
-		sendmsg = reqmsg.Clone(jlib.NewUuid())
-	}
-
 	p := &pendingRequest{
 		reqmsg:        reqmsg,
 		resultChannel: ch,
-		expire:        time.Now().Add(time.Second * 10),
 	}
-	self.pendingRequests.Store(sendmsg.Id, p)
+	sendmsg := self.addPending(p)
+	defer self.removePending(sendmsg.Id, p)
 
-	err = self.Send(rootCtx, sendmsg)
-	if err != nil {
+	ctx, cancel := context.WithTimeout(rootCtx, time.Second*10)
+	defer cancel()
+
+	if err := self.sendTo(ctx, conn, sendmsg); err != nil && ctx.Err() == nil {
 		return nil, err
 	}
-	go self.expire(sendmsg.Id, time.Second*10)
 
-	resmsg, ok := <-ch
-	if !ok {
-		return nil, errors.New("result channel closed")
+	select {
+	case resmsg, ok := <-ch:
+		if !ok {
+			return nil, errors.New("result channel closed")
+		}
+		return resmsg, nil
+	case <-ctx.Done():
+		if err := rootCtx.Err(); err != nil {
+			return nil, err
+		}
+		return jlib.ErrTimeout.ToMessage(reqmsg), nil
 	}
-	return resmsg, nil
 }
 
 func (self *StreamingClient) Send(rootCtx context.Context, msg jlib.Message) error {
@@ -472,12 +501,16 @@ func (self *StreamingClient) Send(rootCtx context.Context, msg jlib.Message) err
 	if err != nil {
 		return err
 	}
+	return self.sendTo(rootCtx, conn, msg)
+}
+
+func (self *StreamingClient) sendTo(ctx context.Context, conn *streamConn, msg jlib.Message) error {
 	select {
 	case conn.sendChannel <- msg:
 		return nil
 	case <-conn.ctx.Done():
 		return TransportClosed
-	case <-rootCtx.Done():
-		return rootCtx.Err()
+	case <-ctx.Done():
+		return ctx.Err()
 	}
 }
-- 
2.43.0


From c12d6fda5124944811263aa1bdbc6a19f86c5fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:10 +0000
Subject: [PATCH 20/36] fix: Send returns once the message is written or
 reports why it can't be

---
 http/streaming_client.go | 50 ++++++++++++++++++++++++++++++++++------
 1 file changed, 43 insertions(+), 7 deletions(-)

diff --git a/http/streaming_client.go b/http/streaming_client.go
index 26712bc..31ef545 100644
--- a/http/streaming_client.go
+++ b/http/streaming_client.go
@@ -31,6 +31,14 @@ type Transport interface {
 	WriteMessage(msg jlib.Message) error
 }
 
+// message to be written
+type outMessage struct {
+	msg jlib.Message
+
+	// the result of writing
+	written chan error
+}
+
 // state of a connection, a new one is created upon each successful connect
 type streamConn struct {
 	// ctx is done once the connection is closed
@@ -41,7 +49,7 @@ type streamConn struct {
 	cancelFunc func()
 
 	// send channel to write messsage sequencially
-	sendChannel chan jlib.Message
+	sendChannel chan *outMessage
 
 	// channel to wait until connection closed
 	closeChannel chan error
@@ -263,7 +271,7 @@ func (self *StreamingClient) ensureConn(rootCtx context.Context) (*streamConn, C
 		conn = &streamConn{
 			ctx:          connCtx,
 			cancelFunc:   cancel,
-			sendChannel:  make(chan jlib.Message, 100),
+			sendChannel:  make(chan *outMessage, 100),
 			closeChannel: make(chan error, 10),
 		}
 		self.stateLock.Lock()
@@ -316,15 +324,16 @@ func (self *StreamingClient) sendLoop(conn *streamConn) {
 		case <-conn.ctx.Done():
 			self.Log().Debug("ctx Done")
 			return
-		case msg, ok := <-conn.sendChannel:
+		case out, ok := <-conn.sendChannel:
 			if !ok {
 				return
 			}
 			if !self.acquireTransport(conn) {
 				return
 			}
-			err := self.transport.WriteMessage(msg)
+			err := self.transport.WriteMessage(out.msg)
 			self.releaseTransport()
+			out.written <- err
 			if err != nil {
 				self.Log().Warnf("write msg error %s", err)
 				self.handleError(conn, err)
@@ -479,7 +488,13 @@ func (self *StreamingClient) request(rootCtx context.Context, reqmsg *jlib.Reque
 	defer cancel()
 
 	if err := self.sendTo(ctx, conn, sendmsg); err != nil && ctx.Err() == nil {
-		return nil, err
+		select {
+		case resmsg := <-ch:
+			// the result arrived before the connection was closed
+			return resmsg, nil
+		default:
+			return nil, err
+		}
 	}
 
 	select {
@@ -505,12 +520,33 @@ func (self *StreamingClient) Send(rootCtx context.Context, msg jlib.Message) err
 }
 
 func (self *StreamingClient) sendTo(ctx context.Context, conn *streamConn, msg jlib.Message) error {
+	// a message that can't be encoded is an error of the caller rather
+	// than the connection
+	if _, err := jlib.MessageBytes(msg); err != nil {
+		return err
+	}
+
+	out := &outMessage{msg: msg, written: make(chan error, 1)}
 	select {
-	case conn.sendChannel <- msg:
-		return nil
+	case conn.sendChannel <- out:
 	case <-conn.ctx.Done():
 		return TransportClosed
 	case <-ctx.Done():
 		return ctx.Err()
 	}
+
+	// wait until the message is written
+	select {
+	case err := <-out.written:
+		return err
+	case <-conn.ctx.Done():
+		select {
+		case err := <-out.written:
+			return err
+		default:
+			return TransportClosed
+		}
+	case <-ctx.Done():
+		return ctx.Err()
+	}
 }
-- 
2.43.0


From 2c9c670c3a48aaaffe0e53ac8a54143f042bb093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:12 +0000
Subject: [PATCH 21/36] fix: H2Client has its messages flushed when they are
 reported as written

---
 http/h2_client.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/http/h2_client.go b/http/h2_client.go
index 1544346..7338f49 100644
--- a/http/h2_client.go
+++ b/http/h2_client.go
@@ -186,15 +186,18 @@ func (self *h2Transport) WriteMessage(msg jlib.Message) error {
 		return err
 	}
 
-	marshaled = append(marshaled, []byte("\n")...)
 	self.lock.Lock()
 	writer := self.writer
 	self.lock.Unlock()
 	if writer == nil {
 		return TransportClosed
 	}
-	if _, err := writer.Write(marshaled); err != nil {
-		return self.handleHttp2Error(err)
+	// the http2 transport reads the ending newline from the pipe not
+	// before it has flushed the message.
+	for _, data := range [][]byte{marshaled, []byte("\n")} {
+		if _, err := writer.Write(data); err != nil {
+			return self.handleHttp2Error(err)
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 1a24687e7621d1528e7c4da8fdbd20fd39e2c7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:23 +0000
Subject: [PATCH 22/36] fix: a Bearer header without token no longer panics the
 jwt auth

---
 http/auth_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/auth_handler.go b/http/auth_handler.go
index 2664dcc..e079742 100644
--- a/http/auth_handler.go
+++ b/http/auth_handler.go
@@ -121,7 +121,7 @@ func (self *AuthHandler) jwtAuth(jwtCfg *JwtAuthConfig, r *http.Request) (*AuthI
 	if authHeader == "" {
 		return nil, false
 	}
-	if arr := strings.SplitN(authHeader, " ", 2); len(arr) <= 2 && arr[0] == "Bearer" {
+	if arr := strings.SplitN(authHeader, " ", 2); len(arr) == 2 && arr[0] == "Bearer" {
 		var claims *jwtClaims
 		fromCache := false
 
-- 
2.43.0


From cdf7dd4674f8953e57045cda1577f3e76220f3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:23 +0000
Subject: [PATCH 23/36] fix: the gateway compares the websocket upgrade header
 case insensitively

---
 http/gateway_handler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/http/gateway_handler.go b/http/gateway_handler.go
index 5c8791d..253c34f 100644
--- a/http/gateway_handler.go
+++ b/http/gateway_handler.go
@@ -3,6 +3,7 @@ package jlibhttp
 import (
 	"context"
 	"net/http"
+	"strings"
 )
 
 // shared handler serve http1/http2/websocket server over the same port
@@ -45,7 +46,7 @@ func (self *GatewayHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	}
 
 	upgradeHeader := r.Header.Get("Upgrade")
-	if upgradeHeader == "websocket" {
+	if strings.EqualFold(upgradeHeader, "websocket") {
 		// maybe websocket handler
 		self.wsHandler.ServeHTTP(w, r)
 		return
-- 
2.43.0


From 5a49c9ac9ecfdbc47784b6c0c36add3234d5a987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:06 +0000
Subject: [PATCH 24/36] fix: exported schemas keep their length limits and
 additional items

---
 schema/schema.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/schema/schema.go b/schema/schema.go
index 307aa0f..5e70c40 100644
--- a/schema/schema.go
+++ b/schema/schema.go
@@ -283,7 +283,14 @@ func (self StringSchema) Type() string {
 	return "string"
 }
 func (self StringSchema) Map() map[string]interface{} {
-	return self.rebuildType(self.Type())
+	tp := self.rebuildType(self.Type())
+	if self.MaxLength != nil {
+		tp["maxLength"] = *self.MaxLength
+	}
+	if self.MinLength != nil {
+		tp["minLength"] = *self.MinLength
+	}
+	return tp
 }
 
 func (self StringSchema) Equal(other Schema) bool {
@@ -440,6 +447,12 @@ func (self ListSchema) Equal(other Schema) bool {
 func (self ListSchema) Map() map[string]interface{} {
 	tp := self.rebuildType(self.Type())
 	tp["items"] = self.Item.Map()
+	if self.MaxItems != nil {
+		tp["maxItems"] = *self.MaxItems
+	}
+	if self.MinItems != nil {
+		tp["minItems"] = *self.MinItems
+	}
 	return tp
 }
 
@@ -491,6 +504,9 @@ func (self TupleSchema) Map() map[string]interface{} {
 		arr = append(arr, child.Map())
 	}
 	tp["items"] = arr
+	if self.AdditionalSchema != nil {
+		tp["additionalItems"] = self.AdditionalSchema.Map()
+	}
 	return tp
 }
 
-- 
2.43.0


From d7daaa13df526933c57ff162d17461758e4879c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:07 +0000
Subject: [PATCH 25/36] fix: object schemas accept any property name and reject
 malformed properties

---
 schema/convert.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/schema/convert.go b/schema/convert.go
index 81ea882..5d2effe 100644
--- a/schema/convert.go
+++ b/schema/convert.go
@@ -121,7 +121,12 @@ func convertAttrFloat(node map[string]interface{}, attrName string, optional boo
 }
 
 func convertAttrMapOfMap(node map[string](interface{}), attrName string, optional bool) (map[string](map[string]interface{}), bool) {
-	if mm, ok := convertAttrMap(node, attrName, false); ok {
+	if v, ok := node[attrName]; ok && v != nil {
+		// the map itself is not a schema, its keys are free
+		mm, ok := v.(map[string]interface{})
+		if !ok {
+			return nil, false
+		}
 		resMap := make(map[string](map[string]interface{}))
 		for name, value := range mm {
 			mv, ok := convertTypeMap(value)
-- 
2.43.0


From a06cc8d15617cc7924e08ae02f3fce21eacd0720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:31 +0000
Subject: [PATCH 26/36] fix: GetSchema returns the schema of the handler which
 serves the method

---
 http/request.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/http/request.go b/http/request.go
index 41b9330..235d643 100644
--- a/http/request.go
+++ b/http/request.go
@@ -268,12 +268,13 @@ func (self Actor) MethodList() []string {
 
 // get the schema of a method
 func (self Actor) GetSchema(method string) (jlibschema.Schema, bool) {
-	if h, ok := self.getHandler(method); ok && h.schema != nil {
-		return h.schema, true
+	if h, ok := self.getHandler(method); ok {
+		return h.schema, h.schema != nil
 	}
 	for _, child := range self.children {
-		if s, ok := child.GetSchema(method); ok {
-			return s, ok
+		// the first child who serves the method handles the messages
+		if child.Has(method) {
+			return child.GetSchema(method)
 		}
 	}
 	return nil, false
-- 
2.43.0


From 1e20dd5c98e11ac380c9578a78499e5708d8115b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:57 +0000
Subject: [PATCH 27/36] fix: H1Client reports a response body that doesn't come
 in time as timeout

---
 http/h1_client.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/http/h1_client.go b/http/h1_client.go
index 873fbd1..aaa41b6 100644
--- a/http/h1_client.go
+++ b/http/h1_client.go
@@ -97,6 +97,16 @@ func withoutTraceId(msg jlib.Message) jlib.Message {
 	}
 }
 
+// requestTimeout is the error of a call whose response, including its
+// body, doesn't come in time.
+func requestTimeout() error {
+	timeoutResp := &SimpleResponse{
+		Code: http.StatusRequestTimeout,
+		Body: []byte(`"request timeout"`),
+	}
+	return errors.Wrap(timeoutResp, "request timeout")
+}
+
 func (self *H1Client) UnwrapCall(rootCtx context.Context, reqmsg *jlib.RequestMessage, output interface{}) error {
 	resmsg, err := self.Call(rootCtx, reqmsg)
 	if err != nil {
@@ -156,11 +166,7 @@ func (self *H1Client) request(rootCtx context.Context, reqmsg *jlib.RequestMessa
 	resp, err := self.httpClient.Do(req)
 	if err != nil {
 		if os.IsTimeout(err) {
-			timeoutResp := &SimpleResponse{
-				Code: http.StatusRequestTimeout,
-				Body: []byte(`"request timeout"`),
-			}
-			return nil, errors.Wrap(timeoutResp, "request timeout")
+			return nil, requestTimeout()
 		}
 		return nil, errors.Wrap(err, "http Do")
 	}
@@ -170,6 +176,9 @@ func (self *H1Client) request(rootCtx context.Context, reqmsg *jlib.RequestMessa
 		var buffer bytes.Buffer
 		readed, err := buffer.ReadFrom(resp.Body)
 		if err != nil {
+			if os.IsTimeout(err) {
+				return nil, requestTimeout()
+			}
 			return nil, errors.Wrapf(err, "read from response, readed=%d, status=%d", readed, resp.StatusCode)
 		}
 		// TODO: handle ErrTooLarge
@@ -182,6 +191,9 @@ func (self *H1Client) request(rootCtx context.Context, reqmsg *jlib.RequestMessa
 	}
 	respBody, err := ioutil.ReadAll(resp.Body)
 	if err != nil {
+		if os.IsTimeout(err) {
+			return nil, requestTimeout()
+		}
 		return nil, errors.Wrap(err, "ioutil.ReadAll")
 	}
 	respmsg, err := jlib.ParseBytes(respBody)
-- 
2.43.0


From 2c5f4d2e16399437b3454bf7675c8f5e42484bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:35 +0000
Subject: [PATCH 28/36] fix: settings of auth credentials configured in JSON
 are no longer dropped

The json tags said "settings.omitempty" instead of "settings,omitempty".
---
 http/auth_handler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/http/auth_handler.go b/http/auth_handler.go
index e079742..6c398b2 100644
--- a/http/auth_handler.go
+++ b/http/auth_handler.go
@@ -27,7 +27,7 @@ func AuthInfoFromContext(ctx context.Context) (*AuthInfo, bool) {
 type BasicAuthConfig struct {
 	Username string                 `yaml:"username" json:"username"`
 	Password string                 `yaml:"password" json:"password"`
-	Settings map[string]interface{} `yaml:"settings,omitempty" json:"settings.omitempty"`
+	Settings map[string]interface{} `yaml:"settings,omitempty" json:"settings,omitempty"`
 }
 
 type BearerAuthConfig struct {
@@ -35,7 +35,7 @@ type BearerAuthConfig struct {
 
 	// username attached to request when token authorized
 	Username string                 `yaml:"username,omitempty" json:"username,omitempty"`
-	Settings map[string]interface{} `yaml:"settings,omitempty" json:"settings.omitempty"`
+	Settings map[string]interface{} `yaml:"settings,omitempty" json:"settings,omitempty"`
 }
 
 type JwtAuthConfig struct {
-- 
2.43.0


From 237270b95dadce086d6ed43aa93a7361ed589b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:01 +0000
Subject: [PATCH 29/36] fix: trace ids which no HTTP header can carry travel in
 the message

---
 http/h1_client.go | 28 ++++++++++++++++++++++++----
 http/h1_server.go |  9 ++++++---
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/http/h1_client.go b/http/h1_client.go
index aaa41b6..5132095 100644
--- a/http/h1_client.go
+++ b/http/h1_client.go
@@ -8,12 +8,14 @@ import (
 	"net/http"
 	"net/url"
 	"os"
+	"strings"
 	"sync"
 	"time"
 
 	"github.com/pkg/errors"
 	log "github.com/sirupsen/logrus"
 	"github.com/superisaac/jlib"
+	"golang.org/x/net/http/httpguts"
 )
 
 type H1Client struct {
@@ -97,6 +99,14 @@ func withoutTraceId(msg jlib.Message) jlib.Message {
 	}
 }
 
+// isHeaderTraceId tells if a trace id can travel in a http header as it
+// is. Other trace ids stay in the message.
+func isHeaderTraceId(traceId string) bool {
+	return traceId != "" &&
+		httpguts.ValidHeaderFieldValue(traceId) &&
+		strings.TrimSpace(traceId) == traceId
+}
+
 // requestTimeout is the error of a call whose response, including its
 // body, doesn't come in time.
 func requestTimeout() error {
@@ -136,7 +146,12 @@ func (self *H1Client) request(rootCtx context.Context, reqmsg *jlib.RequestMessa
 
 	traceId := reqmsg.TraceId()
 
-	marshaled, err := jlib.MessageBytes(withoutTraceId(reqmsg))
+	inHeader := isHeaderTraceId(traceId)
+	var bodymsg jlib.Message = reqmsg
+	if inHeader {
+		bodymsg = withoutTraceId(reqmsg)
+	}
+	marshaled, err := jlib.MessageBytes(bodymsg)
 	if err != nil {
 		return nil, err
 	}
@@ -149,7 +164,7 @@ func (self *H1Client) request(rootCtx context.Context, reqmsg *jlib.RequestMessa
 	if err != nil {
 		return nil, errors.Wrap(err, "http.NewRequestWithContext")
 	}
-	if traceId != "" {
+	if inHeader {
 		req.Header.Add("X-Trace-Id", traceId)
 	}
 	req.Header.Set("Content-Type", "application/json")
@@ -212,7 +227,12 @@ func (self *H1Client) Send(rootCtx context.Context, msg jlib.Message) error {
 
 	traceId := msg.TraceId()
 
-	marshaled, err := jlib.MessageBytes(withoutTraceId(msg))
+	inHeader := isHeaderTraceId(traceId)
+	bodymsg := msg
+	if inHeader {
+		bodymsg = withoutTraceId(msg)
+	}
+	marshaled, err := jlib.MessageBytes(bodymsg)
 	if err != nil {
 		return err
 	}
@@ -225,7 +245,7 @@ func (self *H1Client) Send(rootCtx context.Context, msg jlib.Message) error {
 	if err != nil {
 		return errors.Wrap(err, "http.NewRequestWithContext")
 	}
-	if traceId != "" {
+	if inHeader {
 		req.Header.Add("X-Trace-Id", traceId)
 	}
 	req.Header.Set("Content-Type", "application/json")
diff --git a/http/h1_server.go b/http/h1_server.go
index 8a5c85f..92253bb 100644
--- a/http/h1_server.go
+++ b/http/h1_server.go
@@ -80,17 +80,20 @@ func (self *H1Handler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	//if msg.IsRequest() {
 	if resmsg != nil {
 		traceId := resmsg.TraceId()
-		resmsg.SetTraceId("")
+		inHeader := isHeaderTraceId(traceId)
+		if inHeader {
+			resmsg = withoutTraceId(resmsg)
+		}
 
 		data, err1 := jlib.MessageBytes(resmsg)
 		if err1 != nil {
 			resmsg.Log().Warnf("error marshaling msg %s", err1)
-			errmsg := jlib.ErrInternalError.ToMessageFromId(msg.MustId(), msg.TraceId())
+			errmsg := jlib.ErrInternalError.ToMessageFromId(msg.MustId(), resmsg.TraceId())
 			data, _ = jlib.MessageBytes(errmsg)
 		}
 		w.Header().Set("Content-Type", "application/json")
 
-		if traceId != "" {
+		if inHeader {
 			w.Header().Set("X-Trace-Id", traceId)
 		}
 		w.WriteHeader(200)
-- 
2.43.0


From 9d0e7c535df39e53e65ce799fc0336b8b22812af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:33 +0000
Subject: [PATCH 30/36] fix: H1Client speaks HTTP/1 over TLS whatever the
 server offers

---
 http/h1_client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/http/h1_client.go b/http/h1_client.go
index 5132095..8a275f6 100644
--- a/http/h1_client.go
+++ b/http/h1_client.go
@@ -55,6 +55,9 @@ func (self *H1Client) connect() {
 			MaxIdleConns:        30,
 			MaxIdleConnsPerHost: 10,
 			IdleConnTimeout:     30 * time.Second,
+			// always speak HTTP/1, a HTTP/2 request is the
+			// start of a streaming session to jlib servers
+			TLSNextProto: map[string]func(string, *tls.Conn) http.RoundTripper{},
 		}
 		if self.clientTLS != nil {
 			tr.TLSClientConfig = self.clientTLS
-- 
2.43.0


From 480eafa9869e2a5054b933ff003fa4b40c96e0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:34 +0000
Subject: [PATCH 31/36] fix: H2 sessions receive what arrived before the peer
 has gone

---
 http/h2_server.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/http/h2_server.go b/http/h2_server.go
index 4ce87e5..4cc8432 100644
--- a/http/h2_server.go
+++ b/http/h2_server.go
@@ -35,6 +35,7 @@ type H2Session struct {
 	rootCtx     context.Context
 	done        chan error
 	sendDone    chan struct{}
+	recvDone    chan struct{}
 	sendChannel chan jlib.Message
 	sessionId   string
 }
@@ -96,6 +97,7 @@ func (self *H2Handler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		decoder:     decoder,
 		done:        make(chan error, 10),
 		sendDone:    make(chan struct{}),
+		recvDone:    make(chan struct{}),
 		sendChannel: make(chan jlib.Message, 100),
 		sessionId:   jlib.NewUuid(),
 	}
@@ -105,6 +107,9 @@ func (self *H2Handler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	}()
 	defer cancel()
 	session.wait()
+	if r.Context().Err() != nil {
+		session.waitRecvLoop()
+	}
 	cancel()
 	session.waitSendLoop(w)
 }
@@ -151,7 +156,18 @@ func (self *H2Session) wait() {
 	}
 }
 
+// waitRecvLoop lets the messages which arrived before the peer has gone
+// be received
+func (self *H2Session) waitRecvLoop() {
+	select {
+	case <-self.recvDone:
+	case <-time.After(time.Second):
+		// the loop is blocked by a message handler
+	}
+}
+
 func (self *H2Session) recvLoop() {
+	defer close(self.recvDone)
 	for {
 		msg, err := jlib.DecodeMessage(self.decoder)
 		if err != nil {
-- 
2.43.0


From e45987bcf775511d16fd8b5961cea896e9999323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:34 +0000
Subject: [PATCH 32/36] fix: jsonrpc-watch reconnects when the connection was
 lost before waiting

---
 cli/watch/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cli/watch/main.go b/cli/watch/main.go
index d37a6e8..8065450 100644
--- a/cli/watch/main.go
+++ b/cli/watch/main.go
@@ -151,5 +151,9 @@ func (self *jsonrpcWatcher) connect() error {
 		fmt.Println(repr)
 	}
 	// wait loop
-	return self.sc.Wait()
+	if err := self.sc.Wait(); err != nil {
+		return err
+	}
+	// nobody closes the client, the connection was lost before waiting
+	return jlibhttp.TransportClosed
 }
-- 
2.43.0


From dd1310e664ad4e4ec8344a2f601657d4686c1a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:27 +0000
Subject: [PATCH 33/36] fix: an answer which ends the H2 stream reaches its
 call

---
 http/h2_client.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/http/h2_client.go b/http/h2_client.go
index 7338f49..837e211 100644
--- a/http/h2_client.go
+++ b/http/h2_client.go
@@ -192,12 +192,15 @@ func (self *h2Transport) WriteMessage(msg jlib.Message) error {
 	if writer == nil {
 		return TransportClosed
 	}
+	if _, err := writer.Write(marshaled); err != nil {
+		return self.handleHttp2Error(err)
+	}
 	// the http2 transport reads the ending newline from the pipe not
 	// before it has flushed the message.
-	for _, data := range [][]byte{marshaled, []byte("\n")} {
-		if _, err := writer.Write(data); err != nil {
-			return self.handleHttp2Error(err)
-		}
+	if _, err := writer.Write([]byte("\n")); err != nil {
+		// the server may have ended the stream upon the message, its
+		// last messages are still to be read
+		self.client.Log().Debugf("stream ended after message, %s", err)
 	}
 	return nil
 }
-- 
2.43.0


From db009522c2ea208d55ddc1958a8d1ce486c13697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 34/36] fix: H2 client reports a redirect instead of following
 it without its stream

---
 http/h2_client.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/http/h2_client.go b/http/h2_client.go
index 837e211..908bd40 100644
--- a/http/h2_client.go
+++ b/http/h2_client.go
@@ -74,7 +74,8 @@ func (self *H2Client) HTTPClient() *http.Client {
 				},
 			}
 			self.httpClient = &http.Client{
-				Transport: trans,
+				Transport:     trans,
+				CheckRedirect: noRedirect,
 			}
 		} else {
 			trans := &http2.Transport{
@@ -84,13 +85,20 @@ func (self *H2Client) HTTPClient() *http.Client {
 			}
 
 			self.httpClient = &http.Client{
-				Transport: trans,
+				Transport:     trans,
+				CheckRedirect: noRedirect,
 			}
 		}
 	})
 	return self.httpClient
 }
 
+// noRedirect makes a redirect the response of a request, a redirected
+// request would have lost the stream it carries.
+func noRedirect(req *http.Request, via []*http.Request) error {
+	return http.ErrUseLastResponse
+}
+
 func (self *H2Client) String() string {
 	return fmt.Sprintf("http2 client %s", self.serverUrl)
 }
-- 
2.43.0


From 5fab5fb157035d32283e02acb800b45f53250d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:50 +0000
Subject: [PATCH 35/36] fix: H2 client gets a stream of its own when the
 transport moves on from a broken connection

---
 http/h2_client.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/http/h2_client.go b/http/h2_client.go
index 908bd40..3e45698 100644
--- a/http/h2_client.go
+++ b/http/h2_client.go
@@ -131,6 +131,12 @@ func (self *h2Transport) Connect(rootCtx context.Context, serverUrl *url.URL, he
 		URL:    serverUrl,
 		Header: header,
 		Body:   pipeReader,
+		// the transport closes the body when it moves on from a
+		// broken connection
+		GetBody: func() (io.ReadCloser, error) {
+			pipeReader, pipeWriter = io.Pipe()
+			return pipeReader, nil
+		},
 	}
 
 	// rootCtx cancels the connecting, the life of an established stream
-- 
2.43.0


From a42ee554739e756400d2c077388ff43d11f29f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 36/36] fix: recover from panics of the missing handler upon
 responses

A peer which sends a result or error message to an actor whose missing
handler panics, say by asking that message for its method, took the
whole server process down, because only the requests and notifies given
to the missing handler were guarded.
---
 http/request.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/http/request.go b/http/request.go
index 235d643..618dacc 100644
--- a/http/request.go
+++ b/http/request.go
@@ -294,8 +294,7 @@ func (self *Actor) Feed(req *RPCRequest) (jlib.Message, error) {
 	msg := req.Msg()
 	if !msg.IsRequestOrNotify() {
 		if self.missingHandler != nil {
-			res, err := self.missingHandler(req)
-			return self.wrapResult(res, err, msg)
+			return self.recoverCallMissingHandler(req)
 		} else {
 			req.Log().Info("no handler to handle this message")
 			return nil, nil
-- 
2.43.0

