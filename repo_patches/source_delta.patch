From d1004788e8d2cad3c295e097146bf606419fc98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 01/19] fix: regexpPattern.Match must not bind URL parameters

Match is called for every plausible route, including ones which are not
selected in the end, and must not modify the context.
---
 web/regexp_pattern.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/regexp_pattern.go b/web/regexp_pattern.go
index 95e7e09..7b2a1c5 100644
--- a/web/regexp_pattern.go
+++ b/web/regexp_pattern.go
@@ -19,7 +19,7 @@ func (p regexpPattern) Prefix() string {
 	return p.prefix
 }
 func (p regexpPattern) Match(r *http.Request, c *C) bool {
-	return p.match(r, c, false)
+	return p.match(r, c, true)
 }
 func (p regexpPattern) Run(r *http.Request, c *C) {
 	p.match(r, c, false)
-- 
2.43.0


From 882989687ee0b20aa4e0100490966df53b9a3620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 02/19] fix: left-anchor every branch of a regexp pattern

Prepending \A to "/foo|/bar" only anchored the first alternative, so that
the second one matched anywhere in the path.
---
 web/regexp_pattern.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/web/regexp_pattern.go b/web/regexp_pattern.go
index 7b2a1c5..b1928e9 100644
--- a/web/regexp_pattern.go
+++ b/web/regexp_pattern.go
@@ -86,8 +86,14 @@ func sketchOnRegex(re *regexp.Regexp) (*regexp.Regexp, string) {
 		return re, ""
 	}
 	if p.StartCond()&syntax.EmptyBeginText == 0 {
-		// I hope doing this is always legal...
-		newRe, err := regexp.Compile(`\A` + rawRe)
+		// I hope doing this is always legal... The group is necessary
+		// so that the anchor applies to every branch of a top-level
+		// alternation.
+		newRe, err := regexp.Compile(`\A(?:` + rawRe + `)`)
+		if err != nil {
+			// The regexp might end inside of an unterminated \Q.
+			newRe, err = regexp.Compile(`\A(?:` + rawRe + `\E)`)
+		}
 		if err != nil {
 			log.Printf("WARN(web): unable to create a left-"+
 				"anchored regexp from %v. This route might "+
-- 
2.43.0


From fb227ca67cc17104465012f2f9dfbf3cc1cab7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 03/19] fix: don't advertise U+FFFD as part of a regexp
 pattern's prefix

Package regexp lets a literal U+FFFD match any byte that isn't valid UTF-8,
so a path can match without starting with the encoding of U+FFFD.
---
 web/regexp_pattern.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/web/regexp_pattern.go b/web/regexp_pattern.go
index b1928e9..7809b49 100644
--- a/web/regexp_pattern.go
+++ b/web/regexp_pattern.go
@@ -7,6 +7,7 @@ import (
 	"net/http"
 	"regexp"
 	"regexp/syntax"
+	"unicode/utf8"
 )
 
 type regexpPattern struct {
@@ -121,7 +122,10 @@ Sadness:
 			syntax.InstRuneAnyNotNL:
 
 			atStart = false
-			if len(i.Rune) != 1 ||
+			// The replacement character also matches every byte
+			// that isn't valid UTF-8, so it can't be part of the
+			// prefix.
+			if len(i.Rune) != 1 || i.Rune[0] == utf8.RuneError ||
 				syntax.Flags(i.Arg)&syntax.FoldCase != 0 {
 				break Sadness
 			}
-- 
2.43.0


From bfe45ab0b670b603d7834f3b826e11ffa9018a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 04/19] fix: don't release a closed connection again when it is
 disowned

Disowning a connection that had already been closed called Done on the shard's
WaitGroup a second time, making its counter negative (and so panicking) or
ending a drain while some other connection is still open.
---
 graceful/listener/conn.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graceful/listener/conn.go b/graceful/listener/conn.go
index 7b34b47..71a66ce 100644
--- a/graceful/listener/conn.go
+++ b/graceful/listener/conn.go
@@ -141,6 +141,8 @@ func (c *conn) disown() error {
 
 	if c.disowned {
 		return errAlreadyDisowned
+	} else if c.closed {
+		return errClosing
 	}
 
 	c.shard.disown(c)
-- 
2.43.0


From e1c4cf013b852534f4fa1659c3300d7ca9a9ce82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 05/19] fix: don't track closed or disowned connections as idle

Marking a connection as idle after it was closed or disowned put it back into
its shard's set of idle connections, from which nothing ever removed it.
---
 graceful/listener/conn.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graceful/listener/conn.go b/graceful/listener/conn.go
index 71a66ce..a73a124 100644
--- a/graceful/listener/conn.go
+++ b/graceful/listener/conn.go
@@ -95,12 +95,12 @@ func (c *conn) markIdle() {
 	c.mu.Lock()
 	defer c.mu.Unlock()
 
-	if !c.busy {
+	if !c.busy || c.closed || c.disowned {
 		return
 	}
 	c.busy = false
 
-	if exit := c.shard.markIdle(c); exit && !c.closed && !c.disowned {
+	if exit := c.shard.markIdle(c); exit {
 		c.closed = true
 		c.shard.disown(c)
 		defer c.shard.wg.Done()
-- 
2.43.0


From c72bc4b019d68a379669d970ee8af9170b27060a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 06/19] fix: never return data from a read on a closed
 connection

A Read may return data together with an error (crypto/tls does so when the
data is followed by an alert), and this data must not be handed out either if
the connection was closed in the meantime.
---
 graceful/listener/conn.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/graceful/listener/conn.go b/graceful/listener/conn.go
index a73a124..2e3053b 100644
--- a/graceful/listener/conn.go
+++ b/graceful/listener/conn.go
@@ -46,13 +46,15 @@ func (c *conn) Read(b []byte) (n int, err error) {
 		// but are mostly trying to prevent a race between a new request
 		// getting read off the wire in one thread while the connection
 		// is being gracefully shut down in another.
-		if c.closed && err == nil {
+		if c.closed {
 			n = 0
-			err = errClosing
+			if err == nil {
+				err = errClosing
+			}
 			return
 		}
 
-		if c.mode != Manual && !c.busy && !c.closed {
+		if c.mode != Manual && !c.busy {
 			c.busy = true
 			c.shard.markInUse(c)
 		}
-- 
2.43.0


From 76d19ad5f6dcb28dd49354430e3bc8d6f2ff2a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 07/19] fix: return an ordinary accept error when draining

An Accept which races with a drain returned the bare error, which package
graceful does not recognize as peaceful: Serve then reports an error (and
goji.Serve exits fatally) in the middle of a graceful shutdown.
---
 graceful/listener/listener.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graceful/listener/listener.go b/graceful/listener/listener.go
index 6c9c477..8733230 100644
--- a/graceful/listener/listener.go
+++ b/graceful/listener/listener.go
@@ -86,7 +86,8 @@ func (t *T) Accept() (net.Conn, error) {
 	}
 
 	if err = wc.init(); err != nil {
-		return nil, err
+		// Make this look like any other Accept on a closed listener.
+		return nil, &net.OpError{Op: "accept", Addr: t.l.Addr(), Err: err}
 	}
 	return wc, nil
 }
-- 
2.43.0


From 42ed6a9f12cc87e59eb5075bbece55dd9224e164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 08/19] fix: don't compute negative shard indices

Where int has 32 bits, converting the connection counter to an int yields a
negative index (and so a panic) after 2^31 connections.
---
 graceful/listener/listener.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graceful/listener/listener.go b/graceful/listener/listener.go
index 8733230..ad16735 100644
--- a/graceful/listener/listener.go
+++ b/graceful/listener/listener.go
@@ -78,7 +78,7 @@ func (t *T) Accept() (net.Conn, error) {
 	}
 
 	connID := atomic.AddUint64(&t.connCount, 1)
-	shard := &t.shards[int(connID)%len(t.shards)]
+	shard := &t.shards[connID%uint64(len(t.shards))]
 	wc := &conn{
 		Conn:  c,
 		shard: shard,
-- 
2.43.0


From 822fc9cafcd7eaffe572634a131c5c140c11fd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 09/19] fix: keep all settings when copying a TLS configuration

The list of fields in clone16.go predates, for instance, VerifyPeerCertificate,
VerifyConnection and GetConfigForClient, so ListenAndServeTLS silently ignored
them. Since Go 1.8 tls.Config can copy itself.
---
 graceful/clone16.go |  2 +-
 graceful/clone18.go | 13 +++++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)
 create mode 100644 graceful/clone18.go

diff --git a/graceful/clone16.go b/graceful/clone16.go
index 810b3a2..18fbbbc 100644
--- a/graceful/clone16.go
+++ b/graceful/clone16.go
@@ -1,4 +1,4 @@
-// +build go1.6
+// +build go1.6,!go1.8
 
 package graceful
 
diff --git a/graceful/clone18.go b/graceful/clone18.go
new file mode 100644
index 0000000..05b73d9
--- /dev/null
+++ b/graceful/clone18.go
@@ -0,0 +1,13 @@
+// +build go1.8
+
+package graceful
+
+import "crypto/tls"
+
+// see clone16.go
+func cloneTLSConfig(cfg *tls.Config) *tls.Config {
+	if cfg == nil {
+		return &tls.Config{}
+	}
+	return cfg.Clone()
+}
-- 
2.43.0


From dabe2d3b85e2187cae966e398a28b5590efd0901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 10/19] fix: count the bytes sent through WriterProxy's
 ReadFrom

---
 web/mutil/writer_proxy.go       | 4 +++-
 web/mutil/writer_proxy_go1_8.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/web/mutil/writer_proxy.go b/web/mutil/writer_proxy.go
index fb4a08b..00aa565 100644
--- a/web/mutil/writer_proxy.go
+++ b/web/mutil/writer_proxy.go
@@ -130,7 +130,9 @@ func (f *fancyWriter) ReadFrom(r io.Reader) (int64, error) {
 	}
 	rf := f.basicWriter.ResponseWriter.(io.ReaderFrom)
 	f.basicWriter.maybeWriteHeader()
-	return rf.ReadFrom(r)
+	n, err := rf.ReadFrom(r)
+	f.basicWriter.bytes += int(n)
+	return n, err
 }
 
 type flushWriter struct {
diff --git a/web/mutil/writer_proxy_go1_8.go b/web/mutil/writer_proxy_go1_8.go
index 2019c98..af5191b 100644
--- a/web/mutil/writer_proxy_go1_8.go
+++ b/web/mutil/writer_proxy_go1_8.go
@@ -125,7 +125,9 @@ func (f *fancyWriter) ReadFrom(r io.Reader) (int64, error) {
 	}
 	rf := f.basicWriter.ResponseWriter.(io.ReaderFrom)
 	f.basicWriter.maybeWriteHeader()
-	return rf.ReadFrom(r)
+	n, err := rf.ReadFrom(r)
+	f.basicWriter.bytes += int(n)
+	return n, err
 }
 
 var (
-- 
2.43.0


From 6ab326a2876f401e11b849ab759c6c72920b3155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 11/19] fix: don't panic when pushing through a proxy of a
 non-Pusher

The ResponseWriter of an HTTP/1.1 request gets wrapped in a fancyWriter too,
but it isn't an http.Pusher.
---
 web/mutil/writer_proxy_go1_8.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/web/mutil/writer_proxy_go1_8.go b/web/mutil/writer_proxy_go1_8.go
index af5191b..53a4d23 100644
--- a/web/mutil/writer_proxy_go1_8.go
+++ b/web/mutil/writer_proxy_go1_8.go
@@ -106,7 +106,10 @@ type fancyWriter struct {
 }
 
 func (f *fancyWriter) Push(target string, opts *http.PushOptions) error {
-	return f.basicWriter.ResponseWriter.(http.Pusher).Push(target, opts)
+	if p, ok := f.basicWriter.ResponseWriter.(http.Pusher); ok {
+		return p.Push(target, opts)
+	}
+	return http.ErrNotSupported
 }
 
 func (f *fancyWriter) Flush() {
-- 
2.43.0


From b03ffc5133dd032da847b4ebd0a4f5568d727045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 12/19] fix: don't hide the Flusher of writers which aren't
 Hijackers

The Go 1.8 version of WrapWriter lost the flushWriter of the older one, and
with it the ability to flush HTTP/2 responses.
---
 web/mutil/writer_proxy_go1_8.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/web/mutil/writer_proxy_go1_8.go b/web/mutil/writer_proxy_go1_8.go
index 53a4d23..672871c 100644
--- a/web/mutil/writer_proxy_go1_8.go
+++ b/web/mutil/writer_proxy_go1_8.go
@@ -40,6 +40,9 @@ func WrapWriter(w http.ResponseWriter) WriterProxy {
 	if fl && hj && rf {
 		return &fancyWriter{bw}
 	}
+	if fl {
+		return &flushWriter{bw}
+	}
 	return &bw
 }
 
@@ -133,9 +136,19 @@ func (f *fancyWriter) ReadFrom(r io.Reader) (int64, error) {
 	return n, err
 }
 
+type flushWriter struct {
+	basicWriter
+}
+
+func (f *flushWriter) Flush() {
+	fl := f.basicWriter.ResponseWriter.(http.Flusher)
+	fl.Flush()
+}
+
 var (
 	_ http.Pusher   = &fancyWriter{}
 	_ http.Flusher  = &fancyWriter{}
 	_ http.Hijacker = &fancyWriter{}
 	_ io.ReaderFrom = &fancyWriter{}
+	_ http.Flusher  = &flushWriter{}
 )
-- 
2.43.0


From 1245c97d0f615f977f62eb047fd8134beaeab963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 13/19] fix: report the status sent by flushing a WriterProxy

Flushing a response sends its header with status 200, after which the proxy
still reported no status, or a later one which was never sent.
---
 web/mutil/writer_proxy.go       | 2 ++
 web/mutil/writer_proxy_go1_8.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/web/mutil/writer_proxy.go b/web/mutil/writer_proxy.go
index 00aa565..37fb036 100644
--- a/web/mutil/writer_proxy.go
+++ b/web/mutil/writer_proxy.go
@@ -115,6 +115,7 @@ func (f *fancyWriter) CloseNotify() <-chan bool {
 }
 
 func (f *fancyWriter) Flush() {
+	f.basicWriter.maybeWriteHeader()
 	fl := f.basicWriter.ResponseWriter.(http.Flusher)
 	fl.Flush()
 }
@@ -140,6 +141,7 @@ type flushWriter struct {
 }
 
 func (f *flushWriter) Flush() {
+	f.basicWriter.maybeWriteHeader()
 	fl := f.basicWriter.ResponseWriter.(http.Flusher)
 	fl.Flush()
 }
diff --git a/web/mutil/writer_proxy_go1_8.go b/web/mutil/writer_proxy_go1_8.go
index 672871c..eafcf34 100644
--- a/web/mutil/writer_proxy_go1_8.go
+++ b/web/mutil/writer_proxy_go1_8.go
@@ -116,6 +116,7 @@ func (f *fancyWriter) Push(target string, opts *http.PushOptions) error {
 }
 
 func (f *fancyWriter) Flush() {
+	f.basicWriter.maybeWriteHeader()
 	fl := f.basicWriter.ResponseWriter.(http.Flusher)
 	fl.Flush()
 }
@@ -141,6 +142,7 @@ type flushWriter struct {
 }
 
 func (f *flushWriter) Flush() {
+	f.basicWriter.maybeWriteHeader()
 	fl := f.basicWriter.ResponseWriter.(http.Flusher)
 	fl.Flush()
 }
-- 
2.43.0


From 06ff25005010449262cfd65de617aedd747d2dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 14/19] fix: don't mistake informational headers for the final
 one in WriterProxy

After a 103 (Early Hints), for instance, the proxy swallowed the response's
real status, so the client got a 200.
---
 web/mutil/writer_proxy.go       | 7 +++++++
 web/mutil/writer_proxy_go1_8.go | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/web/mutil/writer_proxy.go b/web/mutil/writer_proxy.go
index 37fb036..d4b9001 100644
--- a/web/mutil/writer_proxy.go
+++ b/web/mutil/writer_proxy.go
@@ -58,6 +58,13 @@ type basicWriter struct {
 }
 
 func (b *basicWriter) WriteHeader(code int) {
+	if code >= 100 && code < 200 && code != http.StatusSwitchingProtocols {
+		// Informational headers may precede the final one.
+		if !b.wroteHeader {
+			b.ResponseWriter.WriteHeader(code)
+		}
+		return
+	}
 	if !b.wroteHeader {
 		b.code = code
 		b.wroteHeader = true
diff --git a/web/mutil/writer_proxy_go1_8.go b/web/mutil/writer_proxy_go1_8.go
index eafcf34..4d6dae7 100644
--- a/web/mutil/writer_proxy_go1_8.go
+++ b/web/mutil/writer_proxy_go1_8.go
@@ -57,6 +57,13 @@ type basicWriter struct {
 }
 
 func (b *basicWriter) WriteHeader(code int) {
+	if code >= 100 && code < 200 && code != http.StatusSwitchingProtocols {
+		// Informational headers may precede the final one.
+		if !b.wroteHeader {
+			b.ResponseWriter.WriteHeader(code)
+		}
+		return
+	}
 	if !b.wroteHeader {
 		b.code = code
 		b.wroteHeader = true
-- 
2.43.0


From 102564eb87519fcd644e009cf10a87e9433c4773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 15/19] fix: send NoCache's Expires header in UTC whatever the
 local time zone

---
 web/middleware/nocache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/middleware/nocache.go b/web/middleware/nocache.go
index ae3d260..754d463 100644
--- a/web/middleware/nocache.go
+++ b/web/middleware/nocache.go
@@ -6,7 +6,7 @@ import (
 )
 
 // Unix epoch time
-var epoch = time.Unix(0, 0).Format(time.RFC1123)
+var epoch = time.Unix(0, 0).UTC().Format(time.RFC1123)
 
 // Taken from https://github.com/mytrile/nocache
 var noCacheHeaders = map[string]string{
-- 
2.43.0


From ab36d74ace77b8a50c90882009a2a3b6c221c5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 16/19] fix: report an error for Einhorn sockets on Windows

Socket("einhorn@0") returned a nil listener and no error there.
---
 bind/einhorn_stub.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bind/einhorn_stub.go b/bind/einhorn_stub.go
index 093707f..6b1bcca 100644
--- a/bind/einhorn_stub.go
+++ b/bind/einhorn_stub.go
@@ -3,10 +3,14 @@
 package bind
 
 import (
+	"fmt"
 	"net"
 )
 
-func einhornInit()                             {}
-func einhornAck()                              {}
-func einhornBind(fd int) (net.Listener, error) { return nil, nil }
-func usingEinhorn() bool                       { return false }
+func einhornInit()       {}
+func einhornAck()        {}
+func usingEinhorn() bool { return false }
+
+func einhornBind(fd int) (net.Listener, error) {
+	return nil, fmt.Errorf("bind: could not bind einhorn@%d: not supported on windows", fd)
+}
-- 
2.43.0


From 7ef459abd29538c2bb98adcfa8d717cc228dca6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 17/19] fix: don't add to a shard's WaitGroup while it is being
 drained

Accepting a connection during a drain added to a WaitGroup which is being
waited on and may already be zero, which makes package sync panic ("WaitGroup
is reused before previous Wait has returned").
---
 graceful/listener/conn.go  | 3 +--
 graceful/listener/shard.go | 2 ++
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/graceful/listener/conn.go b/graceful/listener/conn.go
index 2e3053b..db2a3f1 100644
--- a/graceful/listener/conn.go
+++ b/graceful/listener/conn.go
@@ -24,9 +24,8 @@ type conn struct {
 var errClosing = errors.New("use of closed network connection")
 
 func (c *conn) init() error {
-	c.shard.wg.Add(1)
 	if shouldExit := c.shard.track(c); shouldExit {
-		c.Close()
+		c.Conn.Close()
 		return errClosing
 	}
 	return nil
diff --git a/graceful/listener/shard.go b/graceful/listener/shard.go
index a9addad..c8542c8 100644
--- a/graceful/listener/shard.go
+++ b/graceful/listener/shard.go
@@ -30,6 +30,8 @@ func (s *shard) track(c *conn) (shouldClose bool) {
 		s.mu.Unlock()
 		return true
 	}
+	// Once draining, somebody might be waiting on wg: we may not add to it.
+	s.wg.Add(1)
 	s.all[c] = struct{}{}
 	s.idle[c] = struct{}{}
 	s.mu.Unlock()
-- 
2.43.0


From ec46e752d924eee5a33bcc834a411abda441fbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:47 +0000
Subject: [PATCH 18/19] fix: report the very regexp that was registered from
 RawPattern

---
 web/match.go          | 2 +-
 web/regexp_pattern.go | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/web/match.go b/web/match.go
index 1a44144..2cbcdfa 100644
--- a/web/match.go
+++ b/web/match.go
@@ -42,7 +42,7 @@ func GetMatch(c C) Match {
 func (m Match) RawPattern() PatternType {
 	switch v := m.Pattern.(type) {
 	case regexpPattern:
-		return v.re
+		return v.raw
 	case stringPattern:
 		return v.raw
 	default:
diff --git a/web/regexp_pattern.go b/web/regexp_pattern.go
index 7809b49..acd2625 100644
--- a/web/regexp_pattern.go
+++ b/web/regexp_pattern.go
@@ -11,6 +11,7 @@ import (
 )
 
 type regexpPattern struct {
+	raw    *regexp.Regexp
 	re     *regexp.Regexp
 	prefix string
 	names  []string
@@ -50,7 +51,7 @@ func (p regexpPattern) String() string {
 }
 
 func (p regexpPattern) Raw() *regexp.Regexp {
-	return p.re
+	return p.raw
 }
 
 /*
@@ -140,7 +141,8 @@ Sadness:
 }
 
 func parseRegexpPattern(re *regexp.Regexp) regexpPattern {
-	re, prefix := sketchOnRegex(re)
+	raw := re
+	re, prefix := sketchOnRegex(raw)
 	rnames := re.SubexpNames()
 	// We have to make our own copy since package regexp forbids us
 	// from scribbling over the slice returned by SubexpNames().
@@ -152,6 +154,7 @@ func parseRegexpPattern(re *regexp.Regexp) regexpPattern {
 		names[i] = rname
 	}
 	return regexpPattern{
+		raw:    raw,
 		re:     re,
 		prefix: prefix,
 		names:  names,
-- 
2.43.0


From d88dc5782a10c0c4993395fb562b8658f75df1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:49 +0000
Subject: [PATCH 19/19] fix: listener: do not close connections disowned while
 DrainAll runs

---
 graceful/listener/conn.go  | 16 ++++++++++++++++
 graceful/listener/shard.go |  2 +-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/graceful/listener/conn.go b/graceful/listener/conn.go
index db2a3f1..28f933a 100644
--- a/graceful/listener/conn.go
+++ b/graceful/listener/conn.go
@@ -134,6 +134,22 @@ func (c *conn) closeIfIdle() error {
 	return nil
 }
 
+// closeIfManaged closes the connection unless it has been disowned (in which
+// case it's no longer ours to close) or is already closed.
+func (c *conn) closeIfManaged() error {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
+	if !c.closed && !c.disowned {
+		c.closed = true
+		c.shard.disown(c)
+		defer c.shard.wg.Done()
+		return c.Conn.Close()
+	}
+
+	return nil
+}
+
 var errAlreadyDisowned = errors.New("listener: conn already disowned")
 
 func (c *conn) disown() error {
diff --git a/graceful/listener/shard.go b/graceful/listener/shard.go
index c8542c8..7f8a1f2 100644
--- a/graceful/listener/shard.go
+++ b/graceful/listener/shard.go
@@ -88,7 +88,7 @@ func (s *shard) closeConns(all, drain bool) {
 		// happen. (I also expect that most errors returned in this way
 		// are going to be pretty boring)
 		if all {
-			c.Close()
+			c.closeIfManaged()
 		} else {
 			c.closeIfIdle()
 		}
-- 
2.43.0

