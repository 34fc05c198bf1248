From 5dfb99f1995a1604805b1cda3f5d10361c0d1efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 01/16] fix: left-anchor every alternative of a regexp pattern

Prepending \A binds tighter than a top-level alternation, so /foo|/bar also
matched /xx/bar.
---
 web/regexp_pattern.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/regexp_pattern.go b/web/regexp_pattern.go
index 95e7e09..e04ec3b 100644
--- a/web/regexp_pattern.go
+++ b/web/regexp_pattern.go
@@ -87,7 +87,7 @@ func sketchOnRegex(re *regexp.Regexp) (*regexp.Regexp, string) {
 	}
 	if p.StartCond()&syntax.EmptyBeginText == 0 {
 		// I hope doing this is always legal...
-		newRe, err := regexp.Compile(`\A` + rawRe)
+		newRe, err := regexp.Compile(`\A(?:` + rawRe + `)`)
 		if err != nil {
 			log.Printf("WARN(web): unable to create a left-"+
 				"anchored regexp from %v. This route might "+
-- 
2.43.0


From 6b4941ee7de7b1a09d2b8d3696318c21bb3145cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 02/16] fix: matching a regexp pattern must not bind URL
 parameters

Pattern.Match should not modify its arguments: parameters of a route that was
tried but not selected (wrong method) leaked into the selected handler.
---
 web/regexp_pattern.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/regexp_pattern.go b/web/regexp_pattern.go
index e04ec3b..c107e6e 100644
--- a/web/regexp_pattern.go
+++ b/web/regexp_pattern.go
@@ -19,7 +19,7 @@ func (p regexpPattern) Prefix() string {
 	return p.prefix
 }
 func (p regexpPattern) Match(r *http.Request, c *C) bool {
-	return p.match(r, c, false)
+	return p.match(r, c, true)
 }
 func (p regexpPattern) Run(r *http.Request, c *C) {
 	p.match(r, c, false)
-- 
2.43.0


From ab80bec1afaaf904e6ca707c247bc2ee7238fe43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 03/16] fix: RawPattern returns the regexp originally passed in

For expressions that had to be left-anchored it returned the rewritten one.
---
 web/match.go          | 2 +-
 web/regexp_pattern.go | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/web/match.go b/web/match.go
index 1a44144..2cbcdfa 100644
--- a/web/match.go
+++ b/web/match.go
@@ -42,7 +42,7 @@ func GetMatch(c C) Match {
 func (m Match) RawPattern() PatternType {
 	switch v := m.Pattern.(type) {
 	case regexpPattern:
-		return v.re
+		return v.raw
 	case stringPattern:
 		return v.raw
 	default:
diff --git a/web/regexp_pattern.go b/web/regexp_pattern.go
index c107e6e..edd15d3 100644
--- a/web/regexp_pattern.go
+++ b/web/regexp_pattern.go
@@ -10,6 +10,7 @@ import (
 )
 
 type regexpPattern struct {
+	raw    *regexp.Regexp
 	re     *regexp.Regexp
 	prefix string
 	names  []string
@@ -49,7 +50,7 @@ func (p regexpPattern) String() string {
 }
 
 func (p regexpPattern) Raw() *regexp.Regexp {
-	return p.re
+	return p.raw
 }
 
 /*
@@ -130,6 +131,7 @@ Sadness:
 }
 
 func parseRegexpPattern(re *regexp.Regexp) regexpPattern {
+	raw := re
 	re, prefix := sketchOnRegex(re)
 	rnames := re.SubexpNames()
 	// We have to make our own copy since package regexp forbids us
@@ -142,6 +144,7 @@ func parseRegexpPattern(re *regexp.Regexp) regexpPattern {
 		names[i] = rname
 	}
 	return regexpPattern{
+		raw:    raw,
 		re:     re,
 		prefix: prefix,
 		names:  names,
-- 
2.43.0


From 6fe99fc39051f113cd8cf603cfbb565412952d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 04/16] fix: U+FFFD in a regexp is not a literal prefix

package regexp also matches it against invalid UTF-8, so routes could be
skipped although their pattern matches.
---
 web/regexp_pattern.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/web/regexp_pattern.go b/web/regexp_pattern.go
index edd15d3..d01dc21 100644
--- a/web/regexp_pattern.go
+++ b/web/regexp_pattern.go
@@ -7,6 +7,7 @@ import (
 	"net/http"
 	"regexp"
 	"regexp/syntax"
+	"unicode/utf8"
 )
 
 type regexpPattern struct {
@@ -117,7 +118,10 @@ Sadness:
 
 			atStart = false
 			if len(i.Rune) != 1 ||
-				syntax.Flags(i.Arg)&syntax.FoldCase != 0 {
+				syntax.Flags(i.Arg)&syntax.FoldCase != 0 ||
+				i.Rune[0] == utf8.RuneError {
+				// U+FFFD also matches invalid UTF-8, so it is
+				// not a literal prefix.
 				break Sadness
 			}
 			buf.WriteRune(i.Rune[0])
-- 
2.43.0


From fbd33b5578b9f3b8a7e6dca5857ae0f4cceba618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 05/16] fix: count bytes sent through the proxy's ReadFrom

BytesWritten returned 0 for responses written by io.Copy.
---
 web/mutil/writer_proxy.go       | 4 +++-
 web/mutil/writer_proxy_go1_8.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/web/mutil/writer_proxy.go b/web/mutil/writer_proxy.go
index fb4a08b..00aa565 100644
--- a/web/mutil/writer_proxy.go
+++ b/web/mutil/writer_proxy.go
@@ -130,7 +130,9 @@ func (f *fancyWriter) ReadFrom(r io.Reader) (int64, error) {
 	}
 	rf := f.basicWriter.ResponseWriter.(io.ReaderFrom)
 	f.basicWriter.maybeWriteHeader()
-	return rf.ReadFrom(r)
+	n, err := rf.ReadFrom(r)
+	f.basicWriter.bytes += int(n)
+	return n, err
 }
 
 type flushWriter struct {
diff --git a/web/mutil/writer_proxy_go1_8.go b/web/mutil/writer_proxy_go1_8.go
index 2019c98..af5191b 100644
--- a/web/mutil/writer_proxy_go1_8.go
+++ b/web/mutil/writer_proxy_go1_8.go
@@ -125,7 +125,9 @@ func (f *fancyWriter) ReadFrom(r io.Reader) (int64, error) {
 	}
 	rf := f.basicWriter.ResponseWriter.(io.ReaderFrom)
 	f.basicWriter.maybeWriteHeader()
-	return rf.ReadFrom(r)
+	n, err := rf.ReadFrom(r)
+	f.basicWriter.bytes += int(n)
+	return n, err
 }
 
 var (
-- 
2.43.0


From 33856348e642456f8e6d69a43dcc83cef1692453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 06/16] fix: do not panic when pushing through a proxy of a
 non-pusher

net/http's HTTP/1 response writer gets a proxy with a Push method but is not a
Pusher itself; Push then has to report http.ErrNotSupported.
---
 web/mutil/writer_proxy_go1_8.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/web/mutil/writer_proxy_go1_8.go b/web/mutil/writer_proxy_go1_8.go
index af5191b..53a4d23 100644
--- a/web/mutil/writer_proxy_go1_8.go
+++ b/web/mutil/writer_proxy_go1_8.go
@@ -106,7 +106,10 @@ type fancyWriter struct {
 }
 
 func (f *fancyWriter) Push(target string, opts *http.PushOptions) error {
-	return f.basicWriter.ResponseWriter.(http.Pusher).Push(target, opts)
+	if p, ok := f.basicWriter.ResponseWriter.(http.Pusher); ok {
+		return p.Push(target, opts)
+	}
+	return http.ErrNotSupported
 }
 
 func (f *fancyWriter) Flush() {
-- 
2.43.0


From 4af750e974c79f303f8b1c975adb6bdeb584ecce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 07/16] fix: disowning a closed connection must not release it
 twice

It panicked with a negative WaitGroup counter.
---
 graceful/listener/conn.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graceful/listener/conn.go b/graceful/listener/conn.go
index 7b34b47..71a66ce 100644
--- a/graceful/listener/conn.go
+++ b/graceful/listener/conn.go
@@ -141,6 +141,8 @@ func (c *conn) disown() error {
 
 	if c.disowned {
 		return errAlreadyDisowned
+	} else if c.closed {
+		return errClosing
 	}
 
 	c.shard.disown(c)
-- 
2.43.0


From 806d7c778ef6f49537a680b1d47b9b00e3af147a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 08/16] fix: do not track closed or disowned connections again

Marking such a connection as idle re-added it to the idle set, where it stayed
for ever.
---
 graceful/listener/conn.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graceful/listener/conn.go b/graceful/listener/conn.go
index 71a66ce..a73a124 100644
--- a/graceful/listener/conn.go
+++ b/graceful/listener/conn.go
@@ -95,12 +95,12 @@ func (c *conn) markIdle() {
 	c.mu.Lock()
 	defer c.mu.Unlock()
 
-	if !c.busy {
+	if !c.busy || c.closed || c.disowned {
 		return
 	}
 	c.busy = false
 
-	if exit := c.shard.markIdle(c); exit && !c.closed && !c.disowned {
+	if exit := c.shard.markIdle(c); exit {
 		c.closed = true
 		c.shard.disown(c)
 		defer c.shard.wg.Done()
-- 
2.43.0


From c37e5d3f7fd47aaab914f1f8fbeb70ab58633a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 09/16] fix: refusing a connection while draining is a peaceful
 error

A connection accepted between the start of the drain and the close of the
listener made Serve return a plain errClosing, and goji.Serve then killed the
process in the middle of the graceful shutdown.
---
 graceful/graceful.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/graceful/graceful.go b/graceful/graceful.go
index 19490e0..8f5506f 100644
--- a/graceful/graceful.go
+++ b/graceful/graceful.go
@@ -46,6 +46,10 @@ func peacefulError(err error) error {
 	if atomic.LoadInt32(&closing) == 0 {
 		return err
 	}
+	// A draining listener.T refuses the connections it accepts like this.
+	if err != nil && err.Error() == errClosing {
+		return nil
+	}
 	// Unfortunately Go doesn't really give us a better way to select errors
 	// than this, so *shrug*.
 	if oe, ok := err.(*net.OpError); ok {
-- 
2.43.0


From ca956a2ee7da771368caae8fa90656e1bfa7a1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 10/16] fix: RealIP: split X-Forwarded-For at commas, with or
 without space

"a,b" is a legal header value; RemoteAddr became "a,b".
---
 web/middleware/realip.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/middleware/realip.go b/web/middleware/realip.go
index ae5599f..a70893f 100644
--- a/web/middleware/realip.go
+++ b/web/middleware/realip.go
@@ -38,7 +38,7 @@ func realIP(r *http.Request) string {
 	var ip string
 
 	if xff := r.Header.Get(xForwardedFor); xff != "" {
-		i := strings.Index(xff, ", ")
+		i := strings.IndexByte(xff, ',')
 		if i == -1 {
 			i = len(xff)
 		}
-- 
2.43.0


From aa36b35f94e2890a20e0df4461e1df011db7caba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 11/16] fix: ListenAndServeTLS must keep every setting of the
 caller's TLS config

The field-by-field copy silently dropped VerifyPeerCertificate,
GetConfigForClient and every other field newer than Go 1.5.
---
 graceful/clone16.go |  2 +-
 graceful/clone18.go | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)
 create mode 100644 graceful/clone18.go

diff --git a/graceful/clone16.go b/graceful/clone16.go
index 810b3a2..18fbbbc 100644
--- a/graceful/clone16.go
+++ b/graceful/clone16.go
@@ -1,4 +1,4 @@
-// +build go1.6
+// +build go1.6,!go1.8
 
 package graceful
 
diff --git a/graceful/clone18.go b/graceful/clone18.go
new file mode 100644
index 0000000..53f6331
--- /dev/null
+++ b/graceful/clone18.go
@@ -0,0 +1,14 @@
+// +build go1.8
+
+package graceful
+
+import "crypto/tls"
+
+// cloneTLSConfig copies every setting of the given config, including ones that
+// were added to package tls after this package was written.
+func cloneTLSConfig(cfg *tls.Config) *tls.Config {
+	if cfg == nil {
+		return &tls.Config{}
+	}
+	return cfg.Clone()
+}
-- 
2.43.0


From d2f74c703b4d216b9bf51bd5f3b778d45c9616bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 12/16] fix: a negative file descriptor is an error, not a
 crash

---
 bind/bind.go    | 3 +++
 bind/einhorn.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/bind/bind.go b/bind/bind.go
index 43d11dd..8e38d22 100644
--- a/bind/bind.go
+++ b/bind/bind.go
@@ -108,6 +108,9 @@ func listenTo(bind string) (net.Listener, error) {
 				bind, err)
 		}
 		f := os.NewFile(uintptr(fd), bind)
+		if f == nil {
+			return nil, fmt.Errorf("invalid fd %v", bind)
+		}
 		defer f.Close()
 		return net.FileListener(f)
 	} else if strings.HasPrefix(bind, "einhorn@") {
diff --git a/bind/einhorn.go b/bind/einhorn.go
index e695c0e..2ae938e 100644
--- a/bind/einhorn.go
+++ b/bind/einhorn.go
@@ -65,6 +65,9 @@ func einhornBind(n int) (net.Listener, error) {
 
 	fno := einhornFdMap(n)
 	f := os.NewFile(uintptr(fno), fmt.Sprintf("einhorn@%d", n))
+	if f == nil {
+		return nil, fmt.Errorf("bind: invalid fd for einhorn@%d", n)
+	}
 	defer f.Close()
 	return net.FileListener(f)
 }
-- 
2.43.0


From 9ad281d01781dee3df659f00fb7b76238d7ae49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:35 +0000
Subject: [PATCH 13/16] fix: NoCache left conditional request headers whose
 first line is empty

---
 web/middleware/nocache.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/web/middleware/nocache.go b/web/middleware/nocache.go
index ae3d260..25c1d89 100644
--- a/web/middleware/nocache.go
+++ b/web/middleware/nocache.go
@@ -38,9 +38,7 @@ func NoCache(h http.Handler) http.Handler {
 
 		// Delete any ETag headers that may have been set
 		for _, v := range etagHeaders {
-			if r.Header.Get(v) != "" {
-				r.Header.Del(v)
-			}
+			r.Header.Del(v)
 		}
 
 		// Set our NoCache headers
-- 
2.43.0


From e2e3f18939427c489607445c09757214df75205f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:20 +0000
Subject: [PATCH 14/16] fix: anchor regexps that end in an open \Q

Wrapping the source text in a group swallows the closing parenthesis when
the text ends inside \Q, so such patterns stayed unanchored.
---
 web/regexp_pattern.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/web/regexp_pattern.go b/web/regexp_pattern.go
index d01dc21..8843265 100644
--- a/web/regexp_pattern.go
+++ b/web/regexp_pattern.go
@@ -80,8 +80,7 @@ func sketchOnRegex(re *regexp.Regexp) (*regexp.Regexp, string) {
 			"This route might behave unexpectedly.", re)
 		return re, ""
 	}
-	sRe = sRe.Simplify()
-	p, err := syntax.Compile(sRe)
+	p, err := syntax.Compile(sRe.Simplify())
 	if err != nil {
 		log.Printf("WARN(web): unable to compile regexp %v. This "+
 			"route might behave unexpectedly.", re)
@@ -89,7 +88,9 @@ func sketchOnRegex(re *regexp.Regexp) (*regexp.Regexp, string) {
 	}
 	if p.StartCond()&syntax.EmptyBeginText == 0 {
 		// I hope doing this is always legal...
-		newRe, err := regexp.Compile(`\A(?:` + rawRe + `)`)
+		// The parsed expression is used because the original might end
+		// in an open \Q.
+		newRe, err := regexp.Compile(`\A(?:` + sRe.String() + `)`)
 		if err != nil {
 			log.Printf("WARN(web): unable to create a left-"+
 				"anchored regexp from %v. This route might "+
-- 
2.43.0


From 8328c370bf9288a35bd5c1a09b1ceb88f30b6e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:48 +0000
Subject: [PATCH 15/16] fix: a Read after close returns no data, even with an
 error

---
 graceful/listener/conn.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/graceful/listener/conn.go b/graceful/listener/conn.go
index a73a124..cd9c2d8 100644
--- a/graceful/listener/conn.go
+++ b/graceful/listener/conn.go
@@ -46,9 +46,11 @@ func (c *conn) Read(b []byte) (n int, err error) {
 		// but are mostly trying to prevent a race between a new request
 		// getting read off the wire in one thread while the connection
 		// is being gracefully shut down in another.
-		if c.closed && err == nil {
+		if c.closed {
 			n = 0
-			err = errClosing
+			if err == nil {
+				err = errClosing
+			}
 			return
 		}
 
-- 
2.43.0


From 8ab1759682c6569a1faed7fec8b58dc9ee2458b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:48 +0000
Subject: [PATCH 16/16] fix: DrainAll must not close a connection disowned in
 the meantime

---
 graceful/listener/conn.go  | 16 ++++++++++++++++
 graceful/listener/shard.go |  2 +-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/graceful/listener/conn.go b/graceful/listener/conn.go
index cd9c2d8..45ad7e1 100644
--- a/graceful/listener/conn.go
+++ b/graceful/listener/conn.go
@@ -135,6 +135,22 @@ func (c *conn) closeIfIdle() error {
 	return nil
 }
 
+// closeIfManaged is Close, except that it leaves alone connections that have
+// been disowned in the meantime.
+func (c *conn) closeIfManaged() error {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
+	if !c.closed && !c.disowned {
+		c.closed = true
+		c.shard.disown(c)
+		defer c.shard.wg.Done()
+		return c.Conn.Close()
+	}
+
+	return nil
+}
+
 var errAlreadyDisowned = errors.New("listener: conn already disowned")
 
 func (c *conn) disown() error {
diff --git a/graceful/listener/shard.go b/graceful/listener/shard.go
index a9addad..cf79484 100644
--- a/graceful/listener/shard.go
+++ b/graceful/listener/shard.go
@@ -86,7 +86,7 @@ func (s *shard) closeConns(all, drain bool) {
 		// happen. (I also expect that most errors returned in this way
 		// are going to be pretty boring)
 		if all {
-			c.Close()
+			c.closeIfManaged()
 		} else {
 			c.closeIfIdle()
 		}
-- 
2.43.0

