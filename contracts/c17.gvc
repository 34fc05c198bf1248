package middleware
alias MARK = "github.com/zenazn/goji/web/middleware.zzMark"
alias LOG = "log"
alias ERR = "net/http.Error"
alias FL = "(net/http.Flusher).Flush"

def envID(c) = ite(c.Env != nil && has(c.Env, RequestIDKey) && is(c.Env[RequestIDKey], string), as(c.Env[RequestIDKey], string), "")
def nothing(k) = n(k) == atcall(MARK, n(k))
def one(k) = n(k) == atcall(MARK, n(k)) + 1
def last(k) = n(k) - 1
def header(w, sent, c) = ite(sent, nothing(WH), one(WH) && called(WH, last(WH), w, c))

fn hdrOf(http.ResponseWriter) http.Header

# a response writer has one header map
extern "(net/http.ResponseWriter).Header"(w) (h)
  event
  pure
  ensures h != nil && h == hdrOf(w)

def kept(h, k) = has(h, k) == atcall(MARK, has(h, k)) && (has(h, k) ==> h[k] == atcall(MARK, h[k]) && forall(i, 0 <= i && i < len(h[k]) ==> h[k][i] == atcall(MARK, h[k][i])))

# writers accept no more than they are given
extern "(net/http.ResponseWriter).Write"(w, b) (n, err)
  event
  ensures 0 <= n && n <= len(b)

client zzMark()
  trusted
  event

client zzID(c) (id)
  trusted
  pure
  ensures id == old(envID(c))

# The handler gets the request, after the start was logged and before anything
# was sent.
client zzCheckCalled(w, r, r2, id)
  trusted
  requires [same-request] r2 == r
  requires [request-kept] r.Method == atcall(MARK, r.Method) && r.RemoteAddr == atcall(MARK, r.RemoteAddr) && r.URL == atcall(MARK, r.URL) && r.Body == atcall(MARK, r.Body) && r.Header == atcall(MARK, r.Header)
  requires [request-headers-kept] forall(k, string(k), kept(r.Header, k))
  requires [response-headers-kept] forall(k, string(k), kept(hdrOf(w), k))
  requires [started] one(LOG)
  requires [start-request-id] id != "" ==> haspart(arg(LOG, last(LOG), 0, string), id)
  requires [nothing-sent] nothing(WH) && nothing(WB) && nothing(ERR)

client zzCheckWriteHeader(w, code, sent)
  trusted
  requires [header] header(w, sent, code)
  requires [nothing-else] nothing(WB) && nothing(LOG)

client zzCheckWrite(w, buf, n1, err, sent)
  trusted
  requires [header] header(w, sent, 200) && (sent || time(WH, last(WH)) < time(WB, last(WB)))
  requires [body] one(WB) && called(WB, last(WB), w) && arg(WB, last(WB), 1, []byte) == buf && n1 == res(WB, last(WB), 0, int) && err == res(WB, last(WB), 1, error)
  requires [nothing-else] nothing(LOG)

client zzCheckHeaders(h, w)
  trusted
  requires [header] h == hdrOf(w)
  requires [nothing-else] nothing(WH) && nothing(WB) && nothing(LOG)

# After the handler's return: the header if none was sent, and the end.
client zzCheckEnd(w, calls, sent, want, id)
  trusted
  requires [called-once] calls == 1
  requires [header] header(w, sent, 200)
  requires [nothing-else] nothing(WB) && nothing(ERR)
  requires [response-headers-kept] ite(sent, forall(k, string(k), kept(hdrOf(w), k)), atcall(WH, forall(k, string(k), kept(hdrOf(w), k))))
  requires [logged] one(LOG)
  requires [status] haspart(arg(LOG, last(LOG), 0, string), want)
  requires [request-id] id != "" ==> haspart(arg(LOG, last(LOG), 0, string), id)

client zzLogger(c, w, r, next)
  prop C17
  requires c != nil && w != nil && r != nil && next != nil && r.URL != nil
