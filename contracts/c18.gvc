package middleware

fn hdrOf(http.ResponseWriter) http.Header

# a response writer has one header map
extern "(net/http.ResponseWriter).Header"(w) (h)
  event
  pure
  ensures h != nil && h == hdrOf(w)

def oneCall(h, w, r) = n(H) == old(n(H)) + 1 && called(H, old(n(H)), h, w, r)
def conditional(k) = k == "Etag" || k == "If-Modified-Since" || k == "If-Match" || k == "If-None-Match" || k == "If-Range" || k == "If-Unmodified-Since"
def anticache(k) = k == "Expires" || k == "Cache-Control" || k == "Pragma" || k == "X-Accel-Expires"
def kept(h, k) = has(h, k) == old(has(h, k)) && (has(h, k) ==> h[k] == old(h[k]) && forall(i, 0 <= i && i < len(h[k]) ==> h[k][i] == old(h[k][i])))
def only(h, k, v) = has(h, k) && len(h[k]) == 1 && h[k][0] == v

client zzNoCache(h, w, r) (exp)
  prop C18
  panics
  requires h != nil && w != nil && r != nil && r.Header != hdrOf(w)
  ensures [called-once] oneCall(h, w, r)
  ensures [removed] atcall(H, forall(k, string(k), conditional(k) ==> !has(r.Header, k)))
  ensures [request-headers] atcall(H, r.Header == old(r.Header) && forall(k, string(k), !conditional(k) ==> kept(r.Header, k)))
  ensures [expires] atcall(H, only(hdrOf(w), "Expires", exp))
  ensures [cache-control] atcall(H, only(hdrOf(w), "Cache-Control", "no-cache, private, max-age=0"))
  ensures [pragma] atcall(H, only(hdrOf(w), "Pragma", "no-cache"))
  ensures [accel] atcall(H, only(hdrOf(w), "X-Accel-Expires", "0"))
  ensures [response-headers] atcall(H, forall(k, string(k), !anticache(k) ==> kept(hdrOf(w), k)))
  onpanic [called-once] oneCall(h, w, r)

def line(h, k) = ite(h != nil && has(h, k) && len(h[k]) > 0, h[k][0], "")
def first(s, a) = a == sub(s, 0, len(a)) && noByte(a, 44) && (len(a) == len(s) || s[len(a)] == 44)

client zzRealIP(h, w, r)
  prop C18
  panics
  requires h != nil && w != nil && r != nil
  ensures [called-once] oneCall(h, w, r)
  ensures [forwarded] atcall(H, old(line(r.Header, "X-Forwarded-For")) != "" && old(line(r.Header, "X-Forwarded-For")[0]) != 44 ==> first(old(line(r.Header, "X-Forwarded-For")), r.RemoteAddr))
  ensures [empty-entry] atcall(H, old(line(r.Header, "X-Forwarded-For")) != "" && old(line(r.Header, "X-Forwarded-For")[0]) == 44 ==> r.RemoteAddr == old(r.RemoteAddr))
  ensures [real-ip] atcall(H, old(line(r.Header, "X-Forwarded-For")) == "" && old(line(r.Header, "X-Real-Ip")) != "" ==> r.RemoteAddr == old(line(r.Header, "X-Real-Ip")))
  ensures [neither] atcall(H, old(line(r.Header, "X-Forwarded-For")) == "" && old(line(r.Header, "X-Real-Ip")) == "" ==> r.RemoteAddr == old(r.RemoteAddr))
  ensures [headers] atcall(H, r.Header == old(r.Header) && forall(k, string(k), kept(r.Header, k)))
  onpanic [called-once] oneCall(h, w, r)
