package middleware
alias ERR = "net/http.Error"
alias LOG = "log"

def envID(c) = ite(c.Env != nil && has(c.Env, RequestIDKey) && is(c.Env[RequestIDKey], string), as(c.Env[RequestIDKey], string), "")

# The handler of the client may do anything to the response itself; what is
# counted here is what Recoverer does.
client zzRecoverer(c, h, w, r) (done)
  prop C16
  panics
  requires c != nil && h != nil && w != nil && r != nil
  ensures [called-once] n(H) == old(n(H)) + 1 && called(H, old(n(H)), h, w, r)
  ensures [quiet] done ==> n(LOG) == old(n(LOG)) && n(ERR) == old(n(ERR)) && n(WH) == old(n(WH)) && n(WB) == old(n(WB))
  ensures [logged] !done ==> n(LOG) == old(n(LOG)) + 1 && time(LOG, old(n(LOG))) > time(H, old(n(H)))
  ensures [request-id] !done && old(envID(c)) != "" ==> haspart(arg(LOG, old(n(LOG)), 0, string), old(envID(c)))
  ensures [status] !done ==> (n(ERR) == old(n(ERR)) + 1 && called(ERR, old(n(ERR)), w, _, 500) && n(WH) == old(n(WH))) || (n(ERR) == old(n(ERR)) && n(WH) == old(n(WH)) + 1 && called(WH, old(n(WH)), w, 500))
  onpanic [no-panic-escapes] false
