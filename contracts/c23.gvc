package listener
# C19 and C20 cover these
func MarkIdle(c) (err)
  trusted
  event

func Disown(c) (err)
  trusted
  event

package graceful
alias SERVE = "(*net/http.Server).Serve"
alias IDLE = "github.com/zenazn/goji/graceful/listener.MarkIdle"
alias DISOWN = "github.com/zenazn/goji/graceful/listener.Disown"
alias CB = "func:(net.Conn,net/http.ConnState)()"
alias LCLOSE = "(net.Listener).Close"
alias KEEP = "(*net/http.Server).SetKeepAlivesEnabled"
alias LOAD = "atomic.load:gaddr:graceful.closing"
alias MARK = "github.com/zenazn/goji/graceful.zzMark"

fn errText(error) string

extern "(error).Error"(e) (s)
  pure
  ensures s == errText(e)

client zzMark()
  trusted
  event

client zzShadow() (s)
  trusted
  pure
  ensures s == arg(SERVE, n(SERVE)-1, 0, *http.Server)

client zzAcceptFrom() (l)
  trusted
  pure
  ensures l == arg(SERVE, n(SERVE)-1, 1, net.Listener)

extern "(*net/http.Server).SetKeepAlivesEnabled"(s, on)
  event

extern "(net.Listener).Close"(l) (err)
  event

# the only reason for which serving ended is that the listener was closed, or
# is draining
def gone(e) = e != nil && errText(e) == "use of closed network connection"
def peaceful(e) = gone(e) || is(e, *net.OpError) && as(e, *net.OpError).Op == "accept" && gone(as(e, *net.OpError).Err)
# (what older versions of package net report on Windows)
def windows(e) = is(e, *net.OpError) && as(e, *net.OpError).Op == "AcceptEx"
def served() = res(SERVE, n(SERVE)-1, 0, error)

extern "(*net/http.Server).Serve"(s, l) (err)
  event
  ensures is(err, *net.OpError) ==> as(err, *net.OpError) != nil && (as(err, *net.OpError).Op == "accept" || as(err, *net.OpError).Op == "AcceptEx" ==> as(err, *net.OpError).Err != nil)

extern "runtime.NumCPU"() (n)
  ensures n >= 1

def sameServer(a, b) = a.Addr == b.Addr && a.Handler == b.Handler && a.DisableGeneralOptionsHandler == b.DisableGeneralOptionsHandler && a.TLSConfig == b.TLSConfig && a.ReadTimeout == b.ReadTimeout && a.ReadHeaderTimeout == b.ReadHeaderTimeout && a.WriteTimeout == b.WriteTimeout && a.IdleTimeout == b.IdleTimeout && a.MaxHeaderBytes == b.MaxHeaderBytes && a.TLSNextProto == b.TLSNextProto && a.ErrorLog == b.ErrorLog && a.BaseContext == b.BaseContext && a.ConnContext == b.ConnContext
def keeps(srv) = sameServer(srv, old(*srv)) && srv.ConnState == old(srv.ConnState)

client zzServe(srv, l) (err)
  prop C23
  requires srv != nil && l != nil && n(SERVE) == 0
  ensures [served-once] n(SERVE) == 1
  ensures [untouched-before] atcall(SERVE, keeps(srv))
  ensures [untouched-after] keeps(srv)
  ensures [own-copy] fresh(arg(SERVE, 0, 0, *http.Server))
  ensures [callers-settings] atcall(SERVE, sameServer(arg(SERVE, 0, 0, *http.Server), srv))
  ensures [after-the-end] n(LOAD) > 0 ==> time(LOAD, n(LOAD)-1) > time(SERVE, 0)
  ensures [no-error] closing != 0 && peaceful(served()) ==> err == nil
  ensures [before-shutdown] closing == 0 ==> err == served()
  ensures [other-errors] !peaceful(served()) && !windows(served()) ==> err == served()

client zzState(srv, l, nc, s)
  prop C23
  nosafety
  requires srv != nil && l != nil && nc != nil && n(SERVE) == 0
  ensures [idle] s == 2 ==> n(IDLE) == atcall(MARK, n(IDLE)) + 1 && called(IDLE, n(IDLE)-1, nc)
  ensures [only-idle] s != 2 ==> n(IDLE) == atcall(MARK, n(IDLE))
  ensures [hijacked] s == 3 ==> n(DISOWN) == atcall(MARK, n(DISOWN)) + 1 && called(DISOWN, n(DISOWN)-1, nc)
  ensures [only-hijacked] s != 3 ==> n(DISOWN) == atcall(MARK, n(DISOWN))
  ensures [callback] old(srv.ConnState) != nil ==> n(CB) == atcall(MARK, n(CB)) + 1 && called(CB, n(CB)-1, old(srv.ConnState), nc, s)
  ensures [no-callback] old(srv.ConnState) == nil ==> n(CB) == atcall(MARK, n(CB))

client zzClose(srv, l) (err)
  prop C23
  nosafety
  requires srv != nil && l != nil && n(SERVE) == 0
  ensures [listener-closed] n(LCLOSE) == atcall(MARK, n(LCLOSE)) + 1 && called(LCLOSE, n(LCLOSE)-1, l) && err == res(LCLOSE, n(LCLOSE)-1, 0, error)
  ensures [keep-alives] n(KEEP) == atcall(MARK, n(KEEP)) + 1 && called(KEEP, n(KEEP)-1, arg(SERVE, 0, 0, *http.Server), false)
  ensures [first] time(KEEP, n(KEEP)-1) < time(LCLOSE, n(LCLOSE)-1)
