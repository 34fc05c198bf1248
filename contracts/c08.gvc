package web
alias HC = "(github.com/zenazn/goji/web.Handler).ServeHTTPC"
alias ROUTE = "github.com/zenazn/goji/web.(*router).getMatch"
alias MATCH = "(github.com/zenazn/goji/web.Pattern).Match"
alias RUN = "(github.com/zenazn/goji/web.Pattern).Run"
alias FATAL = "log.Fatalf"

extern "log.Fatalf"(f, v)
  event
  fatal

# Routing (C01 and C05 say what it yields); it changes no environment entry but
# the list of valid methods (C05).
func (*router).getMatch(rt, c, w, r) (m)
  trusted
  event
  havoc
  ensures m.Handler != nil
  ensures old(c.Env) != nil ==> c.Env == old(c.Env)
  ensures forall(k, Any(k), k != box(ValidMethodsKey) ==> (c.Env != nil && has(c.Env, k)) == old(c.Env != nil && has(c.Env, k)) && (old(c.Env != nil && has(c.Env, k)) ==> c.Env[k] == old(c.Env[k])))

def stored(c) = c.Env != nil && has(c.Env, MatchKey) && is(c.Env[MatchKey], Match)
def explicit(c) = stored(c) && as(c.Env[MatchKey], Match).Handler != nil

# a new Mux ends its stack with its own router
client zzNew() (m)
  prop C08
  ensures [router] m.ms.router == box(&m.rt) && m.rt.notFound != nil

client zzEnd(m, c, w, r)
  prop C08
  panics
  requires m != nil && c != nil && w != nil && r != nil && m.ms.router == box(&m.rt)
  ensures [handler-once] n(HC) == old(n(HC)) + 1
  ensures [explicit] old(explicit(c)) ==> n(ROUTE) == old(n(ROUTE)) && n(MATCH) == old(n(MATCH)) && n(RUN) == old(n(RUN))
  ensures [explicit-handler] old(explicit(c)) ==> called(HC, n(HC)-1, old(as(c.Env[MatchKey], Match).Handler), _, w, r)
  ensures [explicit-context] old(explicit(c)) ==> arg(HC, n(HC)-1, 1, C).Env == old(c.Env) && arg(HC, n(HC)-1, 1, C).URLParams == old(c.URLParams)
  ensures [routed] !old(explicit(c)) ==> n(ROUTE) == old(n(ROUTE)) + 1 && called(ROUTE, n(ROUTE)-1, &m.rt, c, w, r)
  ensures [routed-handler] !old(explicit(c)) ==> called(HC, n(HC)-1, res(ROUTE, n(ROUTE)-1, 0, Match).Handler, _, w, r)
  ensures [routed-context] !old(explicit(c)) ==> arg(HC, n(HC)-1, 1, C).Env == atcall(HC, c.Env) && arg(HC, n(HC)-1, 1, C).URLParams == atcall(HC, c.URLParams)

client zzRouter(m, c, h, w, r)
  prop C08
  panics
  requires m != nil && c != nil && h != nil && w != nil && r != nil
  ensures [routed-once] n(ROUTE) == old(n(ROUTE)) + 1 && called(ROUTE, n(ROUTE)-1, &m.rt, c, w, r)
  ensures [next-once] n(H) == old(n(H)) + 1 && called(H, n(H)-1, h, w, r) && n(HC) == old(n(HC))
  ensures [stored] atcall(H, c.Env != nil && has(c.Env, MatchKey) && is(c.Env[MatchKey], Match))
  ensures [stored-match] atcall(H, as(c.Env[MatchKey], Match)) == res(ROUTE, n(ROUTE)-1, 0, Match)
  ensures [other-entries] forall(k, Any(k), k != box(MatchKey) && k != box(ValidMethodsKey) ==> atcall(H, has(c.Env, k)) == old(c.Env != nil && has(c.Env, k)) && (old(c.Env != nil && has(c.Env, k)) ==> atcall(H, c.Env[k]) == old(c.Env[k])))

client zzGetMatch(c) (m)
  prop C08
  ensures [stored] stored(c) ==> m == as(c.Env[MatchKey], Match)
  ensures [none] !stored(c) ==> m.Handler == nil && m.Pattern == nil

client zzRawPattern(raw) (p)
  prop C08
  nosafety
  requires raw != nil && !is(raw, stringPattern) && !is(raw, regexpPattern) && (is(raw, *regexp.Regexp) ==> as(raw, *regexp.Regexp) != nil)
  ensures [raw] p == raw

client zzRawHandler(h) (p)
  prop C08
  requires h != nil && !is(h, netHTTPHandlerWrap) && !is(h, netHTTPHandlerFuncWrap) && !is(h, handlerFuncWrap)
  ensures [raw] p == h

client zzRawEmpty() (p, h)
  prop C08
  ensures [empty] p == nil && h == nil
