package middleware

def star(c) = c.URLParams != nil && has(c.URLParams, "*")
def under(c) = c.URLParams != nil && has(c.URLParams, "_")
def bound(c) = star(c) || under(c)
def sub(c) = ite(star(c), c.URLParams["*"], c.URLParams["_"])
def explicit(c) = c.Env != nil && has(c.Env, web.MatchKey) && is(c.Env[web.MatchKey], web.Match) && as(c.Env[web.MatchKey], web.Match).Handler != nil
def sameMatch(c) = ite(old(explicit(c)), has(c.Env, web.MatchKey) && c.Env[web.MatchKey] == old(c.Env[web.MatchKey]), !explicit(c))

client zzSubRouter(c, h, w, r)
  prop C12
  panics
  requires c != nil && h != nil && r != nil && r.URL != nil
  userrely r.URL != nil
  ensures [called-once] n(H) == old(n(H)) + 1 && called(H, old(n(H)), h, w, r)
  ensures [inner-path] old(bound(c)) ==> atcall(H, r.URL.Path) == old(sub(c))
  ensures [inner-no-match] old(bound(c)) ==> atcall(H, !explicit(c))
  ensures [inner-other-env] forall(k, Any(k), k != box(web.MatchKey) ==> atcall(H, c.Env != nil && has(c.Env, k)) == old(c.Env != nil && has(c.Env, k)) && (old(c.Env != nil && has(c.Env, k)) ==> atcall(H, c.Env[k]) == old(c.Env[k])))
  ensures [inner-unchanged] !old(bound(c)) ==> atcall(H, r.URL.Path) == old(r.URL.Path) && atcall(H, explicit(c)) == old(explicit(c))
  ensures [path-restored] old(bound(c)) ==> r.URL.Path == old(r.URL.Path)
  ensures [match-restored] old(bound(c)) && c.Env != nil ==> sameMatch(c)
  onpanic [called-once] n(H) == old(n(H)) + 1 && called(H, old(n(H)), h, w, r)
  onpanic [path-restored] old(bound(c)) ==> r.URL.Path == old(r.URL.Path)
  onpanic [match-restored] old(bound(c)) && c.Env != nil ==> sameMatch(c)
