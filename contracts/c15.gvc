package middleware

fn qhas(string, string) bool
fn qlen(string, string) int
fn qval(string, string, int) string

# The parsed query is a function of the raw query (contents of the map and of
# its slices).
def parsed(m, raw) = m != nil && forall(k, string(k), has(m, k) == qhas(raw, k) && (has(m, k) ==> len(m[k]) == qlen(raw, k) && forall(i, 0 <= i && i < len(m[k]) ==> m[k][i] == qval(raw, k, i))))

extern "(*net/url.URL).Query"(u) (m)
  ensures fresh(m) && parsed(m, u.RawQuery)

extern "net/url.ParseQuery"(raw) (m, err)
  ensures fresh(m) && parsed(m, raw)

def envHas(c, k) = c.Env != nil && has(c.Env, k)
def others(c, key) = forall(k, Any(k), k != box(key) ==> atcall(H, envHas(c, k)) == old(envHas(c, k)) && (old(envHas(c, k)) ==> atcall(H, c.Env[k]) == old(c.Env[k])))
def once(h, w, r) = n(H) == old(n(H)) + 1 && called(H, old(n(H)), h, w, r)

client zzEnvInit(c, h, w, r)
  prop C15
  panics
  requires c != nil && h != nil && r != nil
  ensures [called-once] once(h, w, r)
  ensures [env] atcall(H, c.Env != nil)
  ensures [others] others(c, 0) && atcall(H, envHas(c, box(0))) == old(envHas(c, box(0))) && (old(envHas(c, box(0))) ==> atcall(H, c.Env[box(0)]) == old(c.Env[box(0)]))
  ensures [params] atcall(H, c.URLParams) == old(c.URLParams)
  onpanic [called-once] once(h, w, r)

client zzURLQuery(c, h, w, r)
  prop C15
  panics
  requires c != nil && h != nil && r != nil && r.URL != nil
  ensures [called-once] once(h, w, r)
  ensures [entry] atcall(H, envHas(c, URLQueryKey) && is(c.Env[URLQueryKey], url.Values) && parsed(as(c.Env[URLQueryKey], url.Values), old(r.URL.RawQuery)))
  ensures [others] others(c, URLQueryKey)
  ensures [params] atcall(H, c.URLParams) == old(c.URLParams)
  ensures [request] atcall(H, r.URL == old(r.URL) && r.URL.RawQuery == old(r.URL.RawQuery))
  onpanic [called-once] once(h, w, r)

client zzRequestID(c, h, w, r)
  prop C15
  panics
  requires c != nil && h != nil && r != nil
  ensures [called-once] once(h, w, r)
  ensures [entry] atcall(H, envHas(c, RequestIDKey) && is(c.Env[RequestIDKey], string) && len(as(c.Env[RequestIDKey], string)) > 0)
  ensures [others] others(c, RequestIDKey)
  ensures [params] atcall(H, c.URLParams) == old(c.URLParams)
  onpanic [called-once] once(h, w, r)

client zzTwoIDs(c1, c2, h, w, r) (id1, id2)
  prop C15
  requires c1 != nil && c2 != nil && h != nil && r != nil
  ensures [unique] id1 != id2

client zzGetReqID(c) (id)
  prop C15
  ensures [stored] c.Env != nil && has(c.Env, RequestIDKey) && is(c.Env[RequestIDKey], string) ==> id == as(c.Env[RequestIDKey], string)
  ensures [none] !(c.Env != nil && has(c.Env, RequestIDKey) && is(c.Env[RequestIDKey], string)) ==> id == ""
