package web
alias MATCH = "(github.com/zenazn/goji/web.Pattern).Match"
alias SERVE = "(github.com/zenazn/goji/web.Handler).ServeHTTPC"
alias RUN = "(github.com/zenazn/goji/web.Pattern).Run"

const global web.validMethodsMap

# The table that was compiled is the one there is (C09: when routes are not being
# added meanwhile).
atomic router.machine (rt, m)
  store [current] m == nil || m.routes == rt.routes && compiledAll(m.sm, m.routes)
  load m == nil || m.routes == rt.routes && compiledAll(m.sm, m.routes)

# Assumed of compile, for all tables (checked on bounded ones only).
func compile(rs) (sm)
  trusted
  ensures compiledAll(sm, rs)

# accepts says whether a pattern matches the request at hand.
fn accepts(Pattern, *http.Request, *C) bool

# declared is the prefix a pattern declares.
fn declared(Pattern) string

extern "(github.com/zenazn/goji/web.Pattern).Prefix"(p) (s)
  event
  pure
  ensures s == declared(p)

# (patterns are assumed to be side-effect free when they are examined)
extern "(github.com/zenazn/goji/web.Pattern).Match"(p, r, c) (ok)
  event
  pure
  ensures ok == accepts(p, r, c)

# (and to change nothing but URLParams when they are run: C04 proves that of the
# built-in ones)
extern "(github.com/zenazn/goji/web.Pattern).Run"(p, r, c)
  event
  modifies c.URLParams, mapof(c.URLParams)

stable web.route.pattern
stable web.route.handler
stable web.route.method
stable web.route.prefix

# The certificate of a compiled table, for a path: reaches says which instructions
# can be reached with it, cursor where in the path the interpreter is then, next
# which routes have been examined or cannot match (those below), and rank falls.
fn reaches(stateMachine, int, string) bool
fn cursor(stateMachine, int) int
fn next(stateMachine, int) int
fn rank(stateMachine, int) int
# (it does not matter what the cursor is there)
fn free(stateMachine, int) bool
# (a mark: the certificate is looked up at the instruction at hand only)
fn here(stateMachine, int) int

def has1(m, b) = m & b != 0
def width(m) = ite(m & smLengthMask == 0, 0, ite(m & smLengthMask == 1, 1, ite(m & smLengthMask == 2, 2, 3)))
def matched(sm, i, path) = cursor(sm, i) + width(sm[i].mode) <= len(path) && (width(sm[i].mode) < 1 || path[cursor(sm, i)] == sm[i].bs[0]) && (width(sm[i].mode) < 2 || path[cursor(sm, i) + 1] == sm[i].bs[1]) && (width(sm[i].mode) < 3 || path[cursor(sm, i) + 2] == sm[i].bs[2])
# none of these routes can match the path
def skips(rs, path, from, to) = forall(j, from <= j && j < to ==> !pfx(rs[j].prefix, path))
def edge(sm, rs, path, i, ok, from, t) = 0 <= t && t < len(sm) && rank(sm, t) < rank(sm, i) && (free(sm, t) || cursor(sm, t) == cursor(sm, i) + ite(ok, width(sm[i].mode), 0)) && from <= next(sm, t) && next(sm, t) <= len(rs) && (matched(sm, i, path) == ok ==> reaches(sm, t, path) && skips(rs, path, from, next(sm, t)))
def jump(sm, rs, path, i, ok) = ite(has1(sm[i].mode, smFail), matched(sm, i, path) == ok ==> skips(rs, path, next(sm, i), len(rs)), edge(sm, rs, path, i, ok, next(sm, i), sm[i].i))
def branch(sm, rs, path, i, ok) = ite(ok == has1(sm[i].mode, smJumpOnMatch), jump(sm, rs, path, i, ok), edge(sm, rs, path, i, ok, next(sm, i), i + 1))
def setcursor(sm, path, i) = i + 1 < len(sm) && 0 <= sm[i].i && sm[i].i <= len(path) && cursor(sm, i + 1) == sm[i].i && reaches(sm, i + 1, path) && next(sm, i + 1) == next(sm, i) && rank(sm, i + 1) < rank(sm, i)
def tryroute(sm, rs, path, i) = width(sm[i].mode) == 0 && 0 <= sm[i].i && sm[i].i < len(rs) && next(sm, i) <= sm[i].i && skips(rs, path, next(sm, i), sm[i].i) && edge(sm, rs, path, i, true, sm[i].i + 1, i + 1)
def isFree(sm, i) = has1(sm[i].mode, smSetCursor) || !has1(sm[i].mode, smRoute) && has1(sm[i].mode, smJumpOnMatch) && width(sm[i].mode) == 0 && (has1(sm[i].mode, smFail) || free(sm, sm[i].i))
def instr(sm, rs, path, i) = 0 <= rank(sm, i) && 0 <= next(sm, i) && next(sm, i) <= len(rs) && (free(sm, i) ==> isFree(sm, i)) && (reaches(sm, i, path) ==> ite(has1(sm[i].mode, smSetCursor), setcursor(sm, path, i), 0 <= cursor(sm, i) && cursor(sm, i) <= len(path) && ite(has1(sm[i].mode, smRoute), tryroute(sm, rs, path, i), (width(sm[i].mode) == 0 || branch(sm, rs, path, i, false)) && branch(sm, rs, path, i, true))))
def compiled(sm, rs, path) = ite(len(sm) == 0, len(rs) == 0, reaches(sm, 0, path) && cursor(sm, 0) == 0 && next(sm, 0) == 0 && forall(i, trigger(here(sm, i)), 0 <= i && i < len(sm) ==> here(sm, i) >= 0 && instr(sm, rs, path, i)))

def compiledAll(sm, rs) = forall((string)(path), trigger(reaches(sm, 0, path)), reaches(sm, 0, path) && compiled(sm, rs, path))

def plausible(rs, r, c) = forall(j, 0 <= j && j < len(rs) && accepts(rs[j].pattern, r, c) ==> pfx(rs[j].prefix, r.URL.Path))
def routes(rs, j, r, c, m) = accepts(rs[j].pattern, r, c) && rs[j].method & m != 0
def methodOf(s) = ite(has(validMethodsMap, s), validMethodsMap[s], mIDK)

# (no route that matches has that method)
def nobody(rs, n, r, c, b) = forall(j, 0 <= j && j < n && accepts(rs[j].pattern, r, c) ==> rs[j].method & b == 0)
def sound(rs, n, r, c, ms, b) = nobody(rs, n, r, c, b) ==> ms & b == 0
def allSound(rs, n, r, c, ms) = sound(rs, n, r, c, ms, mCONNECT) && sound(rs, n, r, c, ms, mDELETE) && sound(rs, n, r, c, ms, mGET) && sound(rs, n, r, c, ms, mHEAD) && sound(rs, n, r, c, ms, mOPTIONS) && sound(rs, n, r, c, ms, mPATCH) && sound(rs, n, r, c, ms, mPOST) && sound(rs, n, r, c, ms, mPUT) && sound(rs, n, r, c, ms, mTRACE) && sound(rs, n, r, c, ms, mALL)
def nomatch(rs, r, c) = forall(j, 0 <= j && j < len(rs) ==> !accepts(rs[j].pattern, r, c))
def complete(rs, n, r, c, ms) = forall(j, 0 <= j && j < n && accepts(rs[j].pattern, r, c) ==> rs[j].method & ms == rs[j].method)

func (routeMachine).route(rm, c, w, r) (ms, rt)
  prop C01, C05, C27
  modular
  quiet true
  modifies c.URLParams, mapof(c.URLParams)
  requires [given] r != nil && c != nil && r.URL != nil
  requires [patterns] forall(j, 0 <= j && j < len(rm.routes) ==> rm.routes[j].pattern != nil)
  requires [plausible] plausible(rm.routes, r, c)
  requires [compiled] compiled(rm.sm, rm.routes, r.URL.Path)
  inv (i int) 0 <= i && i < len(rm.sm)
  inv (i int) here(rm.sm, i) >= 0
  inv (i int) reaches(rm.sm, i, r.URL.Path)
  inv (i int, p string) free(rm.sm, i) || p == sub(r.URL.Path, cursor(rm.sm, i), len(r.URL.Path))
  inv (i int) forall(j, 0 <= j && j < next(rm.sm, i) ==> !routes(rm.routes, j, r, c, methodOf(r.Method)))
  inv (i int) n(MATCH) - old(n(MATCH)) <= next(rm.sm, i)
  inv (i int, ms *method) complete(rm.routes, next(rm.sm, i), r, c, *ms)
  inv (i int, ms *method) sound(rm.routes, len(rm.routes), r, c, *ms, mCONNECT)
  inv (i int, ms *method) sound(rm.routes, len(rm.routes), r, c, *ms, mDELETE)
  inv (i int, ms *method) sound(rm.routes, len(rm.routes), r, c, *ms, mGET)
  inv (i int, ms *method) sound(rm.routes, len(rm.routes), r, c, *ms, mHEAD)
  inv (i int, ms *method) sound(rm.routes, len(rm.routes), r, c, *ms, mOPTIONS)
  inv (i int, ms *method) sound(rm.routes, len(rm.routes), r, c, *ms, mPATCH)
  inv (i int, ms *method) sound(rm.routes, len(rm.routes), r, c, *ms, mPOST)
  inv (i int, ms *method) sound(rm.routes, len(rm.routes), r, c, *ms, mPUT)
  inv (i int, ms *method) sound(rm.routes, len(rm.routes), r, c, *ms, mTRACE)
  inv (i int, ms *method) sound(rm.routes, len(rm.routes), r, c, *ms, mALL)
  inv (ms *method) nomatch(rm.routes, r, c) ==> *ms == 0
  dec (i int) rank(rm.sm, i)
  ensures [member] rt != nil ==> exists(k, 0 <= k && k < len(rm.routes) && rt == &rm.routes[k])
  ensures [selected] rt != nil ==> accepts(rt.pattern, r, c) && rt.method & old(methodOf(r.Method)) != 0
  ensures [first] forall(k, 0 <= k && k < len(rm.routes) && rt == &rm.routes[k] ==> forall(j, 0 <= j && j < k ==> !routes(rm.routes, j, r, c, old(methodOf(r.Method)))))
  ensures [once] n(MATCH) - old(n(MATCH)) <= len(rm.routes) && n(RUN) - old(n(RUN)) == ite(rt == nil, 0, 1)
  ensures [methods] rt == nil ==> complete(rm.routes, len(rm.routes), r, c, ms) && allSound(rm.routes, len(rm.routes), r, c, ms) && (nomatch(rm.routes, r, c) ==> ms == 0)
  ensures [learned] rt == nil ==> forall((string)(s), has(validMethodsMap, s) ==> iff(ms & validMethodsMap[s] == 0, nobody(rm.routes, len(rm.routes), r, c, validMethodsMap[s])))
  ensures [nothing-else] c.Env == old(c.Env)
  ensures [unbound] rt == nil ==> c.URLParams == old(c.URLParams)
  ensures [none] rt == nil ==> forall(j, 0 <= j && j < len(rm.routes) ==> !routes(rm.routes, j, r, c, old(methodOf(r.Method))))

def wellformed(rs) = forall(j, 0 <= j && j < len(rs) ==> rs[j].pattern != nil && rs[j].prefix == declared(rs[j].pattern))
# (patterns match only paths that start with the prefix they declare)
def honest(p, r, c) = accepts(p, r, c) ==> pfx(declared(p), r.URL.Path)
def allHonest(rs, r, c) = forall(j, 0 <= j && j < len(rs) ==> honest(rs[j].pattern, r, c))
def isFirst(rs, k, r, c, m) = 0 <= k && k < len(rs) && routes(rs, k, r, c, m) && forall(j, 0 <= j && j < k ==> !routes(rs, j, r, c, m))
def noneOf(rs, r, c, m) = forall(j, 0 <= j && j < len(rs) ==> !routes(rs, j, r, c, m))
def same(a, b) = a.pattern == b.pattern && a.handler == b.handler && a.method == b.method && a.prefix == b.prefix
def apart(a, b) = !pfx(a, b) && !pfx(b, a)
# the new route is at i, and those after it can match no path it can
def insertedAt(new, o, i, p, m, h) = 0 <= i && i < len(new) && new[i].pattern == p && new[i].handler == h && new[i].method == m && forall(j, 0 <= j && j < i ==> same(new[j], o[j])) && forall(j, i <= j && j < len(o) ==> same(new[j+1], o[j]) && apart(o[j].prefix, declared(p)))

client zzRegister(rt, p, m, h, r, c, q)
  prop C01
  requires rt != nil && p != nil && r != nil && r.URL != nil && c != nil && wellformed(rt.routes) && allHonest(rt.routes, r, c) && honest(p, r, c)
  inv (i int) 0 <= i && i <= len(rt.routes)
  inv (i int) forall(j, i <= j && j < len(rt.routes) ==> apart(rt.routes[j].prefix, declared(p)))
  dec (i int) i
  ensures [one-more] len(rt.routes) == old(len(rt.routes)) + 1
  ensures [inserted] exists(i, insertedAt(rt.routes, old(rt.routes), i, p, m, h))
  ensures [wellformed] wellformed(rt.routes)
  ensures [kept] forall(k, isFirst(old(rt.routes), k, r, c, q) ==> isFirst(rt.routes, k, r, c, q) && same(rt.routes[k], old(rt.routes)[k]) || isFirst(rt.routes, k+1, r, c, q) && same(rt.routes[k+1], old(rt.routes)[k]))
  ensures [new] noneOf(old(rt.routes), r, c, q) && accepts(p, r, c) && m & q != 0 ==> forall(k, insertedAt(rt.routes, old(rt.routes), k, p, m, h) ==> isFirst(rt.routes, k, r, c, q) && rt.routes[k].handler == h)
  ensures [none] noneOf(old(rt.routes), r, c, q) && !(accepts(p, r, c) && m & q != 0) ==> noneOf(rt.routes, r, c, q)

# sort.Strings (assumed): the same strings, in order, as often as before.
def inList(l, s) = exists(i, 0 <= i && i < len(l) && l[i] == s)

extern "sort.Strings"(l)
  modifies elems(l)
  ensures forall(i, 0 <= i && i < len(l) ==> exists(k, 0 <= k && k < len(l) && l[i] == old(l[k])))
  ensures forall(k, 0 <= k && k < len(l) ==> exists(i, 0 <= i && i < len(l) && l[i] == old(l[k])))
  ensures forall(i, forall(j, 0 <= i && i < j && j < len(l) ==> l[i] <= l[j]))
  ensures forall(i, forall(j, 0 <= i && i < j && j < len(l) ==> old(l[i]) != old(l[j]))) ==> forall(i, forall(j, 0 <= i && i < j && j < len(l) ==> l[i] != l[j]))

def sameEnv(e, _o) = e == _o && forall((interface{})(k), iff(has(e, k), old(has(_o, k))) && e[k] == old(_o[k]))

def masked(rs) = forall(j, 0 <= j && j < len(rs) ==> rs[j].method & mALL != 0)
def ascending(l) = forall(i, forall(j, 0 <= i && i < j && j < len(l) ==> l[i] < l[j]))

# What getMatch finds.
client zzGetMatch(rt, c, w, r) (q)
  prop C05
  let rs = rt.routes
  let m = methodOf(r.Method)
  requires rt != nil && c != nil && r != nil && r.URL != nil && wellformed(rt.routes) && allHonest(rt.routes, r, c)
  inv (l []string, ms method) forall(i, 0 <= i && i < len(l) ==> visited(l[i]) && has(validMethodsMap, l[i]) && ms & validMethodsMap[l[i]] != 0)
  inv (l []string) forall(i, forall(j, 0 <= i && i < j && j < len(l) ==> l[i] != l[j]))
  ensures [first] forall(k, isFirst(rs, k, r, c, m) ==> q.Pattern == rs[k].pattern && q.Handler == rs[k].handler)
  ensures [not-found] noneOf(rs, r, c, m) ==> q.Pattern == nil && q.Handler == old(rt.notFound)
  ensures [silent] nomatch(rs, r, c) ==> sameEnv(c.Env, old(c.Env))
  ensures [selected] !noneOf(rs, r, c, m) ==> sameEnv(c.Env, old(c.Env))
  ensures [others] forall((interface{})(k), k != box(ValidMethodsKey) ==> iff(has(c.Env, k), old(has(c.Env, k))) && c.Env[k] == old(c.Env[k]))
  ensures [listed] noneOf(rs, r, c, m) && !nomatch(rs, r, c) && masked(rs) ==> has(c.Env, box(ValidMethodsKey)) && is(c.Env[box(ValidMethodsKey)], []string)
  ensures [ordered] noneOf(rs, r, c, m) && !nomatch(rs, r, c) && masked(rs) ==> ascending(as(c.Env[box(ValidMethodsKey)], []string))
  ensures [known] noneOf(rs, r, c, m) && !nomatch(rs, r, c) && masked(rs) ==> forall(i, 0 <= i && i < len(as(c.Env[box(ValidMethodsKey)], []string)) ==> has(validMethodsMap, as(c.Env[box(ValidMethodsKey)], []string)[i]) && !nobody(rs, len(rs), r, c, validMethodsMap[as(c.Env[box(ValidMethodsKey)], []string)[i]]))

# What handles a request.
client zzServe(rt, c, w, r)
  prop C01
  let rs = rt.routes
  let m = methodOf(r.Method)
  requires rt != nil && c != nil && r != nil && r.URL != nil && wellformed(rt.routes) && allHonest(rt.routes, r, c) && !has(c.Env, box(MatchKey)) && n(SERVE) == 0 && rt.notFound != nil && forall(j, 0 <= j && j < len(rs) ==> rs[j].handler != nil)
  ensures [one] n(SERVE) == 1
  ensures [first] forall(k, isFirst(rs, k, r, c, m) ==> arg(SERVE, 0, 0, Handler) == rs[k].handler)
  ensures [not-found] noneOf(rs, r, c, m) ==> arg(SERVE, 0, 0, Handler) == old(rt.notFound)
