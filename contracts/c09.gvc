package web
alias ROUTE = "github.com/zenazn/goji/web.(routeMachine).route"
alias MARK = "github.com/zenazn/goji/web.zzMark09"
alias LOCK = "lock:fld:web.router.lock"
alias UNLOCK = "unlock:fld:web.router.lock"

const global web.validMethodsMap

extern "(github.com/zenazn/goji/web.Pattern).Prefix"(p) (s)
  event
  pure

# sm was compiled from the routes rs
fn compiled(stateMachine, []route) bool

def sameRoute(a, b) = a.pattern == b.pattern && a.handler == b.handler && a.method == b.method && a.prefix == b.prefix
# every route of b is in a
def covers(a, b) = forall(i, 0 <= i && i < len(b) ==> exists(j, 0 <= j && j < len(a) && sameRoute(a[j], b[i])))
# (in one section at most one route is added)
def grown(a, b) = forall(i, 0 <= i && i < len(b) ==> i < len(a) && sameRoute(a[i], b[i]) || i + 1 < len(a) && sameRoute(a[i+1], b[i]))
def contains(a, p, m, h) = exists(j, 0 <= j && j < len(a) && a[j].pattern == p && a[j].handler == h && a[j].method == m)
# a table was not written to
def intact(s) = forall(i, 0 <= i && i < len(s) ==> s[i].pattern == old(s[i].pattern) && s[i].handler == old(s[i].handler) && s[i].method == old(s[i].method) && s[i].prefix == old(s[i].prefix))
def intactCode(s) = forall(i, 0 <= i && i < len(s) ==> s[i] == old(s[i]))

monitor router.lock (rt)
  protects routes, machine
  inv [table] rt.machine == nil || rt.machine.routes == rt.routes && compiled(rt.machine.sm, rt.machine.routes)
  rely [grows] covers(rt.routes, old(rt.routes))
  guarantee [grows] grown(rt.routes, old(rt.routes))
  guarantee [in-place] intact(old(rt.routes))
  guarantee [published] old(rt.machine) != nil ==> old(rt.machine).routes == old(rt.machine.routes) && old(rt.machine).sm == old(rt.machine.sm) && intactCode(old(rt.machine.sm))

# What requests may find: nothing, or a table with every route whose
# registration had returned.
atomic router.machine (rt, m)
  store [current] m == nil || grown(m.routes, atlock("fld:web.router.lock", rt.routes)) && compiled(m.sm, m.routes)
  load m == nil || covers(m.routes, rt.routes) && compiled(m.sm, m.routes)

func compile(rs) (sm)
  trusted
  event
  ensures compiled(sm, rs)

func (routeMachine).route(rm, c, w, r) (ms, rt)
  trusted
  event
  havoc

func zzMark09()
  trusted
  event

client zzAdd(rt, p, m, h)
  prop C09
  requires rt != nil && p != nil && n(LOCK) == 0 && n(UNLOCK) == 0
  ensures [locked] n(LOCK) >= 1
  ensures [in-place] atunlock("fld:web.router.lock", contains(rt.routes, p, m, h))

client zzRequest(rt, c, w, r) (m)
  prop C09
  requires rt != nil && c != nil && r != nil && n(ROUTE) == 0
  ensures [one-table] n(ROUTE) == 1 && compiled(arg(ROUTE, 0, 0, routeMachine).sm, arg(ROUTE, 0, 0, routeMachine).routes)
  ensures [complete] atcall(ROUTE, covers(arg(ROUTE, 0, 0, routeMachine).routes, old(rt.routes)))

client zzAddThenRequest(rt, p, m, h, c, w, r) (q)
  prop C09
  requires rt != nil && p != nil && c != nil && r != nil && n(ROUTE) == 0 && n(MARK) == 0
  ensures [added] n(MARK) == 1 && atcall(MARK, contains(rt.routes, p, m, h))
  ensures [one-table] n(ROUTE) == 1 && atcall(ROUTE, covers(arg(ROUTE, 0, 0, routeMachine).routes, atcall(MARK, rt.routes)))
  ensures [in-place] n(ROUTE) == 1 && atcall(ROUTE, contains(arg(ROUTE, 0, 0, routeMachine).routes, p, m, h))
