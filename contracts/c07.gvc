package web
alias ROUTE = "github.com/zenazn/goji/web.(*router).route"
alias FC = "func:(*web.C,net/http.Handler)(net/http.Handler)"
alias GET = "(*sync.Pool).Get"
alias PUT = "(*sync.Pool).Put"

# Middleware does not change the stack while requests are served (documented),
# and the bookkeeping of a stack instance belongs to the package.
private web.mStack.stack, web.mStack.router, web.mLayer.fn, web.mLayer.orig, web.cStack.m, web.cStack.pool

extern "log.Fatalf"(f, v)
  event
  fatal

# A pool hands out values that were put into it, each to one caller, or nil;
# what is put into a pool of stacks is checked below.
extern "(*sync.Pool).Get"(p) (x)
  event
  ensures x != nil ==> is(x, *cStack) && as(x, *cStack) != nil && as(x, *cStack).m != nil

extern "(*sync.Pool).Put"(p, x)
  event
  requires [stack] is(x, *cStack) && as(x, *cStack) != nil && as(x, *cStack).m != nil
  requires [clean] as(x, *cStack).C.Env == nil && as(x, *cStack).C.URLParams == nil

# middleware returns a handler
extern "func:(*web.C,net/http.Handler)(net/http.Handler)"(f, c, h) (g)
  event
  havoc
  ensures g != nil

func (*router).route(rt, c, w, r)
  trusted
  event
  havoc

fn sameMiddleware(Any, Any) bool

func funcEqual(a, b) (eq)
  trusted
  ensures eq == sameMiddleware(a, b)

def hit() = res(GET, 0, 0) != nil
def got() = as(res(GET, 0, 0), *cStack)
def putx() = as(arg(PUT, 0, 1), *cStack)
def start(x, viaC, c) = ite(viaC, x.Env == c.Env && x.URLParams == c.URLParams, x.Env == nil && x.URLParams == nil)

# the stack that was put back is the one this request used, and belongs to the
# configuration the request started with
def putBack(m) = n(PUT) <= 1 && (n(PUT) == 1 ==> arg(PUT, 0, 0) == old(m.ms.pool) && putx().m != nil &&
  (hit() ==> putx() == got()) && (!hit() ==> fresh(putx()) && (n(FC) > 0 ==> arg(FC, 0, 1, *C) == &putx().C && putx().m == res(FC, n(FC)-1, 0, http.Handler))))
# ... and is not touched any more
def left() = n(PUT) == 1 ==> (n(H) > 0 ==> time(PUT, 0) > time(H, 0)) && (n(ROUTE) > 0 ==> time(PUT, 0) > time(ROUTE, 0)) && putx().m == atcall(PUT, putx().m) && putx().pool == atcall(PUT, putx().pool) && putx().C.Env == nil && putx().C.URLParams == nil

client zzServe(m, viaC, c, w, r)
  prop C07
  panics
  nosafety
  requires m != nil && w != nil && r != nil && m.ms.router == box(&m.rt) && m.ms.pool != nil
  requires n(FC) == 0 && n(ROUTE) == 0 && n(H) == 0 && n(GET) == 0 && n(PUT) == 0 && forall(i, 0 <= i && i < len(m.ms.stack) ==> m.ms.stack[i].fn != nil)
  ensures [pool] n(GET) == 1 && arg(GET, 0, 0) == old(m.ms.pool)
  ensures [one-request] n(H) + n(ROUTE) == 1
  ensures [prebuilt] hit() ==> n(FC) == 0 && n(H) == 1 && called(H, 0, got().m, w, r)
  ensures [prebuilt-context] hit() ==> atcall(H, start(got().C, viaC, c))
  ensures [built-context] !hit() && n(FC) > 0 && n(H) > 0 ==> atcall(H, start(*arg(FC, 0, 1, *C), viaC, c))
  ensures [router-context] n(ROUTE) > 0 ==> atcall(ROUTE, start(*arg(ROUTE, 0, 1, *C), viaC, c))
  ensures [shared-context] forall(j, 0 <= j && j < n(FC) ==> arg(FC, j, 1, *C) == arg(FC, 0, 1, *C)) && (n(ROUTE) > 0 && n(FC) > 0 ==> arg(ROUTE, 0, 1, *C) == arg(FC, 0, 1, *C))
  ensures [put-back] putBack(m)
  ensures [left] left()
  onpanic [put-back] putBack(m)
  onpanic [left] left()
  inv (cs *cStack) n(FC) == 0 ==> cs.m == pre(cs.m)
  inv (cs *cStack) n(FC) > 0 ==> cs.m == res(FC, n(FC)-1, 0, http.Handler)
  inv (cs *cStack) n(FC) > 0 ==> arg(FC, 0, 2, http.Handler) == pre(cs.m)
  inv (h http.Handler) n(FC) == 0 ==> h == pre(h)
  inv (h http.Handler) n(FC) > 0 ==> h == res(FC, n(FC)-1, 0, http.Handler)
  inv (h http.Handler) n(FC) > 0 ==> arg(FC, 0, 2, http.Handler) == pre(h)
  inv forall(j, 1 <= j && j < n(FC) ==> arg(FC, j, 2, http.Handler) == res(FC, j-1, 0, http.Handler))

# a changed configuration has an empty pool of its own
def ownPool(m) = fresh(m.ms.pool) && m.ms.pool != nil && m.ms.pool.New == nil && n(PUT) == old(n(PUT))

client zzNew() (m)
  prop C07
  ensures [empty-pool] m != nil && ownPool(m)

client zzUse(m, mw)
  prop C07
  requires m != nil
  ensures [empty-pool] ownPool(m)

client zzInsert(m, mw, before) (err)
  prop C07
  requires m != nil
  ensures [empty-pool] err == nil ==> ownPool(m)

client zzAbandon(m, mw) (err)
  prop C07
  requires m != nil
  ensures [empty-pool] err == nil ==> ownPool(m)
