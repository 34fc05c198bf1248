package web
alias ROUTE = "github.com/zenazn/goji/web.(*router).route"
alias FC = "func:(*web.C,net/http.Handler)(net/http.Handler)"
alias FH = "func:(net/http.Handler)(net/http.Handler)"
alias GET = "(*sync.Pool).Get"
alias PUT = "(*sync.Pool).Put"
alias MARK = "github.com/zenazn/goji/web.zzMark"
alias MARK2 = "github.com/zenazn/goji/web.zzMark2"
alias FATAL = "log.Fatalf"

# Middleware does not change the stack while it runs (documented), and a stack
# instance belongs to the package.
private web.mStack.stack, web.mStack.router, web.mLayer.fn, web.mLayer.orig, web.cStack.m

extern "log.Fatalf"(f, v)
  event
  fatal

client zzMark()
  trusted
  event

client zzMark2()
  trusted
  event

# C07 covers prebuilt stacks
extern "(*sync.Pool).Get"(p) (x)
  event
  ensures x == nil

extern "(*sync.Pool).Put"(p, x)
  event

# middleware returns a handler
extern "func:(*web.C,net/http.Handler)(net/http.Handler)"(f, c, h) (g)
  event
  havoc
  ensures g != nil

extern "func:(net/http.Handler)(net/http.Handler)"(f, h) (g)
  event
  havoc
  ensures g != nil

func (*router).route(rt, c, w, r)
  trusted
  event
  havoc

# whether two values are the same middleware
fn sameMiddleware(Any, Any) bool

func funcEqual(a, b) (eq)
  trusted
  ensures eq == sameMiddleware(a, b)

client zzLayers() (ok)
  trusted
  pure
  ensures ok == (n(FC) > 0)

client zzInner() (h)
  trusted
  pure
  ensures h == arg(FC, 0, 2, http.Handler)

def outer() = res(FC, n(FC)-1, 0, http.Handler)
def inner() = arg(FC, 0, 2, http.Handler)

client zzServe(m, viaC, c, w, r)
  prop C06
  nosafety
  requires m != nil && w != nil && r != nil && m.ms.router == box(&m.rt) && m.ms.pool != nil
  requires n(FC) == 0 && n(ROUTE) == 0 && n(H) == 0 && forall(i, 0 <= i && i < len(m.ms.stack) ==> m.ms.stack[i].fn != nil)
  ensures [every-layer-built] n(FC) == old(len(m.ms.stack))
  ensures [innermost-first] forall(j, 0 <= j && j < n(FC) ==> arg(FC, j, 0) == old(m.ms.stack[len(m.ms.stack)-1-j].fn))
  ensures [one-context] forall(j, 0 <= j && j < n(FC) ==> arg(FC, j, 1, *C) == arg(FC, 0, 1, *C))
  ensures [each-wraps-the-next] forall(j, 1 <= j && j < n(FC) ==> arg(FC, j, 2, http.Handler) == res(FC, j-1, 0, http.Handler))
  ensures [no-layers] n(FC) == 0 ==> n(H) == 0 && n(ROUTE) == 1 && called(ROUTE, 0, &m.rt, _, w, r)
  ensures [outermost-called] n(FC) > 0 && outer() != inner() ==> atcall(MARK2, n(H) == 1 && called(H, 0, outer(), w, r) && n(ROUTE) == 0)
  ensures [outermost-is-innermost] n(FC) > 0 && outer() == inner() ==> atcall(MARK2, n(H) == 0 && n(ROUTE) == 1 && called(ROUTE, 0, &m.rt, arg(FC, 0, 1, *C), w, r))
  ensures [then-the-router] n(FC) > 0 ==> n(ROUTE) == atcall(MARK2, n(ROUTE)) + 1 && called(ROUTE, n(ROUTE)-1, &m.rt, arg(FC, 0, 1, *C), w, r)
  inv (cs *cStack) n(FC) == 0 ==> cs.m == pre(cs.m)
  inv (cs *cStack) n(FC) > 0 ==> cs.m == res(FC, n(FC)-1, 0, http.Handler)
  inv (cs *cStack) n(FC) > 0 ==> arg(FC, 0, 2, http.Handler) == pre(cs.m)
  inv (h http.Handler) n(FC) == 0 ==> h == pre(h)
  inv (h http.Handler) n(FC) > 0 ==> h == res(FC, n(FC)-1, 0, http.Handler)
  inv (h http.Handler) n(FC) > 0 ==> arg(FC, 0, 2, http.Handler) == pre(h)
  inv forall(j, 1 <= j && j < n(FC) ==> arg(FC, j, 2, http.Handler) == res(FC, j-1, 0, http.Handler))

client zzLayerFn(m) (f)
  trusted
  pure
  ensures f == m.ms.stack[len(m.ms.stack)-1].fn

def ctxual(mw) = is(mw, zzMC)
def plain(mw) = is(mw, zzMH)
# layer i is the middleware mw
def layer(l, mw) = l.orig == mw && (ctxual(mw) ==> l.fn == as(mw, zzMC))

client zzUse(m, mw, c, h) (g)
  prop C06
  requires m != nil && mw != nil && (ctxual(mw) ==> as(mw, zzMC) != nil) && (plain(mw) ==> as(mw, zzMH) != nil)
  ensures [appended] atcall(MARK, len(m.ms.stack) == old(len(m.ms.stack)) + 1 && layer(m.ms.stack[old(len(m.ms.stack))], mw))
  ensures [others-kept] atcall(MARK, forall(i, 0 <= i && i < old(len(m.ms.stack)) ==> m.ms.stack[i] == old(m.ms.stack[i])))
  ensures [documented] ctxual(mw) || plain(mw)
  ensures [with-context] ctxual(mw) ==> n(FC) == atcall(MARK, n(FC)) + 1 && called(FC, n(FC)-1, as(mw, zzMC), c, h) && n(FH) == atcall(MARK, n(FH)) && g == res(FC, n(FC)-1, 0, http.Handler)
  ensures [without-context] plain(mw) ==> n(FH) == atcall(MARK, n(FH)) + 1 && called(FH, n(FH)-1, as(mw, zzMH), h) && n(FC) == atcall(MARK, n(FC)) && g == res(FH, n(FH)-1, 0, http.Handler)
  onfatal [undocumented] !ctxual(mw) && !plain(mw)
  onfatal [unchanged] len(m.ms.stack) == old(len(m.ms.stack))

def named(m, i, mw) = 0 <= i && i < len(m.ms.stack) && sameMiddleware(mw, m.ms.stack[i].orig)
def unchanged(m) = len(m.ms.stack) == old(len(m.ms.stack)) && forall(i, 0 <= i && i < len(m.ms.stack) ==> m.ms.stack[i] == old(m.ms.stack[i]))

# (a definition: the index of the first layer that is mw, or -1)
client zzFirst(m, mw) (i)
  trusted
  pure
  ensures -1 <= i && i < len(m.ms.stack) && (i >= 0 ==> named(m, i, mw)) && forall(j, 0 <= j && j < ite(i < 0, len(m.ms.stack), i) ==> !named(m, j, mw))

client zzInsert(m, mw, before) (err, i)
  prop C06
  requires m != nil && mw != nil
  ensures [found] iff(err == nil, i >= 0)
  ensures [unchanged] err != nil ==> unchanged(m) && m.ms.pool == old(m.ms.pool)
  ensures [one-more] err == nil ==> len(m.ms.stack) == old(len(m.ms.stack)) + 1
  ensures [inserted] err == nil ==> layer(m.ms.stack[i], mw)
  ensures [before-kept] err == nil ==> forall(j, 0 <= j && j < i ==> m.ms.stack[j] == old(m.ms.stack[j]))
  ensures [after-kept] err == nil ==> forall(j, i < j && j < len(m.ms.stack) ==> m.ms.stack[j] == old(m.ms.stack[j-1]))
  onfatal [undocumented] !ctxual(mw) && !plain(mw)

client zzAbandon(m, mw) (err, i)
  prop C06
  requires m != nil
  ensures [found] iff(err == nil, i >= 0)
  ensures [unchanged] err != nil ==> unchanged(m) && m.ms.pool == old(m.ms.pool)
  ensures [one-less] err == nil ==> len(m.ms.stack) == old(len(m.ms.stack)) - 1
  ensures [before-kept] err == nil ==> forall(j, 0 <= j && j < i ==> m.ms.stack[j] == old(m.ms.stack[j]))
  ensures [after-kept] err == nil ==> forall(j, i <= j && j < len(m.ms.stack) ==> m.ms.stack[j] == old(m.ms.stack[j+1]))
