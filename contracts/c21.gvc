package listener
func (*T).Close(t) (err)
  trusted
  event

func (*T).Drain(t) (err)
  trusted
  event

func (*T).DrainAll(t) (err)
  trusted
  event

func (*T).CloseIdle(t) (err)
  trusted
  event

func Wrap(l, m) (t)
  trusted
  event
  ensures fresh(t) && t != nil

package graceful
alias HOOK = "func:(os.Signal)()"
alias PLAIN = "func:()()"
alias BEGIN = "once.begin"
alias PASSED = "once.passed"
alias LCLOSE = "github.com/zenazn/goji/graceful/listener.(*T).Close"
alias DRAIN = "github.com/zenazn/goji/graceful/listener.(*T).Drain"
alias DRAINALL = "github.com/zenazn/goji/graceful/listener.(*T).DrainAll"
alias IDLE = "github.com/zenazn/goji/graceful/listener.(*T).CloseIdle"
alias WRAP = "github.com/zenazn/goji/graceful/listener.Wrap"
alias LOCK = "lock:gaddr:graceful.mu"
alias UNLOCK = "unlock:gaddr:graceful.mu"
alias WAIT = "wg.wait"
alias ADD = "wg.add"
alias CLOSECH = "close"
alias RECV = "chan.recv"
alias CLOSING = "atomic.store:gaddr:graceful.closing"
alias SERVE = "(*net/http.Server).Serve"
alias MARK = "github.com/zenazn/goji/graceful.zzMark"

monitor global mu
  protects listeners, prehooks, posthooks
  owns listeners, prehooks, posthooks
  local

client zzMark()
  trusted
  event

def locked(_x) = atlock("gaddr:graceful.mu", _x)
def unlocked(_x) = atunlock("gaddr:graceful.mu", _x)
def none() = n(HOOK) == 0 && n(BEGIN) == 0 && n(PASSED) == 0 && n(LCLOSE) == 0 && n(DRAIN) == 0 && n(DRAINALL) == 0 && n("async:LCLOSE") == 0 && n("async:DRAIN") == 0 && n("async:DRAINALL") == 0 && n(WAIT) == 0 && n(ADD) == 0 && n("async:ADD") == 0 && n(CLOSECH) == 0 && n(GO) == 0 && n(CLOSING) == 0 && n(LOCK) == 0 && n(UNLOCK) == 0
alias GO = "go"
def done(o) = ghostb("once", o)

# the phases are passed in this order, and none is waited for twice; a forced
# shutdown does not wait for the graceful one
def closeOf(force) = ite(force, &forceOnce, &closeOnce)
def inOrder(force) = n(PASSED) == 4 && called(PASSED, 0, &preOnce) && called(PASSED, 1, closeOf(force)) && called(PASSED, 2, &postOnce) && called(PASSED, 3, &notifyOnce)
# nothing happens outside its phase: hooks while no listener is being closed,
# listeners are closed once the first phase is over, and the last event is the
# notification
def phases() = (n("async:LCLOSE") > 0 ==> n(PASSED) > 0 && time("async:LCLOSE", 0) > time(PASSED, 0)) && (n(CLOSECH) > 0 ==> n(CLOSECH) == 1 && time(CLOSECH, 0) > time(PASSED, 2) && time(CLOSECH, 0) < time(PASSED, 3)) && (n(WAIT) > 0 ==> time(WAIT, 0) > time(PASSED, 0) && time(WAIT, 0) < time(PASSED, 1))

client zzShutdown(force, sig)
  prop C21
  nosafety
  requires none()
  ensures [order] inOrder(force)
  ensures [phases] phases()

client zzManual()
  prop C21
  nosafety
  requires none() && done(&preOnce) && done(&closeOnce) && done(&postOnce) && done(&notifyOnce)
  ensures [graceful] inOrder(false)

client zzManualNow()
  prop C21
  nosafety
  requires none() && done(&preOnce) && done(&forceOnce) && done(&postOnce) && done(&notifyOnce)
  ensures [forced] inOrder(true)

# the hooks, once each, in the order added, with the signal, and while the
# phase lasts
def here() = n(BEGIN) == 1
def hooksRun(_l, sig) = n(HOOK) == len(locked(_l)) && forall(i, 0 <= i && i < len(locked(_l)) ==> called(HOOK, i, locked(_l[i]), sig))
def within() = n(HOOK) > 0 ==> time(HOOK, 0) > time(BEGIN, 0) && time(HOOK, n(HOOK)-1) < time("once.end", 0)
def quiet() = n(HOOK) == 0 && n("async:LCLOSE") == 0 && n("async:DRAIN") == 0 && n("async:DRAINALL") == 0 && n(CLOSECH) == 0 && n(LCLOSE) == 0 && n(DRAIN) == 0 && n(DRAINALL) == 0

client zzPre(force, sig)
  prop C21
  nosafety
  requires none() && done(&closeOnce) && done(&forceOnce) && done(&postOnce) && done(&notifyOnce) && n("once.end") == 0
  ensures [elsewhere] !here() ==> quiet()
  ensures [hooks] here() ==> hooksRun(prehooks, sig)
  ensures [within] here() ==> within()

client zzPost(force, sig)
  prop C21
  nosafety
  requires none() && done(&closeOnce) && done(&forceOnce) && done(&preOnce) && done(&notifyOnce) && n("once.end") == 0
  ensures [elsewhere] !here() ==> quiet()
  ensures [hooks] here() ==> hooksRun(posthooks, sig)
  ensures [within] here() ==> within()

client zzNotify(force, sig)
  prop C21
  nosafety
  requires none() && done(&closeOnce) && done(&forceOnce) && done(&preOnce) && done(&postOnce) && n("once.end") == 0
  ensures [elsewhere] !here() ==> quiet()
  ensures [notified] here() ==> n(CLOSECH) == 1 && arg(CLOSECH, 0, 0, chan struct{}) == wait
  ensures [nothing-else] n(HOOK) == 0 && n("async:LCLOSE") == 0

# every listener is closed and then drained by a goroutine of its own, which
# then reports to the group that is waited for without holding the lock
def group() = arg(WAIT, 0, 0, *sync.WaitGroup)
def drainKind(i, force) = ite(force, called("async:DRAINALL", i, locked(listeners[i])), called("async:DRAIN", i, locked(listeners[i])))
def drainTime(i, force) = ite(force, time("async:DRAINALL", i), time("async:DRAIN", i))
def reported(i) = arg("async:ADD", i, 0, int) == arg(ADD, 0, 0, int) && arg("async:ADD", i, 1, int) == -1

def sequence(k, force) = forall(i, 0 <= i && i < k ==> time(GO, i) < time("async:LCLOSE", i) && time("async:LCLOSE", i) < drainTime(i, force) && drainTime(i, force) < time("async:ADD", i)) && forall(i, 0 < i && i < k ==> time("async:ADD", i-1) < time(GO, i))

client zzClose(force, sig)
  prop C21
  nosafety
  requires none() && done(&preOnce) && done(&postOnce) && done(&notifyOnce) && n("once.end") == 0
  inv (x int) sequence(n("async:LCLOSE"), force)
  inv (x int) n(GO) == n("async:LCLOSE") && n("async:ADD") == n("async:LCLOSE")
  inv (x int) forall(i, 0 <= i && i < n("async:ADD") ==> reported(i))
  ensures [elsewhere] !here() ==> quiet() && n(WAIT) == 0
  ensures [right-kind] here() ==> n("async:LCLOSE") == len(locked(listeners)) && n("async:DRAINALL") == ite(force, len(locked(listeners)), 0) && n("async:DRAIN") == ite(force, 0, len(locked(listeners)))
  ensures [closed] here() ==> forall(i, 0 <= i && i < len(locked(listeners)) ==> called("async:LCLOSE", i, locked(listeners[i])))
  ensures [drained] here() ==> forall(i, 0 <= i && i < len(locked(listeners)) ==> drainKind(i, force) && time("async:LCLOSE", i) < drainTime(i, force))
  ensures [reported] here() ==> n("async:ADD") == len(locked(listeners)) && forall(i, 0 <= i && i < len(locked(listeners)) ==> reported(i) && drainTime(i, force) < time("async:ADD", i))
  ensures [own-goroutines] here() ==> n(GO) == len(locked(listeners)) && forall(i, 0 <= i && i < len(locked(listeners)) ==> time(GO, i) < time("async:LCLOSE", i)) && forall(i, 0 < i && i < len(locked(listeners)) ==> time("async:ADD", i-1) < time(GO, i))
  ensures [waited] here() ==> n(WAIT) == 1 && n(ADD) == 1 && arg(ADD, 0, 0, int) == arg(WAIT, 0, 0, int) && arg(ADD, 0, 1, int) == len(locked(listeners)) && time(UNLOCK, n(UNLOCK)-1) < time(WAIT, 0) && time(WAIT, 0) < time("once.end", 0)
  ensures [counted-first] here() ==> forall(i, 0 <= i && i < len(locked(listeners)) ==> time(ADD, 0) < time(GO, i))
  ensures [closing-first] here() ==> n(CLOSING) > 0 && arg(CLOSING, 0, 1, int32) == 1 && forall(i, 0 <= i && i < len(locked(listeners)) ==> time(CLOSING, 0) < time(GO, i))
  ensures [nothing-else] n(HOOK) == 0 && n(CLOSECH) == 0 && n(LCLOSE) == 0 && n(DRAIN) == 0 && n(DRAINALL) == 0

client zzWait()
  prop C21
  requires n(RECV) == 0
  ensures [waits] n(RECV) == 1 && arg(RECV, 0, 0, chan struct{}) == wait

# registration adds at the end
def oneStep() = n(LOCK) == 1 && n(UNLOCK) == 1
def grown(_s) = len(unlocked(_s)) == len(locked(_s)) + 1 && forall(i, 0 <= i && i < len(locked(_s)) ==> unlocked(_s[i]) == locked(_s[i]))

client zzLastPre() (f)
  trusted
  pure
  ensures f == unlocked(prehooks[len(prehooks)-1])

client zzLastPost() (f)
  trusted
  pure
  ensures f == unlocked(posthooks[len(posthooks)-1])

client zzPreHookS(f)
  prop C21
  requires n(LOCK) == 0 && n(UNLOCK) == 0
  ensures [appended] oneStep() && grown(prehooks) && unlocked(prehooks[len(prehooks)-1]) == f
  ensures [others-kept] unlocked(posthooks) == locked(posthooks) && unlocked(listeners) == locked(listeners)

client zzPostHookS(f)
  prop C21
  requires n(LOCK) == 0 && n(UNLOCK) == 0
  ensures [appended] oneStep() && grown(posthooks) && unlocked(posthooks[len(posthooks)-1]) == f
  ensures [others-kept] unlocked(prehooks) == locked(prehooks) && unlocked(listeners) == locked(listeners)

client zzPreHook(f, sig)
  prop C21
  nosafety
  requires n(LOCK) == 0 && n(UNLOCK) == 0 && n(PLAIN) == 0
  ensures [appended] oneStep() && grown(prehooks)
  ensures [calls-it] n(PLAIN) == 1 && called(PLAIN, 0, f) && time(PLAIN, 0) > time(MARK, n(MARK)-1)

client zzPostHook(f, sig)
  prop C21
  nosafety
  requires n(LOCK) == 0 && n(UNLOCK) == 0 && n(PLAIN) == 0
  ensures [appended] oneStep() && grown(posthooks)
  ensures [calls-it] n(PLAIN) == 1 && called(PLAIN, 0, f) && time(PLAIN, 0) > time(MARK, n(MARK)-1)

# listeners are registered before they are used; one that is already wrapped
# is not wrapped again
client zzWrapListener(l) (r)
  prop C21
  nosafety
  requires n(LOCK) == 0 && n(UNLOCK) == 0 && n(WRAP) == 0
  ensures [registered] oneStep() && grown(listeners) && r == box(unlocked(listeners[len(listeners)-1]))
  ensures [wrapped] ite(is(l, *listener.T), n(WRAP) == 0 && r == l, n(WRAP) == 1 && arg(WRAP, 0, 0, net.Listener) == l && r == box(res(WRAP, 0, 0, *listener.T)))

extern "(*net/http.Server).Serve"(s, l) (err)
  event

client zzServe(srv, l)
  prop C21
  nosafety
  requires n(LOCK) == 0 && n(UNLOCK) == 0 && n(WRAP) == 0 && n(SERVE) == 0 && srv != nil && l != nil
  ensures [registered] oneStep() && grown(listeners) && n(SERVE) == 1 && time(UNLOCK, 0) < time(SERVE, 0) && arg(SERVE, 0, 1, net.Listener) == box(unlocked(listeners[len(listeners)-1]))
