package graceful
alias SHUTDOWN = "github.com/zenazn/goji/graceful.shutdown"
alias LOOP = "github.com/zenazn/goji/graceful.sigLoop"
alias NOW = "time.Now"
alias SLEEP = "time.Sleep"
alias RECV = "chan.recv"
alias NOTIFY = "os/signal.Notify"
alias STOP = "os/signal.Stop"
alias LOCK = "lock:gaddr:graceful.mu"
alias UNLOCK = "unlock:gaddr:graceful.mu"
alias MAKE = "chan.make"
alias GO = "go"

monitor global mu
  protects doubleKick, timeout
  local
  inv doubleKick >= 0 && timeout >= 0

# a time is a number of nanoseconds
fn instant(time.Time) int
def zero(t) = t.wall == 0 && t.ext == 0 && t.loc == nil
def lt(t, u) = ite(zero(u), false, zero(t) || instant(t) < instant(u))

extern "time.Now"() (t)
  event
  ensures !zero(t)
  ensures n(NOW) > 1 ==> instant(t) >= instant(res(NOW, n(NOW)-2, 0, time.Time))

extern "(time.Time).Sub"(t, u) (d)
  pure
  ensures !zero(t) && !zero(u) ==> d == instant(t) - instant(u)
  ensures !zero(t) && zero(u) ==> d == 9223372036854775807

extern "(time.Time).IsZero"(t) (ok)
  pure
  ensures iff(ok, zero(t))

extern "(time.Time).Before"(t, u) (ok)
  pure
  ensures iff(ok, lt(t, u))

extern "(time.Time).After"(t, u) (ok)
  pure
  ensures iff(ok, lt(u, t))

extern "(time.Time).Add"(t, d) (r)
  pure
  ensures !zero(t) ==> !zero(r) && instant(r) == instant(t) + d

extern "time.Sleep"(d)
  event

model "time.Since" = zzSince
model "time.Until" = zzUntil
model "time.AfterFunc" = zzAfterFunc

# C21 covers it
func shutdown(force, sig)
  trusted
  event

extern "os/signal.Notify"(c, sig)
  event

extern "os/signal.Stop"(c)
  event

def now() = res(NOW, n(NOW)-1, 0, time.Time)
def previous() = res(NOW, old(n(NOW))-1, 0, time.Time)
def signal() = res(RECV, n(RECV)-1, 0, os.Signal)
def set(_x) = atlock("gaddr:graceful.mu", _x)
# (no setting is larger than the largest int64)
def huge(x) = x > 9223372036854775807
def forced() = set(doubleKick) != 0 && ite(old(n(NOW)) > 0, instant(now()) - instant(previous()) < set(doubleKick), huge(set(doubleKick)))
def timed() = set(timeout) != 0 && !forced()
# what the i-th goroutine this signal started did
def g(i) = time(GO, old(n(GO)) + i)
def shut(i, by, force) = called("async:SHUTDOWN", old(n("async:SHUTDOWN")) + i, force, signal()) && time("async:SHUTDOWN", old(n("async:SHUTDOWN")) + i) > g(by) && (by + 1 < n(GO) - old(n(GO)) ==> time("async:SHUTDOWN", old(n("async:SHUTDOWN")) + i) < g(by + 1))
def slept(by) = n("async:SLEEP") == old(n("async:SLEEP")) + 1 && arg("async:SLEEP", n("async:SLEEP")-1, 0, time.Duration) == set(timeout) && time("async:SLEEP", n("async:SLEEP")-1) > g(by) && time("async:SLEEP", n("async:SLEEP")-1) < time("async:SHUTDOWN", old(n("async:SHUTDOWN")) + by)

func sigLoop()
  prop C22
  modular
  event
  requires n(NOW) == 0 && n(LOCK) == n(UNLOCK)
  inv (x time.Time) ite(n(NOW) > 0, !zero(x) && x == now(), n(NOW) == 0 && zero(x))
  step [received] n(RECV) == old(n(RECV)) + 1 && arg(RECV, n(RECV)-1, 0, chan os.Signal) == sigchan
  step [clock] n(NOW) == old(n(NOW)) + 1 && time(NOW, n(NOW)-1) > time(RECV, n(RECV)-1)
  step [locked] n(LOCK) == old(n(LOCK)) + 1
  step [not-waiting] n(SHUTDOWN) == old(n(SHUTDOWN)) && n(SLEEP) == old(n(SLEEP))
  step [shutdowns] n("async:SHUTDOWN") == old(n("async:SHUTDOWN")) + ite(timed(), 2, 1)
  step [goroutines] n(GO) == old(n(GO)) + ite(timed(), 2, 1)
  step [now] !timed() ==> shut(0, 0, forced()) && n("async:SLEEP") == old(n("async:SLEEP"))
  step [later] timed() ==> shut(0, 0, true) && slept(0) && shut(1, 1, false) || shut(0, 0, false) && shut(1, 1, true) && slept(1)

def made(i) = i < n(MAKE) && arg(MAKE, i, 0, chan os.Signal) == sigchan && arg(MAKE, i, 1, int) >= 1
client zzInit()
  prop C22
  runinits
  requires n(MAKE) == 0 && n(GO) == 0 && n("async:LOOP") == 0 && n(LOOP) == 0 && n(NOW) == 0 && n(LOCK) == n(UNLOCK)
  ensures [loop] n("async:LOOP") == 1 && n(LOOP) == 0
  ensures [interrupt] len(stdSignals) >= 1 && stdSignals[0] == old(os.Interrupt)
  ensures [room] made(0) || made(1) || made(2) || made(3)
  ensures [settings] doubleKick == 0 && timeout == 0

client zzHandleSignals()
  prop C22
  requires n(NOTIFY) == 0 && n(STOP) == 0
  ensures [notified] n(NOTIFY) == 1 && n(STOP) == 0 && arg(NOTIFY, 0, 0, chan<- os.Signal) == sigchan
  ensures [standard] arg(NOTIFY, 0, 1, []os.Signal) == stdSignals

client zzAddSignal(sig)
  prop C22
  requires n(NOTIFY) == 0 && n(STOP) == 0
  ensures [notified] n(NOTIFY) == 1 && n(STOP) == 0 && arg(NOTIFY, 0, 0, chan<- os.Signal) == sigchan
  ensures [added] arg(NOTIFY, 0, 1, []os.Signal) == sig

client zzDoubleKick(d)
  prop C22
  requires n(LOCK) == 0 && n(UNLOCK) == 0
  ensures [set] d >= 0 ==> n(LOCK) == 1 && n(UNLOCK) == 1 && atunlock("gaddr:graceful.mu", doubleKick) == d
  ensures [ignored] d < 0 && n(UNLOCK) > 0 ==> n(LOCK) == 1 && atunlock("gaddr:graceful.mu", doubleKick) == atlock("gaddr:graceful.mu", doubleKick)
  ensures [timeout-kept] n(UNLOCK) > 0 ==> atunlock("gaddr:graceful.mu", timeout) == atlock("gaddr:graceful.mu", timeout)

client zzTimeout(d)
  prop C22
  requires n(LOCK) == 0 && n(UNLOCK) == 0
  ensures [set] d >= 0 ==> n(LOCK) == 1 && n(UNLOCK) == 1 && atunlock("gaddr:graceful.mu", timeout) == d
  ensures [ignored] d < 0 && n(UNLOCK) > 0 ==> n(LOCK) == 1 && atunlock("gaddr:graceful.mu", timeout) == atlock("gaddr:graceful.mu", timeout)
  ensures [window-kept] n(UNLOCK) > 0 ==> atunlock("gaddr:graceful.mu", doubleKick) == atlock("gaddr:graceful.mu", doubleKick)
