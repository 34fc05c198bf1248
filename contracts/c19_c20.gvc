package graceful/listener
alias INNER = "(net.Conn).Close"
alias READ = "(net.Conn).Read"
alias DEADLINE = "(net.Conn).SetReadDeadline"
alias ACCEPT = "(net.Listener).Accept"
alias LCLOSE = "(net.Listener).Close"
alias WG = "wg.add"
alias WAIT = "wg.wait"
alias LOCKC = "lock:fld:graceful/listener.conn.mu"
alias LOCKS = "lock:fld:graceful/listener.shard.mu"
alias UNLOCKS = "unlock:fld:graceful/listener.shard.mu"
alias UNLOCKC = "unlock:fld:graceful/listener.conn.mu"

# fixed when the connection is accepted
stable graceful/listener.conn.Conn, graceful/listener.conn.shard, graceful/listener.conn.mode
# fixed when the listener is wrapped
stable graceful/listener.T.l, graceful/listener.T.shards, graceful/listener.T.mode

def managed(c) = !c.closed && !c.disowned

# What a connection's lock protects: its state, and whether it is in its
# shard's sets.
monitor conn.mu (c)
  protects busy, closed, disowned
  first
  interferes c.shard
  inv [one-end] !(c.closed && c.disowned)
  inv [tracked] c.shard != nil && c.Conn != nil && iff(has(c.shard.all, c), managed(c))
  inv [idle] iff(has(c.shard.idle, c), managed(c) && !c.busy)
  rely [for-good] (old(c.closed) ==> c.closed) && (old(c.disowned) ==> c.disowned)
  guarantee [for-good] (old(c.closed) ==> c.closed) && (old(c.disowned) ==> c.disowned)
  guarantee [released-once] released(c)
  guarantee [closes] closes(c)
  stamp ended = !managed(c) && old(managed(c))
  stamp closed = c.closed && !old(c.closed)
  stamp closedBusy = c.closed && !old(c.closed) && old(c.busy)
  stamp changed = c.closed != old(c.closed) || c.disowned != old(c.disowned) || c.busy != old(c.busy)
  stamp settled = c.closed || c.disowned || c.busy
  stamp gone = c.closed || c.disowned

# a connection is taken off the books once, and not before it is closed
def released(c) = n(WG) == old(n(WG)) + ite(!managed(c) && old(managed(c)), 1, 0) && (!managed(c) && old(managed(c)) ==> called(WG, n(WG)-1, &c.shard.wg, -1) && (c.closed ==> time(WG, n(WG)-1) > time(INNER, n(INNER)-1)))
# the underlying connection is closed when this becomes closed, and afterwards
# only for who disowned it
def closes(c) = n(INNER) == old(n(INNER)) + ite(c.closed && !old(c.closed) || n(INNER) > old(n(INNER)) && old(c.disowned), 1, 0) && (n(INNER) > old(n(INNER)) ==> called(INNER, n(INNER)-1, c.Conn))

def isHeld(x) = held("fld:graceful/listener.conn.mu", x)
def sameIn(s, x) = iff(has(s.all, x), old(has(s.all, x))) && iff(has(s.idle, x), old(has(s.idle, x)))

monitor shard.mu (s)
  protects idle, all, drain
  inv [sets] s.all != nil && s.idle != nil && s.all != s.idle
  inv [members] forall((*conn)(x), has(s.all, x) ==> x != nil && x.shard == s)
  inv [idle] forall((*conn)(x), has(s.idle, x) ==> has(s.all, x))
  rely [held] forall((*conn)(x), isHeld(x) ==> sameIn(s, x))
  guarantee [held] forall((*conn)(x), isHeld(x) || unshared(x) || sameIn(s, x))
  rely [draining] old(s.drain) ==> s.drain && forall((*conn)(x), (has(s.all, x) ==> old(has(s.all, x))) && (has(s.idle, x) ==> old(has(s.idle, x))))
  guarantee [draining] old(s.drain) ==> s.drain && forall((*conn)(x), (has(s.all, x) ==> old(has(s.all, x))) && (has(s.idle, x) ==> old(has(s.idle, x))))
  rely [fixed] s.all == old(s.all) && s.idle == old(s.idle)
  guarantee [fixed] s.all == old(s.all) && s.idle == old(s.idle)
  stamp swept = !sweeping()
  stamp draining = !sweeping() && s.drain
  stamp drained = s.drain && !old(s.drain)
  collect wasIdle (x *conn) when x.shard == s && !sweeping() = has(s.idle, x)
  collect was (x *conn) when x.shard == s && !sweeping() = has(s.all, x)

# is this section part of an operation on one connection?
def sweeping() = heldn() > 1

extern "(net.Conn).Close"(c) (err)
  event

extern "(net.Conn).Read"(c, b) (k, err)
  event
  ensures 0 <= k && k <= len(b)

extern "(net.Conn).SetReadDeadline"(c, t) (err)
  event

extern "(net.Listener).Accept"(l) (c, err)
  event
  ensures err == nil ==> c != nil

extern "(net.Listener).Close"(l) (err)
  event

extern "runtime.NumCPU"() (n)
  ensures n >= 1

def at(_x) = atlock("fld:graceful/listener.conn.mu", _x)
def then(_x) = atunlock("fld:graceful/listener.conn.mu", _x)
def none() = n(INNER) == 0 && n(WG) == 0 && n(READ) == 0 && n(DEADLINE) == 0 && n(LOCKC) == 0 && n(UNLOCKC) == 0 && n(LOCKS) == 0 && n(UNLOCKS) == 0 && n(WAIT) == 0 && n(ACCEPT) == 0 && n(LCLOSE) == 0
def kept(c) = then(c.closed) == at(c.closed) && then(c.disowned) == at(c.disowned) && then(c.busy) == at(c.busy)
def isConn(c) = c != nil && c.Conn != nil && c.shard != nil && future()
# every end of the connection's tracking in this operation, and nothing else, was
# released; what was closed below was closed here
def accounts() = n(WG) == total("ended") - old(total("ended"))
def closings() = n(INNER) == total("closed") - old(total("closed"))

# the long ones first
client zzDrain(t) (err)
  prop C19, C20
  requires wf(t) && none() && future()
  inv (m map[*conn]struct{}) forall((*conn)(x), stamp("wasIdle", x) >= old(now) ==> stamp("settled", x) > stamp("wasIdle", x) || has(m, x) && !visited(x))
  inv (m map[*conn]struct{}) forall((*conn)(x), iff(has(m, x), visited(x)))
  inv (m map[*conn]struct{}) forall((*conn)(x), iff(has(m, x), pre(has(m, x))))
  inv (m map[*conn]struct{}) forall((*conn)(x), has(m, x) ==> x != nil)
  inv idleSwept()
  inv noneBusy()
  inv accounts()
  inv closings()
  inv (i int) draining(t, i)
  inv (i int) draining(t, i + 1)
  inv forall((*shard)(s), stamp("draining", s) <= now)
  inv (i int) waited(t, i)
  inv (i int) waited(t, i + 1)
  ensures [all-idle] idleSwept()
  ensures [only-idle] noneBusy()
  ensures [drained] draining(t, len(t.shards))
  ensures [waited] waited(t, len(t.shards))
  ensures [accounts] accounts() && closings()

client zzDrainAll(t) (err)
  prop C19, C20
  requires wf(t) && none() && future()
  inv (m map[*conn]struct{}) forall((*conn)(x), stamp("was", x) >= old(now) ==> stamp("gone", x) > stamp("was", x) || has(m, x) && !visited(x))
  inv (m map[*conn]struct{}) forall((*conn)(x), iff(has(m, x), visited(x)))
  inv (m map[*conn]struct{}) forall((*conn)(x), iff(has(m, x), pre(has(m, x))))
  inv (m map[*conn]struct{}) forall((*conn)(x), has(m, x) ==> x != nil)
  inv allSwept()
  inv accounts()
  inv closings()
  inv (i int) draining(t, i)
  inv (i int) draining(t, i + 1)
  inv forall((*shard)(s), stamp("draining", s) <= now)
  inv (i int) waited(t, i)
  inv (i int) waited(t, i + 1)
  ensures [all] allSwept()
  ensures [drained] draining(t, len(t.shards))
  ensures [waited] waited(t, len(t.shards))
  ensures [accounts] accounts() && closings()

client zzCloseIdle(t) (err)
  prop C19, C20
  requires wf(t) && none() && future()
  inv (m map[*conn]struct{}) forall((*conn)(x), stamp("wasIdle", x) >= old(now) ==> stamp("settled", x) > stamp("wasIdle", x) || has(m, x) && !visited(x))
  inv (m map[*conn]struct{}) forall((*conn)(x), iff(has(m, x), visited(x)))
  inv (m map[*conn]struct{}) forall((*conn)(x), iff(has(m, x), pre(has(m, x))))
  inv (m map[*conn]struct{}) forall((*conn)(x), has(m, x) ==> x != nil)
  inv idleSwept()
  inv noneBusy()
  inv accounts()
  inv closings()
  inv (i int) swept(t, i)
  inv (i int) swept(t, i + 1)
  ensures [all-idle] idleSwept()
  ensures [only-idle] noneBusy()
  ensures [everywhere] swept(t, len(t.shards))
  ensures [accounts] accounts() && closings() && n(WAIT) == 0
  ensures [goes-on] forall((*shard)(s), stamp("drained", s) < old(now))

client zzClose(c) (err)
  prop C19, C20
  requires isConn(c) && none()
  ensures [once] n(LOCKC) > 0 && accounts()
  ensures [first] at(managed(c)) ==> then(c.closed) && n(INNER) == 1 && err == res(INNER, 0, 0, error) && n(WG) == 1
  ensures [again] at(c.closed) ==> kept(c) && n(INNER) == 0 && err != nil && n(WG) == 0
  ensures [disowned] at(c.disowned) ==> kept(c) && n(INNER) == 1 && called(INNER, 0, c.Conn) && err == res(INNER, 0, 0, error) && n(WG) == 0

client zzDisown(c) (err)
  prop C19, C20
  requires isConn(c) && none()
  ensures [once] n(LOCKC) > 0 && accounts() && n(INNER) == 0
  ensures [first] at(managed(c)) ==> then(c.disowned) && err == nil && n(WG) == 1
  ensures [again] !at(managed(c)) ==> kept(c) && err != nil && n(WG) == 0

client zzMarkIdle(c) (err)
  prop C19, C20
  requires isConn(c) && none()
  ensures [accounts] n(LOCKC) > 0 && accounts() && closings() && err == nil
  ensures [idle] at(managed(c)) ==> !then(c.busy)
  ensures [only-draining] stamp("closed", c) >= old(now) ==> atlock("fld:graceful/listener.shard.mu", c.shard.drain) && at(c.busy)
  ensures [draining] at(managed(c) && c.busy) && atlock("fld:graceful/listener.shard.mu", c.shard.drain) ==> then(c.closed)

client zzMarkInUse(c) (err)
  prop C19, C20
  requires isConn(c) && none()
  ensures [kept] n(LOCKC) > 0 && n(WG) == 0 && n(INNER) == 0 && err == nil
  ensures [in-use] at(managed(c)) ==> then(c.busy) && then(managed(c))

client zzRead(c, b) (k, err)
  prop C19, C20
  requires isConn(c) && none()
  ensures [reads] n(READ) == 1 && arg(READ, 0, 0, net.Conn) == c.Conn && arg(READ, 0, 1, []byte) == b
  ensures [kept] n(LOCKC) > 0 && n(WG) == 0 && n(INNER) == 0
  ensures [after] time(LOCKC, n(LOCKC)-1) > time(READ, 0)
  ensures [closed] at(c.closed) ==> k == 0 && err != nil && kept(c)
  ensures [result] !at(c.closed) ==> k == res(READ, 0, 0, int) && err == res(READ, 0, 1, error)
  ensures [in-use] at(managed(c)) ==> ite(c.mode == Manual, kept(c), then(c.busy) && then(managed(c)))
  ensures [disowned] at(c.disowned) ==> kept(c)

client zzSetReadDeadline(c, t) (err)
  prop C19, C20
  requires isConn(c) && none()
  ensures [sets] n(DEADLINE) == 1 && arg(DEADLINE, 0, 0, net.Conn) == c.Conn && arg(DEADLINE, 0, 1, time.Time) == t && err == res(DEADLINE, 0, 0, error)
  ensures [accounts] accounts() && closings()
  ensures [idle] c.mode == Deadline ==> n(LOCKC) > 0 && (then(managed(c)) ==> !then(c.busy))
  ensures [other-modes] c.mode != Deadline ==> stamp("changed", c) < old(now)
  ensures [only-draining] stamp("closed", c) >= old(now) ==> atlock("fld:graceful/listener.shard.mu", c.shard.drain) && stamp("closedBusy", c) >= old(now)

def nothing() = n(INNER) == 0 && n(WG) == 0 && n(LOCKC) == 0 && n(LOCKS) == 0
client zzForeignDisown(c) (err)
  prop C19, C20
  requires none() && !is(c, *conn)
  ensures [refused] err != nil && nothing()

client zzForeignMarkIdle(c) (err)
  prop C19, C20
  requires none() && !is(c, *conn)
  ensures [refused] err != nil && nothing()

client zzForeignMarkInUse(c) (err)
  prop C19, C20
  requires none() && !is(c, *conn)
  ensures [refused] err != nil && nothing()

client zzWrap(l, m) (t)
  prop C19, C20
  requires l != nil
  inv (i int, t *T) ownSets(t, i)
  inv (i int, t *T) ownSets(t, i + 1)
  inv (i int, t *T) keptApart(t, i)
  inv (i int, t *T) keptApart(t, i + 1)
  ensures [fields] t != nil && fresh(t) && t.l == l && t.mode == m && len(t.shards) > 0
  ensures [shards] ownSets(t, len(t.shards))
  ensures [own-sets] keptApart(t, len(t.shards))

def ownSets(t, k) = forall(i, 0 <= i && i < k && i < len(t.shards) ==> t.shards[i].all != nil && t.shards[i].idle != nil && fresh(t.shards[i].all) && fresh(t.shards[i].idle) && t.shards[i].all != t.shards[i].idle && !t.shards[i].drain && len(t.shards[i].all) == 0 && len(t.shards[i].idle) == 0)
def keptApart(t, k) = forall(i, forall(j, 0 <= i && i < j && j < k && j < len(t.shards) ==> t.shards[i].all != t.shards[j].all && t.shards[i].idle != t.shards[j].idle && t.shards[i].all != t.shards[j].idle && t.shards[i].idle != t.shards[j].all))

def wf(t) = t != nil && t.l != nil && len(t.shards) > 0
def myShard(t, s) = exists(i, 0 <= i && i < len(t.shards) && s == &t.shards[i])
def cn(c) = as(c, *conn)

client zzAccept(t) (c, err)
  prop C19, C20
  requires wf(t) && none()
  ensures [accepts] n(ACCEPT) == 1 && called(ACCEPT, 0, t.l)
  ensures [error] res(ACCEPT, 0, 1, error) != nil ==> c == nil && err == res(ACCEPT, 0, 1, error) && n(WG) == 0 && n(LOCKS) == 0 && n(INNER) == 0
  ensures [handed-out] err == nil ==> is(c, *conn) && fresh(cn(c)) && cn(c).Conn == res(ACCEPT, 0, 0, net.Conn) && cn(c).mode == t.mode && myShard(t, cn(c).shard)
  ensures [tracked] err == nil ==> atunlock("fld:graceful/listener.shard.mu", has(cn(c).shard.all, cn(c))) && n(WG) == 1 && called(WG, 0, &cn(c).shard.wg, 1) && time(WG, 0) < time(LOCKS, 0) && n(INNER) == 0
  ensures [fresh-idle] err == nil ==> !cn(c).busy && !cn(c).closed && !cn(c).disowned
  ensures [refused] res(ACCEPT, 0, 1, error) == nil && err != nil ==> c == nil && n(INNER) == 1 && called(INNER, 0, res(ACCEPT, 0, 0, net.Conn)) && n(WG) == 2 && arg(WG, 0, 0, int) == arg(WG, 1, 0, int) && arg(WG, 0, 1, int) + arg(WG, 1, 1, int) == 0
  ensures [draining] n(LOCKS) > 0 ==> n(UNLOCKS) > 0 && (err == nil ==> !atunlock("fld:graceful/listener.shard.mu", cn(c).shard.drain))

client zzListenerClose(t) (err)
  prop C19, C20
  requires wf(t) && none()
  ensures n(LCLOSE) == 1 && called(LCLOSE, 0, t.l) && err == res(LCLOSE, 0, 0, error) && nothing()

# every connection that was idle has been closed, unless it was used since
def idleSwept() = forall((*conn)(x), stamp("wasIdle", x) >= old(now) ==> stamp("settled", x) > stamp("wasIdle", x))
def allSwept() = forall((*conn)(x), stamp("was", x) >= old(now) ==> stamp("gone", x) > stamp("was", x))
def noneBusy() = forall((*conn)(x), stamp("closedBusy", x) < old(now))
# that went for every shard before k
def swept(t, k) = forall(j, 0 <= j && j < k ==> stamp("swept", &t.shards[j]) >= old(now))
def draining(t, k) = forall(j, 0 <= j && j < k ==> stamp("draining", &t.shards[j]) >= old(now))
def waited(t, k) = forall(j, 0 <= j && j < k ==> stamp("wg.wait", &t.shards[j].wg) > stamp("draining", &t.shards[j]))

def future() = forall((*conn)(x), stamp("wasIdle", x) < now && stamp("was", x) < now && stamp("settled", x) < now && stamp("gone", x) < now && stamp("closedBusy", x) < now && stamp("closed", x) < now && stamp("changed", x) < now) && forall((*shard)(s), stamp("swept", s) < now && stamp("draining", s) < now && stamp("drained", s) < now)
