package web
alias MATCH = "(github.com/zenazn/goji/web.Pattern).Match"

const global web.validMethodsMap

extern "(github.com/zenazn/goji/web.Pattern).Prefix"(p) (s)
  event
  pure

def maskOf(k) = ite(k == 0, mALL, ite(k == 1, mCONNECT, ite(k == 2, mDELETE, ite(k == 3, mGET|mHEAD, ite(k == 4, mHEAD, ite(k == 5, mOPTIONS, ite(k == 6, mPATCH, ite(k == 7, mPOST, ite(k == 8, mPUT, mTRACE)))))))))
def documented(k, s) = k == 0 || (k == 1 && s == "CONNECT") || (k == 2 && s == "DELETE") || (k == 3 && (s == "GET" || s == "HEAD")) || (k == 4 && s == "HEAD") || (k == 5 && s == "OPTIONS") || (k == 6 && s == "PATCH") || (k == 7 && s == "POST") || (k == 8 && s == "PUT") || (k == 9 && s == "TRACE")

# The k-th verb function adds one route, for the pattern, handler and method
# set of that verb.
client zzVerb(m, k, p, h)
  prop C11
  requires m != nil && p != nil && h != nil && 0 <= k && k <= 9
  ensures [one-more] len(m.rt.routes) == old(len(m.rt.routes)) + 1
  ensures [inserted] exists(i, 0 <= i && i < len(m.rt.routes) && m.rt.routes[i].pattern == p && m.rt.routes[i].handler == h && m.rt.routes[i].method == maskOf(k))

# A route with that method set serves the documented request methods, and no
# others, whenever its pattern matches.
client zzServes(rt, k, r, c) (ok)
  prop C11
  requires rt.pattern != nil && r != nil && c != nil && 0 <= k && k <= 9 && rt.method == maskOf(k)
  ensures [served] iff(ok, res(MATCH, n(MATCH)-1, 0, bool) && documented(k, old(r.Method)))

# (what these methods of Mux do is C06; here only that they are called)
func (*Mux).Use(m, mw)
  trusted
  event
  havoc

func (*Mux).Insert(m, mw, before) (err)
  trusted
  event
  havoc

func (*Mux).Abandon(m, mw) (err)
  trusted
  event
  havoc

package goji
alias USE = "github.com/zenazn/goji/web.(*Mux).Use"
alias INSERT = "github.com/zenazn/goji/web.(*Mux).Insert"
alias ABANDON = "github.com/zenazn/goji/web.(*Mux).Abandon"

# The package-level functions do that to the default Mux.
client zzVerb(k, p, h)
  prop C11
  requires DefaultMux != nil && p != nil && h != nil && 0 <= k && k <= 9
  ensures [default-mux] DefaultMux == old(DefaultMux)
  ensures [one-more] len(DefaultMux.rt.routes) == old(len(DefaultMux.rt.routes)) + 1
  ensures [inserted] exists(i, 0 <= i && i < len(DefaultMux.rt.routes) && DefaultMux.rt.routes[i].pattern == p && DefaultMux.rt.routes[i].handler == h && DefaultMux.rt.routes[i].method == maskOf(k))

client zzNotFound(h)
  prop C11
  requires DefaultMux != nil && h != nil
  ensures [not-found] DefaultMux == old(DefaultMux) && DefaultMux.rt.notFound == h

client zzUse(mw)
  prop C11
  requires DefaultMux != nil
  ensures [use] n(USE) == old(n(USE)) + 1 && called(USE, old(n(USE)), old(DefaultMux), box(mw)) && n(INSERT) == old(n(INSERT)) && n(ABANDON) == old(n(ABANDON))

client zzInsert(mw, before) (err)
  prop C11
  requires DefaultMux != nil
  ensures [insert] n(INSERT) == old(n(INSERT)) + 1 && called(INSERT, old(n(INSERT)), old(DefaultMux), box(mw), box(before)) && n(USE) == old(n(USE)) && n(ABANDON) == old(n(ABANDON))
  ensures [insert-error] err == res(INSERT, old(n(INSERT)), 0, error)

client zzAbandon(mw) (err)
  prop C11
  requires DefaultMux != nil
  ensures [abandon] n(ABANDON) == old(n(ABANDON)) + 1 && called(ABANDON, old(n(ABANDON)), old(DefaultMux), box(mw)) && n(USE) == old(n(USE)) && n(INSERT) == old(n(INSERT))
  ensures [abandon-error] err == res(ABANDON, old(n(ABANDON)), 0, error)
