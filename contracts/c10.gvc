package web
alias MARK = "github.com/zenazn/goji/web.zzMark"
alias HC = "(github.com/zenazn/goji/web.Handler).ServeHTTPC"
alias FC = "func:(web.C,net/http.ResponseWriter,*net/http.Request)()"
alias FN = "func:(net/http.ResponseWriter,*net/http.Request)()"
alias FATAL = "log.Fatalf"

extern "log.Fatalf"(f, v)
  event
  fatal

extern "(github.com/zenazn/goji/web.Pattern).Prefix"(p) (s)
  event
  pure

client zzMark()
  trusted
  event

def nothing(k) = n(k) == atcall(MARK, n(k))
def one(k) = n(k) == atcall(MARK, n(k)) + 1
def fc(h) = is(h, zzFC)
def fn2(h) = is(h, zzFN)
def hc(h) = !fc(h) && !fn2(h) && is(h, Handler)
def hh(h) = !fc(h) && !fn2(h) && !is(h, Handler) && is(h, zzHH)
# the value h was called as its type says, and nothing else was
def callsC(h, c, w, r) = one(FC) && called(FC, n(FC)-1, as(h, zzFC), c, w, r) && nothing(FN) && nothing(HC) && nothing(H)
def callsN(h, c, w, r) = one(FN) && called(FN, n(FN)-1, as(h, zzFN), w, r) && nothing(FC) && nothing(HC) && nothing(H)
def callsHC(h, c, w, r) = one(HC) && called(HC, n(HC)-1, h, c, w, r) && nothing(FC) && nothing(FN) && nothing(H)
def callsHH(h, c, w, r) = one(H) && called(H, n(H)-1, h, w, r) && nothing(FC) && nothing(FN) && nothing(HC)

client zzHandle(m, p, h, c, w, r)
  prop C10
  requires m != nil && len(m.rt.routes) == 0 && p != nil && w != nil && r != nil && h != nil
  requires (fc(h) ==> as(h, zzFC) != nil) && (fn2(h) ==> as(h, zzFN) != nil)
  ensures [documented] fc(h) || fn2(h) || hc(h) || hh(h)
  ensures [func-with-context] fc(h) ==> callsC(h, c, w, r)
  ensures [func] fn2(h) ==> callsN(h, c, w, r)
  ensures [handler-with-context] hc(h) ==> callsHC(h, c, w, r)
  ensures [handler] hh(h) ==> callsHH(h, c, w, r)
  onfatal [undocumented] !(fc(h) || fn2(h) || hc(h) || hh(h))
  onfatal [not-registered] len(m.rt.routes) == old(len(m.rt.routes)) && n(HC) == old(n(HC)) && n(H) == old(n(H)) && n(FC) == old(n(FC)) && n(FN) == old(n(FN))

client zzNotFound(m, h, c, w, r)
  prop C10
  requires m != nil && w != nil && r != nil && h != nil
  requires (fc(h) ==> as(h, zzFC) != nil) && (fn2(h) ==> as(h, zzFN) != nil)
  ensures [documented] fc(h) || fn2(h) || hc(h) || hh(h)
  ensures [func-with-context] fc(h) ==> callsC(h, c, w, r)
  ensures [func] fn2(h) ==> callsN(h, c, w, r)
  ensures [handler-with-context] hc(h) ==> callsHC(h, c, w, r)
  ensures [handler] hh(h) ==> callsHH(h, c, w, r)
  onfatal [undocumented] !(fc(h) || fn2(h) || hc(h) || hh(h))
  onfatal [not-registered] m.rt.notFound == old(m.rt.notFound)

client zzHandlerFunc(h, w, r)
  prop C10
  requires h != nil
  ensures [called] n(FC) == old(n(FC)) + 1 && called(FC, n(FC)-1, h, _, w, r)
  ensures [empty-context] arg(FC, n(FC)-1, 1, C).URLParams == nil && arg(FC, n(FC)-1, 1, C).Env == nil

client zzHandlerFuncC(h, c, w, r)
  prop C10
  requires h != nil
  ensures [called] n(FC) == old(n(FC)) + 1 && called(FC, n(FC)-1, h, c, w, r)

def parsed(raw, p) = (is(raw, Pattern) && p == raw) ||
  (!is(raw, Pattern) && is(raw, string) && is(p, stringPattern) && as(p, stringPattern).raw == as(raw, string)) ||
  (!is(raw, Pattern) && is(raw, *regexp.Regexp) && is(p, regexpPattern) && as(p, regexpPattern).raw == as(raw, *regexp.Regexp))

client zzPattern(raw) (p)
  prop C10
  nosafety
  requires raw != nil && (is(raw, *regexp.Regexp) ==> as(raw, *regexp.Regexp) != nil)
  ensures [parsed] parsed(raw, p)
  onfatal [undocumented] !is(raw, Pattern) && !is(raw, string) && !is(raw, *regexp.Regexp)

client zzHandlePattern(m, raw, h) (p)
  prop C10
  nosafety
  requires m != nil && len(m.rt.routes) == 0 && h != nil
  requires raw != nil && (is(raw, *regexp.Regexp) ==> as(raw, *regexp.Regexp) != nil)
  ensures [parsed] parsed(raw, p)
  onfatal [undocumented] !is(raw, Pattern) && !is(raw, string) && !is(raw, *regexp.Regexp)
  onfatal [not-registered] len(m.rt.routes) == old(len(m.rt.routes))
