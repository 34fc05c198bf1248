package middleware
alias MARK = "github.com/zenazn/goji/web/middleware.zzMark"
alias HDR = "(net/http.ResponseWriter).Header"
alias JOIN = "strings.Join"

extern "strings.Join"(elems, sep) (s)
  event
  pure

client zzMark()
  trusted
  event

def nothing(k) = n(k) == atcall(MARK, n(k))
def one(k) = n(k) == atcall(MARK, n(k)) + 1
# the map h, except for the key x, is as it was at the mark
def entry(h, k) = has(h, k) == atcall(MARK, has(h, k)) && (has(h, k) ==> h[k] == atcall(MARK, h[k]) && forall(i, 0 <= i && i < len(h[k]) ==> h[k][i] == atcall(MARK, h[k][i])))
def unchanged(h) = forall(k, string(k), entry(h, k))
# (the recorded list's storage is assumed not to be part of a header map)
def entryM(h, k, m) = has(h, k) == atcall(MARK, has(h, k)) && (has(h, k) ==> h[k] == atcall(MARK, h[k]) && (arr(h[k]) != arr(m) ==> forall(i, 0 <= i && i < len(h[k]) ==> h[k][i] == atcall(MARK, h[k][i]))))
def unchangedBut(h, x, m) = forall(k, string(k), k != x ==> entryM(h, k, m))
def isin(s, l) = exists(i, 0 <= i && i < len(l) && l[i] == s)
def joined() = arg(JOIN, n(JOIN)-1, 0, []string)
def allow(h) = has(h, "Allow") && len(h["Allow"]) == 1 && h["Allow"][0] == res(JOIN, n(JOIN)-1, 0, string)
# the joined list is the recorded methods, with OPTIONS at the end if they lack it
def listedIn(l, m) = len(l) >= len(m) && forall(i, 0 <= i && i < len(m) ==> l[i] == atcall(MARK, m[i])) && (len(l) == len(m) ==> isin("OPTIONS", l)) && (len(l) != len(m) ==> len(l) == len(m) + 1 && l[len(m)] == "OPTIONS" && atcall(MARK, forall(i, 0 <= i && i < len(m) ==> m[i] != "OPTIONS")))
def listed(l, m) = atcall(JOIN, listedIn(l, m))

client zzCheckArgs(w, w2, r, r2, options)
  trusted
  requires [request] r2 == r
  requires [writer] !options ==> w2 == w

client zzCheckHeader(w, h, hd)
  trusted
  requires [header] one(HDR) && called(HDR, n(HDR)-1, w) && h == res(HDR, n(HDR)-1, 0)
  requires [nothing-sent] nothing(WH) && nothing(WB)
  requires [headers] unchanged(hd)

client zzCheckWriteHeader(w, code, hd)
  trusted
  requires [forwarded] one(WH) && called(WH, n(WH)-1, w, code)
  requires [no-body] nothing(WB)
  requires [headers] atcall(WH, unchanged(hd))

client zzCheckWrite(w, buf, n1, err, hd)
  trusted
  requires [forwarded] one(WB) && called(WB, n(WB)-1, w, _) && arg(WB, n(WB)-1, 1, []byte) == buf
  requires [bytes] atcall(WB, forall(i, 0 <= i && i < len(buf) ==> buf[i] == atcall(MARK, buf[i])))
  requires [result] n1 == res(WB, n(WB)-1, 0) && err == res(WB, n(WB)-1, 1)
  requires [no-header] nothing(WH)
  requires [headers] atcall(WB, unchanged(hd))

client zzCheckSwallowedWrite(w, buf, n1, err, hd)
  trusted
  requires [swallowed] nothing(WB) && nothing(WH)
  requires [result] n1 == len(buf) && err == nil
  requires [headers] unchanged(hd)

client zzCheckSwallow(w, c, m, hd)
  trusted
  requires [status] one(WH) && called(WH, n(WH)-1, w, 200)
  requires [no-body] nothing(WB)
  requires [header] n(HDR) > atcall(MARK, n(HDR)) && called(HDR, n(HDR)-1, w)
  requires [headers] hd == res(HDR, n(HDR)-1, 0, http.Header) ==> atcall(WH, unchangedBut(hd, "Allow", m))
  requires [other-headers] hd != res(HDR, n(HDR)-1, 0, http.Header) ==> atcall(WH, forall(k, string(k), entryM(hd, k, m)))
  requires [allow] atcall(WH, allow(res(HDR, n(HDR)-1, 0, http.Header)))
  requires [separator] arg(JOIN, n(JOIN)-1, 1, string) == ", "
  requires [methods] listed(joined(), m)

client zzOptions(c, w, r, hd, next) (calls)
  prop C13
  requires c != nil && w != nil && r != nil && next != nil
  ensures [called-once] calls == 1
