package mutil
alias MARK = "github.com/zenazn/goji/web/mutil.zzMark"
alias MARK2 = "github.com/zenazn/goji/web/mutil.zzMark2"
alias HDR = "(net/http.ResponseWriter).Header"
alias TW = "(io.Writer).Write"
alias RF = "(io.ReaderFrom).ReadFrom"
alias FL = "(net/http.Flusher).Flush"
alias HJ = "(net/http.Hijacker).Hijack"
alias PU = "(net/http.Pusher).Push"

model "io.Copy" = zzCopy
model "io.CopyBuffer" = zzCopy

# writers accept no more than they are given
extern "(net/http.ResponseWriter).Write"(w, b) (n, err)
  event
  ensures 0 <= n && n <= len(b)

client zzMark()
  trusted
  event

client zzMark2()
  trusted
  event

client zzRead(src) (buf, end, err)
  trusted
  event

client zzWroteHeader() (b)
  trusted
  pure
  ensures b == (n(WH) > atcall(MARK, n(WH)))

def nothing(k) = n(k) == atcall(MARK, n(k))
def one(k) = n(k) == atcall(MARK, n(k)) + 1
def last(k) = n(k) - 1
def quiet() = nothing(FL) && nothing(HJ) && nothing(PU)
def header(w, sent, c) = ite(sent, nothing(WH), one(WH) && called(WH, last(WH), w, c))
# what one body write does, after the header
def wrote(w, buf, n1, err, tee) = called(WB, last(WB), w) && arg(WB, last(WB), 1, []byte) == buf && n1 == res(WB, last(WB), 0, int)
def teed(buf, n1, err, tee) = called(TW, last(TW), tee) && time(TW, last(TW)) > time(WB, last(WB)) && arr(arg(TW, last(TW), 1, []byte)) == arr(buf) && off(arg(TW, last(TW), 1, []byte)) == off(buf) && len(arg(TW, last(TW), 1, []byte)) == n1 && ite(res(WB, last(WB), 1, error) != nil, err == res(WB, last(WB), 1, error), err == res(TW, last(TW), 1, error))

client zzCheckWrap(w, fl, hj, rf, pfl, phj, prf)
  trusted
  requires [optional] fl && hj && rf ==> pfl && phj && prf
  requires [nothing-more] (pfl ==> fl) && (phj ==> hj) && (prf ==> rf)
  requires [nothing-sent] nothing(WH) && nothing(WB) && nothing(HDR)

client zzCheckHeader(w, h)
  trusted
  requires [header] one(HDR) && called(HDR, last(HDR), w) && h == res(HDR, last(HDR), 0)
  requires [nothing-sent] nothing(WH) && nothing(WB) && nothing(RF) && nothing(TW) && quiet()

client zzCheckWriteHeader(w, code, sent)
  trusted
  requires [header] header(w, sent, code)
  requires [nothing-else] nothing(WB) && nothing(RF) && nothing(TW) && quiet()

client zzCheckWrite(w, buf, n1, err, sent, tee)
  trusted
  requires [header] header(w, sent, 200) && (sent || time(WH, last(WH)) < time(WB, last(WB)))
  requires [body] one(WB) && wrote(w, buf, n1, err, tee)
  requires [no-tee] tee == nil ==> nothing(TW) && err == res(WB, last(WB), 1, error)
  requires [tee] tee != nil ==> one(TW) && teed(buf, n1, err, tee)
  requires [nothing-else] nothing(RF) && quiet()

client zzCheckReadFrom(w, r, n1, err, sent)
  trusted
  requires [header] header(w, sent, 200) && (sent || time(WH, last(WH)) < time(RF, last(RF)))
  requires [body] one(RF) && called(RF, last(RF), _, r) && arg(RF, last(RF), 0) == w && n1 == res(RF, last(RF), 0, int64) && err == res(RF, last(RF), 1, error)
  requires [nothing-else] nothing(WB) && nothing(TW) && quiet()

# every chunk written by the copying goes through like a Write
client zzCheckChunk(buf, n1, err)
  trusted
  requires [body] n(WB) == atcall(MARK2, n(WB)) + 1 && arg(WB, last(WB), 1, []byte) == buf && n1 == res(WB, last(WB), 0, int)
  requires [tee] n(TW) == atcall(MARK2, n(TW)) + 1 && teed(buf, n1, err, arg(TW, last(TW), 0, io.Writer))
  requires [header] n(WH) == atcall(MARK2, n(WH)) || n(WH) == atcall(MARK2, n(WH)) + 1 && arg(WH, last(WH), 1, int) == 200 && time(WH, last(WH)) < time(WB, last(WB))

client zzCheckCopied(w, sent, tee)
  trusted
  requires [header] nothing(WH) || !sent && header(w, sent, 200)
  requires [writer] forall(i, atcall(MARK, n(WB)) <= i && i < n(WB) ==> arg(WB, i, 0, http.ResponseWriter) == w)
  requires [tee] forall(i, atcall(MARK, n(TW)) <= i && i < n(TW) ==> arg(TW, i, 0, io.Writer) == tee)
  requires [all-sent-after-header] n(WB) > atcall(MARK, n(WB)) && !sent ==> one(WH)
  requires [nothing-else] nothing(RF) && quiet()

client zzCheckFlush(w)
  trusted
  requires [flush] one(FL) && arg(FL, last(FL), 0) == w
  requires [nothing-else] nothing(WH) && nothing(WB) && nothing(RF) && nothing(TW)

client zzCheckHijack(w)
  trusted
  requires [hijack] one(HJ) && arg(HJ, last(HJ), 0) == w
  requires [nothing-else] nothing(WH) && nothing(WB) && nothing(RF) && nothing(TW)

client zzCheckPush(w, target, err, ok)
  trusted
  requires [push] ite(ok, one(PU) && arg(PU, last(PU), 0) == w && arg(PU, last(PU), 1, string) == target && err == res(PU, last(PU), 0, error), nothing(PU) && err != nil)
  requires [nothing-else] nothing(WH) && nothing(WB) && nothing(RF) && nothing(TW)

client zzCheckState(w, u, status, code, bytes, total)
  trusted
  requires [unwrap] u == w
  requires [status] status == code
  requires [bytes] bytes == total

client zzProxy(w, next)
  prop C14
  requires w != nil && next != nil
