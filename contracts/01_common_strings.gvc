# Assumed contracts of package strings (trusted), as far as they are used.
package web

# p occurs in s at i, and not before
def occurs(s, p, i) = 0 <= i && i + len(p) <= len(s) && sub(s, i, i+len(p)) == p
def firstAt(s, p, i) = occurs(s, p, i) && forall(j, 0 <= j && j < i ==> !occurs(s, p, j))
def nowhere(s, p) = forall(j, 0 <= j && j <= len(s) ==> !occurs(s, p, j))
def firstByte(s, c, i) = 0 <= i && i < len(s) && s[i] == c && forall(j, 0 <= j && j < i ==> s[j] != c)
def noByte(s, c) = forall(j, 0 <= j && j < len(s) ==> s[j] != c)
def firstAny(s, p, i) = ite(len(p) == 1, firstByte(s, p[0], i), firstAt(s, p, i))
def nowhereAny(s, p) = ite(len(p) == 1, noByte(s, p[0]), nowhere(s, p))

extern "strings.IndexByte"(s, c) (i)
  pure
  ensures i == -1 && noByte(s, c) || firstByte(s, c, i)

extern "strings.IndexRune"(s, c) (i)
  pure
  ensures 0 <= c && c < 128 ==> i == -1 && noByte(s, c) || firstByte(s, c, i)
  ensures -1 <= i && i < len(s)

extern "strings.Index"(s, p) (i)
  pure
  ensures i == -1 && nowhereAny(s, p) || firstAny(s, p, i)
  ensures i < 0 || i + len(p) <= len(s)

extern "strings.LastIndexByte"(s, c) (i)
  pure
  ensures i == -1 && noByte(s, c) || 0 <= i && i < len(s) && s[i] == c && forall(j, i < j && j < len(s) ==> s[j] != c)

extern "strings.Contains"(s, p) (ok)
  pure
  ensures ok ==> exists(i, firstAny(s, p, i))
  ensures !ok ==> nowhereAny(s, p)

extern "strings.Cut"(s, p) (before, after, found)
  pure
  ensures !found ==> before == s && after == "" && nowhereAny(s, p)
  ensures found ==> firstAny(s, p, len(before)) && before == sub(s, 0, len(before)) && after == sub(s, len(before)+len(p), len(s))

extern "strings.Split"(s, p) (l)
  ensures fresh(l) || len(l) == 0
  ensures len(p) > 0 ==> len(l) >= 1
  ensures len(p) > 0 && nowhereAny(s, p) ==> len(l) == 1 && l[0] == s
  ensures len(p) > 0 && !nowhereAny(s, p) ==> len(l) >= 2 && firstAny(s, p, len(l[0])) && l[0] == sub(s, 0, len(l[0]))

extern "strings.SplitN"(s, p, n) (l)
  ensures fresh(l) || len(l) == 0
  ensures len(p) > 0 && n != 0 ==> len(l) >= 1
  ensures len(p) > 0 && (nowhereAny(s, p) || n == 1) ==> len(l) == 1 && l[0] == s
  ensures len(p) > 0 && !nowhereAny(s, p) && n != 0 && n != 1 ==> len(l) >= 2 && firstAny(s, p, len(l[0])) && l[0] == sub(s, 0, len(l[0]))

extern "time.Unix"(s, n) (t)
  pure

extern "(time.Time).Format"(t, layout) (s)
  pure

extern "strings.HasPrefix"(s, p) (ok)
  pure
  ensures iff(ok, pfx(p, s))

extern "strings.HasSuffix"(s, p) (ok)
  pure
  ensures ok ==> len(p) <= len(s) && sub(s, len(s)-len(p), len(s)) == p
  ensures !ok ==> len(p) > len(s) || sub(s, len(s)-len(p), len(s)) != p

extern "strings.TrimPrefix"(s, p) (r)
  pure
  ensures pfx(p, s) ==> r == sub(s, len(p), len(s))
  ensures !pfx(p, s) ==> r == s

extern "strings.CutPrefix"(s, p) (r, ok)
  pure
  ensures iff(ok, pfx(p, s))
  ensures ok ==> r == sub(s, len(p), len(s))
  ensures !ok ==> r == s

extern "strings.TrimSuffix"(s, p) (r)
  pure
  ensures len(p) <= len(s) && sub(s, len(s)-len(p), len(s)) == p ==> r == sub(s, 0, len(s)-len(p))
  ensures len(p) > len(s) || sub(s, len(s)-len(p), len(s)) != p ==> r == s

extern "strings.ContainsRune"(s, c) (ok)
  pure
  ensures 0 <= c && c < 128 ==> iff(ok, hasbyte(s, c))
