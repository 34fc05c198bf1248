# Names of event kinds used by many contracts.
package web
alias H = "(net/http.Handler).ServeHTTP"
alias WH = "(net/http.ResponseWriter).WriteHeader"
alias WB = "(net/http.ResponseWriter).Write"

# ---- assumed contracts of the standard library (trusted) ----
extern "(net/http.ResponseWriter).Header"(w) (h)
  event
  pure
  ensures h != nil

model "(net/http.Header).Set" = zzHeaderSet
model "(net/http.Header).Add" = zzHeaderAdd
model "(net/http.Header).Get" = zzHeaderGet
model "(net/http.Header).Values" = zzHeaderValues
model "(net/http.Header).Del" = zzHeaderDel
model "(net/url.Values).Set" = zzValuesSet
model "(net/url.Values).Add" = zzValuesAdd
model "(net/url.Values).Get" = zzValuesGet
model "(net/url.Values).Del" = zzValuesDel
model "(net/url.Values).Has" = zzValuesHas

extern "fmt.Errorf"(f, a) (err)
  event
  ensures err != nil

extern "errors.New"(s) (err)
  event
  ensures err != nil
