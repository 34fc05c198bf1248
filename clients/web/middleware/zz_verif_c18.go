package middleware

import (
	"net/http"
	"time"
)

// NoCache serving one request; exp is the documented Expires value.
func zzNoCache(h http.Handler, w http.ResponseWriter, r *http.Request) (exp string) {
	exp = time.Unix(0, 0).Format(time.RFC1123)
	NoCache(h).ServeHTTP(w, r)
	return exp
}

func zzRealIP(h http.Handler, w http.ResponseWriter, r *http.Request) {
	RealIP(h).ServeHTTP(w, r)
}
