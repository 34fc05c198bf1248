package middleware

import (
	"net/http"

	"github.com/zenazn/goji/web"
)

// Recoverer around a handler that may panic; done tells that it returned.
func zzRecoverer(c *web.C, h http.Handler, w http.ResponseWriter, r *http.Request) (done bool) {
	Recoverer(c, http.HandlerFunc(func(w2 http.ResponseWriter, r2 *http.Request) {
		h.ServeHTTP(w2, r2)
		done = true
	})).ServeHTTP(w, r)
	return done
}
