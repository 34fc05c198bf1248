package middleware

import (
	"net/http"

	"github.com/zenazn/goji/web"
)

// SubRouter's layer serving one request.
func zzSubRouter(c *web.C, h http.Handler, w http.ResponseWriter, r *http.Request) {
	SubRouter(c, h).ServeHTTP(w, r)
}
