package middleware

import (
	"net/http"

	"github.com/zenazn/goji/web"
)

func zzEnvInit(c *web.C, h http.Handler, w http.ResponseWriter, r *http.Request) {
	EnvInit(c, h).ServeHTTP(w, r)
}

func zzURLQuery(c *web.C, h http.Handler, w http.ResponseWriter, r *http.Request) {
	URLQuery(c, h).ServeHTTP(w, r)
}

func zzRequestID(c *web.C, h http.Handler, w http.ResponseWriter, r *http.Request) {
	RequestID(c, h).ServeHTTP(w, r)
}

// Two requests; what the handlers (and with them the rest of the program) do
// between and during them is unknown.
func zzTwoIDs(c1, c2 *web.C, h http.Handler, w http.ResponseWriter, r *http.Request) (id1, id2 string) {
	get := func(c *web.C, id *string) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			*id = GetReqID(*c)
			h.ServeHTTP(w, r)
		})
	}
	RequestID(c1, get(c1, &id1)).ServeHTTP(w, r)
	RequestID(c2, get(c2, &id2)).ServeHTTP(w, r)
	return id1, id2
}

func zzGetReqID(c web.C) string { return GetReqID(c) }
