package web

import "net/http"

// Adding a route (r, c and q: a request, and its method).
func zzRegister(rt *router, p Pattern, m method, h Handler, r *http.Request, c *C, q method) {
	rt.handle(p, m, h)
}

// A request is routed.
func zzGetMatch(rt *router, c *C, w http.ResponseWriter, r *http.Request) Match {
	return rt.getMatch(c, w, r)
}

// A request is served.
func zzServe(rt *router, c *C, w http.ResponseWriter, r *http.Request) { rt.route(c, w, r) }
