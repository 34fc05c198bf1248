package web

import "net/http"

// Adding a route.
func zzAdd(rt *router, p Pattern, m method, h Handler) { rt.handle(p, m, h) }

// A request.
func zzRequest(rt *router, c *C, w http.ResponseWriter, r *http.Request) Match {
	return rt.getMatch(c, w, r)
}

// A request that starts after a route was added.
func zzAddThenRequest(rt *router, p Pattern, m method, h Handler, c *C, w http.ResponseWriter, r *http.Request) Match {
	rt.handle(p, m, h)
	zzMark09()
	return rt.getMatch(c, w, r)
}

// A point between the two calls.
func zzMark09() {}
