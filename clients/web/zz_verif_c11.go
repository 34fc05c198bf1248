package web

import "net/http"

// The function of the k-th verb.
func zzVerb(m *Mux, k int, p Pattern, h Handler) {
	switch k {
	case 0:
		m.Handle(p, h)
	case 1:
		m.Connect(p, h)
	case 2:
		m.Delete(p, h)
	case 3:
		m.Get(p, h)
	case 4:
		m.Head(p, h)
	case 5:
		m.Options(p, h)
	case 6:
		m.Patch(p, h)
	case 7:
		m.Post(p, h)
	case 8:
		m.Put(p, h)
	case 9:
		m.Trace(p, h)
	}
}

// Whether a route registered for the methods ms serves the request.
func zzServes(rt route, k int, r *http.Request, c *C) bool {
	var ms method
	ok := matchRoute(rt, httpMethod(r.Method), &ms, r, c)
	return ok
}
