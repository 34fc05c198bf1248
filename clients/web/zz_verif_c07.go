package web

import "net/http"

// One request.
func zzServe(m *Mux, viaC bool, c C, w http.ResponseWriter, r *http.Request) {
	if viaC {
		m.ServeHTTPC(c, w, r)
	} else {
		m.ServeHTTP(w, r)
	}
}

func zzNew() *Mux { return New() }

func zzUse(m *Mux, mw MiddlewareType)                  { m.Use(mw) }
func zzInsert(m *Mux, mw, before MiddlewareType) error { return m.Insert(mw, before) }
func zzAbandon(m *Mux, mw MiddlewareType) error        { return m.Abandon(mw) }
