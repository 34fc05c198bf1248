package web

import "net/http"

func zzMark()  {}
func zzMark2() {}

// One request through the stack; then the innermost handler is called again.
func zzServe(m *Mux, viaC bool, c C, w http.ResponseWriter, r *http.Request) {
	if viaC {
		m.ServeHTTPC(c, w, r)
	} else {
		m.ServeHTTP(w, r)
	}
	if zzLayers() {
		zzMark2()
		zzInner().ServeHTTP(w, r)
	}
}

// Whether there are layers.
func zzLayers() bool { return true }

// The handler given to the innermost layer.
func zzInner() http.Handler { return nil }

func zzUse(m *Mux, mw MiddlewareType, c *C, h http.Handler) http.Handler {
	m.Use(mw)
	f := zzLayerFn(m)
	zzMark()
	return f(c, h)
}

// The function of the layer just added.
func zzLayerFn(m *Mux) func(*C, http.Handler) http.Handler { return nil }

func zzInsert(m *Mux, mw, before MiddlewareType) (error, int) {
	i := zzFirst(m, before)
	return m.Insert(mw, before), i
}

func zzAbandon(m *Mux, mw MiddlewareType) (error, int) {
	i := zzFirst(m, mw)
	return m.Abandon(mw), i
}

// The index of the first layer that is mw, or -1.
func zzFirst(m *Mux, mw MiddlewareType) int { return -1 }

type zzMC = func(*C, http.Handler) http.Handler
type zzMH = func(http.Handler) http.Handler
