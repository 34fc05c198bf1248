package web

import "net/http"

func zzMark() {}

// Registers a handler and calls what was registered.
func zzHandle(m *Mux, p Pattern, h HandlerType, c C, w http.ResponseWriter, r *http.Request) {
	m.Handle(p, h)
	hd := m.rt.routes[0].handler
	zzMark()
	hd.ServeHTTPC(c, w, r)
}

func zzNotFound(m *Mux, h HandlerType, c C, w http.ResponseWriter, r *http.Request) {
	m.NotFound(h)
	hd := m.rt.notFound
	zzMark()
	hd.ServeHTTPC(c, w, r)
}

func zzHandlerFunc(h HandlerFunc, w http.ResponseWriter, r *http.Request) { h.ServeHTTP(w, r) }

func zzHandlerFuncC(h HandlerFunc, c C, w http.ResponseWriter, r *http.Request) {
	h.ServeHTTPC(c, w, r)
}

func zzPattern(raw PatternType) Pattern { return ParsePattern(raw) }

// Registers a pattern.
func zzHandlePattern(m *Mux, raw PatternType, h Handler) Pattern {
	m.Handle(raw, h)
	return m.rt.routes[0].pattern
}

type zzFC = func(C, http.ResponseWriter, *http.Request)
type zzFN = func(http.ResponseWriter, *http.Request)
type zzHH = http.Handler
