package web

import "net/http"

func zzMark() {}

// What the end of the middleware stack does.
func zzEnd(m *Mux, c *C, w http.ResponseWriter, r *http.Request) {
	m.ms.router.route(c, w, r)
}

func zzNew() *Mux { return New() }

func zzRouter(m *Mux, c *C, h http.Handler, w http.ResponseWriter, r *http.Request) {
	m.Router(c, h).ServeHTTP(w, r)
}

func zzGetMatch(c C) Match { return GetMatch(c) }

func zzRawPattern(raw PatternType) PatternType {
	return Match{Pattern: ParsePattern(raw)}.RawPattern()
}

func zzRawHandler(h HandlerType) HandlerType {
	return Match{Handler: parseHandler(h)}.RawHandler()
}

func zzRawEmpty() (PatternType, HandlerType) {
	return Match{}.RawPattern(), Match{}.RawHandler()
}

type zzFC = func(C, http.ResponseWriter, *http.Request)
type zzFN = func(http.ResponseWriter, *http.Request)
