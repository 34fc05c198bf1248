package web

import (
	"net/http"
	"net/url"
)

// Models of the standard library's map types with methods (the bodies are
// those of the standard library; the proofs execute them in place of it).

func zzHeaderSet(h http.Header, k, v string) { h[http.CanonicalHeaderKey(k)] = []string{v} }
func zzHeaderAdd(h http.Header, k, v string) {
	k = http.CanonicalHeaderKey(k)
	h[k] = append(h[k], v)
}
func zzHeaderGet(h http.Header, k string) string {
	if h == nil {
		return ""
	}
	v := h[http.CanonicalHeaderKey(k)]
	if len(v) == 0 {
		return ""
	}
	return v[0]
}
func zzHeaderValues(h http.Header, k string) []string {
	if h == nil {
		return nil
	}
	return h[http.CanonicalHeaderKey(k)]
}
func zzHeaderDel(h http.Header, k string) { delete(h, http.CanonicalHeaderKey(k)) }

func zzValuesSet(h url.Values, k, v string) { h[k] = []string{v} }
func zzValuesAdd(h url.Values, k, v string) { h[k] = append(h[k], v) }
func zzValuesGet(h url.Values, k string) string {
	v := h[k]
	if len(v) == 0 {
		return ""
	}
	return v[0]
}
func zzValuesDel(h url.Values, k string) { delete(h, k) }
func zzValuesHas(h url.Values, k string) bool {
	_, ok := h[k]
	return ok
}
