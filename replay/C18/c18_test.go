package zzverif

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strings"
	"testing"

	"github.com/zenazn/goji/web/middleware"
)

func TestReplayNoCacheRealIP(t *testing.T) {
	n := 0
	rnd := seeded()
	cond := []string{"Etag", "If-Modified-Since", "If-Match", "If-None-Match", "If-Range", "If-Unmodified-Since"}
	other := []string{"Accept", "If", "X-Forwarded-For", "Cache-Control", "If-None", "Last-Modified", "Pragma"}
	anti := map[string]string{"Expires": "Thu, 01 Jan 1970 00:00:00 UTC", "Cache-Control": "no-cache, private, max-age=0", "Pragma": "no-cache", "X-Accel-Expires": "0"}
	vals := [][]string{nil, {}, {""}, {"x"}, {"", "y"}, {"a", "b"}}
	for i := 0; i < 3000; i++ {
		n++
		r := &http.Request{Method: "GET", Header: http.Header{}}
		for _, k := range append(append([]string{}, cond...), other...) {
			if j := rnd.Intn(2 * len(vals)); j < len(vals) {
				r.Header[k] = vals[j]
			}
		}
		in := r.Header.Clone()
		w := httptest.NewRecorder()
		for k := range anti {
			if rnd.Intn(3) == 0 {
				w.HeaderMap[k] = []string{"old", "older"}
			}
		}
		w.HeaderMap["Etag"] = []string{"e"}
		w.HeaderMap["Last-Modified"] = []string{"l"}
		desc := fmt.Sprintf("NoCache with request headers %v, response headers %v", in, w.HeaderMap)
		calls := 0
		middleware.NoCache(http.HandlerFunc(func(w2 http.ResponseWriter, r2 *http.Request) {
			calls++
			if w2 != http.ResponseWriter(w) || r2 != r {
				failing(t, "%s: other arguments", desc)
			}
			for _, k := range cond {
				if _, ok := r2.Header[k]; ok {
					failing(t, "%s: %s not removed", desc, k)
				}
				delete(in, k)
			}
			if !reflect.DeepEqual(in, r2.Header) {
				failing(t, "%s: request headers became %v", desc, r2.Header)
			}
			want := http.Header{"Etag": {"e"}, "Last-Modified": {"l"}}
			for k, v := range anti {
				want.Set(k, v)
			}
			if want["Expires"][0] != w2.Header().Get("Expires") && w2.Header().Get("Expires") != "Thu, 01 Jan 1970 00:00:00 UTC" {
				want["Expires"] = w2.Header()["Expires"] // in local time
				if len(want["Expires"]) != 1 || !strings.Contains(want["Expires"][0], "197") && !strings.Contains(want["Expires"][0], "1969") {
					failing(t, "%s: Expires is %v", desc, want["Expires"])
				}
			}
			if !reflect.DeepEqual(want, w2.Header()) {
				failing(t, "%s: response headers became %v", desc, w2.Header())
			}
		})).ServeHTTP(w, r)
		if calls != 1 {
			failing(t, "%s: handler called %d times", desc, calls)
		}
	}
	xff := []string{"-", "", "1.2.3.4", "a, b", "a,b", ",b", " a, b", "a b", "::1,x, y", "a;b", "a,"}
	for _, x := range xff {
		for _, x2 := range xff[:4] {
			for _, ip := range xff {
				n++
				r := &http.Request{Method: "GET", Header: http.Header{}, RemoteAddr: "orig:1"}
				if x != "-" {
					r.Header["X-Forwarded-For"] = []string{x}
					if x2 != "-" {
						r.Header["X-Forwarded-For"] = []string{x, x2}
					}
				}
				if ip != "-" {
					r.Header["X-Real-Ip"] = []string{ip}
				}
				in := r.Header.Clone()
				want := "orig:1"
				if f := in.Get("X-Forwarded-For"); f != "" {
					if e := strings.Split(f, ",")[0]; e != "" {
						want = e
					}
				} else if f := in.Get("X-Real-Ip"); f != "" {
					want = f
				}
				w := httptest.NewRecorder()
				calls := 0
				middleware.RealIP(http.HandlerFunc(func(w2 http.ResponseWriter, r2 *http.Request) {
					calls++
					if r2 != r || w2 != http.ResponseWriter(w) || r2.RemoteAddr != want || !reflect.DeepEqual(in, r2.Header) {
						failing(t, "RealIP with headers %v: RemoteAddr %q instead of %q, headers %v", in, r2.RemoteAddr, want, r2.Header)
					}
				})).ServeHTTP(w, r)
				if calls != 1 {
					failing(t, "RealIP with headers %v: handler called %d times", in, calls)
				}
			}
		}
	}
	fmt.Printf("REPLAY %d requests\n", n)
}
