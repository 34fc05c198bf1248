package zzverif

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/zenazn/goji"
	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
)

var verbs = []struct {
	name    string
	mux     func(*web.Mux, web.PatternType, web.HandlerType)
	pkg     func(web.PatternType, web.HandlerType)
	methods []string
}{
	{"Handle", (*web.Mux).Handle, goji.Handle, nil},
	{"Connect", (*web.Mux).Connect, goji.Connect, []string{"CONNECT"}},
	{"Delete", (*web.Mux).Delete, goji.Delete, []string{"DELETE"}},
	{"Get", (*web.Mux).Get, goji.Get, []string{"GET", "HEAD"}},
	{"Head", (*web.Mux).Head, goji.Head, []string{"HEAD"}},
	{"Options", (*web.Mux).Options, goji.Options, []string{"OPTIONS"}},
	{"Patch", (*web.Mux).Patch, goji.Patch, []string{"PATCH"}},
	{"Post", (*web.Mux).Post, goji.Post, []string{"POST"}},
	{"Put", (*web.Mux).Put, goji.Put, []string{"PUT"}},
	{"Trace", (*web.Mux).Trace, goji.Trace, []string{"TRACE"}},
}

func allMethods() []string {
	ms := []string{"", "FOO", "PROPFIND", "GETT", "GE", "PUT ", " PUT", "*", "\xff"}
	for _, m := range []string{"CONNECT", "DELETE", "GET", "HEAD", "OPTIONS", "PATCH", "POST", "PUT", "TRACE"} {
		ms = append(ms, m, strings.ToLower(m), m[:1]+strings.ToLower(m[1:]), m+"X", m[1:])
	}
	return ms
}

func TestReplayVerbs(t *testing.T) {
	n := 0
	old := goji.DefaultMux
	defer func() { goji.DefaultMux = old }()
	for _, v := range verbs {
		for _, pkg := range []bool{false, true} {
			for _, others := range []bool{false, true} {
				mux := web.New()
				hit := ""
				h := func(name string) func(http.ResponseWriter, *http.Request) {
					return func(http.ResponseWriter, *http.Request) { hit = name }
				}
				goji.DefaultMux = mux
				if others {
					for _, o := range verbs {
						if o.name != v.name {
							o.mux(mux, "/other/"+o.name, h("other"))
						}
					}
				}
				if pkg {
					v.pkg("/a", h("hit"))
				} else {
					v.mux(mux, "/a", h("hit"))
				}
				if others {
					for _, o := range verbs {
						o.mux(mux, "/later/"+o.name, h("other"))
					}
				}
				mux.NotFound(h("404"))
				for _, m := range allMethods() {
					n++
					want := "404"
					if v.methods == nil {
						want = "hit"
					}
					for _, x := range v.methods {
						if x == m {
							want = "hit"
						}
					}
					hit = ""
					r := httptest.NewRequest("GET", "/a", nil)
					r.Method = m
					mux.ServeHTTP(httptest.NewRecorder(), r)
					if hit != want {
						failing(t, "route registered with %s (package level: %v), request method %q: %q ran, want %q", v.name, pkg, m, hit, want)
					}
				}
			}
		}
	}
	goji.DefaultMux = web.New()
	hit := false
	goji.NotFound(func(http.ResponseWriter, *http.Request) { hit = true })
	goji.DefaultMux.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/q", nil))
	if !hit {
		failing(t, "goji.NotFound does not set the default Mux's handler")
	}
	order := ""
	mw := func(s string) func(http.Handler) http.Handler {
		return func(h http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { order += s; h.ServeHTTP(w, r) })
		}
	}
	a, b := mw("a"), mw("b")
	goji.Use(a)
	if goji.Insert(b, a) != nil || goji.Insert(b, middleware.NoCache) == nil || goji.Abandon(middleware.NoCache) == nil {
		failing(t, "goji.Insert or goji.Abandon do not return the Mux's error")
	}
	goji.DefaultMux.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/q", nil))
	if order != "ba" {
		failing(t, "goji.Use(a), goji.Insert(b, a): middleware order %q", order)
	}
	order = ""
	if goji.Abandon(b) != nil {
		failing(t, "goji.Abandon does not find a layer")
	}
	goji.DefaultMux.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/q", nil))
	if order != "a" {
		failing(t, "goji.Abandon(b): middleware order %q", order)
	}
	fmt.Printf("REPLAY C11: %d requests\n", n)
}
