package zzverif

import (
	"net/http"
	"net/http/httptest"
	"reflect"
	"regexp"
	"testing"

	"github.com/zenazn/goji/web"
)

type recH struct {
	n   int
	c   web.C
	env map[interface{}]interface{}
}

func (h *recH) ServeHTTPC(c web.C, w http.ResponseWriter, r *http.Request) {
	h.n++
	h.c = c
	h.env = map[interface{}]interface{}{}
	for k, v := range c.Env {
		h.env[k] = v
	}
}

type cntPat struct {
	ok bool
	n  *int
}

func (p cntPat) Prefix() string                          { return "" }
func (p cntPat) Match(r *http.Request, c *web.C) bool    { *p.n++; return p.ok }
func (p cntPat) Run(r *http.Request, c *web.C)           { *p.n++ }

type otherEntry struct{ k, v interface{} }

func TestReplayExplicit(t *testing.T) {
	envs := []func(m *recH) (map[interface{}]interface{}, bool){
		func(m *recH) (map[interface{}]interface{}, bool) { return nil, false },
		func(m *recH) (map[interface{}]interface{}, bool) { return map[interface{}]interface{}{}, false },
		func(m *recH) (map[interface{}]interface{}, bool) {
			return map[interface{}]interface{}{"a": 1, web.MatchKey: web.Match{}}, false
		},
		func(m *recH) (map[interface{}]interface{}, bool) {
			return map[interface{}]interface{}{web.MatchKey: web.Match{Pattern: web.ParsePattern("/zz")}}, false
		},
		func(m *recH) (map[interface{}]interface{}, bool) {
			return map[interface{}]interface{}{web.MatchKey: &web.Match{Handler: m}}, false
		},
		func(m *recH) (map[interface{}]interface{}, bool) {
			return map[interface{}]interface{}{web.MatchKey: "x", "b": 2}, false
		},
		func(m *recH) (map[interface{}]interface{}, bool) {
			return map[interface{}]interface{}{web.MatchKey: web.Match{Handler: m}, "c": 3}, true
		},
		func(m *recH) (map[interface{}]interface{}, bool) {
			return map[interface{}]interface{}{web.MatchKey: web.Match{Pattern: web.ParsePattern("/zz"), Handler: m}}, true
		},
	}
	n := 0
	for ei, mk := range envs {
		for _, ok := range []bool{true, false} {
			for _, explicitRouter := range []bool{false, true} {
				exp, routed, nf, cnt := &recH{}, &recH{}, &recH{}, 0
				m := web.New()
				m.Get(cntPat{ok, &cnt}, routed)
				m.Post(cntPat{false, new(int)}, routed)
				if ei%2 == 0 {
					m.Compile()
				}
				m.NotFound(nf)
				env, honoured := mk(exp)
				before := map[interface{}]interface{}{}
				for k, v := range env {
					before[k] = v
				}
				var seen web.Match
				if explicitRouter {
					m.Use(m.Router)
					m.Use(func(c *web.C, h http.Handler) http.Handler {
						return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
							seen = web.GetMatch(*c)
							for k, v := range before {
								if k != web.MatchKey && !reflect.DeepEqual(c.Env[k], v) {
									failing(t, "Router middleware, environment %d: entry %v changed", ei, k)
								}
							}
							h.ServeHTTP(w, r)
						})
					})
				}
				r, _ := http.NewRequest("GET", "/q", nil)
				m.ServeHTTPC(web.C{Env: env, URLParams: map[string]string{"u": "v"}}, httptest.NewRecorder(), r)
				n++
				want := nf
				if ok {
					want = routed
				}
				if honoured && !explicitRouter {
					want = exp
					if cnt != 0 {
						failing(t, "environment %d holds a Match with a handler, but the Mux routed", ei)
					}
				}
				if exp.n+routed.n+nf.n != 1 || want.n != 1 {
					failing(t, "environment %d, pattern matches %v, Router middleware %v: explicit handler ran %d, route %d, NotFound %d times", ei, ok, explicitRouter, exp.n, routed.n, nf.n)
				}
				if want.c.URLParams["u"] != "v" {
					failing(t, "environment %d: the handler's URLParams are %v", ei, want.c.URLParams)
				}
				for k, v := range before {
					if k != web.MatchKey && !reflect.DeepEqual(want.env[k], v) {
						failing(t, "environment %d: entry %v is %v for the handler", ei, k, want.env[k])
					}
				}
				if explicitRouter && (seen.Handler != web.Handler(want) || (ok != (seen.Pattern != nil))) {
					failing(t, "environment %d: Router middleware stored %v", ei, seen)
				}
			}
		}
	}
	println("REPLAY explicit matches:", n, "requests")
}

func TestReplayRaw(t *testing.T) {
	re := regexp.MustCompile("a")
	f1 := func(web.C, http.ResponseWriter, *http.Request) {}
	f2 := func(http.ResponseWriter, *http.Request) {}
	cnt := 0
	for _, p := range []interface{}{"/a/:b", "", "/x*", re, cntPat{true, &cnt}} {
		if g := (web.Match{Pattern: web.ParsePattern(p)}).RawPattern(); g != p {
			failing(t, "RawPattern of %v is %v", p, g)
		}
	}
	for _, h := range []interface{}{f1, f2, http.HandlerFunc(f2), web.HandlerFunc(f1), &recH{}, http.NotFoundHandler(), http.NewServeMux()} {
		m := web.New()
		m.Get("/", h)
		var got interface{}
		m.Use(m.Router)
		m.Use(func(c *web.C, next http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { got = web.GetMatch(*c).RawHandler() })
		})
		r, _ := http.NewRequest("GET", "/", nil)
		m.ServeHTTP(httptest.NewRecorder(), r)
		a, b := reflect.ValueOf(got), reflect.ValueOf(h)
		if !a.IsValid() || a.Type() != b.Type() || (a.Kind() == reflect.Func || a.Kind() == reflect.Ptr) && a.Pointer() != b.Pointer() {
			failing(t, "RawHandler of a %T is a %T", h, got)
		}
	}
	if (web.Match{}).RawHandler() != nil || (web.Match{}).RawPattern() != nil {
		failing(t, "an empty Match has a raw pattern or handler")
	}
	if m := web.GetMatch(web.C{Env: map[interface{}]interface{}{web.MatchKey: &web.Match{}}}); m.Handler != nil || m.Pattern != nil {
		failing(t, "GetMatch of another type is %v", m)
	}
}
