package zzverif

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
)

type nullH struct{ id int }

func (nullH) ServeHTTP(w http.ResponseWriter, r *http.Request)           {}
func (nullH) ServeHTTPC(c web.C, w http.ResponseWriter, r *http.Request) {}

func explicitOf(c *web.C) web.Match {
	return web.GetMatch(*c)
}

func TestReplaySubRouter(t *testing.T) {
	params := []map[string]string{nil, {}, {"a": "/q"}, {"*": "/x"}, {"_": "/y"}, {"*": ""}, {"*": "/x", "_": "/y"}, {"_": "/y", "*": ""}, {"*": "/", "z": "1"}}
	h1, h2 := &nullH{1}, &nullH{2}
	m1, m2 := web.Match{Handler: h1}, web.Match{Handler: h2}
	envs := []func() map[interface{}]interface{}{
		func() map[interface{}]interface{} { return nil },
		func() map[interface{}]interface{} { return map[interface{}]interface{}{} },
		func() map[interface{}]interface{} { return map[interface{}]interface{}{"k": 1} },
		func() map[interface{}]interface{} { return map[interface{}]interface{}{"k": 1, web.MatchKey: m1} },
		func() map[interface{}]interface{} { return map[interface{}]interface{}{web.MatchKey: web.Match{}} },
	}
	type act struct {
		name string
		f    func(c *web.C, r *http.Request)
	}
	acts := []act{
		{"nothing", func(c *web.C, r *http.Request) {}},
		{"path", func(c *web.C, r *http.Request) { r.URL.Path = "/changed" }},
		{"params", func(c *web.C, r *http.Request) { c.URLParams = map[string]string{"*": "/zzz"} }},
		{"paramsNil", func(c *web.C, r *http.Request) { c.URLParams = nil }},
		{"match", func(c *web.C, r *http.Request) {
			if c.Env == nil {
				c.Env = map[interface{}]interface{}{}
			}
			c.Env[web.MatchKey] = m2
		}},
		{"envNew", func(c *web.C, r *http.Request) { c.Env = map[interface{}]interface{}{"n": 1} }},
		{"envNewMatch", func(c *web.C, r *http.Request) { c.Env = map[interface{}]interface{}{web.MatchKey: m2} }},
		{"envNil", func(c *web.C, r *http.Request) { c.Env = nil }},
		{"delete", func(c *web.C, r *http.Request) { delete(c.Env, web.MatchKey) }},
		{"panic", func(c *web.C, r *http.Request) { r.URL.Path = "/p"; panic("x") }},
		{"panicMatch", func(c *web.C, r *http.Request) {
			if c.Env != nil {
				c.Env[web.MatchKey] = m2
			}
			panic("x")
		}},
	}
	n := 0
	for _, p := range params {
		for ei, mk := range envs {
			for _, a := range acts {
				for _, nest := range []int{1, 2} {
					n++
					c := &web.C{URLParams: map[string]string{}, Env: mk()}
					if p == nil {
						c.URLParams = nil
					}
					for k, v := range p {
						c.URLParams[k] = v
					}
					desc := fmt.Sprintf("SubRouter with URLParams=%v, environment #%d, inner handler action %q, nested %d", p, ei, a.name, nest)
					before := explicitOf(c)
					want, bound := p["*"], true
					if _, ok := p["*"]; !ok {
						if want, ok = p["_"]; !ok {
							bound = false
						}
					}
					calls := 0
					r := httptest.NewRequest("GET", "/outer/path", nil)
					r.URL.RawPath = "/outer%2fpath"
					w := httptest.NewRecorder()
					var h http.Handler = http.HandlerFunc(func(w2 http.ResponseWriter, r2 *http.Request) {
						calls++
						if w2 != http.ResponseWriter(w) || r2 != r {
							failing(t, "%s: the inner handler got a different request or writer", desc)
						}
						if bound && r2.URL.Path != want {
							failing(t, "%s: inner path %q, want %q", desc, r2.URL.Path, want)
						}
						if !bound && (r2.URL.Path != "/outer/path" || explicitOf(c) != before) {
							failing(t, "%s: changed without a bound wildcard: %q", desc, r2.URL.Path)
						}
						if bound && explicitOf(c).Handler != nil {
							failing(t, "%s: inner handler sees the explicit Match", desc)
						}
						if ei == 2 && c.Env["k"] != 1 || ei == 3 && c.Env["k"] != 1 {
							failing(t, "%s: environment entry lost", desc)
						}
						a.f(c, r2)
					})
					for i := 0; i < nest; i++ {
						h = middleware.SubRouter(c, h)
					}
					func() {
						defer func() { recover() }()
						h.ServeHTTP(w, r)
					}()
					if calls != 1 {
						failing(t, "%s: inner handler called %d times", desc, calls)
					}
					if !bound {
						continue
					}
					if r.URL.Path != "/outer/path" {
						if !(nest == 2 && a.name[0] == 'p' && a.name == "params") {
							failing(t, "%s: path afterwards %q", desc, r.URL.Path)
						}
					}
					if c.Env != nil && explicitOf(c) != before {
						failing(t, "%s: Match afterwards %v, was %v", desc, explicitOf(c), before)
					}
				}
			}
		}
	}
	fmt.Printf("REPLAY SubRouter: %d combinations of parameters, environment, handler action and nesting\n", n)
}
