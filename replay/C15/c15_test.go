package zzverif

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"sync"
	"testing"

	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
)

func TestReplayEnvMiddleware(t *testing.T) {
	type mw struct {
		name string
		key  interface{}
		f    func(*web.C, http.Handler) http.Handler
	}
	mws := []mw{{"EnvInit", nil, middleware.EnvInit}, {"URLQuery", middleware.URLQueryKey, middleware.URLQuery}, {"RequestID", middleware.RequestIDKey, middleware.RequestID}}
	envs := []map[interface{}]interface{}{
		nil, {}, {"k": 1}, {middleware.URLQueryKey: 7, "z": 2}, {middleware.RequestIDKey: "old", 3: 4},
		{web.MatchKey: 1, web.ValidMethodsKey: []string{"GET"}}, {middleware.RequestIDKey: 9, middleware.URLQueryKey: "s"},
	}
	urls := []string{"/", "/?a=1", "/?a=1&a=2&b", "/?%zz=1&b=2", "/?a=%20x&c;d", "/x?q=1#f", "/?x=1&x="}
	n := 0
	for _, m := range mws {
		for _, e := range envs {
			for _, u := range urls {
				n++
				c := &web.C{}
				if e != nil {
					c.Env = map[interface{}]interface{}{}
					for k, v := range e {
						c.Env[k] = v
					}
				}
				desc := fmt.Sprintf("%s with environment %v on %s", m.name, e, u)
				w := httptest.NewRecorder()
				r := &http.Request{Method: "GET", Header: http.Header{}}
				r.URL, _ = url.Parse(u)
				if r.URL == nil {
					continue
				}
				calls := 0
				m.f(c, http.HandlerFunc(func(w2 http.ResponseWriter, r2 *http.Request) {
					calls++
					if w2 != http.ResponseWriter(w) || r2 != r {
						failing(t, "%s: other arguments", desc)
					}
					if c.Env == nil {
						failing(t, "%s: the environment is nil", desc)
					}
					for k, v := range e {
						if k != m.key && !reflect.DeepEqual(c.Env[k], v) {
							failing(t, "%s: entry %v changed to %v", desc, k, c.Env[k])
						}
					}
					for k := range c.Env {
						if _, ok := e[k]; !ok && k != m.key {
							failing(t, "%s: entry %v added", desc, k)
						}
					}
					switch m.name {
					case "URLQuery":
						if q, ok := c.Env[m.key].(url.Values); !ok || !reflect.DeepEqual(q, r.URL.Query()) {
							failing(t, "%s: the entry is %v", desc, c.Env[m.key])
						}
					case "RequestID":
						id, ok := c.Env[m.key].(string)
						if !ok || id == "" || id == "old" || middleware.GetReqID(*c) != id {
							failing(t, "%s: the entry is %v, GetReqID is %q", desc, c.Env[m.key], middleware.GetReqID(*c))
						}
					}
				})).ServeHTTP(w, r)
				if calls != 1 {
					failing(t, "%s: next handler called %d times", desc, calls)
				}
			}
		}
	}
	for _, c := range []web.C{{}, {Env: map[interface{}]interface{}{}}, {Env: map[interface{}]interface{}{middleware.RequestIDKey: 3}}, {Env: map[interface{}]interface{}{middleware.RequestIDKey: nil}}} {
		if id := middleware.GetReqID(c); id != "" {
			failing(t, "GetReqID of %v is %q", c, id)
		}
	}
	if id := middleware.GetReqID(web.C{Env: map[interface{}]interface{}{middleware.RequestIDKey: "abc"}}); id != "abc" {
		failing(t, "GetReqID of a context with ID abc is %q", id)
	}
	// uniqueness, under contention
	const G, K = 16, 40000
	ids := make([][]string, G)
	var wg sync.WaitGroup
	for g := 0; g < G; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			c := &web.C{}
			h := middleware.RequestID(c, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				ids[g] = append(ids[g], middleware.GetReqID(*c))
			}))
			for i := 0; i < K; i++ {
				c.Env = nil
				h.ServeHTTP(nil, nil)
			}
		}(g)
	}
	wg.Wait()
	seen := map[string]bool{}
	for g := range ids {
		for _, id := range ids[g] {
			if seen[id] {
				failing(t, "%d requests in %d goroutines: request ID %q given out twice", G*K, G, id)
			}
			seen[id] = true
		}
	}
	fmt.Printf("REPLAY env middleware: %d contexts and URLs, %d concurrent request IDs\n", n, G*K)
}
