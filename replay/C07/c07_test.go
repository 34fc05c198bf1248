package zzverif

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"sync"
	"testing"

	"github.com/zenazn/goji/web"
)

// Sequences of requests (nested ones and panicking ones too) and edits; the
// context at the start and in every layer is compared with the one expected.
func TestReplayContext(t *testing.T) {
	rnd := seeded()
	for round := 0; round < 2000; round++ {
		m := web.New()
		hist := ""
		gen := 0 // configuration number
		var start *web.C
		var inUse = map[*web.C]bool{}
		var cs map[*web.C]int = map[*web.C]int{}
		depth := 0
		var request func(viaC, nest, edit, pan bool)
		var flags struct{ nest, edit, pan bool }
		check := func(c *web.C, where string) {
			if start == nil {
				if len(c.Env) != 0 || len(c.URLParams) != 0 {
					failing(t, "%s: %s saw a context that is not empty: %v", hist, where, *c)
				}
			} else if c.Env["start"] != start.Env["start"] || c.URLParams["start"] != start.URLParams["start"] {
				failing(t, "%s: %s saw context %v instead of %v", hist, where, *c, *start)
			}
		}
		outer := func(c *web.C, h http.Handler) http.Handler {
			made := gen
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				if made != gen && depth == 0 {
					failing(t, "%s: a stack of configuration %d served configuration %d", hist, made, gen)
				}
				if inUse[c] {
					failing(t, "%s: a stack serves two requests at once", hist)
				}
				inUse[c] = true
				defer func() { delete(inUse, c) }()
				cs[c]++
				check(c, "the outer layer")
				f := flags
				if f.nest {
					flags.nest, flags.pan = false, false
					s := start
					depth++
					request(rnd.Intn(2) == 0, false, false, false)
					depth--
					start = s
				}
				if f.edit && depth == 0 {
					m.Use(func(h http.Handler) http.Handler { return h })
					gen++
				}
				if c.Env == nil {
					c.Env = map[interface{}]interface{}{}
				}
				c.Env["left"] = r
				c.URLParams = map[string]string{"left": "x", "start": c.URLParams["start"]}
				if f.pan {
					panic("handler")
				}
				h.ServeHTTP(w, r)
			})
		}
		inner := func(c *web.C, h http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				if c.Env["left"] != r || c.URLParams["left"] != "x" {
					failing(t, "%s: the inner layer does not share the context", hist)
				}
				h.ServeHTTP(w, r)
			})
		}
		m.Use(outer)
		m.Use(inner)
		m.NotFound(func(c web.C, w http.ResponseWriter, r *http.Request) {
			if c.Env["left"] != r || c.URLParams["left"] != "x" {
				failing(t, "%s: the router does not share the context", hist)
			}
		})
		request = func(viaC, nest, edit, pan bool) {
			hist += fmt.Sprintf(" request(%v,%v,%v,%v)", viaC, nest, edit, pan)
			flags.nest, flags.edit, flags.pan = nest, edit, pan
			defer func() {
				if x := recover(); x != nil && x != "handler" {
					panic(x)
				}
			}()
			r, _ := http.NewRequest("GET", "http://x/", nil)
			if viaC {
				s := rnd.Int()
				start = &web.C{Env: map[interface{}]interface{}{"start": s}, URLParams: map[string]string{"start": fmt.Sprint(s)}}
				m.ServeHTTPC(*start, httptest.NewRecorder(), r)
			} else {
				start = nil
				m.ServeHTTP(httptest.NewRecorder(), r)
			}
		}
		for k := 0; k < 8; k++ {
			request(rnd.Intn(2) == 0, rnd.Intn(3) == 0, rnd.Intn(3) == 0, rnd.Intn(4) == 0)
		}
	}
}

// Concurrent requests do not share a stack.
func TestReplayConcurrent(t *testing.T) {
	m := web.New()
	m.Use(func(c *web.C, h http.Handler) http.Handler {
		busy := false
		var mu sync.Mutex
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			mu.Lock()
			was := busy
			busy = true
			mu.Unlock()
			if was || len(c.Env) != 0 {
				fmt.Println("FAILING INPUT: two concurrent requests share a stack")
				t.Error("shared")
			}
			c.Env = map[interface{}]interface{}{"x": r}
			h.ServeHTTP(w, r)
			mu.Lock()
			busy = false
			mu.Unlock()
		})
	})
	m.NotFound(func(w http.ResponseWriter, r *http.Request) {})
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				r, _ := http.NewRequest("GET", "http://x/", nil)
				m.ServeHTTP(httptest.NewRecorder(), r)
			}
		}()
	}
	wg.Wait()
}
