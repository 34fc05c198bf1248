package zzverif

import (
	"bytes"
	"errors"
	"fmt"
	"log"
	"net/http"
	"net/http/httptest"
	"os"
	"runtime"
	"strings"
	"testing"

	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
)

type pval struct{ a, b int }

func TestReplayRecoverer(t *testing.T) {
	var buf bytes.Buffer
	log.SetOutput(&buf)
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stderr = null // debug.PrintStack
	}
	n := 0
	var nilMap map[string]int
	acts := map[string]func(w http.ResponseWriter){
		"return":         nil,
		"string":         func(w http.ResponseWriter) { panic("boom") },
		"empty string":   func(w http.ResponseWriter) { panic("") },
		"zero":           func(w http.ResponseWriter) { panic(0) },
		"false":          func(w http.ResponseWriter) { panic(false) },
		"error":          func(w http.ResponseWriter) { panic(errors.New("e")) },
		"nil error ptr":  func(w http.ResponseWriter) { panic((*pval)(nil)) },
		"abort":          func(w http.ResponseWriter) { panic(http.ErrAbortHandler) },
		"struct":         func(w http.ResponseWriter) { panic(pval{1, 2}) },
		"nil map":        func(w http.ResponseWriter) { nilMap["a"] = 1 },
		"nil pointer":    func(w http.ResponseWriter) { var p *pval; p.a = 1 },
		"after deferred": func(w http.ResponseWriter) { defer func() {}(); panic(3.5) },
		"recovered":      func(w http.ResponseWriter) { defer func() { recover() }(); panic(1) },
		"repanic":        func(w http.ResponseWriter) { defer func() { panic(recover()) }(); panic(1) },
	}
	for name, act := range acts {
		for _, env := range []map[interface{}]interface{}{nil, {}, {middleware.RequestIDKey: "host/id-1"}, {middleware.RequestIDKey: ""}, {middleware.RequestIDKey: 7}} {
			n++
			desc := fmt.Sprintf("handler: %s, environment %v", name, env)
			buf.Reset()
			c := &web.C{Env: env}
			w := httptest.NewRecorder()
			r := &http.Request{Method: "GET"}
			calls := 0
			func() {
				defer func() {
					if e := recover(); e != nil {
						if _, ok := e.(runtime.Error); ok || e != nil {
							failing(t, "%s: the panic %v escaped", desc, e)
						}
					}
				}()
				middleware.Recoverer(c, http.HandlerFunc(func(w2 http.ResponseWriter, r2 *http.Request) {
					calls++
					if w2 != http.ResponseWriter(w) || r2 != r {
						failing(t, "%s: other arguments", desc)
					}
					if act != nil {
						act(w2)
					} else {
						w2.WriteHeader(204)
					}
				})).ServeHTTP(w, r)
			}()
			if calls != 1 {
				failing(t, "%s: handler called %d times", desc, calls)
			}
			if name == "return" || name == "recovered" {
				if buf.Len() > 0 || w.Body.Len() > 0 || (name == "return" && w.Code != 204) || len(w.HeaderMap) > 0 {
					failing(t, "%s: answered %d %v %q, logged %q", desc, w.Code, w.HeaderMap, w.Body, buf.String())
				}
				continue
			}
			if w.Code != 500 {
				failing(t, "%s: answered %d", desc, w.Code)
			}
			if buf.Len() == 0 {
				failing(t, "%s: nothing logged", desc)
			}
			if id, ok := env[middleware.RequestIDKey].(string); ok && id != "" && !strings.Contains(buf.String(), id) {
				failing(t, "%s: logged %q", desc, buf.String())
			}
		}
	}
	fmt.Printf("REPLAY %d handler behaviours\n", n)
}
