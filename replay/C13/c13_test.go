package zzverif

import (
	"fmt"
	"net/http"
	"reflect"
	"strings"
	"testing"

	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
)

type recW struct {
	h   http.Header
	log []string
}

func (w *recW) Header() http.Header { return w.h }
func (w *recW) WriteHeader(c int) {
	w.log = append(w.log, fmt.Sprintf("H%d %v", c, w.h))
}
func (w *recW) Write(b []byte) (int, error) {
	w.log = append(w.log, fmt.Sprintf("B%s %v", b, w.h))
	return len(b) - 1, fmt.Errorf("e%d", len(b))
}

func TestReplayAutomaticOptions(t *testing.T) {
	ops := []string{"h", "404", "200", "302", "w"}
	lists := []interface{}{nil, []string{}, []string{"GET"}, []string{"GET", "HEAD"}, []string{"OPTIONS"}, []string{"GET", "OPTIONS", "POST"}, []string{"POST", "OPTIONS"}, []string{"CONNECT", "options"}, []string(nil), 7}
	n := 0
	var seqs [][]string
	var gen func(s []string)
	gen = func(s []string) {
		seqs = append(seqs, append([]string{}, s...))
		if len(s) == 4 {
			return
		}
		for _, o := range ops {
			gen(append(s, o))
		}
	}
	gen(nil)
	for _, method := range []string{"OPTIONS", "GET", "options", "POST"} {
		for li, l := range lists {
			for _, seq := range seqs {
				if method != "OPTIONS" && len(seq) > 2 {
					continue
				}
				n++
				desc := fmt.Sprintf("%s request, recorded methods %v, handler does %v", method, l, seq)
				c := &web.C{}
				if li > 0 {
					c.Env = map[interface{}]interface{}{web.ValidMethodsKey: l}
				}
				if ms, ok := l.([]string); ok && ms != nil {
					c.Env[web.ValidMethodsKey] = append([]string{}, ms...)
				}
				act := func(w http.ResponseWriter, log *[]string) {
					for i, o := range seq {
						switch o {
						case "h":
							w.Header().Set("X", fmt.Sprint(i))
						case "w":
							k, err := w.Write([]byte("abc"[:i%3+1]))
							*log = append(*log, fmt.Sprint(k, err))
						case "404":
							w.WriteHeader(404)
						case "200":
							w.WriteHeader(200)
						case "302":
							w.WriteHeader(302)
						}
					}
				}
				// what is expected
				want := &recW{h: http.Header{}}
				var wantLog []string
				ms, _ := l.([]string)
				first := -1
				for i, o := range seq {
					if o != "h" {
						first = i
						break
					}
				}
				swallow := method == "OPTIONS" && ms != nil && first >= 0 && seq[first] == "404"
				if swallow {
					done := false
					for i, o := range seq {
						switch o {
						case "h":
							want.h.Set("X", fmt.Sprint(i))
						case "w":
							wantLog = append(wantLog, fmt.Sprint(i%3+1, nil))
						case "404":
							if !done {
								done = true
								a := append([]string{}, ms...)
								has := false
								for _, m := range ms {
									has = has || m == "OPTIONS"
								}
								if !has {
									a = append(a, "OPTIONS")
								}
								want.h.Set("Allow", strings.Join(a, ", "))
								want.WriteHeader(200)
							}
						}
					}
				} else {
					act(want, &wantLog)
				}
				got := &recW{h: http.Header{}}
				var gotLog []string
				r := &http.Request{Method: method}
				calls := 0
				middleware.AutomaticOptions(c, http.HandlerFunc(func(w http.ResponseWriter, r2 *http.Request) {
					calls++
					if r2 != r {
						failing(t, "%s: another request", desc)
					}
					act(w, &gotLog)
				})).ServeHTTP(got, r)
				if calls != 1 {
					failing(t, "%s: handler called %d times", desc, calls)
				}
				if swallow {
					// header calls after the answer are not specified
					g := []string{}
					for _, e := range got.log {
						g = append(g, e)
					}
					if len(g) > 0 {
						got.log = g[:1]
						for _, e := range g[1:] {
							if e[0] == 'B' {
								failing(t, "%s: body bytes sent: %v", desc, g)
							}
						}
					}
				}
				if !reflect.DeepEqual(got.log, want.log) || !reflect.DeepEqual(gotLog, wantLog) {
					failing(t, "%s: sent %q (handler saw %q) instead of %q (%q)", desc, got.log, gotLog, want.log, wantLog)
				}
			}
		}
	}
	fmt.Printf("REPLAY %d handler behaviours\n", n)
}
