package zzverif

import (
	"bytes"
	"fmt"
	"log"
	"net/http"
	"net/url"
	"reflect"
	"strings"
	"testing"

	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
)

type loggedWriter struct {
	h   http.Header
	ops []string
}

func (w *loggedWriter) Header() http.Header  { return w.h }
func (w *loggedWriter) WriteHeader(code int) { w.ops = append(w.ops, fmt.Sprint("WriteHeader ", code)) }
func (w *loggedWriter) Write(b []byte) (int, error) {
	w.ops = append(w.ops, fmt.Sprintf("Write %q", b))
	return len(b), nil
}

func TestReplayLogger(t *testing.T) {
	rnd := seeded()
	var buf bytes.Buffer
	log.SetOutput(&buf)
	log.SetFlags(0)
	rounds := 20000
	envs := []map[interface{}]interface{}{nil, {}, {middleware.RequestIDKey: "host/id-1"}, {middleware.RequestIDKey: ""}, {middleware.RequestIDKey: 7}, {middleware.RequestIDKey: "a%db"}}
	codes := []int{100, 101, 199, 200, 201, 299, 300, 304, 399, 400, 404, 499, 500, 503, 599, 999}
	for i := 0; i < rounds; i++ {
		env := envs[rnd.Intn(len(envs))]
		c := &web.C{Env: env}
		w := &loggedWriter{h: http.Header{"X-A": {"1", "2"}}}
		r := &http.Request{Method: []string{"GET", "", "POST"}[rnd.Intn(3)], URL: &url.URL{Path: "/x"}, RemoteAddr: "1.2.3.4:5", Header: http.Header{"X-B": {"3"}}}
		r0 := *r
		buf.Reset()
		desc := fmt.Sprintf("environment %v, handler:", env)
		var want []string
		sent, code, calls := false, 200, 0
		atStart := ""
		middleware.Logger(c, http.HandlerFunc(func(w2 http.ResponseWriter, r2 *http.Request) {
			calls++
			atStart = buf.String()
			if r2 != r || !reflect.DeepEqual(*r, r0) || !reflect.DeepEqual(w.h, http.Header{"X-A": {"1", "2"}}) || len(w.ops) > 0 {
				failing(t, "%s it was given %v, response %v %v", desc, r2, w.h, w.ops)
			}
			for j, n := 0, rnd.Intn(5); j < n; j++ {
				switch rnd.Intn(3) {
				case 0:
					cd := codes[rnd.Intn(len(codes))]
					desc += fmt.Sprintf(" WriteHeader(%d)", cd)
					w2.WriteHeader(cd)
					if !sent {
						sent, code = true, cd
						want = append(want, fmt.Sprint("WriteHeader ", cd))
					}
				case 1:
					b := strings.Repeat("x", rnd.Intn(3))
					desc += fmt.Sprintf(" Write(%q)", b)
					n, err := w2.Write([]byte(b))
					if n != len(b) || err != nil {
						failing(t, "%s Write returned %d %v", desc, n, err)
					}
					if !sent {
						sent, code = true, 200
						want = append(want, "WriteHeader 200")
					}
					want = append(want, fmt.Sprintf("Write %q", b))
				case 2:
					desc += " Header"
					if reflect.ValueOf(w2.Header()).Pointer() != reflect.ValueOf(w.h).Pointer() {
						failing(t, "%s another header map", desc)
					}
				}
			}
		})).ServeHTTP(w, r)
		if !sent {
			want = append(want, "WriteHeader 200")
		}
		if calls != 1 || strings.Join(w.ops, ",") != strings.Join(want, ",") {
			failing(t, "%s called %d times, the response writer saw %q, want %q", desc, calls, w.ops, want)
		}
		if !reflect.DeepEqual(*r, r0) || !reflect.DeepEqual(w.h, http.Header{"X-A": {"1", "2"}}) {
			failing(t, "%s afterwards: %v, response headers %v", desc, r, w.h)
		}
		end := strings.TrimPrefix(buf.String(), atStart)
		if strings.Count(atStart, "\n") != 1 || strings.Count(end, "\n") != 1 {
			failing(t, "%s logged %q before and %q after", desc, atStart, end)
		}
		if id, ok := env[middleware.RequestIDKey].(string); ok && (!strings.Contains(atStart, id) || !strings.Contains(end, id)) {
			failing(t, "%s no request ID in %q and %q", desc, atStart, end)
		}
		if !strings.Contains(end, fmt.Sprintf("%03d", code)) {
			failing(t, "%s sent %d but logged %q", desc, code, end)
		}
	}
	fmt.Printf("REPLAY Logger: %d runs\n", rounds)
}
