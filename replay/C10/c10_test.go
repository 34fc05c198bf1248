package zzverif

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"testing"

	"github.com/zenazn/goji/web"
)

type call struct {
	kind string
	c    web.C
	w    http.ResponseWriter
	r    *http.Request
}

var calls []call

type onlyHTTP struct{ x int }

func (onlyHTTP) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	calls = append(calls, call{"http", web.C{}, w, r})
}

type onlyC struct{ x int }

func (onlyC) ServeHTTPC(c web.C, w http.ResponseWriter, r *http.Request) {
	calls = append(calls, call{"ctx", c, w, r})
}

type both struct{ x int }

func (both) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	calls = append(calls, call{"http", web.C{}, w, r})
}
func (both) ServeHTTPC(c web.C, w http.ResponseWriter, r *http.Request) {
	calls = append(calls, call{"ctx", c, w, r})
}

type named func(http.ResponseWriter, *http.Request)
type namedC func(web.C, http.ResponseWriter, *http.Request)

type pat struct{ p string }

func (p pat) Prefix() string                       { return p.p }
func (p pat) Match(r *http.Request, c *web.C) bool { return strings.HasPrefix(r.URL.Path, p.p) }
func (p pat) Run(r *http.Request, c *web.C)        {}

type stringPat string

func (p stringPat) Prefix() string { return string(p) }
func (p stringPat) Match(r *http.Request, c *web.C) bool {
	return strings.HasPrefix(r.URL.Path, string(p))
}
func (p stringPat) Run(r *http.Request, c *web.C) {}

func handlers() []struct {
	name string
	h    interface{}
	kind string // how it is called; "" if it must be refused
} {
	fn := func(w http.ResponseWriter, r *http.Request) { calls = append(calls, call{"http", web.C{}, w, r}) }
	fc := func(c web.C, w http.ResponseWriter, r *http.Request) { calls = append(calls, call{"ctx", c, w, r}) }
	return []struct {
		name string
		h    interface{}
		kind string
	}{
		{"func", fn, "http"}, {"func with context", fc, "ctx"},
		{"http.Handler", onlyHTTP{}, "http"}, {"*http.Handler", &onlyHTTP{}, "http"},
		{"web.Handler", onlyC{}, "ctx"}, {"*web.Handler", &onlyC{}, "ctx"},
		{"both", both{}, "ctx"}, {"*both", &both{}, "ctx"},
		{"http.HandlerFunc", http.HandlerFunc(fn), "http"}, {"web.HandlerFunc", web.HandlerFunc(fc), "ctx"},
		{"a Mux", func() *web.Mux { m := web.New(); m.Handle("/*", fc); return m }(), "mux"},
		{"named func", named(fn), ""}, {"named func with context", namedC(fc), ""},
		{"string", "x", ""}, {"int", 7, ""}, {"nil", nil, ""}, {"struct", struct{}{}, ""},
		{"func()", func() {}, ""}, {"func(C)", func(web.C) {}, ""}, {"func(*C)", func(*web.C, http.ResponseWriter, *http.Request) {}, ""},
		{"func with result", func(http.ResponseWriter, *http.Request) int { return 0 }, ""},
	}
}

func patterns() []struct {
	name string
	p    interface{}
	ok   bool
} {
	return []struct {
		name string
		p    interface{}
		ok   bool
	}{
		{"string", "/a", true}, {"regexp", regexp.MustCompile("^/a"), true}, {"Pattern", pat{"/a"}, true}, {"*Pattern", &pat{"/a"}, true},
		{"string-like Pattern", stringPat("/a"), true}, {"parsed pattern", web.ParsePattern("/a"), true},
		{"int", 7, false}, {"nil", nil, false}, {"[]byte", []byte("/a"), false}, {"regexp value", *regexp.MustCompile("/a"), false},
	}
}

func TestReplayHandlers(t *testing.T) {
	n := 0
	for _, hd := range handlers() {
		for _, where := range []string{"Handle", "Get", "NotFound"} {
			n++
			if hd.kind == "" {
				if out, ok := child("handler:" + hd.name + ":" + where); !ok {
					failing(t, "%s with a value of kind %q: %s", where, hd.name, out)
				}
				continue
			}
			m := web.New()
			switch where {
			case "Handle":
				m.Handle("/a", hd.h)
			case "Get":
				m.Get("/a", hd.h)
			case "NotFound":
				m.NotFound(hd.h)
			}
			calls = nil
			w, r := httptest.NewRecorder(), httptest.NewRequest("GET", "/a", nil)
			c := web.C{URLParams: map[string]string{"u": "1"}, Env: map[interface{}]interface{}{"e": 2}}
			m.ServeHTTPC(c, w, r)
			if len(calls) != 1 || calls[0].w != http.ResponseWriter(w) || calls[0].r != r {
				failing(t, "%s with a value of kind %q: called %d times, or with other arguments", where, hd.name, len(calls))
			}
			want := hd.kind
			if want == "mux" {
				want = "ctx"
			}
			if calls[0].kind != want {
				failing(t, "%s with a value of kind %q was called through its %s interface", where, hd.name, calls[0].kind)
			}
			if want == "ctx" && (calls[0].c.URLParams["u"] != "1" || calls[0].c.Env["e"] != 2) {
				failing(t, "%s with a value of kind %q: context %v", where, hd.name, calls[0].c)
			}
		}
	}
	got := web.C{URLParams: map[string]string{"x": "y"}}
	web.HandlerFunc(func(c web.C, w http.ResponseWriter, r *http.Request) { got = c }).ServeHTTP(nil, nil)
	if got.URLParams != nil || got.Env != nil {
		failing(t, "web.HandlerFunc.ServeHTTP passes the context %v", got)
	}
	for _, p := range patterns() {
		n++
		if !p.ok {
			if out, ok := child("pattern:" + p.name); !ok {
				failing(t, "ParsePattern of %s: %s", p.name, out)
			}
			continue
		}
		got := web.ParsePattern(p.p)
		if _, is := p.p.(web.Pattern); is {
			if fmt.Sprintf("%T%v", got, got) != fmt.Sprintf("%T%v", p.p, p.p) {
				failing(t, "ParsePattern of %s returns %T %v", p.name, got, got)
			}
			if a, is := p.p.(*pat); is && got != web.Pattern(a) {
				failing(t, "ParsePattern of %s returns another value", p.name)
			}
			continue
		}
		raw := web.Match{Pattern: got}.RawPattern()
		if raw != p.p {
			failing(t, "ParsePattern of %s: raw value %v", p.name, raw)
		}
	}
	fmt.Printf("REPLAY C10: %d registrations\n", n)
}

// child runs a registration that must end the program with a log message.
func child(what string) (string, bool) {
	cmd := exec.Command(os.Args[0], "-test.run", "^TestFatalChild$")
	cmd.Env = append(os.Environ(), "ZZ_CHILD="+what)
	out, err := cmd.CombinedOutput()
	if err == nil || strings.Contains(string(out), "ZZ_REGISTERED") {
		return "was accepted", false
	}
	if !strings.Contains(string(out), "Unknown") {
		return "no fatal log message", false
	}
	return "", true
}

func TestFatalChild(t *testing.T) {
	what := os.Getenv("ZZ_CHILD")
	if what == "" {
		return
	}
	f := strings.Split(what, ":")
	for _, h := range handlers() {
		if f[0] != "handler" || h.name != f[1] {
			continue
		}
		m := web.New()
		switch f[2] {
		case "Handle":
			m.Handle("/a", h.h)
		case "Get":
			m.Get("/a", h.h)
		case "NotFound":
			m.NotFound(h.h)
		}
		fmt.Println("ZZ_REGISTERED")
	}
	for _, p := range patterns() {
		if f[0] == "pattern" && p.name == f[1] {
			web.ParsePattern(p.p)
			fmt.Println("ZZ_REGISTERED")
		}
	}
}
