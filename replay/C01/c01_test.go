package zzverif

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/zenazn/goji/web"
)

// A pattern that matches the paths with its prefix that its mark is in.
type marked struct {
	prefix, mark string
	examined     *int
}

func (m marked) Prefix() string { return m.prefix }
func (m marked) matches(path string) bool {
	return strings.HasPrefix(path, m.prefix) && strings.Contains(path, m.mark)
}
func (m marked) Match(r *http.Request, c *web.C) bool {
	*m.examined++
	return m.matches(r.URL.Path)
}
func (m marked) Run(r *http.Request, c *web.C) {}

var verbs = []struct {
	name string
	add  func(*web.Mux, web.PatternType, web.HandlerType)
	ok   func(string) bool
}{
	{"Handle", (*web.Mux).Handle, func(string) bool { return true }},
	{"Get", (*web.Mux).Get, func(m string) bool { return m == "GET" || m == "HEAD" }},
	{"Head", (*web.Mux).Head, func(m string) bool { return m == "HEAD" }},
	{"Post", (*web.Mux).Post, func(m string) bool { return m == "POST" }},
	{"Delete", (*web.Mux).Delete, func(m string) bool { return m == "DELETE" }},
}

// Tables of routes, compiled now and then, against the first route in the order
// of registration.
func TestReplayFirstRegistered(t *testing.T) {
	rnd := seeded()
	rounds := 100000
	if thorough() {
		rounds = 2000000
	}
	for k := 0; k < rounds; k++ {
		mux := web.New()
		got, examined := -2, 0
		mux.NotFound(func(w http.ResponseWriter, r *http.Request) { got = -1 })
		var ps []marked
		var vs []int
		var desc []string
		ask := func() {
			path := ""
			if len(ps) > 0 {
				path = ps[rnd.Intn(len(ps))].prefix
				path = path[:len(path)-rnd.Intn(2)*rnd.Intn(len(path)+1)]
			}
			for l := rnd.Intn(5); l > 0; l-- {
				path += string("/ab\xff"[rnd.Intn(4)])
			}
			m := []string{"GET", "HEAD", "POST", "DELETE", "ODD"}[rnd.Intn(5)]
			want := -1
			for i, p := range ps {
				if p.matches(path) && verbs[vs[i]].ok(m) {
					want = i
					break
				}
			}
			r, _ := http.NewRequest(m, "http://x/", nil)
			r.URL.Path = path
			got, examined = -2, 0
			func() {
				defer func() {
					if e := recover(); e != nil {
						failing(t, "%s; %s %q: %v", strings.Join(desc, "; "), m, path, e)
					}
				}()
				mux.ServeHTTP(httptest.NewRecorder(), r)
			}()
			if got != want {
				failing(t, "%s; %s %q: handled by route %d, not %d", strings.Join(desc, "; "), m, path, got, want)
			}
			if examined > len(ps) {
				failing(t, "%s; %s %q: patterns examined %d times", strings.Join(desc, "; "), m, path, examined)
			}
		}
		for i := 0; i < 1+rnd.Intn(8); i++ {
			p := marked{examined: &examined}
			if i > 0 && rnd.Intn(3) > 0 {
				q := ps[rnd.Intn(i)].prefix
				p.prefix = q[:rnd.Intn(len(q)+1)]
			}
			for l := rnd.Intn(6); l > 0; l-- {
				p.prefix += string("/ab\xff"[rnd.Intn(4)])
			}
			if rnd.Intn(3) == 0 {
				p.mark = string("/ab\xff"[rnd.Intn(4)])
			}
			v := rnd.Intn(len(verbs))
			n := i
			verbs[v].add(mux, p, func(w http.ResponseWriter, r *http.Request) { got = n })
			ps, vs = append(ps, p), append(vs, v)
			desc = append(desc, fmt.Sprintf("%s prefix %q with %q", verbs[v].name, p.prefix, p.mark))
			for rnd.Intn(3) == 0 {
				ask()
			}
		}
		for i := 0; i < 12; i++ {
			ask()
		}
	}
}
