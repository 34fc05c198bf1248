package zzverif

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/zenazn/goji/web"
)

// What NotFound is told, against the routes, and what handlers of routes are not.
func TestReplayValidMethods(t *testing.T) {
	type verb struct {
		add   func(*web.Mux, web.PatternType, web.HandlerType)
		names []string
	}
	all := []string{"CONNECT", "DELETE", "GET", "HEAD", "OPTIONS", "PATCH", "POST", "PUT", "TRACE"}
	verbs := []verb{
		{(*web.Mux).Connect, []string{"CONNECT"}}, {(*web.Mux).Delete, []string{"DELETE"}},
		{(*web.Mux).Get, []string{"GET", "HEAD"}}, {(*web.Mux).Head, []string{"HEAD"}},
		{(*web.Mux).Options, []string{"OPTIONS"}}, {(*web.Mux).Patch, []string{"PATCH"}},
		{(*web.Mux).Post, []string{"POST"}}, {(*web.Mux).Put, []string{"PUT"}},
		{(*web.Mux).Trace, []string{"TRACE"}}, {(*web.Mux).Handle, append(all[:9:9], "ODD")},
	}
	rnd := seeded()
	rounds := 30000
	if thorough() {
		rounds = 600000
	}
	for k := 0; k < rounds; k++ {
		mux := web.New()
		var env map[interface{}]interface{}
		found := ""
		seen := func(what string) web.HandlerFunc {
			return func(c web.C, w http.ResponseWriter, r *http.Request) { found, env = what, c.Env }
		}
		mux.NotFound(seen("first NotFound"))
		late := rnd.Intn(2) == 0
		var desc []string
		type route struct {
			prefix string
			v      verb
		}
		var rs []route
		for i := rnd.Intn(7); i >= 0; i-- {
			p := []string{"/", "/a", "/b", "/a/b", ""}[rnd.Intn(5)]
			v := verbs[rnd.Intn(len(verbs))]
			if rnd.Intn(2) == 0 {
				v = verbs[rnd.Intn(9)]
			}
			n := new(int)
			v.add(mux, marked{prefix: p, examined: n}, seen("a route"))
			rs = append(rs, route{p, v})
			desc = append(desc, fmt.Sprintf("%v %s*", v.names, p))
		}
		want404 := "first NotFound"
		if late {
			mux.NotFound(seen("second NotFound"))
			want404 = "second NotFound"
		}
		for q := 0; q < 6; q++ {
			m := append(all[:9:9], "ODD", "get")[rnd.Intn(11)]
			path := []string{"", "/", "/a", "/ab", "/b", "/a/b", "/c"}[rnd.Intn(7)]
			set := map[string]bool{}
			want, sel := []string(nil), false
			for _, r := range rs {
				if !strings.HasPrefix(path, r.prefix) {
					continue
				}
				for _, n := range r.v.names {
					if n == m || n == "ODD" && m == "get" {
						sel = true
					}
					if n != "ODD" {
						set[n] = true
					}
				}
			}
			for n := range set {
				want = append(want, n)
			}
			sort.Strings(want)
			mine := map[interface{}]interface{}{"mine": 1}
			c := web.C{}
			if rnd.Intn(2) == 0 {
				c.Env = mine
				if rnd.Intn(2) == 0 { // the list of an outer Mux
					mine[web.ValidMethodsKey] = []string{"OUTER"}
				}
			}
			_, was := mine[web.ValidMethodsKey]
			r, _ := http.NewRequest("GET", "http://x/", nil)
			r.Method, r.URL.Path = m, path
			found, env = "", nil
			mux.ServeHTTPC(c, httptest.NewRecorder(), r)
			in := strings.Join(desc, "; ") + fmt.Sprintf("; %s %q", m, path)
			got, has := env[web.ValidMethodsKey]
			switch {
			case (sel || len(want) == 0) && was && !reflect.DeepEqual(got, []string{"OUTER"}):
				failing(t, "%s: %s runs, with ValidMethods %v, not the [OUTER] of before", in, found, got)
			case sel && (found != "a route" || has != was):
				failing(t, "%s: %s runs, with ValidMethods %v", in, found, got)
			case !sel && found != want404:
				failing(t, "%s: %s runs, not the %s", in, found, want404)
			case !sel && len(want) == 0 && has != was:
				failing(t, "%s: ValidMethods is %v", in, got)
			case !sel && len(want) > 0 && !reflect.DeepEqual(got, want):
				failing(t, "%s: ValidMethods is %v, not %v", in, got, want)
			case c.Env != nil && (env["mine"] != 1 || len(env) > 2 || len(env) == 2 && !has):
				failing(t, "%s: Env is %v", in, env)
			}
		}
	}
}

type marked struct {
	prefix   string
	examined *int
}

func (m marked) Prefix() string { return m.prefix }
func (m marked) Match(r *http.Request, c *web.C) bool {
	*m.examined++
	return strings.HasPrefix(r.URL.Path, m.prefix)
}
func (m marked) Run(r *http.Request, c *web.C) {}
