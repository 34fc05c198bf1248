package zzverif

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/zenazn/goji/web"
)

// named middleware, two kinds
type trace struct{ s []string }

func mw(tr *trace, name string, ctx bool) web.MiddlewareType {
	if ctx {
		return func(c *web.C, h http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				tr.s = append(tr.s, name)
				h.ServeHTTP(w, r)
			})
		}
	}
	return func(h http.Handler) http.Handler {
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			tr.s = append(tr.s, name)
			h.ServeHTTP(w, r)
		})
	}
}

func editStacks(t *testing.T, rounds int) {
	rnd := seeded()
	for round := 0; round < rounds; round++ {
		tr := &trace{}
		m := web.New()
		m.NotFound(func(w http.ResponseWriter, r *http.Request) { tr.s = append(tr.s, "router") })
		var pool []web.MiddlewareType
		var names []string
		for i := 0; i < 5; i++ {
			names = append(names, fmt.Sprintf("m%d", i))
			pool = append(pool, mw(tr, names[i], i%2 == 0))
		}
		var model []int
		find := func(k int) int {
			for i, x := range model {
				if x == k {
					return i
				}
			}
			return -1
		}
		hist := ""
		for op := 0; op < 12; op++ {
			k, b := rnd.Intn(5), rnd.Intn(5)
			var err error
			want := true
			switch rnd.Intn(4) {
			case 0, 1:
				hist += fmt.Sprintf(" Use(m%d)", k)
				m.Use(pool[k])
				model = append(model, k)
			case 2:
				hist += fmt.Sprintf(" Insert(m%d, m%d)", k, b)
				err = m.Insert(pool[k], pool[b])
				i := find(b)
				want = i >= 0
				if want {
					model = append(model[:i], append([]int{k}, model[i:]...)...)
				}
			case 3:
				hist += fmt.Sprintf(" Abandon(m%d)", k)
				err = m.Abandon(pool[k])
				i := find(k)
				want = i >= 0
				if want {
					model = append(append([]int{}, model[:i]...), model[i+1:]...)
				}
			}
			if (err == nil) != want {
				failing(t, "%s: error %v", hist, err)
			}
			if rnd.Intn(2) == 0 {
				continue
			}
			tr.s = nil
			r, _ := http.NewRequest("GET", "http://x/", nil)
			if rnd.Intn(2) == 0 {
				m.ServeHTTP(httptest.NewRecorder(), r)
			} else {
				m.ServeHTTPC(web.C{}, httptest.NewRecorder(), r)
			}
			exp := ""
			for _, k := range model {
				exp += fmt.Sprintf("m%d ", k)
			}
			got := ""
			for _, s := range tr.s {
				got += s + " "
			}
			if got != exp+"router " {
				failing(t, "%s: request went through %q, stack is %q", hist, got, exp)
			}
		}
	}
}

func TestReplayStack(t *testing.T) { editStacks(t, 3000) }
