package web

import (
	"fmt"
	"net/http"
	"reflect"
	"sort"
	"testing"
)

func failing(t *testing.T, format string, args ...interface{}) {
	fmt.Printf("FAILING INPUT: "+format+"\n", args...)
	t.FailNow()
}

type everything bool

func (everything) Prefix() string                                   { return "" }
func (e everything) Match(r *http.Request, c *C) bool               { return bool(e) }
func (everything) Run(r *http.Request, c *C)                        {}
func (everything) ServeHTTPC(C, http.ResponseWriter, *http.Request) {}

// Every set of known methods, as one route and as a route each, with routes that
// do not match around it: that every one of them is in the list (c01_c05_c27.gvc
// proves the rest).
func TestBoundedMethodSets(t *testing.T) {
	names := []string{"CONNECT", "DELETE", "GET", "HEAD", "OPTIONS", "PATCH", "POST", "PUT", "TRACE"}
	bits := []method{mCONNECT, mDELETE, mGET, mHEAD, mOPTIONS, mPATCH, mPOST, mPUT, mTRACE}
	for set := 0; set < 1<<9; set++ {
		for shape := 0; shape < 4; shape++ {
			rt := &router{notFound: everything(true)}
			want := []string{}
			var all method
			for i := range bits {
				if set>>uint(i)&1 != 0 {
					want = append(want, names[i])
					all |= bits[i]
					if shape&1 != 0 {
						rt.handle(everything(true), bits[i], everything(true))
					}
				} else {
					rt.handle(everything(false), bits[i], everything(true))
				}
			}
			if shape&1 == 0 && all != 0 {
				rt.handle(everything(true), all, everything(true))
			}
			sort.Strings(want)
			c := C{}
			if shape&2 != 0 {
				c.Env = map[interface{}]interface{}{"other": 1}
			}
			r, _ := http.NewRequest("ODD", "http://x/", nil)
			m := rt.getMatch(&c, nil, r)
			if m.Pattern != nil {
				failing(t, "routes for %v, request method ODD: a route is selected", want)
			}
			got, ok := c.Env[ValidMethodsKey]
			if set == 0 {
				if ok || shape&2 == 0 && c.Env != nil {
					failing(t, "no route that matches: Env is %v", c.Env)
				}
				continue
			}
			if !reflect.DeepEqual(got, want) {
				failing(t, "routes for %v, request method ODD: ValidMethods is %v", want, got)
			}
			if shape&2 != 0 && c.Env["other"] != 1 {
				failing(t, "routes for %v: another entry of Env is gone", want)
			}
		}
	}
	fmt.Println("BOUND: all 512 sets of methods, four tables each")
}
