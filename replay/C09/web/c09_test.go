//verif:race
package web

import (
	"fmt"
	"math/rand"
	"net/http"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

func failing(t *testing.T, format string, args ...interface{}) {
	fmt.Printf("FAILING INPUT: "+format+"\n", args...)
	t.FailNow()
}

func seeded() *rand.Rand {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(n))
}

// The handler of a route says its number.
type num int

func (num) ServeHTTPC(C, http.ResponseWriter, *http.Request) {}

func req(path string) *http.Request {
	r, _ := http.NewRequest("GET", "http://x/", nil)
	r.URL.Path = path
	return r
}

func selected(rt *router, path string) int {
	if n, ok := rt.getMatch(&C{}, nil, req(path)).Handler.(num); ok {
		return int(n)
	}
	return -1
}

func newRouter() *router { return &router{notFound: num(-1)} }

// A pattern that matches one path and can wait.
type hooked struct {
	prefix, path string
	onPrefix     func()
	onMatch      func()
}

func (h *hooked) Prefix() string {
	if h.onPrefix != nil {
		h.onPrefix()
	}
	return h.prefix
}
func (h *hooked) Match(r *http.Request, c *C) bool {
	if h.onMatch != nil {
		h.onMatch()
	}
	return r.URL.Path == h.path
}
func (h *hooked) Run(r *http.Request, c *C) {}

func shown(rs []route) string {
	var l []string
	for _, r := range rs {
		l = append(l, fmt.Sprintf("%q:%v", r.prefix, r.handler))
	}
	return "[" + strings.Join(l, " ") + "]"
}

// Adding routes and requests, in turn: every route is in place at once, and no
// table that was ever seen changes.
func TestReplayInTurn(t *testing.T) {
	rnd := seeded()
	for round := 0; round < 300; round++ {
		rt := newRouter()
		type seen struct {
			was  string
			sm   string
			m    *routeMachine
			rs   []route
			hist string
		}
		var tables []seen
		var hist []string
		paths := map[string]int{}
		for i := 0; i < 12; i++ {
			if rnd.Intn(3) > 0 {
				p := "/" + strings.Repeat("a", rnd.Intn(3)) + strings.Repeat("b", rnd.Intn(3))
				rt.handle(parseStringPattern(p), mALL, num(i))
				hist = append(hist, fmt.Sprintf("add %d for %q", i, p))
				if _, ok := paths[p]; !ok {
					paths[p] = i
				}
			}
			if rnd.Intn(2) > 0 {
				for p, want := range paths {
					if got := selected(rt, p); got != want {
						failing(t, "%s; request for %q: handler %d, not %d", strings.Join(hist, "; "), p, got, want)
					}
				}
				hist = append(hist, "requests")
			}
			rs := rt.routes
			s := seen{was: shown(rs), rs: rs, hist: strings.Join(hist, "; ")}
			if m := rt.getMachine(); m != nil {
				s.m, s.sm = m, fmt.Sprint(m.sm)+shown(m.routes)
			}
			tables = append(tables, s)
			for _, s := range tables {
				if now := shown(s.rs); now != s.was {
					failing(t, "%s: the table of then changed from %s to %s", strings.Join(hist, "; "), s.was, now)
				}
				if s.m != nil {
					if now := fmt.Sprint(s.m.sm) + shown(s.m.routes); now != s.sm {
						failing(t, "%s: the compiled table of (%s) changed from %s to %s", strings.Join(hist, "; "), s.hist, s.sm, now)
					}
				}
			}
		}
	}
}

// A route is added while a request is being routed.
func TestReplayDuring(t *testing.T) {
	for at := 0; at < 4; at++ {
		for _, add := range []string{"/", "/a", "/b", "/z"} {
			rt := newRouter()
			calls := 0
			hook := func() {
				if calls++; calls == at+1 {
					rt.handle(&hooked{prefix: add, path: "/new"}, mALL, num(99))
				}
			}
			for i, p := range []string{"/", "/a", "/b", "/"} {
				rt.handle(&hooked{prefix: p, path: "/b", onMatch: hook}, mHEAD, num(i))
			}
			rt.handle(&hooked{prefix: "/b", path: "/b"}, mALL, num(4))
			if got := selected(rt, "/b"); got != 4 {
				failing(t, "a route with prefix %q is added when the %dth pattern is examined for /b: handler %d, not 4", add, at+1, got)
			}
			if got := selected(rt, "/b"); got != 4 {
				failing(t, "a route with prefix %q was added when the %dth pattern was examined for /b: handler %d for /b afterwards, not 4", add, at+1, got)
			}
			if n := 99; at < 3 && add != "/a" && add != "/b" && add != "/z" {
				if got := selected(rt, "/new"); got != n {
					failing(t, "a route with prefix %q was added when the %dth pattern was examined: handler %d for it afterwards, not %d", add, at+1, got, n)
				}
			}
		}
	}
}

// A route is added while the prefix of another is being found out.
func TestReplayInPrefix(t *testing.T) {
	for round := 0; round < 20; round++ {
		rt := newRouter()
		rt.handle(parseStringPattern("/a"), mALL, num(0))
		entered, leave := make(chan bool), make(chan bool)
		var once sync.Once
		slow := &hooked{prefix: "/slow", path: "/slow"}
		slow.onPrefix = func() { once.Do(func() { entered <- true; <-leave }) }
		done := make(chan bool)
		go func() { rt.handle(slow, mALL, num(1)); done <- true }()
		<-entered
		other := make(chan bool)
		go func() {
			rt.handle(parseStringPattern("/b"), mALL, num(2))
			other <- true
		}()
		reqd := make(chan int)
		go func() { reqd <- selected(rt, "/a") }()
		time.Sleep(2 * time.Millisecond)
		leave <- true
		<-done
		<-other
		if got := <-reqd; got != 0 {
			failing(t, "request for /a while /slow and /b are added: handler %d, not 0", got)
		}
		for p, n := range map[string]int{"/a": 0, "/slow": 1, "/b": 2} {
			if got := selected(rt, p); got != n {
				failing(t, "/a, then /slow (waits in Prefix) and /b at once: handler %d for %s afterwards, not %d", got, p, n)
			}
		}
	}
}

// Routes are added by several goroutines, and requests come from several more.
func TestReplayTogether(t *testing.T) {
	end := time.Now().Add(12 * time.Second)
	for round := 0; time.Now().Before(end); round++ {
		rt := newRouter()
		rt.handle(parseStringPattern("/r"), mALL, num(0))
		var wg, readers sync.WaitGroup
		var bad atomic.Value
		var stop int32
		for g := 0; g < 3; g++ {
			readers.Add(1)
			go func() {
				defer readers.Done()
				for atomic.LoadInt32(&stop) == 0 {
					if got := selected(rt, "/r"); got != 0 {
						bad.Store(fmt.Sprintf("request for /r while other routes are added: handler %d, not 0", got))
						return
					}
				}
			}()
		}
		for g := 0; g < 3; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 1; i < 12; i++ {
					n := g*100 + i
					p := fmt.Sprintf("/%c%d", 'p'+(i%5), n)
					rt.handle(parseStringPattern(p), mALL, num(n))
					if got := selected(rt, p); got != n {
						bad.Store(fmt.Sprintf("3 goroutines add routes, 3 send requests: %s (added before, by the same goroutine): handler %d, not %d", p, got, n))
						return
					}
				}
			}(g)
		}
		wg.Wait()
		atomic.StoreInt32(&stop, 1)
		readers.Wait()
		if b := bad.Load(); b != nil {
			failing(t, "round %d: %s", round, b)
		}
	}
}
