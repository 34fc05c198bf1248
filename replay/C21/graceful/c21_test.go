//verif:race
package graceful

import (
	"errors"
	"fmt"
	"net"
	"os"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/zenazn/goji/graceful/listener"
)

func failing(t *testing.T, format string, args ...interface{}) {
	fmt.Printf("FAILING INPUT: "+format+"\n", args...)
	t.FailNow()
}

type journal struct {
	mu sync.Mutex
	l  []string
}

func (j *journal) add(s string) { j.mu.Lock(); j.l = append(j.l, s); j.mu.Unlock() }
func (j *journal) all() []string {
	j.mu.Lock()
	defer j.mu.Unlock()
	return append([]string(nil), j.l...)
}

type fakeListener struct {
	c    chan net.Conn
	name string
	j    *journal
	once sync.Once
}

func (l *fakeListener) Accept() (net.Conn, error) {
	if c, ok := <-l.c; ok {
		return c, nil
	}
	return nil, errors.New("closed")
}
func (l *fakeListener) Close() error {
	time.Sleep(time.Millisecond)
	l.j.add("close " + l.name)
	l.once.Do(func() { close(l.c) })
	return nil
}
func (l *fakeListener) Addr() net.Addr { return &net.TCPAddr{} }

type fakeConn struct {
	net.Conn
	name string
	j    *journal
}

func (c *fakeConn) Close() error { c.j.add("drop " + c.name); return nil }

func reset() {
	preOnce, closeOnce, forceOnce, postOnce, notifyOnce = sync.Once{}, sync.Once{}, sync.Once{}, sync.Once{}, sync.Once{}
	wait = make(chan struct{})
	mu.Lock()
	listeners, prehooks, posthooks = nil, nil, nil
	mu.Unlock()
}

// hooks and listeners, shutdowns requested (a request is forced or not, and
// waits for nothing), the connections in use finished after `finish`
func scenario(t *testing.T, pre, post, nl int, requests []bool, gap, finish time.Duration) {
	what := fmt.Sprintf("%d pre-hooks, %d listeners with one idle connection and one in use, %d post-hooks, shutdowns (true: forced) %v %v apart, connections finished by themselves after %v", pre, nl, post, requests, gap, finish)
	reset()
	j := &journal{}
	anyForced, firstForced := false, time.Duration(0)
	for i, f := range requests {
		if f && !anyForced {
			anyForced, firstForced = true, time.Duration(i)*gap
		}
	}
	var busy []net.Conn
	for i := 0; i < nl; i++ {
		fl := &fakeListener{c: make(chan net.Conn, 2), name: fmt.Sprint(i), j: j}
		fl.c <- &fakeConn{name: fmt.Sprint("idle ", i), j: j}
		fl.c <- &fakeConn{name: fmt.Sprint("busy ", i), j: j}
		var lt *listener.T
		if i%2 == 0 {
			lt = WrapListener(fl).(*listener.T)
			if len(listeners) != i+1 || listeners[i] != lt {
				failing(t, "WrapListener did not register listener %d", i)
			}
		} else {
			lt = listener.Wrap(fl, listener.Manual)
			if got := WrapListener(lt); got != net.Listener(lt) {
				failing(t, "WrapListener wrapped a wrapped listener again")
			}
		}
		lt.Accept()
		c, _ := lt.Accept()
		listener.MarkInUse(c)
		busy = append(busy, c)
	}
	hook := func(name string) func(os.Signal) {
		return func(s os.Signal) {
			time.Sleep(2 * time.Millisecond)
			j.add(fmt.Sprintf("%s %v", name, s))
		}
	}
	for i := 0; i < pre; i++ {
		h := hook(fmt.Sprint("pre ", i))
		if i == 1 {
			PreHook(func() { h(nil) })
		} else {
			PreHookWithSignal(h)
		}
	}
	for i := 0; i < post; i++ {
		h := hook(fmt.Sprint("post ", i))
		if i == 1 {
			PostHook(func() { h(nil) })
		} else {
			PostHookWithSignal(h)
		}
	}
	var wg, waiting sync.WaitGroup
	waiting.Add(1)
	go func() { defer waiting.Done(); Wait(); j.add("waited") }()
	start := time.Now()
	for _, f := range requests {
		wg.Add(1)
		go func(f bool) {
			defer wg.Done()
			if f {
				ShutdownNow()
			} else {
				Shutdown()
			}
			j.add("returned")
		}(f)
		time.Sleep(gap)
	}
	if d := finish - time.Since(start); d > 0 {
		time.Sleep(d)
	}
	for i, c := range busy {
		j.add(fmt.Sprint("finish ", i))
		c.Close()
	}
	done := make(chan bool)
	go func() { wg.Wait(); waiting.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		failing(t, "%s: never ends: %q", what, j.all())
	}
	l := j.all()
	bad := func(why string) { failing(t, "%s: %s: %q", what, why, l) }
	at := func(s string) (first, last, count int) {
		first = -1
		for i, x := range l {
			if x == s || strings.HasPrefix(x, s+" ") {
				if first < 0 {
					first = i
				}
				last = i
				count++
			}
		}
		return
	}
	prev := -1
	for i := 0; i < pre; i++ {
		f, _, n := at(fmt.Sprint("pre ", i))
		if n != 1 || f < prev || l[f] != fmt.Sprint("pre ", i, " <nil>") {
			bad("pre-hooks not run once in order")
		}
		prev = f
	}
	_, lastPre, _ := at("pre")
	if pre == 0 {
		lastPre = -1
	}
	firstClose, lastDrop := len(l), -1
	for i := 0; i < nl; i++ {
		f, _, n := at(fmt.Sprint("close ", i))
		if n == 0 {
			bad("a listener was not closed")
		}
		if f < firstClose {
			firstClose = f
		}
		fi, _, n := at(fmt.Sprint("drop idle ", i))
		if n != 1 {
			bad("an idle connection was not closed once")
		}
		if fi < lastPre {
			bad("a connection was closed before the pre-hooks were over")
		}
		fb, _, n := at(fmt.Sprint("drop busy ", i))
		if n != 1 {
			bad("a connection in use was not closed once")
		}
		fin, _, _ := at(fmt.Sprint("finish ", i))
		if !anyForced && fb < fin {
			bad("a connection in use was closed without force")
		}
		if anyForced && firstForced+200*time.Millisecond < finish && fb > fin {
			bad("a connection in use was not closed by force")
		}
		for _, x := range []int{fi, fb} {
			if x > lastDrop {
				lastDrop = x
			}
		}
	}
	if firstClose < lastPre {
		bad("a listener was closed before the pre-hooks were over")
	}
	prev = -1
	for i := 0; i < post; i++ {
		f, _, n := at(fmt.Sprint("post ", i))
		if n != 1 || f < prev || f < lastPre || f < lastDrop || l[f] != fmt.Sprint("post ", i, " <nil>") {
			bad("post-hooks not run once in order after everything else")
		}
		prev = f
	}
	f, _, n := at("waited")
	if n != 1 || f < prev || f < lastDrop || f < lastPre {
		bad("Wait returned too early")
	}
	f, _, n = at("returned")
	if n != len(requests) || f < prev || f < lastDrop || f < lastPre {
		bad("Shutdown returned too early")
	}
}

func TestReplayPhases(t *testing.T) {
	ms := time.Millisecond
	for _, r := range [][]bool{{false}, {true}, {false, false, false}, {false, true}, {true, false}, {true, true, false, false}} {
		for _, gap := range []time.Duration{0, 30 * ms} {
			for _, n := range [][3]int{{0, 0, 0}, {1, 1, 1}, {3, 2, 3}, {2, 3, 0}, {0, 1, 2}} {
				scenario(t, n[0], n[2], n[1], r, gap, 50*ms)
			}
		}
	}
	scenario(t, 1, 1, 2, []bool{false, true}, 100*ms, 600*ms)
	scenario(t, 0, 0, 1, []bool{true}, 0, 400*ms)
	// many hooks added at once
	reset()
	var wg sync.WaitGroup
	const N = 200
	j := &journal{}
	for i := 0; i < N; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			PreHook(func() { j.add("pre") })
			PostHook(func() { j.add("post") })
			WrapListener(&fakeListener{c: make(chan net.Conn), name: "l", j: j})
		}()
	}
	wg.Wait()
	ShutdownNow()
	if len(j.all()) != 3*N {
		failing(t, "%d goroutines each added two hooks and a listener: %d of %d actions happened", N, len(j.all()), 3*N)
	}
	// the signal that caused it
	reset()
	seen := make(chan os.Signal, 4)
	PreHookWithSignal(func(s os.Signal) { seen <- s })
	PostHookWithSignal(func(s os.Signal) { seen <- s })
	sigchan <- syscall.SIGUSR1
	Wait()
	close(seen)
	n := 0
	for s := range seen {
		n++
		if s != syscall.SIGUSR1 {
			failing(t, "shutdown by SIGUSR1: hook %d saw %v", n, s)
		}
	}
	if n != 2 {
		failing(t, "shutdown by SIGUSR1: %d hooks ran", n)
	}
}
