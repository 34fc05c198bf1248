package graceful

import (
	"errors"
	"fmt"
	"net"
	"os"
	"os/signal"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/zenazn/goji/graceful/listener"
)

func failing(t *testing.T, format string, args ...interface{}) {
	fmt.Printf("FAILING INPUT: "+format+"\n", args...)
	t.FailNow()
}

type oneConn struct{ c chan net.Conn }

func (l *oneConn) Accept() (net.Conn, error) {
	if c, ok := <-l.c; ok {
		return c, nil
	}
	return nil, errors.New("closed")
}
func (l *oneConn) Close() error   { return nil }
func (l *oneConn) Addr() net.Addr { return &net.TCPAddr{} }

type closeConn struct {
	net.Conn
	once   sync.Once
	closed chan struct{}
}

func (c *closeConn) Close() error { c.once.Do(func() { close(c.closed) }); return nil }

// one shutdown of the package, from signals sent after the given pauses: when
// is the connection in use closed?
func scenario(t *testing.T, window, tmout time.Duration, pauses []time.Duration) (forced time.Duration, sig os.Signal) {
	mu.Lock()
	preOnce, closeOnce, forceOnce, postOnce, notifyOnce = sync.Once{}, sync.Once{}, sync.Once{}, sync.Once{}, sync.Once{}
	wait = make(chan struct{})
	inner := &closeConn{closed: make(chan struct{})}
	ol := &oneConn{make(chan net.Conn, 1)}
	ol.c <- inner
	lt := listener.Wrap(ol, listener.Manual)
	listeners = []*listener.T{lt}
	sigs := make(chan os.Signal, 10)
	prehooks = []func(os.Signal){func(s os.Signal) { sigs <- s }}
	posthooks = nil
	mu.Unlock()
	c, err := lt.Accept()
	if err != nil {
		t.Fatal(err)
	}
	listener.MarkInUse(c)
	DoubleKickWindow(window)
	Timeout(tmout)
	var last time.Time
	for i, p := range pauses {
		time.Sleep(p)
		if i == 0 {
			sigchan <- syscall.SIGUSR1
		} else {
			sigchan <- syscall.SIGUSR2
		}
		last = time.Now()
	}
	select {
	case <-inner.closed:
		forced = time.Since(last)
	case <-time.After(700 * time.Millisecond):
		forced = -1
	}
	c.Close()
	select {
	case <-wait:
	case <-time.After(5 * time.Second):
		failing(t, "window %v, timeout %v, signals after %v: no shutdown", window, tmout, pauses)
	}
	select {
	case sig = <-sigs:
	default:
		failing(t, "window %v, timeout %v, signals after %v: no hook ran", window, tmout, pauses)
	}
	time.Sleep(500 * time.Millisecond) // let timers and other shutdowns end
	return
}

func TestReplaySignals(t *testing.T) {
	ms := time.Millisecond
	for _, c := range []struct {
		window, timeout time.Duration
		pauses          []time.Duration
		from, to        time.Duration // when the shutdown is forced
	}{
		{0, 0, []time.Duration{0}, -1, 0},
		{300 * ms, 0, []time.Duration{0}, -1, 0},
		{0, 0, []time.Duration{600 * ms, 20 * ms}, -1, 0},
		{300 * ms, 0, []time.Duration{600 * ms, 20 * ms}, 0, 200 * ms},
		{100 * ms, 0, []time.Duration{600 * ms, 300 * ms}, -1, 0},
		{200 * ms, 0, []time.Duration{600 * ms, 300 * ms, 20 * ms}, 0, 150 * ms},
		{0, 250 * ms, []time.Duration{600 * ms}, 150 * ms, 450 * ms},
		{300 * ms, 250 * ms, []time.Duration{600 * ms}, 150 * ms, 450 * ms},
		{100 * ms, 450 * ms, []time.Duration{600 * ms, 300 * ms}, 50 * ms, 300 * ms},
	} {
		at, sig := scenario(t, c.window, c.timeout, c.pauses)
		if c.from < 0 && at >= 0 || c.from >= 0 && (at < c.from || at > c.to) {
			failing(t, "window %v, timeout %v, signals after %v: forced %v after the last (negative: not at all), expected between %v and %v", c.window, c.timeout, c.pauses, at, c.from, c.to)
		}
		if sig != syscall.SIGUSR1 {
			failing(t, "window %v, timeout %v, signals after %v: the hook saw signal %v", c.window, c.timeout, c.pauses, sig)
		}
	}
	tripleKick(t)
	for _, d := range []time.Duration{5, -1, 0, 7, -9e18} {
		mu.Lock()
		k, o := doubleKick, timeout
		mu.Unlock()
		DoubleKickWindow(d)
		if d >= 0 {
			k = d
		}
		if doubleKick != k || timeout != o {
			failing(t, "DoubleKickWindow(%v): window %v, timeout %v", d, doubleKick, timeout)
		}
		Timeout(d)
		if d >= 0 {
			o = d
		}
		if doubleKick != k || timeout != o {
			failing(t, "Timeout(%v): window %v, timeout %v", d, doubleKick, timeout)
		}
	}
	// from the operating system
	DoubleKickWindow(0)
	Timeout(0)
	preOnce, closeOnce, forceOnce, postOnce, notifyOnce = sync.Once{}, sync.Once{}, sync.Once{}, sync.Once{}, sync.Once{}
	wait, listeners = make(chan struct{}), nil
	sigs := make(chan os.Signal, 10)
	prehooks = []func(os.Signal){func(s os.Signal) { sigs <- s }}
	HandleSignals()
	AddSignal(syscall.SIGUSR1)
	defer signal.Reset()
	s := []syscall.Signal{syscall.SIGINT, syscall.SIGUSR1}[time.Now().UnixNano()&1]
	syscall.Kill(os.Getpid(), s)
	select {
	case got := <-sigs:
		if got != s {
			failing(t, "process received %v, hook %v", s, got)
		}
	case <-time.After(5 * time.Second):
		failing(t, "process received %v, no shutdown", s)
	}
}

// three signals, each in the window of the one before: the third is forced too
func tripleKick(t *testing.T) {
	mu.Lock()
	preOnce, closeOnce, forceOnce, postOnce, notifyOnce = sync.Once{}, sync.Once{}, sync.Once{}, sync.Once{}, sync.Once{}
	wait = make(chan struct{})
	listeners, prehooks, posthooks = nil, nil, nil
	mu.Unlock()
	time.Sleep(600 * time.Millisecond)
	DoubleKickWindow(300 * time.Millisecond)
	Timeout(0)
	sigchan <- syscall.SIGUSR1
	time.Sleep(200 * time.Millisecond)
	sigchan <- syscall.SIGUSR1
	time.Sleep(100 * time.Millisecond)
	inner := &closeConn{closed: make(chan struct{})}
	ol := &oneConn{make(chan net.Conn, 1)}
	ol.c <- inner
	lt := WrapListener(ol).(*listener.T)
	c, _ := lt.Accept()
	listener.MarkInUse(c)
	forceOnce = sync.Once{}
	time.Sleep(100 * time.Millisecond)
	sigchan <- syscall.SIGUSR1
	select {
	case <-inner.closed:
	case <-time.After(200 * time.Millisecond):
		failing(t, "window 300ms, signals 200ms apart, connection accepted after the second: the third signal does not force")
	}
	time.Sleep(100 * time.Millisecond)
}
