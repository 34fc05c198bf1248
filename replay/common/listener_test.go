package zzverif

import (
	"errors"
	"fmt"
	"math/rand"
	"net"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/zenazn/goji/graceful/listener"
)

// A model of a wrapped listener and its connections, run against the real one
// with random sequences of operations, some of them in the middle of others:
// from the Read and the Close of the connections underneath.

type lconn struct {
	id      int
	c       net.Conn
	w       *lworld
	st      int // 0 managed, 1 closed, 2 disowned
	busy    bool
	closes  int // Close calls on the connection underneath
	want    int
	touched bool
	readN   int
	readErr error
	inRead  func()
}

type lworld struct {
	mu       sync.Mutex
	t        *testing.T
	rnd      *rand.Rand
	l        *listener.T
	mode     int
	conns    []*lconn
	next     *lconn
	closing  *lconn // explicitly closed right now
	sweep    int    // 0 none, 1 idle ones, 2 all
	nest     func(not *lconn)
	draining bool
	drains   []chan error
	log      []string
	lclosed  int
}

var errLClose = errors.New("close error from below")
var errLRead = errors.New("read error from below")

func (w *lworld) fail(f string, a ...interface{}) {
	failing(w.t, "mode %d, operations: %s: %s", w.mode, strings.Join(w.log, ", "), fmt.Sprintf(f, a...))
}

func (c *lconn) Read(b []byte) (int, error) {
	if f := c.inRead; f != nil {
		c.inRead = nil
		f()
	}
	return c.readN, c.readErr
}
func (c *lconn) Write(b []byte) (int, error)        { return len(b), nil }
func (c *lconn) LocalAddr() net.Addr                { return &net.TCPAddr{} }
func (c *lconn) RemoteAddr() net.Addr               { return &net.TCPAddr{} }
func (c *lconn) SetDeadline(t time.Time) error      { return nil }
func (c *lconn) SetReadDeadline(t time.Time) error  { return nil }
func (c *lconn) SetWriteDeadline(t time.Time) error { return nil }
func (c *lconn) Close() error {
	w := c.w
	w.mu.Lock()
	c.closes++
	switch {
	case w.closing == c:
		if len(w.drains) > 0 {
			// still being closed
			time.Sleep(2 * time.Millisecond)
			for _, d := range w.drains {
				if len(d) > 0 {
					w.mu.Unlock()
					w.fail("draining ended before connection %d was closed below", c.id)
				}
			}
		}
	case w.sweep > 0:
		if c.st != 0 || c.busy && w.sweep == 1 {
			w.mu.Unlock()
			w.fail("connection %d was closed by the listener although it was %s", c.id, c.state())
		}
		c.st = 1
		c.want++
		if f := w.nest; f != nil && w.rnd.Intn(2) == 0 {
			w.nest = nil
			w.mu.Unlock()
			f(c)
			return errLClose
		}
	default:
		w.mu.Unlock()
		w.fail("connection %d (%s) was closed out of the blue", c.id, c.state())
	}
	w.mu.Unlock()
	return errLClose
}

func (c *lconn) state() string {
	return []string{"managed", "closed", "disowned"}[c.st] + map[bool]string{true: " and in use", false: " and idle"}[c.busy]
}

func (w *lworld) Accept() (net.Conn, error) { return w.next, nil }
func (w *lworld) Close() error              { w.lclosed++; return nil }
func (w *lworld) Addr() net.Addr            { return &net.TCPAddr{} }

func (w *lworld) accept() {
	c := &lconn{id: len(w.conns), w: w}
	w.log = append(w.log, "accept")
	w.next = c
	if w.draining {
		w.closing, c.want, c.st = c, 1, 1
	}
	g, err := w.l.Accept()
	w.closing = nil
	if w.draining {
		if err == nil {
			w.fail("a connection was handed out while draining")
		}
	} else {
		if err != nil {
			w.fail("Accept: %v", err)
		}
		c.c = g
		w.conns = append(w.conns, c)
	}
	if c.closes != c.want {
		w.fail("connection %d: %d closes below, want %d", c.id, c.closes, c.want)
	}
}

// idle is what becoming idle does
func (w *lworld) idle(c *lconn) {
	if c.st == 0 && c.busy {
		c.busy = false
		if w.draining {
			w.closing, c.st = c, 1
			c.want++
		}
	}
}

func (w *lworld) op(c *lconn, deep bool) {
	c.touched = true
	k := w.rnd.Intn(6)
	w.log = append(w.log, fmt.Sprintf("%s(%d)", []string{"close", "disown", "idle", "use", "read", "deadline"}[k], c.id))
	switch k {
	case 0:
		st := c.st
		if st != 1 {
			w.closing = c
			c.want++
		}
		if st == 0 {
			c.st = 1
		}
		err := c.c.Close()
		if st == 1 && (err == nil || err == errLClose) || st != 1 && err != errLClose {
			w.fail("Close returned %v", err)
		}
	case 1:
		err := listener.Disown(c.c)
		if (err == nil) != (c.st == 0) {
			w.fail("Disown of a connection that is %s returned %v", c.state(), err)
		}
		if c.st == 0 {
			c.st = 2
		}
	case 2:
		w.idle(c)
		if err := listener.MarkIdle(c.c); err != nil {
			w.fail("MarkIdle: %v", err)
		}
	case 3:
		if c.st == 0 {
			c.busy = true
		}
		if err := listener.MarkInUse(c.c); err != nil {
			w.fail("MarkInUse: %v", err)
		}
	case 4:
		c.readN, c.readErr = w.rnd.Intn(4), nil
		if w.rnd.Intn(2) == 0 {
			c.readErr = errLRead
		}
		if deep && w.rnd.Intn(2) == 0 {
			c.inRead = func() {
				w.log = append(w.log, "[in read:")
				if w.rnd.Intn(3) == 0 && w.sweep == 0 {
					w.sweeps(0)
				} else {
					w.op(c, false)
				}
				w.log = append(w.log, "]")
			}
		}
		n, err := c.c.Read(make([]byte, 8))
		if c.st == 1 {
			if n != 0 || err == nil {
				w.fail("a Read that ended after the close returned %d, %v", n, err)
			}
		} else {
			if n != c.readN || err != c.readErr {
				w.fail("Read returned %d, %v", n, err)
			}
			if c.st == 0 && w.mode != 0 {
				c.busy = true
			}
		}
	case 5:
		if w.mode == 2 {
			w.idle(c)
		}
		if err := c.c.SetReadDeadline(time.Time{}); err != nil {
			w.fail("SetReadDeadline: %v", err)
		}
	}
	w.closing = nil
	w.check()
}

func (w *lworld) check() {
	for _, c := range w.conns {
		if c.closes != c.want {
			w.fail("connection %d (%s): %d closes below, want %d", c.id, c.state(), c.closes, c.want)
		}
	}
}

// sweeps runs CloseIdle (0), Drain (1) or DrainAll (2)
func (w *lworld) sweeps(k int) {
	w.log = append(w.log, []string{"closeidle", "drain", "drainall"}[k])
	must := map[*lconn]bool{}
	for _, c := range w.conns {
		c.touched = false
		if c.st == 0 && (!c.busy || k == 2) {
			must[c] = true
		}
	}
	w.nest = func(not *lconn) {
		s := w.sweep
		for _, c := range w.conns {
			if c != not && w.rnd.Intn(2) == 0 {
				w.log = append(w.log, fmt.Sprintf("[in close of %d:", not.id))
				// not drained or closed by what happens in here
				if c.st == 0 && !c.busy {
					if w.rnd.Intn(2) == 0 {
						c.touched = true
						w.log = append(w.log, fmt.Sprintf("disown(%d)]", c.id))
						if err := listener.Disown(c.c); err != nil {
							w.fail("Disown: %v", err)
						}
						c.st = 2
					} else {
						c.touched = true
						c.busy = true
						w.log = append(w.log, fmt.Sprintf("use(%d)]", c.id))
						listener.MarkInUse(c.c)
					}
				} else if c.st == 0 && c.busy && k > 0 && w.rnd.Intn(2) == 0 {
					w.log = append(w.log, fmt.Sprintf("idle(%d)]", c.id))
					// at once, or when its turn comes
					c.busy = false
					c.touched = false
					must[c] = true
					listener.MarkIdle(c.c)
				} else {
					w.log = append(w.log, "]")
				}
			}
		}
		w.sweep = s
	}
	w.sweep = 1
	if k == 2 {
		w.sweep = 2
	}
	swept := func() bool {
		w.mu.Lock()
		defer w.mu.Unlock()
		for c := range must {
			if c.st == 0 && (!c.touched || k == 2) {
				return false
			}
		}
		return true
	}
	if k == 0 {
		w.l.CloseIdle()
	} else {
		done := make(chan error, 1)
		go func() {
			defer func() {
				if r := recover(); r != nil {
					fmt.Printf("FAILING INPUT: mode %d, operations: %s: panic: %v\n", w.mode, strings.Join(w.log, ", "), r)
					done <- errors.New("panic")
				}
			}()
			var err error
			if k == 1 {
				err = w.l.Drain()
			} else {
				err = w.l.DrainAll()
			}
			done <- err
		}()
		for i := 0; i < 400 && !swept(); i++ {
			time.Sleep(5 * time.Millisecond)
		}
		time.Sleep(5 * time.Millisecond)
		w.draining = true
		w.drains = append(w.drains, done)
	}
	if !swept() {
		w.fail("some idle connection was not closed")
	}
	w.mu.Lock()
	w.sweep = 0
	w.nest = nil
	w.mu.Unlock()
	w.check()
}

// waits checks whether the drains have returned
func (w *lworld) waits() {
	left := 0
	for _, c := range w.conns {
		if c.st == 0 {
			left++
		}
	}
	var rest []chan error
	for _, d := range w.drains {
		if left == 0 {
			select {
			case err := <-d:
				if err != nil {
					w.fail("draining failed: %v", err)
				}
			case <-time.After(5 * time.Second):
				w.fail("draining does not end although no tracked connection is left")
			}
		} else {
			select {
			case <-d:
				w.fail("draining ended although %d tracked connections are left", left)
			default:
				rest = append(rest, d)
			}
		}
	}
	w.drains = rest
}

func listenerRun(t *testing.T, rnd *rand.Rand) {
	w := &lworld{t: t, rnd: rnd, mode: rnd.Intn(3)}
	w.l = [...]func(net.Listener) *listener.T{
		func(l net.Listener) *listener.T { return listener.Wrap(l, listener.Manual) },
		func(l net.Listener) *listener.T { return listener.Wrap(l, listener.Automatic) },
		func(l net.Listener) *listener.T { return listener.Wrap(l, listener.Deadline) }}[w.mode](w)
	defer func() {
		if r := recover(); r != nil {
			w.fail("panic: %v", r)
		}
	}()
	end := make(chan bool)
	defer close(end)
	go func() {
		select {
		case <-end:
		case <-time.After(20 * time.Second):
			fmt.Printf("FAILING INPUT: mode %d, operations: %s: blocked\n", w.mode, strings.Join(w.log, ", "))
			panic("blocked")
		}
	}()
	other := &lconn{}
	if listener.Disown(other) == nil || listener.MarkIdle(other) == nil || listener.MarkInUse(other) == nil {
		w.fail("an operation on a connection of another listener returned no error")
	}
	n := 1 + rnd.Intn(6)
	if rnd.Intn(4) == 0 {
		n += 4 * runtime.NumCPU() // so that some share a shard
	}
	for i := 0; i < n; i++ {
		w.accept()
	}
	steps := 2 + rnd.Intn(20)
	drained := 0
	for i := 0; i < steps; i++ {
		switch x := rnd.Intn(14); {
		case x == 0:
			w.sweeps(0)
		case x == 1 && drained < 2:
			drained++
			w.sweeps(1)
		case x == 2 && drained < 2 && rnd.Intn(2) == 0:
			drained++
			w.sweeps(2)
		case x == 3:
			w.accept()
		default:
			if len(w.conns) > 0 {
				w.op(w.conns[rnd.Intn(len(w.conns))], true)
			}
		}
		w.waits()
	}
	if w.lclosed != 0 {
		w.fail("the listener underneath was closed")
	}
	for _, c := range w.conns {
		if c.st == 0 && rnd.Intn(2) == 0 {
			w.log = append(w.log, fmt.Sprintf("close(%d)", c.id))
			w.closing, c.st = c, 1
			c.want++
			c.c.Close()
			w.closing = nil
		}
	}
	w.sweeps(2)
	w.waits()
	if w.l.Close() != nil || w.lclosed != 1 {
		w.fail("Close does not close the listener underneath")
	}
}

func listenerReplay(t *testing.T) {
	rnd := seeded()
	n := 1500
	if thorough() {
		n = 8000
	}
	for i := 0; i < n; i++ {
		listenerRun(t, rnd)
	}
	fmt.Printf("REPLAY %d random sequences of operations on a wrapped listener, compared with a model\n", n)
}
