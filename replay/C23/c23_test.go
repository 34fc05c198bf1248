package zzverif

import (
	"context"
	"errors"
	"io"
	"net"
	"net/http"
	"reflect"
	"sync"
	"testing"
	"time"

	"github.com/zenazn/goji/graceful"
)

type errListener struct {
	err    error
	closed int
}

func (l *errListener) Accept() (net.Conn, error) { return nil, l.err }
func (l *errListener) Close() error              { l.closed++; return nil }
func (l *errListener) Addr() net.Addr            { return &net.TCPAddr{} }

func gone() error { return errors.New("use of closed network connection") }

func errorsToTry() map[error]bool {
	return map[error]bool{
		gone():              true,
		errors.New("other"): false,
		io.EOF:              false,
		&net.OpError{Op: "accept", Err: gone()}:              true,
		&net.OpError{Op: "accept", Err: errors.New("other")}: false,
		&net.OpError{Op: "read", Err: gone()}:                false,
		&net.OpError{Op: "close", Err: gone()}:               false,
	}
}

func TestReplayServe(t *testing.T) {
	for e := range errorsToTry() {
		srv := &graceful.Server{Handler: http.NotFoundHandler()}
		if got := srv.Serve(&errListener{err: e}); got != e {
			failing(t, "before any shutdown, Accept fails with %#v: Serve returned %#v", e, got)
		}
	}
	settings(t)
	graceful.Shutdown()
	for e, peaceful := range errorsToTry() {
		srv := &graceful.Server{Handler: http.NotFoundHandler()}
		got := srv.Serve(&errListener{err: e})
		if peaceful && got != nil || !peaceful && got != e {
			failing(t, "after a shutdown, Accept fails with %#v: Serve returned %#v", e, got)
		}
	}
}

// What the HTTP server is given, and the connection states it reports.
func settings(t *testing.T) {
	for _, withState := range []bool{false, true} {
		var mu sync.Mutex
		states := map[http.ConnState]int{}
		seen := make(chan *http.Server, 10)
		mux := http.NewServeMux()
		mux.HandleFunc("/", func(w http.ResponseWriter, r *http.Request) {
			seen <- r.Context().Value(http.ServerContextKey).(*http.Server)
		})
		srv := &http.Server{
			Addr: "x", Handler: mux, ReadTimeout: 31 * time.Second, ReadHeaderTimeout: 32 * time.Second,
			WriteTimeout: 33 * time.Second, IdleTimeout: 34 * time.Second, MaxHeaderBytes: 35000,
			BaseContext: func(net.Listener) context.Context { return context.Background() },
		}
		if withState {
			srv.ConnState = func(c net.Conn, s http.ConnState) {
				mu.Lock()
				states[s]++
				mu.Unlock()
			}
		}
		before := reflect.ValueOf(*srv).FieldByName("ConnState").Pointer()
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			t.Skip(err)
		}
		done := make(chan error, 1)
		go func() { done <- (*graceful.Server)(srv).Serve(l) }()
		tr := &http.Transport{}
		resp, err := (&http.Client{Transport: tr, Timeout: 10 * time.Second}).Get("http://" + l.Addr().String() + "/")
		if err != nil {
			failing(t, "request to the server: %v", err)
		}
		io.Copy(io.Discard, resp.Body)
		resp.Body.Close()
		shadow := <-seen
		if shadow == srv {
			failing(t, "the caller's own server serves")
		}
		if shadow.Addr != srv.Addr || shadow.Handler != srv.Handler || shadow.ReadTimeout != srv.ReadTimeout || shadow.ReadHeaderTimeout != srv.ReadHeaderTimeout ||
			shadow.WriteTimeout != srv.WriteTimeout || shadow.IdleTimeout != srv.IdleTimeout || shadow.MaxHeaderBytes != srv.MaxHeaderBytes || shadow.BaseContext == nil {
			failing(t, "settings differ: %+v", shadow)
		}
		time.Sleep(100 * time.Millisecond)
		tr.CloseIdleConnections()
		time.Sleep(200 * time.Millisecond)
		l.Close()
		select {
		case err := <-done:
			if err == nil {
				failing(t, "the listener was closed without a shutdown: Serve returned nil")
			}
		case <-time.After(10 * time.Second):
			failing(t, "Serve does not end after its listener was closed")
		}
		if reflect.ValueOf(*srv).FieldByName("ConnState").Pointer() != before {
			failing(t, "the caller's ConnState was changed")
		}
		if withState {
			mu.Lock()
			for _, s := range []http.ConnState{http.StateNew, http.StateActive, http.StateIdle, http.StateClosed} {
				if states[s] != 1 {
					failing(t, "one connection, one request: ConnState called %d times with %v", states[s], s)
				}
			}
			states = map[http.ConnState]int{}
			mu.Unlock()
		}
		// connections that are not the listener's
		a, b := net.Pipe()
		for _, s := range []http.ConnState{http.StateNew, http.StateActive, http.StateIdle, http.StateHijacked, http.StateClosed} {
			shadow.ConnState(a, s)
			if withState && states[s] != 1 {
				failing(t, "unknown connection: ConnState called %d times with %v", states[s], s)
			}
		}
		a.Close()
		b.Close()
	}
}
