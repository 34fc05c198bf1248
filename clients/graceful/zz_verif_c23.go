package graceful

import (
	"net"
	"net/http"
)

// One server, served to its end.
func zzServe(srv *Server, l net.Listener) error { return srv.Serve(l) }

// What the HTTP server was given, while it serves.
func zzShadow() *http.Server     { return nil }
func zzAcceptFrom() net.Listener { return nil }

// The HTTP server reports a state change of one of its connections.
func zzState(srv *Server, l net.Listener, nc net.Conn, s http.ConnState) {
	srv.Serve(l)
	zzMark()
	zzShadow().ConnState(nc, s)
}

// The listener that was registered for shutdown is closed.
func zzClose(srv *Server, l net.Listener) error {
	srv.Serve(l)
	zzMark()
	return zzAcceptFrom().Close()
}

func zzMark() {}
