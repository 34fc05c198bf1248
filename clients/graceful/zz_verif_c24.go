package graceful

import "net/http"

// Serving TLS and plain HTTP, through the method and through the package.
func zzTLS(srv *Server, cert, key string) error { return srv.ListenAndServeTLS(cert, key) }
func zzTLSPkg(addr, cert, key string, h http.Handler) error {
	return ListenAndServeTLS(addr, cert, key, h)
}
func zzPlain(srv *Server) error                     { return srv.ListenAndServe() }
func zzPlainPkg(addr string, h http.Handler) error { return ListenAndServe(addr, h) }
