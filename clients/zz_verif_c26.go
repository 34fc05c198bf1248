package goji

import (
	"crypto/tls"
	"net"

	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
)

// The package has been initialised. The expected middleware, outermost first.
func zzInit() {
	zzExpect(middleware.RequestID)
	zzExpect(middleware.Logger)
	zzExpect(middleware.Recoverer)
	zzExpect(middleware.AutomaticOptions)
}

func zzExpect(m web.MiddlewareType) {}

func zzListener(l net.Listener) { ServeListener(l) }
func zzServe()                  { Serve() }
func zzServeTLS(c *tls.Config)  { ServeTLS(c) }
