package graceful

import (
	"net"
	"os"

	"github.com/zenazn/goji/graceful/listener"
)

// One call of shutdown, whatever happened before: the order of the phases.
func zzShutdown(force bool, sig os.Signal) { shutdown(force, sig) }
func zzManual()                            { Shutdown() }
func zzManualNow()                         { ShutdownNow() }

// The same, when this call is the one that runs the named phase.
func zzPre(force bool, sig os.Signal)    { shutdown(force, sig) }
func zzClose(force bool, sig os.Signal)  { shutdown(force, sig) }
func zzPost(force bool, sig os.Signal)   { shutdown(force, sig) }
func zzNotify(force bool, sig os.Signal) { shutdown(force, sig) }

func zzWait() { Wait() }

// Registration.
func zzPreHook(f func(), sig os.Signal) {
	PreHook(f)
	zzMark()
	zzLastPre()(sig)
}
func zzPostHook(f func(), sig os.Signal) {
	PostHook(f)
	zzMark()
	zzLastPost()(sig)
}
func zzPreHookS(f func(os.Signal))  { PreHookWithSignal(f) }
func zzPostHookS(f func(os.Signal)) { PostHookWithSignal(f) }
func zzLastPre() func(os.Signal)    { return nil }
func zzLastPost() func(os.Signal)   { return nil }
func zzMark()                       {}

func zzWrapListener(l net.Listener) net.Listener { return WrapListener(l) }
func zzServe(srv *Server, l net.Listener)        { srv.Serve(l) }

func zzInner(t *listener.T) net.Listener { return nil }
