package listener

import (
	"net"
	"time"
)

// One operation on a connection that Accept returned.
func zzClose(c *conn) error                        { return c.Close() }
func zzDisown(c *conn) error                       { return Disown(c) }
func zzMarkIdle(c *conn) error                     { return MarkIdle(c) }
func zzMarkInUse(c *conn) error                    { return MarkInUse(c) }
func zzRead(c *conn, b []byte) (int, error)        { return c.Read(b) }
func zzSetReadDeadline(c *conn, t time.Time) error { return c.SetReadDeadline(t) }

// Operations on other connections.
func zzForeignDisown(c net.Conn) error    { return Disown(c) }
func zzForeignMarkIdle(c net.Conn) error  { return MarkIdle(c) }
func zzForeignMarkInUse(c net.Conn) error { return MarkInUse(c) }

// Operations on the listener.
func zzWrap(l net.Listener, m mode) *T { return Wrap(l, m) }
func zzAccept(t *T) (net.Conn, error)  { return t.Accept() }
func zzCloseIdle(t *T) error           { return t.CloseIdle() }
func zzDrain(t *T) error               { return t.Drain() }
func zzDrainAll(t *T) error            { return t.DrainAll() }
func zzListenerClose(t *T) error       { return t.Close() }
