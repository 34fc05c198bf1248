package graceful
alias SERVE = "github.com/zenazn/goji/graceful.(*Server).Serve"
alias LISTEN = "net.Listen"
alias LOAD = "crypto/tls.LoadX509KeyPair"
alias NEWL = "crypto/tls.NewListener"

# ---- assumed contracts of the standard library ----
# every setting of a is the one of b, except the certificates and the protocol list
def sameOthers(a, b) = a.Rand == b.Rand && a.Time == b.Time && a.NameToCertificate == b.NameToCertificate && a.GetCertificate == b.GetCertificate && a.GetClientCertificate == b.GetClientCertificate && a.GetConfigForClient == b.GetConfigForClient && a.VerifyPeerCertificate == b.VerifyPeerCertificate && a.VerifyConnection == b.VerifyConnection && a.RootCAs == b.RootCAs && a.ServerName == b.ServerName && a.ClientAuth == b.ClientAuth && a.ClientCAs == b.ClientCAs && a.InsecureSkipVerify == b.InsecureSkipVerify && a.CipherSuites == b.CipherSuites && a.PreferServerCipherSuites == b.PreferServerCipherSuites && a.SessionTicketsDisabled == b.SessionTicketsDisabled && a.ClientSessionCache == b.ClientSessionCache && a.UnwrapSession == b.UnwrapSession && a.WrapSession == b.WrapSession && a.MinVersion == b.MinVersion && a.MaxVersion == b.MaxVersion && a.CurvePreferences == b.CurvePreferences && a.DynamicRecordSizingDisabled == b.DynamicRecordSizingDisabled && a.Renegotiation == b.Renegotiation && a.KeyLogWriter == b.KeyLogWriter && a.EncryptedClientHelloConfigList == b.EncryptedClientHelloConfigList && a.EncryptedClientHelloRejectionVerify == b.EncryptedClientHelloRejectionVerify && a.EncryptedClientHelloKeys == b.EncryptedClientHelloKeys && a.GetEncryptedClientHelloKeys == b.GetEncryptedClientHelloKeys

# (SessionTicketKey, an array, is compared by the bounded check only)
extern "(*crypto/tls.Config).Clone"(c) (d)
  ensures fresh(d) && sameOthers(d, c) && d.Certificates == c.Certificates && d.NextProtos == c.NextProtos

extern "crypto/tls.LoadX509KeyPair"(cert, key) (c, err)
  event

extern "net.Listen"(network, addr) (l, err)
  event
  ensures err == nil ==> l != nil && (network == "tcp" ==> is(l, *net.TCPListener) && as(l, *net.TCPListener) != nil)

extern "crypto/tls.NewListener"(inner, config) (l)
  event
  ensures l != nil

# C23 covers this
func (*Server).Serve(srv, l) (err)
  trusted
  event

def cfg() = arg(NEWL, 0, 1, *tls.Config)
def kept(c) = sameOthers(c, old(*c)) && c.Certificates == old(c.Certificates) && c.NextProtos == old(c.NextProtos)
def certsKept(c) = forall(i, 0 <= i && i < len(c.Certificates) ==> c.Certificates[i].PrivateKey == old(c.Certificates[i].PrivateKey) && c.Certificates[i].Certificate == old(c.Certificates[i].Certificate) && c.Certificates[i].Leaf == old(c.Certificates[i].Leaf))
def loaded() = n(LOAD) == 1 && res(LOAD, 0, 1, error) == nil
def certLoaded() = len(cfg().Certificates) == 1 && cfg().Certificates[0].PrivateKey == res(LOAD, 0, 0, tls.Certificate).PrivateKey && cfg().Certificates[0].Certificate == res(LOAD, 0, 0, tls.Certificate).Certificate && cfg().Certificates[0].Leaf == res(LOAD, 0, 0, tls.Certificate).Leaf
def h1(s) = len(s) == 1 && s[0] == "http/1.1"
def listened(a, port) = n(LISTEN) == 1 && called(LISTEN, 0, "tcp", ite(a == "", port, a))

# what serves, and with which error it ends
def outcome(err) = ite(!loaded(), n(LISTEN) == 0 && n(SERVE) == 0 && err == res(LOAD, 0, 1, error), n(LISTEN) == 1 && ite(res(LISTEN, 0, 1, error) != nil, n(SERVE) == 0 && err == res(LISTEN, 0, 1, error), n(SERVE) == 1 && err == res(SERVE, 0, 0, error)))
def nothingYet() = n(SERVE) == 0 && n(LISTEN) == 0 && n(LOAD) == 0 && n(NEWL) == 0

client zzTLS(srv, cert, key) (err)
  prop C24
  requires srv != nil && nothingYet()
  ensures [files] n(LOAD) == 1 && called(LOAD, 0, cert, key)
  ensures [outcome] outcome(err)
  ensures [address] n(LISTEN) > 0 ==> listened(old(srv.Addr), ":https")
  ensures [listener] n(SERVE) > 0 ==> n(NEWL) == 1 && called(SERVE, 0, srv, res(NEWL, 0, 0, net.Listener))
  ensures [certificate] n(SERVE) > 0 ==> atcall(SERVE, certLoaded())
  ensures [settings] n(SERVE) > 0 && old(srv.TLSConfig) != nil ==> atcall(SERVE, sameOthers(cfg(), old(srv.TLSConfig)))
  ensures [protocols] n(SERVE) > 0 && old(srv.TLSConfig) != nil && old(srv.TLSConfig.NextProtos) != nil ==> atcall(SERVE, cfg().NextProtos == old(srv.TLSConfig.NextProtos))
  ensures [default-protocols] n(SERVE) > 0 && (old(srv.TLSConfig) == nil || old(srv.TLSConfig.NextProtos) == nil) ==> atcall(SERVE, h1(cfg().NextProtos))
  ensures [default-version] n(SERVE) > 0 && old(srv.TLSConfig) == nil ==> atcall(SERVE, cfg().MinVersion == 769)
  ensures [caller-kept] srv.TLSConfig == old(srv.TLSConfig) && (srv.TLSConfig != nil ==> kept(srv.TLSConfig))
  ensures [caller-protocols] srv.TLSConfig != nil ==> forall(i, 0 <= i && i < len(srv.TLSConfig.NextProtos) ==> srv.TLSConfig.NextProtos[i] == old(srv.TLSConfig.NextProtos[i]))
  ensures [caller-certificates] srv.TLSConfig != nil ==> certsKept(srv.TLSConfig)
  ensures [own-config] n(NEWL) > 0 ==> fresh(cfg())

client zzTLSPkg(addr, cert, key, h) (err)
  prop C24
  requires nothingYet()
  ensures [files] n(LOAD) == 1 && called(LOAD, 0, cert, key)
  ensures [outcome] outcome(err)
  ensures [address] n(LISTEN) > 0 ==> listened(addr, ":https")
  ensures [listener] n(SERVE) > 0 ==> n(NEWL) == 1 && arg(SERVE, 0, 1, net.Listener) == res(NEWL, 0, 0, net.Listener) && atcall(SERVE, arg(SERVE, 0, 0, *Server).Handler == h)
  ensures [certificate] n(SERVE) > 0 ==> atcall(SERVE, certLoaded())
  ensures [default-protocols] n(SERVE) > 0 ==> atcall(SERVE, h1(cfg().NextProtos))
  ensures [default-version] n(SERVE) > 0 ==> atcall(SERVE, cfg().MinVersion == 769)

def plainOutcome(err) = n(LISTEN) == 1 && ite(res(LISTEN, 0, 1, error) != nil, n(SERVE) == 0 && err == res(LISTEN, 0, 1, error), n(SERVE) == 1 && err == res(SERVE, 0, 0, error))

client zzPlain(srv) (err)
  prop C24
  requires srv != nil && nothingYet()
  ensures [outcome] plainOutcome(err)
  ensures [address] listened(old(srv.Addr), ":http")
  ensures [server] n(SERVE) > 0 ==> arg(SERVE, 0, 0, *Server) == srv

client zzPlainPkg(addr, h) (err)
  prop C24
  requires nothingYet()
  ensures [outcome] plainOutcome(err)
  ensures [address] listened(addr, ":http")
  ensures [server] n(SERVE) > 0 ==> atcall(SERVE, arg(SERVE, 0, 0, *Server).Handler == h)
